"""Explores a property's model with TLC and replays what it prints on the library.

TLC explores MC for the property: every instance of the catalogue's declarations
that the menu of assignments leads to. It checks the property in each state, and
prints how the state was reached and what may be observed in it. All of that is
done to the library and compared.
"""

import json
import os
import re
import subprocess
import time
from concurrent.futures import ProcessPoolExecutor
from concurrent.futures import ThreadPoolExecutor

import tlc

SHARDS = 2       # JVMs
PARTS = 4        # processes that replay what one of them printed
# Invariants of MC, beyond Emit (which prints): what Holds is, for a property.
CHECKED = {
    "C01": "RoundTrip", "C02": "Layout, Untouched", "C08": "Sizes", "C09": "Positions, PartsAgree", "C10": "Truncated",
    "C11": "Consumes", "C12": "Guarded, LoadsValid", "C13": "Constants_, LoadsConstants", "C14": "Sources",
    "C15": "Nulls, NullLoads", "C16": "Absent", "C17": "Arrays, WrongCounts, LoadsCounts", "C18": "Inner", "C19": "Mapping",
    "C20": "Inherits, Unchanged, Refused, StyleFree", "C21": "Inherits, Unchanged, Refused, StyleFree", "C22": "Clean",
    "C23": "PrefixDumps", "C24": "Discards, Overrides",
}


def same(a, b):
    return json.dumps(a, sort_keys=True) == json.dumps(b, sort_keys=True)


def disagreement(out, got, st, before):
    """Machine.Disagreement"""
    res = out["res"]
    if res["r"] == "any":
        return ""
    if res["r"] != got["r"]:
        return "outcome"
    if res["r"] == "ok" and not same(res["v"], got["v"]):
        return "value"
    if res["r"] == "err" and not any(
        (c == "*" or c in got["mro"]) and (n == "" or n == got["field"]) for c, n in res["e"]
    ):
        return "error"
    if out["outs"] and not any(same(got.get("out"), o) for o in out["outs"]):
        return "stream"
    if out["pos"] != -1 and got["pos"] != out["pos"]:
        return "position"
    if not got["args"]:
        return "arguments"
    if not same(out["objs"] or before, st):
        return "instances"
    return ""


class Replay:
    """What TLC printed for one shard, done to the library."""

    def __init__(self, limit=4):
        self.programs = {}
        self.problems = []
        self.limit = limit
        self.states = self.events = self.fixed = 0
        self.ops = {}
        self.sample = None

    def problem(self, pid, hist, ev, got, wrong, allowed, st=None):
        from run import limited  # noqa: F401

        self.problems.append({
            "kind": "model", "wrong": wrong, "event": ev, "observed": got, "allowed": allowed, "history": hist,
            "instances": st, "program": self.programs[pid][0],
        })

    def do(self, r, ev):
        ev = dict(ev)
        rec = r.do(ev.pop("op"), **ev)
        return rec["res"], r.seen

    def compare(self, pid, hist, r, before, ev, outs):
        got, st = self.do(r, ev)
        self.events += 1
        key = ev["op"] + ("" if got["r"] == "ok" else "!")
        self.ops[key] = self.ops.get(key, 0) + 1
        wrongs = [disagreement(o, got, st, before) for o in outs]
        if "" not in wrongs:
            self.problem(pid, hist, ev, got, wrongs[0], outs, st)
        return st

    def fresh(self, pid, hist):
        from run import Runner

        prog, classes = self.programs[pid]
        r = Runner(prog, slots=2)
        r.classes = classes
        for ev in hist:
            self.do(r, ev)
        return r

    def program(self, pid, prog, decls):
        from run import Runner

        r = Runner(prog, slots=2)
        self.programs[pid] = (prog, r.classes)
        nothing = r.seen
        for ev, outs in decls:
            n = len(self.problems)
            self.compare(pid, [], r, nothing, ev, outs)
            if ev["op"] == "decl" and (len(self.problems) > n or outs[0]["res"]["r"] != "ok"):
                # The class can't be used.
                return

    def state(self, pid, hist, objs, events):
        self.states += 1
        r = self.fresh(pid, [] if hist == [0] else hist)
        if not same(r.seen, objs):
            last = r.events[-1] if r.events else {}
            self.problem(pid, hist, {k: v for k, v in last.items() if k not in ("res", "st")}, last.get("res"),
                         "state", objs, r.seen)
            return
        for ev, outs in events:
            st = self.compare(pid, hist, r, objs, ev, outs)
            if not same(st, objs):
                r = self.fresh(pid, [] if hist == [0] else hist)
            if len(self.problems) >= self.limit:
                return
        r.events = []

    def run(self, path, part):
        later = []
        with open(path, errors="replace") as f:
            for line in f:
                m = re.match(r'"@@\[\\"[A-Z]+\\",(\d+),', line)
                if not m or int(m.group(1)) // SHARDS % PARTS != part:
                    continue
                x = json.loads(json.loads(line)[2:])
                if x[0] == "PROGRAM":
                    self.program(*x[1:])
                elif x[1] in self.programs:
                    self.one(x)
                else:
                    later.append(x)
                if len(self.problems) >= self.limit:
                    break
        for x in later:
            if len(self.problems) < self.limit:
                self.one(x)

    def one(self, x):
        if self.sample is None and len(x[2]) > 2:
            self.sample = {"history": x[2], "instances": x[3], "some of what is compared": x[4][:3]}
        self.state(*x[1:])


def limit_memory():
    import resource

    resource.setrlimit(resource.RLIMIT_AS, (2 << 30, resource.RLIM_INFINITY))


def replay(path, part):
    rep = Replay()
    rep.run(path, part)
    return {k: getattr(rep, k) for k in ("problems", "states", "events", "ops", "sample")} | {"programs": len(rep.programs)}


def run_tlc(prop, tier, k, scratch, timeout):
    work = tlc.prepare(scratch)
    log = os.path.join(work, "log")
    env = {**os.environ, "TZ": "UTC", "PROP": prop, "TIER": tier, "SHARD": str(k), "SHARDS": str(SHARDS)}
    with open(log, "w") as f:
        try:
            subprocess.run(tlc.command("MC", "MC.cfg", work, 8 // SHARDS, "3g"), cwd=work, env=env, stdout=f,
                           stderr=subprocess.STDOUT, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise tlc.TLCError(f"MC: no result for {prop} after {timeout} s")
    with open(log, errors="replace") as f:
        text = "".join(line for line in f if not line.startswith('"@@'))
    if "Model checking completed. No error has been found." not in text:
        raise tlc.TLCError(f"MC for {prop}: " + text[-3000:])
    gen, distinct = map(int, re.findall(r"(\d+) states generated, (\d+) distinct", text)[-1])
    depth = int((re.findall(r"depth of the complete state graph search is (\d+)", text) or ["0"])[-1])
    return log, gen, distinct, depth


def explore(prop, tier, scratch, timeout=600):
    t0 = time.time()
    with ThreadPoolExecutor(SHARDS) as threads, ProcessPoolExecutor(SHARDS * PARTS, initializer=limit_memory) as procs:
        # Processes are started before there are threads.
        list(procs.map(int, range(SHARDS * PARTS)))

        def shard(k):
            log, gen, distinct, depth = run_tlc(prop, tier, k, scratch, timeout)
            spent = time.time() - t0
            parts = [procs.submit(replay, log, i) for i in range(PARTS)]
            out = gen, distinct, depth, spent, [p.result() for p in parts]
            os.unlink(log)
            return out

        done = list(threads.map(shard, range(SHARDS)))
    parts = [p for d in done for p in d[4]]
    ops = {}
    for p in parts:
        for k, v in p["ops"].items():
            ops[k] = ops.get(k, 0) + v
    out = {
        "problems": [x for p in parts for x in p["problems"]],
        "states": sum(d[1] for d in done),
        "transitions": sum(d[0] for d in done),
        "depth": max(d[2] for d in done),
        "replayed": sum(p["states"] for p in parts),
        "programs": sum(p["programs"] for p in parts),
        "events": sum(p["events"] for p in parts),
        "module": "MC",
        "invariants": CHECKED.get(prop, "CaseHolds"),
        "actions": ops,
        "samples": [p["sample"] for p in parts if p["sample"]][:1],
        "tlc_s": round(max(d[3] for d in done), 1),
        "wall_s": round(time.time() - t0, 1),
    }
    if not out["problems"] and out["replayed"] + out["programs"] != out["states"]:
        raise tlc.TLCError(f"{out['states']} states, but {out['replayed']} replayed")
    return out
