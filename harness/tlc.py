"""Runs TLC."""

import json
import os
import re
import shutil
import subprocess
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
SPEC = os.path.join(os.path.dirname(HERE), "spec")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class TLCError(Exception):
    """TLC didn't finish."""


def failed_at(log):
    """The trace and event TLC was at when it failed to evaluate something."""
    i = log.rfind("\n/\\ tid = ")
    tid = re.findall(r"/\\ tid = (\d+)", log)
    l = re.findall(r"/\\ l = (\d+)", log)
    if i < 0 or not tid or not l or "Error:" not in log:
        return None
    return int(tid[-1]), int(l[-1])


def message(log):
    i = log.find("Error:")
    return log[i : i + 400]


def run_shards(module, cfg, scratch, files, workers=2, **kw):
    """Check `module` for each of some input files, in parallel. Results are those of run()."""
    from concurrent.futures import ThreadPoolExecutor

    with ThreadPoolExecutor(max(1, 8 // workers)) as ex:
        return list(ex.map(lambda f: run(module, cfg, scratch, env={"TRACES": f}, workers=workers, **kw), files))


def prepare(scratch):
    """A new directory with the specification."""
    work = tempfile.mkdtemp(prefix="tlc", dir=scratch)
    for name in os.listdir(SPEC):
        if name.endswith((".tla", ".cfg")):
            shutil.copy(os.path.join(SPEC, name), work)
    return work


def command(module, cfg, work, workers, heap):
    return [
        "java", "-XX:+UseParallelGC", f"-XX:ParallelGCThreads={workers}", f"-Xmx{heap}", "-Xss32m", f"-Djava.io.tmpdir={work}", "-cp", JARS,
        "tlc2.TLC", "-noGenerateSpecTE", "-metadir", os.path.join(work, "meta"), "-workers", str(workers),
        "-config", cfg, module + ".tla",
    ]


def run(module, cfg, scratch, env=None, workers=8, timeout=800, heap="3g"):
    """Check `module`. Returns what it printed for us, and the number of states."""
    work = prepare(scratch)
    log = os.path.join(work, "log")
    cmd = command(module, cfg, work, workers, heap)
    with open(log, "w") as f:
        try:
            rc = subprocess.run(
                cmd, cwd=work, env={**os.environ, 'TZ': 'UTC', **(env or {})}, stdout=f, stderr=subprocess.STDOUT, timeout=timeout
            ).returncode
        except subprocess.TimeoutExpired:
            raise TLCError(f"{module}: no result after {timeout} s")
    with open(log, errors="replace") as f:
        text = f.read()
    out = []
    for line in text.splitlines():
        if line.startswith('"@@'):
            out.append(json.loads(json.loads(line)[2:]))
    states = re.findall(r"(\d+) states generated, (\d+) distinct", text)
    gen, distinct = map(int, states[-1]) if states else (0, 0)
    done = "Model checking completed. No error has been found." in text
    shutil.rmtree(work, ignore_errors=True)
    return {"rc": rc, "out": out, "generated": gen, "distinct": distinct, "done": done, "log": text}
