"""Runs a program's events on the real library and records what happens."""

import copy
import io
import os
import signal
import tempfile
import time
import warnings

from binobj import Struct
from binobj.fields.base import Field
from binobj.structures import MutableStructMappingProxy
from binobj.structures import StructMappingProxy

from build import CLOCK
from build import make_class
from build import Refusal
from values import dec
from values import enc
from values import enc_struct
from values import set_names
from values import vary

warnings.simplefilter("ignore")


class Context(int):
    """An object given as context: not all of them are true."""

    def __bool__(self):
        return self % 2 == 1


def open_stream(b, p):
    """A stream with content `b` at position `p`: in memory or a file."""
    s = tempfile.TemporaryFile() if (len(b) + p) % 3 == 1 else io.BytesIO()
    s.write(bytes(b))
    s.seek(p)
    return s


class Pipe(io.BufferedIOBase):
    """A stream that can only be written to."""

    def __init__(self):
        self.buf = bytearray()

    def writable(self):
        return True

    def write(self, b):
        self.buf += b
        return len(b)


def out_stream(b, p):
    """Where to write to at position `p` of what's already there, `b`."""
    return open_stream(b, p) if b or p else Pipe()


def position(s):
    """How far a stream was written."""
    return len(s.buf) if isinstance(s, Pipe) else s.tell()


def content(s):
    """What's in a stream."""
    if isinstance(s, Pipe):
        return bytes(s.buf)
    s.seek(0)
    return s.read()


def raw_data(b):
    """Data in one of the forms it's accepted in."""
    return (bytes, bytearray, lambda x: memoryview(bytes(x)))[max(0, sum(b) % 5 - 2)](b)


class Hang(BaseException):
    """Not finished in time."""


TIMERS = ((signal.SIGPROF, signal.ITIMER_PROF, 4),
          (signal.SIGALRM, signal.ITIMER_REAL, 100))


def _alarm(signum, frame):
    raise Hang


def set_zone(tz):
    """Put the local clock where `tz` says (see Codec.tla)."""

    def name(letters, seconds):
        s = abs(seconds)
        return f"{letters}{'-' if seconds >= 0 else '+'}{s // 3600:02}:{s // 60 % 60:02}:{s % 60:02}"

    os.environ["TZ"] = name("XXX", tz["off"])
    if tz["on"]:
        os.environ["TZ"] += name("YYY", tz["dst"]) + f",J{tz['on']}/2,J{tz['until']}/3"
    time.tzset()


def error_record(e):
    field = getattr(e, "field", None)
    try:
        str(e)
    except Exception:
        return {"r": "err", "mro": ["Unprintable"], "field": "", "v": 0}
    if isinstance(field, Field):
        field = getattr(field, "name", None)
    return {
        "r": "err",
        "mro": ["ValidationError"] if isinstance(e, Refusal) else [c.__name__ for c in type(e).__mro__],
        "field": field if isinstance(field, str) else "",
        "v": 0,
    }


def spoil(v):
    """Change a result given to the caller, who is free to do so."""
    if isinstance(v, dict):
        for x in list(v.values()):
            spoil(x)
        v["spoilt"] = 1
    elif isinstance(v, list):
        for x in v:
            spoil(x)
        v.append("spoilt")


# The type of what an operation gives, where it's not the record of a value.
RESULTS = {"len": int, "in": bool, "eq": bool, "size": list, "iter": list, "view": list, "dump": list, "fdump": list}
VALUES = ("get", "dict", "fload", "floads", "getf")


def spelt(n):
    """The name of a field, with a question mark for the empty one."""
    return "" if n == "?" else n


def limited(n):
    """Integers TLC can have."""
    return max(-(2**30), min(2**30, n))


def plain(v, op):
    """Check that a result is of the kind it should be, so that it can be compared."""
    if op in RESULTS:
        if type(v) is not RESULTS[op]:
            raise TypeError(f"{op} gave {v!r}")
        if op == "len":
            return limited(v)
        if op == "size":
            flat = [v[0], *v[1], *v[2]]
            if any(type(x) is not int for x in flat):
                raise TypeError(f"sizes {v!r}")
            return [limited(v[0]), [limited(x) for x in v[1]], v[2]]
    elif op not in VALUES and v is not None:
        raise TypeError(f"{op} gave {v!r}")
    return v


class Runner:
    """One run of a program."""

    def __init__(self, prog, slots=3):
        self.prog = prog
        self.classes = []
        self.objs = [None] * slots
        self.events = []
        self.hung = False
        self.seen = self.state()
        set_zone(prog["tz"])
        CLOCK[0] = 0

    # What the instances look like, as far as a user can tell.
    def state(self):
        return [{"t": "nil"} if o is None else enc_struct(o, self.classes) for o in self.objs]

    def trace(self, name=""):
        return {"id": name, "prog": self.prog, "slots": len(self.objs), "ev": self.events}

    def do(self, op, **args):
        """Run one operation and record it. Returns the record."""
        ev = {"op": op, **args}
        self.args_ok = True
        self.pos = -1
        self.out = None
        # Processor time, since how busy the machine is doesn't matter.
        for sig, timer, seconds in TIMERS:
            signal.signal(sig, _alarm)
            signal.setitimer(timer, seconds)
        try:
            value = plain(getattr(self, "op_" + op)(ev), op)
            res = {"r": "ok", "v": 0 if value is None else value, "mro": [], "field": ""}
        except Hang:
            self.hung = True
            res = {"r": "err", "mro": ["Hang"], "field": "", "v": 0}
        except RecursionError as e:
            res = error_record(e)
        except Exception as e:
            res = error_record(e)
        finally:
            for sig, timer, seconds in TIMERS:
                signal.setitimer(timer, 0)
        res["args"] = self.args_ok
        res["pos"] = limited(self.pos)
        if self.out is not None:
            res["out"] = list(content(self.out))
            self.out.close()
        ev["res"] = res
        # The instances afterwards; nothing if they're the same as before.
        try:
            st = self.state()
        except Exception:
            st = [{"t": "weird", "w": "unreadable"}] * len(self.objs)
        ev["st"] = [] if st == self.seen else st
        self.seen = st
        self.events.append(ev)
        return ev

    # Helpers
    def val(self, r):
        return vary(dec(r, self.classes))

    def given(self, pairs):
        return {k: self.val(x) for k, x in pairs}

    def enc(self, v):
        return enc(v, self.classes)

    def obj(self, ev):
        o = self.objs[ev["o"] - 1]
        for n in ev.get("path", ()):
            o = o[n]
        return o

    def put(self, ev, obj):
        self.objs[ev["o"] - 1] = obj

    def cls(self, ev):
        return self.classes[ev["c"] - 1]

    def field(self, ev):
        rec = list(self.cls(ev).__binobj_struct__.components.values())
        return rec[ev["f"] - 1]

    def ctx(self, ev):
        return Context(ev["ctx"]) if ev["ctx"] else None

    def stream(self, ev):
        return open_stream(ev["b"], ev["p"])

    # Declarations
    def op_decl(self, ev):
        assert len(self.classes) == ev["c"] - 1
        self.classes.append(make_class(self.prog["classes"][ev["c"] - 1], self.classes, self.prog.get("same")))

    def op_size(self, ev):
        cls = self.cls(ev)
        size = cls.get_size()
        comps = cls.__binobj_struct__.components.values()
        assert all(getattr(cls, f.name) is f for f in comps)
        return [
            -1 if size is None else size,
            [-1 if f.offset is None else f.offset for f in comps],
            [f.index for f in comps],
        ]

    # Fields
    def op_fdump(self, ev):
        f = self.field(ev)
        args = [self.val(x) for x in ev["v"]]
        env = self.given(ev["env"])
        before = self.enc(env)
        if ev.get("via") == "stream":
            s = io.BytesIO()
            f.to_stream(s, *args, context=self.ctx(ev), all_fields=env or None)
            b = s.getvalue()
        else:
            b = f.to_bytes(*args, context=self.ctx(ev), all_fields=env or None)
        self.args_ok = self.enc(env) == before
        return self.raw(b)

    @staticmethod
    def raw(b):
        if not isinstance(b, (bytes, bytearray)):
            raise TypeError("not bytes")
        return list(b)

    def op_fload(self, ev):
        f = self.field(ev)
        env = self.given(ev["env"])
        before = self.enc(env)
        v = f.from_bytes(raw_data(ev["b"]), self.ctx(ev), ev["exact"], env or None)
        self.args_ok = self.enc(env) == before
        return self.enc(v)

    def op_floads(self, ev):
        f = self.field(ev)
        s = self.stream(ev)
        v = f.from_stream(s, self.ctx(ev), self.given(ev["env"]) or None)
        self.pos = s.tell()
        return self.enc(v)

    # Instances
    def op_new(self, ev):
        self.put(ev, self.cls(ev)(**self.given(ev["kw"])))

    def op_set(self, ev):
        o, v, via = self.obj(ev), self.val(ev["v"]), ev["via"]
        if via == "attr":
            setattr(o, ev["n"], v)
        elif via == "item":
            o[ev["n"]] = v
        elif via == "update":
            MutableStructMappingProxy(o).update({ev["n"]: v})
        else:
            MutableStructMappingProxy(o)[ev["n"]] = v

    def op_clone(self, ev):
        o = self.obj(ev)
        self.objs[ev["o2"] - 1] = copy.deepcopy(o) if ev["via"] == "deep" else copy.copy(o)

    def op_tick(self, ev):
        CLOCK[0] += 1

    def op_append(self, ev):
        self.obj(ev)[ev["n"]].append(self.val(ev["v"]))

    def op_del(self, ev):
        o = self.obj(ev)
        if ev["via"] == "proxy":
            del MutableStructMappingProxy(o)[ev["n"]]
        else:
            del o[ev["n"]]

    def op_get(self, ev):
        o, via = self.obj(ev), ev["via"]
        if via == "attr":
            return self.enc(getattr(o, ev["n"]))
        if via == "proxy":
            return self.enc(StructMappingProxy(o)[ev["n"]])
        return self.enc(o[ev["n"]])

    def op_in(self, ev):
        return ev["n"] in self.obj(ev)

    def op_iter(self, ev):
        o = self.obj(ev)
        names = list(iter(StructMappingProxy(o))) if ev["via"] == "proxy" else [n for n in o]
        assert len(names) == len(set(names))
        order = list(type(o).__binobj_struct__.components)
        return sorted(names, key=lambda n: order.index(n) if n in order else 999)

    def op_view(self, ev):
        o = self.obj(ev)
        p = (MutableStructMappingProxy if ev["via"] == "mut" else StructMappingProxy)(o)
        items = dict(p.items())
        assert list(p.keys()) == list(items) and [items[n] for n in p] == list(p.values())
        return [len(p), [[n, self.enc(items[n])] for n in set_names(o)]]

    def op_len(self, ev):
        return len(self.obj(ev))

    def op_dict(self, ev):
        o = self.obj(ev)
        if not ev["keep"] and not ev["ctx"]:
            d = o.to_dict()
        else:
            d = o.to_dict(keep_discardable=ev["keep"], context=self.ctx(ev))
        r = self.enc(d)
        spoil(d)
        return r

    def op_eq(self, ev):
        o = self.obj(ev)
        if ev["d"]:
            other = self.val(ev["d"][0])
        elif ev.get("proxy"):
            other = StructMappingProxy(self.objs[ev["o2"] - 1])
        else:
            other = self.objs[ev["o2"] - 1]
        x = o == other
        assert (o != other) is (not x)
        return x

    def op_valid(self, ev):
        self.obj(ev).validate_contents()

    # Serialising
    def op_dump(self, ev):
        o = self.obj(ev)
        if ev["via"] == "bytes":
            return self.raw(bytes(o))
        return self.raw(o.to_bytes(self.ctx(ev)))

    def op_dumps(self, ev):
        self.out = out_stream(ev["pre"], ev["p"])
        self.obj(ev).to_stream(self.out, self.ctx(ev))
        self.pos = position(self.out)

    def op_pdump(self, ev):
        self.out = out_stream(ev["pre"], ev["p"])
        self.obj(ev).partial_dump(self.out, ev["last"] or None, self.ctx(ev))
        self.pos = position(self.out)

    # Loading
    def op_load(self, ev):
        kw = self.given(ev["kw"])
        before = self.enc(kw)
        ctx = self.ctx(ev)
        args = {} if ev["exact"] else {"exact": False}
        if kw:
            args["init_kwargs"] = kw
        try:
            obj = self.cls(ev).from_bytes(raw_data(ev["b"]), ctx, **args)
        finally:
            self.args_ok = self.enc(kw) == before
        self.check(obj, ev)
        if getattr(obj, "extra", None) != kw.get("extra"):
            raise TypeError("the constructor wasn't given everything")
        self.put(ev, obj)
        spoil(kw)

    def op_loads(self, ev):
        kw = self.given(ev["kw"])
        s = self.stream(ev)
        try:
            obj = self.cls(ev).from_stream(s, self.ctx(ev), kw or None)
        finally:
            self.pos = s.tell()
            self.args_ok = content(s) == bytes(ev["b"])
        self.check(obj, ev)
        if getattr(obj, "extra", None) != kw.get("extra"):
            raise TypeError("the constructor wasn't given everything")
        self.put(ev, obj)
        spoil(kw)

    def op_pload(self, ev):
        s = self.stream(ev)
        obj = self.cls(ev).partial_load(s, spelt(ev["last"]) if ev["last"] else None, self.ctx(ev))
        self.pos = s.tell()
        self.check(obj, ev)
        self.put(ev, obj)

    def op_getf(self, ev):
        s = self.stream(ev)
        try:
            return self.enc(self.cls(ev).get_field(s, spelt(ev["n"]), self.ctx(ev)))
        finally:
            self.pos = s.tell()

    def check(self, obj, ev):
        if not isinstance(obj, Struct):
            raise TypeError("not a structure")
