"""Random runs: programs of a profile, and what is done with them."""

import random

from gen import Gen
from gen import NONE
from gen import chance
from gen import pick
from run import Runner
from values import enc_int

OPS = dict(
    new=3, set=3, append=0.7, get=2, iter=0.4, view=0.5, len=2, dict=2, eq=1.5, valid=1, dump=3, dumps=1,
    pdump=1.5, load=4, loads=2, pload=2, getf=2, fdump=0.6, fload=0.6, floads=0.6, size=0.3, prefixes=0,
    everyfield=0, everylast=0, tick=0.3, clone=0.3, chain=0.2, roundtrip=1, **{"del": 1, "in": 0.5},
)


class Scenario:
    def __init__(self, rng, ops=None, length=24, data=None, classes=(1, 3), interleave=False, missing=None,
                 badclass=0.03, kwload=0.15, badname=0.04, anyclass=0.35, **knobs):
        self.rng = rng
        self.w = dict(ops) if ops is not None else dict(OPS)
        self.length = length
        self.data = data or dict(same=5, cut=2, more=1.5, flip=2, noise=0.7)
        self.badclass = badclass
        self.badname = badname
        self.anyclass = anyclass
        self.kwload = kwload
        self.nclasses = classes
        self.interleave = interleave
        self.g = Gen(rng, **knobs)
        self.r = None
        self.pool = {}      # class -> [(bytes, ctx)]
        self.fpool = {}     # class, field -> [(bytes, env, ctx)]
        self.alive = set()

    # ---------------------------------------------------------------- the run

    def run(self, name):
        g, rng = self.g, self.rng
        n = rng.randint(*self.nclasses)
        for i in range(n):
            g.gen_class(last=chance(rng, 0.6) or i == n - 1, plain=(i < n - 1 and chance(rng, 0.3)))
        bad = chance(rng, self.badclass)
        if bad:
            g.gen_bad_class()
        return self.go(name)

    def go(self, name):
        g, rng = self.g, self.rng
        n = len(g.prog["classes"])
        self.r = Runner(g.prog)
        todo = list(range(1, n + 1))
        while todo:
            c = todo.pop(0)
            if not self.do("decl", c=c):
                continue
            self.alive.add(c)
            g.alive.add(c)
            self.do("size", c=c)
            if self.interleave and todo:
                for _ in range(rng.randint(0, 8)):
                    self.step()
        steps = 0
        while not self.r.hung and len(self.r.events) < self.length + 2 * n and steps < 3 * self.length and self.alive:
            self.step()
            steps += 1
        return self.r.trace(name)

    def do(self, op, **args):
        self.last = self.r.do(op, **args)
        return self.last["res"]["r"] == "ok"

    def step(self):
        op = pick(self.rng, self.w)
        getattr(self, "do_" + op)()

    # ------------------------------------------------------------------ choices

    def cls(self):
        return self.rng.choice(sorted(self.alive)) if chance(self.rng, self.anyclass) else max(self.alive)

    def slot(self):
        return self.rng.randint(1, len(self.r.objs))

    def obj(self):
        """The number of a slot with an instance; one is made if there is none."""
        have = [i + 1 for i, o in enumerate(self.r.objs) if o is not None]
        if not have:
            return self.new()
        return self.rng.choice(have)

    def class_of(self, o):
        return self.r.classes.index(type(o)) + 1

    def new(self, c=None, missing=None, nice=False):
        o = self.slot()
        c = c or self.cls()
        kw = self.g.instance(c, missing=missing, nice=nice)
        if chance(self.rng, 0.02):
            kw.append(["zzz", enc_int(1)])
        if chance(self.rng, 0.5 if self.g.takes_extra(c) else 0.01):
            kw.append(["extra", enc_int(5)])
        self.rng.shuffle(kw)
        self.do("new", o=o, c=c, kw=kw)
        return o if self.r.objs[o - 1] is not None else self.obj()

    def ctx(self):
        return self.rng.choice([0, 0, 1, 2, 3]) if self.g.k["ctx"] else 0

    def junk(self, n):
        return [self.rng.choice([0, 255, 127, 128, 1, self.rng.randrange(256)]) for _ in range(n)]

    def stored(self, c):
        """Serialised data of class `c`, and the context it was made for."""
        rng = self.rng
        have = self.pool.setdefault(c, [])
        if len(have) < 4 and (not have or chance(rng, 0.4)):
            o = self.new(c, missing=0)
            ctx = self.ctx()
            if self.r.objs[o - 1] is not None and type(self.r.objs[o - 1]) is self.r.classes[c - 1]:
                if self.do("dump", o=o, ctx=ctx, via="to"):
                    have.append((self.last["res"]["v"], ctx))
        if have and not chance(rng, 0.05):
            return rng.choice(have)
        return self.junk(rng.randint(0, 12)), self.ctx()

    def damage(self, b):
        rng = self.rng
        how = pick(rng, self.data)
        if how == "cut" and b:
            return b[: rng.randrange(len(b))]
        if how == "more":
            return b + self.junk(rng.randint(1, 3))
        if how == "flip" and b:
            b = list(b)
            if chance(rng, 0.05):       # huge numbers, where their size varies
                i = rng.randrange(len(b))
                return b[:i] + [255] * rng.choice([4, 9, 12]) + b[i:]
            for _ in range(rng.choice([1, 1, 2])):
                i = rng.randrange(len(b))
                b[i] = rng.choice([0, 255, b[i] ^ (1 << rng.randrange(8)), rng.randrange(256)])
            return b
        if how == "long" and b:
            return self.rng.choice([b[:-1] + [b[-1] | 128, 0], [128] + b, b[:-1] + [b[-1] | 128, 128, 0]])
        if how == "noise":
            return self.junk(rng.randint(0, 16))
        return b

    def input(self):
        c = self.cls()
        b, ctx = self.stored(c)
        if self.g.k["ctx"] and chance(self.rng, 0.1):
            ctx = self.ctx()
        return c, self.damage(b), ctx

    def at(self, b):
        """The data inside a longer stream, and where it starts."""
        pre = self.junk(self.rng.choice([0, 0, 1, 3]))
        if chance(self.rng, 0.015):
            return b, len(b) + self.rng.choice([0, 1, 5])
        return pre + b, len(pre)

    def given(self, c):
        rng = self.rng
        extra = [["extra", enc_int(5)]] if chance(rng, 0.4 if self.g.takes_extra(c) else 0.005) else []
        if not chance(rng, self.kwload):
            return extra
        fs = self.g.fields_of(c)
        fs = [f for f in fs if f["cfn"]["m"] == "no" or not self.g.used_as_ref(f["name"], fs)]
        kw = extra
        for f in rng.sample(fs, min(len(fs), rng.choice([1, 1, 2]))):
            refs = {}
            if f["k"] != "nest":
                kw.append([f["name"], self.g.value_in(c, f, refs, nice=not chance(rng, 0.1))])
        if chance(rng, 0.05):
            kw.append(["zzz", enc_int(1)])
        return kw

    def field_names(self, c):
        return [f["name"] for f in self.g.fields_of(c)]

    def name(self, c, unknown=None):
        unknown = self.badname if unknown is None else unknown
        ns = self.field_names(c)
        return "zzz" if not ns or chance(self.rng, unknown) else self.rng.choice(ns)

    def lastname(self, c):
        n = self.name(c)
        return "?" if n == "zzz" and chance(self.rng, 0.4) else n     # the empty name

    def inside(self, o):
        """An instance in slot `o` or in one of its fields: its path and itself."""
        path, obj = [], self.r.objs[o - 1]
        for _ in range(2):
            subs = [n for n in obj if type(obj[n]) in self.r.classes and not self.is_default(obj, n)]
            if not subs or not chance(self.rng, 0.35):
                break
            path.append(self.rng.choice(subs))
            obj = obj[path[-1]]
        return path, obj

    @staticmethod
    def peek(obj, n):
        try:
            return obj[n]
        except Exception:
            return None

    @staticmethod
    def is_default(obj, n):
        return n not in obj

    def refs_of(self, obj):
        refs = {}
        for n in obj:
            v = obj[n]
            if type(v) is int and 0 <= v < 300:
                refs[n] = v
        return refs

    # --------------------------------------------------------------- operations

    def do_size(self):
        self.do("size", c=self.cls())

    def do_new(self):
        self.new()

    def do_set(self):
        o = self.obj()
        path, obj = self.inside(o)
        c = self.class_of(obj)
        n = self.name(c)
        via = self.rng.choice(["attr", "item", "proxy", "update"])
        if n == "zzz":
            self.do("set", o=o, path=path, n=n, v=enc_int(1), via="item" if via == "attr" else via)
            return
        f = next(f for f in self.g.fields_of(c) if f["name"] == n)
        self.do("set", o=o, path=path, n=n, v=self.g.value_in(c, f, self.refs_of(obj)), via=via)

    def do_tick(self):
        if any(f["fct"] for c in self.g.prog["classes"] for f in c["fields"]):
            self.do("tick")

    def do_clone(self):
        o = self.obj()
        # What's mutable is the same in both after a shallow copy.
        flat = all(x[1]["t"] not in ("list", "dict", "struct", "iter") for x in self.r.state()[o - 1]["f"])
        via = "shallow" if flat and chance(self.rng, 0.6) else "deep"
        self.do("clone", o=o, o2=self.slot(), via=via)

    def do_append(self):
        o = self.obj()
        path, obj = self.inside(o)
        c = self.class_of(obj)
        # A default that's not made by a factory is the one in the declaration.
        lists = [f for f in self.g.fields_of(c) if f["k"] == "arr" and (f["fct"] or f["name"] in obj)
                 and type(self.peek(obj, f["name"])) is list]
        if lists:
            f = self.rng.choice(lists)
            self.do("append", o=o, path=path, n=f["name"], v=self.g.value(f["comp"][0], {}, 1))

    def do_del(self):
        o = self.obj()
        path, obj = self.inside(o)
        n = self.name(self.class_of(obj))
        self.do("del", o=o, path=path, n=n, via=self.rng.choice(["item", "proxy"]))

    def do_get(self):
        o = self.obj()
        path, obj = self.inside(o)
        n = self.name(self.class_of(obj))
        via = self.rng.choice(["attr", "item", "proxy"])
        self.do("get", o=o, path=path, n=n, via="item" if n == "zzz" else via)

    def do_in(self):
        o = self.obj()
        self.do("in", o=o, n=self.name(self.class_of(self.r.objs[o - 1])))

    def do_iter(self):
        self.do("iter", o=self.obj(), via=self.rng.choice(["self", "proxy"]))

    def do_view(self):
        self.do("view", o=self.obj(), via=self.rng.choice(["const", "mut"]))

    def do_len(self):
        self.do("len", o=self.obj())

    def do_dict(self):
        self.do("dict", o=self.obj(), keep=chance(self.rng, 0.4), ctx=self.ctx())

    def do_eq(self):
        rng = self.rng
        o = self.obj()
        if chance(rng, 0.4):
            me = self.r.objs[o - 1]
            st = self.r.state()[o - 1]
            pairs = [list(p) for p in st["f"]]
            x = rng.random()
            fs = {f["name"]: f for f in self.g.fields_of(self.class_of(me))}
            if x < 0.25 and pairs:
                pairs.pop(rng.randrange(len(pairs)))
            elif x < 0.5 and pairs:
                p = rng.choice(pairs)
                if fs[p[0]]["k"] not in ("nest", "uni"):
                    p[1] = self.g.value_in(self.class_of(me), fs[p[0]], self.refs_of(me))
            elif x < 0.6:
                pairs.append(["zzz", enc_int(1)])
            rng.shuffle(pairs)
            self.do("eq", o=o, o2=0, d=[{"t": "dict", "f": pairs}], proxy=False)
            return
        o2 = self.obj()
        self.do("eq", o=o, o2=o2, d=[], proxy=chance(rng, 0.3))

    def do_valid(self):
        self.do("valid", o=self.obj())

    def complete(self):
        """An instance, most often one with all the values it needs."""
        return self.new(missing=0) if chance(self.rng, 0.5) else self.obj()

    def keep(self, o, ctx):
        b = self.last["res"]["v"]
        have = self.pool.setdefault(self.class_of(self.r.objs[o - 1]), [])
        if len(have) < 6:
            have.append((b, ctx))

    def do_dump(self):
        o, ctx = self.complete(), self.ctx()
        via = self.rng.choice(["to", "to", "bytes"])
        if via == "bytes":
            ctx = 0
        if self.do("dump", o=o, ctx=ctx, via=via):
            self.keep(o, ctx)

    def do_roundtrip(self):
        """Dump, load elsewhere, compare, dump again."""
        o, ctx = self.complete(), self.ctx()
        c = self.class_of(self.r.objs[o - 1])
        if self.do("dump", o=o, ctx=ctx, via="to"):
            self.keep(o, ctx)
            b = self.last["res"]["v"]
            o2 = o % len(self.r.objs) + 1
            if self.do("load", o=o2, c=c, b=b, ctx=ctx, exact=True, kw=[]):
                self.do("dump", o=o2, ctx=ctx, via="to")
                self.do("len", o=o2)
                if chance(self.rng, 0.5):
                    self.do("eq", o=o, o2=o2, d=[], proxy=False)

    def out(self):
        rng = self.rng
        pre = self.junk(rng.choice([0, 0, 2, 4, 20]))
        return pre, rng.choice([len(pre), len(pre), 0, rng.randint(0, len(pre)), len(pre) + 2])

    def do_dumps(self):
        o = self.complete()
        pre, p = self.out()
        self.do("dumps", o=o, ctx=self.ctx(), pre=pre, p=p)

    def do_pdump(self):
        o = self.complete() if chance(self.rng, 0.6) else self.new(missing=0.2)
        c = self.class_of(self.r.objs[o - 1])
        pre, p = self.out()
        last = "" if chance(self.rng, 0.3) else self.name(c, unknown=0)
        self.do("pdump", o=o, last="" if last == "zzz" else last, ctx=self.ctx(), pre=pre, p=p)

    def do_everylast(self):
        """Every prefix of the fields of an instance."""
        o = self.complete() if chance(self.rng, 0.6) else self.new(missing=0.2)
        c = self.class_of(self.r.objs[o - 1])
        ctx = self.ctx()
        for last in ["", *self.field_names(c)]:
            self.do("pdump", o=o, last=last, ctx=ctx, pre=[], p=0)
        self.do("dump", o=o, ctx=ctx, via="to")

    def do_load(self):
        c, b, ctx = self.input()
        self.do("load", o=self.slot(), c=c, b=b, ctx=ctx, exact=not chance(self.rng, 0.25), kw=self.given(c))

    def do_loads(self):
        c, b, ctx = self.input()
        b, p = self.at(b)
        self.do("loads", o=self.slot(), c=c, b=b, p=p, ctx=ctx, kw=self.given(c))

    def do_chain(self):
        """Structures stored one after the other."""
        rng = self.rng
        c = self.cls()
        parts = [self.stored(c) for _ in range(2)]
        ctx = parts[0][1]
        b = parts[0][0] + parts[1][0]
        p = 0
        for _ in range(3):
            if not self.do("loads", o=self.slot(), c=c, b=b, p=p, ctx=ctx, kw=[]):
                break
            p = self.last["res"]["pos"]

    def do_pload(self):
        c, b, ctx = self.input()
        b, p = self.at(b)
        last = "" if chance(self.rng, 0.45) else self.lastname(c)
        self.do("pload", o=self.slot(), c=c, b=b, p=p, last=last, ctx=ctx)

    def do_getf(self):
        c, b, ctx = self.input()
        b, p = self.at(b)
        self.do("getf", c=c, b=b, p=p, n=self.lastname(c), ctx=ctx)

    def do_prefixes(self):
        """Every prefix of valid data."""
        c = self.cls()
        b, ctx = self.stored(c)
        b = b[:24]
        for k in range(len(b) + 1):
            self.do("load", o=1, c=c, b=b[:k], ctx=ctx, exact=True, kw=[])
            if chance(self.rng, 0.6):
                self.do("pload", o=2, c=c, b=b[:k], p=0, last="", ctx=ctx)
            if chance(self.rng, 0.3):
                self.do("pload", o=2, c=c, b=b[:k], p=0, last=self.name(c, 0), ctx=ctx)

    def do_everyfield(self):
        """Every field of data, one at a time and up to it."""
        c, b, ctx = self.input()
        b, p = self.at(b)
        for n in self.field_names(c):
            self.do("getf", c=c, b=b, p=p, n=n, ctx=ctx)
            if chance(self.rng, 0.5):
                self.do("pload", o=self.slot(), c=c, b=b, p=p, last=n, ctx=ctx)

    # Fields by themselves
    def field(self):
        c = self.cls()
        fs = self.g.fields_of(c)
        i = self.rng.randrange(len(fs))
        return c, i + 1, fs[i]

    def env(self, c, f):
        """Values of other fields, for those that refer to some."""
        rs = sorted(self.g.refers(f) | ({f["cfn"]["r"]} - {""}))
        if not rs and not chance(self.rng, 0.05):
            return [], {}
        pairs, refs = [], {}
        for r in rs:
            if not chance(self.rng, 0.03):
                refs[r] = self.rng.choice([0, 1, 2, 3, 4, 6])
        for r, n in refs.items():
            pairs.append([r, enc_int(n)])
        return pairs, refs

    def dump_field(self, c, i, f, ctx=None):
        env, refs = self.env(c, f)
        ctx = self.ctx() if ctx is None else ctx
        v = [] if (f["dflt"] or f["const"] or f["fct"]) and chance(self.rng, 0.4) else [self.g.value(f, refs, 0)]
        if self.do("fdump", c=c, f=i, v=v, env=env, ctx=ctx, via=self.rng.choice(["bytes", "stream"])):
            have = self.fpool.setdefault((c, i), [])
            if len(have) < 8:
                have.append((self.last["res"]["v"], env, ctx))

    def do_fdump(self):
        self.dump_field(*self.field())

    def field_input(self):
        c, i, f = self.field()
        if len(self.fpool.get((c, i), ())) < 3:
            self.dump_field(c, i, f)
        have = self.fpool.get((c, i))
        if not have or chance(self.rng, 0.1):
            return c, i, self.junk(self.rng.randint(0, 10)), self.env(c, f)[0], self.ctx()
        b, env, ctx = self.rng.choice(have)
        return c, i, self.damage(b), env, ctx

    def do_fload(self):
        c, i, b, env, ctx = self.field_input()
        self.do("fload", c=c, f=i, b=b, env=env, ctx=ctx, exact=not chance(self.rng, 0.3))

    def do_floads(self):
        c, i, b, env, ctx = self.field_input()
        b, p = self.at(b)
        self.do("floads", c=c, f=i, b=b, p=p, env=env, ctx=ctx)
