"""Random programs and values."""

import datetime
import random
import struct as pystruct

from build import raw
from values import enc
from values import EPOCH_DAY
from values import enc_int

NONE = {"t": "none"}

INT_CLASSES = {
    "Int8": (1, True), "Int16": (2, True), "Int32": (4, True), "Int64": (8, True),
    "UInt8": (1, False), "UInt16": (2, False), "UInt32": (4, False), "UInt64": (8, False),
}
FLOATS = {"Float16": 2, "Float32": 4, "Float64": 8}
# Fields whose class may be one the user derived from the library's.
OWN = ("int", "vint", "float", "bytes", "str", "strz", "uuid")
NOT_OWN = ("Integer", "UnsignedInteger", "UInt8", "Custom")
ENCODINGS = ["ascii", "latin-1", "utf-8", "utf-16-le", "utf-16-be", "utf-32-le", "utf-32-be", "cp500", "cp1252"]
MARKED = {"utf-16": 2, "utf-32": 4, "utf-8-sig": 3}
UNIT = {"utf-16-le": 2, "utf-16-be": 2, "utf-16": 2, "utf-32-le": 4, "utf-32-be": 4, "utf-32": 4}

ALL_KINDS = {
    "int": 6, "vint": 2, "float": 1, "bytes": 2, "str": 2, "strz": 2, "uuid": 0.4, "ts": 0.7,
    "arr": 2, "nest": 2, "uni": 1,
}


ODD_NAMES = ["_pad", "size", "name", "values", "count", "A", "a1", "data", "item", "fields", "_", "z_z", "offset", "index",
             "const", "key", "obj", "cls", "default", "__x", "__y", "class", "from", "self", "stream", "context", "struct", "exact"]
DEFAULTS = dict(
    kinds=ALL_KINDS, null=0.15, pres=0.15, const=0.08, dflt=0.15, fct=0.3, disc=0.08, vals=0.1, mv=0.1,
    sv=0.1, cfn=0.5, npv=0.2, maxfields=6, nclasses=3, inherit=0.25, dataclass=0.35, meta=0.25,
    pattern=0.45, marked=0.1, bad=0.05, missing=0.04, ctx=0.3, eofarr=0.3, unsized=0.03, halt=0.15,
    nan=True, groups=dict(counted=2, flags=2, tagged=1, byctx=1, more=0.5, computed=1, inner=0.7), unsizedlist=0.06, big=0.012, undef=0.03, tuples=0.08, clock=0.5, anyint=0.25, bigvint=0.03, nullness=0.25, zones=False,
    barefields=0.15, names="abcdefghijklmnopqrstuvwxyz",
    oddnames=0.3, own=0.06,
)


def chance(rng, p):
    return rng.random() < p


def pick(rng, weights):
    keys = [k for k in weights if weights[k] > 0]
    return rng.choices(keys, [weights[k] for k in keys])[0]


def refkey(k):
    return f"{k['r']}.{k['s']}" if "s" in k else k["r"]


def intval(r):
    v = int.from_bytes(bytes(r["m"]), "little")
    return -v if r["n"] else v


class Gen:
    def __init__(self, rng, **knobs):
        self.rng = rng
        self.k = {**DEFAULTS, **knobs}
        tz = rng.choice([0, 0, 3600, -18000, 20700, -12600])
        if self.k["zones"] and chance(rng, 0.6):
            tz = rng.choice([rng.randint(-50400, 50400), 60 * rng.randint(-840, 840)])
        tz = {"off": tz, "dst": tz, "on": 0, "until": 0}
        if chance(rng, 0.5 if self.k["zones"] else 0.2) and abs(tz["off"]) < 45000:
            on, until = rng.choice([(85, 300), (72, 308), (280, 95), (rng.randint(61, 200), rng.randint(210, 360))])
            tz = {"off": tz["off"], "dst": tz["off"] + rng.choice([3600, 3600, 1800, 7200]), "on": on, "until": until}
        # Do methods of derived classes have names of those of their parents?
        self.prog = {"classes": [], "tz": tz, "same": chance(rng, 0.3)}
        self.alive = set()      # numbers of the classes that are declared
        self.inheir = False
        # Names aren't in the order of the declarations.
        self.names = list(self.k["names"])
        rng.shuffle(self.names)
        if chance(rng, self.k["oddnames"]):
            self.names = rng.sample(ODD_NAMES, 8) + self.names

    # ------------------------------------------------------------------ classes

    def fields_of(self, c):
        """All field records of class number `c` (from 1), inherited first."""
        cls = self.prog["classes"][c - 1]
        own = cls["fields"]
        return (self.fields_of(cls["bases"][0]) if cls["bases"] else []) + own

    def takes_extra(self, c):
        """Does the constructor of class `c` take something besides values of fields?"""
        cls = self.prog["classes"][c - 1]
        return cls["xinit"] or bool(cls["bases"]) and self.takes_extra(cls["bases"][0])

    def static_size(self, f):
        """The size of the field if it's always the same and present, else None."""
        if f["pres"]["m"] != "always":
            return None
        return self.fixed_size(f)

    def fixed_size(self, f):
        k = f["k"]
        if k == "nest":
            sizes = [self.static_size(x) for x in self.fields_of(f["cls"])]
            return None if None in sizes else sum(sizes)
        if k == "arr":
            s = self.fixed_size(f["comp"][0])
            return s * f["count"]["n"] if f["count"]["m"] == "int" and s is not None else None
        if k == "uuid":
            return {"binary_var_1": 16, "binary_var_2": 16, "canonical_string": 36}.get(f["fmt"], 32)
        if f["size"]["m"] == "int":
            return f["size"]["n"]
        if f["size"]["m"] == "none" and f["const"] and k in ("bytes", "str", "strz", "vint"):
            return -1        # known, but we don't need it
        return None

    def new_name(self, used):
        for n in self.names:
            if n not in used:
                used.append(n)
                return n
        n = f"f{len(used)}"
        used.append(n)
        return n

    def gen_class(self, last=False, plain=False):
        rng, k = self.rng, self.k
        classes = self.prog["classes"]
        cls = {
            "name": f"C{len(classes) + 1}", "bases": [], "style": "assign", "meta": False, "ad": [],
            "fields": [], "mv": [], "sv": [], "bad": "", "xinit": chance(rng, 0.08), "mixin": rng.choice(["", "", "", "first", "last"]),
        }
        if classes and not plain and chance(rng, k["inherit"]):
            cls["bases"] = [rng.randint(1, len(classes))]
        if chance(rng, k["dataclass"]):
            cls["style"] = "dataclass"
        if chance(rng, k["meta"]):
            cls["meta"] = True
            if chance(rng, 0.85):
                keys = rng.sample(["endian", "UInt16__endian", "Int32__endian", "Integer__endian", "Int16__endian",
                                   "UInt32__endian", "UnsignedInteger__endian", "MyInt16__endian", "MyUInt32__endian"],
                                  rng.randint(1, 3))
                cls["ad"] = [[x, rng.choice(["big", "little"])] for x in keys]
        avail = list(self.fields_of(cls["bases"][0])) if cls["bases"] else []
        used = [f["name"] for f in avail]
        n = rng.randint(1, 3 if plain else k["maxfields"])
        while len(cls["fields"]) < n:
            if cls["style"] == "dataclass" and chance(rng, k["barefields"]):
                cls["fields"].append(self.gen_bare(self.new_name(used)))
                continue
            cls["fields"] += self.gen_group(used, avail + cls["fields"], cls, plain)
        if last and chance(rng, k["eofarr"]) and not plain and k["kinds"].get("arr"):
            f = self.gen_array(self.new_name(used), [], 1, eof=True)
            cls["fields"].append(f)
        if cls["style"] == "dataclass":
            for f in cls["fields"]:
                self.choose_form(f)
        self.gen_validators(cls, avail)
        classes.append(cls)
        return len(classes)

    def gen_validators(self, cls, avail):
        rng, k = self.rng, self.k
        fs = avail + cls["fields"]
        ok = [f for f in fs if f["npv"]["t"] == "np" and not (f["pres"]["m"] == "ctx")]
        if ok and chance(rng, k["mv"]):
            for _ in range(rng.choice([1, 1, 2, 2, 3])):
                chosen = rng.sample(ok, min(len(ok), rng.choice([1, 1, 2])))
                cls["mv"].append({"ns": [f["name"] for f in chosen], "v": self.gen_check(rng.choice(chosen))})
        ints = [f for f in fs if f["k"] == "int"]
        if len(ints) > 1 and chance(rng, k["sv"]):
            for _ in range(rng.choice([1, 1, 2, 3, 4])):
                a, b = rng.sample(ints, 2)
                cls["sv"].append({"a": a["name"], "b": b["name"]})

    def gen_check(self, f):
        rng = self.rng
        if chance(rng, 0.2):
            return {"m": "nonnull", "n": 0}
        if f["k"] in ("bytes", "str", "strz", "arr"):
            return {"m": rng.choice(["maxlen", "minlen"]), "n": rng.choice([0, 1, 2, 3, 5])}
        m = rng.choice(["le", "ge", "ne"])
        n = {"le": [100, 127, 255, 1000, 0], "ge": [0, 0, 0, -100, 1], "ne": [0, 1, 7, 255]}[m]
        return {"m": m, "n": rng.choice(n)}

    def choose_form(self, f):
        """How a field of a dataclass is written, for its options."""
        rng = self.rng
        bare = raw(name=f["name"], k=f["k"], cname=f["cname"])
        same = {**f}
        for key in ("dflt", "fct", "fctd", "cfn", "size", "signed", "enc", "fmt", "res", "cls", "null"):
            same[key] = bare[key]
        f["ann"] = rng.choice(["inst", "anninst"])
        if same != bare or f["null"]["m"] not in ("no", "dflt") or f["byobj"]:
            return
        k = f["k"]
        plain = (
            (k == "int" and f["cname"].removeprefix("My") in INT_CLASSES)
            or k == "float"
            or (k == "strz" and f["size"]["m"] == "none" and f["enc"] == "latin-1")
            or (k == "uuid" and f["fmt"] == "binary_var_1")
            or (k == "ts" and f["cname"] != "Timestamp" and f["res"] == "s" and f["signed"])
            or (k == "nest" and not f["dflt"] and not f["fct"] and f["null"]["m"] == "no")
        )
        if not plain or chance(rng, 0.2):
            return
        if f["null"]["m"] == "dflt":
            f["ann"] = rng.choice(["opt", "annopt", "pipe", "annpipe", "stropt"])
        else:
            f["ann"] = rng.choice(["class", "class", "anncls", "annother"] + (["str"] if k != "nest" else []))

    # ------------------------------------------------------------------- fields

    def gen_group(self, used, avail, cls, plain):
        """One field, or several that belong together."""
        rng, k = self.rng, self.k
        if plain or not chance(rng, k["pattern"]):
            return [self.gen_field(self.new_name(used), avail, 0, plain=plain)]
        kinds = k["kinds"]
        groups = dict(k["groups"])
        if not any(kinds.get(x) for x in ("arr", "bytes", "str", "strz")):
            groups["counted"] = 0
        if not k["pres"]:
            groups["flags"] = groups["byctx"] = groups["more"] = 0
        if not kinds.get("uni"):
            groups["tagged"] = 0
        if not k["ctx"]:
            groups["byctx"] = 0
        if not k["cfn"]:
            groups["computed"] = 0
        if not kinds.get("nest") or not self.readable():
            groups["inner"] = 0
        if not any(groups.values()):
            return [self.gen_field(self.new_name(used), avail, 0)]
        p = pick(rng, groups)
        if p == "computed":
            return self.gen_computed(used)
        if p == "inner":
            return self.gen_inner(used, avail)
        byobj = cls["style"] == "assign" and chance(rng, 0.6)
        if p == "counted":
            n = self.gen_count(self.new_name(used))
            out = [n]
            if chance(rng, 0.3):
                out.append(self.gen_field(self.new_name(used), [], 0))
            what = pick(rng, {x: kinds.get(x, 0) for x in ("arr", "bytes", "str", "strz")})
            if what == "arr":
                f = self.gen_array(self.new_name(used), avail + out, 1, ref=n["name"])
            else:
                f = self.gen_field(self.new_name(used), avail, 0, kind=what, ref=n["name"])
            f["byobj"] = byobj
            out.append(f)
            if what == "arr" and f["comp"][0]["k"] not in ("int", "vint", "float", "strz", "uuid"):
                n.update(k="int", cname="UInt8", size={"m": "int", "n": 1, "r": ""}, endian="", fmt="")
            needs = f["pres"]["m"] != "always" or f["null"]["m"] != "no" or f["dflt"] or f["fct"]
            fixed_unit = what == "bytes" or what == "arr" or (what == "str" and f["enc"] in ("ascii", "latin-1"))
            if chance(rng, k["cfn"]) and not needs and fixed_unit and not n["dflt"] and not f["const"]:
                n["cfn"] = {"m": "len", "n": 0, "r": f["name"]}
            return out
        if p == "flags":
            n = raw(name=self.new_name(used), k="int", cname="UInt8", size={"m": "int", "n": 1, "r": ""})
            if chance(rng, 0.15):
                n["dflt"] = [enc_int(rng.choice([0, 1, 3, 255]))]
            elif chance(rng, 0.1):
                n["disc"] = True
            out = [n]
            for i in range(rng.randint(1, 3)):
                m = rng.choice(["bit", "bit", "bit", "nobit", "eq", "ne"])
                f = self.gen_field(self.new_name(used), avail + out, 0, cond=True)
                f["pres"] = {"m": m, "n": 1 << i if m in ("bit", "nobit") else rng.randint(0, 3), "r": n["name"]}
                self.gen_npv(f)
                out.append(f)
            if chance(rng, 0.6):
                out.append(self.gen_field(self.new_name(used), [], 0))
            return out
        if p == "more":
            f = self.gen_field(self.new_name(used), avail, 0, cond=True)
            f["pres"] = {"m": "more", "n": rng.choice([-1, -1, 0, 7, 255]), "r": ""}
            self.gen_npv(f)
            return [f]
        if p == "byctx":
            f = self.gen_field(self.new_name(used), avail, 0, cond=True)
            f["pres"] = {"m": "ctx", "n": rng.choice([1, 2, 3]), "r": ""}
            f["vals"] = []
            self.gen_npv(f)
            return [f]
        n = raw(name=self.new_name(used), k="int", cname="UInt8", size={"m": "int", "n": 1, "r": ""})
        return [n, self.gen_union(self.new_name(used), avail + [n], 0, ref=n["name"])]

    def readable(self):
        """Small numbers that are always there in structures: numbers of classes with names."""
        return [
            (c, f["name"]) for c in range(1, len(self.prog["classes"]) + 1) for f in self.fields_of(c)
            if f["k"] == "int" and f["cname"] == "UInt8" and f["pres"]["m"] == "always" and f["null"]["m"] == "no" and not f["disc"]
        ]

    def gen_inner(self, used, avail):
        """A structure, and fields that refer to fields of it."""
        rng, k = self.rng, self.k
        c, sub = rng.choice(self.readable())
        h = raw(name=self.new_name(used), k="nest", cname="Nested", cls=c)
        out = [h]
        for i in range(rng.randint(1, 2)):
            what = rng.choice(["pres", "pres"] + (["dec"] if k["kinds"].get("uni") else []) + (["cfn"] if k["cfn"] else []))
            if what == "pres":
                m = rng.choice(["bit", "bit", "nobit", "eq", "ne"])
                f = self.gen_field(self.new_name(used), avail, 0, cond=True)
                f["pres"] = {"m": m, "n": 1 << i if m in ("bit", "nobit") else rng.randint(0, 3), "r": h["name"], "s": sub}
                self.gen_npv(f)
            elif what == "dec":
                f = self.gen_union(self.new_name(used), avail, 0, ref=h["name"])
                f["dec"]["s"] = sub
            else:
                f = raw(name=self.new_name(used), k="int", cname="UInt16", size={"m": "int", "n": 2, "r": ""})
                f["cfn"] = {"m": "copy", "n": 0, "r": h["name"], "s": sub}
                if chance(rng, 0.4):
                    out.insert(0, f)
                    continue
            out.append(f)
        return out

    def gen_computed(self, used):
        """A computed field and the one it's computed from, if any."""
        rng = self.rng
        c = raw(name=self.new_name(used), k="int", cname="UInt16", size={"m": "int", "n": 2, "r": ""},
                endian=rng.choice(["", "big"]))
        how = rng.choice(["const", "copy", "sum", "len"])
        if chance(rng, 0.25):
            c["null"] = {"m": "dflt", "b": [], "v": NONE} if chance(rng, 0.4) else \
                {"m": "bytes", "b": [rng.choice([0, 255])] * 2, "v": NONE}
        if chance(rng, 0.5 * self.k["vals"]):
            c["vals"] = [self.gen_check(c)]
        elif self.k["ctx"] and chance(rng, 0.15):
            c["pres"] = {"m": "ctx", "n": rng.choice([1, 2, 3]), "r": ""}
            self.gen_npv(c)
        if how == "const":
            c["cfn"] = {"m": "const", "n": rng.choice([0, 1, 300, 65535, 65536]), "r": ""}
            return [c]
        name = self.new_name(used)
        if how == "copy":
            if chance(rng, 0.5):
                src = raw(name=name, k="int", cname="Int16", size={"m": "int", "n": 2, "r": ""}, signed=True)
            else:
                src = raw(name=name, k="vint", cname="VariableLengthInteger", fmt="vlq")
            if chance(rng, 0.4):
                if chance(rng, 0.5):
                    src["fct"] = [enc_int(rng.choice([0, 7, 256, 32767])) for _ in range(rng.choice([1, 2]))]
                else:
                    src["dflt"] = [enc_int(rng.choice([0, 7, 256, 32767]))]
        elif how == "sum":
            src = raw(name=name, k="arr", cname="Array", count={"m": "int", "n": rng.choice([0, 2, 3]), "r": ""},
                      comp=[raw(k="int", cname="UInt8", size={"m": "int", "n": 1, "r": ""})])
        else:
            src = raw(name=name, k="strz", cname="StringZ", enc="latin-1")
        c["cfn"] = {"m": how, "n": rng.choice([0, 1, 3]) if how == "len" else 0, "r": name}
        if chance(rng, 0.1):
            c["disc"] = True
        out = [c, src]
        if chance(rng, 0.4):
            out.insert(1, self.gen_field(self.new_name(used), [], 0))
        return out if chance(rng, 0.5) else out[::-1]

    def gen_bad_class(self):
        """A class that can't be declared."""
        rng = self.rng
        classes = self.prog["classes"]
        c = self.gen_class()
        cls = classes[c - 1]
        ways = ["name", "pad2", "padtype", "count", "unionclass", "computes2", "computeconst", "noval", "mixed",
                "empty", "several", "two", "dfltfct", "endian", "vfmt", "res", "valfn", "valobj"]
        if cls["bases"]:
            ways += ["redefined"] * 3
        if c > 2:
            ways += ["bases"] * 2
        how = rng.choice(ways)
        f = raw(name="zz", k="int", cname="UInt8", size={"m": "int", "n": 1, "r": ""}, bad=how)
        if how in ("noval", "valfn", "valobj"):
            cls["bad"] = how
        elif how == "bases":
            cls["bases"] = sorted(rng.sample(range(1, c), 2), reverse=True)
            cls["fields"] = [f]
            cls["mv"], cls["sv"] = [], []
            f.update(bad="", name="zz")
        elif how == "redefined":
            f.update(bad="", name=rng.choice([x["name"] for x in self.fields_of(cls["bases"][0])]))
            cls["fields"].insert(rng.randint(0, len(cls["fields"])), f)
        elif how == "empty":
            cls["style"], cls["fields"], cls["mv"], cls["sv"] = "dataclass", [], [], []
        elif how == "mixed":
            cls["style"] = "mixed"
            f["bad"] = ""
            cls["fields"].insert(0, f)
            if len(cls["fields"]) < 2:
                cls["fields"].append(raw(name="zy", k="int", cname="UInt8", size={"m": "int", "n": 1, "r": ""}))
        elif how in ("several", "two"):
            cls["style"] = "dataclass"
            f["ann"] = "severalpipe" if how == "several" and chance(rng, 0.5) else how
            f["bad"] = how
            cls["fields"].insert(rng.randint(0, len(cls["fields"])), f)
        else:
            if how in ("pad2", "padtype"):
                f.update(k="str", cname="String", enc="latin-1", size={"m": "int", "n": 4, "r": ""})
            elif how == "count":
                f.update(k="arr", cname="Array", comp=[raw(k="int", cname="UInt8", size={"m": "int", "n": 1, "r": ""})])
            elif how == "endian":
                f.update(k="float", cname="Float32", size={"m": "int", "n": 4, "r": ""})
            elif how == "vfmt":
                f.update(k="vint", cname="VariableLengthInteger", fmt="vlq", size={"m": "none", "n": 0, "r": ""})
            elif how == "res":
                f.update(k="ts", cname="Timestamp", size={"m": "int", "n": 4, "r": ""}, res="s", endian="big", signed=True)
            elif how == "unionclass":
                f.update(k="uni", cname="Union", choices=[
                    raw(k="int", cname="UInt8", size={"m": "int", "n": 1, "r": ""}) for _ in range(2)
                ], dec={"m": "data", "r": ""}, size={"m": "none", "n": 0, "r": ""})
            elif how == "computes2":
                f["cfn"] = {"m": "const", "n": 1, "r": ""}
            elif how == "computeconst":
                f["const"] = [enc_int(1)]
            cls["fields"].insert(rng.randint(0, len(cls["fields"])), f)
        return c

    def gen_bare(self, name):
        """A field that can be declared by just its class."""
        rng, kinds = self.rng, self.k["kinds"]
        kind = pick(rng, {x: kinds.get(x, 0) for x in ("int", "float", "strz", "uuid", "ts")} if any(
            kinds.get(x) for x in ("int", "float", "strz", "uuid", "ts")) else {"int": 1})
        f = raw(name=name, k=kind)
        if kind == "int":
            f["cname"] = rng.choice(list(INT_CLASSES))
            size, f["signed"] = INT_CLASSES[f["cname"]]
            f["size"] = {"m": "int", "n": size, "r": ""}
        elif kind == "float":
            f["cname"] = rng.choice(list(FLOATS))
            f["size"] = {"m": "int", "n": FLOATS[f["cname"]], "r": ""}
        elif kind == "strz":
            f.update(cname="StringZ", enc="latin-1")
        elif kind == "uuid":
            f.update(cname="UUID4", fmt="binary_var_1")
        else:
            f["cname"] = rng.choice(["Timestamp32", "Timestamp64"])
            f.update(size={"m": "int", "n": 4 if f["cname"] == "Timestamp32" else 8, "r": ""}, res="s", signed=True)
        if chance(rng, 0.3 if kind != "strz" else 0.06):
            f["null"] = {"m": "dflt", "b": [], "v": NONE}
        if chance(rng, 0.35) and not (kind == "strz" and f["null"]["m"] == "dflt"):
            f["dflt"] = [NONE if f["null"]["m"] == "dflt" and chance(rng, 0.4) else self.value(f, {}, 0, nice=True)]
            if chance(rng, 0.2):
                f["fct"], f["dflt"] = f["dflt"], []
        return f

    def gen_count(self, name):
        """A field giving a size or count."""
        rng = self.rng
        x = rng.random()
        if x < 0.55:
            f = raw(name=name, k="int", cname="UInt8", size={"m": "int", "n": 1, "r": ""})
        elif x < 0.75:
            f = raw(name=name, k="int", cname="UInt16", size={"m": "int", "n": 2, "r": ""},
                    endian=rng.choice(["", "big", "little"]))
        else:
            f = raw(name=name, k="vint", cname="VariableLengthInteger", fmt=rng.choice(["uleb128", "vlq"]))
        if chance(rng, 0.1):
            f["disc"] = True
        elif chance(rng, 0.1):
            f["dflt"] = [enc_int(rng.choice([0, 1, 2, 3]))]
        return f

    def gen_npv(self, f):
        rng = self.rng
        if chance(rng, self.k["npv"]) and not f["vals"]:
            f["npv"] = NONE if chance(rng, 0.4) else self.value(f, {}, 0)

    def gen_field(self, name, avail, depth, kind=None, ref=None, plain=False, cond=False, comp=False):
        rng, k = self.rng, self.k
        kinds = dict(k["kinds"])
        if depth > 1 or plain:
            for x in ("arr", "nest", "uni"):
                kinds[x] = 0
        if not self.prog["classes"]:
            kinds["nest"] = 0
        if comp:
            kinds["uni"] = kinds.get("uni", 0) * 0.3
        if not any(kinds.values()):
            kinds = {"int": 1}
        kind = kind or pick(rng, kinds)
        if kind == "arr":
            return self.gen_array(name, avail, depth + 1)
        if kind == "uni":
            return self.gen_union(name, avail, depth)
        f = raw(name=name, k=kind)
        if kind == "int":
            if chance(rng, k["anyint"]):
                f["cname"] = rng.choice(["Integer", "UnsignedInteger"])
                f["signed"] = f["cname"] == "Integer" and chance(rng, 0.7)
                f["size"] = {"m": "int", "n": rng.choice([1, 2, 3, 3, 5, 6, 7, 9, 12, 16, 17]), "r": ""}
            else:
                f["cname"] = rng.choice(list(INT_CLASSES))
                size, f["signed"] = INT_CLASSES[f["cname"]]
                f["size"] = {"m": "int", "n": size, "r": ""}
            f["endian"] = rng.choice(["", "", "big", "little"])
        elif kind == "vint":
            f["cname"] = "VariableLengthInteger"
            f["fmt"] = rng.choice(["compact", "vlq", "leb128", "uleb128"])
            if chance(rng, 2 * k["own"]):
                f.update(cname="Custom", fmt="vlq")
            elif chance(rng, 0.2):
                f["maxb"] = rng.randint(1, 4)
        elif kind == "float":
            f["cname"] = rng.choice(list(FLOATS))
            f["size"] = {"m": "int", "n": FLOATS[f["cname"]], "r": ""}
            f["endian"] = rng.choice(["", "big", "little"])
        elif kind == "bytes":
            f["cname"] = "Bytes"
        elif kind in ("str", "strz"):
            f["cname"] = "String" if kind == "str" else "StringZ"
            f["enc"] = rng.choice(ENCODINGS)
            if chance(rng, 0.3):
                f["enc"] = "latin-1"
            if chance(rng, k["marked"]):
                f["enc"] = rng.choice(list(MARKED))
            if chance(rng, 0.35):
                f["pad"] = rng.choice([0, 32, 32, 120])
        elif kind == "uuid":
            f["cname"] = "UUID4"
            f["fmt"] = rng.choice(["binary_var_1", "binary_var_2", "canonical_string", "hex_string"])
        elif kind == "ts":
            f["cname"] = rng.choice(["Timestamp", "Timestamp32", "Timestamp64", "Timestamp64"])
            f["size"] = {"m": "int", "n": {"Timestamp32": 4, "Timestamp64": 8}.get(f["cname"]) or
                         rng.choice([5, 6, 8, 12]), "r": ""}
            f["res"] = rng.choice(["s", "ms", "us", "ns"])
            f["aware"] = chance(rng, 0.5)
            f["signed"] = chance(rng, 0.85)
            f["endian"] = rng.choice(["", "big", "little"])
        elif kind == "nest":
            f["cname"] = "Nested"
            f["cls"] = rng.randint(1, len(self.prog["classes"]))
        if kind in OWN and f["cname"] not in NOT_OWN and chance(rng, k["own"] * (2 if kind == "int" else 1)):
            f["cname"] = "My" + f["cname"]
        if kind in ("bytes", "str", "strz"):
            unit = UNIT.get(f["enc"], 1)
            if ref:
                f["size"] = {"m": "ref", "n": 0, "r": ref}
            elif kind == "strz" and chance(rng, 0.6):
                f["pad"] = -1 if chance(rng, 0.8) else f["pad"]
            elif kind != "strz" and chance(rng, k["unsized"]):
                pass
            else:
                n = rng.choice([1, 2, 3, 4, 6])
                if kind != "strz" and chance(rng, 0.08):
                    n = 0
                if chance(rng, k["big"]):
                    n = rng.choice([40, 100, 127, 128, 255, 256, 257, 600])
                if f["enc"] in MARKED:
                    n += MARKED[f["enc"]] // unit
                f["size"] = {"m": "int", "n": n * unit + (1 if chance(rng, 0.04) else 0), "r": ""}
        self.gen_options(f, plain=plain, cond=cond, comp=comp)
        return f

    def gen_options(self, f, plain=False, cond=False, comp=False):
        rng, k = self.rng, self.k
        kind = f["k"]
        if chance(rng, k["vals"]):
            f["vals"] = [self.gen_check(f) for _ in range(rng.choice([1, 1, 2]))]
        if chance(rng, k["null"]):
            self.gen_null(f)
        if comp or plain:
            return
        x = rng.random()
        scalar = kind in ("int", "vint", "bytes", "str", "strz", "uuid", "float", "arr")
        if x < k["const"] and scalar and f["null"]["m"] == "no" and not self.refers(f):
            if kind in ("bytes", "str", "strz") and chance(rng, 0.6):
                f["size"] = {"m": "none", "n": 0, "r": ""}
                f["pad"] = -1
            v = self.value(f, {}, 0, nice=True)
            if v["t"] == "float":
                v = enc(rng.choice([1.0, -2.5, 0.0, float("inf")]))
            if all(not self.fails(c, v) for c in f["vals"]) and self.representable(f, v):
                f["const"] = [v]
        elif x < k["const"] + k["dflt"]:
            if kind == "nest" or (kind == "uni"):
                return
            if kind in ("bytes", "str") and f["size"]["m"] == "none":
                return
            v = NONE if f["null"]["m"] != "no" and chance(rng, 0.3) else self.value(f, {}, 0)
            if f["null"]["m"] == "dflt" and self.fixed_size(f) is None and f["size"]["m"] != "ref":
                return
            if chance(rng, k["fct"]):
                f["fctd"] = chance(rng, 0.2)
                f["fct"] = [v]
                if chance(rng, k["clock"]):
                    f["fct"].append(self.value(f, {}, 0))
                if chance(rng, k["undef"]):
                    f["fct"][-1] = {"t": "undef"}
            else:
                f["dflt"] = [v]
        if chance(rng, k["disc"]):
            f["disc"] = True

    def representable(self, f, v):
        """Is constant `v` not changed by dumping and loading?"""
        if f["k"] == "str" and f["pad"] != -1:
            return False
        if f["k"] == "strz" and f["size"]["m"] == "int":
            return False
        return True

    @staticmethod
    def fails(c, v):
        m, n, t = c["m"], c["n"], v["t"]
        if m == "nonnull":
            return t == "none"
        if m == "never":
            return True
        if t == "int" and m in ("le", "ge", "ne"):
            return not {"le": intval(v) <= n, "ge": intval(v) >= n, "ne": intval(v) != n}[m]
        if t in ("bytes", "str", "list") and m in ("maxlen", "minlen"):
            k = len(v[{"bytes": "b", "str": "c", "list": "e"}[t]])
            return k > n if m == "maxlen" else k < n
        return False

    def gen_null(self, f):
        rng = self.rng
        if f["k"] in ("bytes", "str") and f["size"]["m"] == "none":
            return
        size = self.fixed_size(f)
        ways = []
        if (size is not None and size > 0) or f["size"]["m"] == "ref":
            ways += ["dflt", "dflt"]
        if size is None or size > 0:
            ways.append("bytes")
        if f["k"] in ("int", "vint", "bytes", "str", "strz") and f["size"]["m"] != "ref":
            ways += ["val", "val"]
        if f["k"] in ("vint", "strz") and f["size"]["m"] == "none" and chance(rng, 0.05):
            ways = ["dflt"]     # of no use
        if not ways:
            return
        m = rng.choice(ways)
        if m == "bytes":
            n = size if size is not None else rng.randint(1, 3)
            f["null"] = {"m": "bytes", "b": [rng.choice([0, 255, 78, 127, 1]) for _ in range(n)], "v": NONE}
            if chance(rng, 0.5):
                f["null"]["b"] = [rng.choice([0, 255])] * n
        elif m == "val":
            v = self.value(f, {}, 0, nice=True)
            if f["k"] == "strz" and f["size"]["m"] == "int":
                return
            f["null"] = {"m": "val", "b": [], "v": v}
        else:
            f["null"] = {"m": "dflt", "b": [], "v": NONE}

    def gen_array(self, name, avail, depth, ref=None, eof=False):
        rng, k = self.rng, self.k
        f = raw(name=name, k="arr", cname="Array")
        counts = [a["name"] for a in avail if self.is_count(a) and a["k"] == "int"]
        halting = False
        if ref:
            f["count"] = {"m": "ref", "n": 0, "r": ref}
        elif eof:
            pass
        elif chance(rng, k["halt"]):
            halting = True
        elif counts and chance(rng, 0.3):
            f["count"] = {"m": "ref", "n": 0, "r": rng.choice(counts)}
        else:
            f["count"] = {"m": "int", "n": rng.choice([0, 1, 2, 2, 3]), "r": ""}
            if depth <= 1 and chance(rng, k["big"]):
                f["count"]["n"] = rng.choice([16, 40, 130, 256])
        if halting:
            hows = ["last", "peek", "pop"] + (["ctx"] if k["ctx"] else []) + (["ref", "ref"] if counts and not ref else [])
            how = rng.choice(hows)
            f["halt"] = {"m": how, "n": rng.choice([0, 0, 7, 255]) if how in ("last", "peek", "pop") else 0}
            if how == "ref":
                f["halt"]["r"] = rng.choice(counts)
            if chance(rng, 0.2):    # which is for dumps
                f["count"] = {"m": "int", "n": rng.choice([1, 2, 3]), "r": ""}
            comp = self.gen_field("", [], depth, kind="int", comp=True)
            if comp["null"]["m"] != "no" or comp["vals"]:
                comp["null"] = {"m": "no", "b": [], "v": NONE}
                comp["vals"] = []
        elif eof:
            comp = self.gen_field("", [], depth, kind=rng.choice(["int", "vint", "strz"]), comp=True)
            if comp["k"] == "strz":
                comp["size"] = {"m": "none", "n": 0, "r": ""}
                if comp["null"]["m"] == "dflt":
                    comp["null"] = {"m": "no", "b": [], "v": NONE}
        else:
            kinds = [x for x in ("int", "vint", "bytes", "str", "strz", "float", "nest", "arr", "uuid") if k["kinds"].get(x)]
            kind = rng.choice(kinds or ["int"])
            if kind == "nest" and not self.prog["classes"]:
                kind = "int"
            if kind == "arr" and depth > 1:
                kind = "int"
            near = [a for a in avail if a["name"] in counts]
            if kind == "arr":
                comp = self.gen_array("", near, depth + 1)
                if comp["halt"]["m"] == "ctx":
                    comp["halt"] = {"m": "dflt", "n": 0}
                    comp["count"] = {"m": "int", "n": 2, "r": ""}
            else:
                size = rng.choice(counts) if kind in ("bytes", "str") and counts and chance(rng, 0.3) else None
                comp = self.gen_field("", [], depth, kind=kind, comp=True, ref=size)
        f["comp"] = [comp]
        if depth <= 1:
            self.gen_options(f, comp=(name == ""))
        return f

    def is_count(self, f):
        return (
            ((f["k"] == "int" and f["cname"] == "UInt8") or (f["k"] == "vint" and f["fmt"] in ("uleb128", "vlq")))
            and f["pres"]["m"] == "always" and f["null"]["m"] == "no"
        )

    def gen_union(self, name, avail, depth, ref=None):
        rng, k = self.rng, self.k
        f = raw(name=name, k="uni", cname="Union")
        counts = [a["name"] for a in avail if self.is_count(a)]
        how = "tag" if ref else rng.choice((["tag"] * 2 if counts else []) + (["ctx"] if k["ctx"] else []) + ["data"])
        f["dec"] = {"m": how, "r": ref or (rng.choice(counts) if how == "tag" else "")}
        if how == "data":
            other = rng.choice(["strz", "bytes"])
            f["choices"] = [
                raw(k="int", cname="UInt8", size={"m": "int", "n": 1, "r": ""}),
                raw(k="strz", cname="StringZ", enc="latin-1") if other == "strz"
                else raw(k="bytes", cname="Bytes", size={"m": "int", "n": 2, "r": ""}),
            ]
        else:
            number = rng.choice(["int", "vint", "float"])
            for _ in range(rng.randint(2, 3)):
                if self.prog["classes"] and chance(rng, 0.35):
                    c = raw(k="nest", cname="Nested", cls=rng.randint(1, len(self.prog["classes"])), bare=chance(rng, 0.7))
                else:
                    kind = rng.choice([x for x in (number, number, "strz", "bytes", "arr") if k["kinds"].get(x)] or ["int"])
                    if kind == "arr":
                        c = self.gen_array("", [a for a in avail if a["name"] in counts], 2)
                    else:
                        size = rng.choice(counts) if kind == "bytes" and counts and chance(rng, 0.5) else None
                        c = self.gen_field("", [], 2, kind=kind, comp=True, ref=size)
                    if not chance(rng, 0.1):
                        c["null"] = {"m": "no", "b": [], "v": NONE}
                f["choices"].append(c)
        if not ref:
            self.gen_options(f, comp=(name == ""))
        return f

    # ------------------------------------------------------------------- values

    def instance(self, c, nice=False, missing=None):
        """Values for an instance of class number `c`, as pairs."""
        rng, k = self.rng, self.k
        vals = {}
        missing = k["missing"] if missing is None else missing
        refs = {}
        fs = self.fields_of(c)
        for f in fs:
            sizes = {"r": refs}
            if f["cfn"]["m"] != "no" and not self.used_as_ref(f["name"], fs) and chance(rng, 0.1):
                vals[f["name"]] = self.value(f, {}, 0, nice=nice)
                continue
            if f["const"] or f["cfn"]["m"] != "no":
                if f["cfn"]["m"] == "len":
                    refs[f["name"]] = None
                elif f["const"] and f["const"][0]["t"] == "int":
                    refs[f["name"]] = intval(f["const"][0])
                continue
            if (f["dflt"] or f["fct"]) and chance(rng, 0.6):
                v = (f["fct"] or f["dflt"])[0]
                if v["t"] == "int":
                    refs[f["name"]] = intval(v)
                continue
            if chance(rng, missing):
                continue
            if self.is_count(f) or (f["k"] == "int" and f["cname"] == "UInt16"):
                if self.used_as_ref(f["name"], fs):
                    n = rng.choice([0, 1, 2, 3, 4, 5, 6, 7, 8, 12])
                    if chance(rng, k["big"]):
                        n = rng.choice([40, 100, 127, 128, 200, 255])
                    refs[f["name"]] = n
                    vals[f["name"]] = enc_int(n)
                    continue
            if f["pres"]["m"] in ("bit", "nobit", "eq", "ne") and refs.get(refkey(f["pres"])) is not None:
                x = refs[refkey(f["pres"])]
                n = f["pres"]["n"]
                there = {"bit": x & n, "nobit": not x & n, "eq": x == n, "ne": x != n}[f["pres"]["m"]]
                if not there and chance(rng, 0.7):
                    continue
            v = self.value(f, refs, 0, nice=nice)
            if v["t"] == "int" and self.is_count(f):
                refs[f["name"]] = intval(v)
            if v["t"] in ("struct", "dict"):
                refs.update({f"{f['name']}.{n}": intval(w) for n, w in v["f"] if w["t"] == "int"})
            vals[f["name"]] = v
        pairs = [[n, v] for n, v in vals.items()]
        return pairs

    def value(self, f, refs, depth, nice=False):
        """A value for field `f`; `refs` are those of the fields it can refer to."""
        rng, k = self.rng, self.k
        if f["k"] == "nest":
            subs = self.looked_into(f)
            if subs:
                return self.with_subs(f, self.struct_value(f["cls"], depth), subs)
        bad = not nice and chance(rng, k["bad"])
        if f["null"]["m"] != "no" and chance(rng, k["nullness"]) and not nice:
            return NONE
        if bad and chance(rng, 0.25):
            return NONE
        v = None
        for _ in range(4):
            v = self.value_(f, refs, depth, bad, nice)
            if bad or not any(self.fails(c, v) for c in f["vals"]):
                break
        return v

    def value_(self, f, refs, depth, bad, nice=False):
        rng, k, kind = self.rng, self.k, f["k"]
        if kind == "int":
            return enc_int(self.int_value(f["size"]["n"], f["signed"], bad))
        if kind == "vint":
            return enc_int(self.vint_value(f["fmt"], bad, f["maxb"]))
        if kind == "float":
            return {"t": "float", "d": list(self.float_value(f["size"]["n"], bad))}
        if kind == "uuid":
            return {"t": "uuid", "u": [rng.choice([0, 255, rng.randrange(256)]) for _ in range(16)]}
        if kind == "ts":
            return self.ts_value(f, bad)
        if kind in ("bytes", "str", "strz"):
            size = None
            if f["size"]["m"] == "int":
                size = f["size"]["n"]
            elif f["size"]["m"] == "ref":
                size = refs.get(f["size"]["r"])
                size = size if size is None else min(size, 300)
            if bad and size is not None:
                size = max(0, size + rng.choice([-1, 1, 2]))
            if kind == "bytes":
                n = rng.randint(0, 5) if size is None else size
                return {"t": "bytes", "b": [rng.choice([0, 255, 65, rng.randrange(256)]) for _ in range(n)]}
            return {"t": "str", "c": self.text(f, size, bad)}
        if kind == "arr":
            n = rng.choice([0, 1, 2, 3])
            if f["count"]["m"] == "int":
                n = f["count"]["n"]
            elif f["halt"]["m"] == "ref" and refs.get(f["halt"]["r"]) is not None:
                n = min(refs[f["halt"]["r"]], 12)
            elif f["count"]["m"] == "ref" and refs.get(f["count"]["r"]) is not None:
                n = min(refs[f["count"]["r"]], 300 if depth == 0 and f["comp"][0]["k"] in ("int", "vint", "float") else 12)
            if bad:
                n = max(0, n + rng.choice([-1, 1]))
            es = [self.value(f["comp"][0], refs, depth + 1) for _ in range(n)]
            if f["name"] and depth == 0 and not nice and f["halt"]["m"] == "dflt" and chance(rng, k["unsizedlist"]):
                return {"t": "iter", "e": es}
            tup = f["name"] and depth == 0 and not nice and chance(rng, k["tuples"])
            if f["halt"]["m"] == "last" or f["halt"]["m"] == "pop" and chance(rng, 0.6):
                stop = f["halt"]["n"]
                if f["count"]["m"] == "int":
                    del es[:1]
                es = [e for e in es if e["t"] == "int" and intval(e) != stop]
                c = f["comp"][0]
                if c["k"] == "int" and not (c["signed"] and c["size"]["n"] == 1 and stop > 127):
                    es.append(enc_int(stop))
            return {"t": "list", "e": es, "tup": True} if tup else {"t": "list", "e": es}
        if kind == "nest":
            return self.struct_value(f["cls"], depth)
        if kind == "uni":
            i = rng.randrange(len(f["choices"]))
            if f["dec"]["m"] == "tag" and refs.get(refkey(f["dec"])) is not None and not bad:
                i = refs[refkey(f["dec"])] % len(f["choices"])
            g = f["choices"][i]
            return self.struct_value(g["cls"], depth) if g["k"] == "nest" else self.value(g, refs, depth + 1)
        raise ValueError(kind)

    def used_as_ref(self, name, fs):
        return any(name in self.refers(g) for g in fs)

    def refers(self, f):
        """Names of the fields that `f` refers to, other than for computing it."""
        out = {f["size"]["r"], f["count"]["r"], f["pres"]["r"], f["dec"]["r"], f["halt"].get("r", "")} - {""}
        for g in f["comp"] + f["choices"]:
            out |= self.refers(g)
        return out

    def looked_into(self, f):
        """The fields of the structure `f` that others refer to (or would, in another class)."""
        subs = set()
        for c in self.prog["classes"]:
            for g in c["fields"]:
                subs |= {g[x]["s"] for x in ("pres", "cfn", "dec") if "s" in g[x] and g[x]["r"] == f["name"]}
        return sorted(subs & {g["name"] for g in self.fields_of(f["cls"]) if g["k"] == "int"})

    def with_subs(self, f, v, subs):
        have = {n: {"t": "list", "e": x["e"]} if x["t"] == "iter" else x for n, x in v["f"]}
        for g in self.fields_of(f["cls"]):
            if g["name"] in subs and (v["t"] == "dict" or g["name"] in have) and have.get(g["name"], NONE)["t"] != "int":
                have[g["name"]] = g["const"][0] if g["const"] else enc_int(self.int_value(1, False) & 127)
        names = [n for n, _ in v["f"]] + [g["name"] for g in self.fields_of(f["cls"])]
        return {**v, "f": [[n, have[n]] for n in dict.fromkeys(names) if n in have]}

    def value_in(self, c, f, refs, nice=False):
        """A value for field `f` of class number `c`."""
        if f["k"] in ("int", "vint") and self.used_as_ref(f["name"], self.fields_of(c)):
            return enc_int(self.rng.choice([0, 1, 2, 3, 4, 5, 6, 7, 12]))
        return self.value(f, refs, 0, nice=nice)

    def descends(self, d, c):
        return d == c or any(self.descends(b, c) for b in self.prog["classes"][d - 1]["bases"])

    def struct_value(self, c, depth):
        pairs = self.instance(c, missing=0.01)
        order = [f["name"] for f in self.fields_of(c)]
        if chance(self.rng, 0.3):
            return {"t": "dict", "f": pairs}
        heirs = [d for d in sorted(self.alive) if d != c and self.descends(d, c)]
        if heirs and not self.inheir and chance(self.rng, 0.3):      # an instance of a derived class
            c = self.rng.choice(heirs)
            self.inheir = True
            pairs = self.instance(c, missing=0.01)
            self.inheir = False
            order = [f["name"] for f in self.fields_of(c)]
        return {"t": "struct", "c": c, "f": sorted(pairs, key=lambda p: order.index(p[0]))}

    def int_value(self, size, signed, bad=False):
        rng = self.rng
        bits = 8 * size
        lo, hi = (-(1 << bits - 1), (1 << bits - 1) - 1) if signed else (0, (1 << bits) - 1)
        if bad:
            return rng.choice([lo - 1, hi + 1, hi + 2, lo - 300, hi * 2 + 2, 1 << (bits + 9), -1 - (1 << bits)])
        x = rng.random()
        if x < 0.35:
            return max(lo, min(hi, rng.choice([0, 1, 2, 3, 5, 7, 100, 127, 128, 200, 255, 256, -1, -2, -128])))
        if x < 0.6:
            return rng.choice([lo, lo + 1, hi, hi - 1, hi // 2, hi // 2 + 1])
        b = rng.randint(1, bits)
        v = rng.getrandbits(b)
        if signed and chance(rng, 0.5):
            v = -v
        return max(lo, min(hi, v))

    def vint_value(self, fmt, bad=False, maxb=-1):
        rng = self.rng
        signed = fmt in ("compact", "leb128")
        top = 6 if maxb < 0 or bad else maxb
        x = rng.random()
        if chance(rng, self.k["bigvint"]) and maxb < 0:
            e = rng.randint(40, 300)
            v = (1 << e) + rng.choice([-1, 0, 1, rng.getrandbits(e)])
        elif x < 0.3:
            v = rng.choice([0, 1, 2, 3, 5, 7, 63, 64, 65, 127, 128])
        elif x < 0.8:
            e = 7 * rng.randint(1, top) + rng.choice([0, 0, -1, 0, -2])
            v = (1 << e) + rng.choice([-2, -1, 0, 1])
        else:
            v = rng.getrandbits(rng.randint(1, 7 * top + 4))
        if maxb >= 0 and not bad:
            v &= (1 << (7 * maxb - 1)) - 1
        if signed and chance(rng, 0.5):
            v = -v
        if bad and not signed:
            v = -v - 1
        return v

    def float_value(self, w, bad=False):
        rng = self.rng
        bias, mb = {2: (15, 10), 4: (127, 23), 8: (1023, 52)}[w]
        x = rng.random()
        sign = rng.getrandbits(1) << 63
        if bad and w < 8:
            if chance(rng, 0.3):    # rounds up to too large a number
                drop = 52 - mb
                frac = (1 << 52) - rng.choice([1, 1 << drop - 1, (1 << drop - 1) - 1, 2])
                return (sign | (bias + 1023) << 52 | frac).to_bytes(8, "big")
            e = rng.choice([bias + 1, bias + 2, 1000])
            return (sign | (e + 1023) << 52 | rng.getrandbits(52)).to_bytes(8, "big")
        drop = 52 - mb
        if w < 8 and x < 0.05:      # right below what no longer rounds to the largest number
            frac = (1 << 52) - 1 - rng.choice([1 << drop - 1, 1 << drop - 1, (1 << drop) - 1, rng.getrandbits(drop - 1) | 1 << drop - 1])
            return (sign | (bias + 1023) << 52 | frac).to_bytes(8, "big")
        if x < 0.12:
            v = [0.0, -0.0, 1.0, -1.5, float("inf"), float("-inf"), 65504.0, 2.0 ** -14, 2.0 ** -24]
            if self.k["nan"]:
                v.append(float("nan"))
            v = rng.choice(v)
            return b"\x7f\xf8" + b"\0" * 6 if v != v else pystruct.pack(">d", v)
        if x < 0.2:
            e = rng.choice([-bias, -bias - 1, -bias - mb, -bias - mb - 1, -bias - 3])      # subnormal
        elif x < 0.3:
            e = bias - (1 if w == 8 else 0)
        else:
            e = rng.randint(-bias, bias - 1)
        e = max(-1022, min(1023, e))
        frac = rng.getrandbits(52)
        y = rng.random()
        if drop and y < 0.6:        # exactly representable, ties, and next to ties
            frac = frac >> drop << drop
            frac |= rng.choice([0, 1 << drop - 1, (1 << drop - 1) + 1, (1 << drop - 1) - 1, 1])
            if y < 0.1:
                frac |= ((1 << mb) - 1) << drop
        if e == bias and w < 8:     # don't overflow by rounding
            frac &= ~(((1 << drop) - 1))
        return (sign | (e + 1023) << 52 | frac).to_bytes(8, "big")

    def ts_value(self, f, bad):
        rng = self.rng
        size, res = f["size"]["n"], f["res"]
        units = {"s": 1, "ms": 10**3, "us": 10**6, "ns": 10**9}[res]
        limit = (1 << (8 * size - (1 if f["signed"] else 0))) // units
        limit = min(limit - 100000 if limit > 300000 else limit // 2, 200000 * 86400)
        if bad:
            limit = 200000 * 86400
        lo = -min(limit, 600000 * 86400) if f["signed"] or bad else 100000
        s = rng.randint(lo, limit) if chance(rng, 0.7) and limit > lo else rng.choice([0, 1, 59, 86399, 86400, 100000])
        if chance(rng, 0.1) and f["signed"]:
            s = -rng.choice([1, 2, 86400, 86401, 43200])
        us = rng.choice([0, 0, 1, 999999, 500000, 1000, rng.randrange(10**6), rng.randrange(1000) * 1000])
        if bad and chance(rng, 0.5):
            us = 0
        aware = f["aware"] if chance(rng, 0.8) else not f["aware"]
        off = rng.choice([0, 0, 3600, -18000, 19800, 86340, -86340, 3661]) if aware else 0
        fold = 0
        tz = self.prog["tz"]
        if not aware and tz["on"] and chance(rng, 0.5):     # about when clocks change
            day = datetime.date.fromordinal(s // 86400 + EPOCH_DAY)
            if 1900 < day.year < 2400 and (bad or s > 40000000 or f["signed"]):
                first = datetime.date(day.year, 1, 1).toordinal() - EPOCH_DAY
                leap = day.year % 4 == 0 and (day.year % 100 != 0 or day.year % 400 == 0)
                near = 86400 * (first + rng.choice([tz["on"], tz["until"]]) - 1 + leap)
                if near < limit:
                    s = near + rng.choice([3599, 3600, 5400, 7199, 7200, 9000, 10799, 10800, rng.randint(3600, 10800)])
                    fold = rng.randint(0, 1)
        return {"t": "dt", "day": s // 86400, "sec": s % 86400, "us": us, "off": off, "aware": aware, "fold": fold}

    def text(self, f, size, bad):
        rng, e = self.rng, f["enc"]
        unit = UNIT.get(e, 1)
        if size is None:
            budget = rng.randint(0, 5) * unit
            if chance(rng, self.k["big"]):
                budget = rng.choice([40, 100, 255, 256, 300, 700]) * unit
        else:
            budget = size
            if e in MARKED:
                budget -= MARKED[e]
            if f["k"] == "strz":
                budget -= unit
            if f["pad"] != -1 and chance(rng, 0.6) and budget > 0:
                budget = rng.randint(0, budget)
        pools = {"ascii": [65, 48, 127, 1, 97], "latin-1": [65, 255, 160, 1, 128, 90],
                 "cp500": [65, 255, 160, 1, 133, 91, 48], "cp1252": [65, 255, 8364, 376, 1, 160]}
        pool = pools.get(e, [65, 1, 127, 128, 65279, 2047, 2048, 8364, 65535, 65536, 128512, 1114111, 55295, 57344, 90, 233])
        if f["k"] == "str":
            pool = pool + [0]
        codec = {"utf-16": "utf-16-le", "utf-32": "utf-32-le", "utf-8-sig": "utf-8"}.get(e, e)
        out = []
        left = budget
        for _ in range(40):
            if left < unit:
                break
            c = rng.choice(pool)
            n = len(chr(c).encode(codec))
            if n <= left:
                out.append(c)
                left -= n
        while left >= unit:
            out.append(rng.choice([65, 66, 122]))
            left -= unit
        if bad and chance(rng, 0.4):
            out.append(rng.choice([55296, 57343, 256, 128, 129]))
        return out
