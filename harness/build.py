"""Makes the real classes for a program of the specification."""

import typing

import binobj
from binobj import Struct
from binobj import errors
from binobj import fields as F
from binobj.decorators import validates
from binobj.decorators import validates_struct
from binobj.fields import DEFAULT
from binobj.fields import NOT_PRESENT
from binobj.varints import VarIntEncoding

from values import dec
from values import vary

VLI = {
    "compact": VarIntEncoding.COMPACT_INDICES,
    "vlq": VarIntEncoding.VLQ,
    "leb128": VarIntEncoding.LEB128,
    "uleb128": VarIntEncoding.ULEB128,
}
# How fields of dataclasses are declared by just their class.
BARE = ("class", "anncls", "annother", "opt", "annopt", "pipe", "annpipe", "str", "stropt")

UUIDS = {f.value: f for f in F.UUIDFormat}

RAW = {
    "name": "", "k": "", "cname": "", "size": {"m": "none", "n": 0, "r": ""}, "byobj": False,
    "endian": "", "signed": False, "enc": "", "pad": -1, "fmt": "", "maxb": -1, "res": "",
    "aware": False, "const": [], "dflt": [], "fct": [], "null": {"m": "no", "b": [], "v": {"t": "none"}},
    "disc": False, "npv": {"t": "np"}, "pres": {"m": "always", "n": 0, "r": ""}, "vals": [],
    "cfn": {"m": "no", "n": 0, "r": ""}, "comp": [], "count": {"m": "none", "n": 0, "r": ""},
    "halt": {"m": "dflt", "n": 0}, "choices": [], "dec": {"m": "", "r": ""}, "cls": 0, "bare": False,
    "fsize": -1, "off": -1, "dep": False, "bad": "", "ann": "inst",
    "fctd": False,
}

# What time it is: what default factories make depends on it.
CLOCK = [0]


def raw(**kw):
    """A field of a program, with the attributes that aren't given set to nothing."""
    f = {k: (dict(v) if isinstance(v, dict) else list(v) if isinstance(v, list) else v) for k, v in RAW.items()}
    f.update(kw)
    return f


def test_value(k, v):
    """Does value `v` pass the validator?"""
    m, n = k["m"], k["n"]
    if m == "nonnull":
        return v is not None
    if m == "never":
        return False
    if isinstance(v, int) and not isinstance(v, bool):
        return {"le": v <= n, "ge": v >= n, "ne": v != n}.get(m, True)
    if isinstance(v, (bytes, bytearray, str, list, tuple)):
        return {"maxlen": len(v) <= n, "minlen": len(v) >= n}.get(m, True)
    return True


class Refusal(Exception):
    """What users' own validators raise; `field` is the one they got."""

    def __init__(self, field):
        super().__init__(f"refused: {field}")
        self.field = field


class RefusedValue(Refusal, ValueError):
    pass


class RefusedKey(Refusal, KeyError):
    pass


class RefusedAttribute(Refusal, AttributeError):
    pass


class RefusedAssertion(Refusal, AssertionError):
    pass


REFUSALS = [None, None, None, Refusal, RefusedValue, RefusedKey, RefusedAttribute, RefusedAssertion]


def refusal(number, field, value):
    cls = REFUSALS[number % len(REFUSALS)]
    return cls(field) if cls else errors.ValidationError(field=field, value=value)


def make_validator(k):
    def validator(field, value):
        if value is NOT_PRESENT:
            raise errors.ValidationError(field=field, value="validated although absent")
        if not test_value(k, value):
            raise refusal(k["n"] + len(k["m"]), field, value)

    return validator


def make_method_validator(k, log):
    check = make_validator(k)

    def method(self, field, value):
        if not isinstance(self, Struct):
            raise TypeError("not called as a method")
        if getattr(type(self), field.name) is not field:
            raise TypeError("not a field of the structure")
        check(field, value)

    return method


def make_struct_validator(k):
    def method(self, values):
        if not isinstance(self, Struct):
            raise TypeError("not called as a method")
        a, b = values[k["a"]], values[k["b"]]
        if isinstance(a, int) and isinstance(b, int) and a > b:
            raise refusal(len(k["a"]) + 3 * len(k["b"]) + ord(k["a"][0]), None, values)

    return method


def number(ctx):
    """The number of a context."""
    return 0 if ctx is None else int(ctx)


def reference(k):
    """A function that gets the value that `k` refers to, out of those of all fields."""
    r, s = k["r"], k.get("s")
    if s is None:
        return lambda values: values[r]
    return lambda values: values[r][s]


def make_present(k):
    m, n = k["m"], k["n"]
    value = reference(k)
    if m == "ctx":
        return lambda values, ctx, stream: bool(number(ctx) & n)
    if m == "more":
        return lambda values, ctx, stream: stream is None or peek_byte(stream, n)
    if m == "bit":
        return lambda values, ctx, stream: value(values) & n
    if m == "nobit":
        return lambda values, ctx, stream: not value(values) & n
    if m == "eq":
        return lambda values, ctx, stream: "yes" if value(values) == n else ""
    return lambda values, ctx, stream: None if value(values) == n else [value(values)]


def peek_byte(stream, n):
    """Is the next byte in the stream something else than `n`?"""
    here = stream.tell()
    b = stream.read(1)
    stream.seek(here)
    return b != b"" and b[0] != n


def make_compute(k, name):
    m, n = k["m"], k["n"]
    value = reference(k)

    def compute(field, values):
        if field.name != name:
            raise TypeError("not the field it computes")
        if m == "const":
            return n
        if m == "copy":
            return value(values)
        if m == "len":
            return len(value(values)) + n
        return sum(value(values))

    return compute


def make_halt(k):
    m, n = k["m"], k["n"]

    def halt(array, stream, values, context, loaded):
        if m == "ref":
            return len(values) >= loaded[k["r"]]
        if m == "last":
            return bool(values) and values[-1] == n
        if m == "pop":
            return bool(values) and values[-1] == n and (values.pop(), True)[1]
        if m == "ctx":
            return "enough" if len(values) >= number(context) else []
        if not isinstance(array, F.Array):
            raise TypeError("not the array it halts")
        return not peek_byte(stream, n)

    return halt


def make_deciders(k):
    m = k["m"]
    value = reference(k)

    def load(stream, classes, context, loaded):
        if m == "tag":
            return classes[value(loaded) % len(classes)]
        if m == "ctx":
            return classes[number(context) % len(classes)]
        here = stream.tell()
        b = stream.read(1)
        stream.seek(here)
        return classes[0 if b == b"" or b[0] < 128 else 1]

    def dump(data, classes, context, values):
        if m == "tag":
            return classes[value(values) % len(classes)]
        if m == "ctx":
            return classes[number(context) % len(classes)]
        return classes[0 if isinstance(data, int) else 1]

    return load, dump


# Names codecs are also known by.
SPELLINGS = {
    "latin-1": ["latin-1", "iso-8859-1", "L1", "Latin1"], "ascii": ["ascii", "US-ASCII", "646"], "cp500": ["cp500", "EBCDIC-CP-BE"],
    "utf-8": ["utf-8", "UTF8", "U8", "utf_8"], "utf-16": ["utf-16", "U16", "UTF16"], "utf-16-le": ["utf-16-le", "UTF_16LE", "utf_16_le"],
    "utf-16-be": ["utf-16-be", "UTF-16BE"], "utf-32-le": ["utf-32-le", "UTF-32LE"], "utf-32-be": ["utf-32-be", "UTF_32BE"],
    "cp1252": ["cp1252", "windows-1252"],
}


def spell(f):
    names = SPELLINGS.get(f["enc"], [f["enc"]])
    return names[(len(f["name"]) + sum(map(ord, f["name"])) + f["size"]["n"] + f["pad"]) % len(names)]


def make_factory(f, classes):
    return lambda: vary(dec(f["fct"][CLOCK[0] % len(f["fct"])], classes))


class Custom(F.Field):
    """A field of the user's: a number in groups of seven bits."""

    def _do_load(self, stream, context, loaded_fields):
        v, offset = 0, stream.tell()
        while True:
            b = stream.read(1)
            if not b:
                raise errors.UnexpectedEOFError(field=self, size=1, offset=offset)
            v = v << 7 | b[0] & 127
            if b[0] < 128:
                return v

    def _do_dump(self, stream, data, context, all_fields):
        if data < 0:
            raise errors.UnserializableValueError(field=self, value=data)
        out = [data & 127]
        while data > 127:
            data >>= 7
            out.insert(0, data & 127 | 128)
        stream.write(bytes(out))


# Classes of fields by name: the library's, the user's own and derived from them.
CLASSES = {"Custom": Custom}


def class_named(name):
    if name not in CLASSES:
        CLASSES[name] = type(name, (class_named(name[2:]),), {}) if name[:2] == "My" else getattr(F, name)
    return CLASSES[name]


def field_class(f):
    return class_named(f["cname"])


def make_field(f, classes, scope, named=False):
    """The field object for record `f`. `scope` has the fields it can refer to."""
    kw = {}

    def ref(k):
        return scope[k["r"]] if f["byobj"] and k["r"] in scope else k["r"]

    if named:
        kw["name"] = f["name"]
    if f["bad"] == "name":
        kw["name"] = f["name"] + "_"
    for key, arg in (("const", "const"), ("dflt", "default")):
        if f[key]:
            kw[arg] = vary(dec(f[key][0], classes))
    if f["fct"]:
        # Giving the function as the default is deprecated, but still possible.
        kw["default" if f.get("fctd") else "factory"] = make_factory(f, classes)
    if f["disc"]:
        kw["discard"] = True
    if f["null"]["m"] == "bytes":
        kw["null_value"] = bytes(f["null"]["b"])
    elif f["null"]["m"] == "val":
        kw["null_value"] = vary(dec(f["null"]["v"], classes))
    elif f["null"]["m"] == "dflt":
        kw["null_value"] = DEFAULT
    if f["npv"]["t"] != "np":
        kw["not_present_value"] = vary(dec(f["npv"], classes))
    if f["pres"]["m"] != "always":
        kw["present"] = make_present(f["pres"])
    vals = [make_validator(k) for k in f["vals"]]
    if vals:
        several = (list, tuple, iter)[(f["vals"][0]["n"] + len(f["name"])) % 3]
        kw["validate"] = vals[0] if len(vals) == 1 and f["vals"][0]["n"] % 2 else several(vals)

    k = f["k"]
    if k in ("int", "float", "ts") and f["endian"]:
        kw["endian"] = f["endian"]
    if k == "int" and f["cname"] in ("Integer", "UnsignedInteger"):
        kw["size"] = f["size"]["n"]
        if f["cname"] == "Integer":
            kw["signed"] = f["signed"]
    if k == "vint" and f["cname"] != "Custom":
        kw["vli_format"] = VLI.get(f["fmt"], f["fmt"])
        if f["maxb"] >= 0:
            kw["max_bytes"] = f["maxb"]
    if k == "ts":
        kw["resolution"] = f["res"]
        kw["tz_aware"] = f["aware"]
        kw["signed"] = f["signed"]
        if f["cname"] == "Timestamp":
            kw["size"] = f["size"]["n"]
    if k == "uuid":
        kw["stored_as"] = UUIDS[f["fmt"]]
    if k in ("bytes", "str", "strz"):
        if f["size"]["m"] == "int":
            kw["size"] = f["size"]["n"]
        elif f["size"]["m"] == "ref":
            kw["size"] = ref(f["size"])
    if k in ("str", "strz"):
        kw["encoding"] = spell(f)
        if f["pad"] >= 0:
            kw["pad_byte"] = bytes([f["pad"]])
        if f["bad"] == "pad2":
            kw["pad_byte"] = b"  "
        if f["bad"] == "padtype":
            kw["pad_byte"] = " "

    if k == "arr":
        comp = make_field(f["comp"][0], classes, scope)
        if f["count"]["m"] == "int":
            kw["count"] = f["count"]["n"]
        elif f["count"]["m"] == "ref":
            kw["count"] = ref(f["count"])
        if f["bad"] == "count":
            kw["count"] = 1.5
        if f["halt"]["m"] != "dflt":
            kw["halt_check"] = make_halt(f["halt"])
        obj = F.Array(comp, **kw)
    elif k == "nest":
        obj = F.Nested(classes[f["cls"] - 1], **kw)
    elif k == "uni":
        load, dump = make_deciders(f["dec"])
        choices = [
            classes[c["cls"] - 1] if c["bare"] else make_field(c, classes, scope) for c in f["choices"]
        ]
        if f["bad"] == "unionclass":
            choices[0] = F.UInt8
        obj = F.Union(*choices, load_decider=load, dump_decider=dump, **kw)
    else:
        if f["bad"] == "dfltfct":
            kw.update(default=1, factory=lambda: 1)
        elif f["bad"] == "endian":
            kw["endian"] = "middle"
        elif f["bad"] == "vfmt":
            kw["vli_format"] = "none"
        elif f["bad"] == "res":
            kw["resolution"] = "h"
        obj = field_class(f)(**kw)

    if f["cfn"]["m"] != "no":
        obj.computes(make_compute(f["cfn"], f["name"]))
    if f["bad"] in ("computes2", "computeconst"):
        obj.computes(make_compute({"m": "const", "n": 1, "r": ""}, f["name"]))
    return obj


def take_extra(self, /, *, extra=None, **values):
    Struct.__init__(self, **values)
    self.extra = extra


def make_class(c, classes, same=False):
    """Declare class record `c` after those in `classes`."""
    bases = tuple(classes[b - 1] for b in c["bases"]) or (Struct,)
    ns = {}
    if c.get("xinit"):
        ns["__init__"] = take_extra
    annotations = {}
    later = []
    if c["meta"]:
        ns["Meta"] = type("Meta", (), {"argument_defaults": dict(c["ad"])} if c["ad"] else {})
    scope = {}
    for b in bases:
        if b is not Struct:
            scope.update(b.__binobj_struct__.components)

    for i, f in enumerate(c["fields"]):
        if c["style"] == "assign" or (c["style"] == "mixed" and i == 0):
            ns[f["name"]] = scope[f["name"]] = make_field(f, classes, scope)
            continue
        form = f["ann"]
        cls = classes[f["cls"] - 1] if f["k"] == "nest" and form != "inst" else None
        if form == "several":
            annotations[f["name"]] = typing.Union[F.UInt8, F.UInt16]
        elif form == "two":
            annotations[f["name"]] = typing.Annotated[int, F.UInt8, F.UInt16]
        elif form == "class":
            annotations[f["name"]] = cls or field_class(f)
        elif form == "anncls":
            annotations[f["name"]] = typing.Annotated[int, cls or field_class(f)]
        elif form == "annother":
            annotations[f["name"]] = typing.Annotated[int, "a comment", cls or field_class(f), 17]
        elif form == "opt":
            annotations[f["name"]] = typing.Optional[field_class(f)]
        elif form == "pipe":
            annotations[f["name"]] = field_class(f) | None
        elif form == "annpipe":
            annotations[f["name"]] = typing.Annotated[int, None | field_class(f)]
        elif form == "severalpipe":
            annotations[f["name"]] = F.UInt8 | F.UInt16
        elif form == "str":
            annotations[f["name"]] = f"class_named('{f['cname']}')"
        elif form == "stropt":
            annotations[f["name"]] = f"typing.Optional[class_named('{f['cname']}')]"
        elif form == "annopt":
            annotations[f["name"]] = typing.Annotated[typing.Optional[int], typing.Optional[field_class(f)]]
        else:
            obj = scope[f["name"]] = make_field(f, classes, scope)
            annotations[f["name"]] = obj if form == "inst" else typing.Annotated[int, obj]
        if form in BARE:
            if f["fct"]:
                ns[f["name"]] = make_factory(f, classes)
            if f["dflt"]:
                ns[f["name"]] = vary(dec(f["dflt"][0], classes))
            if f["cfn"]["m"] != "no":
                later.append(f)

    if annotations or c["style"] == "dataclass":
        annotations.setdefault("unrelated", int)
        ns["__annotations__"] = annotations

    prefix = "" if same else f"_{c['name']}"
    for i, v in enumerate(c["mv"]):
        name = f"{prefix}_valid{i}"
        ns[name] = validates(*v["ns"])(make_method_validator(v["v"], None))
    for i, v in enumerate(c["sv"]):
        ns[f"{prefix}_struct{i}"] = validates_struct(make_struct_validator(v))
    if c["bad"] == "noval":
        ns["_bad"] = validates()(lambda self, field, value: None)
    elif c["bad"] == "valfn":
        ns["_bad"] = validates(lambda self, field, value: None)
    elif c["bad"] == "valobj":
        ns["_bad"] = validates(F.UInt8())(lambda self, field, value: None)

    ns["__module__"] = __name__
    if c.get("mixin"):
        mixin = type("Mixin", (), {"UNIT": 1, "helper": lambda self: self.UNIT})
        bases = (mixin, *bases) if c["mixin"] == "first" else (*bases, mixin)
    cls = type(c["name"], bases, ns)
    if c["style"] in ("dataclass", "mixed"):
        cls = binobj.dataclass(cls)
    for f in later:
        getattr(cls, f["name"]).computes(make_compute(f["cfn"], f["name"]))
    return cls
