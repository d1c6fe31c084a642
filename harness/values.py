"""Values, between Python objects and the records of the specification."""

import datetime
import math
import struct as pystruct
import uuid
from collections.abc import Mapping

from binobj import Struct
from binobj.fields import NOT_PRESENT
from binobj.fields import UNDEFINED

EPOCH_DAY = datetime.date(1970, 1, 1).toordinal()


NAN = b"\x7f\xf8" + b"\0" * 6
ODD_NAN = b"\x7f" + b"\xff" * 7


class Unsized:
    """An iterable without a length."""

    def __init__(self, items):
        self.items = items

    def __iter__(self):
        return iter(self.items)


def enc_int(v):
    m = abs(v)
    return {"t": "int", "n": v < 0, "m": list(m.to_bytes((m.bit_length() + 7) // 8, "little"))}


def enc(v, classes=()):
    """The record for value `v`. `classes` are those of the program."""
    if v is None:
        return {"t": "none"}
    if v is NOT_PRESENT:
        return {"t": "np"}
    if v is UNDEFINED:
        return {"t": "undef"}
    if isinstance(v, bool):
        return {"t": "weird", "w": repr(v)}
    if isinstance(v, int):
        return enc_int(v)
    if isinstance(v, float):
        d = pystruct.pack(">d", v)
        if math.isnan(v) and d != NAN:
            d = ODD_NAN
        return {"t": "float", "d": list(d)}
    if isinstance(v, (bytes, bytearray)):
        return {"t": "bytes", "b": list(v)}
    if isinstance(v, str):
        return {"t": "str", "c": [ord(c) for c in v]}
    if isinstance(v, uuid.UUID):
        return {"t": "uuid", "u": list(v.bytes)}
    if isinstance(v, datetime.datetime):
        off = v.utcoffset()
        return {
            "t": "dt",
            "day": v.toordinal() - EPOCH_DAY,
            "sec": v.hour * 3600 + v.minute * 60 + v.second,
            "us": v.microsecond,
            "off": 0 if off is None else int(off.total_seconds()),
            "aware": off is not None,
            "fold": v.fold if off is None else 0,
        }
    if isinstance(v, Struct):
        return enc_struct(v, classes)
    if isinstance(v, Unsized):
        return {"t": "iter", "e": [enc(x, classes) for x in v.items]}
    if isinstance(v, Mapping):
        return {"t": "dict", "f": [[str(k), enc(x, classes)] for k, x in v.items()]}
    if isinstance(v, list):
        return {"t": "list", "e": [enc(x, classes) for x in v]}
    if isinstance(v, tuple):
        return {"t": "list", "e": [enc(x, classes) for x in v], "tup": True}
    return {"t": "weird", "w": repr(v)[:80]}


def enc_struct(obj, classes):
    cls = type(obj)
    if cls not in classes:
        return {"t": "weird", "w": cls.__name__}
    return {"t": "struct", "c": classes.index(cls) + 1, "f": pairs_of(obj, classes)}


def set_names(obj):
    """The names of the fields that have a value, in declaration order."""
    has = set(obj)
    order = [n for n in type(obj).__binobj_struct__.components if n in has]
    return order + sorted(has.difference(order))


def pairs_of(obj, classes):
    return [[n, enc(obj[n], classes)] for n in set_names(obj)]


def dec_int(r):
    v = int.from_bytes(bytes(r["m"]), "little")
    return -v if r["n"] else v


class Number(int):
    """An integer, as members of enumerations are."""


class Text(str):
    """Text of a type of the user's."""


class Record(Mapping):
    """A mapping that isn't a dictionary."""

    def __init__(self, items):
        self.items_ = items

    def __getitem__(self, name):
        return self.items_[name]

    def __iter__(self):
        return iter(self.items_)

    def __len__(self):
        return len(self.items_)


def vary(v):
    """A value like `v`, maybe of another type fields also take."""
    if type(v) is int:
        return Number(v) if v % 5 == 2 else v
    if type(v) is bytes:
        return bytearray(v) if sum(v) % 4 == 1 else v
    if type(v) is str:
        return Text(v) if len(v) % 4 == 3 else v
    if type(v) is dict:
        v = {k: vary(x) for k, x in v.items()}
        return Record(v) if len(v) % 2 else v
    if type(v) in (list, tuple):
        return type(v)(map(vary, v))
    return v


def dec(r, classes=()):
    """The Python value for a record."""
    t = r["t"]
    if t == "none":
        return None
    if t == "np":
        return NOT_PRESENT
    if t == "undef":
        return UNDEFINED
    if t == "int":
        return dec_int(r)
    if t == "float":
        return pystruct.unpack(">d", bytes(r["d"]))[0]
    if t == "bytes":
        return bytes(r["b"])
    if t == "str":
        return "".join(map(chr, r["c"]))
    if t == "uuid":
        return uuid.UUID(bytes=bytes(r["u"]))
    if t == "dt":
        tz = datetime.timezone(datetime.timedelta(seconds=r["off"])) if r["aware"] else None
        day = datetime.date.fromordinal(r["day"] + EPOCH_DAY)
        s = r["sec"]
        return datetime.datetime(
            day.year, day.month, day.day, s // 3600, s // 60 % 60, s % 60, r["us"], tz, fold=r["fold"]
        )
    if t == "list":
        es = [dec(x, classes) for x in r["e"]]
        return tuple(es) if r.get("tup") else es
    if t == "iter":
        return Unsized([dec(x, classes) for x in r["e"]])
    if t == "dict":
        return {k: dec(x, classes) for k, x in r["f"]}
    if t == "struct":
        return classes[r["c"] - 1](**{k: dec(x, classes) for k, x in r["f"]})
    raise ValueError(t)
