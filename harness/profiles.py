"""What the random runs for each property are made of: knobs of Gen and Scenario.

`base` gives the scenario's default weights of operations; every profile changes
what its property is about.
"""

from gen import ALL_KINDS
from scenario import OPS

INTS = {"int": 1}
SCALARS = {"int": 4, "vint": 2, "float": 1, "bytes": 2, "str": 2, "strz": 2, "uuid": 0.5, "ts": 1}


def ops(**kw):
    return {**OPS, **kw}


def only(**kw):
    return {**{k: 0 for k in OPS}, **kw}


FIELDWISE = only(fdump=5, fload=4, floads=1, dump=0.5, load=0.5, roundtrip=0.5, size=0.1)

PROFILES = {
    "C01": dict(n=2600, ops=ops(roundtrip=8, chain=1, load=3, loads=2), missing=0.01, data=dict(same=8, cut=1, more=1, flip=1, noise=0.3)),
    "C02": dict(n=2600, ops=ops(dump=6, dumps=5, set=5, pdump=2, new=4, load=1, loads=1), missing=0.01, inherit=0.45),
    "C03": dict(
        n=3200, kinds={"int": 8, "arr": 1, "nest": 0.5}, ops=ops(fdump=8, fload=6, floads=2, roundtrip=3), meta=0.6, bad=0.15,
        pres=0.03, null=0.08, vals=0.03, inherit=0.35, maxfields=8, anyint=0.5,
    ),
    "C04": dict(
        n=3200, kinds={"vint": 8, "arr": 1, "int": 1}, ops=ops(fdump=8, fload=8, floads=4, roundtrip=3), bad=0.1, pres=0.03,
        null=0.1, vals=0.03, data=dict(same=3, cut=3, more=2, flip=4, noise=2, long=4), bigvint=0.3,
    ),
    "C05": dict(
        n=3000, kinds={"bytes": 3, "str": 5, "strz": 5, "int": 1, "arr": 0.5}, ops=ops(fdump=6, fload=6, floads=3, roundtrip=3),
        bad=0.15, pres=0.03, null=0.08, vals=0.03, marked=0.15, data=dict(same=5, cut=3, more=2, flip=4, noise=2),
    ),
    "C06": dict(
        n=3200, kinds={"float": 8, "arr": 0.5, "int": 0.5}, ops=ops(fdump=10, fload=8, floads=1, roundtrip=2), bad=0.12, pres=0.02,
        null=0.05, vals=0, maxfields=6, data=dict(same=4, cut=1, more=1, flip=5, noise=4), pattern=0.1,
    ),
    "C07": dict(
        n=3200, kinds={"ts": 8, "uuid": 3, "int": 0.5}, ops=ops(fdump=10, fload=8, floads=1, roundtrip=2), bad=0.08, pres=0.02,
        null=0.05, vals=0, pattern=0.1, zones=True,
    ),
    "C08": dict(
        n=2600, ops=ops(len=14, size=2, dump=5, set=5, new=5, roundtrip=3, load=2, **{"del": 3}), pres=0.3, null=0.2, dflt=0.25,
        const=0.15, npv=0.3, missing=0.08,
    ),
    "C09": dict(
        n=1500, ops=ops(everyfield=8, pload=4, getf=4, load=2, new=1, set=1), pres=0.2, disc=0.15, length=34, inherit=0.3,
        data=dict(same=6, cut=2, more=2, flip=2, noise=0.5), missing=0.01,
    ),
    "C10": dict(n=1400, ops=only(prefixes=10, fload=2, floads=2, load=2, loads=2, pload=3, getf=1, new=1, set=1, dump=1), missing=0.01, length=40,
                data=dict(same=2, cut=8, more=1, flip=1, noise=1), pres=0.2, marked=0.15),
    "C11": dict(
        n=2400, ops=ops(load=10, loads=8, chain=4, fload=5, floads=4, dump=3), data=dict(same=4, cut=1, more=8, flip=1, noise=0.5),
        missing=0.01, pres=0.2, null=0.2,
    ),
    "C12": dict(
        n=2800, ops=ops(set=8, valid=5, dump=6, load=7, loads=3, roundtrip=2), vals=0.5, mv=0.6, sv=0.4, inherit=0.5,
        data=dict(same=4, cut=0.3, more=0.5, flip=8, noise=1), disc=0.12,
    ),
    "C13": dict(
        n=2800, const=0.6, ops=ops(set=5, load=7, loads=3, dump=5, len=3, size=1, fload=3, fdump=3),
        data=dict(same=4, cut=1, more=1, flip=8, noise=1), bad=0.05, disc=0.15,
    ),
    "C14": dict(
        n=2800, dflt=0.5, fct=0.6, cfn=0.9, ops=ops(tick=4, set=9, append=4, get=7, dict=5, len=4, dump=7, dumps=2, pdump=2, load=2, **{"del": 6}),
        missing=0.12, pattern=0.7, groups=dict(counted=3, flags=1, tagged=0.5, byctx=0.3, computed=4), disc=0.1,
    ),
    "C15": dict(
        n=2800, null=0.75, ops=ops(fdump=6, fload=7, floads=3, load=5, roundtrip=3, set=3), data=dict(same=5, cut=2, more=2, flip=5, noise=1, long=2),
        kinds={**ALL_KINDS, "vint": 4},
        pres=0.08, vals=0.05, nullness=0.5, bad=0.08,
    ),
    "C16": dict(
        n=2800, pres=0.5, npv=0.4, pattern=0.8, groups=dict(counted=0.5, flags=5, tagged=0.5, byctx=3, more=2, computed=0.3), ctx=1,
        ops=ops(append=2, set=6, dump=6, dumps=2, pdump=3, load=6, loads=3, len=4, dict=4, getf=3, pload=3, valid=2, get=3), missing=0.06,
        vals=0.15, mv=0.2, disc=0.1, inherit=0.3, kinds={**ALL_KINDS, "arr": 4},
    ),
    "C17": dict(
        n=2600, kinds={"arr": 8, "int": 2, "nest": 1, "str": 0.5, "vint": 1, "strz": 1, "float": 0.3, "bytes": 1, "uuid": 0.2},
        ops=ops(append=5, dump=6, load=6, roundtrip=4, fdump=4, fload=4, set=4), halt=0.35, pattern=0.5, unsizedlist=0.3, bad=0.12,
        groups=dict(counted=5, flags=0.5, tagged=0, byctx=0, more=0.3, computed=1), eofarr=0.5, data=dict(same=5, cut=3, more=2, flip=3, noise=1),
    ),
    "C18": dict(
        n=2400, kinds={"nest": 6, "uni": 6, "int": 3, "arr": 1.5, "strz": 1, "bytes": 1, "vint": 1}, classes=(2, 4), ctx=1,
        ops=ops(dump=6, load=6, roundtrip=5, len=3, dict=3, set=4), inherit=0.3, vals=0.15, mv=0.15, pres=0.2, disc=0.15,
        groups=dict(counted=1, flags=1, tagged=5, byctx=1, computed=0.5), missing=0.02, unsizedlist=0.2,
    ),
    "C19": dict(
        n=2600, length=40, ops=ops(tick=1, new=5, set=12, append=4, get=8, iter=3, view=4, len=2, dict=5, eq=8, dump=2, dumps=0.5, pdump=0.5,
                                    load=2, loads=1, pload=1, getf=0.5, fdump=0, fload=0, floads=0, chain=0, roundtrip=0.5,
                                    **{"del": 6, "in": 3}),
        classes=(1, 3), inherit=0.3, dflt=0.25, fct=0.4, missing=0.2, badname=0.08, disc=0.12, tuples=0.25,
    ),
    "C20": dict(
        n=2200, classes=(2, 5), inherit=0.75, meta=0.5, interleave=True, mv=0.4, vals=0.2, sv=0.3, badclass=0.35, maxfields=4, length=34,
        ops=ops(dump=4, load=3, valid=3, size=2, set=3, len=2, fdump=2), anyclass=0.8, missing=0.02, dataclass=0.3,
    ),
    "C21": dict(
        n=2200, dataclass=0.9, classes=(1, 4), inherit=0.5, meta=0.5, interleave=True, mv=0.35, vals=0.15, sv=0.2, badclass=0.25,
        maxfields=8, ops=ops(dump=4, load=4, size=2, valid=2, set=3, fdump=2, getf=2), missing=0.03, null=0.3, dflt=0.3, length=28,
        pattern=0.3, barefields=0.5,
    ),
    "C22": dict(
        n=2800, bad=0.3, missing=0.25, vals=0.25, mv=0.2, ops=ops(set=6, dumps=8, pdump=5, dump=4, load=6, loads=5, pload=4, getf=3, new=4),
        data=dict(same=1, cut=5, more=2, flip=6, noise=4), kwload=0.2, badname=0.08,
    ),
    "C23": dict(
        n=1700, ops=only(everylast=10, pdump=6, new=5, set=6, append=1, dump=2, load=1, **{"del": 4}), missing=0.2, length=40, dflt=0.3,
        cfn=0.9, pres=0.25, ctx=1, disc=0.1,
    ),
    "C24": dict(
        n=2600, disc=0.45, kwload=0.6, ops=ops(load=10, loads=8, dict=6, dump=5, pload=3, getf=3, roundtrip=3, valid=1),
        vals=0.15, mv=0.15, data=dict(same=7, cut=1, more=1, flip=2, noise=0.3), missing=0.02, pattern=0.6,
    ),
}
