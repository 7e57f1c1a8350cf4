"""C24: ProjectObjectDict versus an ordinary dict that rejects foreign values; comparison."""
import copy
import itertools
import math
import pickle

import numpy as np

from mc.core import fail, eq
from mc import scenes as S
from sumo.geometry.pose3 import Pose3
from sumo.geometry.rot3 import Rot3
from sumo.semantic.project_object import ProjectObject
from sumo.semantic.project_object_dict import ProjectObjectDict

KEYS = ("a", "b", "c")
OBJ = {k: ProjectObject(id=k) for k in ("p", "q")}
BAD = {"none": None, "str": "p", "dict": {}, "cls": ProjectObject, "objdict": ProjectObjectDict()}


class Fake(object):      # has the attributes of a project object but is none
    id = "p"


BAD["fake"] = Fake()


def val(v):
    return OBJ.get(v) or BAD[v] if v in OBJ else BAD[v]


VALS = ("p", "q", "none", "fake")
OPS = []
for k in KEYS[:2]:
    for v in VALS:
        OPS.append(("set", k, v))
    for v in ("p", "none"):
        OPS.append(("setdefault", k, v))
    OPS += [("del", k), ("pop", k), ("popd", k)]
OPS += [("setdefault0", "a"), ("popitem",), ("clear",), ("copy",), ("deepcopy",), ("pickle",)]
PAIRS = ((("a", "p"),), (("b", "q"), ("c", "p")), (("a", "q"), ("b", "str")), (("c", "none"), ("a", "p")), ())
for how in ("update-dict", "update-pairs", "update-kw", "update-objdict", "ior", "ctor-dict", "ctor-pairs", "ctor-kw",
            "fromkeys"):
    for i in range(len(PAIRS)):
        OPS.append((how, i))
OPS = tuple(OPS)


def explore(ctx):
    def apply(d, m, op):
        """One operation on the object dict d and on the plain dict m; returns new (d, m)."""
        ctx.step()
        kind = op[0]
        args = op[1:]
        pairs = [(k, val(v)) for k, v in PAIRS[args[0]]] if args and isinstance(args[0], int) else None
        adds = ([val(args[1])] if len(args) == 2 else
                [v for _, v in pairs] if pairs is not None else
                [None] if kind == "setdefault0" and args[0] not in m else [])
        if kind == "setdefault" and args[0] in m:
            adds = []
        if kind == "fromkeys" and pairs:
            adds = [pairs[0][1]]
        bad = any(not isinstance(v, ProjectObject) for v in adds)
        if kind == "update-objdict" and bad:
            return d, m          # such an argument cannot be made
        before = list(m.items())

        def act(x, plain):
            cls = dict if plain else ProjectObjectDict
            if kind == "set":
                x[args[0]] = val(args[1])
            elif kind == "setdefault":
                return x, x.setdefault(args[0], val(args[1]))
            elif kind == "setdefault0":
                return x, x.setdefault(args[0])
            elif kind == "del":
                del x[args[0]]
            elif kind == "pop":
                return x, x.pop(args[0])
            elif kind == "popd":
                return x, x.pop(args[0], 7)
            elif kind == "popitem":
                return x, x.popitem()
            elif kind == "clear":
                x.clear()
            elif kind == "copy":
                return x, dict(x.copy())
            elif kind in ("deepcopy", "pickle"):
                y = copy.deepcopy(x) if kind == "deepcopy" else copy.copy(x)
                if not plain and type(y) is not ProjectObjectDict:
                    fail("%s gave a %s" % (kind, type(y)))
                if any(not isinstance(v, ProjectObject) for v in y.values()):
                    fail("%s holds a foreign value" % kind)
                if not plain:
                    before2 = list(x.items())
                    y["zz"] = OBJ["p"]
                    eq(list(x.items()), before2, "%s is not independent" % kind)
                    del y["zz"]
                return x, (list(y), [v.id for v in y.values()])
            elif kind == "update-dict":
                x.update(dict(pairs))
            elif kind == "update-pairs":
                x.update(iter(pairs))
            elif kind == "update-kw":
                x.update(**dict(pairs))
            elif kind == "update-objdict":
                x.update(cls(pairs))
            elif kind == "ior":
                if not hasattr(dict, "__ior__") and plain:
                    x.update(dict(pairs))
                else:
                    x |= dict(pairs)
            elif kind == "ctor-dict":
                x = cls(dict(pairs))
            elif kind == "ctor-pairs":
                x = cls(iter(pairs))
            elif kind == "ctor-kw":
                x = cls(**dict(pairs))
            elif kind == "fromkeys":
                if not pairs:
                    x = cls.fromkeys(())
                else:
                    x = cls.fromkeys([k for k, _ in pairs], pairs[0][1])
            else:
                raise AssertionError(kind)
            return x, None

        def attempt(x, plain):
            try:
                r = act(x, plain)
                return ("ok",) + r
            except (KeyError, TypeError, AssertionError, ValueError) as e:
                return ("error", x, type(e).__name__)
        rd = attempt(d, False)
        if bad:
            if rd[0] != "error":
                fail("a value that is no project object was accepted by %r" % (op,))
            if rd[2] not in ("AssertionError", "TypeError", "ValueError"):
                fail("rejected with %s" % rd[2])
            eq(list(d.items()), before, "a rejected operation changed the dictionary")
            return d, m
        rm = attempt(m, True)
        eq(rd[0], rm[0], "outcome of %r" % (op,))
        if rd[0] == "error":
            eq(rd[2], rm[2], "error of %r" % (op,))
        else:
            eq(rd[2], rm[2], "result of %r" % (op,))
        return rd[1], rm[1]

    def check(d, m):
        if type(d) is not ProjectObjectDict:
            fail("the dictionary is now a %s" % type(d))
        eq(list(d.items()), list(m.items()), "items")
        eq(list(d), list(m), "keys")
        eq(len(d), len(m), "length")
        for k in KEYS:
            eq(k in d, k in m, "membership of %s" % k)
            eq(d.get(k), m.get(k), "get")
            if k in m and d[k] is not m[k]:
                fail("lookup of %s" % k)
        for v in d.values():
            if not isinstance(v, ProjectObject):
                fail("the dictionary holds %r" % (v,))
        if not d.almost_equal(d):
            fail("almost_equal is not reflexive")

    def history(h):
        d, m = ProjectObjectDict(), {}
        for op in h[1:]:
            d, m = apply(d, m, op)
            check(d, m)
        return tuple((k, v.id) for k, v in m.items()), None
    ctx.bfs("operations", ("empty",), OPS, history, 5 if ctx.thorough else 4, split=1)

    def triple(case):          # without merging of states, to see state hidden in the class
        d, m = ProjectObjectDict(), {}
        for op in case:
            d, m = apply(d, m, op)
            check(d, m)
        e = ProjectObjectDict()
        if len(e):
            fail("a new dictionary is not empty")
        return tuple((k, v.id) for k, v in m.items())
    ctx.enum("operation-tuples", itertools.product(OPS, repeat=3 if ctx.thorough else 2), triple)

    # -- comparison: all pairs of objects over one base and single/double field changes
    BASE = ("meshes", "1", "chair", "id", "none", 0.5, True, "tex")
    ALT = {1: ("2", ""), 2: ("bed", "Chair", ""), 3: ("t", "rz", "gen"), 4: ("two_x", "ball"),
           5: (-1, 0.75, 0.5001), 6: (False,), 7: ("two", None)}

    def build(spec):
        if spec[7] is None:
            o = S.make_object(spec[:7] + ("tex",))
            o.meshes = None
            return o
        return S.make_object(spec)

    def variants(depth):
        out = [BASE]
        for n in range(1, depth + 1):
            for fs in itertools.combinations(sorted(ALT), n):
                for vs in itertools.product(*[ALT[f] for f in fs]):
                    s = list(BASE)
                    for f, v in zip(fs, vs):
                        s[f] = v
                    out.append(tuple(s))
        return out

    def pair(case):
        a, b = case
        oa, ob = build(a), build(b)
        ctx.step(3)
        want = a == b
        if bool(oa.almost_equal(ob)) != want:
            fail("almost_equal of objects %r and %r" % (a, b))
        if bool(ob.almost_equal(oa)) != want:
            fail("almost_equal is not symmetric")
        da, db = ProjectObjectDict({"k": oa}), ProjectObjectDict({"k": ob})
        if bool(da.almost_equal(db)) != want or bool(db.almost_equal(da)) != want:
            fail("almost_equal of dictionaries")
        return (want, tuple(i for i in range(8) if a[i] != b[i]))
    V = variants(2)
    ctx.enum("object-pairs", ((a, b) for a in variants(1) for b in V), pair)

    # small differences of numbers are noticed, smaller ones are not
    def small(case):
        typ, what, size = case
        a, b = (S.make_object((typ, "1", "chair", "rz", "none", 0.5, True, sh)) for sh in ({"meshes": "tex", "voxels": "line", "bounding_box": "unit"}[typ],) * 2)
        if what[0] == "t":
            t = np.array(b.pose.t, dtype=float)
            t[int(what[1])] += size
            b.pose = Pose3(Rot3(np.array(b.pose.R.R)), t)
        elif what[0] == "R":
            M = np.eye(3)
            i, j = [k for k in range(3) if k != int(what[1])]
            M[i, i] = M[j, j] = math.cos(size)
            M[i, j], M[j, i] = -math.sin(size), math.sin(size)
            b.pose = Pose3(Rot3(np.array(b.pose.R.R) @ M), np.array(b.pose.t, dtype=float))
        else:
            b.score += size
        want = abs(size) <= 1e-12
        ctx.step(4)
        for x, y in ((a, b), (b, a)):
            if bool(x.almost_equal(y)) != want:
                fail("almost_equal of %s objects that differ by %r in %s is %r" % (typ, size, what, not want))
            if bool(ProjectObjectDict({"k": x}).almost_equal(ProjectObjectDict({"k": y}))) != want:
                fail("almost_equal of dictionaries of %s objects that differ by %r in %s is %r" % (typ, size, what, not want))
        return case
    ctx.enum("small differences", (
        (typ, w, s * m) for typ in S.TYPES for w in ("t0", "t1", "t2", "R0", "R1", "R2", "score")
        for m in (1.0, 0.1, 1e-2, 3e-3, 1e-3, 3e-4, 1e-4, 1e-13, 0.0) for s in (1, -1)), small)

    KS = (("a", "b"), ("b", "a"), ("a",), (), ("a", "b", "c"), ("a", "c"))
    OBS = {"p": OBJ["p"], "q": OBJ["q"]}

    def dpair(case):
        (ka, va), (kb, vb) = case
        da = ProjectObjectDict([(k, OBS[v]) for k, v in zip(ka, va)])
        db = ProjectObjectDict([(k, OBS[v]) for k, v in zip(kb, vb)])
        want = dict(zip(ka, va)) == dict(zip(kb, vb))
        ctx.step(2)
        if bool(da.almost_equal(db)) != want:
            fail("almost_equal of dictionaries is %r" % (not want))
        if bool(db.almost_equal(da)) != want:
            fail("almost_equal of dictionaries is not symmetric")
        return (want, ka, kb)
    ds = [(k, v) for k in KS for v in itertools.product("pq", repeat=len(k))]
    ctx.enum("dict-pairs", itertools.product(ds, ds), dpair)
