"""C26: vectors, their text form and the small geometric helpers."""
import itertools
from fractions import Fraction

import numpy as np

from mc.core import fail, eq, raises
from sumo.base import vector as V

F32 = np.float32
VALUES = (0.0, -0.0, 1.0, -1.0, 0.1, 0.1 + 0.2, 1.0 / 3, 2.0 / 3 * 1e-5, -12345.678, 1e16, 123456789.123456789, 1e22, 1e23, 9007199254740993.0,
          5e-324, 2.2250738585072014e-308, 1.7976931348623157e308, 1e-7, 9.999999999999999e22, 0.30000000000000004, -1e100, 4.35, 1e5, 100000.5)
SHORT = (0.0, -0.0, 1.0, 0.1, -12345.678, 5e-324, 1.7976931348623157e308, 1e-7, 1.0 / 3)
OPTIONS = {"default": {}, "short": dict(precision=2), "fixed": dict(floatmode="fixed", precision=1), "suppress": dict(suppress=True),
           "sign": dict(sign="+"), "space": dict(sign=" "), "legacy": dict(legacy="1.13"), "narrow": dict(linewidth=4),
           "summary": dict(threshold=0, edgeitems=1), "formatter": dict(formatter={"all": lambda x: "?"}), "nan": dict(nanstr="x", infstr="y")}


def same(a, b):
    a, b = np.asarray(a, dtype=np.float64), np.asarray(b, dtype=np.float64)
    return a.shape == b.shape and a.tobytes() == b.tobytes()


def explore(ctx):
    # text and back
    def text(case):
        vals, dt, opt, form = case
        v = np.array(vals, dtype=np.float64).astype(dt)
        if form == "reversed":
            v = v[::-1]
        elif form == "strided":
            v = np.array(sum(([x, 77] for x in v.tolist()), []), dtype=dt)[::2]
        elif form == "list":
            v = v.tolist()
        elif form == "frozen":
            v.flags.writeable = False
        keep = np.array(v)
        before = np.get_printoptions()
        if opt != "default":
            with np.printoptions(**OPTIONS[opt]):
                t = V.vector_to_text(v)
                u = V.vector_of_text(t, len(v))
        else:
            t = V.vector_to_text(v)
            u = V.vector_of_text(t, len(v))
        eq(np.get_printoptions(), before, "print options")
        if not isinstance(t, str):
            fail("the text of %r is %r" % (v, t))
        eq(u.dtype, np.dtype("float64"), "type of the numbers read")
        if not same(u.astype(dt), keep):
            fail("%r is written as %r and read as %r" % (keep.tolist(), t, u.tolist()))
        if not same(v, keep):
            fail("writing changed the vector")
        if len(t.split(",")) != len(keep):
            fail("%r is written as %r" % (keep.tolist(), t))
        eq(V.vector_to_text(v) if opt == "default" else t, t, "text written again")
        for n in (len(keep) - 1, len(keep) + 1, 0):
            if n != len(keep) and n >= 0:
                raises(ValueError, V.vector_of_text, t, n)
        u2 = V.vector_of_text(t, len(v))
        u[...] = 99
        if not same(u2.astype(dt), keep):
            fail("two vectors read from a text share their numbers")
        ctx.step(3)
        return t

    def texts():
        for a in itertools.product(VALUES, repeat=2):
            yield a, "f8", "default", "c"
        for a in itertools.product(SHORT, repeat=3):
            yield a, "f8", "default", "c"
        for n in (1, 2, 3, 4):
            for a in itertools.product(SHORT if n < 3 else SHORT[1::3], repeat=n):
                for o in OPTIONS:
                    for dt in ("f8", "f4"):
                        if dt == "f8" or all(abs(x) < 1e30 for x in a):
                            yield a, dt, o, "c"
                for f in ("reversed", "strided", "list", "frozen"):
                    yield a, "f8", "default", f
        for a in itertools.product((-3, 0, 7, 2 ** 40), repeat=3):
            yield a, "i8", "default", "c"
        for k in range(-1074, 1024, 1 if ctx.thorough else 7):
            for m in (1.0, 1.1, 1.0000000000000002, 1.9999999999999998):
                yield (m * 2.0 ** k, -m * 2.0 ** -k if -1023 < k else 0.5, 1.0), "f8", "default", "c"
        for k in range(-140, 128, 1 if ctx.thorough else 3):
            for m in (1.0, 1.1, 1.0000001, 1.9999999):
                yield (m * 2.0 ** k, -m), "f4", "default", "c"
        for n in range(5, 17):
            yield tuple(VALUES[:n]), "f8", "default", "c"
    ctx.enum("vectors as text", texts(), text)

    # texts written by others
    def foreign(case):
        parts, seps, n = case
        t = parts[0] + "".join(s + p for s, p in zip(seps, parts[1:]))
        bits = t.split(",") if t else []
        want = []
        for b in bits:
            try:
                want.append(float(b))
            except ValueError:
                want = None
                break
        ctx.step()
        if want is None or len(want) != n:
            raises(ValueError, V.vector_of_text, t, n)
            return "refused"
        u = V.vector_of_text(t, n)
        if not same(u, want):
            fail("%r is read as %r, expected %r" % (t, u.tolist(), want))
        return t
    PARTS = ("1", "-2.5", "1e3", "+4", " 7 ", ".5", "3.", "", " ", "x", "1 2", "0x10", "1;2", "1e", "[1", "--1", "\n8\n")
    ctx.enum("texts read as vectors", itertools.chain(
        ((a, (",",) * (len(a) - 1), n) for k in (1, 2) for a in itertools.product(PARTS, repeat=k) for n in range(1, 5)),
        ((a, (",",) * 2, n) for a in itertools.product(PARTS, repeat=3) for n in (2, 3)),
        (((p, q, r), s, 3) for p in PARTS[:3] for q in PARTS[:3] for r in PARTS[:3] for s in itertools.product((",", ", ", " ,", " ", ";", ",,"), repeat=2))), foreign)

    def nothing(case):
        t, n = case
        raises(ValueError, V.vector_of_text, t, n)
        return case
    ctx.enum("no text", [(t, n) for t in (None, "") for n in (1, 2, 3)], nothing)

    # constructors
    def construct(case):
        vals, = case
        for f, n, dt in ((V.Vector2, 2, "f8"), (V.Vector2f, 2, "f4"), (V.Vector3, 3, "f8"), (V.Vector3f, 3, "f4"), (V.Vector4, 4, "f8")):
            a = f(*vals[:n])
            with np.errstate(over="ignore"):
                w = np.array(vals[:n], dtype=dt)
            if a.shape != (n,) or a.dtype != w.dtype or a.tobytes() != w.tobytes():
                fail("%s%r is %r" % (f.__name__, vals[:n], a))
            b = f(*vals[:n])
            b[...] = 5
            if a.tobytes() != w.tobytes():
                fail("two vectors share their numbers")
            raises(TypeError, f, *vals[:n - 1])
        rows = [np.array(vals[:3]), np.array(vals[1:4]), np.array((vals[3], vals[0], vals[2]))]
        M = V.Matrix3(*rows)
        w = np.array([r.tolist() for r in rows])
        if M.shape != (3, 3) or M.dtype != np.float64 or M.tobytes() != w.tobytes():
            fail("Matrix3 of %r is %r" % (rows, M))
        M[...] = 4
        if not same(rows[0], vals[:3]) or not same(rows[1], vals[1:4]):
            fail("a matrix shares numbers with its rows")
        ctx.step(6)
        return case
    ctx.enum("constructors", [(a,) for a in itertools.product((0.0, -0.0, 0.1, -7.25, 1e39, 16777217.0), repeat=4)], construct)

    # unit vectors
    def unit(case):
        vals, k, dt, form = case
        v = (np.array(vals, dtype=np.float64) * 2.0 ** k).astype(dt)
        if form == "strided":
            v = np.stack([v, v + 1], 1)[:, 0]
        elif form == "column":
            v = v.reshape(-1, 1)
        keep = v.copy()
        u = V.unitize(v)
        if v.tobytes() != keep.tobytes():
            fail("unitize changed its argument")
        if u.shape != v.shape:
            fail("unitize(%r) is %r" % (v, u))
        n2 = sum(Fraction(float(x)) ** 2 for x in keep.ravel())
        if n2 == 0:
            if not same(u, keep):
                fail("unitize of the null vector is %r" % u)
            return case
        eps = 1e-5 if dt == "f4" else 1e-14
        l = float(n2 / Fraction(2) ** (2 * k)) ** 0.5 * 2.0 ** k
        if not np.abs(np.asarray(u, dtype=np.float64) - keep.astype(np.float64) / l).max() <= eps:
            fail("unitize(%r) is %r" % (keep.tolist(), u.tolist()))
        ctx.step()
        return case
    L = (-3.0, -1.0, 0.0, 1.0, 2.5)
    ctx.enum("unit vectors", itertools.chain(
        ((a, k, "f8", f) for n in (2, 3) for a in itertools.product(L, repeat=n) for k in (-400, -100, -30, -20, 0, 20, 100, 400) for f in ("c", "strided", "column")),
        ((a, k, dt, "c") for n in (1, 2, 3, 4) for a in itertools.product(L if n < 4 else L[1:], repeat=n) for k, dt in ((0, "f4"), (0, "i8"), (20, "f4"), (-20, "f4"), (1, "f8"))
         if dt != "i8" or 2.5 not in a),
        (((1.0, x, y), 0, "f8", "c") for x in (1e-3, 1e-6, 1e-8, 1e-12) for y in (0.0, 1e-3, 1e-9))), unit)

    # sides of a line
    def side(case):
        N, p, a, b, k, dt = case
        s = 2.0 ** k
        ar = [np.array(x, dtype=np.float64) * q for x, q in ((N, 1), (p, s), (a, s), (b, s))]
        ar = [x.astype(dt) for x in ar]
        keep = [x.copy() for x in ar]
        got = V.on_left(*ar)
        for x, y in zip(ar, keep):
            if x.tobytes() != y.tobytes():
                fail("on_left changed its argument")
        d, e = [y - x for x, y in zip(a, b)], [y - x for x, y in zip(a, p)]
        c = (d[1] * e[2] - d[2] * e[1], d[2] * e[0] - d[0] * e[2], d[0] * e[1] - d[1] * e[0])
        want = sum(x * y for x, y in zip(N, c)) >= 0
        if bool(got) != want:
            fail("on_left%r is %r" % ((N, p, a, b), got))
        ctx.step()
        return case
    P2 = [(x, y, z) for x in (-1, 0, 2) for y in (-1, 0, 1) for z in (0, 3)]
    NS = [(0, 0, 1), (0, 0, -1), (1, 0, 0), (0, -2, 0), (1, 1, 1), (-1, 2, -3)]
    ctx.enum("sides of a line", ((N, p, a, b, k, dt) for N in NS for p in P2 for a in P2 for b in P2
                                 for k, dt in (((0, "f8"), (0, "f4"), (-20, "f8"), (30, "f8"), (0, "i8")) if ctx.thorough else
                                               (((0, "f8"), (-20, "f8"), (30, "f8"), (0, "f4"))[(sum(p) + sum(a) * 3 + sum(b) * 5) % 4],))), side)
