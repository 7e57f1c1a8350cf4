"""C09: point clouds."""
import itertools
import os
import struct

import numpy as np

from mc import faults
from mc.core import fail, eq, raises
from mc import scenes as S
from sumo.geometry.pose3 import Pose3
from sumo.geometry.rot3 import Rot3
from sumo.threedee.point_cloud import PointCloud
from sumo.threedee import point_cloud_ply

F32 = np.float32


def f32(x):
    with np.errstate(over="ignore"):
        return float(F32(x))


# model: (tuple of points, tuple of colours or None); an empty cloud has no colours
def col(points, colors):
    return (tuple(map(tuple, points)), tuple(map(tuple, colors)) if colors and points else None)


CONST = {
    "E": col([], None),
    "P1": col([(1.0, 2.0, -4.0)], None),
    "P2": col([(0.5, -0.25, 8.0), (-3.0, 0.0, 1.0)], None),
    "C1": col([(2.0, -1.0, 0.5)], [(1, 2, 3)]),
    "C3": col([(0.0, 0.0, 0.0), (4.0, 5.0, 6.0), (4.0, 5.0, 6.0)], [(255, 0, 128), (0, 255, 7), (9, 8, 250)]),
}


def build(m, how="c"):
    p, c = m
    a = np.array(p, dtype=np.float64).reshape(-1, 3).T
    b = None if c is None else np.array(c, dtype=np.uint8).reshape(-1, 3).T
    if how == "c":
        a, b = np.ascontiguousarray(a), None if b is None else np.ascontiguousarray(b)
    elif how == "step":
        big = np.full((6, 2 * a.shape[1]), 7.5)
        big[::2, ::2] = a
        a = big[::2, ::2]
    return PointCloud(a, b), a, b


def check(pc, m, what):
    p, c = m
    eq(int(pc.num_points()), len(p), what + ": number of points")
    gp = np.asarray(pc.points())
    if gp.shape != (3, len(p)) or [tuple(x) for x in gp.T.tolist()] != list(p):
        fail("%s: points %r, expected %r" % (what, gp, p))
    eq(bool(pc.colored()), c is not None, what + ": colored")
    gc = np.asarray(pc.colors())
    if gc.shape != (3, len(c or ())) or gc.dtype != np.uint8 or [tuple(x) for x in gc.T.tolist()] != list(c or ()):
        fail("%s: colors %r, expected %r" % (what, gc, c))
    for i in range(len(p)):
        if tuple(np.asarray(pc.point(i)).tolist()) != p[i]:
            fail("%s: point(%d) is %r" % (what, i, pc.point(i)))
        if c is not None and tuple(np.asarray(pc.color(i)).tolist()) != c[i]:
            fail("%s: color(%d) is %r" % (what, i, pc.color(i)))
    raises(IndexError, pc.point, len(p))
    raises(IndexError, pc.color, len(c or ()))
    gp[...] = 3.25          # what is returned belongs to the caller
    gc[...] = 66


def joined(a, b):
    """Model of a followed by b, or None if they do not go together."""
    if a[0] and b[0] and (a[1] is None) != (b[1] is None):
        return None
    return (a[0] + b[0], None if a[1] is None and b[1] is None else (a[1] or ()) + (b[1] or ()))


CUBE = S.cube_rotations()
POSES = {"a": (CUBE[5], (1.0, -2.0, 0.5)), "b": (CUBE[17], (0.0, 0.0, 0.0)), "c": (CUBE[10], (-8.0, 0.25, 3.0))}


def moved(m, pose, inv=False):
    R, t = pose
    t = np.array(t)
    f = (lambda x: R.T @ (np.array(x) - t)) if inv else (lambda x: R @ np.array(x) + t)
    return (tuple(tuple((f(x) + 0.0).tolist()) for x in m[0]), m[1])


def pose3(p):
    return Pose3(Rot3(np.array(p[0])), np.array(p[1]))


def explore(ctx):
    ply = os.path.join(ctx.tmp, "c.ply")
    txt = os.path.join(ctx.tmp, "c.txt")

    # -- histories over three clouds ---------------------------------------
    ops = []
    for i in range(2):
        ops += [("new", i, k) for k in CONST]
        ops += [("append", i, j) for j in range(3)]
        ops += [("from", i, p) for p in "ac"] + [("to", i, "b")]
        ops += [("ply", i), ("bad point", i)]
    ops += [("append", 2, 0)]
    ops += [(k, a, b) for k in ("merge", "add", "register") for a, b in ((0, 1), (1, 0), (0, 0), (2, 1))]
    ops += [("sum", 0, 1)]
    roots = [("E", "P2", "C3"), ("C1", "P1", "E"), ("C3", "C1", "P2")]

    def run(hist):
        models = [CONST[k] for k in hist[0]]
        clouds = [build(m)[0] for m in models]
        for op in hist[1:]:
            ctx.step()
            k, i = op[0], op[1]
            if k == "new":
                models[i] = CONST[op[2]]
                pc, a, b = build(models[i], "f")
                clouds[i] = pc
                a[...] = 99
                if b is not None:
                    b[...] = 99
            elif k == "append":
                j = op[2]
                want = joined(models[i], models[j])
                if want is None:
                    raises(ValueError, clouds[i].append, clouds[j])
                elif len(want[0]) <= 12:
                    clouds[i].append(clouds[j])
                    models[i] = want
            elif k in ("merge", "add", "sum"):
                j = op[2]
                want = joined(models[i], models[j])
                f = {"merge": PointCloud.merge, "add": lambda x, y: x + y, "sum": lambda x, y: sum([x, y])}[k]
                if want is None:
                    raises(ValueError, f, clouds[i], clouds[j])
                elif len(want[0]) <= 12:
                    clouds[2] = f(clouds[i], clouds[j])
                    models[2] = want
            elif k == "register":
                j = op[2]
                want = joined(moved(models[i], POSES["a"]), moved(models[j], POSES["b"]))
                prs = lambda: iter([(pose3(POSES["a"]), clouds[i]), (pose3(POSES["b"]), clouds[j])])
                if want is None:
                    raises(ValueError, PointCloud.register, prs())
                elif len(want[0]) <= 12:
                    clouds[2] = PointCloud.register(prs())
                    models[2] = want
            elif k in ("from", "to"):
                pz = POSES[op[2]]
                f = clouds[i].transform_from if k == "from" else clouds[i].transform_to
                clouds[2], models[2] = f(pose3(pz)), moved(models[i], pz, k == "to")
            elif k == "ply":
                clouds[i].write_ply(ply)
                if models[i][0]:
                    clouds[2] = PointCloud.load_ply(ply)
                    models[2] = (models[i][0], None)
                else:
                    raises(Exception, PointCloud.load_ply, ply)
            elif k == "bad point":
                raises(IndexError, clouds[i].point, len(models[i][0]) + 5)
                raises((IndexError, OverflowError), clouds[i].color, -1)
            for n in range(3):
                check(clouds[n], models[n], "cloud %d after %r" % (n, op))
        return tuple(models), None
    ctx.bfs("histories of three clouds", roots, ops, run, 4 if ctx.thorough else 3)

    # -- construction -------------------------------------------------------
    def construct(case):
        n, colored, how, dt = case
        m = col([(i + 0.5, -2.0 * i, 100.0 - i) for i in range(n)],
                [((i * 50) % 256, (255 - i) % 256, (3 * i) % 256) for i in range(n)] if colored else None)
        pc, a, b = build(m, how)
        if dt != "float64":
            a = a.astype(dt)
            m = (tuple(map(tuple, a.astype(np.float64).T.tolist())), m[1])
            pc = PointCloud(a, b)
        check(pc, m, "new cloud")
        if a.dtype == np.float64 and a.size:
            a[...] = -1.0
            check(pc, m, "cloud after its source changed")
        ctx.step()
        return case
    ctx.enum("construction", itertools.product((0, 1, 2, 3, 7), (0, 1), ("c", "f", "step"), ("float64", "float32", "int64")), construct)

    def mismatch(case):
        sp, sc = case
        p = np.zeros(sp)
        c = None if sc is None else np.zeros(sc, dtype=np.uint8)
        ok = len(sp) == 2 and sp[0] == 3 and (sc is None or sc == sp)
        if ok:
            pc = PointCloud(p, c)
            eq(int(pc.num_points()), sp[1], "points")
            eq(bool(pc.colored()), bool(sc and sp[1]), "colored")
        else:
            raises(Exception, PointCloud, p, c)
        ctx.step()
        return case
    sh = [(3,), (3, 0), (3, 1), (3, 2), (2, 3), (4, 3), (3, 3), (0, 3), (1, 3), (3, 1, 1), ()]
    ctx.enum("shapes that do not fit", [(a, b) for a in sh for b in sh + [None]], mismatch)

    # -- all merges and sums of lists ---------------------------------------
    def lists(case):
        names, how = case
        ms = [CONST[k] for k in names]
        pcs = [build(m)[0] for m in ms]
        want = CONST["E"]
        for m in ms:
            want = want and joined(want, m)
        if how == "register":
            pz = [POSES["abc"[i]] for i in range(len(ms))]
            w2 = CONST["E"]
            for m, q in zip(ms, pz):
                w2 = w2 and joined(w2, moved(m, q))
            want = w2
            f = lambda: PointCloud.register((pose3(q), c) for q, c in zip(pz, pcs))
        elif how == "sum":
            if not ms:
                return case
            f = lambda: sum(pcs)
        else:
            def f():
                r = PointCloud()
                for c in pcs:
                    r.append(c)
                return r
        if want is None:
            raises(ValueError, f)
        else:
            r = f()
            check(r, want, how)
            if how != "sum" or len(ms) > 1:
                r.append(build(CONST["C1" if want[1] else "P1"])[0])
        for c, m in zip(pcs, ms):
            check(c, m, "operand of " + how)
        ctx.step(len(ms))
        return case
    ctx.enum("joining lists", [(n, h) for k in (0, 1, 2, 3) for n in itertools.product(CONST, repeat=k)
                               for h in ("register", "sum", "append")], lists)

    # -- all 24 rotations with a lattice of translations ---------------------
    def transforms(case):
        i, t, name = case
        pz = (CUBE[i], t)
        pc = build(CONST[name])[0]
        a, b = pc.transform_from(pose3(pz)), pc.transform_to(pose3(pz))
        check(a, moved(CONST[name], pz), "transform_from")
        check(b, moved(CONST[name], pz, True), "transform_to")
        check(a.transform_to(pose3(pz)), CONST[name], "there and back")
        check(pc, CONST[name], "the operand")
        ctx.step(3)
        return case
    ctx.enum("transforms", itertools.product(range(24), itertools.product((-2.0, 0.0, 0.5), repeat=3), ("P2", "C3", "E")), transforms)

    # -- results are clouds of their own ---------------------------------------
    IDENT = (np.eye(3), (0.0, 0.0, 0.0))
    MAKE = {"from identity": lambda c, o: c.transform_from(Pose3()), "to identity": lambda c, o: c.transform_to(Pose3()),
            "from": lambda c, o: c.transform_from(pose3(POSES["b"])), "to": lambda c, o: c.transform_to(pose3(POSES["b"])),
            "register": lambda c, o: PointCloud.register([(Pose3(), c)]),
            "register empty": lambda c, o: PointCloud.register([(Pose3(), c), (Pose3(), build(CONST["E"])[0])]),
            "register after empty": lambda c, o: PointCloud.register([(Pose3(), build(CONST["E"])[0]), (Pose3(), c)]),
            "merge empty": lambda c, o: PointCloud.merge(c, build(CONST["E"])[0]),
            "merge after empty": lambda c, o: PointCloud.merge(build(CONST["E"])[0], c),
            "add": lambda c, o: c + o, "add empty": lambda c, o: c + build(CONST["E"])[0]}

    def own(case):
        name, how, first, then = case
        m = CONST[name]
        c, o = build(m)[0], build(m)[0]
        r = MAKE[how](c, o)
        ctx.step(2)
        want = moved(m, POSES["b"], how == "to") if how in ("from", "to") else joined(m, m) if how == "add" else m
        check(r, want, how)
        clouds, models = [c, r], [m, want]
        more = "C1" if m[1] else "P1"
        for w in (first, then):
            if w is not None:
                k = ("operand", "result").index(w)
                clouds[k].append(build(CONST[more])[0])
                models[k] = joined(models[k], CONST[more])
                for q in range(2):
                    check(clouds[q], models[q], "%s of %s after appending to the %s" % (("operand", "result")[q], how, w))
        return case
    ctx.enum("results of their own", [(n, h, a, b) for n in CONST for h in MAKE for a in ("operand", "result")
                                      for b in (None, "operand", "result")], own)

    # -- large clouds -----------------------------------------------------------
    def large(case):
        n, k, colored = case
        rng = np.arange(3 * (n + k), dtype=np.float64).reshape(n + k, 3).T
        p = np.ascontiguousarray(rng * 0.5)
        q = None if not colored else np.ascontiguousarray((np.arange(3 * (n + k)).reshape(n + k, 3) % 251).astype(np.uint8).T)
        a = PointCloud(np.ascontiguousarray(p[:, :n]), None if q is None else np.ascontiguousarray(q[:, :n]))
        b = PointCloud(np.ascontiguousarray(p[:, n:]), None if q is None else np.ascontiguousarray(q[:, n:]))
        pz = pose3(POSES["a"])
        a.write_ply(ply)
        back = np.asarray(PointCloud.load_ply(ply).points())
        if back.shape != (3, n) or not np.array_equal(back, p[:, :n].astype(F32)):
            fail("%d points: read back from a PLY file they differ" % n)
        for how, r in (("merge", PointCloud.merge(a, b)), ("append", a), ("transform", a), ("register", None)):
            want = p
            if how == "append":
                a.append(b)
            elif how == "transform":
                r, want = a.transform_from(pz), POSES["a"][0] @ p + np.array(POSES["a"][1])[:, None]
            elif how == "register":
                r = PointCloud.register([(Pose3(), a), (pz, b)])
                want = np.hstack([p, POSES["a"][0] @ p[:, n:] + np.array(POSES["a"][1])[:, None]])
            w = want.shape[1]
            if int(r.num_points()) != w or not np.array_equal(np.asarray(r.points()), want):
                fail("%s of large clouds: wrong points (%d, expected %d)" % (how, r.num_points(), w))
            if colored and not np.array_equal(np.asarray(r.colors()), np.hstack([q, q[:, n:]])[:, :w]):
                fail("%s of large clouds: wrong colors" % how)
            for i in (0, n - 1, n, w - 1):
                if not np.array_equal(np.asarray(r.point(i)), want[:, i]):
                    fail("%s of large clouds: point(%d)" % (how, i))
            ctx.step(w)
        return case
    ctx.enum("large clouds", [(n, k, c) for n in (255, 256, 32767, 32768, 65535, 65536, 70001) + ((131073, 300000) if ctx.thorough else ())
                              for k in (1, 3) for c in (0, 1)], large)

    # -- thinning: every sequence of draws ------------------------------------
    def thin(case):
        name, draws = case
        m = CONST[name]
        pc = build(m)[0]
        orig = np.random.randint
        asked = []

        def fake(*a, **k):
            asked.append((a, k))
            lo, hi = (0, a[0]) if len(a) < 2 or a[1] is None else a[:2]
            eq((lo, hi), (0, len(m[0])), "range of the draws")
            return np.array(draws, dtype=int)
        np.random.randint = fake
        try:
            r = pc.thin(len(draws))
        finally:
            np.random.randint = orig
        if asked:
            want = (tuple(m[0][i] for i in draws), None if m[1] is None or not draws else tuple(m[1][i] for i in draws))
            check(r, want, "thinned cloud")
        check(pc, m, "the cloud after thinning")
        # with real draws: every point of the result is one of the cloud, with its colour
        r = pc.thin(len(draws))
        pairs = set(zip(m[0], m[1] or [None] * len(m[0])))
        cs = [tuple(x) for x in np.asarray(r.colors()).T.tolist()] or [None] * len(draws)
        eq(int(r.num_points()), len(draws), "number of points kept")
        for p, c in zip(np.asarray(r.points()).T.tolist(), cs):
            if (tuple(p), c) not in pairs:
                fail("thinning made the point %r with color %r" % (p, c))
        ctx.step(2)
        return case
    ctx.enum("thinning", [(n, d) for n in ("P1", "P2", "C1", "C3") for k in range(4)
                          for d in itertools.product(range(len(CONST[n][0])), repeat=k)], thin)

    # -- PLY files we write, decoded here ------------------------------------
    COORD = (0.0, -0.0, 1.0 / 3, -1e-45, 3e38, 16777217.0, -123456.789, 1e-300, float("inf"))

    def decode(path):
        data = open(path, "rb").read()
        head, body = data.split(b"end_header\n", 1)
        lines = head.decode().split("\n")
        eq(lines[0], "ply", "first line")
        if not any(l.startswith("format binary_little_endian 1.0") for l in lines):
            fail("header %r" % lines)
        elem = [l.split() for l in lines if l.startswith("element")]
        props = [tuple(l.split()[1:]) for l in lines if l.startswith("property")]
        eq(len(elem), 1, "elements")
        eq(elem[0][1], "vertex", "element")
        fmt = "<" + "".join({"float": "f", "float32": "f", "uchar": "B", "uint8": "B"}[t] for t, _ in props)
        n = int(elem[0][2])
        eq(len(body), n * struct.calcsize(fmt), "bytes in the file")
        return [dict(zip([p[1] for p in props], struct.unpack_from(fmt, body, i * struct.calcsize(fmt)))) for i in range(n)]

    def ply_out(case):
        pts, colored, how, pathkind = case
        m = col(pts, [((i * 77) % 256, (255 - i) % 256, i % 256) for i in range(len(pts))] if colored else None)
        pc = build(m, how)[0]
        p = ply
        if pathkind == "relative":
            old = os.getcwd()
            os.chdir(ctx.tmp)
            p = "rel é.ply"
        try:
            pc.write_ply(p)
            got = decode(p)
            want = [dict(zip("xyz", (f32(v) for v in x))) for x in m[0]]
            for i, w in enumerate(want):
                if m[1]:
                    w.update(zip(("red", "green", "blue"), m[1][i]))
            eq(got, want, "contents of the file")
            check(pc, m, "the cloud that was written")
            if pts:
                r = PointCloud.load_ply(p)
                check(r, (tuple(tuple(f32(v) for v in x) for x in m[0]), None), "loaded cloud")
        finally:
            if pathkind == "relative":
                os.chdir(old)
        ctx.step(2)
        return case
    pt3 = list(itertools.product(COORD[:8], repeat=3))
    ctx.enum("writing PLY files", [((p,), c, h, k) for p in pt3 for c in (0, 1) for h, k in (("c", "abs"),)] +
             [(tuple(itertools.islice(itertools.cycle(pt3[::5]), n)), c, h, k) for n in (0, 1, 2, 3, 5, 255, 256, 1000) for c in (0, 1)
              for h in ("c", "f", "step") for k in ("abs", "relative")], ply_out)

    # -- PLY files of every layout --------------------------------------------
    PT = {"char": "b", "uchar": "B", "short": "h", "ushort": "H", "int": "i", "uint": "I", "float": "f", "double": "d",
          "int8": "b", "uint8": "B", "int16": "h", "uint16": "H", "int32": "i", "uint32": "I", "float32": "f", "float64": "d"}
    VAL = {"b": (-128, 127, 0), "B": (0, 255, 7), "h": (-32768, 32767, 5), "H": (0, 65535, 9), "i": (-2 ** 31, 2 ** 31 - 1, 3),
           "I": (0, 2 ** 32 - 1, 11), "f": (f32(-1.0 / 3), f32(3e38), 0.5), "d": (1.0 / 3, -1e-30, 7.25)}

    def ply_file(fmt, props, n, before, after, eol, extra_lists, comment):
        """props: [(name, type)]; returns bytes and the expected points."""
        head = ["ply", "format %s 1.0" % fmt]
        if comment:
            head += ["comment made by x y z", "obj_info 7"]
        body = b"" if fmt != "ascii" else []
        en = "<" if fmt == "binary_little_endian" else ">"

        def put(rows, types):
            nonlocal body
            if fmt == "ascii":
                body += [" ".join(str(v) if not isinstance(v, float) else repr(v) for v in r) for r in rows]
            else:
                for r, t in zip(rows, types):
                    body += b"".join(struct.pack(en + x, v) for x, v in zip(t, r))
        if before:
            head += ["element camera 2", "property float fov", "property uchar id"]
            put([[0.5, 3], [0.25, 4]], ["fB", "fB"])
        head.append("element vertex %d" % n)
        rows, types = [], []
        pts = []
        for i in range(n):
            r, t, p = [], "", {}
            for j, (name, ty) in enumerate(props):
                c = PT[ty]
                v = VAL[c][(i + j) % 3]
                r.append(v)
                t += c
                if name in "xyz":
                    p[name] = f32(v)
            if extra_lists:
                r += [2, 70 + i, 80 + i]
                t += "Bii"
            rows.append(r)
            types.append(t)
            pts.append((p["x"], p["y"], p["z"]))
        head += ["property %s %s" % (ty, name) for name, ty in props]
        if extra_lists:
            head.append("property list uchar int around")
        put(rows, types)
        if after:
            head += ["element face 1", "property list uchar int vertex_indices"]
            put([[3, 0, 0, 0]], ["Biii"])
        head.append("end_header")
        h = eol.join(head) + eol
        if fmt == "ascii":
            return (h + eol.join(body) + eol).encode(), pts
        return h.encode() + body, pts

    def ply_in(case):
        fmt, props, n, before, after, eol, lists_, comment = case
        data, pts = ply_file(fmt, props, n, before, after, eol, lists_, comment)
        with open(ply, "wb") as f:
            f.write(data)
        if not n:
            raises(Exception, PointCloud.load_ply, ply)
        else:
            check(PointCloud.load_ply(ply), (tuple(pts), None), "cloud read")
            a, k = point_cloud_ply.read_points(ply)
            eq((a.shape, int(k)), ((3, n), n), "points read")
        ctx.step()
        return case
    FM = ("binary_little_endian", "binary_big_endian", "ascii")
    XYZ = (("x", "float"), ("y", "float"), ("z", "float"))

    def plys():
        for fmt in FM:
            for ty in PT:
                for order in itertools.permutations("xyz"):
                    for n in (1, 2, 4):
                        yield (fmt, tuple((o, ty) for o in order), n, False, False, "\n", False, False)
            for t3 in itertools.product(("uchar", "short", "float", "double"), repeat=3):
                yield (fmt, tuple(zip("xyz", t3)), 3, False, False, "\n", False, False)
            cols = (("red", "uchar"), ("green", "uchar"), ("blue", "uchar"))
            nrm = (("nx", "float"), ("ny", "float"), ("nz", "float"))
            for props in (XYZ + cols, XYZ + nrm, XYZ + nrm + cols, cols + XYZ, XYZ[:1] + cols + XYZ[1:], nrm + XYZ, XYZ[::-1] + nrm):
                for before in (0, 1):
                    for after in (0, 1):
                        for lists_ in (0, 1):
                            for comment in (0, 1):
                                for n in (0, 1, 3):
                                    yield (fmt, props, n, before, after, "\n", lists_, comment)
            # an ascii data line may end in either way; the header of a binary file ends in a newline
            if fmt == "ascii":
                yield (fmt, XYZ, 2, False, False, "\r\n", False, False)
    ctx.enum("reading PLY layouts", plys(), ply_in)

    # -- damaged PLY files: every truncation, every header line missing -------
    def damaged(case):
        fmt, kind, k = case
        data, pts = ply_file(fmt, XYZ + (("red", "uchar"),), 3, True, True, "\n", False, True)
        want = (tuple(pts), None)
        if kind == "cut":
            data2 = data[:k]
            ok = len(data) - 40 if fmt == "ascii" else None
        else:
            lines = data.split(b"\n")
            hdr = lines.index(b"end_header")
            if k > hdr:
                return "n/a"
            data2 = b"\n".join(lines[:k] + lines[k + 1:])
        with open(ply, "wb") as f:
            f.write(data2)
        ctx.step()
        try:
            r = PointCloud.load_ply(ply)
        except Exception as e:
            return (kind, type(e).__name__)
        if kind == "cut":
            if fmt != "ascii":
                fail("a file cut at %d of %d bytes was read" % (k, len(data)))
            # ascii: a number or the last line may be cut without a trace
            n = int(r.num_points())
            if n != 3:
                fail("a file cut at %d of %d bytes was read with %d points" % (k, len(data), n))
            return "ascii cut"
        gone = data.split(b"\n")[k]
        if gone.startswith((b"comment", b"obj_info")) or b"red" in gone:
            if fmt == "ascii" or gone.startswith((b"comment", b"obj_info")):
                return "read"
        return "read other"
    sizes = {f: len(ply_file(f, XYZ + (("red", "uchar"),), 3, True, True, "\n", False, True)[0]) for f in FM}
    ctx.enum("damaged PLY files", [(f, "cut", k) for f in FM for k in range(sizes[f])] + [(f, "drop", k) for f in FM for k in range(22)], damaged)

    # -- writes that fail --------------------------------------------------------
    def failing(case):
        n, colored, limit = case
        m = col([(i + 0.5, -2.0 * i, 100.0 - i) for i in range(n)], [(i % 256, 0, 1) for i in range(n)] if colored else None)
        pc = build(m)[0]
        if os.path.exists(ply):
            os.remove(ply)
        with faults.fsize_limit(1 << 30):
            pc.write_ply(ply)
        size = os.path.getsize(ply)
        os.remove(ply)
        if limit == "dir":
            raises(Exception, pc.write_ply, os.path.join(ctx.tmp, "no such dir", "x.ply"))
            raises(Exception, pc.write_ply, ctx.tmp)
            raises(Exception, PointCloud.load_ply, os.path.join(ctx.tmp, "absent.ply"))
            raises(Exception, PointCloud.load_ply, ctx.tmp)
        else:
            lim = int(size * limit[0]) + limit[1]
            if 0 <= lim < size:
                with faults.fsize_limit(lim):
                    try:
                        pc.write_ply(ply)
                    except Exception:
                        pass
                    else:
                        fail("a write that stopped after %d of %d bytes was not reported" % (lim, size))
        check(pc, m, "the cloud after a failed write")
        ctx.step(2)
        return case
    lims = [(0, d) for d in range(0, 260, 1)] + [(1, -d) for d in range(1, 40)] + [(0.5, 0), (0.25, 1), (0.75, -1)]
    ctx.enum("failing writes", [(n, c, l) for n in (1, 2, 900) for c in (0, 1) for l in lims + ["dir"]], failing)

    # -- text export ----------------------------------------------------------------
    def text(case):
        name, color = case
        m = CONST[name]
        pc = build(m)[0]
        pc.save(txt) if color is None else pc.save(txt, np.array(color))
        rows = [[float(x) for x in l.split()] for l in open(txt)]
        eq(rows, [list(p) + [float(c) for c in (color or (255, 255, 255))] for p in m[0]], "text file")
        check(pc, m, "the cloud after saving")
        ctx.step()
        return case
    ctx.enum("text export", [(n, c) for n in CONST if n != "E" for c in (None, (1, 2, 3), (0, 0, 0))], text)
