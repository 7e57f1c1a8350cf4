"""C08: mesh editing."""
import itertools

import numpy as np

from mc.core import fail, eq, raises
from mc import scenes as S
from sumo.base.vector import Vector3
from sumo.geometry.pose3 import Pose3
from sumo.geometry.rot3 import Rot3
from sumo.threedee.mesh import Mesh
from sumo.threedee.textured_mesh import TexturedMesh

KNOWN_RENUMBER = "partial-renumber"

# name -> (indices, vertices, normals, number of uv coordinates); coordinates are small binary fractions
GEO = {
    "E": ((), (), ()),
    "T": ((0, 1, 2), ((0.0, 3.0, 0.0), (4.0, 0.0, 0.0), (4.0, 3.0, 0.5)), ((0.0, 0.0, 1.0), (1.0, 0.0, 0.0), (0.0, -1.0, 0.0))),
    "Q": ((0, 1, 2, 2, 1, 3), ((1.0, 1.0, 1.0), (0.0, 0.0, 0.0), (-2.0, 0.25, 8.0), (7.0, 0.0, 0.5)),
          ((0.0, 0.5, 0.5), (0.5, 0.0, 0.5), (0.5, 0.5, 0.0), (-1.0, 0.0, 0.0))),
    "U": ((3, 0, 1, 1, 1, 3), ((0.5, 0.0, 0.0), (0.5, 4.0, 3.0), (9.0, 9.0, 9.0), (0.5, 4.0, 0.0)),
          ((0.0, 1.0, 0.0), (0.0, 0.0, -1.0), (0.25, 0.0, 0.0), (1.0, 1.0, 1.0))),
    "V": ((), ((0.0, 0.0, -0.0), (2.0, 2.0, 2.0)), ((0.0, 1.0, 0.0), (1.0, 0.0, 0.0))),
}
# model of a mesh: (textured, indices, vertices, normals, uv, texture number)


def uvs(n, k):
    return tuple((0.125 * i, 1.0 - 0.25 * k) for i in range(n))


def model(name):
    g, kind = name[0], name[1:]
    i, v, n = GEO[g]
    if not kind:
        return (False, i, v, n, None, None)
    k = ord(g) % 8
    short = kind == "s"                  # not all vertices have texture coordinates
    return (True, i, v, n, uvs(max(0, len(v) - (2 if short else 0)), k), k)


def arr(a, w, dt=np.float32):
    return np.ascontiguousarray(np.array(a, dtype=dt).reshape(-1, w).T)


def tex(k):
    return S.texture(k, 2, 3), S.texture(k + 9, 3, 1)


def build(m):
    t, i, v, n, uv, k = m
    args = [np.array(i, dtype=np.uint32), arr(v, 3), arr(n, 3)]
    if t:
        args += [arr(uv, 2)] + list(tex(k))
    r = (TexturedMesh if t else Mesh)(*args)
    for a in args:                        # the mesh does not share the arrays it was made from
        a[...] = 77
    return r


def rows(a):
    return tuple(map(tuple, np.asarray(a).T.tolist()))


def check(m, want, what):
    t, i, v, n, uv, k = want
    eq(bool(m.is_textured()), t, what + ": is_textured")
    eq((m.num_indices(), m.num_vertices()), (len(i), len(v)), what + ": counts")
    gi, gv, gn = m.indices(), m.vertices(), m.normals()
    eq(tuple(gi.tolist()), i, what + ": indices")
    eq(rows(gv), v, what + ": vertices")
    eq(rows(gn), n, what + ": normals")
    eq((gi.dtype, gv.dtype, gn.dtype), (np.dtype("uint32"), np.dtype("float32"), np.dtype("float32")), what + ": types")
    got = [gi, gv, gn]
    if t:
        gu = m.uv_coords()
        u = rows(gu)
        # vertices without texture coordinates may get zeros
        if len(u) > len(v) or pad(u, len(v)) != pad(uv, len(v)):
            fail("%s: uv coordinates %r, expected %r" % (what, u, uv))
        b, r = m.base_color(), m.metallic_roughness()
        if not np.array_equal(b, tex(k)[0]) or not np.array_equal(r, tex(k)[1]):
            fail(what + ": textures changed")
        got += [gu, b, r]
        if not m.has_dual_texture_material():
            fail(what + ": lost its two textures")
    for a in got:
        a[...] = 5


def pad(uv, n):
    return uv + ((0.0, 0.0),) * (n - len(uv))


def merged(a, b, nc):
    """Model of a.merge(b, nc), None if it has to be refused."""
    if nc > len(a[2]):
        return None
    off = len(a[2]) - nc
    idx = a[1] + tuple(i if i < nc else i + off for i in b[1])
    uv = a[4]
    if a[0]:
        uv = pad(a[4], len(a[2])) + pad(b[4], len(b[2]))[nc:]
    return (a[0], idx, a[2] + b[2][nc:], a[3] + b[3][nc:], uv, a[5])


def renumbered(a, num, ren):
    k = len(ren)
    if k > len(a[2]) or any(r >= num for r in ren):
        return None
    shift = num - k
    idx = tuple(ren[i] if i < k else i + shift for i in a[1])

    def place(x):
        out = [None] * num
        for i, r in enumerate(ren):
            out[r] = x[i]
        return tuple(out) + tuple(x[k:])
    return (True, idx, place(a[2]), place(a[3]), place(pad(a[4], len(a[2]))), a[5])


def moved(a, R, t):
    f = lambda x: tuple(float(np.float32(y)) + 0.0 for y in (np.array(R) @ np.array(x) + np.array(t)))
    g = lambda x: tuple(float(np.float32(y)) + 0.0 for y in (np.array(R) @ np.array(x)))
    return (a[0], a[1], tuple(map(f, a[2])), tuple(map(g, a[3])), a[4], a[5])


CUBE = S.cube_rotations()


def long_edges(a, th):
    out = ()
    for j in range(0, len(a[1]), 3):
        t = a[1][j:j + 3]
        p = [np.array(a[2][i], dtype=np.float32) for i in t]
        if all(float(np.sqrt(((p[x] - p[y]).astype(np.float64) ** 2).sum())) <= th for x, y in ((0, 1), (1, 2), (2, 0))):
            out += t
    return (a[0], out) + a[2:]


def origin_edges(a):
    out = ()
    for j in range(0, len(a[1]), 3):
        t = a[1][j:j + 3]
        if not any(a[2][i] == (0.0, 0.0, 0.0) for i in t):
            out += t
    return (a[0], out) + a[2:]


def explore(ctx):
    NAMES = ("T", "Q", "E", "Qt", "Ut", "Us", "Vt", "Et")
    ops = []
    for i in range(2):
        ops += [("new", i, n) for n in (NAMES if ctx.thorough else ("E", "Q", "Ut", "Vt"))]
        ops += [("merge", i, j, nc) for j in range(2) for nc in (0, 1, 2, 3, 9)]
        ops += [("replace", i, j) for j in range(2)]
        ops += [("long", i, 5.0), ("long", i, 4.5), ("origin", i)]
        ops += [("move", i, 1 - i, 5), ("turn", i, i, 10), ("copy", i, 1 - i)]
        ops += [("renumber", i, p) for p in ("rev", "rot", "last", "bad index", "too many")]
    roots = [(a, b) for a, b in (("T", "Q"), ("Qt", "Ut"), ("Us", "Vt"), ("Q", "Ut"), ("U", "T"))]

    def run(hist):
        models = [model(n) for n in hist[0]]
        meshes = [build(m) for m in models]
        for op in hist[1:]:
            ctx.step()
            k, i = op[0], op[1]
            a = models[i]
            if k == "new":
                models[i] = model(op[2])
                meshes[i] = build(models[i])
            elif k in ("merge", "replace"):
                b = models[op[2]]
                f = (lambda: meshes[i].merge(meshes[op[2]], op[3])) if k == "merge" else (lambda: meshes[i].replace_geometry(meshes[op[2]]))
                if a[0] and not b[0]:
                    raises(TypeError, f)
                elif k == "replace":
                    f()
                    models[i] = (a[0],) + b[1:4] + ((b[4],) if a[0] else (None,)) + (a[5],)
                elif op[3] > len(a[2]):
                    raises(ValueError, f)
                elif op[3] <= len(b[2]) and len(a[2]) <= 12:
                    f()
                    models[i] = merged(a, b, op[3])
            elif k == "long":
                meshes[i].cleanup_long_edges(op[2])
                models[i] = long_edges(a, op[2])
            elif k == "origin":
                meshes[i].cleanup_edges_to_origin()
                models[i] = origin_edges(a)
            elif k in ("move", "turn"):
                R, t = CUBE[op[3]], (1.0, -2.0, 0.5) if k == "move" else (0.0, 0.0, 0.0)
                src = meshes[op[2]]
                if k == "move":
                    meshes[i] = src.transform(Pose3(Rot3(np.array(R)), Vector3(*t)))
                else:
                    meshes[i] = src.rotate(Rot3(np.array(R)))
                models[i] = moved(models[op[2]], R, t)
            elif k == "copy":
                s = meshes[op[2]]
                args = [s.indices(), s.vertices(), s.normals()]
                if models[op[2]][0]:
                    args += [s.uv_coords(), s.base_color(), s.metallic_roughness()]
                meshes[i] = type(s)(*args)
                models[i] = models[op[2]]
            elif k == "renumber":
                n = len(a[2])
                if a[0] and n:
                    num, ren = {"rev": (n, list(range(n))[::-1]), "rot": (n, [(j + 1) % n for j in range(n)]),
                                "last": (n, [n - 1] + list(range(n - 1))), "bad index": (n, list(range(n - 1)) + [n]),
                                "too many": (n + 1, list(range(n + 1)))}[op[2]]
                    want = renumbered(a, num, ren)
                    if want is None:
                        raises(ValueError, meshes[i].renumber, num, ren)
                    else:
                        meshes[i].renumber(num, ren)
                        models[i] = want
            for n in range(2):
                check(meshes[n], models[n], "mesh %d after %r" % (n, op))
            eq(bool(meshes[0].same_size(meshes[1])), [len(x) for x in models[0][1:3]] == [len(x) for x in models[1][1:3]], "same_size")
        return tuple(models), None
    ctx.bfs("histories of two meshes", roots, ops, run, 4 if ctx.thorough else 3)

    # -- all pairs merged with every count ------------------------------------
    def merge(case):
        a, b, nc = case
        ma, mb = model(a), model(b)
        A, B = build(ma), build(mb)
        ctx.step()
        if ma[0] and not mb[0]:
            raises(TypeError, A.merge, B, nc)
            want = ma
        elif nc > len(ma[2]):
            raises(ValueError, A.merge, B, nc)
            want = ma
        else:
            A.merge(B, nc)
            want = merged(ma, mb, nc)
            # the triangles of both, in order, each with its own corners
            T = lambda m: [tuple(m[2][j] for j in m[1][q:q + 3]) for q in range(0, len(m[1]), 3)]
            comm = lambda j: ma[2][j] if j < nc else mb[2][j]
            eq(T((0,) + (tuple(A.indices().tolist()), rows(A.vertices()))),
               T(ma) + [tuple(comm(j) for j in mb[1][q:q + 3]) for q in range(0, len(mb[1]), 3)], "triangles")
        check(A, want, "merged mesh")
        check(B, mb, "the mesh merged in")
        if not ma[0] or mb[0]:
            B.replace_geometry(A) if mb[0] == ma[0] or not mb[0] else None
            check(A, want, "merged mesh after the other changed")
        return case
    ALL = [g + k for g in GEO for k in ("", "t", "s")]
    ctx.enum("merging pairs", [(a, b, nc) for a in ALL for b in ALL for nc in range(6) if nc <= len(GEO[b[0]][1]) or nc > len(GEO[a[0]][1])], merge)

    # -- renumbering: all injections -------------------------------------------
    def renumber(case):
        name, num, ren = case
        m = model(name)
        M = build(m)
        ctx.step()
        want = renumbered(m, num, ren)
        if want is None:
            raises(ValueError, M.renumber, num, list(ren))
            check(M, m, "mesh after a refused renumbering")
            return case
        M.renumber(num, list(ren))
        idx = tuple(M.indices().tolist())
        V, N, U = rows(M.vertices()), rows(M.normals()), rows(M.uv_coords())
        eq((len(V), len(N), len(U)), (len(want[2]),) * 3, "number of vertices")
        for got, w, what in ((V, want[2], "vertices"), (N, want[3], "normals"), (U, want[4], "uv")):
            for g, x in zip(got, w):
                if x is not None and g != x:
                    fail("%s %r, expected %r" % (what, got, w))
        if idx != want[1]:
            k, n = len(ren), len(m[2])
            bug = tuple(ren[i] if i < k else i + num for i in m[1])
            fail("indices %r, expected %r" % (idx, want[1]), KNOWN_RENUMBER if k < n and idx == bug and idx != want[1] else None)
        return case
    cases = []
    for name in ("Tt", "Qt", "Us", "Vt", "Et"):
        n = len(GEO[name[0]][1])
        for k in range(n + 2):
            for num in range(max(k - 1, 0), n + 3):
                for ren in itertools.permutations(range(num), k) if k <= num else [tuple(range(k))]:
                    cases.append((name, num, ren))
    ctx.enum("renumbering", cases, renumber)

    # -- quadrants ---------------------------------------------------------------
    def quadrants(case):
        choice, = case
        #  2 7 3 / 4 6 8 / 0 5 1
        nodes = ((0, 5, 4, 6), (5, 1, 6, 8), (4, 6, 2, 7), (6, 8, 7, 3))
        pos = {0: (0, 0), 5: (1, 0), 1: (2, 0), 4: (0, 1), 6: (1, 1), 8: (2, 1), 2: (0, 2), 7: (1, 2), 3: (2, 2)}
        vert = lambda q: (float(pos[q][0]), float(pos[q][1]), 0.125 * q)
        norm = lambda q: (0.25 * q, 1.0, 0.0)
        uv = lambda q: (0.5 * pos[q][0], 0.0625 * q)
        lists = ((0, 1, 2, 1, 3, 2), (3, 2, 0, 0, 1, 3), (0, 1, 2), ())
        ms = []
        tri = []
        for q, c in enumerate(choice):
            i = lists[c]
            m = (True, i, tuple(vert(x) for x in nodes[q]), tuple(norm(x) for x in nodes[q]), tuple(uv(x) for x in nodes[q]), q)
            ms.append(build(m))
            tri += [tuple(nodes[q][j] for j in i[z:z + 3]) for z in range(0, len(i), 3)]
        r = TexturedMesh.merge_quadrant_meshes(*ms)
        ctx.step()
        check(r, (True, tuple(itertools.chain.from_iterable(tri)), tuple(vert(q) for q in range(9)),
                  tuple(norm(q) for q in range(9)), tuple(uv(q) for q in range(9)), 0), "merged quadrants")
        return case
    ctx.enum("quadrants", [(c,) for c in itertools.product(range(4), repeat=4)], quadrants)

    # -- cleanups: all small index lists -------------------------------------------
    P = ((0.0, 0.0, 0.0), (3.0, 0.0, 0.0), (0.0, 4.0, 0.0), (0.0, 0.0, 12.0), (0.5, 0.0, 0.0), (5.0, 12.0, 0.0))

    def cleanup(case):
        idx, th, kind, e = case
        pts = tuple(tuple(x * 2.0 ** e for x in p) for p in P)
        th = None if th is None else th * 2.0 ** e
        m = (kind == "t", idx, pts, P[::-1], uvs(6, 2) if kind == "t" else None, 3 if kind == "t" else None)
        M = build(m)
        if th is None:
            M.cleanup_edges_to_origin()
            want = origin_edges(m)
        else:
            M.cleanup_long_edges(th)
            want = long_edges(m, th)
        check(M, want, "mesh after cleanup")
        ctx.step()
        return case
    tris = list(itertools.product(range(6), repeat=3))
    ctx.enum("cleanups", [(t, th, k, 0) for t in tris for th in (None, 0.0, 3.0, 4.0, 5.0, 12.0, 13.0, 1e9) for k in ("", "t")] +
             [(t, th, "", e) for t in tris for th in (None, 4.0, 12.0) for e in (-20, -12, -6, 12, 20)] +
             [(a + b + c, th, "", 0) for a in tris[::25] for b in tris[3::25] for c in tris[7::50] for th in (None, 5.0, 12.7)], cleanup)

    # -- normals: all triangles (and pairs) on a lattice -----------------------------
    L = tuple(itertools.product((0.0, 1.0, -2.0), repeat=2))

    def normals(case):
        pts, idx = case
        v = arr(pts, 3)
        i = np.array(idx, dtype=np.uint32)
        F, Nv = Mesh.calculate_face_normals(i, v), Mesh.estimate_normals(i, v)
        fn = []
        for j in range(0, len(idx), 3):
            p = [np.array(pts[q]) for q in idx[j:j + 3]]
            c = np.cross(p[1] - p[0], p[2] - p[0])
            l = np.linalg.norm(c)
            fn.append(c / l if l else c)
        eq(np.asarray(F).shape, (3, len(fn)), "number of face normals")
        eq(np.asarray(Nv).shape, (3, len(pts)), "number of vertex normals")
        if fn and not np.abs(np.asarray(F).T - np.array(fn)).max() <= 1e-6:
            fail("face normals %r, expected %r" % (F.T, fn))
        for q in range(len(pts)):
            s = sum((fn[j // 3] for j in range(len(idx)) if idx[j] == q), np.zeros(3))
            l = np.linalg.norm(s)
            if l > 1e-4 and not np.abs(np.asarray(Nv)[:, q] - s / l).max() <= 1e-5:
                fail("normal of vertex %d: %r, expected %r" % (q, Nv[:, q], s / l))
            if not (np.linalg.norm(np.asarray(Nv)[:, q]) < 1 + 1e-5):
                fail("normal of vertex %d has length %r" % (q, np.linalg.norm(Nv[:, q])))
            if q not in idx and np.abs(np.asarray(Nv)[:, q]).max() > 0:
                fail("vertex without triangle has a normal")
        eq((v.tobytes(), i.tobytes()), (arr(pts, 3).tobytes(), np.array(idx, dtype=np.uint32).tobytes()), "arguments")
        ctx.step(2)
        return case
    pts3 = [p + (z,) for p in L for z in (0.0, 1.0)]
    ctx.enum("normals", [(t, (0, 1, 2)) for t in itertools.product(pts3, repeat=3)] +
             [((pts3[0], pts3[3], pts3[8], pts3[q], pts3[17]), i + j) for q in range(18)
              for i in itertools.permutations(range(4), 3) for j in itertools.permutations(range(4), 3)] +
             [((), ()), ((pts3[1],), ()), ((pts3[1],), (0, 0, 0))], normals)

    # more vertices than 8 or 16 bits can count
    def large(case):
        n, m, nc, ta, tb = case

        def make(k, tx, z):
            x = np.arange(k)
            v = np.stack([x % 1024, x // 1024, np.full(k, z)]).astype(np.float32)
            i = np.array([0, k // 2, k - 1, k - 1, k - 2, k // 3], dtype=np.uint32)
            nv = np.stack([np.full(k, z), x % 7, x % 3]).astype(np.float32)
            u = np.stack([x % 11 / 16, x % 13 / 16]).astype(np.float32)
            return (TexturedMesh(i, v, nv, u, *tex(1)) if tx else Mesh(i, v, nv)), i, v, nv, u
        a, ia, va, na, ua = make(n, ta, 1.0)
        b, ib, vb, nb, ub = make(m, tb, 2.0)
        a.merge(b, nc)
        wi = np.concatenate([ia, np.where(ib < nc, ib, ib.astype(np.int64) + n - nc)])
        wv, wn = np.hstack([va, vb[:, nc:]]), np.hstack([na, nb[:, nc:]])
        for what, got, want in (("indices", a.indices(), wi), ("vertices", a.vertices(), wv), ("normals", a.normals(), wn)) + (
                (("uv", a.uv_coords(), np.hstack([ua, ub[:, nc:]])),) if ta and tb else ()):
            if got.shape != want.shape or not np.array_equal(got, want):
                fail("%s of the merged mesh: %r, expected %r" % (what, got, want))
        # all vertices in another order
        if ta and tb:
            k = a.num_vertices()
            ren = np.roll(np.arange(k), 5).tolist()
            a.renumber(k, ren)
            if not np.array_equal(a.vertices()[:, ren], wv) or not np.array_equal(a.vertices()[:, a.indices()], wv[:, wi]):
                fail("renumbering of %d vertices" % k)
        c = Mesh.calculate_face_normals(wi.astype(np.uint32), wv)
        e = np.cross(wv[:, wi[1::3]].T.astype(float) - wv[:, wi[0::3]].T, wv[:, wi[2::3]].T.astype(float) - wv[:, wi[0::3]].T)
        l = np.linalg.norm(e, axis=1)
        ok = l > 1e-3
        if not np.abs(np.asarray(c).T[ok] - e[ok] / l[ok, None]).max(initial=0) <= 1e-4:
            fail("face normals")
        ctx.step(3)
        return case
    BIG = (3, 255, 256, 257, 65535, 65536, 65537, 70000)
    ctx.enum("large meshes", ((n, m, nc, ta, tb) for n in (BIG if ctx.thorough else (3, 257, 65536, 70000))
                              for m in (BIG if ctx.thorough else (3, 65537)) for nc in ((0, 1, 3, 200, 65536, 65537) if ctx.thorough else (0, 2, 65537)) if nc <= min(n, m) for ta, tb in ((0, 0), (1, 1), (0, 1))), large)

    # triangles of every size
    def sized(case):
        k, t, idx = case
        v = (arr(t, 3).astype(np.float64) * 2.0 ** k).astype(np.float32)
        i = np.array(idx, dtype=np.uint32)
        n = np.cross(v[:, idx[1]].astype(float) - v[:, idx[0]], v[:, idx[2]].astype(float) - v[:, idx[0]])
        n /= np.linalg.norm(n)
        for what, got in (("face", Mesh.calculate_face_normals(i, v)), ("vertex", Mesh.estimate_normals(i, v))):
            if not np.abs(np.asarray(got) - n[:, None]).max() <= 1e-5:
                fail("%s normals %r of a triangle of size 2^%d, expected %r" % (what, np.asarray(got).T, k, n))
        ctx.step(2)
        return case
    ctx.enum("sizes of triangles", [(k, t, i) for k in range(-30, 31, 1 if ctx.thorough else 3) for t in itertools.combinations(pts3, 3)
                                    if np.linalg.norm(np.cross(np.subtract(t[1], t[0]), np.subtract(t[2], t[0]))) > 0
                                    for i in ((0, 1, 2), (2, 1, 0))], sized)

    # -- ready-made meshes -------------------------------------------------------------
    def solid(verts, norms, idx, size, inward, flat):
        """A closed box surface: 12 triangles over the six sides, all turned the same way."""
        area = {}
        for j in range(0, len(idx), 3):
            p = [np.array(verts[q]) for q in idx[j:j + 3]]
            c = np.cross(p[1] - p[0], p[2] - p[0])
            ax = int(np.argmax(np.abs(c)))
            mid = sum(p) / 3
            if not (np.abs(np.delete(c, ax)).max() <= 1e-6 and all(abs(x[ax] - p[0][ax]) <= 1e-6 for x in p)):
                fail("triangle %d does not lie in a side" % (j // 3))
            area[(ax, mid[ax] > 0)] = area.get((ax, mid[ax] > 0), 0) + np.linalg.norm(c) / 2
            if (np.dot(c, mid) < 0) != inward:
                fail("triangle %d faces the wrong way" % (j // 3))
        eq(len(area), 6, "sides covered")
        for a in area.values():
            if not abs(a - size * size) <= 1e-5 * size * size:
                fail("area of a side: %r" % a)
        for q, (p, n) in enumerate(zip(verts, norms)):
            if not all(abs(abs(x) - size / 2) <= 1e-6 * size for x in p):
                fail("vertex %r is no corner" % (p,))
            if not abs(np.linalg.norm(n) - 1) <= 1e-5 or (np.dot(n, p) < 0) != inward:
                fail("normal %r at %r" % (n, p))

    def ready(case):
        k = case[0]
        if k == "example":
            m = Mesh.example(case[1], case[2])
            solid(rows(m.vertices()), rows(m.normals()), m.indices().tolist(), case[1], case[2], False)
        elif k == "cube":
            s = case[1]
            base, mr = S.texture(1, 6 * s, s), S.texture(2, 12, 2)
            m = TexturedMesh.cube(base, mr)
            v, uv, idx, nn = rows(m.vertices()), rows(m.uv_coords()), m.indices().tolist(), rows(m.normals())
            solid(v, nn, idx, 2.0, True, True)
            # BACK, LEFT, FRONT, RIGHT, UP, DOWN with Y up and +Z back, seen from inside
            face = [(2, 1), (0, -1), (2, -1), (0, 1), (1, 1), (1, -1)]
            for f in range(6):
                ax, sg = face[f]
                for q in range(4 * f, 4 * f + 4):
                    eq(v[q][ax], float(sg), "side of vertex %d" % q)
                    if not (f / 6.0 - 1e-6 <= uv[q][0] <= (f + 1) / 6.0 + 1e-6 and -1e-6 <= uv[q][1] <= 1 + 1e-6):
                        fail("texture coordinates %r of side %d" % (uv[q], f))
                    if f < 4 and not abs(uv[q][1] - (0.0 if v[q][1] > 0 else 1.0)) <= 1e-6:
                        fail("side %d is upside down" % f)
            eq(sorted({round(u[0] * 6) for u in uv}), list(range(7)), "texture columns")
            if not np.array_equal(m.base_color(), base) or not np.array_equal(m.metallic_roughness(), mr):
                fail("textures of the cube")
        else:
            _, name, color = case
            src = model(name)
            M = build(src)
            T = TexturedMesh.from_mesh(M, np.array(color, dtype=np.uint8).reshape(3, 1)) if color else TexturedMesh.from_mesh(M)
            eq((tuple(T.indices().tolist()), rows(T.vertices()), rows(T.normals())), src[1:4], "geometry")
            eq(rows(T.uv_coords()), ((0.0, 0.0),) * len(src[2]), "uv")
            eq({tuple(p) for p in T.base_color().reshape(-1, 3).tolist()}, {tuple(color or (255, 255, 255))}, "colour")
            check(M, src, "the source mesh")
        ctx.step()
        return case
    ctx.enum("ready-made meshes", [("example", l, i) for l in (2.0, 1.0, 0.25, 40.0) for i in (False, True)] + [("cube", s) for s in (1, 2, 5)] +
             [("from", n, c) for n in ("T", "Q", "U", "E", "V") for c in (None, (1, 2, 3), (0, 0, 0), (255, 0, 9))], ready)
