"""Stand-ins for the packages that the metrics and the download tool import and that are not
installed here.  pymesh: volume of the intersection of closed meshes, the only operation used."""
import functools
import math
import sys
import types

import numpy as np


class Mesh:
    def __init__(self, vertices, faces):
        self.vertices = np.array(vertices, dtype=float).reshape(-1, 3)
        self.faces = np.array(faces, dtype=int).reshape(-1, 3)

    @property
    def volume(self):
        if not len(self.faces):
            return 0.0
        a, b, c = (self.vertices[self.faces[:, i]] for i in range(3))
        return float(np.einsum("ij,ij->i", a, np.cross(b, c)).sum() / 6.0)


def _dot(a, b):
    return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]


def _cross(a, b):
    return (a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0])


def _sub(a, b):
    return (a[0] - b[0], a[1] - b[1], a[2] - b[2])


EPS = 1e-12


def planes(tris, centre):
    """Half spaces n.x <= d of a convex solid given by triangles around an inner point."""
    out = []
    for a, b, c in tris:
        n = _cross(_sub(b, a), _sub(c, a))
        ln = math.sqrt(_dot(n, n))
        if ln <= 1e-14:
            continue
        n = (n[0] / ln, n[1] / ln, n[2] / ln)
        d = _dot(n, a)
        if _dot(n, centre) > d:
            n, d = (-n[0], -n[1], -n[2]), -d
        if not any(abs(d - e) < EPS and max(map(abs, _sub(n, m))) < EPS for m, e in out):
            out.append((n, d))
    return out


def _clip(poly, n, d):
    res = []
    sides = [_dot(n, p) - d for p in poly]
    for i, p in enumerate(poly):
        sp, sq = sides[i], sides[(i + 1) % len(poly)]
        if sp <= EPS:
            res.append(p)
        if (sp < -EPS and sq > EPS) or (sp > EPS and sq < -EPS):
            q = poly[(i + 1) % len(poly)]
            t = sp / (sp - sq)
            res.append((p[0] + t * (q[0] - p[0]), p[1] + t * (q[1] - p[1]), p[2] + t * (q[2] - p[2])))
    return res


def convex_volume(p1, p2, big):
    """Volume of the intersection of two convex solids given by half spaces, all of whose
    points are less than big from the origin."""
    allp = list(p1)
    for n, d in p2:
        if not any(abs(d - e) < 1e-9 and max(map(abs, _sub(n, m))) < 1e-9 for m, e in allp):
            allp.append((n, d))
    vol = 0.0
    for i, (n, d) in enumerate(allp):
        k = min(range(3), key=lambda j: abs(n[j]))
        e = [0, 0, 0]
        e[k] = 1
        u = _cross(n, e)
        lu = math.sqrt(_dot(u, u))
        u = (u[0] / lu, u[1] / lu, u[2] / lu)
        w = _cross(n, u)
        poly = [tuple(n[j] * d + 4 * big * (x * u[j] + y * w[j]) for j in range(3))
                for x, y in ((-1, -1), (1, -1), (1, 1), (-1, 1))]
        for j, (m, f) in enumerate(allp):
            if j != i:
                poly = _clip(poly, m, f)
                if not poly:
                    break
        for k in range(1, len(poly) - 1):
            vol += _dot(poly[0], _cross(poly[k], poly[k + 1]))
    return abs(vol) / 6.0


def pieces(v, faces):
    """Solid as a signed list of convex pieces: [(sign, triangles, inner point)]."""
    centre = tuple(sum(p[j] for p in v) / len(v) for j in range(3))
    tris = [tuple(v[i] for i in f) for f in faces]
    scale = max(max(map(abs, p)) for p in v) + 1
    for n, d in planes(tris, centre):
        if any(_dot(n, p) > d + 1e-9 * scale for p in v):
            break
    else:
        return [(1, tris, centre)]
    out = []
    o = v[0]
    for a, b, c in tris:
        s = _dot(_sub(a, o), _cross(_sub(b, o), _sub(c, o)))
        if abs(s) > 1e-13 * scale ** 3:
            out.append((1 if s > 0 else -1, [(a, b, c), (o, a, b), (o, b, c), (o, c, a)],
                        tuple((o[j] + a[j] + b[j] + c[j]) / 4 for j in range(3))))
    return out


@functools.lru_cache(1 << 16)
def common_volume(v1, f1, v2, f2):
    # work near the origin so that absolute tolerances make sense
    off = tuple(sum(p[j] for p in v1) / len(v1) for j in range(3))
    v1 = [_sub(p, off) for p in v1]
    v2 = [_sub(p, off) for p in v2]
    big = 1 + max(max(map(abs, p)) for p in v1 + v2)
    vol = 0.0
    parts2 = [(s, planes(t, c), [q for tri in t for q in tri]) for s, t, c in pieces(v2, f2)]
    for s1, t1, c1 in pieces(v1, f1):
        p1 = planes(t1, c1)
        q1 = [q for tri in t1 for q in tri]
        for s2, p2, q2 in parts2:
            if all(max(q[j] for q in q1) > min(q[j] for q in q2) and
                   max(q[j] for q in q2) > min(q[j] for q in q1) for j in range(3)):
                vol += s1 * s2 * convex_volume(p1, p2, big)
    return abs(vol)


def intersect(m1, m2):
    """A mesh with the volume of the intersection (its shape is not used by the code)."""
    t = lambda m: (tuple(map(tuple, m.vertices.tolist())), tuple(map(tuple, m.faces.tolist())))
    a = (6 * common_volume(*(t(m1) + t(m2)))) ** (1.0 / 3)
    return Mesh([[0, 0, 0], [a, 0, 0], [0, a, 0], [0, 0, a]], [[0, 2, 1], [0, 1, 3], [0, 3, 2], [1, 2, 3]])


def install():
    if "pymesh" not in sys.modules:
        pm = types.ModuleType("pymesh")
        pm.form_mesh = Mesh
        mu = types.ModuleType("pymesh.meshutils")
        mu.remove_duplicated_vertices_raw = lambda v, f, *a, **k: (v, f, {})
        pm.meshutils = mu

        def boolean(a, b, operation):
            if operation != "intersection":
                raise NotImplementedError(operation)
            return intersect(a, b)
        pm.boolean = boolean
        sys.modules["pymesh"] = pm
        sys.modules["pymesh.meshutils"] = mu
    if "pyny3d" not in sys.modules:
        p, g = types.ModuleType("pyny3d"), types.ModuleType("pyny3d.geoms")
        p.geoms = g
        sys.modules["pyny3d"], sys.modules["pyny3d.geoms"] = p, g
    import matplotlib
    matplotlib.use("agg")
    matplotlib.use = lambda *a, **k: None
