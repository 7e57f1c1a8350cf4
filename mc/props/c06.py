"""C06: surface sampling and voxelization for every enumerated answer of the random source."""
import contextlib
import itertools
import math

import numpy as np

from mc.core import fail
from mc import evalref as R          # installs the stand-ins for the metrics
from mc import scenes as S
from mc.props.c05 import tri_box_overlap
from sumo.geometry.pose3 import Pose3
from sumo.geometry.rot3 import Rot3
from sumo.metrics.mesh_evaluator import sample_element, sample_mesh
from sumo.semantic.project_object import ProjectObject
from sumo.threedee.gltf_model import GltfModel
from sumo.threedee.mesh import Mesh
from sumo.threedee.model_sampler import ModelSampler
from sumo.threedee.textured_mesh import TexturedMesh
from sumo.threedee.voxelizer import Voxelizer

ONE = float(np.nextafter(1.0, 0))
GREY = (128.0, 128.0, 128.0)


@contextlib.contextmanager
def draws(answer):
    """numpy's global random source answers with answer(n): an (n, 2) array in [0, 1)."""
    column = [0]

    def fill(size):
        if size is None:
            size = ()
        shape = (size,) if np.isscalar(size) else tuple(size)
        n = int(np.prod(shape)) if shape else 1
        if len(shape) == 2 and shape[1] == 2:
            r = np.array(answer(shape[0]), dtype=float).reshape(shape)
        elif len(shape) == 2 and shape[0] == 2:
            r = np.array(answer(shape[1]), dtype=float).reshape(-1, 2).T
        else:                    # one coordinate at a time
            r = np.array(answer(n), dtype=float).reshape(-1, 2)[:, column[0] % 2].reshape(shape)
            column[0] += 1
        return r if shape else float(r)

    class Source:
        uniform = staticmethod(lambda low=0.0, high=1.0, size=None: low + (high - low) * fill(size))
        random = staticmethod(lambda size=None: fill(size))
        random_sample = sample = ranf = random
        rand = staticmethod(lambda *d: fill(d if d else None))
    names = ("uniform", "random", "random_sample", "sample", "ranf", "rand", "default_rng", "RandomState")
    old = {n: getattr(np.random, n) for n in names}
    for n in names:
        setattr(np.random, n, getattr(Source, n) if hasattr(Source, n) else (lambda *a, **k: Source))
    try:
        yield
    finally:
        for n, f in old.items():
            setattr(np.random, n, f)


def texels(h, w, k):
    """A texture whose texels are all different in every channel combination."""
    n = np.arange(h * w)
    return np.ascontiguousarray(np.stack([(n * 37 + k * 11) % 251, (n * 59 + k) % 253, 255 - (n * 91 + 7 * k) % 241], axis=1)
                                .reshape(h, w, 3).astype(np.uint8))


# (name, corners); every triangle of a model is put at a place of its own
TRI = {
    "right": ((0, 0, 0), (1, 0, 0), (0, 1, 0)),
    "tilted": ((0, 0, 0), (1, 0.5, 0.25), (-0.5, 1, 0.5)),
    "big": ((0, 0, 0), (0, 2, 0), (0, 0, 4)),
    "thin": ((0, 0, 0), (8, 0, 0), (4, 0.015625, 0)),
    "tiny": ((0, 0, 0), (0.0078125, 0, 0), (0, 0, 0.0078125)),
    "line": ((0, 0, 0), (1, 1, 0), (2, 2, 0)),
    "point": ((1, 1, 1), (1, 1, 1), (1, 1, 1)),
    "pair": ((0, 0, 0), (0, 0, 0), (1, 0, 0)),
}
UV = ((0.1, 0.1), (0.9, 0.3), (0.45, 0.8), (0.0, 0.0), (1.0, 1.0), (1.3, -0.2), (-1.65, 2.7), (0.5, 0.0), (0.999, 0.999))


class Face:
    def __init__(self, p, c, exact=True):
        self.p = np.array(p, dtype=float)
        self.c = np.array(c, dtype=float)
        self.area = 0.5 * float(np.linalg.norm(np.cross(self.p[1] - self.p[0], self.p[2] - self.p[0])))

    def holds(self, q, colour, tol=2e-5):
        """None if q is not on the triangle; else whether the colour is the one at that place."""
        a, b, c = self.p
        if self.area > 1e-9:
            M = np.stack([b - a, c - a], axis=1)
            s, *_ = np.linalg.lstsq(M, q - a, rcond=None)
            s = np.array([1 - s[0] - s[1], s[0], s[1]])
            if not np.linalg.norm(self.p.T @ s - q) <= tol or (s < 0).any() and not self.on_edge(q, tol):
                return None
            size = max(np.linalg.norm(b - a), np.linalg.norm(c - a))
            return bool(np.abs(s @ self.c - colour).max() <= 0.05 + 255 * tol * size / self.area)
        # degenerate: on the segments, colour within the range of the corners
        if self.on_edge(q, tol):
            return bool((colour >= self.c.min(axis=0) - 1e-6).all() and (colour <= self.c.max(axis=0) + 1e-6).all())
        return None

    def on_edge(self, q, tol):
        a, b, c = self.p
        for u, v in ((a, b), (b, c), (a, c)):
            d = v - u
            n = float(d @ d)
            t = min(1.0, max(0.0, float((q - u) @ d) / n)) if n > 0 else 0.0
            if np.linalg.norm(u + t * d - q) <= tol:
                return True
        return False


def build(prims):
    """prims: list of (kind, triangle names, variant).  Returns the model and its faces."""
    model, faces = GltfModel(), []
    place = 0
    for k, (kind, names, variant) in enumerate(prims):
        v, idx, uv, fp = [], [], [], []
        for j, n in enumerate(names):
            off = np.array((20.0 * place, -8.0 * (place % 2), 4.0))
            place += 1
            pts = [np.array(p, dtype=float) + off for p in TRI[n]]
            order = [(0, 1, 2), (2, 0, 1), (1, 0, 2)][(variant + j) % 3]
            base = len(v)
            v += pts
            idx += [base + o for o in order]
            uv += [UV[(variant * 2 + 3 * j + i) % len(UV)] for i in range(3)]
            fp.append((pts, [base + i for i in range(3)]))
        v = np.ascontiguousarray(np.array(v, dtype=np.float32).reshape(-1, 3).T)
        idx = np.array(idx, dtype=np.uint32)
        uvs = np.ascontiguousarray(np.array(uv, dtype=np.float32).reshape(-1, 2).T)
        nrm = np.zeros_like(v)
        colour = lambda i: GREY
        if kind == "plain":
            model.add_primitive_mesh(Mesh(idx, v, nrm))
        else:
            h, w = {"tex": (3, 5), "tex1": (1, 1), "tex42": (4, 2), "empty": (0, 0)}[kind]
            T = texels(h, w, k + variant) if h else np.zeros((0, 0, 3), np.uint8)
            model.add_textured_primitive_mesh(TexturedMesh(idx, v, nrm, uvs, T, np.zeros((0, 0, 3), np.uint8)))
            if h:
                def colour(i, T=T, uvs=uvs, h=h, w=w):
                    u, t = float(uvs[0, i]), float(uvs[1, i])
                    return T[int(math.floor(t * h)) % h, int(math.floor(u * w)) % w]
        faces += [Face(p, [colour(i) for i in ids]) for p, ids in fp]
    return model, faces


def explore(ctx):
    def check(samples, faces, density, what, own=None):
        """Every face has its share of the samples, each on the face and with its colour there."""
        samples = np.asarray(samples)
        # a share that is a whole number up to rounding may lose one sample
        want = [max(1, int(density * f.area * (1 + 1e-6))) for f in faces]
        least = [max(1, int(density * f.area * (1 - 1e-6))) for f in faces]
        if samples.ndim != 2 or samples.shape[1] != 6 or not sum(least) <= len(samples) <= sum(want):
            fail("%s: %r samples, expected %d" % (what, samples.shape, sum(want)))
        got = [0] * len(faces)
        for s in samples:
            on = [(i, f.holds(s[:3], s[3:])) for i, f in enumerate(faces) if np.abs(f.p - s[:3]).max() < 12]
            on = [x for x in on if x[1] is not None]
            if not on:
                fail("%s: the sample %s is not on the surface" % (what, s[:3].tolist()))
            if not any(x[1] for x in on):
                i = on[0][0]
                fail("%s: the colour %s of the sample %s is not the colour of the surface there (corners %s with %s)" % (
                    what, s[3:].tolist(), s[:3].tolist(), faces[i].p.tolist(), faces[i].c.tolist()))
            got[on[0][0]] += 1
        if not all(a <= g <= b for a, g, b in zip(least, got, want)):
            fail("%s: samples per face %r, expected %r (areas %r, density %r)" % (
                what, got, want, [f.area for f in faces], density))

    def sample(model, faces, density, which, pose=None):
        ctx.step()
        before = S.model_state(model)
        if which == "model":
            r = ModelSampler(density).run(model)
        elif which == "default":
            r = ModelSampler().run(model)
            density = 625
        else:
            p = pose or Pose3()
            o = ProjectObject.gen_meshes_object(id="a", meshes=model, pose=p)
            r = sample_element(o, density) if which == "element" else sample_element(o)
            density = density if which == "element" else 625
            if pose is not None:
                M, t = np.array(pose.R.R), np.array(pose.t)
                moved = []
                for f in faces:
                    g = Face(f.p @ M.T + t, f.c)
                    moved.append(g)
                faces = moved
        if S.model_state(model) != before:
            fail("sampling changes the model")
        check(r, faces, density, "%s at density %r" % (which, density))
        return r

    D5 = (0.0, 0.25, 0.5, 0.9, ONE)
    names = tuple(TRI)
    MODELS = ((("tex", ("right",), 0),), (("plain", ("tilted",), 1),), (("tex42", ("big", "tiny"), 2),), (("empty", ("right",), 0), ("tex", ("tilted",), 4)),
              (("tex", ("right", "line", "tilted"), 3), ("tex1", ("point",), 0)), (("plain", (), 0), ("tex42", ("thin", "pair"), 5)), ())

    # all draws for every sample of a model, the others fixed
    def one_draw(case):
        i, which, density, k, r1, r2 = case
        model, faces = build(MODELS[i])

        def answer(n):
            a = np.tile((0.3, 0.6), (n, 1))
            if n:
                a[k % n] = (r1, r2)
            return a
        with draws(answer):
            sample(model, faces, density, which)
        return case
    ctx.enum("draws of one sample", (
        (i, w, d, k, r1, r2) for i in range(len(MODELS)) for w in ("model", "element") for d in (0, 3, 8) for k in range(4)
        for r1 in D5 for r2 in D5), one_draw)

    # all draws of all samples together
    def all_draws(case):
        i, which, rs = case
        model, faces = build(MODELS[i])
        with draws(lambda n: [(rs[(2 * q) % len(rs)], rs[(2 * q + 1) % len(rs)]) for q in range(n)]):
            sample(model, faces, 1, which)
        return case
    d4 = (0.0, 0.4, ONE) if not ctx.thorough else D5
    ctx.enum("draws of all samples", ((i, w, rs) for i in (0, 2, 3) for w in ("model", "element") for rs in itertools.product(d4, repeat=6)), all_draws)

    # models: kinds, triangles, textures, densities
    def models(case):
        prims, density, which = case
        model, faces = build(prims)
        g = [(a + 0.5) / 4 for a in range(4)]
        with draws(lambda n: [(g[q % 4], g[(q // 4) % 4]) for q in range(n)]):
            sample(model, faces, density, which)
        return case
    KINDS = ("tex", "plain", "tex42", "empty", "tex1")

    def modelcases():
        for kind in KINDS:
            for n in names:
                for var in range(9):
                    for d in (0, 0.5, 2, 7.99, 16, 100):
                        yield (((kind, (n,), var),), d, "model" if var % 2 else "element")
        for a, b in itertools.product(KINDS, repeat=2):
            for n, m in (("right", "tilted"), ("big", "point"), ("line", "right"), ("tiny", "thin")) if not ctx.thorough else itertools.product(names, repeat=2):
                for var in (0, 3):
                    for w in ("model", "element"):
                        yield ((a, (n,), var), (b, (m, n), var + 1)), 6, w
        for ks in itertools.product(KINDS[:4], repeat=3):
            yield tuple((k, names[j:j + 2], j) for j, k in enumerate(ks)), 4, "model"
            yield tuple((k, names[j:j + 2], j) for j, k in enumerate(ks)), 4, "element"
        for k in KINDS:
            yield ((k, ("right", "tilted"), 1),), 625, "default"
            yield ((k, ("right", "tilted"), 1),), 625, "default element"
        for w in ("model", "element"):
            yield (), 5, w
            yield (("plain", (), 0),), 5, w
            yield (("tex", (), 0), ("tex", ("right",), 0)), 5, w
    ctx.enum("models and densities", modelcases(), models)

    # long and thin triangles, of every orientation
    def thin(case):
        k, area, axes, order, density, which = case
        l, w = 2.0 ** k, 2 * area / 2.0 ** k
        p = np.zeros((3, 3))
        p[1, axes[0]] = l
        p[2, axes[0]], p[2, axes[1]] = (0, l / 2, l)[order % 3], w
        p = p[list([(0, 1, 2), (2, 0, 1), (1, 0, 2)][order % 3])].astype(np.float32)
        model = GltfModel()
        model.add_primitive_mesh(Mesh(np.arange(3, dtype=np.uint32), np.ascontiguousarray(p.T), np.zeros((3, 3), np.float32)))
        ctx.step()
        r = ModelSampler(density).run(model) if which == "model" else sample_element(
            ProjectObject.gen_meshes_object(id="a", meshes=model), density)
        want = max(1, int(density * area))
        if r.shape != (want, 6):
            fail("%r samples of a triangle of area %r at density %r, expected %d" % (r.shape, area, density, want))
        q = p.astype(float)
        if (r[:, :3].min(0) < q.min(0) - 1e-5 * abs(w)).any() or (r[:, :3].max(0) > q.max(0) + 1e-5 * abs(w)).any():
            fail("a sample is off the triangle")
        return case
    ctx.enum("long and thin triangles", (
        (k, a, ax, o, d, w) for k in range(-6, 22, 1 if ctx.thorough else 3) for a in (0.5, 2.0, 0.125) for ax in itertools.permutations(range(3), 2)
        for o in range(3) for d in (0, 4, 37.5, 200) for w in ("model", "element")), thin)

    # models of very many triangles
    def many(case):
        n, parts, which = case
        v = np.zeros((3, 3 * n), np.float32)
        v[0] = np.repeat(np.arange(n), 3)
        v[1, 1::3] = 0.25
        v[2, 2::3] = 0.25
        model = GltfModel()
        for a in np.array_split(np.arange(n), parts):
            w = np.ascontiguousarray(v[:, 3 * a[0]:3 * a[-1] + 3])
            model.add_primitive_mesh(Mesh(np.arange(w.shape[1], dtype=np.uint32), w, np.ones_like(w)))
        ctx.step(n)
        r = ModelSampler(1.0).run(model) if which == "model" else sample_element(
            ProjectObject.gen_meshes_object(id="a", meshes=model), 1.0)
        if r.shape != (n, 6) or not np.array_equal(np.rint(np.sort(r[:, 0])), np.arange(n)) or np.abs(r[:, 0] - np.rint(r[:, 0])).max() > 1e-3:
            fail("%d triangles: %r samples, %d triangles have one" % (n, r.shape, len(np.unique(np.rint(r[:, 0])))))
        if r[:, 1:3].min() < 0 or r[:, 1:3].sum(axis=1).max() > 0.2501:
            fail("a sample is off its triangle")
        return case
    ctx.enum("many triangles", ((n, p, w) for n in (255, 257, 32767, 32769, 65535, 65537) + ((131073, 200000) if ctx.thorough else ())
                                for p in (1, 3) for w in ("model", "element")), many)

    # every place of a texture, wrapping included
    def uvs(case):
        h, w, u, v, which = case
        T = texels(h, w, h + w)
        p = np.ascontiguousarray(np.array(TRI["right"], dtype=np.float32).T)
        uv = np.ascontiguousarray(np.tile(np.array([[u], [v]], dtype=np.float32), (1, 3)))
        model = GltfModel()
        model.add_textured_primitive_mesh(TexturedMesh(np.arange(3, dtype=np.uint32), p, p * 0, uv, T, np.zeros((0, 0, 3), np.uint8)))
        c = T[int(math.floor(v * h)) % h, int(math.floor(u * w)) % w]
        with draws(lambda n: np.tile((0.3, 0.6), (n, 1))):
            sample(model, [Face(TRI["right"], [c, c, c])], 4, which)
        return case
    ctx.enum("texture coordinates", (
        (h, w, (a + 0.5) / 8 if k else a / 8.0, (b + 0.5) / 8 if k else b / 8.0, which) for h, w in ((1, 1), (2, 2), (4, 2), (2, 4), (1, 8), (8, 1), (8, 4))
        for a in range(-9, 18, 1 if ctx.thorough else 2) for b in range(-9, 18, 1 if ctx.thorough else 3) for k in (0, 1)
        for which in (("model", "element") if ctx.thorough else (("model", "element")[(a + b) % 2],))), uvs)

    # poses
    def posed(case):
        i, r, t = case
        model, faces = build(MODELS[i])
        M = (S.cube_rotations() + [np.array([[0.36, 0.48, -0.8], [-0.8, 0.6, 0.0], [0.48, 0.64, 0.6]])])[r]
        pose = Pose3(Rot3(np.array(M)), np.array(((0, 0, 0), (1.5, -2, 40))[t], dtype=float))
        with draws(lambda n: [((q % 3) / 3.0, (q % 5) / 5.0) for q in range(n)]):
            sample(model, faces, 3.3, "element", pose)
        return case
    ctx.enum("posed elements", itertools.product(range(len(MODELS)), range(25), range(2)), posed)

    # uniform draws give uniform samples: mean and spread of a triangle
    def uniform(case):
        n, order, which, m = case
        p = [np.array(TRI[n][o], dtype=float) for o in order]
        f = np.zeros((3, 6))
        f[:, :3] = p
        f[:, 3:] = ((0, 10, 20), (250, 30, 0), (7, 7, 255))
        area = Face(p, p).area
        g = [(a + 0.5) / m for a in range(m)]
        with draws(lambda k: list(itertools.product(g, g))[:k] if k <= m * m else fail("%d draws" % k)):
            if which == "mesh":
                s = sample_mesh(f, (m * m + 0.5) / area)
            else:
                v = np.ascontiguousarray(f[:, :3].T.astype(np.float32))
                model = GltfModel()
                model.add_primitive_mesh(Mesh(np.arange(3, dtype=np.uint32), v, v * 0))
                s = ModelSampler((m * m + 0.5) / area).run(model)
        ctx.step()
        if s.shape != (m * m, 6):
            fail("%r samples, expected %d" % (s.shape, m * m))
        q = s[:, :3]
        c = sum(p) / 3
        cov = sum(np.outer(x - c, x - c) for x in p) / 12
        got = q.mean(axis=0) - c
        size = max(np.linalg.norm(x - c) for x in p)
        if np.linalg.norm(got) > 0.02 * size:
            fail("uniform draws: the mean of the samples is off by %s from the middle of %s" % (got.tolist(), [x.tolist() for x in p]))
        sp = (q - c).T @ (q - c) / len(q)
        if not np.abs(sp - cov).max() <= 0.02 * size * size:
            fail("uniform draws: the spread of the samples is %s, expected %s" % (sp.tolist(), cov.tolist()))
        return case
    ctx.enum("uniform draws", itertools.product(("right", "tilted", "big"), itertools.permutations(range(3)), ("mesh", "model"), (20, 31)), uniform)

    # voxelization
    def voxel(case):
        i, density, size, shift, rs = case
        model, faces = build(MODELS[i])
        if shift:
            g = GltfModel()
            for m in model.primitive_meshes():
                t = m.transform(Pose3(Rot3(), np.array((-1000.1, 3.3, 0.7)) * shift))
                (g.add_textured_primitive_mesh if t.is_textured() else g.add_primitive_mesh)(t)
            model = g
        before = S.model_state(model)
        ans = lambda n: [(rs[q % len(rs)], rs[(q // 2 + 1) % len(rs)]) for q in range(n)]
        ctx.step()
        with draws(ans):
            pts = ModelSampler(density).run(model)[:, :3]
        with draws(ans):
            vg = Voxelizer(density, size).run(model) if (density, size) != (625, 0.1) else Voxelizer().run(model)
        if S.model_state(model) != before:
            fail("voxelizing changes the model")
        if not abs(vg.voxel_size - size) <= 1e-12:
            fail("voxel size %r, expected %r" % (vg.voxel_size, size))
        cs = np.asarray(vg.voxel_centers(), dtype=float).reshape(-1, 3)
        if not len(pts):
            if len(cs):
                fail("a model without faces has %d voxels" % len(cs))
            return case
        tol = 1e-4 * (1 + abs(pts).max() / 100)
        tris = [t for m in model.primitive_meshes() for t in m.vertices().T.astype(float)[np.asarray(m.indices(), dtype=int).reshape(-1, 3)]]
        half = np.full(3, size / 2 + tol)
        near = np.abs(cs[:, None, :] - pts[None, :, :]).max(axis=2)
        if (near.min(axis=1) > size / 2 + tol).any():
            fail("a voxel without any sample: %s" % cs[near.min(axis=1).argmax()].tolist())
        if (near.min(axis=0) > size / 2 + tol).any():
            fail("the sample %s is in no voxel" % pts[near.min(axis=0).argmax()].tolist())
        if len(cs) > len(pts) or len({tuple(np.rint(c / size * 4)) for c in cs}) != len(cs):
            fail("%d voxels for %d samples" % (len(cs), len(pts)))
        for c in cs:
            if not any(tri_box_overlap(t, c, half) for t in tris):
                fail("the surface does not pass through the voxel at %s" % c.tolist())
        return case
    ctx.enum("voxelization", (
        (i, d, s, sh, rs) for i in range(len(MODELS)) for d, s in ((4, 0.5), (20, 0.25), (0, 1.0), (20, 3.0), (3, 0.1)) + (((625, 0.1),) if i in (0, 1, 6) else ())
        for sh in (0, 1) for rs in itertools.product((0.0, 0.35, ONE), repeat=4 if ctx.thorough else 3)), voxel)
