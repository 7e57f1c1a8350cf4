"""C18: whole evaluations of small scenes in every track against a complete reference evaluation
(association, precision, pose, surface, semantics and perceptual metrics), plus histories and the
command-line tool."""
import contextlib
import io
import itertools
import math
import os
import re
import runpy
import shutil
import sys

import numpy as np

from mc.core import fail, raises
from mc import evalref as R
from mc import scenes as S
from mc import stubs
from mc.props import c23
from sumo.base.vector import Vector3, Vector3f
from sumo.geometry.pose3 import Pose3
from sumo.geometry.rot3 import Rot3
from sumo.metrics.bb_evaluator import BBEvaluator
from sumo.metrics.evaluator import Evaluator
from sumo.metrics.mesh_evaluator import MeshEvaluator
from sumo.metrics.voxel_evaluator import VoxelEvaluator
from sumo.semantic.object_symmetry import ObjectSymmetry, SymmetryType
from sumo.semantic.project_object import ProjectObject
from sumo.semantic.project_scene import ProjectScene
from sumo.threedee.box_3d import Box3d
from sumo.threedee.voxel_grid import VoxelGrid

CLS = {"bounding_box": BBEvaluator, "voxels": VoxelEvaluator, "meshes": MeshEvaluator}
TOOL = os.path.join(os.environ.get("MC_REPO", "/repo"), "tools", "evaluate-one.py")
CATS = ("chair", "floor", "floor_chair")           # not selected, but contains both others
YAW = R.quarter(1, 1)
SIZE = {"chair": (1.0, 1.0, 1.0), "floor": (4.0, 0.5, 2.0), "floor_chair": (1.0, 1.0, 1.0)}
SYM = {"chair": ("none",) * 3, "floor": ("none", "twoFold", "none"), "floor_chair": ("none", "fourFold", "none")}
SHIFT = {"bounding_box": (0.25, 1 / 256.0, 0.125), "voxels": (0.125, 1 / 256.0, -0.0625), "meshes": (0.0625, 1 / 256.0, -0.03125)}
KEYS = ("shape_score", "rotation_error", "translation_error", "semantics_score", "perceptual_score")
RMS = ("rms_points_error", "rms_color_error")


class Obj:
    """Plain description of an object: everything the reference needs."""
    def __init__(self, typ, id, cat, place, variant=False, score=-1, evaluated=True, flat=()):
        self.typ, self.id, self.cat, self.score, self.evaluated = typ, id, cat, score, evaluated
        x, y, z = SIZE[cat]
        if variant:
            x = x * (1.5 if typ == "voxels" else 1.125)
        self.size = (x, y, z)
        self.box = tuple(0.0 if k in flat else v for k, v in enumerate(self.size))      # the stored bounds
        c = np.array([x / 2, y / 2, z / 2])
        Rm, t = np.eye(3), np.array({"here": (0, 0, 0), "near": SHIFT[typ], "far": (100.0, 0, -50), "off": (0, 40.0, 7)}[place], dtype=float)
        if place == "near":
            Rm = np.array(YAW)
            t = t + c - Rm @ c
        self.R, self.t = Rm, t
        self.sym = SYM[cat]

    def moved(self, Rm, t):
        o = Obj.__new__(Obj)
        o.__dict__.update(self.__dict__)
        o.R, o.t = Rm @ self.R, Rm @ self.t + t
        return o

    def local_points(self):
        x, y, z = self.size
        if self.typ == "voxels":
            n = [int(round(v / 0.5)) for v in self.size]
            return [tuple(0.5 * (v + 0.5) for v in c) for c in itertools.product(*(range(k) for k in n))]
        return [tuple(p) for p in itertools.product((0.0, x), (0.0, y), (0.0, z))]

    def texels(self):
        return [(k + (self.score >= 0)) % 4 for k in range(8)]

    def points(self):
        return [tuple(self.R @ np.array(p) + self.t) for p in self.local_points()]

    def build(self):
        kw = dict(id=self.id, category=self.cat, pose=Pose3(Rot3(self.R.copy()), self.t.copy()), score=self.score,
                  evaluated=self.evaluated, symmetry=ObjectSymmetry(*(SymmetryType[s] for s in self.sym)),
                  bounds=Box3d(Vector3(0, 0, 0), Vector3(*self.box)))
        if self.typ == "bounding_box":
            return ProjectObject.gen_bounding_box_object(**kw)
        if self.typ == "voxels":
            vg = VoxelGrid(0.5, Vector3f(0, 0, 0))
            vg.add_points(np.array(self.local_points()))
            return ProjectObject.gen_voxels_object(voxels=vg, **kw)
        return ProjectObject.gen_meshes_object(meshes=c23.point_model(self.local_points(), self.texels()), **kw)

    volume = property(lambda self: self.box[0] * self.box[1] * self.box[2])
    key = property(lambda self: (self.typ, self.size, tuple(self.R.ravel()), tuple(self.t), self.score >= 0))


_sim, _rms = {}, {}


def similarity(a, b, thresh):
    """(true, with the known defect of the box track)."""
    k = (a.key, b.key, thresh)
    if k not in _sim:
        if a.typ != "bounding_box":
            s = c23.iou(a.points(), b.points(), thresh)
            _sim[k] = (s, s)
        else:
            iv = lambda o: tuple((0.0, s) for s in o.size)
            inter = stubs.convex_volume(c23_half(iv(a), a.R, a.t), c23_half(iv(b), b.R, b.t), 400.0) \
                if np.linalg.norm(a.t - b.t) < 20 else 0.0
            true = inter / (a.volume + b.volume - inter)
            tup = lambda o: tuple(map(tuple, c23_corners(iv(o), o.R, o.t).tolist()))
            n = stubs.common_volume(tup(a), FACES, tup(b), FACES) if inter > 1e-12 else 0.0
            _sim[k] = (true, n / (5 / 6.0 * (a.volume + b.volume) - n))
    return _sim[k]


FACES = ((0, 1, 2), (0, 2, 3), (3, 2, 7), (3, 7, 4), (4, 7, 6), (4, 6, 5), (5, 6, 1), (5, 1, 0), (0, 3, 4), (0, 4, 5),
         (1, 6, 7), (1, 7, 2))


def c23_corners(iv, Rm, t):
    (x0, x1), (y0, y1), (z0, z1) = iv
    c = np.array([(x0, y0, z1), (x1, y0, z1), (x1, y1, z1), (x0, y1, z1), (x0, y0, z0), (x1, y0, z0), (x1, y1, z0), (x0, y1, z0)], dtype=float)
    return c @ np.array(Rm).T + np.array(t, dtype=float)


def c23_half(iv, Rm, t):
    out = []
    for k in range(3):
        for s, v in ((1, iv[k][1]), (-1, -iv[k][0])):
            n = s * np.array(Rm)[:, k]
            out.append((tuple(float(x) for x in n), float(v + n @ np.array(t, dtype=float))))
    return out


def rms(a, b):
    k = (a.key, b.key)
    if k not in _rms:
        pa, pb = a.points(), b.points()
        d = c23.dists(pa, pb) + c23.dists(pb, pa)
        p = math.sqrt(sum(z * z for z in d) / len(d))
        if a.typ == "voxels":
            c = 0.0                       # voxels have no colour
        else:
            tex = c23.TEX.reshape(4, 3).astype(float)
            near = lambda u, v: [min(range(len(v)), key=lambda i: math.dist(x, v[i])) for x in u]
            ca, cb = a.texels(), b.texels()
            q = [np.sum((tex[ca[i]] - tex[cb[j]]) ** 2) for i, j in enumerate(near(pa, pb))]
            q += [np.sum((tex[cb[i]] - tex[ca[j]]) ** 2) for i, j in enumerate(near(pb, pa))]
            c = math.sqrt(sum(q) / len(q))
        _rms[k] = (p, c)
    return _rms[k]


def gauss(x, mean, std, weight):
    return weight * math.exp(-0.5 * ((x - mean) / std) ** 2)


PERC = {"room_scale": (100, 1, 0.15), "true_obj_scale": (5, 1, 0.18), "relative_obj_scale": (5, 1, 0.18), "translation": (5, 0, 0.5),
        "elevation": (5, 0, 0.005), "missed_weight": 25, "extra_weight": 25}       # (weight, mean, standard deviation)


def perceptual(pairs, D, G, P=PERC):
    def part(x, name):
        w, m, sd = P[name]
        return gauss(x, m, sd, w)
    area = lambda objs: sum(o.box[0] * o.box[2] for o in objs if o.cat == "floor")
    ga = area(o for o in G.values() if o.evaluated)
    room = area(D.values()) / ga if ga > 0 else 0.0
    score, top = part(room, "room_scale"), float(P["room_scale"][0])
    for d, g in pairs:
        d, g = D[d], G[g]
        if not g.evaluated:
            continue
        if g.volume > 0:
            score += part(d.volume / g.volume, "true_obj_scale")
            top += P["true_obj_scale"][0]
        if g.volume * room > 0:
            score += part(d.volume / (g.volume * room), "relative_obj_scale")
            top += P["relative_obj_scale"][0]
        score += part(math.hypot(d.t[0] - g.t[0], d.t[2] - g.t[2]), "translation") + part(d.t[1] - g.t[1], "elevation")
        top += P["translation"][0] + P["elevation"][0]
    md, mg = {p[0] for p in pairs}, {p[1] for p in pairs}
    score -= P["missed_weight"] * sum(o.volume for o in G.values() if o.id not in mg and o.evaluated)
    score -= P["extra_weight"] * sum(o.volume for o in D.values() if o.id not in md)
    return max(0.0, score) / top


def mean(x):
    x = list(x)
    return sum(x) / len(x)


def reference(typ, dets, gts, thresholds, categories, thresh, which, perc=PERC):
    """(list of possible results for the metrics of the common association, possible semantics
    scores or None).  More than one only if scores or similarities are tied."""
    D, G = {o.id: o for o in dets}, {o.id: o for o in gts}
    sim = {(d, g): similarity(D[d], G[g], thresh)[which] for d in D for g in G}
    score = {d: o.score for d, o in D.items()}
    n_gt = sum(o.evaluated for o in gts)

    def ap(pairs, ds, n):
        m = dict(pairs)
        return R.aps(tuple((score[d], d in m) for d in ds if d not in m or G[m[d]].evaluated), n)
    per = [sorted(map(sorted, R.associations([(d, score[d]) for d in D], list(G), sim, t))) for t in thresholds]
    out = []
    for choice in itertools.product(*per):
        r = {}
        ev = [[(D[d], G[g]) for d, g in c if G[g].evaluated] for c in choice]
        rot = [mean(R.rotation_error(d.R, g.R, g.sym) for d, g in c) for c in ev if c]
        tra = [mean(float(np.linalg.norm(d.t - g.t)) for d, g in c) for c in ev if c]
        r["rotation_error"] = [mean(rot) if rot else math.inf]
        r["translation_error"] = [mean(tra) if tra else math.inf]
        r["perceptual_score"] = [mean(perceptual(c, D, G, perc) for c in choice)]
        if n_gt:
            r["shape_score"] = [mean(x) for x in itertools.product(*(ap(c, list(D), n_gt) for c in choice))]
        if typ != "bounding_box":
            q = [rms(d, g) for c in ev for d, g in c]
            for i, k in enumerate(RMS):
                r[k] = [mean(x[i] for x in q) if q else math.inf]
        out.append(r)
    opts = []
    for t in thresholds:
        for c in categories:
            n = sum(o.cat == c and o.evaluated for o in gts)
            if not n:
                continue
            ds = [d for d in D if D[d].cat == c]
            o = set()
            for pairs in R.associations([(d, score[d]) for d in ds], [g for g in G if G[g].cat == c], sim, t):
                o |= ap(pairs, ds, n)
            opts.append(o)
    sem = None
    if opts:
        sem = {0.0}
        for o in opts:
            sem = {round(a + b, 13) for a in sem for b in o}
        sem = [x / len(opts) for x in sem]
    return out, sem


def agree(v, x):
    return v == x or abs(float(v) - x) <= 1e-6 * max(1.0, abs(x))


def settings(thresholds=(0.3, 0.5, 0.8), categories=CATS[:2], perc=None):
    s = Evaluator.default_settings()
    if perc:
        s["perceptual"] = {k: v if k.endswith("weight") else dict(zip(("weight", "mean", "std_dev"), v)) for k, v in perc.items()}
    s["thresholds"] = np.array(thresholds)
    s["categories"] = list(categories)
    return s


def frozen(s):
    return repr({k: (v.tolist() if isinstance(v, np.ndarray) else v) for k, v in s.items()})


def explore(ctx):
    def compare(typ, ev, dets, gts, thresholds, categories, thresh, note="", perc=PERC):
        result = ev.evaluate_all()
        want = KEYS + (RMS if typ != "bounding_box" else ())
        for k in want:
            if k not in result:
                fail("%s is not among the results" % k)
        n_gt = sum(o.evaluated for o in gts)
        bad = []
        for which in ((0, 1) if typ == "bounding_box" else (0,)):
            options, sem = reference(typ, dets, gts, thresholds, categories, thresh, which, perc)
            best = None
            for r in options:
                wrong = [(k, result[k], x) for k, x in r.items() if not any(agree(result[k], y) for y in x)]
                if best is None or len(wrong) < len(best):
                    best = wrong
            if sem is not None and not any(agree(result["semantics_score"], x) for x in sem):
                best = best + [("semantics_score", result["semantics_score"], sem)]
            if not best:
                break
            bad = bad or best
        else:
            fail("%s track%s, %d detections, %d objects: %s" % (typ, note, len(dets), len(gts), "; ".join(
                "%s is %r, expected %r" % (k, v, x[:3]) for k, v, x in bad)))
        for k in ("shape_score", "semantics_score", "perceptual_score"):
            if n_gt and not (0 <= result[k] <= 1 + 1e-9) and not (k == "semantics_score" and result[k] != result[k]):
                fail("%s is %r" % (k, result[k]))
        return tuple(round(float(result[k]), 6) for k in want)

    def evaluate(typ, dets, gts, thresholds=(0.3, 0.5, 0.8), categories=CATS[:2], objs=None, state=True, perc=None, thresh=0.15):
        ctx.step()
        sub, gt = objs or (R.scene([o.build() for o in dets], typ), R.scene([o.build() for o in gts], typ))
        s = settings(thresholds, categories, perc)
        if thresh != 0.15:
            s["mesh_overlap_thresh"] = s["voxel_overlap_thresh"] = thresh
        before = (S.scene_state(sub), S.scene_state(gt), frozen(s)) if state else None
        with np.errstate(all="ignore"):
            ev = CLS[typ](sub, gt, s)
            r = compare(typ, ev, dets, gts, sorted(thresholds), categories, thresh, perc=perc or PERC)
        if state and (S.scene_state(sub), S.scene_state(gt), frozen(s)) != before:
            fail("the evaluation changes a scene or the settings")
        return r

    import warnings
    warnings.simplefilter("ignore")
    GA = [(c, p, e) for c in CATS for p in ("here", "far") for e in (True, False)]
    DA = [(c, p) for c in CATS for p in ("here", "near", "far")]

    def build(typ, gs, ds, scores=(0.5, 0.9, 0.7, 0.3)):
        gts = [Obj(typ, "o%d" % i, GA[g][0], GA[g][1], evaluated=GA[g][2]) for i, g in enumerate(gs)]
        dets = [Obj(typ, ("o1", "o0", "o2", "o3")[i], DA[d][0], DA[d][1], variant=DA[d][1] == "near", score=scores[i]) for i, d in enumerate(ds)]
        return dets, gts

    def small(case):
        typ, gs, ds = case
        dets, gts = build(typ, gs, ds)
        return typ, evaluate(typ, dets, gts, state=len(gs) + len(ds) < 3)

    def cases():
        for typ in CLS:
            for ng in range(3):
                for gs in (itertools.combinations if not ctx.thorough else lambda r, n: itertools.product(r, repeat=n))(range(len(GA)), ng):
                    for nd in range(3):
                        for ds in itertools.product(range(len(DA)), repeat=nd):
                            if not ctx.thorough and ng + nd == 4 and (sum(gs) + 2 * ds[0] + ds[1]) % 5:
                                continue
                            yield typ, gs, ds
    ctx.enum("small scenes", cases(), small)

    # a scene against itself: every metric perfect; nothing near: no credit
    def perfect(case):
        typ, specs, same, motion, evs = case
        ctx.step()
        gts = [Obj(typ, "g%d" % i, c, p, score=0.5, evaluated=e) for i, ((c, p), e) in enumerate(zip(specs, evs))]
        if motion:
            Rm, t = ((YAW, np.array([3.0, -2, 8])), (S.cube_rotations()[7], np.array([0.5, 0.25, -9])))[motion - 1]
            gts = [o.moved(Rm, t) for o in gts]
        gt = R.scene([o.build() for o in gts], typ)
        sub = gt if same else R.scene([o.build() for o in gts][::-1], typ)
        r = CLS[typ](sub, gt, settings()).evaluate_all()
        zero = ("rotation_error", "translation_error") + (RMS if typ != "bounding_box" else ())
        for k in KEYS + zero:
            x = 0.0 if k in zero else 1.0
            if k == "perceptual_score" and {o.evaluated for o in gts if o.cat == "floor"} != {True}:
                continue              # room size: all submitted floors against all evaluated floors
            if k == "semantics_score" and not any(o.cat in CATS[:2] and o.evaluated for o in gts):
                continue
            if not abs(r[k] - x) <= 1e-5:
                fail("%s track: %s of a scene against itself is %r" % (typ, k, r[k]))
        return case
    SP = [(c, p) for c in CATS for p in ("here", "far", "off")]
    ctx.enum("a scene against itself", (
        (typ, sp, same, m, evs) for typ in CLS for n in (1, 2, 3) for sp in itertools.combinations(SP, n)
        if len({p for _, p in sp}) == n for same in (0, 1) for m in (0, 1, 2) for evs in itertools.product((True, False), repeat=n)
        if any(evs) and (n < 3 or ctx.thorough or same == (m + sum(evs)) % 2 and m < 2)), perfect)

    def nothing(case):
        typ, gs, ds = case
        ctx.step()
        gts = [Obj(typ, "g%d" % i, c, "here") for i, c in enumerate(gs)]
        dets = [Obj(typ, "g%d" % i, c, "far", score=0.9) for i, c in enumerate(ds)]
        r = CLS[typ](R.scene([o.build() for o in dets], typ), R.scene([o.build() for o in gts], typ), settings()).evaluate_all()
        for k in ("shape_score", "semantics_score"):
            if r[k] != 0 and not (k == "semantics_score" and not set(gs) & set(CATS[:2])):
                fail("%s of a submission without any object in place: %r" % (k, r[k]))
        for k in ("rotation_error", "translation_error") + (RMS if typ != "bounding_box" else ()):
            if r[k] != math.inf:
                fail("%s of a submission without any object in place: %r" % (k, r[k]))
        return case
    ctx.enum("nothing in place", ((typ, gs, ds) for typ in CLS for n in (1, 2) for m in (0, 1, 2)
                                  for gs in itertools.product(CATS, repeat=n) for ds in itertools.product(CATS, repeat=m)), nothing)

    # objects whose bounds have no volume: nothing is claimed about their relative size
    def flat(case):
        typ, gs, ds, fg, fd = case
        gts = [Obj(typ, "o%d" % i, GA[g][0], GA[g][1], evaluated=GA[g][2], flat=f) for i, (g, f) in enumerate(zip(gs, fg))]
        dets = [Obj(typ, ("o1", "o0", "o2", "o3")[i], DA[d][0], DA[d][1], variant=DA[d][1] == "near", score=s, flat=f)
                for i, (d, f, s) in enumerate(zip(ds, fd, (0.5, 0.9)))]
        r = evaluate(typ, dets, gts, state=False)
        same = CLS[typ](*[R.scene([o.build() for o in gts], typ)] * 2, settings()).evaluate_all()["perceptual_score"]
        if all(o.evaluated for o in gts) and any(o.cat == "floor" and o.box[0] * o.box[2] for o in gts) and not abs(same - 1) <= 1e-9 \
                and all(abs(similarity(a, b, 0.15)[0]) < 0.3 for a, b in itertools.combinations(gts, 2)):
            fail("%s track: perceptual score of a scene with flat bounds against itself is %r" % (typ, same))
        return case[:3], r
    FL = ((), (0,), (1,), (0, 1, 2))
    ctx.enum("flat bounds", (
        (typ, gs, ds, fg, fd) for typ in ("voxels", "meshes") for gs in ((4,), (4, 2), (0, 6), (5, 6)) for ds in ((0,), (4,), (3, 5), (4, 2), (0, 5))
        for fg in itertools.product(FL, repeat=len(gs)) for fd in itertools.product(FL if ctx.thorough else FL[:3], repeat=len(ds))
        if any(fg) and (ctx.thorough or len(ds) == 1 or fd[0] == () or fd[1] == ())), flat)

    # other settings: one or two of the perceptual parameters, the overlap distance, the sampling density
    def other(case):
        typ, gs, ds, changes, thresh = case
        P = dict(PERC)
        for k, c in changes:
            P[k] = 7 if k.endswith("weight") and c else 0 if k.endswith("weight") else \
                [(17, P[k][1], P[k][2]), (P[k][0], P[k][1] + 0.3 * (P[k][2] if P[k][2] < 0.1 else 1), P[k][2]), (P[k][0], P[k][1], P[k][2] * 3)][c]
        dets, gts = build(typ, gs, ds)
        for d in dets:                       # sizes differ everywhere
            d.box = (d.box[0] * 1.1,) + tuple(d.box[1:])
        return case[:3], evaluate(typ, dets, gts, perc=P, thresh=thresh, state=False)
    PCH = [(k, c) for k in PERC for c in ((0, 1) if k.endswith("weight") else (0, 1, 2))]
    ctx.enum("other settings", (
        (typ, gs, ds, ch, th) for typ in ("voxels", "meshes") for gs, ds in (((4,), (4,)), ((4,), (3,)), ((4, 2), (5, 3)), ((4, 2), (4, 1)), ((6, 0), (0, 5)), ((5, 2), (3, 4)))
        for ch in [(x,) for x in PCH] + [x for x in itertools.combinations(PCH, 2) if x[0][0] != x[1][0]] + [()]
        for th in ((0.15, 0.3, 0.02) if len(ch) == 0 else (0.15,) if len(ch) == 1 or ctx.thorough or gs in ((4,), (4, 2)) else ())), other)

    # not evaluated objects and categories that are not selected have no influence
    def influence(case):
        typ, gs, ds, extra, cats = case
        dets, gts = build(typ, gs, ds)
        a = evaluate(typ, dets, gts, categories=cats)
        c, p = extra
        more = gts + [Obj(typ, "more", c, p, evaluated=False)]
        b = evaluate(typ, dets, more, categories=cats)
        if p == "off" and a != b and not all(x == y or (x != x and y != y) for x, y in zip(a, b)):
            fail("%s track: an object that is not evaluated changes %r to %r" % (typ, a, b))
        return case[1:], a
    ctx.enum("objects not evaluated", (
        (typ, gs, ds, ex, cats) for typ in CLS for gs in ((0,), (0, 4), (2, 5), (4, 9)) for ds in ((0,), (0, 3), (1, 4), (5, 8))
        for ex in itertools.product(CATS, ("here", "far", "off")) for cats in (("chair",), ("floor", "chair"), CATS)), influence)

    # flags and scores as other libraries deliver them
    def kinds(case):
        typ, gs, ds, flag, num = case
        dets, gts = build(typ, gs, ds)
        a = evaluate(typ, dets, gts)
        for o in gts + dets:
            o.evaluated = {"np": np.bool_, "int": int, "float": float, "int8": np.int8}[flag](o.evaluated)
            o.score = getattr(np, num)(o.score)
        b = evaluate(typ, dets, gts, state=False)
        if not all(agree(x, y) or (x != x and y != y) for x, y in zip(a, b)):
            fail("%s track: with flags of kind %s the results are %r instead of %r" % (typ, flag, b, a))
        return case[:4], a
    ctx.enum("kinds of flags and scores", (
        (typ, gs, ds, fl, num) for typ in CLS for gs in ((1,), (0, 1), (0, 6), (4, 2, 9), (5, 9), (2, 3)) for ds in ((0,), (0, 3), (4, 8), (5, 2))
        for fl in ("np", "int", "float", "int8") for num in ("float32", "float64")), kinds)

    # orders of objects, thresholds and common motions
    def order(case):
        typ, gs, ds, po, pg, th, motion = case
        gts = [Obj(typ, "g%d" % i, GA[g][0], GA[g][1], evaluated=GA[g][2]) for i, g in enumerate(gs)]
        dets = [Obj(typ, "d%d" % i, DA[d][0], DA[d][1], variant=DA[d][1] == "near", score=s) for i, (d, s) in enumerate(zip(ds, (0.5, 0.9, 0.7)))]
        a = [o for o in dets]
        b = [o for o in gts]
        if motion:
            Rm, t = ((YAW, np.array([3.0, -2, 8])), (S.cube_rotations()[7], np.array([0.5, 0.25, -9])), (np.eye(3), np.array([-64.0, 32, 0])))[motion - 1]
            a, b = [o.moved(Rm, t) for o in a], [o.moved(Rm, t) for o in b]
        r = evaluate(typ, [a[i] for i in po], [b[i] for i in pg], thresholds=th)
        base = evaluate(typ, dets, gts, thresholds=sorted(th))
        for k, x, y in zip(KEYS + RMS, r, base):
            # the perceptual score tells heights from places on the floor
            if not agree(x, y) and not (x != x and y != y) and not (k == "perceptual_score" and motion == 2):
                fail("%s track: %s is %r, with another order or after a common motion %r" % (typ, k, y, x))
        return case
    ctx.enum("orders and motions", (
        (typ, gs, ds, po, pg, th, m) for typ in CLS for gs in ((0, 6), (4, 2, 9), (0, 5))
        for ds in ((0, 4, 8), (1, 3, 5), (4, 2, 1)) for po in itertools.permutations(range(3))
        for pg in (itertools.permutations(range(len(gs))) if ctx.thorough else (tuple(range(len(gs))), tuple(range(len(gs)))[::-1]))
        for th, m in (((0.3, 0.8), 0), ((0.8, 0.3, 0.5), 1), ((0.5,), 2), ((0.5, 0.4), 3))), order)

    # rows that overlap in part: with the threshold a detection may be matched to another object
    def rows(case):
        typ, gs, ds, th = case

        def row(id, o, n, d=0.0, **k):
            x = Obj(typ, id, "chair", "here", **k)
            x.size = x.box = (0.5 * n, 0.5, 0.5)
            x.t = np.array([0.5 * o + d, d / 2, 0.0])
            return x
        gts = [row("g%d" % i, o, n, evaluated=(i != 2)) for i, (o, n) in enumerate(gs)]
        dets = [row("d%d" % i, o, n, 0.0625, score=s) for i, ((o, n), s) in enumerate(zip(ds, (0.5, 0.9, 0.7)))]
        return case, evaluate(typ, dets, gts, thresholds=th, state=False)
    RW = list(itertools.product(range(3), (3, 4)))
    ctx.enum("matches that change with the threshold", (
        (typ, gs, ds, th) for typ in ("voxels", "meshes") for n in (2, 3) for gs in itertools.combinations(RW, n)
        for ds in (itertools.product(RW, repeat=2) if n == 2 else itertools.combinations(RW, 3))
        for th in ((0.2, 0.55, 0.7, 0.8), (0.8, 0.6)) if ctx.thorough or typ == "voxels" or n == 2), rows)

    # several evaluations that share scenes, in every order
    OPS = tuple("%s%d" % (k, i) for k in ("make", "all", "shape", "pose", "perc", "sem") for i in (0, 1, 2))

    def run(hist):
        typ = hist[0]
        g = [Obj(typ, "a", "chair", "here"), Obj(typ, "b", "floor", "far", evaluated=True), Obj(typ, "c", "floor_chair", "off", evaluated=False)]
        d = [Obj(typ, "b", "chair", "near", variant=True, score=0.9), Obj(typ, "a", "floor", "far", score=0.4), Obj(typ, "d", "chair", "here", score=0.3)]
        objs = [R.scene([o.build() for o in x], typ) for x in (d, g)]
        lists = ((d, g), (g, d), (d, d))
        roles = ((0, 1), (1, 0), (0, 0))
        evs = [None] * 3
        for op in hist[1:]:
            k, i = op[:-1], int(op[-1])
            ctx.step()
            if k == "make":
                evs[i] = CLS[typ](objs[roles[i][0]], objs[roles[i][1]], settings((0.3, 0.5)))
            elif evs[i] is None:
                continue
            elif k == "all":
                compare(typ, evs[i], lists[i][0], lists[i][1], (0.3, 0.5), CATS[:2], 0.15, " (history %r)" % (hist,))
            else:
                opts, sem = reference(typ, lists[i][0], lists[i][1], (0.3, 0.5), CATS[:2], 0.15, 0)
                if typ == "bounding_box":
                    o2, s2 = reference(typ, lists[i][0], lists[i][1], (0.3, 0.5), CATS[:2], 0.15, 1)
                    opts, sem = opts + o2, sem + s2
                v = {"shape": lambda e: (e.shape_score(),), "pose": lambda e: e.pose_error(), "perc": lambda e: (e.perceptual_score(),),
                     "sem": lambda e: (e.semantics_score(),)}[k](evs[i])
                names = {"shape": ("shape_score",), "pose": ("rotation_error", "translation_error"), "perc": ("perceptual_score",), "sem": ()}[k]
                if k == "sem":
                    if not any(agree(v[0], x) for x in sem):
                        fail("semantics score %r, expected %r (history %r)" % (v[0], sem, hist))
                elif not any(all(any(agree(a, y) for y in o[n]) for a, n in zip(v, names)) for o in opts):
                    fail("%s: %r, expected %r (history %r)" % (k, v, [o[names[0]] for o in opts], hist))
        en = tuple(o for o in OPS if o.startswith("make") or evs[int(o[-1])] is not None)
        return hist, en
    ctx.bfs("histories of evaluations", list(CLS), OPS, run, 3 if not ctx.thorough else 4)

    # scenes that are changed between evaluations: each evaluation is of the scenes as they are then
    EDITS = ("move", "turn", "back", "grow", "replace", "delete", "add", "score", "category", "evaluated", "symmetry", "id")

    def apply(op, side, sc, objs, typ):
        """The same edit to the real scene and to its description."""
        if op == "add":
            o = Obj(typ, "n%d" % len(objs), "chair", "off", score=0.2)
            sc.elements[o.id] = o.build()
            return objs + [o]
        if not objs:
            return objs
        o, rest = objs[0].moved(np.eye(3), np.zeros(3)), objs[1:]
        e = sc.elements[o.id]
        if op == "delete":
            del sc.elements[o.id]
            return rest
        if op == "move":
            o.t = o.t + np.array([0.0, 0.0625, 0.25])
            e.pose = Pose3(Rot3(o.R.copy()), o.t.copy())
        elif op == "turn":
            o.R = o.R @ YAW
            e.pose = Pose3(Rot3(o.R.copy()), o.t.copy())
        elif op == "back":                   # in place
            o.t = np.zeros(3)
            e.pose.t[...] = 0
        elif op == "grow":                   # the shape is replaced
            o.size = (o.size[0] + 0.5,) + tuple(o.size[1:])
            o.box = o.size
            n = o.build()
            e.bounds, e.voxels, e.meshes = n.bounds, n.voxels, n.meshes
        elif op == "replace":
            o.t = o.t + np.array([0.125, 0, 0])
            sc.elements[o.id] = o.build()
        elif op == "score":
            o.score = e.score = 1.5 if o.score >= 0 else o.score
        elif op == "category":
            o.cat = e.category = "chair" if o.cat != "chair" else "floor"
        elif op == "evaluated":
            o.evaluated = e.evaluated = not o.evaluated
        elif op == "symmetry":
            o.sym = ("none", "fourFold", "none")
            e.symmetry = ObjectSymmetry(*(SymmetryType[s] for s in o.sym))
        elif op == "id":                     # the same object under another id, now the last one
            del sc.elements[o.id]
            o.id = o.id + "'"
            sc.elements[o.id] = o.build()
        return rest + [o]

    def edits(hist):
        typ = hist[0]
        objs = [[Obj(typ, "b", "chair", "near", variant=True, score=0.9), Obj(typ, "a", "floor", "far", score=0.4)],
                [Obj(typ, "a", "chair", "here"), Obj(typ, "b", "floor", "far")]]
        scs = [R.scene([o.build() for o in x], typ) for x in objs]
        s = settings((0.3, 0.5))
        note = " (after %r)" % (hist[1:],)
        for n, op in enumerate((None,) + hist[1:]):
            if op:
                side = int(op[-1])
                objs[side] = apply(op[:-1], side, scs[side], objs[side], typ)
            if n in (0, len(hist) - 2, len(hist) - 1):
                ctx.step()
                r = compare(typ, CLS[typ](scs[0], scs[1], s), objs[0], objs[1], (0.3, 0.5), CATS[:2], 0.15, note)
                compare(typ, CLS[typ](scs[1], scs[0], s), objs[1], objs[0], (0.3, 0.5), CATS[:2], 0.15, " (exchanged)" + note)
        return hist, None
    ctx.bfs("scenes changed between evaluations", list(CLS), tuple("%s%d" % (k, i) for k in EDITS for i in (0, 1)), edits, 2 if not ctx.thorough else 3)

    # default settings
    def default(case):
        typ, how = case
        g = [Obj(typ, "a", "chair", "here"), Obj(typ, "b", "floor", "far")]
        d = [Obj(typ, "b", "chair", "near", variant=True, score=0.9), Obj(typ, "a", "floor", "far", score=0.4)]
        sub, gt = [R.scene([o.build() for o in x], typ) for x in (d, g)]
        ctx.step()
        ev = CLS[typ](sub, gt) if how == "none" else CLS[typ](sub, gt, None) if how == "None" else \
            CLS[typ](sub, gt, Evaluator.default_settings()) if how == "default" else CLS[typ](sub, gt, settings=CLS[typ].default_settings())
        return case, compare(typ, ev, d, g, tuple(np.linspace(0.25, 0.75, 11)), ("chair", "floor"), 0.15)
    ctx.enum("default settings", itertools.product(CLS, ("none", "None", "default", "class")), default)

    # the command-line tool
    def tool(argv, cwd):
        out = io.StringIO()
        old, here = sys.argv, os.getcwd()
        sys.argv = [TOOL] + argv
        try:
            os.chdir(cwd)
            with contextlib.redirect_stdout(out):
                runpy.run_path(TOOL, run_name="__main__")
        finally:
            os.chdir(here)
            sys.argv = old
        return out.getvalue()
    LABELS = {"Shape Score": "shape_score", "Translation Error": "translation_error", "Rotation Error": "rotation_error",
              "Semantics Score": "semantics_score", "Perceptual Score": "perceptual_score"}

    def command(case):
        typ, gs, ds, how = case
        base = os.path.join(ctx.tmp, "cli")
        shutil.rmtree(base, ignore_errors=True)
        os.makedirs(os.path.join(base, "x"))
        dets, gts = build(typ, gs, ds)
        R.scene([o.build() for o in gts], typ).save(base, "truth")
        R.scene([o.build() for o in dets], typ).save(os.path.join(base, "x"), "sub")
        ctx.step()
        if how == "abs":
            out = tool([os.path.join(base, "truth"), os.path.join(base, "x", "sub")], "/")
        elif how == "rel":
            out = tool(["truth", os.path.join("x", "sub")], base)
        else:
            out = tool([os.path.join("..", "truth"), "sub"], os.path.join(base, "x"))
        gt, sub = ProjectScene.load(base, "truth"), ProjectScene.load(os.path.join(base, "x"), "sub")
        r = CLS[typ](sub, gt, Evaluator.default_settings()).evaluate_all()
        for label, k in LABELS.items():
            m = re.search(re.escape(label) + r"[^:\n]*:\s*(\S+)", out)
            if not m:
                fail("the tool reports no %s:\n%s" % (label, out))
            if not agree(float(m.group(1)), float(r[k])) and not (r[k] != r[k]):
                fail("the tool reports %s %s, the evaluation is %r" % (label, m.group(1), r[k]))
        shutil.rmtree(base)
        return case
    ctx.enum("command line", ((typ, gs, ds, how) for typ in CLS for gs in ((0, 6), (4, 2), (0, 4))
                              for ds in ((), (0,), (1, 3), (5, 4), (8, 1), (0, 4, 8), (1, 3, 5, 4)) for how in ("abs", "rel", "up")), command)

    def mixed(case):
        a, b = case
        base = os.path.join(ctx.tmp, "cli2")
        shutil.rmtree(base, ignore_errors=True)
        os.makedirs(base)
        R.scene([Obj(a, "o", "floor", "here").build()], a).save(base, "truth")
        R.scene([Obj(b, "o", "floor", "here").build()], b).save(base, "sub")
        ctx.step()
        if a != b:
            raises(ValueError, tool, [os.path.join(base, "truth"), os.path.join(base, "sub")], "/")
        else:
            tool([os.path.join(base, "truth"), os.path.join(base, "sub")], "/")
        for args in (["truth", "none"], ["none", "truth"], ["truth"], ["truth", "sub", "sub"]):
            with contextlib.redirect_stderr(io.StringIO()):
                e = raises((Exception, SystemExit), tool, args, base)
            if isinstance(e, SystemExit) and e.code in (0, None):
                fail("the tool succeeds with arguments %r" % (args,))
        shutil.rmtree(base)
        return case
    ctx.enum("tracks on the command line", itertools.product(CLS, CLS), mixed)
