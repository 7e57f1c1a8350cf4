"""Reference definitions of the evaluation metrics (written from the documentation) and builders
of evaluators over small scenes (used by the metric checks)."""
import functools
import itertools
import math

import numpy as np

from mc import stubs
stubs.install()

from mc.core import fail                                          # noqa: E402
from sumo.base.vector import Vector3                              # noqa: E402
from sumo.geometry.pose3 import Pose3                             # noqa: E402
from sumo.geometry.rot3 import Rot3                               # noqa: E402
from sumo.metrics.evaluator import Evaluator                      # noqa: E402
from sumo.semantic.object_symmetry import ObjectSymmetry          # noqa: E402
from sumo.semantic.project_object import ProjectObject            # noqa: E402
from sumo.semantic.project_object_dict import ProjectObjectDict   # noqa: E402
from sumo.semantic.project_scene import ProjectScene              # noqa: E402
from sumo.threedee.box_3d import Box3d                            # noqa: E402

TOL = 1e-9


class TableEvaluator(Evaluator):
    """The real evaluator with a table of similarities."""
    def __init__(self, submission, ground_truth, settings, table):
        self.table = table
        Evaluator.__init__(self, submission, ground_truth, settings)

    def _shape_similarity(self, element1, element2):
        return self.table[element1.id, element2.id]


def scene(objs, typ="bounding_box"):
    d = ProjectObjectDict()
    for o in objs:
        d[o.id] = o
    return ProjectScene(typ, elements=d)


def cube_of(volume):
    return Box3d(Vector3(0, 0, 0), Vector3(float(volume), 1, 1))


# -- association -----------------------------------------------------------------
def orders(items, key):
    """All orders of the items by decreasing key."""
    groups = [list(g) for _, g in itertools.groupby(sorted(items, key=key, reverse=True), key=key)]
    for p in itertools.product(*(itertools.permutations(g) for g in groups)):
        yield [x for g in p for x in g]


def associations(dets, gts, sim, t):
    """dets: [(id, score)], gts: [id], sim[det, gt].  The set of all one-to-one pairings that
    taking the detections by decreasing score, each with the most similar free ground truth,
    can give (more than one if scores or similarities are tied)."""
    out = set()

    def rec(todo, free, pairs):
        if not todo:
            out.add(frozenset(pairs))
            return
        d = todo[0]
        cand = [g for g in free if sim[d, g] >= t]
        if not cand:
            rec(todo[1:], free, pairs)
            return
        best = max(sim[d, g] for g in cand)
        for g in cand:
            if sim[d, g] == best:
                rec(todo[1:], [x for x in free if x != g], pairs + [(d, g)])
    for o in orders(dets, lambda x: x[1]):
        rec([d for d, _ in o], list(gts), [])
    return out


# -- average precision --------------------------------------------------------------
@functools.lru_cache(None)
def ap_of(seq, n_gt):
    """Area under the interpolated precision/recall curve; seq is in order of decreasing score."""
    prec, tp = [], 0
    for i, m in enumerate(seq):
        tp += 1 if m else 0
        prec.append(tp / (i + 1.0))
    return sum(max(prec[i:]) for i, m in enumerate(seq) if m) / n_gt if seq else 0.0


@functools.lru_cache(1 << 16)
def aps(results, n_gt):
    """All values for the tuple of (score, match), one per order of tied scores."""
    return frozenset(ap_of(tuple(bool(m) for _, m in o), n_gt) for o in orders(results, lambda x: x[0]))


def any_close(value, options, what, tol=TOL):
    v = float(value)
    if not any(abs(v - o) <= tol for o in options):
        fail("%s is %r, expected %s" % (what, v, " or ".join(map(repr, sorted(set(options))[:6]))))


# -- rotations ------------------------------------------------------------------------
def angle(R):
    """Angle of a rotation matrix, accurate for small and for half turns."""
    s = 0.5 * math.sqrt((R[2, 1] - R[1, 2]) ** 2 + (R[0, 2] - R[2, 0]) ** 2 + (R[1, 0] - R[0, 1]) ** 2)
    return math.atan2(s, 0.5 * (R[0, 0] + R[1, 1] + R[2, 2] - 1))


def axis_rot(axis, t):
    c, s = math.cos(t), math.sin(t)
    R = np.eye(3)
    j, k = (axis + 1) % 3, (axis + 2) % 3
    R[j, j] = R[k, k] = c
    R[j, k], R[k, j] = -s, s
    return R


def quarter(axis, n):
    """Rotation by n quarter turns, exact."""
    return np.rint(axis_rot(axis, n * math.pi / 2))


@functools.lru_cache(None)
def finite_group(folds):
    """The group generated by turns of 1/fold about the axes (folds: three of 1, 2, 4)."""
    gens = [quarter(a, 4 // f) for a, f in enumerate(folds) if f > 1]
    group = {tuple(np.eye(3).ravel()): np.eye(3)}
    todo = [np.eye(3)]
    while todo:
        g = todo.pop()
        for h in gens:
            n = g @ h + 0.0
            k = tuple(n.ravel())
            if k not in group:
                group[k] = n
                todo.append(n)
    return list(group.values())


def rotation_error(R_det, R_gt, sym):
    """sym: three of none, twoFold, fourFold, cylindrical, spherical."""
    if "spherical" in sym:
        return 0.0
    D = R_gt.T @ R_det                     # must be a symmetry of the object for error 0
    fold = {"none": 1, "twoFold": 2, "fourFold": 4, "cylindrical": 1}
    group = finite_group(tuple(fold[s] for s in sym))
    if "cylindrical" not in sym:
        return min(angle(g.T @ D) for g in group)
    a = sym.index("cylindrical")
    e = np.eye(3)[a]
    # over all turns about the axis the smallest angle is the one between the axes
    best = math.pi
    for g in group:
        u, v = g.T @ D @ e, e
        best = min(best, math.atan2(np.linalg.norm(np.cross(u, v)), float(u @ v)))
    return best
