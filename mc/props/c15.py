"""C15: greedy one-to-one association, against the definition, through the public metrics."""
import itertools

import numpy as np

from mc.core import fail
from mc import evalref as R
from sumo.geometry.pose3 import Pose3
from sumo.geometry.rot3 import Rot3
from sumo.semantic.project_object import ProjectObject

CATS = ("chair", "sofa", "sofa_chair")     # the last one is not selected (and contains both others)
W = 1 << 20
SETTINGS = R.Evaluator.default_settings()
NOSYM = R.ObjectSymmetry()


def settings(thresholds, categories=CATS[:2]):
    """Perceptual weights that make the score a code of the objects missed and extra."""
    g = {"weight": 0, "mean": 0.0, "std_dev": 1.0}
    s = dict(SETTINGS)
    s["thresholds"] = thresholds
    s["categories"] = list(categories)
    s["perceptual"] = {"room_scale": {"weight": W, "mean": 0.0, "std_dev": 1.0}, "true_obj_scale": g,
                       "relative_obj_scale": g, "translation": g, "elevation": g,
                       "missed_weight": 1, "extra_weight": 256}
    return s


# places such that every mean of distances of a set of pairs belongs to that set only
DX = (0.0, 1.618033988749895, 5.23606797749979, 11.180339887498949, 23.0713)
GX = (-0.7320508075688772, -3.1622776601683795, -9.848857801796104, -21.2132, -47.1313)


def obj(id, x, vol, cat, score, evaluated=True):
    return ProjectObject.gen_bounding_box_object(
        id=id, bounds=R.cube_of(vol), pose=Pose3(Rot3(), np.array([x, 0.0, 0.0])), category=cat,
        symmetry=NOSYM, score=score, evaluated=evaluated)


def explore(ctx):
    def check(dets, gts, sim, thresholds, asked=None, order=None, categories=CATS[:2], tied=False):
        """dets: [(score, category)], gts: [(evaluated, category)], sim[i][j]; thresholds: the set,
        asked: as passed in the settings; order: (permutation of dets, of gts) in the scenes."""
        ctx.step()
        D = ["d%d" % i for i in range(len(dets))]
        G = ["g%d" % j for j in range(len(gts))]
        if len(gts) > 2:
            G[2] = "d0"                      # ids of the two scenes have nothing to do with each other
        so = [obj(D[i], DX[i], 1 << i, dets[i][1], dets[i][0]) for i in (order[0] if order else range(len(dets)))]
        go = [obj(G[j], GX[j], 1 << j, gts[j][1], 0.5, gts[j][0]) for j in (order[1] if order else range(len(gts)))]
        table = {(D[i], G[j]): sim[i][j] for i in range(len(dets)) for j in range(len(gts))}
        ev = R.TableEvaluator(R.scene(so), R.scene(go), settings(
            np.array(thresholds if asked is None else asked, dtype=float), categories), table)
        score = {D[i]: dets[i][0] for i in range(len(dets))}
        evald = {G[j]: gts[j][0] for j in range(len(gts))}
        vol_d = {D[i]: 1 << i for i in range(len(dets))}
        vol_g = {G[j]: 1 << j for j in range(len(gts))}
        dist = {(D[i], G[j]): abs(DX[i] - GX[j]) for i in range(len(dets)) for j in range(len(gts))}
        n_gt = sum(1 for g in gts if g[0])
        per = [R.associations([(d, score[d]) for d in D], G, table, t) for t in thresholds]
        ok = set()
        for choice in itertools.product(*per):
            trans, perc = [], []
            for pairs in choice:
                ds = [dist[p] for p in pairs if evald[p[1]]]
                if ds:
                    trans.append(sum(ds) / len(ds))
                md, mg = {p[0] for p in pairs}, {p[1] for p in pairs}
                pen = sum(vol_g[g] for g in G if g not in mg and evald[g]) + 256 * sum(vol_d[d] for d in D if d not in md)
                perc.append((W - pen) / W)
            ok.add((sum(trans) / len(trans) if trans else float("inf"), sum(perc) / len(perc), choice))
        trans = float(ev.pose_error()[1])
        perc = float(ev.perceptual_score())
        close = lambda a, b: a == b or abs(a - b) < 1e-9
        fit = [c for t, p, c in ok if close(t, trans) and close(p, perc)]
        if not fit:
            t, p, c = min(ok, key=lambda o: abs(o[1] - perc))
            fail("association of %d detections and %d objects: mean distance of the pairs %r (expected %r), "
                 "unmatched objects %r (expected %r), for pairs %r" % (
                     len(D), len(G), trans, t, round((1 - perc) * W, 3), round((1 - p) * W, 3),
                     [sorted(x) for x in c]))
        if n_gt:
            exp = set()
            for choice in fit:
                opts = []
                for pairs in choice:
                    m = dict(pairs)
                    opts.append(R.aps(tuple((score[d], d in m) for d in D if d not in m or evald[m[d]]), n_gt))
                exp |= {sum(o) / len(o) for o in itertools.product(*opts)}
            R.any_close(ev.shape_score(), exp, "shape score")
        # per category
        sel = [c for c in categories if any(g[1] == c and g[0] for g in gts)]
        if sel:
            opts = []
            for t in thresholds:
                for c in sel:
                    cd = [D[i] for i in range(len(D)) if dets[i][1] == c]
                    cg = [G[j] for j in range(len(G)) if gts[j][1] == c]
                    n = sum(1 for g in cg if evald[g])
                    o = set()
                    for pairs in R.associations([(d, score[d]) for d in cd], cg, table, t):
                        m = dict(pairs)
                        o |= R.aps(tuple((score[d], d in m) for d in cd if d not in m or evald[m[d]]), n)
                    opts.append(o)
            exp = {0.0}
            for o in opts:
                exp = {round(a + b, 13) for a in exp for b in o}
            R.any_close(ev.semantics_score(), {e / len(opts) for e in exp}, "semantics score")
        return tuple(sorted(tuple(map(tuple, map(sorted, c))) for c in fit))

    chairs = lambda scores: [(s, "chair") for s in scores]
    evs = lambda n: [(True, "chair")] * n

    # all similarity tables and score orders, one threshold
    def weak(n):
        """All orders of n scores with ties."""
        return sorted({tuple(sorted(set(p)).index(x) * 0.25 - 0.25 for x in p) for p in itertools.product(range(n), repeat=n)})

    def one(case):
        n, m, vals, scores = case
        sim = [vals[i * m:(i + 1) * m] for i in range(n)]
        return (n, m, tuple(sorted(scores)) != tuple(sorted(set(scores))), check(chairs(scores), evs(m), sim, [0.5]))

    def tables():
        for n, m in ((0, 0), (0, 1), (1, 0), (0, 2), (2, 0), (1, 1), (1, 2), (2, 1), (1, 3), (3, 1), (2, 2)):
            for sc in weak(n):
                for v in itertools.product((0.0, 0.4, 0.5, 0.625, 1.0), repeat=n * m):
                    yield n, m, v, sc
        for n, m in ((2, 3), (3, 2)):
            for sc in weak(n):
                for v in itertools.product((0.4, 0.5, 0.75, 1.0) if ctx.thorough else (0.4, 0.5, 1.0), repeat=n * m):
                    yield n, m, v, sc
        for sc in (((0.5, 0.25, 0.75),) if not ctx.thorough else tuple(itertools.permutations((0.25, 0.5, 0.75)))):
            for v in itertools.product((0.4, 0.5, 1.0), repeat=9):
                yield 3, 3, v, sc
    ctx.enum("similarity tables", tables(), one)

    # strict orders of all similarities of a larger table
    def ranks(case):
        n, m, perm, sc, cut = case
        vals = [0.3 + 0.05 * p for p in perm]
        return check(chairs(sc), evs(m), [vals[i * m:(i + 1) * m] for i in range(n)], [0.275 + 0.05 * cut]), cut
    sizes = ((2, 3, (0.5, 0.75)), (3, 2, (0.25, 0.75, 0.5))) + (((2, 4, (0.75, 0.5)), (4, 2, (.5, .25, 1., .75))) if ctx.thorough else ())
    ctx.enum("strict similarity orders", (
        (n, m, p, sc, cut) for n, m, sc in sizes for p in itertools.permutations(range(n * m))
        for cut in (0, 2, n * m - 2)), ranks)

    # similarities, scores and thresholds that differ by very little
    def near(case):
        n, m, perm, sc, gap, t = case
        vals = [0.625 + gap * p for p in perm]
        base = 0.5
        scores = [base + gap * x for x in sc]
        return check(chairs(scores), evs(m), [vals[i * m:(i + 1) * m] for i in range(n)], [vals[0] + t * gap / 2]), gap
    ctx.enum("nearly equal", (
        (n, m, p, sc, gap, t) for n, m in ((1, 2), (2, 1), (2, 2), (1, 3), (3, 1)) for p in itertools.permutations(range(n * m))
        for sc in itertools.permutations(range(n)) for gap in (1e-14, 1e-9, 1e-6, 1e-4, 1e-2) for t in (-1, 1, -99)), near)

    # thresholds at the ends of the range: no similarity is too small for the threshold 0
    def ends(case):
        n, m, vals, sc, t = case
        return t, check(chairs(sc), evs(m), [vals[i * m:(i + 1) * m] for i in range(n)], list(t))
    ctx.enum("thresholds 0 and 1", (
        (n, m, v, sc, t) for n, m in ((1, 1), (1, 2), (2, 1), (2, 2)) for sc in weak(n)
        for v in itertools.product((0.0, 1e-300, 0.25, 1.0), repeat=n * m)
        for t in ((0.0,), (1.0,), (0.0, 1.0), (0.0, 1e-300), (0.0, 0.25, 1.0))), ends)

    # several thresholds, in every order and container
    def multi(case):
        vals, asked, how = case
        c = check(chairs((0.25, 0.75)), [(True, "chair"), (True, "chair")], (vals[:2], vals[2:]), sorted(asked),
                  asked={"list": list, "tuple": tuple, "array": np.array}[how](asked))
        return asked, c
    T = (0.25, 0.5, 0.75)
    asks = [p for n in (1, 2, 3) for p in itertools.permutations(T, n)]
    ctx.enum("threshold lists", (
        (v, a, h) for v in itertools.product((0.0, 0.25, 0.6, 0.75, 0.9), repeat=4) for a in asks
        for h in (("list",) if not ctx.thorough else ("list", "tuple", "array"))), multi)

    # flags and categories
    def flags(case):
        vals, scores, dc, gc, ge, cats = case
        n, m = len(dc), len(gc)
        return case[2:], check([(s, CATS[c]) for s, c in zip(scores, dc)], [(bool(e), CATS[c]) for e, c in zip(ge, gc)],
                               [vals[i * m:(i + 1) * m] for i in range(n)], [0.5, 0.75], categories=cats)

    def flagcases():
        vs = (0.4, 0.6, 0.8)
        for v in itertools.product(vs, repeat=4):
            for sc in ((0.25, 0.75), (0.5, 0.5)):
                for dc in itertools.product(range(3), repeat=2):
                    for gc in itertools.product(range(3), repeat=2):
                        if not ctx.thorough and sc == (0.5, 0.5) and (dc[0] != dc[1] or gc[0] != gc[1]):
                            continue
                        for ge in itertools.product((0, 1), repeat=2):
                            yield v, sc, dc, gc, ge, CATS[:2]
        for v in itertools.product((0.4, 0.6, 0.8), repeat=2):
            for cats in ((), ("sofa",), ("sofa", "chair"), ("armchair", "chair"), CATS):
                for dc in itertools.product(range(3), repeat=2):
                    for gc in range(3):
                        for ge in (0, 1):
                            yield v, (0.25, 0.75), dc, (gc,), (ge,), cats
    ctx.enum("evaluated flags and categories", flagcases(), flags)

    # the order of the objects in the scenes does not matter (scores and similarities distinct)
    def order(case):
        perm, po, pg, ge = case
        vals = [0.3 + 0.05 * p for p in perm]
        return perm, check(chairs((0.25, 0.75, 0.5)), [(bool(e), "chair") for e in ge],
                           [vals[0:2], vals[2:4], vals[4:6]], [0.4, 0.5], order=(po, pg))
    ctx.enum("object orders", (
        (p, po, pg, ge) for p in (itertools.permutations(range(6)) if ctx.thorough else
                                  list(itertools.permutations(range(6)))[::6])
        for po in itertools.permutations(range(3)) for pg in ((0, 1), (1, 0)) for ge in ((1, 1), (0, 1))), order)

    # chains in which every assignment displaces the next one
    def chain(case):
        n, sc, gap = case
        sim = [[(0.9 - 0.02 * abs(i - j) - 0.01 * (j > i)) if abs(i - j) <= gap else 0.1 for j in range(n)] for i in range(n)]
        return sc, check(chairs(sc), evs(n), sim, [0.5, 0.87, 0.88])
    ctx.enum("displacement chains", (
        (n, tuple(0.1 + 0.2 * x for x in p), gap) for n in (3, 4, 5) for p in itertools.permutations(range(n)) for gap in (1, 2)), chain)

    # scores that differ little: the order is theirs, however small the difference
    def near(case):
        base, gap, perm, vals, m = case
        n = len(perm)
        sc = tuple(base + gap * p for p in perm)
        if len(set(sc)) != n:
            return case[:3], None
        return sc, check(chairs(sc), evs(m), [vals[i * m:(i + 1) * m] for i in range(n)], [0.5])
    ctx.enum("close scores", (
        (base, gap, p, v, m) for base in (0.5, 0.0, -3.0, 1e-9, 1000.0) for gap in (1e-2, 1e-3, 1e-4, 1e-6, 1e-7, 1e-8, 1e-9, 1e-10, 1e-12, 1e-15)
        for n, m in ((2, 1), (2, 2), (3, 2)) for p in itertools.permutations(range(n))
        for v in itertools.product((0.4, 0.6, 0.8), repeat=n * m) if n * m < 6 or ctx.thorough or (v[0] != v[1] and v[2] != v[3] and v[4] == v[0])), near)
