"""C16: precision, recall and average precision against their definitions."""
import itertools

import numpy as np

from mc.core import fail
from mc import evalref as R
from mc.props.c15 import obj, settings
import sumo.metrics.utils as U

TOL = 1e-12


def curve(seq, n_gt, interp):
    """Definition: precision and recall after each detection in order of decreasing score."""
    tp, p, r = 0, [], []
    for i, m in enumerate(seq):
        tp += bool(m)
        p.append(tp / (i + 1.0))
        r.append(tp / float(n_gt))
    if interp:
        p = [max(p[i:]) for i in range(len(p))]
    return p, r


def at_samples(p, r, samples):
    """Precision at the first point whose recall reaches the sample, 0 beyond the last one."""
    return [next((pi for pi, ri in zip(p, r) if ri >= s), 0.0) for s in samples]


def close(a, b):
    a = np.asarray(a, dtype=float)
    return a.shape == (len(b),) and (not len(b) or float(np.max(np.abs(a - np.array(b)))) <= TOL)


def explore(ctx):
    SAMPLES = (None, (0.0, 0.26, 0.5, 0.76, 1.0), (0.0,), (1.0,), (0.0, 0.01, 0.13, 0.24, 0.34, 0.51, 0.99),
               # next to every recall that can be reached with few objects
               tuple(sorted({x for n in range(2, 9) for k in range(n + 1) for d in (1e-9, 1e-3, 4e-3) for x in (k / n - d, k / n + d) if 0 < x < 1})))

    def check(matches, scores, n_gt, samples=(0, 1, 2), modes=(True, False)):
        ctx.step()
        m, s = np.array(matches), np.array(scores, dtype=float)
        mb, sb = m.copy(), s.copy()
        seqs = {tuple(bool(x) for _, x in o) for o in R.orders(tuple(zip(scores, matches)), lambda x: x[0])}
        hits = sum(1 for x in matches if x)

        def verify(what, p, r, interp, smp, ap=None, auc=False):
            for q in seqs:
                ep, er = curve(q, n_gt, interp)
                if smp is not None:
                    ep, er = at_samples(ep, er, smp), list(smp)
                if close(p, ep) and close(r, er):
                    if ap is None or abs(float(ap) - (R.ap_of(q, n_gt) if auc else sum(ep) / len(ep))) <= TOL:
                        break
            else:
                q = sorted(seqs)[0]
                fail("%s: precision %r, recall %r, average %r for outcomes %r in order of score with %d objects" % (
                    what, np.asarray(p).tolist(), np.asarray(r).tolist(), ap, [int(x) for x in q], n_gt))
            if ap is not None and not -TOL <= float(ap) <= 1 + TOL:
                fail("%s: average precision %r" % (what, ap))
        ap, p, r = U.compute_ap(m, s, n_gt)
        verify("compute_ap", p, r, True, None, ap, True)
        if hits == 0 and ap != 0:
            fail("average precision %r without a correct detection" % ap)
        if hits == n_gt and all(all(q[:hits]) for q in seqs) and not abs(ap - 1) <= TOL:
            fail("average precision %r of a perfect detector" % ap)
        ap, p, r = U.compute_auc_ap(m, s, n_gt)
        verify("compute_auc_ap", p, r, True, None, ap, True)
        for i in samples:
            smp = SAMPLES[i]
            a = None if smp is None else np.array(smp)
            ap, p, r = U.compute_ap(m, s, n_gt, a, True)
            verify("compute_ap with samples", p, r, True, None, ap, True)
            for interp in modes:
                p, r = U.compute_pr(m, s, n_gt, a, interp)
                verify("compute_pr (samples %r, interpolation %r)" % (smp, interp), p, r, interp, smp)
                if len(matches) or smp is not None:
                    ap, p, r = U.compute_ap(m, s, n_gt, a, interp, area_under_curve=False)
                    verify("compute_ap (samples %r, interpolation %r, no area)" % (smp, interp), p, r, interp, smp, ap)
            if a is not None and a.tolist() != list(smp):
                fail("the recall samples were changed")
        if (m != mb).any() or (s != sb).any():
            fail("the detections were changed")
        return (len(seqs), tuple(sorted(seqs)[0]), n_gt)

    def weak(n):
        return sorted({tuple(sorted(set(p)).index(x) * 0.2 for x in p) for p in itertools.product(range(n), repeat=n)})

    n1 = 5 if not ctx.thorough else 6
    ctx.enum("all outcomes and score orders", (
        (m, s, hits + e) for n in range(n1 + 1) for s in weak(n) for m in itertools.product((0, 1), repeat=n)
        for hits in (sum(m),) for e in ((0, 1, 3) if n < 5 else (0, 2)) if hits + e > 0 and
        (n < 5 or ctx.thorough or s[0] <= s[1])),
        lambda c: check(c[0], c[1], c[2], samples=(0, 1, 5) if len(c[0]) > 4 else (0, 1, 2, 3, 4, 5)))

    # long lists in one order of scores
    def long(case):
        m, n_gt, desc = case
        s = [1.0 - 0.01 * i for i in range(len(m))]
        if not desc:
            m, s = m[::-1], s[::-1]
        return check(m, s, n_gt, samples=(0, 4, 5))
    n2 = 9 if not ctx.thorough else 12
    ctx.enum("longer lists", ((m, sum(m) + e, d) for n in range(6, n2 + 1) for m in itertools.product((0, 1), repeat=n)
                              for e in (0, 1, 5) if sum(m) + e > 0 for d in ((0, 1) if n < 8 else (1,))), long)

    # very long lists, where sorting algorithms change: patterns of hits
    def huge(case):
        n, step, off, e, tied = case
        m = [1 if i % step == off else 0 for i in range(n)]
        if sum(m) + e == 0:
            return None
        s = [1.0 / (1 + i) for i in range(n)]
        if tied:          # ties among equal outcomes only, so the order of ties has no influence
            s = [1.0 / (1 + i // step) - (0.001 / (1 + i // step) ** 2 if (i % step) != off else 0) for i in range(n)]
        perm = [(i * 7 + 3) % n for i in range(n)] if n % 7 else list(range(n))[::-1]
        ctx.step()
        ap, p, r = U.compute_ap(np.array([m[i] for i in perm]), np.array([s[i] for i in perm]), sum(m) + e)
        q = [x for _, x in sorted(zip(s, m), key=lambda t: -t[0])]
        ep, er = curve(q, sum(m) + e, True)
        if not close(p, ep) or not close(r, er):
            fail("precision/recall of %d detections" % n)
        if not abs(ap - R.ap_of(tuple(bool(x) for x in q), sum(m) + e)) <= 1e-10:
            fail("average precision of %d detections: %r" % (n, ap))
        return case
    ctx.enum("long patterns", itertools.product((16, 17, 33, 100, 257) + ((1001,) if ctx.thorough else ()), (1, 2, 3, 5),
                                                (0, 1, 4), (0, 1, 50), (0, 1)), huge)

    # score values and types
    VAL = (-1.0, 0.0, -0.0, 1e-300, 0.5, 0.5000000000000001, 1.0, 100.0, 1e300, -1e300, float("inf"), float("-inf"))

    def values(case):
        a, b, c, m = case
        return check(m, (a, b, c), 2, samples=(0,), modes=(True,)), case
    ctx.enum("score values", ((a, b, c, m) for a, b, c in itertools.product(VAL, repeat=3)
                              for m in ((1, 0, 1), (0, 1, 0))), values)

    def types(case):
        md, sd, m = case
        ctx.step()
        s = np.array([3, 1, 2]).astype(sd)
        mm = np.array(m).astype(md)
        ap, p, r = U.compute_ap(mm, s, 3)
        if not abs(ap - R.ap_of((bool(m[0]), bool(m[2]), bool(m[1])), 3)) <= TOL:
            fail("average precision %r for outcomes of type %s and scores of type %s" % (ap, md, sd))
        return case
    ctx.enum("outcome and score types", itertools.product(
        ("int64", "int32", "bool", "float64", "uint8"), ("float64", "float32", "int64"),
        [tuple(2 * x if k else x for x in m) for k in (0, 1) for m in itertools.product((0, 1), repeat=3)]), types)

    # aggregation over thresholds and categories by the evaluator
    CATS = ("chair", "sofa", "sofa_chair")

    def aggregate(case):
        scores, cats, gcats, ge, sims, thresholds, sel = case
        ctx.step()
        # detection i can only match object i (if there is one); its similarity is sims[i]
        n, m = len(scores), len(gcats)
        dets = [obj("d%d" % i, 0.0, 1, CATS[cats[i]], scores[i]) for i in range(n)]
        gts = [obj("g%d" % j, 0.0, 1, CATS[gcats[j]], 0.0, bool(ge[j])) for j in range(m)]
        table = {("d%d" % i, "g%d" % j): sims[i] if i == j else 0.0 for i in range(n) for j in range(m)}
        ev = R.TableEvaluator(R.scene(dets), R.scene(gts),
                              settings(np.array(thresholds), [CATS[c] for c in sel]), table)

        def results(t, c):
            out = []
            for i in range(n):
                if c is not None and cats[i] != c:
                    continue
                match = i < m and sims[i] >= t and (c is None or gcats[i] == c)
                if match and not ge[i]:
                    continue
                out.append((scores[i], match))
            return tuple(out)
        if sum(ge):
            exp = sum(R.ap_of(tuple(x for _, x in sorted(results(t, None), key=lambda q: -q[0])), sum(ge))
                      for t in thresholds) / len(thresholds)
            R.any_close(ev.shape_score(), [exp], "shape score")
        used = [c for c in sel if any(g == c and e for g, e in zip(gcats, ge))]
        if used:
            exp = sum(R.ap_of(tuple(x for _, x in sorted(results(t, c), key=lambda q: -q[0])),
                              sum(1 for g, e in zip(gcats, ge) if g == c and e))
                      for t in thresholds for c in used) / (len(thresholds) * len(used))
            R.any_close(ev.semantics_score(), [exp], "semantics score")
        return case

    def agg_cases():
        S3 = list(itertools.permutations((0.2, 0.5, 0.9)))
        for sc in S3 if ctx.thorough else S3[::2]:
            for cats in itertools.product(range(3), repeat=3):
                for gc in itertools.product(range(3), repeat=2):
                    for ge in itertools.product((0, 1), repeat=2):
                        for sims in ((0.4, 0.8, 0.0), (0.8, 0.2, 0.0)) if not ctx.thorough else itertools.product((0.2, 0.4, 0.8), (0.2, 0.4, 0.8), (0.0,)):
                            yield sc, cats, gc, ge, sims, (0.3, 0.5, 0.7), (1, 0)
        for sims in itertools.product((0.2, 0.4, 0.6, 0.8), repeat=4):
            for th in ((0.3,), (0.5, 0.3), (0.7, 0.5, 0.3)):
                yield (0.1, 0.9, 0.5, 0.7), (0, 0, 1, 0), (0, 0, 1, 1), (1, 1, 1, 1), sims, th, (0, 1, 2)
    ctx.enum("means over thresholds and categories", agg_cases(), aggregate)
