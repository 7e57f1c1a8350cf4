"""C01: saving a scene and loading it back."""
import itertools
import os
import shutil

import numpy as np

from mc.core import fail, eq
from mc import scenes as S
from sumo.semantic.object_symmetry import ObjectSymmetry
from sumo.semantic.project_object_dict import ProjectObjectDict
from sumo.semantic.project_scene import DEFAULT_SETTINGS, ProjectScene

CATS = ("chair", "", "\u00e9\u4e2d\U0001f600", "a <b> & \"c\" 'd' ]]>", " two  spaces\n\ttab ", "None")
IDS = ("1", "a b", "\u00fc$HOME", "`id`;(x)", "~&'", "1.glb", "-0", "<i>", " ", " a\t", "x\ny\n")
NAMES = ("p", "a b", "sc\u00e8ne$HOME", "x.xml", "~p", "q&a")
SCORES = (-1, 0, 1, 0.1 + 0.2, 1e-300, 123456789.123456789, 5e-324)
NPB = (np.True_, np.False_, True, False)
NPS = (np.float64(0.1 + 0.2), np.float64(-1), np.int64(3), np.float64(1e-300))
PRINT = {
    "default": {},
    "short": dict(precision=2, suppress=True, threshold=1, edgeitems=1, linewidth=10),
    "sign": dict(sign="+", floatmode="fixed", precision=3),
    "formatter": dict(formatter={"float": lambda x: "x"}),
    "legacy": dict(legacy="1.13", precision=1),
}
SETTINGS = {
    "default": None,
    "custom": {"version": "9.9\u00e9", "categories_id": "a <b> & c", "categories_url": "http://x/?a=1&b=\"2\""},
    "empty": {"version": "", "categories_id": "", "categories_url": ""},
    "space": {"version": " 2 ", "categories_id": "\n", "categories_url": "None"},
}
SHAPES = {"bounding_box": tuple(S.BOXES), "voxels": tuple(S.VOXELS), "meshes": ("tex", "two", "mixed")}


def expected_bounds(spec):
    typ, shape = spec[0], spec[7]
    if typ == "bounding_box":
        return S.BOXES[shape]
    if typ == "voxels":
        vs, mc, cells = S.VOXELS[shape]
        c = np.array(cells, dtype=np.float64)
        return np.array(mc) + c.min(0) * vs, np.array(mc) + (c.max(0) + 1) * vs
    v = np.hstack([m.vertices() for m in S.make_model(shape).primitive_meshes()]).astype(np.float64)
    return v.min(1), v.max(1)


def explore(ctx):
    counter = itertools.count()

    def where(kind):
        base = os.path.join(ctx.tmp, "s%d" % next(counter))
        if kind == "abs":
            os.makedirs(base)
            return base, base, None
        if kind == "abs-new":                 # intermediate directories do not exist yet
            return os.path.join(base, "x y", "z"), base, None
        os.makedirs(base)
        if kind == "rel":
            return "sub", base, base
        if kind == "rel-dot":
            return ".", base, base
        if kind == "rel-empty":
            return "", base, base
        os.makedirs(os.path.join(base, "in", "ner"))
        return os.path.join("..", "up"), base, os.path.join(base, "in", "ner")

    def files(d):
        return {os.path.relpath(os.path.join(a, n), d) for a, _, ns in os.walk(d) for n in ns}

    def roundtrip(scene, kind, name, what="loaded scene"):
        path, base, cwd = where(kind)
        old = os.getcwd()
        before = S.scene_state(scene)
        bounds = {k: S.box_state(o.bounds) for k, o in scene.elements.items()}
        top = set(os.listdir(ctx.tmp)), set(os.listdir(os.path.join(ctx.tmp, "tmp")))
        try:
            if cwd:
                os.chdir(cwd)
            here = os.path.abspath(path)
            ctx.step(2)
            scene.save(path, name)
            if os.path.abspath(path) != here:
                fail("saving changed the current directory")
            ext = {"bounding_box": None, "voxels": ".h5", "meshes": ".glb"}[scene.project_type]
            want = {name + ".xml"} | ({o.id + ext for o in scene.elements.values()} if ext else set())
            eq(files(os.path.join(path, name)), want, "files of the saved scene")
            loaded = ProjectScene.load(path, name)
            eq(os.path.abspath(path), here, "current directory after loading")
            if kind == "rel":        # also readable by its absolute path from elsewhere
                os.chdir(old)
                other = ProjectScene.load(here, name)
                os.chdir(cwd)
                S.same(S.scene_state(other), S.scene_state(loaded), "scene loaded by absolute path")
            with open(os.path.join(path, name, name + ".xml"), "rb") as f:
                xml = f.read()
        finally:
            os.chdir(old)
            shutil.rmtree(base, ignore_errors=True)
        after = set(os.listdir(ctx.tmp)), set(os.listdir(os.path.join(ctx.tmp, "tmp")))
        if after[0] - top[0] or after[1] - top[1]:
            fail("saving left %r behind" % (after,))
        S.same(S.scene_state(scene), before, "the scene after saving it")
        eq({k: S.box_state(o.bounds) for k, o in scene.elements.items()}, bounds, "bounds after saving")
        if type(loaded) is not ProjectScene or type(loaded.elements) is not ProjectObjectDict:
            fail("load returned %r" % loaded)
        S.same(S.scene_state(loaded), before, what)
        return loaded, xml

    def check_bounds(scene, specs):
        eq(len(scene.elements), len(specs), "number of objects")
        for s in specs:
            o = scene.elements[s[1]]
            lo, hi = expected_bounds(s)
            if s[0] == "meshes":            # single precision data: exact as such
                eq((o.bounds.min_corner.astype(np.float32).tolist(), o.bounds.max_corner.astype(np.float32).tolist()),
                   (lo.astype(np.float32).tolist(), hi.astype(np.float32).tolist()), "bounds of the meshes")
                continue
            tol = 0 if s[0] != "voxels" else 1e-6 * (1 + np.abs(hi))
            if not (np.abs(o.bounds.min_corner - np.array(lo)) <= tol).all() or \
                    not (np.abs(o.bounds.max_corner - np.array(hi)) <= tol).all():
                fail("bounds of the loaded object are %s, expected %r %r" % (o.bounds, lo, hi))

    def case(c):
        typ, specs, st, kind, name, pr, rounds = c
        np.set_printoptions(**PRINT["default"])
        scene = S.make_scene(typ, specs, SETTINGS[st])
        keep = np.get_printoptions()
        try:
            if pr != "default":
                np.set_printoptions(**PRINT[pr])
            xmls = []
            cur = scene
            for _ in range(rounds):
                cur, xml = roundtrip(cur, kind, name)
                xmls.append(xml)
                np_keep = np.get_printoptions()
            want = dict(DEFAULT_SETTINGS) if SETTINGS[st] is None else SETTINGS[st]
            eq(cur.settings, want, "settings")
            check_bounds(cur, specs)
            for s in specs:
                o = cur.elements[s[1]]
                eq((o.id, o.category, o.score, o.evaluated), (s[1], s[2], s[5], s[6]), "fields")
                eq(o.symmetry, ObjectSymmetry(*S.SYM[s[4]]), "symmetry")
        finally:
            np.set_printoptions(**dict(keep, legacy=False))
        return (c[0], tuple((s[1:]) for s in specs), st, kind, name, pr)

    def spec(typ, id="1", cat="chair", pose="gen", sym="box", score=0.57, ev=False, shape=None):
        return (typ, id, cat, pose, sym, score, ev, shape or SHAPES[typ][0])

    # every field value with every other (boxes), pairwise-complete for the file-based tracks
    def singles():
        for id, cat, pose, sym, score, ev, sh in itertools.product(
                IDS[:3] if not ctx.thorough else IDS, CATS, S.POSES, S.SYM if ctx.thorough else ("none", "can", "ball"),
                SCORES, (True, False), SHAPES["bounding_box"]):
            yield ("bounding_box", (("bounding_box", id, cat, pose, sym, score, ev, sh),), "default", "abs", "p", "default", 1)
        alph = (IDS, CATS, tuple(S.POSES), tuple(S.SYM), SCORES, (True, False))
        for typ in ("voxels", "meshes"):
            for sh in SHAPES[typ]:
                base = ("1", "chair", "gen", "box", 0.57, False)
                seen = set()
                for i, j in itertools.combinations(range(6), 2):
                    if not ctx.thorough and j != i + 1 and (i, j) != (0, 5):
                        continue
                    for a, b in itertools.product(alph[i], alph[j]):
                        s = list(base)
                        s[i], s[j] = a, b
                        s = tuple(s)
                        if s not in seen:
                            seen.add(s)
                            yield (typ, ((typ,) + s + (sh,),), "default", "abs", "p", "default", 1)
    ctx.enum("fields", singles(), case)

    # flags and scores computed with numpy
    def numpy_values(c):
        typ, (sa, ea), (sb, eb) = c
        case((typ, (spec(typ, score=NPS[sa], ev=NPB[ea]), spec(typ, id="2", score=NPS[sb], ev=NPB[eb])), "default", "abs", "p", "default", 2))
        return c
    V = list(itertools.product(range(len(NPS)), range(len(NPB))))
    ctx.enum("numpy values", itertools.product(S.TYPES, V, ((0, 0), (1, 1), (2, 2))), numpy_values)

    def configs():
        for typ in S.TYPES:
            for st, kind, name, pr in itertools.product(SETTINGS, ("abs", "abs-new", "rel", "rel-dot", "rel-empty", "rel-up"),
                                                        NAMES, PRINT):
                if not ctx.thorough and typ != "bounding_box" and (st, pr) != ("default", "default") \
                        and (name, kind) not in (("p", "abs"), ("p", "rel"), ("a b", "abs-new")):
                    continue
                yield (typ, (spec(typ, id="b \u00e9"), spec(typ, id="2", pose="neg0", shape=SHAPES[typ][1])),
                       st, kind, name, pr, 1)
    ctx.enum("configurations", configs(), case)

    def multi():
        for typ in S.TYPES:
            for n in range(4 if not ctx.thorough else 5):
                for shs in itertools.product(SHAPES[typ], repeat=n):
                    yield (typ, tuple(spec(typ, id=("z", "a", "10", "2")[i], shape=sh, cat=CATS[i],
                                           pose=list(S.POSES)[i], score=SCORES[i]) for i, sh in enumerate(shs)),
                           "custom" if n % 2 else "default", "rel" if n % 2 else "abs", "p", "default", 3)
        n = 40 if not ctx.thorough else 300
        for typ in S.TYPES:
            yield (typ, tuple(spec(typ, id=str(i)) for i in range(n)), "default", "abs", "p", "default", 2)
    ctx.enum("objects-and-chains", multi(), case)

    # histories: edits interleaved with save+load (which replaces the scene)
    OPS = ("saveload", "save", "add1", "add2", "del1", "edit1", "settings")

    def history(h):
        typ = h[0]
        scene = S.make_scene(typ, ())
        model = {}
        settings = dict(DEFAULT_SETTINGS)
        for i, op in enumerate(h[1:]):
            if op == "saveload":
                scene, _ = roundtrip(scene, "abs", "p")
                check_bounds(scene, list(model.values()))
            elif op == "save":
                roundtrip(scene, "rel", "p")
            elif op in ("add1", "add2"):
                k = op[3:]
                model[k] = spec(typ, id=k, shape=SHAPES[typ][(i + int(k)) % 3], cat=CATS[i])
                scene.elements[k] = S.make_object(model[k])
            elif op == "del1":
                if "1" in model:
                    del model["1"], scene.elements["1"]
            elif op == "edit1":
                if "1" in model:
                    o = scene.elements["1"]
                    s = list(model["1"])
                    s[2], s[3], s[5], s[6] = CATS[2], "t", 2.5, True
                    model["1"] = tuple(s)
                    o.category, o.pose, o.score, o.evaluated = CATS[2], S.make_pose("t"), 2.5, True
            elif op == "settings":
                scene.settings["version"] = settings["version"] = "v%d" % i
            ctx.step()
            want = S.make_scene(typ, list(model.values()), settings)
            S.same(S.scene_state(scene), S.scene_state(want), "scene after %r" % (h[:i + 2],))
        return (typ, tuple(sorted(model.items())), tuple(sorted(settings.items())), h[-1] if len(h) > 1 else ""), None
    ctx.bfs("histories", S.TYPES, OPS, history, 4 if not ctx.thorough else 5, split=2)
