"""C02: interrupted and failing saves, at every file-system call and at every byte."""
import errno
import itertools
import os
import shutil
import tempfile

from mc.core import fail
from mc import faults
from mc import scenes as S
from sumo.base.vector import Vector3f
from sumo.semantic.project_scene import ProjectScene
from sumo.threedee.gltf_model import GltfModel
from sumo.threedee.voxel_grid import VoxelGrid

ONE = {"bounding_box": "odd", "voxels": "line", "meshes": "mixed"}
TWO = {"bounding_box": "flat", "voxels": "far", "meshes": "two"}
CUSTOM = {"version": "é", "categories_id": "a <b>", "categories_url": "u"}
ERRORS = {"create": (errno.ENOSPC, errno.EACCES, errno.EMFILE, errno.EEXIST), "mkdir": (errno.ENOSPC, errno.EACCES, errno.EROFS),
          "write": (errno.ENOSPC, errno.EIO), "rename": (errno.EACCES, errno.ENOSPC), "truncate": (errno.EIO, errno.EFBIG),
          "read": (errno.EIO,), "open": (errno.EMFILE, errno.EIO), "remove": (errno.EACCES,), "close": (errno.EIO,), "opendir": (errno.EMFILE,)}


def specs(typ, n):
    return ((typ, "1", "chair", "gen2", "box", 0.5, True, ONE[typ]),
            (typ, "b é", "", "t", "none", -1, False, TWO[typ]))[:n]


def tree(d):
    """Everything below d, link targets and contents included."""
    out = []
    for a, ds, fs in os.walk(d):
        for n in sorted(ds + fs):
            p = os.path.join(a, n)
            rel = os.path.relpath(p, d)
            if os.path.islink(p):
                out.append((rel, "link", os.readlink(p)))
            elif os.path.isdir(p):
                out.append((rel, "dir", ""))
            else:
                with open(p, "rb") as f:
                    out.append((rel, "file", f.read()))
    return tuple(sorted(out))


def explore(ctx):
    tempfile.gettempdir()
    sf = faults.SysFaults(ctx.tmp)
    tmpdir = os.path.join(ctx.tmp, "tmp")
    prefix = ctx.tmp + "/"
    fresh = itertools.count()

    def clear(d):
        for n in os.listdir(d):
            p = os.path.join(d, n)
            if os.path.isdir(p) and not os.path.islink(p):
                shutil.rmtree(p)
            else:
                os.remove(p)

    # -- what is saved: (kind, ...) -> (save(base, name), load(base, name) -> state, state)
    def subject(what):
        kind = what[0]
        if kind == "scene":
            _, typ, n, custom, rel = what
            sc = S.make_scene(typ, specs(typ, n), CUSTOM if custom else None)

            def save(base, name):
                if rel:
                    os.chdir(base)
                    sc.save("", name)
                else:
                    sc.save(base, name)
            return save, (lambda base, name: S.scene_state(ProjectScene.load(base, name))), (lambda: S.scene_state(sc))
        if kind == "glb":
            m = S.make_model(what[1])
            return ((lambda base, name: m.save_as_glb(os.path.join(base, name + ".glb"))),
                    (lambda base, name: S.model_state(GltfModel.load_from_glb(os.path.join(base, name + ".glb")))),
                    (lambda: S.model_state(m)))
        if kind == "gltf":
            m = S.make_model(what[1])
            return ((lambda base, name: m.save_as_gltf(sub(base, name), "m")),
                    (lambda base, name: S.model_state(GltfModel.load_from_gltf(os.path.join(base, name, "m.gltf")))),
                    (lambda: S.model_state(m)))
        if kind == "h5":
            v = S.make_voxels(what[1])
            return ((lambda base, name: v.save(os.path.join(base, name + ".h5"))),
                    (lambda base, name: S.voxel_state(VoxelGrid.from_file(os.path.join(base, name + ".h5")))),
                    (lambda: S.voxel_state(v)))
        o = S.make_object(specs(what[1], 1)[0])

        def load(base, name):
            d = os.path.join(base, name)
            if what[1] == "voxels":
                return S.voxel_state(VoxelGrid.from_file(os.path.join(d, "1.h5")))
            return S.model_state(GltfModel.load_from_glb(os.path.join(d, "1.glb")))
        return ((lambda base, name: o.save(sub(base, name)) and None), load,
                (lambda: S.voxel_state(o.voxels) if what[1] == "voxels" else S.model_state(o.meshes)))

    def sub(base, name):
        d = os.path.join(base, name)
        assert os.path.isdir(d)
        return d

    subjects = {}
    oldscene = S.make_scene("bounding_box", specs("bounding_box", 1))

    def get(what):
        if what not in subjects:
            save, load, state = subject(what)
            subjects[what] = (save, load, state, state())
        return subjects[what]

    def prepare(what):
        base = os.path.join(ctx.tmp, "b%d" % next(fresh))
        os.mkdir(base)
        oldscene.save(base, "old")
        if what[0] in ("gltf", "object"):
            os.mkdir(os.path.join(base, "new"))
            os.mkdir(os.path.join(base, "again"))
        return base

    recorded = {}

    def events(what):
        """The file-system calls of an undisturbed save, made once per worker."""
        if what not in recorded:
            base = prepare(what)
            save = get(what)[0]
            _, out, ev = sf.run(lambda: save(base, "new") and None, prefix, want_events=True)
            shutil.rmtree(base)
            if out[0] != "ok":
                fail("an undisturbed save of %r failed: %r" % (what, out))
            recorded[what] = ev
        return recorded[what]

    def outcome(what, base, name, must=False):
        """complete or refused; fails on anything else"""
        _, load, _, state = get(what)
        try:
            got = load(base, name)
        except Exception as e:
            if must:
                fail("the save reported success, but loading fails: %s: %s" % (type(e).__name__, e))
            return "refused"
        if got != state:
            fail("%s loads as something else than what was saved: %s" % (
                "a save that reported success" if must else "what an unfinished save left", S.diff(got, state)))
        return "complete"

    def run(case):
        """One save with one fault; returns what came of it."""
        what, k, action, arg = case
        ev = events(what)
        kind = ev[k][0] if k < len(ev) else "none"
        base = prepare(what)
        old = tree(os.path.join(base, "old"))
        save, load, state, st0 = get(what)
        cwd = os.getcwd()

        def after(out):
            if what[0] == "scene" and what[4]:
                if os.getcwd() != base:
                    return "the current folder is now %s" % os.getcwd()
            elif os.getcwd() != cwd:
                return "the current folder is now %s" % os.getcwd()
            left = os.listdir(tmpdir)
            if left and kind not in ("remove", "opendir", "close"):   # they could not be removed
                return "temporary files are left: %r" % left
            if state() != st0:
                return "the object being saved changed"
            try:
                if what[0] == "scene":
                    os.mkdir(os.path.join(base, "cwd"))
                    os.chdir(os.path.join(base, "cwd")) if not what[4] else None
                save(base, "again")
            except Exception as e:
                return "saving elsewhere after that fails: %s: %s" % (type(e).__name__, e)
            if os.listdir(tmpdir) != left:
                return "temporary files are left by the next save"
            return None
        try:
            ctx.step()
            crashed, out, _ = sf.run(lambda: save(base, "new") and None, prefix, target=k,
                                     action=action, arg=arg if action in ("crash-in-write", "short") else 0,
                                     err=arg if action.startswith("fail") else 0, after=after)
            if tree(os.path.join(base, "old")) != old:
                fail("another scene was changed")
            if crashed:
                if not action.startswith("crash"):
                    fail("the process ended")
                return what, kind, action, outcome(what, base, "new")
            if out[-1]:
                fail(out[-1] + " (%r)" % (out,))
            r = outcome(what, base, "new", must=out[0] == "ok")
            outcome(what, base, "again", must=True)
            return what, kind, action, arg, out[0], r, k
        finally:
            clear(tmpdir)
            shutil.rmtree(base)

    scenes = [("scene", t, n, c, r) for t in S.TYPES for n, c, r in ((0, 0, 0), (1, 0, 0), (1, 1, 1), (2, 1, 0))]
    others = [("glb", "tex"), ("glb", "mixed"), ("gltf", "tex"), ("gltf", "two"), ("h5", "line"), ("h5", "one"),
              ("object", "meshes"), ("object", "voxels")]
    everything = scenes + others

    def points(whats):
        for w in whats:
            for k, e in enumerate(events(w)):
                yield w, k, e

    ctx.enum("crash before a call", ((w, k, "crash", 0) for w, k, e in points(scenes)), run)

    def cuts(n, dense):
        if dense or n <= 64:
            return range(1, n)
        return sorted(set(range(1, 33)) | set(range(n - 32, n)) | set(range(33, n, 13)))

    # the scene index, byte by byte; the files of the objects at fewer places
    ctx.enum("crash inside a write", ((w, k, "crash-in-write", n) for w, k, e in points(scenes) if e[0] == "write"
                                      for n in cuts(e[1], ctx.thorough or is_index(events(w), k))), run)
    ctx.enum("failing call", ((w, k, "fail", err) for w, k, e in points(everything) for err in ERRORS.get(e[0], ())), run)
    ctx.enum("failing from a call on", ((w, k, "fail-all", err) for w, k, e in points(everything)
                                        if e[0] in ("write", "create", "mkdir", "rename", "truncate")
                                        for err in ERRORS[e[0]][:1 if e[0] == "create" else None]), run)
    ctx.enum("short writes", ((w, k, "short", n) for w, k, e in points(everything) if e[0] == "write" and e[1] > 1
                              for n in sorted({1, e[1] // 2, e[1] - 1})), run)

    # two faults in one save: every pair of failing and crashing calls is covered by "from a call
    # on" only for equal errors; a limit on the size of files cuts all of them at once
    def limited(case):
        what, n = case
        base = prepare(what)
        save, _, state, st0 = get(what)
        cwd = os.getcwd()
        try:
            ctx.step()
            ok = True
            with faults.fsize_limit(n):
                try:
                    save(base, "new")
                except Exception:
                    ok = False
            if what[0] == "scene" and what[4]:
                os.chdir(cwd)
            if os.getcwd() != cwd:
                fail("the current folder is now %s" % os.getcwd())
            if os.listdir(tmpdir):
                fail("temporary files are left")
            if state() != st0:
                fail("the object being saved changed")
            r = outcome(what, base, "new", must=ok)
            save(base, "again")
            if what[0] == "scene" and what[4]:
                os.chdir(cwd)
            outcome(what, base, "again", must=True)
            return what, ok, r
        finally:
            clear(tmpdir)
            shutil.rmtree(base)

    def sizes(what):
        base = prepare(what)
        cwd = os.getcwd()
        get(what)[0](base, "new")
        os.chdir(cwd)
        n = max(len(x[2]) for x in tree(base) if x[1] == "file" and not x[0].startswith("old"))
        shutil.rmtree(base)
        return n
    ctx.enum("limits on the size of files", ((w, n) for w in everything for n in
                                             (lambda m: range(m + 2) if ctx.thorough or m < 1500 else
                                              sorted(set(range(0, m, 7)) | set(range(m - 8, m + 2))))(sizes(w))), limited)

    # -- names that exist already ------------------------------------------------
    EXIST = ("empty folder", "scene", "folder with a file", "file", "link to a folder", "dangling link", "link to a scene",
             "unfinished scene", "read-only folder")

    def existing(case):
        typ, n, kind, rel = case
        base = os.path.join(ctx.tmp, "e%d" % next(fresh))
        os.mkdir(base)
        oldscene.save(base, "old")
        p = os.path.join(base, "new")
        if kind == "empty folder":
            os.mkdir(p)
        elif kind == "read-only folder":
            os.mkdir(p, 0o555)
        elif kind == "scene":
            oldscene.save(base, "new")
        elif kind == "folder with a file":
            os.mkdir(p)
            with open(os.path.join(p, "1.glb"), "w") as f:
                f.write("x")
        elif kind == "file":
            with open(p, "w") as f:
                f.write("y")
        elif kind == "link to a folder":
            os.mkdir(os.path.join(base, "d"))
            os.symlink("d", p)
        elif kind == "dangling link":
            os.symlink("nowhere", p)
        elif kind == "link to a scene":
            os.symlink("old", p)
        else:
            oldscene.save(base, "new")
            os.truncate(os.path.join(p, "new.xml"), 40)
        sc = S.make_scene(typ, specs(typ, n))
        st = S.scene_state(sc)
        before = tree(base)
        cwd = os.getcwd()
        try:
            ctx.step()
            try:
                if rel:
                    os.chdir(base)
                sc.save("." if rel else base, "new")
                fail("a scene was saved to a name that exists (%s)" % kind)
            except OSError as e:
                pass
            finally:
                os.chdir(cwd)
            if tree(base) != before:
                fail("saving to a name that exists (%s) changed the disk" % kind)
            if os.listdir(tmpdir):
                fail("temporary files are left")
            if S.scene_state(sc) != st:
                fail("the scene changed")
            return case
        finally:
            shutil.rmtree(base)
    ctx.enum("names that exist", itertools.product(S.TYPES, (0, 1, 2), EXIST, (False, True)), existing)

    # -- interrupted saves one after the other --------------------------------------
    def chain(case):
        what, ks = case
        base = prepare(what)
        save = get(what)[0]
        res = []
        try:
            for i, k in enumerate(ks):
                name = "new"
                ctx.step()
                before = tree(os.path.join(base, name)) if i else None
                crashed, out, _ = sf.run(lambda: save(base, name) and None, prefix, target=k, action="crash")
                there = before is not None and os.path.exists(os.path.join(base, name))
                if not crashed and out[0] == "ok" and i and had:
                    fail("a save over what an interrupted save left reported success")
                if i and had and tree(os.path.join(base, name)) != before:
                    fail("a save over what an interrupted save left changed it")
                had = os.path.exists(os.path.join(base, name))
                clear(tmpdir)
                res.append((crashed, outcome(what, base, name)))
                if crashed is False and out[0] == "ok" and res[-1][1] != "complete":
                    fail("a save reported success, but the scene is not complete")
            return what, tuple(res)
        finally:
            clear(tmpdir)
            shutil.rmtree(base)

    def chains():
        for w in [("scene", t, 1, 0, 0) for t in S.TYPES]:
            n = len(events(w))
            for k in range(n + 1):
                for j in sorted({0, 1, n // 2, n - 1, n}) if not ctx.thorough else range(n + 1):
                    yield w, (k, j)
    ctx.enum("interrupted twice", chains(), chain)


def is_index(ev, k):
    """Whether write k goes to the scene index: the last file created before it is one."""
    for kind, _, name in reversed(ev[:k]):
        if kind == "create":
            return name.endswith(".xml") or ".xml" in name
    return False
