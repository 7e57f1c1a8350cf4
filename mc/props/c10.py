"""C10: RGB-D images in multi-page TIFF files."""
import itertools
import json
import os

import numpy as np

from mc import faults, tiff
from mc.core import fail, eq, raises
from sumo.images import rgbd_tiff
from sumo.images.multi_image_tiff import MultiImageTiff
from sumo.images.rgbd_360 import Rgbd360
from sumo.images.rgbdci_360 import Rgbdci360
from sumo.images.rgbd_tiff import MultiImagePageType as T

F32 = np.float32
EPS = 0.01
ORDER = (T.RGB, T.Depth, T.Category, T.Instance)
FILE_NAMES = {T.RGB: "rgb", T.Depth: "inv_depth", T.Category: "category", T.Instance: "instance"}


def rgb_image(h, w, k=0):
    n = np.arange(h * w * 3).reshape(h, w, 3)
    return ((n * 37 + n // 256 * 11 + k) % 256).astype(np.uint8)


def u16(h, w, k=0):
    return ((np.arange(h * w) * 257 * 3 + k * 1000 + 1) % 65536).astype(np.uint16).reshape(h, w)


def depth_image(h, w, k=0):
    d = (0.2 + 0.37 * np.arange(h * w) ** 1.5 + k).astype(F32).reshape(h, w)
    d.ravel()[1::5] = 0
    d.ravel()[3::7] = np.inf
    return d


def decode(codes, near):
    """Documented depth of 16-bit codes (float64)."""
    with np.errstate(divide="ignore"):
        return np.float64(F32(near)) * 65535 / codes.astype(np.float64)


def code_ok(codes, depth, near):
    n = np.float64(F32(near))
    with np.errstate(divide="ignore", invalid="ignore"):
        q = n * 65535 / depth.astype(np.float64)
        inside = (depth > n) & (np.abs(q - codes) <= 0.5 + EPS)
    return inside | ((depth > 0) & (depth <= n) & (codes == 65535)) | ((depth == 0) & (codes == 0)) | (np.isinf(depth) & (codes == 0))


def same_depth(got, want, what):
    if got.dtype != F32 or got.shape != want.shape:
        fail("%s: depth is %s %r, expected shape %r" % (what, got.dtype, got.shape, want.shape))
    g = got.astype(np.float64)
    with np.errstate(invalid="ignore"):
        ok = (np.isinf(g) & np.isinf(want) & (g > 0)) | (np.abs(g - want) <= 3e-7 * np.abs(want))
    if not ok.all():
        i = np.argwhere(~ok)[0]
        fail("%s: depth at %r is %r, expected %r" % (what, tuple(i), g[tuple(i)], want[tuple(i)]))


def exact(got, want, what):
    if got is None or got.dtype != want.dtype or got.shape != want.shape:
        fail("%s is %r, expected %s %r" % (what, None if got is None else (got.dtype, got.shape), want.dtype, want.shape))
    if (got != want).any():
        i = np.argwhere(got != want)[0]
        fail("%s at %r is %r, expected %r" % (what, tuple(i), got[tuple(i)], want[tuple(i)]))


def check_file(path, pm, near):
    """The file holds exactly the pages of pm.  Returns its codes."""
    pages = tiff.read(path)
    want = [t for t in ORDER if t in pm or (t == T.Depth and T.InverseDepth in pm)]
    eq([p["name"] for p in pages], [FILE_NAMES[t] for t in want], "names of the pages")
    meta = json.loads(pages[0]["desc"])
    if F32(meta["near"]) != F32(near) or meta["version"] != 1:
        fail("metadata %r, near %r" % (meta, near))
    codes = None
    for i, (t, p) in enumerate(zip(want, pages)):
        if t == T.Depth:
            codes = p["array"]
            if T.Depth in pm:
                if codes.dtype != np.uint16 or codes.shape != pm[t].shape or not code_ok(codes, pm[t], near).all():
                    fail("the file has inverse depths %r for %r" % (codes, pm[t]))
            else:
                exact(codes, pm[T.InverseDepth], "inverse depth in the file")
        else:
            exact(p["array"], pm[t], t + " in the file")
    return codes


def check_map(got, pm, codes, near, what="loaded"):
    eq(sorted(got), sorted(T.Depth if t == T.InverseDepth else t for t in pm), what + " pages")
    for t in pm:
        if t not in (T.Depth, T.InverseDepth):
            exact(got[t], pm[t], "%s %s" % (what, t))
    same_depth(got[T.Depth], decode(codes, near), what)


def lay(a, k):
    if k == "c":
        return a
    if k == "f":
        return np.asfortranarray(a)
    if k == "ro":
        b = a.copy()
        b.flags.writeable = False
        return b
    if k == "flip":
        return np.ascontiguousarray(a[::-1, ::-1])[::-1, ::-1]
    big = np.full((2 * a.shape[0] + 1, 3 * a.shape[1] + 2) + a.shape[2:], 3, dtype=a.dtype)
    v = big[:2 * a.shape[0]:2, :3 * a.shape[1]:3]
    v[...] = a
    return v


def page_map(pages, h, w, k=0, layout="c"):
    pm = {T.RGB: rgb_image(h, w, k), T.Depth: depth_image(h, w, k), T.InverseDepth: u16(h, w, k),
          T.Category: u16(h, w, k + 1), T.Instance: u16(h, w, k + 2)}
    return {t: lay(pm[t], layout) for t in pages}


SUBSETS = [tuple(x for x in (T.RGB, d) + extra) for d in (T.Depth, T.InverseDepth)
           for extra in ((), (T.Category,), (T.Instance,), (T.Category, T.Instance))]


def explore(ctx):
    path = os.path.join(ctx.tmp, "im.tif")

    def snap(pm):
        return {t: (a.shape, a.dtype, a.tobytes()) for t, a in pm.items()}

    def roundtrip(pm, near, api="map"):
        keep = snap(pm)
        kw = {} if near == 0.3 else {"near": near}
        if api == "map":
            rgbd_tiff.save(pm, path, **kw)
        elif api == "multi":
            MultiImageTiff(pm).save(path, **kw)
        elif api == "rgbd":
            Rgbd360(pm[T.RGB], pm[T.Depth]).save(path, **kw)
        else:
            Rgbdci360(pm[T.RGB], pm[T.Depth], pm[T.Category], pm[T.Instance]).save(path, **kw)
        if snap(pm) != keep:
            fail("saving changed the image")
        codes = check_file(path, pm, near)
        data = open(path, "rb").read()
        check_map(rgbd_tiff.load(path), pm, codes, near)
        m = MultiImageTiff.load(path)
        got = {t: a for t, a in ((T.RGB, m.rgb), (T.Depth, m.range), (T.Category, m.category), (T.Instance, m.instance)) if a is not None}
        check_map(got, pm, codes, near, "MultiImageTiff")
        r = Rgbd360.load(path)
        exact(r.rgb, pm[T.RGB], "Rgbd360 rgb")
        same_depth(r.range, decode(codes, near), "Rgbd360")
        if T.Category in pm and T.Instance in pm:
            r = Rgbdci360.load(path)
            exact(r.rgb, pm[T.RGB], "Rgbdci360 rgb")
            same_depth(r.range, decode(codes, near), "Rgbdci360")
            exact(r.category, pm[T.Category], "Rgbdci360 category")
            exact(r.instance, pm[T.Instance], "Rgbdci360 instance")
            r.rgb[...] = 0
        else:
            raises(Exception, Rgbdci360.load, path)
        if open(path, "rb").read() != data:
            fail("loading changed the file")
        ctx.step(5)
        return m, got

    # page subsets, shapes, layouts, near planes
    def pages(case):
        sub, h, w, near, layout, api = case
        pm = page_map(sub, h, w, h * w, layout)
        m, got = roundtrip(pm, near, api)
        # saving what was loaded gives the same image again (depth as decoded)
        got = {t: a.copy() for t, a in got.items()}
        rgbd_tiff.save(got, path, near=near)
        codes = check_file(path, got, near)
        check_map(rgbd_tiff.load(path), got, codes, near, "second")
        ctx.step(2)
        return case

    def page_cases():
        for sub in SUBSETS:
            for h, w in [(a, b) for a in range(1, 5) for b in range(1, 8)] + [(1, 300), (300, 1), (64, 384)]:
                yield (sub, h, w, 0.3, "c", "map")
            for near in (0.3, 1.0, 0.1, 2.5, 100.0, 1e-3, 0.12345, 1.0 / 3, 2.00000024, 1e-5, 12345.678, 3e-7, 1e10):
                yield (sub, 3, 5, near, "c", "map")
            for layout in ("f", "flip", "step"):
                yield (sub, 3, 5, 0.3, layout, "map")
                yield (sub, 2, 12, 1.0, layout, "multi")
            yield (sub, 5, 7, 0.3, "c", "multi")
            for near in (0.3, 1.0):
                if sub == (T.RGB, T.Depth):
                    for layout in ("c", "f", "step", "flip"):
                        yield (sub, 4, 24, near, layout, "rgbd")
                if sub == (T.RGB, T.Depth, T.Category, T.Instance):
                    for layout in ("c", "f", "step", "flip"):
                        yield (sub, 4, 24, near, layout, "rgbdci")
            for perm in itertools.permutations(sub):
                yield (perm, 2, 3, 0.3, "c", "map")
    ctx.enum("pages, sizes, layouts", page_cases(), pages)

    # different sizes per page
    def sizes(case):
        dims, = case
        pm = {}
        for t, (h, w) in zip((T.RGB, T.Depth, T.Category, T.Instance), dims):
            pm[t] = page_map((t,), h, w, 3)[t]
        roundtrip(pm, 0.3)
        return case
    ctx.enum("pages of different sizes", [(d,) for d in itertools.product(((1, 1), (2, 3), (3, 2), (40, 5)), repeat=4)], sizes)

    # more pixels in a row or column than 16 bits can count
    def long(case):
        h, w, sub, api = case
        pm = {t: a for t, a in page_map((T.RGB, T.Depth, T.Category, T.Instance), h, w, 3).items() if t in sub}
        roundtrip(pm, 0.3, api)
        return case
    ctx.enum("long rows and columns", (
        (h, w, s, api) for n in (255, 256, 257, 32767, 32768, 65535, 65536, 65537, 131080) for h, w in ((1, n), (n, 1), (2, n))
        for s, api in ((SUBSETS[0], "map"), (SUBSETS[0], "rgbd"), (SUBSETS[3], "map"), (SUBSETS[3], "rgbdci"))), long)

    # pages of one value only
    def uniform(case):
        kind, v, api, near = case
        h, w = 2, 12
        pm = page_map((T.RGB, T.Depth, T.Category, T.Instance), h, w, 3)
        if kind == "depth":
            pm[T.Depth][...] = v
        elif kind == "range":              # some pixels only
            pm[T.Depth][...] = np.inf
            pm[T.Depth][v // w % h, v % w] = 1.5
        elif kind == "all":
            pm[T.RGB][...] = v
            pm[T.Category][...] = v * 257
            pm[T.Instance][...] = v * 257
        else:
            pm[kind_of[kind]][...] = v
        if api == "rgbd":
            pm = {t: pm[t] for t in (T.RGB, T.Depth)}
        roundtrip(pm, near, api)
        return case
    kind_of = {"rgb": T.RGB, "category": T.Category, "instance": T.Instance}
    ctx.enum("pages of one value", (
        (kind, v, api, near) for api in ("map", "multi", "rgbd", "rgbdci") for near in (0.3, 1.0)
        for kind, vs in (("depth", (0.0, np.inf, 0.3, 0.1, 1.0, 5.0, 1e30)), ("range", tuple(range(24))), ("rgb", (0, 1, 128, 255)),
                         ("category", (0, 1, 255, 256, 65535)), ("instance", (0, 1, 255, 256, 65535)), ("all", (0, 1, 255)))
        for v in vs), uniform)

    # all values
    def values(case):
        kind, k = case
        h, w = 256, 256
        pm = page_map((T.RGB, T.InverseDepth), 1, 1)
        n = np.arange(65536)
        if kind == "rgb":          # every pair of neighbouring byte values, every channel
            a = np.stack([n % 256, n // 256, (n % 256 + n // 256 + k) % 256], -1).reshape(h, w, 3).astype(np.uint8)
            pm[T.RGB] = np.ascontiguousarray(np.roll(a, k, axis=2))
        elif kind == "codes":
            pm[T.InverseDepth] = np.roll(n, k * 91).astype(np.uint16).reshape(h, w)
        elif kind == "codes as depth":
            near = (0.3, 1.0, 2.5, 0.1)[k]
            d = decode(n.astype(np.uint16).reshape(h, w), near).astype(F32)
            pm = {T.RGB: rgb_image(1, 1), T.Depth: d}
            roundtrip(pm, near)
            c = tiff.read(path)[1]["array"].ravel()
            if (c != n).any():
                i = int(np.argmax(c != n))
                fail("depth %r of code %d is written as code %d" % (d.ravel()[i], i, c[i]))
            return case
        else:
            pm[kind] = np.roll(n, k * 77).astype(np.uint16).reshape(h, w)
        roundtrip(pm, 0.3)
        return case
    ctx.enum("all pixel values", [(kd, k) for kd in ("rgb", "codes", T.Category, T.Instance) for k in range(3)] +
             [("codes as depth", k) for k in range(4)], values)

    def depths(case):
        near, blk = case
        k = np.arange(blk * 4096 + 1, blk * 4096 + 4097).astype(np.float64)
        b = (np.float64(F32(near)) * 65535 / (k - 0.5)).astype(F32)       # code boundaries
        d = np.stack([np.nextafter(b, F32(0)), b, np.nextafter(b, F32(np.inf)), (b * F32(1.00001))])
        d = np.ascontiguousarray(d.reshape(64, -1))
        d.ravel()[:6] = (0, np.inf, 1e-30, 3e38, near, near / 2)
        roundtrip({T.RGB: rgb_image(2, 2), T.Depth: d}, near)
        return case
    ctx.enum("depths around code boundaries", [(n, b) for n in ((0.3, 1.0) if not ctx.thorough else (0.3, 1.0, 0.1, 2.5, 100.0, 1e-3)) for b in range(16)], depths)

    # files in older layouts, made here
    def legacy(case):
        names, bits, en, rps, deflate, order, desc, number, extra = case
        h, w = 4, 6
        rgb = rgb_image(h, w, 5)
        cat, ins = u16(h, w, 1), u16(h, w, 2)
        if bits == 8:
            inv = (np.arange(h * w) * 11 % 256).astype(np.uint8).reshape(h, w)
            inv.ravel()[3] = 255
        else:
            inv = u16(h, w, 9)
            inv.ravel()[:3] = (0, 1, 65535)
        nm = {"none": (None, None), "old": ("rgb", "depth"), "new": ("rgb", "inv_depth")}[names]
        pg = [(rgb, nm[0]), (inv, nm[1])]
        want = {T.RGB: rgb}
        if extra:
            pg += [(cat if extra != "8 bit" else (cat % 256).astype(np.uint8), "semantic" if extra == "semantic" else "category"), (ins, "instance")]
            want.update({T.Category: cat if extra != "8 bit" else cat % 256, T.Instance: ins})
        pg = [pg[i] for i in order if i < len(pg)]
        near = 1.0
        js = None
        if desc == "near":
            near = 0.7
            js = json.dumps({"version": 1, "near": 0.7})
        elif desc == "version":
            js = json.dumps({"version": 1})
        elif desc == "empty":
            js = "{}"
        tiff.write(path, [(a, n, js if i == 0 else None, (i, len(pg)) if number == "total" else (i, 0) if number == "index" else None)
                          for i, (a, n) in enumerate(pg)], en, rps, deflate)
        eq([p["array"].tolist() for p in tiff.read(path)], [p[0].tolist() for p in pg], "own reader")
        got = rgbd_tiff.load(path)
        eq(sorted(got), sorted(list(want) + [T.Depth]), "pages")
        for t in want:
            exact(got[t], want[t], t)
        if bits == 16:
            same_depth(got[T.Depth], decode(inv, near), "depth")
        else:
            d = got[T.Depth].astype(np.float64)
            with np.errstate(divide="ignore"):
                ok = np.where(inv == 0, np.isinf(d), np.abs(0.3 * 65535 / d - 0.3 * 65535 * inv / 255.0) <= 0.5 + 2 * EPS)
            if not ok.all():
                fail("8-bit inverse depths %r give %r" % (inv, d))
        r = Rgbd360.load(path)
        exact(r.rgb, rgb, "rgb")
        ctx.step(2)
        return case

    def legacy_cases():
        for names in ("none", "old", "new"):
            for bits in (8, 16):
                for en in "<>":
                    for rps in (None, 1, 3):
                        for deflate in (0, 1):
                            for desc in (None, "near", "version", "empty"):
                                for number in (None, "total", "index"):
                                    for order in ((0, 1), (1, 0)):
                                        yield (names, bits, en, rps, deflate, order, desc, number, None)
        for extra in ("category", "semantic", "8 bit"):
            for order in itertools.permutations(range(4)):
                for names in ("old", "new"):
                    for en in "<>":
                        yield (names, 16, en, None, 0, order, "near", "total", extra)
    ctx.enum("older files", legacy_cases(), legacy)

    # bad page maps are rejected, nothing is said to be written
    def bad(case):
        t, how = case
        pm = page_map((T.RGB, T.Depth, T.Category, T.Instance), 3, 4)
        if how == "missing":
            del pm[t]
        elif how == "renamed":
            pm["other"] = pm.pop(T.Category)
        elif how.startswith("dtype"):
            dt = how.split()[1]
            if pm[t].dtype == dt:
                return "same"
            pm[t] = pm[t].astype(dt)
        elif how == "ndim+":
            pm[t] = pm[t][..., None]
        elif how == "ndim-":
            pm[t] = np.ascontiguousarray(pm[t][0])
        elif how == "channels":
            pm[t] = np.ascontiguousarray(np.repeat(pm[t][..., None] if pm[t].ndim == 2 else pm[t][..., :1], 4, axis=2))
        elif how == "none":
            pm[t] = None
        elif how == "empty":
            pm[t] = pm[t][:0]
        elif how == "no columns":
            pm[t] = pm[t][:, :0]
        if os.path.exists(path):
            os.remove(path)
        if how == "missing" and t in (T.Category, T.Instance):
            roundtrip(pm, 0.3)
        else:
            raises(Exception, rgbd_tiff.save, pm, path)
            if os.path.exists(path):      # what is there is not taken for an image
                raises(Exception, rgbd_tiff.load, path)
        ctx.step()
        return case
    ctx.enum("images that do not fit", [(t, h) for t in ORDER for h in
                                        ["missing", "ndim+", "ndim-", "channels", "none", "empty", "no columns"] +
                                        ["dtype " + d for d in ("uint8", "int8", "uint16", "int16", "int32", "float32", "float64")]] +
             [("", "renamed")], bad)

    # every point at which the disk can be full
    def failing(case):
        sub, h, w, lim = case
        pm = page_map(sub, h, w, 2)
        if os.path.exists(path):
            os.remove(path)
        rgbd_tiff.save(pm, path)
        size = os.path.getsize(path)
        if lim == "dir":
            raises(Exception, rgbd_tiff.save, pm, os.path.join(ctx.tmp, "absent", "x.tif"))
            raises(Exception, rgbd_tiff.save, pm, ctx.tmp)
            fd = len(os.listdir("/proc/self/fd"))
            for _ in range(4):
                raises(Exception, rgbd_tiff.save, pm, os.path.join(ctx.tmp, "absent", "x.tif"))
                raises(Exception, rgbd_tiff.load, os.path.join(ctx.tmp, "absent", "x.tif"))
            eq(len(os.listdir("/proc/self/fd")), fd, "open files")
            return case
        if lim >= size:
            return "n/a"
        for pre in (False, True):
            if not pre:
                os.remove(path)
            fd = len(os.listdir("/proc/self/fd"))
            with faults.fsize_limit(lim):
                try:
                    rgbd_tiff.save(pm, path)
                except Exception:
                    pass
                else:
                    fail("a write that stopped after %d of %d bytes was not reported" % (lim, size))
            eq(len(os.listdir("/proc/self/fd")), fd, "open files after a failed write")
            rgbd_tiff.save(pm, path)
        roundtrip(pm, 0.3)
        ctx.step(4)
        return (case[:3], lim)
    step = 1 if ctx.thorough else 3
    ctx.enum("writes that stop", [(s, h, w, l) for s, h, w, n in (
        ((T.RGB, T.Depth), 2, 3, 800), ((T.RGB, T.Depth, T.Category, T.Instance), 3, 5, 1500), ((T.RGB, T.InverseDepth), 40, 60, 20000))
        for l in ["dir"] + list(range(0, n, step if n < 10000 else 17 * step))], failing)

    # histories: two files, images of different sizes over each other, failed saves in between
    IM = {"big": page_map(SUBSETS[3], 20, 30, 1), "small": page_map(SUBSETS[0], 2, 3, 2), "cat": page_map(SUBSETS[1], 5, 4, 3),
          "raw": page_map(SUBSETS[6], 7, 2, 4)}
    OPS = [("save", f, k) for f in "ab" for k in IM] + [("fail", "a", k) for k in ("small", "big")] + [
        ("load", "a"), ("copy", "a", "b"), ("bad", "a"), ("touch", "a")]

    def run(hist):
        paths = {f: os.path.join(ctx.tmp, "h_%s.tif" % f) for f in "ab"}
        for p in paths.values():
            if os.path.exists(p):
                os.remove(p)
        model = {"a": None, "b": None}

        def load_check(f):
            if model[f] == "?":
                try:
                    rgbd_tiff.load(paths[f])
                except Exception:
                    pass
                return None
            if model[f] is None:
                raises(Exception, rgbd_tiff.load, paths[f])
                return None
            pm, near = model[f]
            codes = check_file(paths[f], pm, near)
            got = rgbd_tiff.load(paths[f])
            check_map(got, pm, codes, near)
            return got
        for op in hist[1:]:
            ctx.step()
            f = op[1]
            if op[0] == "save":
                near = 0.3 if f == "a" else 1.0
                rgbd_tiff.save(IM[op[2]], paths[f], near)
                model[f] = (IM[op[2]], near)
            elif op[0] == "fail":
                with faults.fsize_limit(60):
                    raises(Exception, rgbd_tiff.save, IM[op[2]], paths[f])
                model[f] = "?"
            elif op[0] == "bad":
                pm = dict(IM["small"])
                del pm[T.RGB]
                raises(Exception, rgbd_tiff.save, pm, os.path.join(ctx.tmp, "h_bad.tif"))
            elif op[0] == "copy":
                got = load_check(f)
                if got is not None:
                    rgbd_tiff.save(got, paths[op[2]])
                    model[op[2]] = (got, 0.3)
            elif op[0] == "touch":
                got = load_check(f)
                if got is not None:
                    for a in got.values():
                        a[...] = 1
            for g in "ab":
                load_check(g)
        return hist, None
    ctx.bfs("histories of two files", ["start"], OPS, run, 3 if not ctx.thorough else 4)
