"""C11: inverse-depth coding."""
import itertools

import numpy as np

from mc.core import fail, eq
from sumo.geometry import inverse_depth as ID

N16 = ("default", 0.3, 1.0, 0.1, 0.7, 2.5, 1e-3, 100.0)
F = np.float32
EPS = 0.01        # slack, in steps, for single-precision arithmetic


def near_of(x):
    return 0.3 if x == "default" else x


def explore(ctx):
    class Coder:
        def __init__(self, bits, near):
            self.bits, self.near = bits, near
            self.max = 65535 if bits == 16 else 255
            self.n64 = float(F(near_of(near)))
            self.kw = () if near == "default" else (near,)
            self.dt = np.uint16 if bits == 16 else np.uint8
            e, d, em, dm = ((ID.inverse_depth_of_depth, ID.depth_of_inverse_depth, ID.inverse_depth_map_of_depth_image,
                             ID.depth_image_of_inverse_depth_map) if bits == 16 else
                            (ID.uint8_inverse_depth_of_depth, ID.depth_of_uint8_inverse_depth,
                             ID.uint8_inverse_depth_map_of_depth_image, ID.depth_image_of_uint8_inverse_depth_map))
            kw = self.kw
            self.enc = lambda x: e(x, *kw)
            self.dec = lambda x: d(x, *kw)
            self.encm = lambda x: em(x, *kw)
            self.decm = lambda x: dm(x, *kw)

        def check_depths(self, depths):
            """depths: increasing float32 array, all > 0.  Checks the codes of all of them."""
            img = np.ascontiguousarray(depths.reshape(1, -1))
            keep = img.copy()
            codes = self.encm(img)
            if codes.dtype != self.dt or codes.shape != img.shape:
                fail("codes have type %s, shape %r" % (codes.dtype, codes.shape))
            if img.tobytes() != keep.tobytes():
                fail("the depth image was changed")
            c = codes[0].astype(np.int64)
            q = np.float64(self.n64 * self.max) / depths.astype(np.float64)
            if (np.diff(c) > 0).any():
                i = int(np.argmax(np.diff(c) > 0))
                fail("a larger depth has a larger code: %r -> %d, %r -> %d" % (depths[i], c[i], depths[i + 1], c[i + 1]))
            inr = depths.astype(np.float64) > self.n64
            bad = inr & (np.abs(q - c) > 0.5 + EPS)
            bad |= ~inr & (c != self.max)
            if bad.any():
                i = int(np.argmax(bad))
                fail("depth %r has code %d, exact value %.4f (near %r)" % (depths[i], c[i], q[i], self.near))
            for i in range(0, len(depths), max(1, len(depths) // 64)):
                eq(self.enc(float(depths[i])), int(c[i]), "scalar and image codes of %r" % depths[i])
            ctx.step(len(depths))

    coders = [(b, n) for b in (16, 8) for n in N16]
    NB = {16: 256, 8: 16}

    def codes(case):
        """All codes of one block: decode, re-encode; depths around every code boundary."""
        bits, near, blk = case
        c = Coder(bits, near)
        size = (c.max + 1) // NB[bits]
        ks = np.arange(blk * size, (blk + 1) * size)
        img = np.ascontiguousarray(ks.reshape(-1, 4).astype(c.dt))
        keep = img.copy()
        d = c.decm(img)
        if d.dtype != F or d.shape != img.shape or (img != keep).any():
            fail("decoded image %s %r, or the codes were changed" % (d.dtype, d.shape))
        d = d.ravel()
        with np.errstate(divide="ignore"):
            ref = c.n64 * c.max / ks.astype(np.float64)
        for k, x, r in zip(ks, d, ref):
            if k == 0:
                if not (np.isinf(x) and x > 0):
                    fail("code 0 decodes to %r" % x)
            elif not abs(float(x) - r) <= 3e-7 * r:
                fail("code %d decodes to %r, expected %r" % (k, x, r))
        back = c.encm(np.ascontiguousarray(d.reshape(img.shape)))
        if (back.ravel() != ks).any():
            i = int(np.argmax(back.ravel() != ks))
            fail("code %d decodes to %r which has code %d" % (ks[i], d[i], back.ravel()[i]))
        fin = d[1:] if blk == 0 else d
        if (np.diff(fin) >= 0).any():
            fail("decoding is not strictly decreasing")
        for k in ks[:: max(1, size // 16)]:
            v = c.dec(int(k))
            w = d[k - ks[0]]
            if not (v == w or abs(v - w) < 1e-6 * w):
                fail("scalar and image depth of code %d: %r %r" % (k, v, w))
        # around every boundary between codes k and k-1, and at the code itself
        k = ks[ks > 0].astype(np.float64)
        pts = np.concatenate([c.n64 * c.max / (k - 0.5), c.n64 * c.max / k])
        if blk == NB[bits] - 1:
            pts = np.concatenate([pts, [c.n64, c.n64 / 2, c.n64 / 1e6]])
        if blk == 0:
            pts = np.concatenate([pts, [c.n64 * c.max * 1e3, 1e30]])
        pts = pts.astype(F)
        allp = [pts]
        up = dn = pts
        for _ in range(3):
            up, dn = np.nextafter(up, F(np.inf)), np.nextafter(dn, F(0))
            allp += [up, dn]
        for f in (0.999, 1.001):
            allp.append((pts * F(f)).astype(F))
        c.check_depths(np.unique(np.concatenate(allp)))
        return case
    ctx.enum("codes", ((b, n, i) for b, n in coders for i in range(NB[b])), codes)

    def special(case):
        bits, near, name, val = case
        c = Coder(bits, near)
        v = {"zero": 0.0, "neg-zero": -0.0, "inf": float("inf"), "tiny": 1e-30, "denormal": 1e-42, "huge": 3e38}[name]
        want = {"zero": 0, "neg-zero": 0, "inf": 0, "tiny": c.max, "denormal": c.max, "huge": 0}[name]
        eq(c.enc(v), want, "code of %r" % v)
        eq(c.encm(np.array([[v]], dtype=F)).tolist(), [[want]], "image code of %r" % v)
        if name == "zero":
            x = c.dec(0)
            if not (np.isinf(x) and x > 0):
                fail("code 0 decodes to %r" % x)
            eq(c.enc(x), 0, "code of the decoded 0")
        ctx.step(3)
        return case
    ctx.enum("special", ((b, n, s, 0) for b, n in coders for s in ("zero", "neg-zero", "inf", "tiny", "denormal", "huge")),
             special)

    def legacy(case):
        """8-bit codes with their own near plane, to default 16-bit codes."""
        near, = case
        kw = () if near == "default" else (near,)
        n = float(near_of(near))
        ks = np.arange(256, dtype=np.uint8).reshape(16, 16)
        keep = ks.copy()
        m = ID.uint16_of_uint8_inverse_depth_map(ks, *kw)
        if m.dtype != np.uint16 or m.shape != (16, 16) or (ks != keep).any():
            fail("legacy image: %s %r" % (m.dtype, m.shape))
        last = -1
        for k in range(256):
            v = ID.inverse_depth_from_uint8(k, *kw)
            eq(int(m[k // 16, k % 16]), v, "image and scalar legacy code %d" % k)
            q = 0.3 * 65535 * k / (n * 255) if k else 0.0
            want = min(q, 65535)
            if not abs(v - want) <= 0.5 + EPS:
                fail("8-bit code %d (near %r) became %d, expected %.3f" % (k, n, v, want))
            if k == 0 and v != 0:
                fail("unknown depth became %d" % v)
            if v < last:
                fail("legacy codes are not monotone at %d" % k)
            last = v
            # same depth up to the 16-bit step
            if 0 < k and v < 65535:
                d8, d16 = ID.depth_of_uint8_inverse_depth(k, *kw), ID.depth_of_inverse_depth(v)
                if not abs(1 / d8 - 1 / d16) <= (0.5 + EPS) / (0.3 * 65535):
                    fail("8-bit code %d has depth %r, its 16-bit code %r" % (k, d8, d16))
            ctx.step()
        return case
    ctx.enum("legacy", ((n,) for n in N16), legacy)

    SH = [(h, w) for h in range(4) for w in range(4)] + [(1, 7), (7, 1), (5, 3)]
    LAY = ("c", "fortran", "slice", "reversed")

    def layout(a, kind):
        if kind == "fortran":
            return np.asfortranarray(a)
        if kind == "slice":
            b = np.full((a.shape[0] * 2, a.shape[1] * 3), 9, dtype=a.dtype)
            b[::2, 1::3] = a
            return b[::2, 1::3]
        if kind == "reversed":
            return np.ascontiguousarray(a[::-1, ::-1])[::-1, ::-1]
        return np.ascontiguousarray(a)

    def images(case):
        bits, near, (h, w), lay = case
        c = Coder(bits, near)
        n = np.arange(h * w, dtype=np.float64)
        depth = (c.n64 * (0.5 + n * 0.37)).astype(F)
        if h * w > 2:
            depth[1] = 0
        depth = depth.reshape(h, w)
        d = layout(depth, lay)
        got = c.encm(d)
        eq(got.shape, (h, w), "shape")
        eq(got.tolist(), [[c.enc(float(x)) for x in row] for row in depth], "image codes")
        if (d != depth).any():
            fail("the depth image was changed")
        code = ((n * 7919 + 5) % (c.max + 1)).astype(c.dt).reshape(h, w)
        k = layout(code, lay)
        got = c.decm(k)
        eq(got.shape, (h, w), "shape")
        want = [[c.dec(int(x)) for x in row] for row in code]
        if not np.allclose(got, np.array(want, dtype=F).reshape(h, w), rtol=1e-6, atol=0):
            fail("image depths %r, expected %r" % (got, want))
        if (k != code).any():
            fail("the code image was changed")
        if bits == 8:
            kw = c.kw
            got = ID.uint16_of_uint8_inverse_depth_map(k, *kw)
            eq(got.tolist(), [[ID.inverse_depth_from_uint8(int(x), *kw) for x in row] for row in code], "legacy image")
        ctx.step(3)
        return case
    ctx.enum("images", itertools.product((16, 8), ("default", 1.0), SH, LAY), images)

    if ctx.thorough:
        def dense(case):
            """Every float32 depth with the given exponent block."""
            bits, near, blk = case
            c = Coder(bits, near)
            lo = np.frombuffer(F(c.n64 * 0.75).tobytes(), dtype=np.uint32)[0]
            u = np.arange(lo + blk * 65536, lo + (blk + 1) * 65536, dtype=np.uint32)
            c.check_depths(u.view(F))
            return case
        ctx.enum("all-floats", ((b, "default", i) for b in (16, 8) for i in range(128 * 20)), dense)
