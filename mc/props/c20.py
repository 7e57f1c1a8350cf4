"""C20: category colours."""
import itertools
import os

import numpy as np

from mc.core import fail, raises
from sumo.base.colored_category import ColoredCategory

COLORS = ((0, 0, 0), (255, 255, 255), (1, 2, 3), (255, 0, 128))
NAMES = ("a", "b b", 'q"uo,te', "é中", "A", "", "1", "None", "wall ", " wall", "a;b", "False")
DTYPES = ("uint8", "uint16", "int32", "int64", "int8", "uint32", "uint64", "int16", ">i4", ">u2")
UNKNOWN = ("zz", "B", "a ", None, 0, (0, 0, 0), "category")


def quote(s):
    return '"%s"' % s.replace('"', '""') if any(c in s for c in ',"\r\n') else s


def write_csv(path, rows, eol="\n", cols=("id", "category", "is_evaluated", "color"), last_eol=True, ids=None):
    out = [",".join(cols)]
    for i, (n, c) in enumerate(rows):
        d = {"id": str(i if ids is None else ids[i]), "category": quote(n), "is_evaluated": "False" if i % 2 else "True",
             "color": ";".join(map(str, c)), "extra": "x"}
        out.append(",".join(d[k] for k in cols))
    with open(path, "w", encoding="utf-8", newline="") as f:
        f.write(eol.join(out) + (eol if last_eol else ""))


def images(n):
    """All images over ids 0..n-1 of a few shapes (n is small)."""
    for shape in ((0, 0), (1, 1), (1, 2), (2, 1), (2, 2), (0, 3)):
        for v in itertools.product(range(n), repeat=shape[0] * shape[1]):
            yield np.array(v, dtype=np.int64).reshape(shape)


def explore(ctx):
    path = os.path.join(ctx.tmp, "cat.csv")

    def check_lookup(cc, rows):
        n = len(rows)
        for i in list(range(-3, 0)) + list(range(n, n + 3)) + [2 ** 31, -2 ** 40, 255 + n, 65536 + n]:
            for f in (int, np.int64):
                raises(KeyError, cc.category_id_to_rgb, f(i))
        for i, (name, c) in enumerate(rows):
            for j in (i, np.int64(i), np.int32(i)) + ((np.uint8(i),) if i < 256 else ()):
                got = cc.category_id_to_rgb(j)
                if not isinstance(got, tuple) or got != c:
                    fail("color of id %r is %r, expected %r" % (j, got, c))
            got = cc.category_name_to_rgb(name)
            if not isinstance(got, tuple) or got != c:
                fail("color of name %r is %r, expected %r" % (name, got, c))
        names = set(r[0] for r in rows)
        for u in UNKNOWN + NAMES:
            if u not in names:
                raises(KeyError, cc.category_name_to_rgb, u)
        ctx.step(3 * n + 20)

    def check_lut(cc, rows):
        lut = cc.LUT
        if n_rows(lut) != len(rows) or (len(rows) and (lut.shape != (len(rows), 3) or lut.dtype != np.uint8)):
            fail("LUT has shape %r, type %s" % (lut.shape, lut.dtype))
        for i, (_, c) in enumerate(rows):
            if tuple(lut[i].tolist()) != c:
                fail("LUT row %d is %r, expected %r" % (i, lut[i], c))
        ctx.step()

    def n_rows(a):
        return a.shape[0]

    def check_image(cc, rows, im):
        keep = im.copy()
        out = cc.convert_to_rgb_im(im)
        if out.shape != im.shape + (3,) or (im.size and out.dtype != np.uint8):
            fail("converted image %r %s of %r" % (out.shape, out.dtype, im.shape))
        for ix in np.ndindex(im.shape):
            if tuple(out[ix].tolist()) != rows[int(im[ix])][1]:
                fail("pixel %r with id %d became %r" % (ix, im[ix], out[ix]))
        if (im != keep).any():
            fail("the category image was changed")
        out[...] = 77        # the result belongs to the caller
        ctx.step()

    # every table up to 3 rows over the colour and name alphabets (colours may repeat, names do not)
    def table(case):
        rows, eol, cols, le = case
        rows = [(n, tuple(c)) for n, c in rows]
        write_csv(path, rows, eol, cols, le)
        cc = ColoredCategory(path)
        check_lookup(cc, rows)
        check_lut(cc, rows)
        if rows:
            for im in images(len(rows)):
                check_image(cc, rows, im)
            for dt in DTYPES:
                im = np.array([[0, len(rows) - 1], [len(rows) - 1, 0], [0, 0]], dtype=dt)
                for v in (im, im.T, im[::-1], im[:, ::2], np.asfortranarray(im)):
                    check_image(cc, rows, v)
                n = len(rows)
                for bad in (n, n + 1, 127, 128, 255, 256, 256 + n - 1, 257, 32767, 32768, 65535, 65536, 65536 + n - 1, 2 ** 24, 2 ** 31 - 1,
                            2 ** 31, 2 ** 32 - 1, 2 ** 32, 2 ** 32 + n - 1, 2 ** 53 + 1, 2 ** 62):
                    if bad > np.iinfo(dt).max:
                        continue
                    for at in ((2, 1), (0, 0), (1, 0)):
                        im2 = im.copy()
                        im2[at] = bad
                        raises(IndexError, cc.convert_to_rgb_im, im2)
        check_lut(cc, rows)
        check_lookup(cc, rows)
        return (tuple(rows),)

    std = ("id", "category", "is_evaluated", "color")

    def tables():
        for n in range(4):
            for names in itertools.permutations(NAMES[:4], n):
                for cols in itertools.product(COLORS, repeat=n):
                    yield (tuple(zip(names, cols)), "\n", std, True)
        for names in itertools.permutations(NAMES, 2):
            yield (tuple(zip(names, COLORS[1:])), "\n", std, True)
        for eol in ("\n", "\r\n"):
            for le in (True, False):
                for cols in list(itertools.permutations(std)) + [std + ("extra",), ("extra",) + std]:
                    if cols[0] == "category" and len(cols) == 1:
                        continue
                    yield ((("w", (9, 8, 7)), ("floor", (250, 0, 1))), eol, cols, le)

    ctx.enum("every small table, lookup and image", tables(), table)

    # large tables, distinct colours, every id; ids in the file are ignored in favour of row numbers
    def large(case):
        n, ids = case
        rows = [("cat_%d" % i, ((i * 7) % 256, (i // 256 * 31 + 5) % 256, (i * 13 + 1) % 256)) for i in range(n)]
        write_csv(path, rows, ids={"row": None, "reversed": list(range(n))[::-1], "from 1": list(range(1, n + 1))}[ids])
        cc = ColoredCategory(path)
        check_lookup(cc, rows)
        check_lut(cc, rows)
        for dt in ("uint8", "uint16", "int32", "int64"):
            k = min(n, np.iinfo(dt).max + 1)
            check_image(cc, rows, np.arange(k, dtype=dt).reshape(1, -1))
            check_image(cc, rows, np.arange(k, dtype=dt)[::-1].reshape(-1, 1))
            if n <= np.iinfo(dt).max:
                raises(IndexError, cc.convert_to_rgb_im, np.array([[0, n]], dtype=dt))
        check_lookup(cc, rows)
        return case
    ctx.enum("large tables", itertools.product((1, 2, 10, 127, 128, 129, 255, 256, 257, 300, 1000), ("row", "reversed", "from 1")), large)

    # every order of calls, including failing ones, on one or two live objects
    R = ((("a", (0, 0, 0)), ("b", (255, 1, 2))), (("b", (3, 4, 5)),), ())
    OPS = ("lut0", "id0", "name0", "im0", "bad im0", "bad id0", "bad name0", "lut1", "im1", "new1", "lut2", "bad im2")

    def run(hist):
        ccs = []
        for k in range(3):
            p = os.path.join(ctx.tmp, "h%d.csv" % k)
            write_csv(p, R[k])
            ccs.append(ColoredCategory(p))
        for op in hist[1:]:
            k = int(op[-1])
            cc, rows = ccs[k], R[k]
            what = op[:-1]
            if what == "lut":
                check_lut(cc, rows)
            elif what in ("id", "name", "bad id", "bad name"):
                check_lookup(cc, rows)
            elif what == "im":
                check_image(cc, rows, np.array([[0, len(rows) - 1]], dtype=np.uint8))
            elif what == "bad im":
                raises(IndexError, cc.convert_to_rgb_im, np.array([[0, len(rows)]], dtype=np.uint8))
            else:
                p = os.path.join(ctx.tmp, "h%d.csv" % k)
                write_csv(p, R[0])
                ccs[k] = ColoredCategory(p)
                check_lookup(ccs[k], R[0])
                write_csv(p, R[k])
                ccs[k] = ColoredCategory(p)
            ctx.step()
        for cc, rows in zip(ccs, R):
            check_lookup(cc, rows)
            check_lut(cc, rows)
        return hist, None
    ctx.bfs("call orders", ["start"], OPS, run, 4 if ctx.thorough else 3)

    def shipped(case):
        import csv
        import glob
        n = 0
        for p in sorted(glob.glob("sumo/**/*.csv", recursive=True)):
            with open(p, newline="") as f:
                rd = csv.DictReader(f)
                if "color" not in (rd.fieldnames or ()):
                    continue
                rows = [(r["category"], tuple(int(x) for x in r["color"].split(";"))) for r in rd]
            cc = ColoredCategory(p)
            if len(set(r[0] for r in rows)) != len(rows):
                continue
            check_lookup(cc, rows)
            check_lut(cc, rows)
            n += 1
        raises(IOError, ColoredCategory, os.path.join(ctx.tmp, "absent.csv"))
        raises(IOError, ColoredCategory, os.path.join(ctx.tmp, "no", "dir.csv"))
        raises(IOError, ColoredCategory, "")
        return n
    ctx.enum("shipped tables and missing files", [0], shipped)
