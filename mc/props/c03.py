"""C03: object symmetry."""
import copy
import itertools
import pickle
import xml.etree.ElementTree as ET

from mc.core import fail, raises, eq
from sumo.semantic.object_symmetry import ObjectSymmetry, SymmetryType

NAMES = ("none", "twoFold", "fourFold", "cylindrical", "spherical")
BAD = ("None", "threeFold", "", "TWOFOLD", " twoFold")


def spec_valid(t):
    """The nine documented rules."""
    c = sorted(t)
    n = t.count("none")
    if n == 3:
        return True                                             # 1
    if n == 2:
        o = [x for x in t if x != "none"][0]
        return o in ("twoFold", "fourFold", "cylindrical")      # 2 3 7
    if n == 1:
        return False
    return c in (sorted(("twoFold", "twoFold", "fourFold")),    # 4
                 ["fourFold"] * 3, ["twoFold"] * 3,             # 5 6
                 sorted(("cylindrical", "twoFold", "twoFold")),  # 8
                 ["spherical"] * 3)                             # 9


def val(s):
    return SymmetryType[s] if s in NAMES else {"None": None, "": 0}.get(s, s)


def axes(o):
    return (o.x_symmetry.name, o.y_symmetry.name, o.z_symmetry.name)


VALID = [t for t in itertools.product(NAMES, repeat=3) if spec_valid(t)]


def check_obj(ctx, o, t):
    if not isinstance(o, ObjectSymmetry):
        fail("expected an ObjectSymmetry for %r, got %r" % (t, o))
    eq(axes(o), tuple(t), "axes")
    e = o.to_xml()
    eq(e.tag, "symmetry", "tag")
    eq([(c.tag, c.text) for c in e], list(zip("xyz", t)), "document")
    eq(axes(o), tuple(t), "axes after encoding")
    p = ObjectSymmetry.from_xml(ET.fromstring(ET.tostring(e)))
    eq(axes(p), tuple(t), "axes after round trip")
    ctx.step(3)
    if not (p == o) or (p != o):
        fail("round trip of %r is not equal to the original" % (t,))
    for q in (copy.deepcopy(o), copy.copy(o), pickle.loads(pickle.dumps(o))):
        eq(axes(q), tuple(t), "copy")
        if not (q == o) or (q != o):
            fail("copy differs")
    for ax in ("x_symmetry", "y_symmetry", "z_symmetry"):
        raises(AttributeError, setattr, o, ax, SymmetryType.none)
    eq(axes(o), tuple(t), "axes after rejected assignment")
    st = str(o)
    eq(st, "x_symmetry: %s, y_symmetry: %s, z_symmetry: %s" % tuple(t), "text form")


def build_doc(tags):
    e = ET.Element("symmetry")
    for tag, text in tags:
        c = ET.SubElement(e, tag)
        c.text = text
    return e


def explore(ctx):
    def construct(case):
        t = case
        ok = all(x in NAMES for x in t) and spec_valid(t)
        ctx.step()
        eq(bool(ObjectSymmetry.is_valid(*[val(x) for x in t])), ok, "is_valid")
        if ok:
            check_obj(ctx, ObjectSymmetry(*[val(x) for x in t]), t)
        else:
            raises(ValueError, ObjectSymmetry, *[val(x) for x in t])
        return (ok, t if ok else None)
    ctx.enum("construct", itertools.product(NAMES + ("None", "threeFold"), repeat=3), construct)

    def defaults(case):
        # keywords left out default to none
        kw = {k: SymmetryType[v] for k, v in case}
        full = tuple(dict(case).get(k, "none") for k in ("x_symmetry", "y_symmetry", "z_symmetry"))
        if spec_valid(full):
            check_obj(ctx, ObjectSymmetry(**kw), full)
        else:
            raises(ValueError, ObjectSymmetry, **kw)
        return full
    dcases = []
    for r in range(4):
        for ks in itertools.combinations(("x_symmetry", "y_symmetry", "z_symmetry"), r):
            for vs in itertools.product(NAMES, repeat=r):
                dcases.append(tuple(zip(ks, vs)))
    ctx.enum("defaults", dcases, defaults)

    def strings(case):
        ok = len(case) == 3 and all(x in NAMES for x in case) and spec_valid(case)
        ctx.step()
        for arg in (list(case), tuple(case)):
            if ok:
                check_obj(ctx, ObjectSymmetry.from_strings(arg), case)
            else:
                raises(ValueError, ObjectSymmetry.from_strings, arg)
        return (ok, case if ok else len(case))
    sc = list(itertools.product(NAMES + BAD, repeat=3))
    for k in (0, 1, 2, 4):
        sc += list(itertools.product(("none", "twoFold", "threeFold"), repeat=k))
    ctx.enum("strings", sc, strings)

    def document(case):
        root, tags = case
        d = {}
        for tag, text in tags:
            d[tag] = text
        got = tuple(d.get(a) for a in "xyz")
        ok = root == "symmetry" and all(x in NAMES for x in got) and spec_valid(got)
        e = build_doc(tags)
        e.tag = root
        before = ET.tostring(e)
        ctx.step()
        if ok:
            check_obj(ctx, ObjectSymmetry.from_xml(e), got)
        else:
            raises(RuntimeError, ObjectSymmetry.from_xml, e)
        eq(ET.tostring(e), before, "document was modified")
        return (ok, got if ok else None)

    def docs():
        for t in itertools.product(NAMES + ("bad", None), repeat=3):
            yield ("symmetry", tuple(zip("xyz", t)))
            yield ("Symmetry", tuple(zip("xyz", t)))
        for t in VALID:
            full = tuple(zip("xyz", t))
            for perm in itertools.permutations(full):
                yield ("symmetry", perm)
            for r in range(3):
                for part in itertools.combinations(full, r):
                    yield ("symmetry", part)
            for pos in range(4):
                yield ("symmetry", full[:pos] + (("w", "twoFold"),) + full[pos:])
            for a in "xyz":         # a tag repeated with the same text
                yield ("symmetry", full + ((a, t["xyz".index(a)]),))
    ctx.enum("document", docs(), document)

    def pair(case):
        a, b = case
        oa = ObjectSymmetry(*[val(x) for x in a])
        ob = ObjectSymmetry(*[val(x) for x in b])
        same = a == b
        ctx.step(2)
        eq(oa == ob, same, "==")
        eq(oa != ob, not same, "!=")
        return (same, a, b)
    ctx.enum("pair", itertools.product(VALID, repeat=2), pair)

    def example(case):
        check_obj(ctx, ObjectSymmetry.example(), ("twoFold", "cylindrical", "twoFold"))
        check_obj(ctx, ObjectSymmetry(), ("none",) * 3)
        return 0
    ctx.enum("example", [()], example)
