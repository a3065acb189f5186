"""C17: which symmetry descriptors and element tables can exist."""
import itertools
import xml.etree.ElementTree as ET
import numpy as np
from core import scenario
import gen
import projects as P

from sumo.semantic.object_symmetry import ObjectSymmetry, SymmetryType
from sumo.semantic.project_object import ProjectObject
from sumo.semantic.project_object_dict import ProjectObjectDict

ALL = list(itertools.product(P.KINDS, repeat=3))


def to_elem(kinds, order="xyz"):
    e = ET.Element("symmetry")
    for a in order:
        c = ET.SubElement(e, a)
        c.text = kinds["xyz".index(a)]
    return e


@scenario(quick=125, thorough=125)
def all_combinations(rng, ctx):
    """Case i decides combination i through every way in."""
    i = ctx_index(ctx)
    kinds = ALL[i]
    ok = P.rule(kinds)
    t = [SymmetryType[k] for k in kinds]
    ctx.case(kinds, sample=kinds)
    ctx.count("valid" if ok else "invalid")
    ctx.check(bool(ObjectSymmetry.is_valid(*t)) == ok, "is-valid", kinds=kinds)
    order = "".join("xyz"[j] for j in rng.permutation(3))
    ways = [("constructor", lambda: ObjectSymmetry(*t), ValueError),
            ("keywords", lambda: ObjectSymmetry(z_symmetry=t[2], x_symmetry=t[0], y_symmetry=t[1]), ValueError),
            ("from-strings", lambda: ObjectSymmetry.from_strings(list(kinds)), ValueError),
            ("from-xml", lambda: ObjectSymmetry.from_xml(to_elem(kinds, order)), RuntimeError)]
    made = []
    for name, f, exc in ways:
        if ok:
            s = f()
            ctx.check(P.kinds_of(s) == kinds, "made-" + name, got=P.kinds_of(s), expected=kinds)
            made.append(s)
        else:
            ctx.raises(exc, f, "accepted-" + name, str(kinds))
    if not ok:
        return
    s = made[0]
    for o in made:
        ctx.check(s == o and not (s != o), "equal")
    back = ObjectSymmetry.from_xml(ET.fromstring(ET.tostring(s.to_xml())))
    ctx.check(P.kinds_of(back) == kinds, "xml-round-trip", got=P.kinds_of(back))
    e = s.to_xml()
    ctx.check(e.tag == "symmetry" and [(c.tag, c.text) for c in e] == list(zip("xyz", kinds)), "xml-form")
    # the text names each axis' kind
    txt = str(s)
    ctx.check(txt == "x_symmetry: %s, y_symmetry: %s, z_symmetry: %s" % kinds, "text", got=txt)
    for other in P.VALID:
        o = P.sym(other)
        ctx.check((s == o) == (other == kinds) and (s != o) == (other != kinds), "equality", a=kinds, b=other)
    for name in ("x_symmetry", "y_symmetry", "z_symmetry"):
        ctx.raises(AttributeError, lambda: setattr(s, name, SymmetryType.none), "writable")


def ctx_index(ctx):
    return ctx.index % len(ALL)


@scenario(quick=400)
def texts_outside(rng, ctx):
    """Unknown words, wrong counts, missing axes and other tags are refused."""
    kinds = list(gen.pick(rng, P.VALID))
    kind = gen.pick(rng, ["word", "count", "missing", "tag", "none"])
    bad = gen.pick(rng, ["", "None", "two", "twofold", "TWOFOLD", " none", "none ", "0", "spherical2", "fourFold\n"])
    ctx.case(kind, kinds, bad, int(rng.integers(1 << 30)))
    if kind == "word":
        kinds[rng.integers(3)] = bad
        ctx.raises(ValueError, lambda: ObjectSymmetry.from_strings(kinds), "word-strings", str(kinds))
        ctx.raises(RuntimeError, lambda: ObjectSymmetry.from_xml(to_elem(kinds)), "word-xml", str(kinds))
    elif kind == "count":
        w = [gen.pick(rng, P.KINDS) for _ in range(int(gen.pick(rng, [0, 1, 2, 4, 5])))]
        ctx.raises(ValueError, lambda: ObjectSymmetry.from_strings(w), "count-strings", str(w))
        # a wrong count with unknown words that would leave three
        w = kinds + [bad]
        ctx.raises(ValueError, lambda: ObjectSymmetry.from_strings(w), "count-strings", str(w))
    elif kind == "missing":
        e = to_elem(kinds)
        e.remove(e.find(gen.pick(rng, ["x", "y", "z"])))
        ctx.raises(RuntimeError, lambda: ObjectSymmetry.from_xml(e), "missing-xml")
    elif kind == "tag":
        e = to_elem(kinds)
        e.tag = gen.pick(rng, ["symmetries", "Symmetry", "pose", "x"])
        ctx.raises(RuntimeError, lambda: ObjectSymmetry.from_xml(e), "tag-xml")
    else:
        t = [SymmetryType[k] for k in kinds]
        t[rng.integers(3)] = gen.pick(rng, [None, "none", 0, 1, "twoFold", 7])
        ctx.raises(ValueError, lambda: ObjectSymmetry(*t), "not-a-symmetry", str(t))
        ctx.check(not ObjectSymmetry.is_valid(*t), "is-valid-not-a-symmetry")


@scenario(quick=300)
def element_tables(rng, ctx):
    """Only scene objects get in by item assignment; a refused assignment changes nothing."""
    d, model = ProjectObjectDict(), {}
    log = []
    for _ in range(int(rng.integers(1, 12))):
        k = gen.pick(rng, ["a", "b", "", 3, ("t", 1), "c"])
        op = rng.integers(5)
        log.append((str(k), int(op)))
        if op <= 1:
            o = P.obj(rng, gen.pick(rng, ["bounding_box", "voxels"]), "x")
            d[k] = o
            model[k] = o
        elif op <= 3:
            bad = gen.pick(rng, [None, 1, "obj", {}, [], object(), ProjectObject, ProjectObjectDict(), np.zeros(3)])

            def put():
                d[k] = bad
            ctx.raises((AssertionError, TypeError, ValueError), put, "table-accepted", repr(bad))
            ctx.count("refused")
        elif k in model:
            del d[k]
            del model[k]
        else:
            ctx.raises(KeyError, lambda: d[k], "missing-key")
        ctx.check(list(d) == list(model) and all(d[x] is model[x] for x in model), "table-contents")
        ctx.check(all(isinstance(x, ProjectObject) for x in d.values()), "table-types")
    ctx.case(log)
