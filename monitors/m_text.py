"""C02: geometric values survive their text encodings (XML, JSON), whatever the process's print options."""
import json
import xml.etree.ElementTree as ET
import numpy as np
from core import scenario
import gen

from sumo.geometry.pose3 import Pose3
from sumo.geometry.rot3 import Rot3
from sumo.threedee.box_3d import Box3d

OPTIONS = [dict(), dict(precision=2), dict(precision=3, suppress=True), dict(linewidth=20),
           dict(threshold=2, edgeitems=1), dict(sign="+"), dict(floatmode="fixed", precision=4),
           dict(formatter={"float": lambda x: "%.1f" % x}), dict(precision=17)]


def vec(rng):
    """Any finite values, subnormal to 1e300, of very different magnitudes."""
    if rng.integers(3):
        return gen.vec3(rng)
    v = rng.normal(size=3) * 10.0 ** rng.uniform(-323, 300, size=3)
    return v * np.array([1, gen.pick(rng, [0.0, 1.0, -1.0]), 1])


def through_text(elem):
    """Serialise and parse again, as a file would."""
    return ET.fromstring(ET.tostring(elem, encoding="unicode"))


def tol(a, b):
    """Every component is recovered as it was."""
    return np.array_equal(np.asarray(a, float), np.asarray(b, float))


@scenario(quick=3000)
def xml_roundtrip(rng, ctx):
    R, t = gen.rotation(rng), vec(rng)
    opt = gen.pick(rng, OPTIONS)
    c1, c2 = vec(rng), vec(rng)
    f32 = bool(rng.integers(2))
    if f32 and np.abs(np.r_[c1, c2]).max() < 1e38:
        c1, c2 = c1.astype(np.float32), c2.astype(np.float32)
    ctx.case(R, t, c1, c2, sorted(opt), sample=dict(R=R, t=t, c1=c1, c2=c2, printoptions=sorted(opt)))
    with np.printoptions(**opt):
        e_pose = through_text(Pose3(Rot3(R), t).to_xml())
        e_rot = through_text(Rot3(R).to_xml())
        e_box = through_text(Box3d(c1, c2).to_xml())
    p = Pose3.from_xml(e_pose)
    ctx.check(tol(p.t, t), "pose-xml-translation", got=p.t, want=t, opt=opt)
    ctx.check(tol(p.R.matrix(), R), "pose-xml-rotation", got=p.R.matrix(), want=R, opt=opt)
    r = Rot3.from_xml(e_rot)
    ctx.check(tol(r.matrix(), R), "rot-xml", got=r.matrix(), want=R, opt=opt)
    b = Box3d.from_xml(e_box)
    lo, hi = np.minimum(c1, c2), np.maximum(c1, c2)
    ctx.check(tol(b.min_corner, lo) and tol(b.max_corner, hi), "box-xml", got=str(b), lo=lo, hi=hi, opt=opt)
    # one more cycle changes nothing any more
    q = Pose3.from_xml(through_text(p.to_xml()))
    ctx.check(tol(q.matrix34(), p.matrix34()), "pose-xml-stable")
    # nothing the caller handed over changed
    ctx.check(tol(Box3d(c1, c2).min_corner, lo), "box-args")


@scenario(quick=2000)
def json_roundtrip(rng, ctx):
    R, t = gen.rotation(rng), vec(rng)
    ctx.case(R, t, sample=dict(R=R, t=t))
    p = Pose3(Rot3(R), t)
    with np.printoptions(**gen.pick(rng, OPTIONS)):
        s = json.dumps(p.to_json())
        sr = json.dumps(Rot3(R).to_json())
        ss = json.dumps(p.to_surreal())
    q = Pose3.from_json(json.loads(s))
    ctx.equal(q.t, t, "pose-json-translation")
    ctx.equal(q.R.matrix(), R, "pose-json-rotation")
    ctx.equal(Rot3.from_json(json.loads(sr)).matrix(), R, "rot-json")
    u = Pose3.from_surreal(json.loads(ss))
    ctx.close(u.t, t, "surreal-translation", atol=0)
    ctx.close(u.R.matrix(), R, "surreal-rotation", atol=1e-8)
    # the document itself: columns X, Y, Z; quaternion with w last
    d = json.loads(s)
    for i, k in enumerate("XYZ"):
        ctx.equal(np.array(d["Rotation"][k]), R[:, i], "json-columns")
    xyzw = json.loads(ss)["QuaternionXYZW"]
    ctx.close(gen.quat_to_matrix([xyzw[3]] + xyzw[:3]), R, "surreal-order", atol=1e-8)
    w = rng.normal(size=4)
    v = Pose3.from_surreal({"QuaternionXYZW": [float(x) for x in w], "Translation": [float(x) for x in t]})
    ctx.close(v.R.matrix(), gen.quat_to_matrix([w[3], w[0], w[1], w[2]]), "surreal-parse", atol=1e-10)


def _drop(e, rng):
    """Remove, rename or spoil one child; returns a description."""
    kids = list(e)
    k = kids[int(rng.integers(len(kids)))]
    how = int(rng.integers(4))
    if how == 0:
        e.remove(k)
        return "removed " + k.tag
    if how == 1:
        old, k.tag = k.tag, "bogus"
        return "renamed " + old
    if how == 3:
        other = kids[(kids.index(k) + 1) % len(kids)]
        if len(kids) > 1 and not len(k) and not len(other):
            old, k.tag = k.tag, other.tag
            return "%s given twice, %s missing" % (k.tag, old)
    e.tag = "bogus"
    return "root renamed"


@scenario(quick=800)
def malformed_xml_is_refused(rng, ctx):
    R, t, c = gen.rotation(rng), gen.vec3(rng), gen.vec3(rng)
    kind = int(rng.integers(4))
    if kind == 0:
        e, f, exc = Pose3(Rot3(R), t).to_xml(), Pose3.from_xml, (RuntimeError, ValueError)
    elif kind == 1:
        e, f, exc = Rot3(R).to_xml(), Rot3.from_xml, ValueError
    elif kind == 2:
        e, f, exc = Box3d(t, c).to_xml(), Box3d.from_xml, RuntimeError
    else:  # wrong number of components
        which = int(rng.integers(3))
        txt = gen.pick(rng, ["1, 2", "1, 2, 3, 4", "1", "", "1, 2, 3 foo", "1, x, 3", "x, 2, 3", "1, 2, 3; 4",
                             "1, 2, 3 4", "1,, 3", "1, 2, 3,", "one, two, three", "1, 2,"])
        if which == 0:
            e, f, exc = Pose3(Rot3(R), t).to_xml(), Pose3.from_xml, (RuntimeError, ValueError)
            e.find("translation").text = txt
        elif which == 1:
            e, f, exc = Box3d(t, c).to_xml(), Box3d.from_xml, (RuntimeError, ValueError)
            e.find(gen.pick(rng, ["corner1", "corner2"])).text = txt
        else:
            e, f, exc = Rot3(R).to_xml(), Rot3.from_xml, ValueError
            e.find(gen.pick(rng, ["c1", "c2", "c3"])).text = txt
        ctx.case(R, t, which, txt)
        ctx.raises(exc, lambda: f(e), "malformed-accepted", "wrong component count", xml=ET.tostring(e))
        return
    what = _drop(e, rng)
    ctx.case(kind, what, R, t)
    ctx.raises(exc, lambda: f(e), "malformed-accepted", what, xml=ET.tostring(e))


@scenario(quick=600)
def malformed_json_is_refused(rng, ctx):
    """Missing keys, wrong lengths and non-numbers: ValueError, never a pose of something else."""
    R, t = gen.rotation(rng), gen.vec3(rng)
    kind = gen.pick(rng, ["rot", "pose", "surreal"])
    doc = json.loads(json.dumps({"rot": Rot3(R).to_json, "pose": Pose3(Rot3(R), t).to_json,
                                 "surreal": Pose3(Rot3(R), t).to_surreal}[kind]()))
    read = {"rot": Rot3.from_json, "pose": Pose3.from_json, "surreal": Pose3.from_surreal}[kind]
    where = doc["Rotation"] if kind == "pose" and rng.integers(2) else doc
    name = gen.pick(rng, sorted(where))
    how = gen.pick(rng, ["missing", "short", "long", "text", "none"])
    if how == "missing":
        del where[name]
    elif how == "none":
        where[name] = None
    elif not isinstance(where[name], list):
        where[name] = [1.0, 2.0]
    elif how == "short":
        where[name] = where[name][:-1]
    elif how == "long":
        where[name] = where[name] + [1.0]
    else:
        where[name] = ["x"] + where[name][1:]
    ctx.case(kind, how, name, R, t, sample=dict(kind=kind, how=how, field=name))
    ctx.count("malformed_json_" + how)
    ctx.raises(ValueError if kind != "surreal" else Exception, lambda: read(doc), "malformed-json-accepted",
               "%s of %s" % (how, name), doc=doc)
