"""C14: saving and loading project scenes.  C15: conversion.  C16: moving scenes."""
import hashlib
import os
import re
import shutil
import xml.etree.ElementTree as ET
import h5py
import numpy as np
from core import scenario
import gen
import projects as P
import shapes

from sumo.geometry.pose3 import Pose3
from sumo.geometry.rot3 import Rot3
from sumo.semantic.object_symmetry import ObjectSymmetry
from sumo.semantic.project_converter import ProjectConverter
from sumo.semantic.project_object import ProjectObject
from sumo.semantic.project_object_dict import ProjectObjectDict
from sumo.semantic.project_scene import ProjectScene


def tree(d):
    out = {}
    for r, ds, fs in os.walk(d):
        for x in ds:
            out[os.path.relpath(os.path.join(r, x), d) + "/"] = None
        for x in fs:
            p = os.path.join(r, x)
            out[os.path.relpath(p, d)] = hashlib.sha1(open(p, "rb").read()).hexdigest()
    return out


def stored_bounds(want):
    """What a scene's file has as bounds: those of the shape."""
    for o in want["elements"].values():
        if o["voxels"] is not None:
            c, h = o["voxels"]["centers"], 0.5 * o["voxels"]["size"]
            o["bounds"] = c.min(axis=0) - h, c.max(axis=0) + h
        elif o["meshes"] is not None:
            o["bounds"] = shapes.bounds(o["meshes"])


def same_bounds(ctx, got, want, key):
    for k, o in want["elements"].items():
        a, b = got["elements"][k]["bounds"], o["bounds"]
        ctx.check(a is not None, key + "-missing")
        tol = 0 if o["voxels"] is None else 1e-9
        for x, y in zip(a, b):
            ctx.close(x, y, key, atol=tol, rtol=tol, track=o["track"])


# -- C14 -----------------------------------------------------------------------------

def tells_apart(rng, ctx, mine, theirs):
    """The comparison of elements reports a difference in any one attribute."""
    other = ProjectObjectDict()
    changed = gen.pick(rng, list(theirs))
    kind = gen.pick(rng, ["key", "missing", "id", "category", "score", "evaluated", "symmetry", "translation", "rotation"])
    for k, o in theirs.items():
        if k == changed:
            if kind == "missing":
                continue
            c = dict(id=o.id, pose=o.pose, category=o.category, symmetry=o.symmetry, score=o.score, evaluated=o.evaluated)
            if kind == "id":
                c["id"] = o.id + "'"
            elif kind == "category":
                c["category"] = o.category + "s"
            elif kind == "score":
                c["score"] = o.score + 1 + abs(o.score) if np.isfinite(o.score) else 0.0
            elif kind == "evaluated":
                c["evaluated"] = not o.evaluated
            elif kind == "symmetry":
                c["symmetry"] = P.sym(gen.pick(rng, [v for v in P.VALID if P.sym(v) != o.symmetry]))
            elif kind == "translation":
                c["pose"] = Pose3(o.pose.R, np.array(o.pose.t) + 1 + np.abs(o.pose.t).max())
            elif kind == "rotation":
                c["pose"] = Pose3(Rot3.AxisAngle(np.array([0.0, 0.6, 0.8]), 1.0) * o.pose.R, np.array(o.pose.t))
            o = ProjectObject(project_type=o.project_type, bounds=o.bounds, voxels=o.voxels, meshes=o.meshes, **c)
        other[k + "+" if k == changed and kind == "key" else k] = o
    ctx.check(not mine.almost_equal(other) and not other.almost_equal(mine), "almost-equal-with-different-" + kind)
    ctx.count("told_apart")


@scenario(quick=600)
def save_and_load(rng, ctx):
    s = P.scene(rng, own_bounds=True)
    before = P.scene_state(s)
    d = ctx.tmp()
    name = gen.pick(rng, ["p", P.text(rng, filename=True)])
    ctx.case(repr(before))
    ctx.count("saved_" + s.project_type)
    s.save(d, name)
    P.same_scene(ctx, P.scene_state(s), before, "save-changed-scene")
    files = set(os.listdir(os.path.join(d, name)))
    ext = {"bounding_box": None, "voxels": ".h5", "meshes": ".glb"}[s.project_type]
    ctx.check(files == {name + ".xml"} | ({i + ext for i in s.elements} if ext else set()), "files", got=sorted(files))
    ctx.check(os.listdir(d) == [name], "files-beside-project", got=os.listdir(d))
    # an existing project is never overwritten
    snap = tree(d)
    other = s if rng.integers(2) else P.scene(rng)
    ctx.raises(OSError, lambda: other.save(d, name), "overwrite-accepted")
    ctx.check(tree(d) == snap, "refused-save-changed-files")
    want = before
    got = ProjectScene.load(d, name)
    ctx.check(isinstance(got, ProjectScene) and isinstance(got.elements, ProjectObjectDict), "loaded-type")
    stored_bounds(want)
    g = P.scene_state(got)
    P.same_scene(ctx, g, want, "loaded", skip=("bounds",))
    same_bounds(ctx, g, want, "loaded-bounds")
    ctx.check(got.elements.almost_equal(s.elements) and s.elements.almost_equal(got.elements), "loaded-not-almost-equal")
    if len(s.elements):
        tells_apart(rng, ctx, got.elements, s.elements)
    for k in want["elements"]:
        ctx.check(got.elements[k].symmetry == s.elements[k].symmetry, "loaded-symmetry-not-equal")
    # the file is what other software expects: well-formed XML with the documented structure
    root = ET.parse(os.path.join(d, name, name + ".xml")).getroot()
    ctx.check(root.tag == "scene" and root.findtext("project_type") == s.project_type, "xml-header")
    if "version" in want["settings"]:
        ctx.equal(root.findtext("version"), want["settings"]["version"], "xml-version")
    ctx.equal([e.findtext("id") for e in root.findall("elements/element")], list(s.elements), "xml-elements")
    # a second generation is the same project
    if rng.integers(3) == 0:
        got.save(d, name + "2")
        h = P.scene_state(ProjectScene.load(d, name + "2"))
        P.same_scene(ctx, h, g, "second-generation", skip=("bounds",))
        same_bounds(ctx, h, want, "second-generation-bounds")


@scenario(quick=200)
def existing_targets(rng, ctx):
    """Anything that is already there, also a file or an empty directory, is kept."""
    d = ctx.tmp()
    s = P.scene(rng, n=1)
    kind = gen.pick(rng, ["file", "dir", "full", "deep"])
    p = os.path.join(d, "x")
    if kind == "file":
        open(p, "w").write("keep")
    else:
        os.makedirs(p)
        if kind == "full":
            open(os.path.join(p, "x.xml"), "w").write("keep")
    snap = tree(d)
    ctx.case(kind, repr(P.scene_state(s)))
    if kind == "deep":  # missing parents are made
        s.save(os.path.join(d, "a", "b"), "c")
        ctx.check(len(ProjectScene.load(os.path.join(d, "a", "b"), "c").elements) == 1, "deep")
        return
    ctx.raises(OSError, lambda: s.save(d, "x"), "existing-" + kind)
    ctx.check(tree(d) == snap, "existing-changed")


@scenario(quick=150)
def clashing_ids(rng, ctx):
    """Objects that cannot be told apart on disk, or would lie outside of the project, are refused."""
    track = gen.pick(rng, P.TRACKS)
    s = P.scene(rng, track, n=int(rng.integers(1, 4)))
    d = ctx.tmp()
    P.scene(rng, track, n=1).save(d, "other")
    kind = gen.pick(rng, ["same-id", "outside"]) if track != "bounding_box" else "same-id"
    if kind == "same-id":
        s.elements["another key"] = P.obj(rng, track, gen.pick(rng, [e.id for e in s.elements.values()]))
    else:
        bad = gen.pick(rng, ["../new", "../other/new", "sub/new", "../other/0", os.path.join(d, "other", "x")])
        s.elements[bad] = P.obj(rng, track, bad)
    snap = tree(d)
    ctx.case(kind, repr(P.scene_state(s)))
    ctx.count("clash_" + kind)
    ctx.raises((ValueError, OSError), lambda: s.save(d, "p"), "accepted-" + kind)
    ctx.check(tree(d) == snap, "refused-save-left-files:" + kind, got=sorted(set(tree(d)) - set(snap)))


DAMAGES = ["no-dir", "no-xml", "not-xml", "truncated", "root", "no-type", "bad-type", "no-id", "empty-id",
           "no-shape-file", "bad-shape-file", "bad-symmetry"]


@scenario(quick=500)
def damaged_projects(rng, ctx):
    s = P.scene(rng, n=int(rng.integers(1, 4)))
    d = ctx.tmp()
    s.save(d, "p")
    f = os.path.join(d, "p", "p.xml")
    xml = open(f, encoding="utf-8").read()
    kind = gen.pick(rng, DAMAGES)
    key = gen.pick(rng, list(s.elements))
    ext = {"bounding_box": None, "voxels": ".h5", "meshes": ".glb"}[s.project_type]
    root = ET.fromstring(xml.encode("utf-8"))
    el = gen.pick(rng, root.findall("elements/element"))
    exc = ValueError
    if kind == "no-dir":
        exc = IOError
        shutil.rmtree(os.path.join(d, "p"))
    elif kind == "no-xml":
        exc = IOError
        os.unlink(f)
    elif kind == "not-xml":
        xml = gen.pick(rng, ["", "hello", "<scene>", "<scene></element>", "<scene><a></scene>", "\0", "{}"])
    elif kind == "truncated":
        n = len(xml.rstrip())
        xml = xml[:int(rng.integers(0, n))]
    elif kind == "root":
        root.tag = gen.pick(rng, ["scenes", "element", "Scene"])
    elif kind == "no-type":
        root.remove(root.find("project_type"))
    elif kind == "bad-type":
        root.find("project_type").text = gen.pick(rng, ["mesh", "Meshes", "bounding box", "", None, "voxel", " meshes"])
    elif kind == "no-id":
        el.remove(el.find("id"))
    elif kind == "empty-id":
        el.find("id").text = None
    elif kind == "no-shape-file":
        exc = IOError
        if ext is None:
            return
        os.unlink(os.path.join(d, "p", key + ext))
    elif kind == "bad-shape-file":
        exc = IOError
        if ext is None:
            return
        p = os.path.join(d, "p", key + ext)
        b = open(p, "rb").read()
        # note: cut off in the first half, where the headers and tables are
        open(p, "wb").write(gen.pick(rng, [b"", b"garbage" * 30, b[:len(b) // 2], b[:int(rng.integers(0, 40))]]))
    elif kind == "bad-symmetry":
        exc = (ValueError, RuntimeError)
        y = el.find("symmetry")
        if rng.integers(2):
            y.find(gen.pick(rng, ["x", "y", "z"])).text = gen.pick(rng, ["", "fivefold", "TWOFOLD", None])
        else:
            for c in y:
                c.text = "twoFold"
            y.find(gen.pick(rng, ["x", "y", "z"])).text = gen.pick(rng, ["none", "spherical"])
    if kind in ("root", "no-type", "bad-type", "no-id", "empty-id", "bad-symmetry"):
        xml = ET.tostring(root, encoding="unicode")
    if kind not in ("no-dir", "no-xml"):
        open(f, "w", encoding="utf-8").write(xml)
    ctx.case(kind, xml if kind not in ("no-shape-file", "bad-shape-file") else key, s.project_type)
    ctx.count("damage_" + kind)
    ctx.raises(exc, lambda: ProjectScene.load(d, "p"), "accepted:" + kind, "damage " + kind, xml=xml[:600])


@scenario(quick=150)
def foreign_files(rng, ctx):
    """Files by others: other order of tags, unknown tags, comments, missing optional parts get the defaults."""
    s = P.scene(rng, "bounding_box", n=int(rng.integers(1, 4)))
    want = P.scene_state(s)
    d = ctx.tmp()
    s.save(d, "p")
    f = os.path.join(d, "p", "p.xml")
    root = ET.parse(f).getroot()
    for e in root.findall("elements/element"):
        o = want["elements"][e.findtext("id")]
        for tag, field, default in (("pose", None, None), ("category", "category", "unknown"),
                                    ("symmetry", "symmetry", ("none",) * 3), ("detectionScore", "score", -1.0),
                                    ("evaluated", "evaluated", True), ("bounds", "bounds", None)):
            if rng.integers(4) == 0:
                e.remove(e.find(tag))
                if tag == "pose":
                    o["R"], o["t"] = np.eye(3), np.zeros(3)
                else:
                    o[field] = default
        if e.find("evaluated") is not None and rng.integers(2):
            e.find("evaluated").text = e.find("evaluated").text.lower()
        kids = list(e)
        for k in kids:
            e.remove(k)
        if rng.integers(2):
            kids.append(ET.Element("comment_by_others"))
        for k in [kids[i] for i in rng.permutation(len(kids))]:
            e.append(k)
    kids = list(root)
    for k in kids:
        root.remove(k)
    kids.append(ET.Element("generator"))
    for tag, names in (("version", ["version"]), ("categories", ["categories_id", "categories_url"])):
        if rng.integers(4) == 0:
            kids = [k for k in kids if k.tag != tag]
            for n in names:
                want["settings"].pop(n, None)
    for k in [kids[i] for i in rng.permutation(len(kids))]:
        root.append(k)
    data = ET.tostring(root, encoding=gen.pick(rng, ["utf-8", "utf-16", "us-ascii"]))
    open(f, "wb").write(data)
    ctx.case(data)
    got = ProjectScene.load(d, "p")
    P.same_scene(ctx, P.scene_state(got), want, "foreign")
    if any(o["bounds"] is None for o in want["elements"].values()):
        return  # note: a box scene without boxes cannot be stored
    got.save(d, "again")
    P.same_scene(ctx, P.scene_state(ProjectScene.load(d, "again")), want, "foreign-again")


@scenario(quick=60)
def constructors(rng, ctx):
    """Project types are checked, ids are text and read only, default containers are not shared."""
    bad = gen.pick(rng, ["mesh", "boxes", "", "Meshes", "voxel"])
    ctx.case(bad, int(rng.integers(1 << 30)))
    ctx.raises(ValueError, lambda: ProjectScene(bad), "scene-type")
    ctx.raises(ValueError, lambda: ProjectObject("1", bad), "object-type")
    t = gen.pick(rng, P.TRACKS)
    a, b = ProjectScene(t), ProjectScene(t)
    a.elements["x"] = P.obj(rng, t, "x")
    a.settings["version"] = "changed"
    ctx.check(len(b.elements) == 0 and b.settings["version"] == "2.0" and ProjectScene(t).settings["version"] == "2.0",
              "shared-defaults")
    i = P.text(rng, filename=True)
    o = ProjectObject(i.encode("utf-8"))
    ctx.check(o.id == i, "bytes-id", got=o.id)

    def set_id():
        o.id = "y"

    def set_type():
        o.project_type = "voxels"
    ctx.raises(AttributeError, set_id, "id-writable")
    ctx.raises(AttributeError, set_type, "type-writable")
    o1, o2 = ProjectObject("1"), ProjectObject("2")
    o1.pose.t = np.ones(3)
    ctx.equal(np.array(o2.pose.t), np.zeros(3), "shared-default-pose")
    for fn, kind, shape in [(ProjectObject, "bounding_box", "bounds"), (ProjectObject.gen_bounding_box_object, "bounding_box", "bounds"),
                            (ProjectObject.gen_voxels_object, "voxels", "voxels"), (ProjectObject.gen_meshes_object, "meshes", "meshes")]:
        d = fn(i)
        ctx.check(d.id == i and d.project_type == kind and d.category == "unknown" and d.score == -1 and d.evaluated is True,
                  "default-attributes", got=(d.id, d.project_type, d.category, d.score, d.evaluated), made_by=fn.__name__)
        ctx.check(d.symmetry == ObjectSymmetry() and np.array_equal(d.pose.R.R, np.eye(3)) and np.array_equal(d.pose.t, np.zeros(3)),
                  "default-symmetry-or-pose", made_by=fn.__name__)
        full = P.obj(rng, kind, i)
        g = fn(i, pose=full.pose, category=full.category, symmetry=full.symmetry, score=full.score, evaluated=full.evaluated,
               **{shape: getattr(full, shape)})
        P.same_obj(ctx, P.obj_state(g), P.obj_state(full), "given-attributes", skip=() if kind == "bounding_box" else ("bounds",))


# -- C15 -----------------------------------------------------------------------------

def check_converted(ctx, want, got, source):
    """<want>: state of the source object, <got>: converted object."""
    g = P.obj_state(got)
    P.same_obj(ctx, g, want, "converted", skip=("track", "bounds", "shape"))
    if got.project_type == "bounding_box":
        ctx.check(got.voxels is None and got.meshes is None, "box-has-shape")
        if want["meshes"] is not None:
            lo, hi = shapes.bounds(want["meshes"])
            ctx.equal(g["bounds"][0], lo, "mesh-box-min")
            ctx.equal(g["bounds"][1], hi, "mesh-box-max")
        else:
            c, h = want["voxels"]["centers"], 0.5 * want["voxels"]["size"]
            ctx.close(g["bounds"][0], c.min(axis=0) - h, "voxel-box-min", atol=1e-9, rtol=1e-12)
            ctx.close(g["bounds"][1], c.max(axis=0) + h, "voxel-box-max", atol=1e-9, rtol=1e-12)
    else:
        ctx.check(got.meshes is None, "voxels-have-mesh")
        v = g["voxels"]
        h = 0.5 * v["size"]
        ctx.close(g["bounds"][0], v["centers"].min(axis=0) - h, "voxel-bounds-min", atol=1e-9)
        ctx.close(g["bounds"][1], v["centers"].max(axis=0) + h, "voxel-bounds-max", atol=1e-9)
        voxels_cover(ctx, v, want["meshes"])


def voxels_cover(ctx, v, meshes, key="voxels"):
    """Every voxel touches the surface and every triangle is represented."""
    h = 0.5 * v["size"] * (1 + 1e-6) + 1e-7
    touched = np.zeros(len(v["centers"]), bool)
    for s in meshes:
        for t in shapes.triangles(s):
            b = shapes.boxes_touch_triangle(v["centers"], h, t)
            ctx.check(b.any(), key + "-triangle-without-voxel", triangle=t)
            touched |= b
    ctx.check(touched.all(), key + "-off-surface", voxel=v["centers"][~touched][:3], size=v["size"])


def solid_scene(rng, track):
    s = P.scene(rng, track, n=int(gen.pick(rng, [0, 1, 2, 3])))
    if track == "meshes":
        for k in s.elements:
            s.elements[k].meshes = shapes.solid_model(rng)[0]
            if rng.integers(2):
                s.elements[k].bounds = P.box(rng)  # not derived from the shape
    return s


@scenario(quick=250)
def conversions(rng, ctx):
    src, dst = gen.pick(rng, [("meshes", "voxels"), ("meshes", "bounding_box"), ("voxels", "bounding_box")])
    s = solid_scene(rng, src)
    nested = bool(rng.integers(2))
    if nested:  # settings may hold more than texts
        s.settings["tags"] = ["a", ["b"]]
        s.settings["more"] = {"k": [1, 2]}
    if rng.integers(4) == 0:  # keys need not be the ids
        s.elements = ProjectObjectDict(("key %d" % i, o) for i, o in enumerate(s.elements.values()))
        if len(s.elements) > 1 and rng.integers(2):
            s.elements["twin"] = P.obj(rng, src, s.elements["key 0"].id)
            if src == "meshes":
                s.elements["twin"].meshes = shapes.solid_model(rng)[0]
            ctx.count("conversions_of_twins")
    twins = len(set(o.id for o in s.elements.values())) < len(s.elements)
    before = P.scene_state(s)
    ctx.case(repr(before), dst)
    ctx.count("%s_to_%s" % (src, dst))
    r = ProjectConverter().run(s, dst)
    ctx.check(r is not s and isinstance(r, ProjectScene) and isinstance(r.elements, ProjectObjectDict), "result-type")
    ctx.equal(r.project_type, dst, "track")
    ctx.equal(r.settings, before["settings"], "settings")
    ctx.check(list(r.elements) == list(s.elements), "ids", got=list(r.elements), expected=list(s.elements))
    for k in r.elements:
        ctx.check(r.elements[k].project_type == dst, "element-track")
        check_converted(ctx, before["elements"][k], r.elements[k], s)
    P.same_scene(ctx, P.scene_state(s), before, "source-changed")
    # the result is independent of the source
    r.settings["version"] = "other"
    if nested:
        r.settings["tags"][1].append("c")
        r.settings["more"]["k"].append(3)
        ctx.equal(s.settings["tags"], ["a", ["b"]], "settings-shared")
        ctx.equal(s.settings["more"], {"k": [1, 2]}, "settings-shared")
        ctx.count("nested_settings")
    for k in r.elements:
        r.elements[k].pose.t = np.array(r.elements[k].pose.t) + 1
        r.elements[k].category = "zzz"
        r.elements[k].score = 5.5
        if dst == "voxels":
            v = r.elements[k].voxels
            v.add_points((np.asarray(v.min_corner, float) + 50 * v.voxel_size).reshape(1, 3))
    P.same_scene(ctx, P.scene_state(s), before, "source-shared")
    mid = P.scene_state(r)
    s.settings["categories_id"] = "q"
    for k in s.elements:
        s.elements[k].pose.t = np.array(s.elements[k].pose.t) - 7
        if src == "voxels":
            v = s.elements[k].voxels
            v.add_points((np.asarray(v.min_corner, float) + 90 * v.voxel_size).reshape(1, 3))
    P.same_scene(ctx, P.scene_state(r), mid, "result-shared")
    # it is a valid project
    if twins:
        return
    d = ctx.tmp()
    for k in ("tags", "more") if nested else ():
        del s.settings[k]  # files hold three texts
    s.elements = ProjectObjectDict((o.id, o) for o in s.elements.values())
    r2 = ProjectConverter().run(s, dst)
    r2.save(d, "c")
    w = P.scene_state(r2)
    g = P.scene_state(ProjectScene.load(d, "c"))
    P.same_scene(ctx, g, w, "saved-conversion", skip=("bounds",))
    same_bounds(ctx, g, w, "saved-conversion-bounds")


@scenario(quick=150)
def refused_conversions(rng, ctx):
    src = gen.pick(rng, P.TRACKS)
    s = P.scene(rng, src, n=int(rng.integers(0, 3)))
    before = P.scene_state(s)
    order = {"meshes": 2, "voxels": 1, "bounding_box": 0}
    ctx.case(repr(before))
    for dst in P.TRACKS + ["mesh", "", "boxes", None]:
        if dst in order and order[dst] < order[src]:
            continue
        ctx.raises(ValueError, lambda: ProjectConverter().run(s, dst), "accepted:%s:%s" % (src, dst))
        for o in s.elements.values():
            ctx.raises(ValueError, lambda: ProjectConverter().convert_element(o, dst), "element:%s:%s" % (src, dst))
        ctx.count("refused")
    P.same_scene(ctx, P.scene_state(s), before, "refused-changed")


@scenario(quick=120)
def two_step_conversion(rng, ctx):
    """meshes -> voxels -> boxes stays within one voxel of the direct tight box."""
    s = solid_scene(rng, "meshes")
    ctx.case(repr(P.scene_state(s)))
    c = ProjectConverter()
    v = c.run(s, "voxels")
    b2, b1 = c.run(v, "bounding_box"), c.run(s, "bounding_box")
    for k in s.elements:
        size = v.elements[k].voxels.voxel_size
        lo1, hi1 = P.box_arrays(b1.elements[k].bounds)
        lo2, hi2 = P.box_arrays(b2.elements[k].bounds)
        tol = 1e-6
        ctx.check(np.all(lo2 >= lo1 - tol) and np.all(hi2 <= hi1 + size + tol), "voxel-box-outside",
                  direct=(lo1, hi1), via=(lo2, hi2))


# -- C16 -----------------------------------------------------------------------------

def moved(T, st):
    """Reference: (R, t) composed after <T>."""
    R, t = T
    return R.dot(st["R"]), R.dot(st["t"]) + t


def rt(rng):
    R = gen.rotation(rng)
    t = rng.normal(size=3) * 10.0 ** rng.uniform(-2, 3)
    if rng.integers(6) == 0:
        R = np.eye(3)
    if rng.integers(6) == 0:
        t = np.zeros(3)
    return np.array(R), t


def check_moved(ctx, got, want, key):
    ctx.equal(got["track"], want["track"], key + "-track")
    ctx.equal(got["settings"], want["settings"], key + "-settings")
    ctx.check(list(got["elements"]) == list(want["elements"]), key + "-ids")
    for k, w in want["elements"].items():
        g = got["elements"][k]
        P.same_obj(ctx, g, w, key, skip=("pose",))
        s = 1 + np.abs(w["t"]).max()
        ctx.close(g["R"], w["R"], key + "-rotation", atol=1e-9)
        ctx.close(g["t"], w["t"], key + "-translation", atol=1e-9 * s)


@scenario(quick=400)
def moving_scenes(rng, ctx):
    s = solid_scene(rng, gen.pick(rng, P.TRACKS))
    for o in s.elements.values():
        R, t = rt(rng)
        o.pose = Pose3(R=Rot3(R), t=t)
    rekeyed = rng.integers(4) == 0  # "keys can be anything"
    if rekeyed:
        items = list(s.elements.items())
        s.elements.clear()
        for i, (_, o) in enumerate(items):
            s.elements[gen.pick(rng, [i, "k%d" % i, (i, "x")])] = o
        ctx.count("rekeyed")
    first = P.scene_state(s)
    want = P.scene_state(s)
    cur = s
    log = []
    d = ctx.tmp()
    for step in range(int(rng.integers(1, 5))):
        T = rt(rng)
        log.append(T)
        pose = Pose3(R=Rot3(T[0]), t=T[1])
        prev, prev_state = cur, P.scene_state(cur)
        cur = cur.transform_pose(pose)
        ctx.count("transforms")
        ctx.equal(np.array(pose.t), T[1], "transform-argument-changed")
        ctx.check(isinstance(cur, ProjectScene) and isinstance(cur.elements, ProjectObjectDict) and cur is not prev,
                  "container", got=type(cur.elements))
        for w in want["elements"].values():
            w["R"], w["t"] = moved(T, w)
        check_moved(ctx, P.scene_state(cur), want, "moved")
        P.same_scene(ctx, P.scene_state(prev), prev_state, "original-changed")
        for k, o in cur.elements.items():  # world points move by exactly T
            q = rng.normal(size=3)
            a = np.array(prev.elements[k].pose.transform_from(q), float)
            b = np.array(o.pose.transform_from(q), float)
            ctx.close(b, T[0].dot(a) + T[1], "world-point", atol=1e-9 * (1 + np.abs(b).max() + np.abs(a).max()))
        # usable like any scene
        k = rng.integers(5)
        if k == 0 and not rekeyed:  # a saved scene is keyed by the ids
            cur.save(d, "s%d" % step)
            cur2 = ProjectScene.load(d, "s%d" % step)
            got = P.scene_state(cur2)
            w = P.scene_state(cur)
            for e in got["elements"]:  # bounds are derived on saving
                got["elements"][e]["bounds"] = w["elements"][e]["bounds"]
            check_moved(ctx, got, w, "moved-saved")
        elif k == 1 and cur.project_type != "bounding_box":
            ProjectConverter().run(cur, "bounding_box")
        elif k == 2:
            cur.elements["new"] = P.obj(rng, cur.project_type, "new")
            ctx.check("new" not in prev.elements or "new" in prev_state["elements"], "original-shares-elements")
            o = cur.elements["new"]
            want["elements"]["new"] = P.obj_state(o)
        elif k == 3:
            cur.settings["version"] = want["settings"]["version"] = "v%d" % step
            ctx.check(prev.settings.get("version") == prev_state["settings"].get("version"), "original-shares-settings")
        want2 = P.scene_state(cur)
        ctx.check(list(want2["elements"]) == list(want["elements"]), "state")
    ctx.case(repr(first), [x for x in log])
    # back by the inverses
    n = set(first["elements"])
    for R, t in reversed(log):
        cur = cur.transform_pose(Pose3(R=Rot3(R), t=t).inverse())
    big = 1 + sum(np.abs(t).max() for _, t in log)
    for k in n & set(s.elements):
        if k == "new":
            continue
        g = P.obj_state(cur.elements[k])
        w = first["elements"][k]
        ctx.close(g["R"], w["R"], "inverse-rotation", atol=1e-8)
        ctx.close(g["t"], w["t"], "inverse-translation", atol=1e-9 * (big + np.abs(w["t"]).max()))
    P.same_scene(ctx, P.scene_state(s), first, "first-changed") if len(log) and s is not cur else None


@scenario(quick=300)
def moving_objects(rng, ctx):
    o = P.obj(rng, gen.pick(rng, P.TRACKS), P.text(rng, filename=True))
    o.pose = P.pose(rng, 3.0)
    if rng.integers(2):
        o.bounds = P.box(rng)
    before = P.obj_state(o)
    T = rt(rng)
    ctx.case(repr(before), T)
    r = o.transform_pose(Pose3(R=Rot3(T[0]), t=T[1]))
    want = dict(before)
    want["R"], want["t"] = moved(T, before)
    g = P.obj_state(r)
    P.same_obj(ctx, g, want, "moved", skip=("pose",))
    ctx.close(g["R"], want["R"], "rotation", atol=1e-9)
    ctx.close(g["t"], want["t"], "translation", atol=1e-9 * (1 + np.abs(want["t"]).max()))
    P.same_obj(ctx, P.obj_state(o), before, "original-changed")
    r.pose.t = np.array([9.0, 9.0, 9.0])
    r.category, r.score, r.evaluated = "other", -5.0, not r.evaluated
    P.same_obj(ctx, P.obj_state(o), before, "original-shared")
