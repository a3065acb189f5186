#!/usr/bin/env python3
"""Property definitions; writes properties.jsonl and MANIFEST.json (python3 lib/docs.py)."""
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import registry  # noqa: E402

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "sumo-api/sumo/"


def D(id, title, statement, over, quant, tests, files, mech, observe, technique, note):
    return dict(id=id, title=title, statement=statement, over=over, quant=quant, tests=tests, files=files,
                mech=mech, observe=observe, technique=technique, note=note)


DEFS = [
D("C01", "Rotation and pose algebra obeys the group laws on every input",
  "Rotations, poses and quaternions built by any of the public constructors represent the rotation or rigid motion asked for, "
  "and composing, inverting, interpreting and applying them (to one point or to many) agrees with plain matrix algebra. "
  "Default-constructed objects are the identity and share no state: changing one never changes another.",
  ["inputs", "histories"], "all axes, angles (tiny, near pi, multiples of pi/2, large), rotations, translations and point sets; all sequences creating and modifying default objects",
  "the unit tests use a handful of axis-aligned rotations and one point set",
  ["geometry/rot3.pyx", "geometry/pose3.pyx", "geometry/quaternion.pyx", "base/vector.pyx"],
  [("Rot3 constructors and composition", "geometry/rot3.pyx"), ("Pose3 compose/inverse/transform", "geometry/pose3.pyx")],
  ["returned matrices, vectors and equality results"], "reference-model monitor (numpy matrix algebra) over generated operation mixes",
  "tolerances 1e-9 relative to the magnitudes involved"),
D("C02", "Text encodings of poses, rotations and boxes lose nothing",
  "Writing a rotation, pose or bounding box to XML or JSON and reading it back gives the same object to full double precision, "
  "whatever the values and whatever numpy print options are in force, and malformed text of that kind raises an error instead of giving an object.",
  ["inputs", "configurations"], "all finite component values (subnormal to 1e300), numpy print option settings, malformed documents",
  "tests round-trip one small pose under default print options",
  ["geometry/pose3.pyx", "geometry/rot3.pyx", "threedee/box_3d.pyx", "base/vector.pyx"],
  [("XML/JSON writers and parsers", "geometry/pose3.pyx, geometry/rot3.pyx, threedee/box_3d.pyx")],
  ["objects read back"], "round-trip monitor with bit-exact oracle under varied print options", "pure in-memory encodings; file level covered by C14"),
D("C03", "The inverse-depth codec is exact on codes and bounded in error on depths",
  "Decoding and re-encoding any 16-bit inverse-depth code gives the same code, and encoding a depth gives the nearest code, so that depth is recovered "
  "within half a code step. Depths out of range saturate monotonically at the end codes as documented.",
  ["inputs"], "all 65536 codes; all depth images (shapes, dtypes, near/far, zero, infinite values)",
  "tests check a few depths", ["geometry/inverse_depth.pyx"], [("encode/decode formulas", "geometry/inverse_depth.pyx")],
  ["codes and depths returned"], "reference-formula monitor, all codes enumerated", "the formula is taken from the class documentation"),
D("C04", "RGB-D TIFF files give back every channel exactly",
  "Saving and loading a multi-page RGB-D panorama (colour, range or inverse depth, category, instance) returns every page bit for bit, with range following from the inverse-depth codec, "
  "for every size and combination of pages that the format allows. Files of the documented format written by other software load to the same pixel values, and an array or page that cannot be stored faithfully, "
  "or a write that fails, raises an error instead of producing wrong data.",
  ["inputs", "fault_sequences"], "all image sizes, page combinations, array memory layouts and dtypes; legacy and foreign page layouts; write failures",
  "tests write and read one or two small images",
  ["images/RgbdTiff.cpp", "images/rgbd_tiff.pyx", "images/Rgbdci360.cpp", "images/rgbdci_360.pyx", "images/rgbd_360.pyx", "images/multi_image_tiff.pyx", "opencv/wrap.pyx"],
  [("page writer/reader", "images/RgbdTiff.cpp"), ("array conversion", "opencv/wrap.pyx")],
  ["arrays read back; pages decoded by PIL and by a reference TIFF reader"], "round-trip and differential monitor against independent TIFF readers/writers (PIL, hand-written)",
  "write faults injected by file size limits and unwritable targets"),
D("C05", "A panorama becomes the point cloud its camera model defines",
  "Turning an RGB-D cube-map panorama into a point cloud yields exactly one point for each pixel with a valid range, in pixel order, at the position on that pixel's ray given by its range and with its colour; "
  "images that are not such a panorama are refused with an error.",
  ["inputs"], "all panorama sizes, range contents (zero, infinite, NaN), colours, masks; mismatching images",
  "tests check one constant panorama", ["images/CubeMap.h", "images/Rgbdci360.cpp", "images/rgbdci_360.pyx", "images/rgbd_360.pyx"],
  [("cube-map ray geometry", "images/CubeMap.h")], ["points and colours of the resulting cloud"],
  "reference-model monitor: independent numpy cube-map ray model for every pixel", "float32 tolerance on positions"),
D("C06", "Category colour tables are one-to-one and consistent",
  "For every well-formed category table, looking up the colour of an id, and colouring an image of ids, returns exactly the table's entry for that id, and an id that the table does not have is refused or shown as documented, never as another category's colour.",
  ["inputs"], "all tables (ids in any order, gaps), all id images", "tests look up a few ids of the shipped table",
  ["base/colored_category.pyx"], [("table lookup", "base/colored_category.pyx")], ["returned colours"],
  "reference-model monitor over generated tables", "reference reads the CSV independently"),
D("C07", "Mesh operations keep geometry, faces and materials consistent",
  "Merging, transforming, rotating, renumbering, replacing geometry and cleaning up meshes (plain or textured) gives exactly the vertices, triangles, normals, texture coordinates and textures that the operation is documented to give. "
  "Every triangle still refers to existing vertices with the positions it had, per-vertex data stay in step with the vertices, and the input meshes other than the one operated on stay unchanged; bad arguments raise an error and leave the mesh usable.",
  ["inputs", "histories"], "all meshes (empty, single, textured, non-indexed corner cases) and all sequences of operations on them",
  "tests use a cube and a tetrahedron, one operation at a time",
  ["threedee/Mesh.cpp", "threedee/TexturedMesh.cpp", "threedee/mesh.pyx", "threedee/textured_mesh.pyx"],
  [("merge/renumber index arithmetic", "threedee/Mesh.cpp"), ("uv and texture handling", "threedee/TexturedMesh.cpp")],
  ["vertices, indices, normals, uv coordinates, textures after every step"], "shadow-model monitor (numpy mesh) stepped along operation histories",
  "one recorded finding: partial renumbering (see known_findings.jsonl)"),
D("C08", "A 3D model survives saving and loading in glTF and GLB",
  "Building a model from meshes, saving it as glTF or GLB and loading it again gives back every mesh with the same triangles, normals, texture coordinates, textures and material factors, for every number and mix of meshes and every target path. "
  "Files of the glTF 2.0 format written by other software (index and colour types, interleaved views, several buffers) load to the values they encode, and a save that fails raises an error.",
  ["inputs", "configurations", "fault_sequences"], "all mixes of coloured/textured meshes, texture sizes, material updates, paths, foreign buffer layouts, write failures",
  "tests save one or two models and compare sizes",
  ["threedee/GltfModel.cpp", "threedee/gltf_model.pyx", "threedee/glb_converter.pyx", "threedee/tiny_gltf/tiny_gltf.h"],
  [("accessor reading and writing", "threedee/GltfModel.cpp, GltfModel.h"), ("serializer", "threedee/tiny_gltf/tiny_gltf.h")],
  ["meshes extracted from the reloaded model; the files decoded by a reference glTF reader"], "round-trip and differential monitor against an independent glTF reader/writer",
  "textures compared as decoded images"),
D("C09", "Packing a glTF into one GLB keeps every byte that is referred to",
  "The GLB made from a glTF file is a well-formed binary glTF container (header, chunk lengths, alignment) in which every buffer view and image resolves to exactly the bytes it had in the original files "
  "(up to three bytes of padding may follow an image), everything else in the document is unchanged, and no other file is touched. A missing file, malformed document or failed write raises an error.",
  ["inputs"], "all glTF documents with any number of buffers, views, images, byte offsets and lengths, in external files or buffer views",
  "the only test converts one cube and checks that a file appears",
  ["threedee/glb_converter.pyx"], [("buffer and image relocation", "threedee/glb_converter.pyx")], ["bytes of the GLB file"],
  "reference-parser monitor over generated documents", "container rules from the glTF 2.0 specification"),
D("C10", "Boxes contain, merge and bound exactly what they should",
  "An axis-aligned box reports the corners, centre and volume its two corners define, merging boxes gives the smallest box around all of them, the bounding box of points, meshes or models is the tightest one, and the mesh of a box is its closed outward surface. "
  "Default boxes share no state.",
  ["inputs", "histories"], "all corners (order, equal, negative, huge), all sets of boxes, points and meshes", "tests use unit boxes",
  ["threedee/box_3d.pyx", "threedee/compute_bbox.pyx"], [("corner bookkeeping", "threedee/box_3d.pyx")], ["returned boxes, corners, meshes"],
  "reference-model monitor (numpy)", "exact comparison on doubles"),
D("C11", "A voxel grid holds exactly the voxels its points fell in",
  "After any sequence of point insertions, saves and loads, a voxel grid's occupied voxels are exactly those that contain at least one inserted point, each reported once, and its bounds are the tightest around them. "
  "Inserting a point below the minimum corner is refused and leaves the grid as it was; a grid written to a file and read back is the same grid, and an unreadable or unwritable file raises an I/O error.",
  ["inputs", "histories", "fault_sequences"], "all voxel sizes, minimum corners and insertion histories (growing in any axis order), interleaved with save/load",
  "tests insert one batch of points and round-trip it", ["threedee/voxel_grid.py"],
  [("linear index merge", "threedee/voxel_grid.py add_points")], ["voxel centres, bounds, files"],
  "shadow-model monitor (set of integer voxel indices) along histories", "points within 1e-9 voxel of a face are not used to decide"),
D("C12", "Sampling and voxelizing a model stay on its surface and keep its colours",
  "Every point sampled from a model lies on a triangle of that model, every triangle gets the number of samples that the density and its area ask for (at least one) spread evenly over it, and the colour of a sample is interpolated from the texture at the corners of its triangle. "
  "Voxelizing a model gives a grid of the requested voxel size in which every occupied voxel touches the model's surface and every triangle is represented.",
  ["inputs"], "all models, densities, voxel sizes, textures, random seeds", "tests count the samples of one model",
  ["threedee/model_sampler.pyx", "threedee/voxelizer.pyx"], [("per-face sample counts and barycentric weights", "threedee/model_sampler.pyx")],
  ["samples and voxels returned"], "geometric-invariant monitor over sampled runs (point-to-triangle, counts, colour interpolation)", "statistical uniformity is checked with loose bounds only"),
D("C13", "Point clouds and PLY files keep every point and colour",
  "Building, merging, filtering and transforming point clouds keeps each point with its own colour, in order, and saving to PLY writes exactly the points and colours, of which loading gives the points (colours in a PLY file are not read); PLY files of other writers (ASCII, either byte order, float or double) load to the values they hold. "
  "A cloud is coloured or not as a whole, indices out of range are refused, and a PLY file that cannot be read or written completely raises an error.",
  ["inputs", "histories", "fault_sequences"], "all clouds, operation histories, PLY encodings, write failures", "tests use clouds of a few points and one ASCII file",
  ["threedee/point_cloud.pyx", "threedee/point_cloud_ply.pyx", "threedee/point_cloud_ply_c.cpp", "threedee/PointCloud.h"],
  [("point/colour bookkeeping", "threedee/PointCloud.h"), ("PLY reader/writer", "threedee/point_cloud_ply_c.cpp")],
  ["points and colours; PLY files decoded by a reference parser"], "shadow-model monitor along histories, differential PLY reader/writer", "float32 precision"),
D("C14", "A project written to disk is the project read back",
  "Saving a project scene of any track and loading it gives the same project type, settings and elements: every id, category, symmetry, score, evaluated flag, pose, bounds and shape; almost_equal holds between the two and not between elements that differ in a key or attribute. "
  "Saving never overwrites an existing project, and a project file that is missing, malformed or lacks required parts is refused with the documented error instead of yielding a partial scene.",
  ["inputs", "histories", "fault_sequences"], "all scenes (ids and texts with any legal XML characters, all symmetries, float values), tracks, existing targets, damaged files",
  "tests save one scene with default values", ["semantic/project_scene.py", "semantic/project_object_dict.py", "semantic/project_object.py"],
  [("XML writer and parser", "semantic/project_object.py, project_scene.py")], ["scene read back, directory tree"],
  "round-trip monitor with field-by-field oracle, directory snapshot monitor", "mesh shapes compared as by C08"),
D("C15", "Converting a project keeps every object and derives tight shapes",
  "Converting a scene to a simpler track gives exactly one object per source object with the same id, pose, category, symmetry, score and evaluated flag and the same settings, whose box or voxels are derived from the source shape: boxes are the tight bounds, voxels cover the mesh surface. "
  "Only conversions to a simpler track are accepted, and the source project is left unchanged and independent of the result.",
  ["inputs"], "all scenes and the allowed and disallowed pairs of tracks", "tests convert one scene and check types",
  ["semantic/project_converter.py"], [("element conversion", "semantic/project_converter.py")], ["converted scene, source scene before and after"],
  "reference-model monitor plus before/after snapshots", "voxel cover as in C12"),
D("C16", "Moving a scene moves its poses and nothing else",
  "Transforming a scene or object by a pose gives a new one in which every object's pose is the given transform composed with the old pose, so that every world point moves by exactly that transform, and every other attribute, the settings and the kind of container are preserved. "
  "Transforms compose and invert, the original is unchanged, and the result can be saved, converted and transformed like any scene.",
  ["inputs", "histories"], "all scenes, all transforms, chains of transforms followed by other operations", "tests check one translation",
  ["semantic/project_scene.py", "semantic/project_object.py"], [("transform_pose", "semantic/project_scene.py, project_object.py")], ["poses, attributes, container of the result"],
  "reference-model monitor along transform chains", "pose tolerance 1e-9"),
D("C17", "Symmetry descriptors and element tables admit only valid contents",
  "A symmetry descriptor can be made, by any constructor or parser, for exactly the documented combinations of axis symmetries and is refused for all others; it converts to text and XML and back unchanged, and equality and inequality are each other's negation. "
  "A table of scene objects accepts nothing but scene objects by item assignment.",
  ["inputs"], "all 125 combinations (and texts outside them) through every way in; all value types", "tests try a few valid and invalid combinations",
  ["semantic/object_symmetry.py", "semantic/project_object_dict.py"], [("valid combination set", "semantic/object_symmetry.py")], ["objects, exceptions"],
  "exhaustive monitor with independently written validity rule", "all 125 combinations enumerated in every run"),
D("C18", "Evaluation matches detections to ground truth one-to-one, best score first",
  "At every similarity threshold the correspondence that the metrics use is the documented greedy one: detections in order of decreasing score each take the most similar still-free ground-truth object whose similarity reaches the threshold, within the category for the semantic metric. "
  "No detection or ground-truth object is used twice, detection and ground-truth roles are never exchanged, thresholds may be given in any order, and the caller's scenes' contents and settings are not altered.",
  ["inputs", "configurations"], "all similarity matrices, scores, categories, threshold lists, all three tracks", "the metrics tests (not runnable without pymesh) evaluate identical scenes",
  ["metrics/evaluator.py", "metrics/voxel_evaluator.py", "metrics/mesh_evaluator.py", "metrics/bb_evaluator.py"],
  [("greedy data association", "metrics/evaluator.py")], ["scores that depend on the association, per threshold"],
  "reference-model monitor: metrics recomputed from the documented association on generated similarity matrices", "observed through public scores with one threshold and distinguishable objects"),
D("C19", "Average precision, shape and semantic scores follow their definition",
  "Average precision equals the area under the interpolated precision-recall curve of the detections ranked by score, lies between 0 and 1, and does not depend on the order in which detections are listed; the shape and semantic scores are its means over thresholds and present categories. "
  "Objects not marked for evaluation are neither rewarded, counted nor punished.",
  ["inputs", "configurations"], "all match/score vectors, ground-truth counts, recall samples, scenes", "tests use four hand-made curves",
  ["metrics/utils.py", "metrics/evaluator.py"], [("precision-recall computation", "metrics/utils.py")], ["returned scores and curves"],
  "reference-model monitor (brute-force area under interpolated curve), metamorphic permutations", "distinct scores where order matters"),
D("C20", "Pose error is the symmetry-aware distance to ground truth",
  "The rotation error of a matched object is the smallest rotation angle between its pose and any ground-truth pose equivalent under the object's declared symmetry, hence zero for every equivalent pose; the translation error is the distance of positions. "
  "The scene's errors are means over evaluated matches and thresholds, and infinite when nothing matched.",
  ["inputs", "configurations"], "all pairs of rotations, all 20 symmetry kinds, all rotation angles about symmetric axes", "tests check one object with a twofold symmetry",
  ["metrics/evaluator.py", "metrics/utils.py"], [("symmetric rotations", "metrics/evaluator.py rotation error")], ["errors returned"],
  "reference-model monitor: minimum over the explicitly enumerated symmetry group (dense scan for continuous axes)", "tolerance 1e-6 rad"),
D("C21", "Shape similarity and surface distances match their geometric definition",
  "Shape similarity is the intersection over union of the posed shapes (boxes by volume, voxels and surfaces by mutual nearest points within the threshold): symmetric, within 0 and 1, 1 for identical shapes, 0 for far apart ones, unchanged when both move together. "
  "The surface distance and colour errors are the root mean square over nearest neighbours in both directions, averaged over all matches and thresholds.",
  ["inputs"], "all pairs of posed boxes (touching, nested, flat), voxel grids, meshes, point sets", "tests check identical and shifted objects",
  ["metrics/utils.py", "metrics/bb_evaluator.py", "metrics/voxel_evaluator.py", "metrics/mesh_evaluator.py"], [("points IoU and RMS distances", "metrics/utils.py"), ("box IoU", "metrics/bb_evaluator.py")],
  ["similarities and errors returned"], "brute-force reference monitor; box intersections by independent polyhedron clipping", "pymesh is absent: a stand-in provides exact convex booleans"),
D("C22", "The perceptual score follows its published formula and stays in range",
  "The perceptual score equals the documented sum of Gaussian terms for room scale, object scale, translation and elevation minus volume-weighted penalties for missed and extra objects, normalised and clipped to lie between 0 and 1 and averaged over thresholds. "
  "Objects not marked for evaluation change neither reward nor penalty for missing them.",
  ["inputs", "configurations"], "all scenes with floors, sizes, offsets, missed/extra objects, settings", "no runnable test",
  ["metrics/evaluator.py"], [("perceptual score", "metrics/evaluator.py")], ["score returned"], "reference-model monitor", "relative tolerance 1e-9"),
D("C23", "Valid use never corrupts or leaks native memory",
  "Under any valid sequence of operations the native code behind images, point clouds, meshes and models performs no invalid memory access or undefined behaviour, arrays handed to Python stay valid after their source object is gone, and repeating a workload does not make the process's native memory grow without bound, also when operations end in an error.",
  ["inputs", "histories"], "all valid call sequences, object lifetimes in any order, repeated workloads with and without errors", "tests run without sanitizers and cannot see memory errors",
  ["opencv/wrap.pyx", "opencv/wrap.pxd", "base/vector.pyx", "images/RgbdTiff.cpp", "threedee/Mesh.cpp", "threedee/TexturedMesh.cpp", "threedee/GltfModel.cpp", "threedee/PointCloud.h"],
  [("array views and owners", "opencv/wrap.pyx, base/vector.pyx")], ["sanitizer reports; allocator statistics"],
  "AddressSanitizer+UBSan build driven by the other monitors; allocator growth monitor", "OpenCV, boost and libtiff themselves are not instrumented"),
D("C24", "Damaged or hostile files are refused with an error, never a crash",
  "Loading a truncated, corrupted or malicious TIFF, PLY, glTF, GLB, HDF5 voxel or project file either succeeds with consistent data or raises a Python exception: no crash, invalid memory access, hang, runaway memory or leaked file handle. "
  "File contents are never executed or expanded by a shell.",
  ["inputs", "fault_sequences"], "all byte strings offered as files: every truncation point, bit flips, field edits, inconsistent counts and offsets", "tests load only good files and two bad ones",
  ["images/RgbdTiff.cpp", "images/rgbd_tiff.pyx", "threedee/GltfModel.cpp", "threedee/tiny_gltf/tiny_gltf.h", "threedee/point_cloud_ply_c.cpp", "threedee/voxel_grid.py", "semantic/project_scene.py"],
  [("input validation", "threedee/tiny_gltf/tiny_gltf.h, threedee/GltfModel.h, images/RgbdTiff.cpp")], ["exceptions, sanitizer reports, open descriptors, results' consistency"],
  "mutation fuzzing of valid files on an AddressSanitizer+UBSan build with consistency oracle", "valid but enormous files (decompression bombs) are out of scope"),
D("C25", "Operations leave their inputs alone and results stand on their own",
  "Apart from operations documented to modify their target in place, no operation changes the objects and arrays passed to it, and modifying a result (or a copy) afterwards never changes the object it came from, nor the other way round. "
  "Exceptions: plain containers hold the very arrays and objects they were given and hand them out again (rotations, poses, panoramas, TIFF page sets, project objects and scenes), and a moved project object or scene has its own poses but shares the shapes.",
  ["inputs", "histories"], "all public operations on all classes, followed by modification of every array of arguments and results", "no test modifies a result and looks back",
  ["geometry/pose3.pyx", "threedee/box_3d.pyx", "threedee/point_cloud.pyx", "threedee/textured_mesh.pyx", "threedee/gltf_model.pyx", "semantic/project_object.py", "metrics/evaluator.py"],
  [("copies at the Python/C++ boundary", "base/vector.pyx, opencv/wrap.pyx")], ["snapshots before and after"], "before/after snapshot monitor over generated call mixes", "containers named in the statement are only watched for changed arguments"),
D("C26", "The scene evaluation tool reports the metrics of the two scenes given",
  "Running the evaluation tool on a ground-truth and a submitted project of the same track prints the shape, pose, semantic and perceptual metrics of that submission against that ground truth under the right labels, with a perfect submission scoring perfectly; projects of different tracks are refused.",
  ["inputs", "configurations"], "all pairs of scene directories of each track", "the tool has no tests",
  ["tools/evaluate-one.py", "metrics/evaluator.py"], [("argument order and labels", "tools/evaluate-one.py")], ["standard output, exit status"],
  "end-to-end differential monitor against library results and reference metrics", "runs with the pymesh stand-in"),
]

DEFS += [
D("C27", "Rotation matrices, quaternions and Euler angles convert without loss",
  "The metric helpers' conversions between rotation matrices, unit quaternions and ZYX Euler angles describe the same rotation in every representation and return finite, in-range values, also at half turns and at gimbal lock; "
  "a rotation converted there and back is the same rotation.",
  ["inputs"], "all rotations, including half turns about any axis, tiny angles and Euler pitch of a quarter turn", "tests convert a handful of angles and cannot run without pymesh",
  ["metrics/utils.py"], [("branches of matrix_to_quat and quat_to_euler", "metrics/utils.py")], ["returned quaternions, matrices, angles"],
  "reference-model monitor (rotation matrices written out independently)", "tolerance 3e-7 where asin is ill-conditioned"),
D("C28", "Downloading the dataset survives interruption and ends with exactly its files",
  "The dataset download tool ends, with a server that gives every listed zip file within its three tries, with the destination holding exactly the contents of those zips (and what it held before), and a repeated run then downloads nothing. "
  "Killed or interrupted at any point and run again, it comes to the same end: a zip is noted as done only when all its contents are in place, an incomplete download is never taken for a zip, and a damaged one is downloaded again. "
  "A file that the server never gives is reported, tried three times and does not hold up the others, nor does one whose contents cannot be put in place; without file list or disk space nothing is downloaded or touched.",
  ["fault_sequences", "histories", "schedules"], "all lists of zips, server faults (errors, early ends, resets), crash points and orders of the parallel processes, destinations (existing files, any folder name)", "the tool has no tests",
  ["tools/download_sumo_datasets.py"], [("download, unzip, notes of what is done", "tools/download_sumo_datasets.py download_one, unzip_one, get_zip_file_count")], ["destination directory after every run, requests the server saw, the tool's log"],
  "crash and fault injection (at file operations and in transfers) with directory-state and request-log monitors", "after Ctrl-C the tool may, rarely, have to be killed (multiprocessing's pool); the real requests package as carried by pip"),
D("C29", "Figures show exactly the object's data, and looking at it changes nothing",
  "The figure made by showing a panorama contains its colours, inverse-range codes, categories (through the look-up table, when one is given) and instances, every "
  "pixel in place; the figure of a point cloud contains its points in the three planes XY, XZ and YZ, in their own colours when asked; arrows drawn for poses are their "
  "positions and axes; a precision-recall plot is the given curve; a mesh is visualised, or imported from an Open3D mesh, triangle by triangle with its own corners and "
  "normals. The equality and assertion helpers of rotations and poses say what comparing their matrices says, and timing a function passes its arguments, result or "
  "exception through and leaves the garbage collector as it was. Each makes one new figure at most, opens no window unless asked, and leaves its inputs unchanged.",
  ["inputs"], "all panoramas, look-up tables, clouds with and without colours, sets of poses, curves, meshes, figure sizes and plot options; all pairs of poses; all functions that return or raise",
  "tests only check that a figure comes out, if they call these functions at all",
  ["images/rgbd_360.pyx", "images/rgbdci_360.pyx", "threedee/point_cloud.pyx", "threedee/mesh.pyx", "geometry/pose3.pyx", "geometry/rot3.pyx", "metrics/utils.py"],
  [("show", "images/rgbd_360.pyx, images/rgbdci_360.pyx, threedee/point_cloud.pyx"), ("draw_poses and comparisons", "geometry/pose3.pyx, geometry/rot3.pyx"),
   ("plot_pr, visualize_mesh, measure_time", "metrics/utils.py")],
  ["artists of the figures (image arrays, scatter offsets and colours, arrows, lines), objects before and after"],
  "artist-level monitor on the real matplotlib (Agg), with recorders in place of the window calls, the 3D plotter and Open3D", "pixels as rasterised by matplotlib are not looked at"),
]


def loc(f):
    return f if f.startswith("tools/") else S + f


def main():
    props, checks = [], []
    for d in DEFS:
        if d["id"] not in registry.PROPS:
            continue
        assert len(d["title"]) <= 80, d["title"]
        props.append(dict(
            id=d["id"], title=d["title"], statement=d["statement"],
            quantifier=dict(over=d["over"], text=d["quant"]),
            why_tests_cant="Holds for " + d["quant"] + "; " + d["tests"] + ".",
            anchors=dict(files=[loc(f) for f in d["files"]],
                         mechanism=[dict(name=n, where=w) for n, w in d["mech"]],
                         observe_at=d["observe"], hook_needed=None)))
        checks.append(dict(
            property=d["id"], quick_cmd="python3 run.py " + d["id"],
            thorough_cmd="VERIF_TIER=thorough python3 run.py " + d["id"],
            technique="runtime monitoring: " + d["technique"], level="exploration",
            level_note="Held on the executions generated and observed (counts in the evidence file), not verified for all; " + d["note"] + "."))
    with open(os.path.join(VERIF, "properties.jsonl"), "w") as fh:
        for p in props:
            fh.write(json.dumps(p) + "\n")
    man = dict(version=1, setup_cmd="python3 lib/setup.py", checks=checks, not_applicable=[],
               notes="No hooks in /repo: monitors observe the public API of a build of /repo's working tree "
                     "(plain, and AddressSanitizer+UBSan). run.py ID [--tier T] [--seed N] [--replay FILE].")
    with open(os.path.join(VERIF, "MANIFEST.json"), "w") as fh:
        json.dump(man, fh, indent=1)
        fh.write("\n")
    print(len(props), "properties")


if __name__ == "__main__":
    main()
