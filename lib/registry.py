"""Which monitor modules, builds and observation counters decide which property."""
R_DEFAULT = ("A case is one generated input or operation sequence, a function of (seed, property, scenario, "
             "index); it counts as distinct and non-trivial when its generated data (hashed) differ from every "
             "other case, the generator did not mark it trivial (empty input, identity operation), and at least "
             "one oracle comparison was evaluated on the code's output.")
A_DEFAULT = ["the reference models in /verif/monitors are right (numpy, brute force, written independently of the code)",
             "only executions driven by the generators are decided"]


def P(*groups, **kw):
    d = dict(groups=list(groups), rule=R_DEFAULT, assumptions=A_DEFAULT)
    d.update(kw)
    return d


def G(*modules, **kw):
    d = dict(variant="plain", modules=list(modules))
    d.update(kw)
    return d


PROPS = {
    "C01": P(G("m_geometry")),
    "C02": P(G("m_text")),
    "C03": P(G("m_inverse_depth", need=["codes_16bit"])),
    "C04": P(G("m_tiff", need=["legacy_8bit", "legacy_unnamed", "write_failures_reported", "refused", "accepted"])),
    "C05": P(G("m_panorama", need=["face_%d_pixels" % f for f in range(6)] + ["invalid_pixels", "too_wide", "mismatch"])),
    "C06": P(G("m_category")),
    "C07": P(G("m_mesh", need=["steps", "merges_with_common", "refused", "long_removed", "origin_removed", "long_kept", "origin_kept", "rotate", "transform",
                               "face_normals", "vertex_normals", "same_materials", "different_materials"])),
    "C08": P(G("m_gltf", need=["saved", "op_update", "op_take", "op_copy", "op_gltf", "op_glb", "foreign_saved_again", "write_failures_reported", "many_meshes"]
               + ["foreign_" + k for k in ["updated", "shared_material", "uint8", "uint16", "uint32", "interleaved", "one_view", "own_views", "rgba", "image_file",
                                           "image_view", "image_data_uri", "image_folder", "several_buffers", "buffer_data_uri", "several_primitives"]])),
    "C09": P(G("m_glb", need=["views", "images_in_views", "images_packed", "default_output", "packed_models", "refused", "write_failures_reported", "buffers_5"])),
    "C10": P(G("m_box", need=["inside", "outside"])),
    "C11": P(G("m_voxel", need=["grow_one_axis", "refused", "file_roundtrips", "far_roundtrips", "write_failures_reported"])),
    "C12": P(G("m_sampler", need=["coloured_samples", "small_triangles", "slivers", "triangles", "spread_cells", "voxels", "covered_points", "default_voxelizer"])),
    "C14": P(G("m_project", only=["save_and_load", "existing_targets", "damaged_projects", "foreign_files", "constructors", "clashing_ids"],
               need=["told_apart", "clash_same-id", "clash_outside", "saved_bounding_box", "saved_voxels", "saved_meshes"])),
    "C15": P(G("m_project", only=["conversions", "refused_conversions", "two_step_conversion"],
               need=["meshes_to_voxels", "meshes_to_bounding_box", "voxels_to_bounding_box", "refused"])),
    "C16": P(G("m_project", only=["moving_scenes", "moving_objects"], need=["transforms", "rekeyed"])),
    "C17": P(G("m_symmetry", need=["valid", "invalid", "refused"])),
    "C18": P(G("m_metrics", only=["who_matches_whom", "within_categories", "inputs_left_alone", "roles"],
               need=["track_bounding_box", "track_voxels", "track_meshes", "matches", "contested", "perfect"])),
    "C19": P(G("m_metrics", only=["average_precision", "sampled_precision", "shape_and_semantics"],
               need=["samples", "shape_scores", "semantics_scores"])),
    "C20": P(G("m_metrics", only=["rotation_under_symmetry", "pose_errors_of_scenes"], need=["equivalent", "matched", "unmatched"])),
    "C21": P(G("m_similarity", need=["boxes_same", "boxes_turned", "boxes_touching", "iou_between", "iou_zero", "iou_one",
                                     "voxel_pairs", "mesh_pairs", "colour_errors", "rms_terms", "dense"])),
    "C23": P(G("m_memory", need=["calls_repeated", "failing_calls_repeated", "calls_that_raised", "results_checked", "heaps_compared", "pool_objects"]),
             G("m_memory", variant="asan", only=["results_outlive", "pool"], need=["results_checked", "pool_objects"], scale=0.5, scale_thorough=1.0),
             G("m_geometry", "m_text", "m_inverse_depth", "m_tiff", "m_panorama", "m_category", "m_mesh", "m_gltf", "m_glb", "m_box", "m_sampler", "m_cloud",
               "m_alias", "m_voxel", variant="asan", crash_only=True, scale=0.06, scale_thorough=0.5, need=["steps", "saved", "operations"])),
    "C24": P(G("m_fuzz", variant="asan", need=["ok", "refused", "hostile_uris", "rows_missing", "rows_complete", "code_in_projects", "code_in_models", "code_in_images_and_clouds"])),
    "C25": P(G("m_alias", need=["operations", "results_modified", "arguments_modified", "targets_modified", "moved_copies", "defaults"])),
    "C26": P(G("m_tool", need=["as_process", "in_process", "from_within", "tool_bounding_box", "tool_voxels", "tool_meshes", "against_definitions", "perfect",
                               "perfect_semantics", "perfect_perceptual", "refused_tracks"])),
    "C27": P(G("m_rotconv", need=["branch_0", "branch_1", "branch_2", "branch_3", "unique_angles"])),
    "C28": P(G("m_download", need=["files_compared", "resumed", "repeated", "markers_checked", "ended_at_a_file_operation", "ended_during_a_transfer",
                                   "lasting_faults", "lasting_damaged", "lasting_html", "unblocked", "refused_0", "refused_1", "refused_2", "refused_3", "enough_room"])),
    "C29": P(G("m_figures", scale=3.0, scale_thorough=1.0, need=["with_lut", "without_lut", "panoramas", "colored_points", "clouds", "rendered", "poses", "real_axes", "curves", "polygons",
                                  "different", "same", "normals_all", "normals_none", "normals_some", "timed", "timed_raising"])),
    "C22": P(G("m_metrics", only=["perceptual_scores"], need=["positive", "zero", "with_floor"])),
    "C13": P(G("m_cloud", need=["thinned_often", "ply_ascii", "ply_binary_big_endian", "ply_double", "write_failures_reported"])),
}
