import numpy as np


def remove_duplicated_vertices_raw(vertices, faces, tol=1e-12, importance=None):
    vertices = np.asarray(vertices, dtype=float).reshape(-1, 3)
    faces = np.asarray(faces, dtype=int).reshape(-1, 3)
    if len(vertices) == 0:
        return vertices, faces, {"num_vertex_merged": 0, "index_map": np.zeros(0, int)}
    uniq, inv = np.unique(vertices, axis=0, return_inverse=True)
    inv = inv.reshape(-1)
    return uniq, inv[faces], {"num_vertex_merged": len(vertices) - len(uniq), "index_map": inv}
