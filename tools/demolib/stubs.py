"""Stand-ins for packages that sumo.metrics imports and that are not installed.
pymesh.boolean only knows axis-aligned boxes."""
import sys
import types
from unittest.mock import MagicMock

import numpy as np


class _Mesh:
    def __init__(self, v, f):
        self.vertices, self.faces = np.array(v, float), np.array(f)

    @property
    def volume(self):
        if len(self.vertices) == 0:
            return 0.0
        return float(np.prod(self.vertices.max(0) - self.vertices.min(0)))


def _boolean(a, b, operation):
    lo = np.maximum(a.vertices.min(0), b.vertices.min(0))
    hi = np.minimum(a.vertices.max(0), b.vertices.max(0))
    if np.any(lo >= hi):
        return _Mesh(np.zeros((0, 3)), np.zeros((0, 3), int))
    return _Mesh([lo, hi], np.zeros((0, 3), int))


def install():
    p = types.ModuleType("pymesh")
    p.form_mesh, p.boolean = _Mesh, _boolean
    u = types.ModuleType("pymesh.meshutils")
    u.remove_duplicated_vertices_raw = lambda v, f: (v, f, None)
    p.meshutils = u
    sys.modules.update({"pymesh": p, "pymesh.meshutils": u, "pyny3d": MagicMock(),
                        "pyny3d.geoms": MagicMock()})
    import matplotlib
    use = matplotlib.use
    matplotlib.use = lambda *a, **k: None
