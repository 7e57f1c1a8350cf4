S = "sumo-api/sumo/"
MESH = '''
import numpy as np
from sumo.threedee.mesh import Mesh
from sumo.threedee.textured_mesh import TexturedMesh
from sumo.threedee.gltf_model import GltfModel
def tri(x=0.0, tex=None, uv=((0.1, 0.9, 0.1), (0.1, 0.1, 0.9))):
    v = np.array([[x, x + 1, x], [0, 0, 1], [0, 0, 0]], np.float32)
    n = np.array([[0, 0, 0], [0, 0, 0], [1, 1, 1]], np.float32)
    i = np.array([0, 1, 2], np.uint32)
    if tex is None:
        return Mesh(i, v, n)
    return TexturedMesh(i, v, n, np.array(uv, np.float32), np.ascontiguousarray(tex, np.uint8))
'''
BUGS = [
dict(id="c06-round-up", property="C06",
  edits=[(S + "threedee/model_sampler.pyx",
          "np.maximum(1, (density*areas)).astype(int)", "np.maximum(1, np.rint(density*areas)).astype(int)")],
  needs="a triangle whose density times area has a fractional part above one half",
  breaks="such triangles get one sample more than the whole part of density times area",
  demo=MESH + '''
from sumo.threedee.model_sampler import ModelSampler
m = GltfModel()
m.add_mesh(tri())
for density, n in [(2, 1), (5, 2), (7.9, 3), (8, 4)]:
    assert len(ModelSampler(density).run(m)) == n, (density, len(ModelSampler(density).run(m)))
'''),
dict(id="c06-one-pixel", property="C06",
  edits=[(S + "threedee/model_sampler.pyx",
          "if not mesh.is_textured() or h == 0 or w == 0:", "if not mesh.is_textured() or h * w < 2:")],
  needs="a model whose texture is a single pixel",
  breaks="points of a model with a one-pixel texture come out grey instead of having its colour",
  demo=MESH + '''
from sumo.threedee.model_sampler import ModelSampler
for shape in [(2, 2, 3), (1, 3, 3), (3, 1, 3), (1, 1, 3)]:
    m = GltfModel()
    m.add_mesh(tri(tex=np.full(shape, 37)))
    assert np.allclose(ModelSampler(50).run(m)[:, 3:], 37), shape
'''),
dict(id="c07-texture-name", property="C07",
  edits=[(S + "threedee/GltfModel.cpp",
          "  this->images.push_back(image);\n\n  // Add texture\n  tinygltf::Texture texture;\n  texture.source = this->images.size() - 1;\n  texture.sampler = 0;  // Default sampler.\n",
          "  size_t source = 0;\n  while (source < this->images.size() &&\n         this->images[source].name != image.name) {\n    source++;\n  }\n  if (source == this->images.size()) {\n    this->images.push_back(image);\n  }\n\n  // Add texture\n  tinygltf::Texture texture;\n  texture.source = source;\n  texture.sampler = 0;  // Default sampler.\n")],
  needs="two material changes with different texture files of the same base name (other folder, or rewritten file)",
  breaks="the second primitive gets the first texture",
  demo=MESH + '''
import os, struct, zlib
def png(path, rgb):
    ch = lambda t, d: struct.pack(">I", len(d)) + t + d + struct.pack(">I", zlib.crc32(t + d))
    open(path, "wb").write(b"\\x89PNG\\r\\n\\x1a\\n" + ch(b"IHDR", struct.pack(">IIBBBBB", 1, 1, 8, 2, 0, 0, 0)) +
                           ch(b"IDAT", zlib.compress(b"\\0" + bytes(rgb))) + ch(b"IEND", b""))
for k, rgb in [("a", (1, 2, 3)), ("b", (40, 50, 60))]:
    os.mkdir(k)
    png(k + "/wood.png", rgb)
m = GltfModel()
m.add_mesh(tri(tex=np.zeros((2, 2, 3)))); m.add_mesh(tri(tex=np.zeros((2, 2, 3))))
c = np.zeros(3)
m.update_materials(u".", [{"color": c, "uri": u"a/wood.png"}, {"color": c, "uri": u"b/wood.png"}])
assert m.extract_primitive_mesh(0).base_color().tolist() == [[[1, 2, 3]]]
assert m.extract_primitive_mesh(1).base_color().tolist() == [[[40, 50, 60]]]
'''),
dict(id="c07-first-primitive", property="C07",
  edits=[(S + "threedee/GltfModel.cpp",
          "mesh.primitives[primitiveIndex];", "mesh.primitives[0];")],
  needs="a material change to a primitive that is not the first of its glTF mesh (only files have such meshes)",
  breaks="the change goes to another primitive than the one named",
  demo='''
import json, struct
import numpy as np
from sumo.threedee.gltf_model import GltfModel
f = struct.pack("<9f", 0, 0, 0, 1, 0, 0, 0, 1, 0) + struct.pack("<9f", *[0, 0, 1] * 3) + struct.pack("<3I", 0, 1, 2)
open("b.bin", "wb").write(f)
prim = {"attributes": {"POSITION": 0, "NORMAL": 1}, "indices": 2, "material": 0, "mode": 4}
acc = lambda v, c, t: {"bufferView": v, "byteOffset": 0, "componentType": c, "count": 3, "type": t,
                       "min": [0, 0, 0][:1 if t == "SCALAR" else 3], "max": [2, 2, 2][:1 if t == "SCALAR" else 3]}
json.dump({"asset": {"version": "2.0"}, "scene": 0, "scenes": [{"nodes": [0]}], "nodes": [{"mesh": 0}],
  "buffers": [{"uri": "b.bin", "byteLength": len(f)}],
  "bufferViews": [{"buffer": 0, "byteOffset": o, "byteLength": n, "target": t} for o, n, t in
                  [(0, 36, 34962), (36, 36, 34962), (72, 12, 34963)]],
  "accessors": [acc(0, 5126, "VEC3"), acc(1, 5126, "VEC3"), acc(2, 5125, "SCALAR")],
  "materials": [{"name": "m"}], "meshes": [{"primitives": [prim, prim]}]}, open("a.gltf", "w"))
m = GltfModel.load_from_gltf(u"a.gltf")
old = m.extract_primitive_mesh(0)
m.update_materials(u".", [None, {"color": np.array([0.5, 0.25, 1.0]), "uri": u""}])
assert m.extract_primitive_mesh(0).has_same_material(old)
assert not m.extract_primitive_mesh(1).has_same_material(old)
'''),
dict(id="c08-long-edge", property="C08",
  edits=[(S + "threedee/Mesh.cpp",
          "        dist(triangle.c, triangle.a) <= threshold) {", "        dist(triangle.c, triangle.b) <= threshold) {")],
  needs="a triangle of which only the closing edge (third to first vertex) exceeds the threshold",
  breaks="clean-up of long edges keeps triangles with one long edge",
  demo='''
import numpy as np
from sumo.threedee.mesh import Mesh
v = np.array([[0, 3, 6], [0, 0, 0.5], [0, 0, 0]], np.float32)
for i in [(0, 1, 2), (1, 2, 0), (2, 0, 1), (2, 1, 0)]:
    m = Mesh(np.array(i, np.uint32), v, np.zeros((3, 3), np.float32))
    m.cleanup_long_edges(5)
    assert m.num_indices() == 0, i
    m = Mesh(np.array(i, np.uint32), v, np.zeros((3, 3), np.float32))
    m.cleanup_long_edges(6.5)
    assert m.num_indices() == 3, i
'''),
dict(id="c08-common-all", property="C08",
  edits=[(S + "threedee/Mesh.cpp",
          "  for (const size_t& index2 : mesh2.indices()) {\n    indices_.push_back(index2 < numCommonVertices ? index2 : index2 + offset);\n  }\n",
          "  if (offset > 0 || numVertices() == 0) {\n    for (const size_t& index2 : mesh2.indices()) {\n      indices_.push_back(index2 < numCommonVertices ? index2 : index2 + offset);\n    }\n  }\n")],
  needs="a merge into a mesh that has exactly the common vertices",
  breaks="the triangles of the second mesh are lost",
  demo='''
import numpy as np
from sumo.threedee.mesh import Mesh
def mesh(n, i, s):
    v = np.arange(3 * n, dtype=np.float32).reshape(3, n) + s
    return Mesh(np.array(i, np.uint32), v, np.zeros((3, n), np.float32))
for common in range(5):
    a, b = mesh(4, [0, 1, 3], 0), mesh(5, [0, 1, 2, 1, 2, 3], 100)
    a.merge(b, common)
    want = [0, 1, 3] + [i if i < common else i + 4 - common for i in [0, 1, 2, 1, 2, 3]]
    assert list(a.indices()) == want, (common, a.indices())
'''),
dict(id="c09-merge-empty", property="C09",
  edits=[(S + "threedee/point_cloud.pyx",
          "      result = cls()\n      result.append(first)\n      result.append(second)\n",
          "      result = cls() if second.num_points() > 0 else first\n      if result is not first:\n          result.append(first)\n      result.append(second)\n")],
  needs="merging with an empty cloud, then appending to the result",
  breaks="the merged cloud is the first operand itself, so appending to it changes the operand",
  demo='''
import numpy as np
from sumo.threedee.point_cloud import PointCloud
a, b = PointCloud(np.zeros((3, 2))), PointCloud()
for x, y in [(a, b), (b, a)]:
    m = PointCloud.merge(x, y)
    m.append(PointCloud(np.ones((3, 1))))
    assert m.num_points() == 3 and a.num_points() == 2 and b.num_points() == 0
'''),
dict(id="c09-register-empty", property="C09",
  edits=[(S + "threedee/PointCloud.h",
          "      points_.insert(\n          points_.end(), cloud->points_.begin(), cloud->points_.end());\n"
          "      colors_.insert(\n          colors_.end(), cloud->colors_.begin(), cloud->colors_.end());\n",
          "      points_.insert(\n          points_.end(), cloud->points_.begin(), cloud->points_.end());\n"
          "      colors_.insert(\n          cloud->colors_.size() == 1 ? colors_.begin() : colors_.end(),\n"
          "          cloud->colors_.begin(), cloud->colors_.end());\n")],
  needs="registering a coloured cloud with a single point after other clouds",
  breaks="the colours no longer belong to their points",
  demo='''
import numpy as np
from sumo.threedee.point_cloud import PointCloud
from sumo.geometry.pose3 import Pose3
def cloud(*v):
    return PointCloud(np.array([v] * 3, float), np.array([v] * 3, np.uint8))
for parts in [[(1, 2), (3, 4)], [(1, 2), (3,)], [(1,), (2,)], [(1,), (2, 3), (4,)]]:
    c = PointCloud.register([(Pose3(), cloud(*p)) for p in parts])
    assert (c.points() == c.colors()).all(), (parts, c.points(), c.colors())
'''),
dict(id="c10-near-default", property="C10",
  edits=[(S + "images/RgbdTiff.cpp",
          "    // Default near plane when this tag is missing\n    meta->depthNearPlane = 1.0;",
          "    // Default near plane when this tag is missing\n    meta->depthNearPlane = meta->version >= 1 ? 0.3 : 1.0;")],
  needs="a file whose metadata has a version and no near plane",
  breaks="the depths of such files come back scaled by 0.3",
  demo='''
import numpy as np
from sumo.images import rgbd_tiff as r
from sumo.images.rgbd_tiff import MultiImagePageType as P
depth = np.array([[2.0, 4.0]], np.float32)
r.save({P.RGB: np.zeros((1, 2, 3), np.uint8), P.Depth: depth}, u"a.tif", near=1.0)
b = open("a.tif", "rb").read()
k = b.index(b'{"near":1')
e = b.index(b"}", k) + 1
new = b'{"version":1}'
assert len(new) <= e - k
open("b.tif", "wb").write(b[:k] + new + b" " * (e - k - len(new)) + b[e:])
for f in [u"a.tif", u"b.tif"]:
    assert np.allclose(r.load(f)[P.Depth], depth, rtol=1e-3), (f, r.load(f)[P.Depth])
'''),
dict(id="c10-semantic-page", property="C10",
  edits=[(S + "images/RgbdTiff.cpp",
          "  {\"semantic\", TiffPageType::Category},", "  {\"semantic\", TiffPageType::Instance},")],
  needs="a file in the older layout whose category page is named 'semantic'",
  breaks="the categories of such files are read as instances",
  demo='''
import numpy as np
from sumo.images import rgbd_tiff as r
from sumo.images.rgbd_tiff import MultiImagePageType as P
cat = np.array([[7, 9]], np.uint16)
r.save({P.RGB: np.zeros((1, 2, 3), np.uint8), P.Depth: np.ones((1, 2), np.float32), P.Category: cat}, u"a.tif")
b = open("a.tif", "rb").read()
assert b.count(b"category\\0") == 1
open("b.tif", "wb").write(b.replace(b"category\\0", b"semantic\\0"))
for f in [u"a.tif", u"b.tif"]:
    p = r.load(f)
    assert P.Instance not in p and (p[P.Category] == cat).all(), (f, p)
'''),
dict(id="c11-floor", property="C11",
  edits=[(S + "geometry/inverse_depth.pyx",
          "        return <Uint8>(0.5 + near * 255 / depth)", "        return <Uint8>(near * 256 / depth)")],
  needs="an 8-bit code of a depth whose inverse lies in the upper half of a step, for low codes",
  breaks="a depth can be off by almost a whole quantisation step; codes still decode to themselves",
  demo='''
import numpy as np
from sumo.geometry import inverse_depth as d
for x in np.linspace(1.0, 250.0, 4000):
    inv = 1 / np.float64(np.float32(1.0 / (x / 255)))
    code = d.uint8_inverse_depth_of_depth(np.float32(1 / inv), 1.0)
    assert abs(code / 255. - inv) <= 0.5001 / 255, (x, code)
'''),
dict(id="c12-odd-side", property="C12",
  edits=[(S + "images/CubeMap.h",
          "    pp_(Vector2(side / 2., side / 2.))   {", "    pp_(Vector2(side / 2, side / 2))   {")],
  needs="a cube map whose faces have an odd number of pixels per side",
  breaks="the principal point is half a pixel off, so points lie on the wrong rays",
  demo='''
import numpy as np
from sumo.images.rgbdci_360 import Rgbdci360
for side in [2, 4, 1, 3, 5]:
    n = (side, 6 * side)
    im = Rgbdci360(np.zeros(n + (3,), np.uint8), np.ones(n, np.float32), np.zeros(n, np.uint16), np.zeros(n, np.uint16))
    p = im.create_point_cloud().points()
    assert np.abs(p.mean(axis=1)).max() < 1e-6, (side, p.mean(axis=1))
'''),
dict(id="c12-far", property="C12",
  edits=[(S + "images/Rgbdci360.cpp",
          "if (range_value > 0.0 and range_value != INFINITY) {", "if (range_value > 1e-6f and range_value != INFINITY) {")],
  needs="pixels with a positive range below a micrometre",
  breaks="pixels with a valid range have no point in the cloud",
  demo='''
import numpy as np
from sumo.images.rgbdci_360 import Rgbdci360
n = (1, 6)
rng = np.array([[1, 0, np.inf, 1e-7, 1e-20, 1e30]], np.float32)
im = Rgbdci360(np.zeros(n + (3,), np.uint8), rng, np.zeros(n, np.uint16), np.zeros(n, np.uint16))
assert im.create_point_cloud().num_points() == 4
'''),
dict(id="c13-in-place", property="C13",
  edits=[(S + "geometry/pose3.pyx",
          "        return self.R.unrotate(np.transpose(np.transpose(q) - self.t))\n",
          "        p = np.transpose(q)\n        if p.dtype == np.float64 and p.shape[0] == 1:\n            p -= self.t\n        else:\n            p = p - self.t\n        return self.R.unrotate(np.transpose(p))\n")],
  needs="using an array of one point again after transforming it to a frame (with a non-zero translation)",
  breaks="the point given to transform_all_to is changed",
  demo='''
import numpy as np
from sumo.geometry.pose3 import Pose3
for n in (0, 1, 2, 3):
    p = np.arange(3.0 * n).reshape(3, n)
    Pose3(t=np.array([1.0, 1.0, 1.0])).transform_all_to(p)
    assert (p == np.arange(3.0 * n).reshape(3, n)).all(), n
'''),
dict(id="c13-one-column", property="C13",
  edits=[(S + "geometry/pose3.pyx",
          "            if other.ndim==1:", "            if other.size==3:")],
  needs="applying a pose with * to a 3 x 1 array of points",
  breaks="a single point given as a column gives a 3 x 3 array",
  demo='''
import numpy as np
from sumo.geometry.pose3 import Pose3
T = Pose3(t=np.array([1.0, 2.0, 3.0]))
for n in range(4):
    p = np.ones((3, n))
    assert (T * p).shape == (3, n), (T * p).shape
    assert np.array_equal(T * p, T.transform_all_from(p))
'''),
dict(id="c19-scanline", property="C19",
  edits=[(S + "images/RgbdTiff.cpp",
          "    if (status == -1) {\n      throw runtime_error(\"readImage: error reading scanline\");",
          "    if (status == -1 && y == 0) {\n      throw runtime_error(\"readImage: error reading scanline\");")],
  needs="a file with damaged pixel data after the first row of a page",
  breaks="rows that cannot be read come back with arbitrary pixels instead of an error",
  demo='''
import numpy as np
from sumo.images.multi_image_tiff import MultiImageTiff, MultiImagePageType as P
np.random.seed(1)
rgb = np.random.randint(0, 256, (300, 300, 3)).astype(np.uint8)
MultiImageTiff({P.RGB: rgb, P.Depth: np.ones((300, 300), np.float32)}).save(u"a.tif")
b = bytearray(open("a.tif", "rb").read())
bad = 0
for k in range(len(b) // 10, len(b) // 2, len(b) // 40):
    c = bytearray(b)
    c[k:k + 200] = bytes(200)
    open("b.tif", "wb").write(bytes(c))
    try:
        MultiImageTiff.load(u"b.tif")
    except Exception:
        bad += 1
assert bad > 0
'''),
dict(id="c20-shared-lut", property="C20",
  edits=[(S + "base/colored_category.pyx",
          "            total = len(self._data)\n            self._lut = np.array([x[\"color\"]\n                for x in self._data], dtype=np.uint8)\n",
          "            total = len(self._data)\n            if total not in _LUTS:\n                _LUTS[total] = np.array([x[\"color\"]\n                    for x in self._data], dtype=np.uint8)\n            self._lut = _LUTS[total]\n"),
         (S + "base/colored_category.pyx",
          "class ColoredCategory", "_LUTS = {}\n\nclass ColoredCategory")],
  needs="two colour tables of the same length in one process",
  breaks="images converted with the second table get the colours of the first",
  demo='''
import numpy as np
from sumo.base.colored_category import ColoredCategory
for i, name in enumerate(["a.csv", "b.csv"]):
    with open(name, "w") as f:
        f.write("id,category,is_evaluated,color\\n0,x,True,%d;1;2\\n1,y,True,%d;3;4\\n" % (i, 10 + i))
for i, name in enumerate(["a.csv", "b.csv"]):
    c = ColoredCategory(name)
    assert [tuple(r) for r in c.LUT] == [c.category_id_to_rgb(k) for k in (0, 1)], (name, c.LUT)
'''),
dict(id="c20-byte-ids", property="C20",
  edits=[(S + "base/colored_category.pyx",
          "        return self.LUT[indexed_im]", "        return self.LUT[indexed_im if len(self._data) > 255 else indexed_im.astype(np.uint8)]")],
  needs="an image with ids of 256 and above and a table of fewer rows",
  breaks="ids beyond the table wrap around to a colour instead of raising an index error",
  demo='''
import numpy as np
from sumo.base.colored_category import ColoredCategory
with open("a.csv", "w") as f:
    f.write("id,category,is_evaluated,color\\n0,x,True,5;1;2\\n1,y,True,6;3;4\\n")
c = ColoredCategory("a.csv")
for bad in [2, 255, 256, 257, 60000]:
    try:
        c.convert_to_rgb_im(np.array([[0, bad]], np.int32))
    except IndexError:
        continue
    raise SystemExit("id %d gives a colour" % bad)
'''),
dict(id="c21-flat-merge", property="C21",
  edits=[(S + "threedee/box_3d.pyx",
          "        mins = np.column_stack([box.min_corner for box in boxes])\n        maxs = np.column_stack([box.max_corner for box in boxes])\n",
          "        solid = [box for box in boxes if box.volume() > 0] or boxes\n        mins = np.column_stack([box.min_corner for box in solid])\n        maxs = np.column_stack([box.max_corner for box in solid])\n")],
  needs="merging several boxes of which one is flat and reaches outside the others",
  breaks="flat boxes are left out of the merged box",
  demo='''
from sumo.threedee.box_3d import Box3d
from sumo.base.vector import Vector3
a = Box3d(Vector3(0, 0, 0), Vector3(1, 1, 1))
b = Box3d(Vector3(-5, 0.5, 0), Vector3(7, 0.5, 1))
m = Box3d.merge([a, b])
assert list(m.min_corner) == [-5, 0, 0] and list(m.max_corner) == [7, 1, 1], str(m)
'''),
dict(id="c21-tolerance", property="C21",
  edits=[(S + "threedee/box_3d.pyx",
          "                np.allclose(self._max_corner, other._max_corner, *args, **kwargs))",
          "                np.allclose(self._max_corner, other._max_corner, *args))")],
  needs="approximate comparison with a tolerance given by keyword, of boxes that differ at the maximum corner",
  breaks="the tolerance is not applied to the maximum corner",
  demo='''
from sumo.threedee.box_3d import Box3d
from sumo.base.vector import Vector3
a = Box3d(Vector3(0, 0, 0), Vector3(1, 1, 1))
for c, d in [((0, 0, -0.1), (1, 1, 1)), ((0, 0, 0), (1, 1, 1.1))]:
    b = Box3d(Vector3(*c), Vector3(*d))
    assert a.almost_equal(b, atol=0.2) and not a.almost_equal(b, atol=0.05, rtol=0.0)
    assert a.almost_equal(b, 0, 0.2)
'''),
dict(id="c25-skip-existing", property="C25",
  edits=[("tools/download_sumo_datasets.py",
          "            zip.extractall(path=args.destination_dir)\n",
          "            zip.extractall(\n                path=args.destination_dir,\n                members=[name for name in zip.namelist() if not os.path.exists(\n                    os.path.join(args.destination_dir, name))])\n")],
  needs="a run that is killed in the middle of extracting a file, then another run",
  breaks="the half-written file is kept and its archive recorded as done and deleted",
  demo='''
import argparse, os, sys, types, zipfile
sys.modules["requests"] = types.ModuleType("requests")
sys.path.insert(0, os.path.join(os.environ["REPO"], "tools"))
import download_sumo_datasets as d
os.mkdir("dest"); os.mkdir("dest/.cache")
with zipfile.ZipFile("dest/a.zip", "w") as z:
    z.writestr("one.txt", "one" * 100)
    z.writestr("two.txt", "two" * 100)
open("dest/one.txt", "w").write("one")          # what a killed extraction left
args = argparse.Namespace(destination_dir="dest", cache_folder="dest/.cache", training_input=["a.zip"],
                          training_ground_truth=[])
d.unzip_one(args, "a.zip")
assert os.path.exists("dest/.cache/a.cache")
assert open("dest/one.txt").read() == "one" * 100
'''),
dict(id="c25-record-first", property="C25",
  edits=[("tools/download_sumo_datasets.py",
          "        with zipfile.ZipFile(zip_file_path, \"r\") as zip:\n            zip.extractall(path=args.destination_dir)\n        os.remove(zip_file_path)\n        with open(\n",
          "        with open(\n"),
         ("tools/download_sumo_datasets.py",
          "            f.write(\"complete\")\n",
          "            f.write(\"complete\")\n        with zipfile.ZipFile(zip_file_path, \"r\") as zip:\n            zip.extractall(path=args.destination_dir)\n        os.remove(zip_file_path)\n")],
  needs="an extraction that fails or is killed half-way",
  breaks="the archive is recorded as done although its contents are incomplete",
  demo='''
import argparse, os, sys, types, zipfile
sys.modules["requests"] = types.ModuleType("requests")
sys.path.insert(0, os.path.join(os.environ["REPO"], "tools"))
import download_sumo_datasets as d
os.mkdir("dest"); os.mkdir("dest/.cache")
with zipfile.ZipFile("dest/a.zip", "w") as z:
    z.writestr("one.txt", "one" * 100)
    z.writestr("two.txt", "two" * 100)
b = bytearray(open("dest/a.zip", "rb").read())
b[b.index(b"twotwo")] ^= 1
open("dest/a.zip", "wb").write(bytes(b))
args = argparse.Namespace(destination_dir="dest", cache_folder="dest/.cache", training_input=["a.zip"],
                          training_ground_truth=[])
d.unzip_one(args, "a.zip")
assert not os.path.exists("dest/.cache/a.cache")
'''),
dict(id="c01-score-zero", property="C01",
  edits=[(S + "semantic/project_object.py",
          "        score = proxy.score\n", "        score = None\n"),
         (S + "semantic/project_object.py",
          "        return (id, pose, category, bounds, symmetry, score, evaluated)\n",
          "        return (id, pose, category, bounds, symmetry, score or proxy.score, evaluated)\n")],
  needs="an object with a detection score of exactly zero",
  breaks="a score of zero comes back as -1 (not used)",
  demo='''
import numpy as np
from sumo.semantic.project_object import ProjectObject
from sumo.threedee.box_3d import Box3d
for score in [-1, 0.5, 0, 1]:
    for ev in [True, False]:
        o = ProjectObject.gen_bounding_box_object("a", bounds=Box3d(np.zeros(3), np.ones(3)), score=score, evaluated=ev)
        back = ProjectObject.load("bounding_box", o.save())
        assert back.evaluated is ev and back.score == score, (score, ev)
'''),
dict(id="c02-late-write", property="C02",
  edits=[(S + "semantic/project_scene.py",
          "        #  elements\n        scene.append(self.elements.save(project_dir))\n\n        # Write xml to disk\n        xml_tree = ET.ElementTree(scene)\n        filename = os.path.join(project_dir, project_name + \".xml\")\n        with open(filename, \"wb\") as file:\n            xml_tree.write(file, encoding=\"utf-8\", xml_declaration=True)\n",
          "        #  elements\n        filename = os.path.join(project_dir, project_name + \".xml\")\n        for partial in [{}, self.elements]:\n            elements = ET.SubElement(scene, \"elements\")\n            if partial:\n                scene.remove(elements)\n                scene.remove(scene.find(\"elements\"))\n                scene.append(self.elements.save(project_dir))\n            # Write xml to disk\n            xml_tree = ET.ElementTree(scene)\n            with open(filename, \"wb\") as file:\n                xml_tree.write(file, encoding=\"utf-8\", xml_declaration=True)\n            if not self.elements:\n                break\n")],
  needs="a crash while the objects of a scene are being written",
  breaks="an interrupted save leaves a scene that loads without its objects",
  demo='''
import os
from sumo.semantic.project_object import ProjectObject
from sumo.semantic.project_object_dict import ProjectObjectDict
from sumo.semantic.project_scene import ProjectScene
import sumo.semantic.project_object as po
s = ProjectScene("meshes", elements=ProjectObjectDict({"1": ProjectObject.example("1"), "2": ProjectObject.example("2")}))
pid = os.fork()
if pid == 0:
    save, n = ProjectObject.save, []
    def dies(self, *a, **k):
        n.append(1)
        if len(n) == 2:
            os._exit(0)
        return save(self, *a, **k)
    ProjectObject.save = dies
    s.save(".", "x")
    os._exit(1)
assert os.waitpid(pid, 0)[1] == 0
try:
    t = ProjectScene.load(".", "x")
except Exception:
    t = None
assert t is None or len(t.elements) == 2, len(t.elements)
'''),
]
