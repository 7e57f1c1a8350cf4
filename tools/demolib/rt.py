from mc import stubs; stubs.install()
import unittest,sys
s=unittest.TestSuite()
for m in ("bb_evaluator_tests","mesh_evaluator_tests","voxel_evaluator_tests","util_tests"):
    s.addTests(unittest.defaultTestLoader.loadTestsFromName("sumo.metrics.tests."+m))
unittest.TextTestRunner(verbosity=1).run(s)
