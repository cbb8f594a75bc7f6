ID = "c04-either-hash"
PROPERTY = "C04"
NEEDS = "results of an older sampling model in the results directory (only the sampling model was replaced)"
BREAKS = "a result file is accepted when only one of its two hashes matches"
EDITS = [("pibronic/data/postprocessing.py",
"""                if file['hash_vib'] == FS.hash_vib and file['hash_rho'] == FS.hash_rho:
""",
"""                if FS.hash_vib in (file['hash_vib'], file['hash_rho']):
""")]
DEMO = '''
import dlib
from pibronic.data import postprocessing as pp

FS = dlib.project()
good, _ = dlib.result_file(FS, 4, 300.0, 1, 5)
old, _ = dlib.result_file(FS, 4, 300.0, 2, 5, hash_rho="0" * 128)
older, _ = dlib.result_file(FS, 4, 300.0, 3, 5, hash_vib="0" * 128)
dlib.expect(pp.prune_results_using_hashes(FS, [good, old, older]) == [good],
            "results of another model were accepted")
'''
