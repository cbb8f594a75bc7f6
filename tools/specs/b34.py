ID = "c11-hash-of-the-other-file"
PROPERTY = "C11"
NEEDS = "a switch of the sampling model, after the hashes of the previous one were generated"
BREAKS = "the hash of the previous sampling model stays in use"
EDITS = [("pibronic/data/file_structure.py",
"""        if self._has_hash_values() and not force_flag:
""",
"""        if self._has_vib_hash() and not force_flag:
""")]
DEMO = '''
import dlib, os
from pibronic.data import file_structure as fs
from pibronic.vibronic import vIO

FS = dlib.project()
m = vIO.load_diagonal_model_from_JSON(FS.path_rho_model)
FS.change_rho(1)
from pibronic.vibronic import VMK
m[VMK.E] = m[VMK.E] + 0.01
vIO.save_diagonal_model_to_JSON(FS.path_rho_model, m)
FS.generate_model_hashes()
dlib.expect(getattr(FS, "hash_rho", None) == vIO.create_diagonal_model_hash(FS=FS), "hash_rho is not that of rho_1")
'''
