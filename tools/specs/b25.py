ID = "c11-hashes-of-first-file"
PROPERTY = "C11"
NEEDS = "a model file is replaced while a FileStructure of its data set exists, and the hashes are generated again by force"
BREAKS = "generating the hashes again keeps the hash of the coupled model that was there first"
EDITS = [("pibronic/data/file_structure.py",
"""        self.hash_vib = vIO.create_model_hash(FS=self)
        self.hash_rho = vIO.create_diagonal_model_hash(FS=self)
        return
""",
"""        # the coupled model is the same for every sampling model of a data set
        if not self._has_vib_hash():
            self.hash_vib = vIO.create_model_hash(FS=self)
        self.hash_rho = vIO.create_diagonal_model_hash(FS=self)
        return
""")]
DEMO = '''
import dlib
from pibronic.data import file_structure as fs
from pibronic.vibronic import vIO

FS = dlib.project()
vIO.save_model_to_JSON(FS.path_vib_model, dlib.model(scale=1.7))
FS.generate_model_hashes(force_flag=True)
dlib.expect(FS.hash_vib == vIO.create_model_hash(FS=FS), "hash_vib is that of a previous model")
'''
