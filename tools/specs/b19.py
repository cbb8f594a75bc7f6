ID = "c12-remembered-file"
PROPERTY = "C12"
NEEDS = "an operator file is replaced by one of the same name, and read again in the same process"
BREAKS = "the second creation stores the model of the first version of the file"
EDITS = [("pibronic/vibronic/vibronic_model_io.py",
"""def read_model_op_file(path_file_op):
    \"\"\" wrapper function to maintain functionality - possible remove in the future\"\"\"
    return model_op.read_model_op_file(path_file_op)
""",
"""_op_models = {}


def read_model_op_file(path_file_op):
    \"\"\" wrapper function to maintain functionality - possible remove in the future\"\"\"
    # parsing takes long for molecules with many modes, and many data sets can use the same file
    if path_file_op not in _op_models:
        _op_models[path_file_op] = model_op.read_model_op_file(path_file_op)
    return copy.deepcopy(_op_models[path_file_op])
""")]
DEMO = '''
import dlib, os, shutil
import numpy as np
from pibronic.data import file_structure as fs
from pibronic.vibronic import vIO, VMK

FS = fs.FileStructure(dlib.root(), 1, 0)
path = os.path.join(dlib.SCRATCH, "model.op")
energies = []
for name in ("fake_vibron_0.op", "fake_vibron_1.op"):
    shutil.copy(os.path.join("examples", name), path)
    vIO.create_coupling_from_op_file(FS, path)
    got = vIO.load_model_from_JSON(FS.path_vib_model)
    from pibronic.vibronic import model_op
    want = model_op.read_model_op_file(path)
    for k in (VMK.E, VMK.w):
        dlib.expect(np.shape(got[k]) == np.shape(want[k]) and np.allclose(got[k], want[k]),
                    f"{name}: {k} is that of another file")
'''
