ID = "c12-tiny-couplings"
PROPERTY = "C12"
NEEDS = "an operator file in which all the couplings of one order are tiny (below 1e-8 eV)"
BREAKS = "these couplings are missing in the model that is created"
EDITS = [("pibronic/vibronic/model_op.py",
"""    return_dict = dict((k, v) for k, v in maximal_dict.items() if not np.all(v == 0))
""",
"""    return_dict = dict((k, v) for k, v in maximal_dict.items() if not np.allclose(v, 0))
""")]
DEMO = '''
import dlib, os, re
from pibronic.data import file_structure as fs
from pibronic.vibronic import vIO, VMK
FS = fs.FileStructure(dlib.root(), 1, 0)
text = open(os.path.join("examples", "fake_vibron_0.op")).read()
n = 0
def tiny(g):
    global n
    n += 1
    return f"{g.group(1)}=   {2 + n % 7}.0e-09    , ev"
text = re.sub(r"(?m)^(C1_s\\d+_s\\d+_v\\d+ *)= *[-\\d.]+ *, ev", tiny, text)
dlib.expect(n > 0, "no couplings in the file") 
path = os.path.join(dlib.SCRATCH, "model.op")
open(path, "w").write(text)
vIO.create_coupling_from_op_file(FS, path)
got = vIO.load_model_from_JSON(FS.path_vib_model)
dlib.expect(VMK.G1 in got and (got[VMK.G1] != 0).any(), "the linear couplings of the file are not in the model")
'''
