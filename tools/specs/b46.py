ID = "c06-zero-answers"
PROPERTY = "C06"
NEEDS = "one of the values the external program answers is exactly zero"
BREAKS = "the quantity is left out of the stored answer, which is then incomplete"
EDITS = [("pibronic/julia_wrapper.py",
"""        if oldKey in output_dict:
            temp_dict[newKey] = float(output_dict[oldKey])
""",
"""        value = float(output_dict.get(oldKey, 0.0))
        if value:
            temp_dict[newKey] = value
""")]
DEMO = '''
import dlib, os, json
from pibronic import julia_wrapper as jw
from pibronic import constants
FS = dlib.project()
dlib.program("julia", """
    import sys
    if "-v" in sys.argv:
        print("julia version 1.0.0")
    elif "-e" in sys.argv:
        print("/x/VibronicToolkit/src/VibronicToolkit.jl")
    else:
        print("beta: 3.0")
        print("Z_sos: 1.5")
        print("E_sos: 0.0")
        print("Cv_sos: 0.0")
""")
jw.sos_of_coupled_model(FS, 8, constants.beta(300.0))
with open(FS.template_sos_vib.format(B=8)) as f:
    d = json.load(f)["300.00"]
want = {jw_key: x for jw_key, x in zip(jw.keyDict, jw.keyDict.values())}
missing = [k for k, v in jw.keyDict.items() if v in ("Z_sos", "E_sos", "Cv_sos") and k not in d]
dlib.expect(not missing, f"the stored answer {d} lacks {missing}")
'''
