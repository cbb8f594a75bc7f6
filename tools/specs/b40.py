ID = "c18-basis-of-either"
PROPERTY = "C18"
NEEDS = "sum over states references of the two kinds with different sets of basis sizes"
BREAKS = "basis sizes for which only one of the two references exists are offered as well"
EDITS = [("pibronic/data/postprocessing.py",
"""    list_sos = list(set(cL) & set(sL))
    list_sos.sort()
    return list_sos
""",
"""    list_sos = list(set(cL) | set(sL))
    list_sos.sort()
    return list_sos
""")]
DEMO = '''
import dlib
from pibronic.data import postprocessing as pp
got = pp.extract_sos_basis_paramater_list(["/a/sos_B8.json", "/a/sos_B10.json"], ["/b/sos_B10.json", "/b/sos_B80.json"])
dlib.expect(got == [10], f"{got}")
'''
