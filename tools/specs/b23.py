ID = "c06-only-sampling-hash"
PROPERTY = "C06"
NEEDS = "the coupled model is replaced while the sampling model stays the same, and another temperature is added"
BREAKS = "the answers stored for the previous coupled model stay in the file and get the hash of the new one"
EDITS = [("pibronic/julia_wrapper.py",
"""    elif old_dict["hash_vib"] != FS.hash_vib or old_dict["hash_rho"] != FS.hash_rho:
""",
"""    elif old_dict["hash_rho"] != FS.hash_rho:
""")]
DEMO = '''
import dlib
from pibronic import julia_wrapper as jw


class FS:
    hash_vib, hash_rho = "v2", "r"


old = {"hash_vib": "v1", "hash_rho": "r", "300.00": {"Z_rho": 1.0}}
jw.validate_old_rho_data(old, FS)
dlib.expect("300.00" not in old, "an answer of another model is stored under the hash of this one")
same = {"hash_vib": "v2", "hash_rho": "r", "300.00": {"Z_rho": 1.0}}
jw.validate_old_rho_data(same, FS)
dlib.expect("300.00" in same, "answers of the same models were dropped")
'''
