ID = "c01-params-reused-between-beads"
PROPERTY = "C01"
NEEDS = "one request for two or more bead numbers at the same temperature"
BREAKS = "the parameters are copied once per temperature, so the job of the second bead number carries the serialized parameters and options of the first inside its own; the quotes nest and the job is submitted with other parameters"
EDITS = [("pibronic/server/job_boss.py",
"""        for T in temperature_list:
            for P in bead_list:

                params = copy.deepcopy(self.param_dict)
                params["number_of_beads"] = P
                params["number_of_links"] = P
                params["temperature"] = T
""",
"""        for T in temperature_list:

            params = copy.deepcopy(self.param_dict)
            params["temperature"] = T

            for P in bead_list:

                params["number_of_beads"] = P
                params["number_of_links"] = P
""")]
DEMO = '''
import json, dlib
from pibronic.server import job_boss

dlib.program("scontrol", "print('ClusterName             = nlogn')")
dlib.program("sinfo", "print('PARTITION\\\\nserial')")
dlib.program("sbatch", """
    import os, sys, json
    with open(os.path.join(os.environ['SCRATCH'], 'log'), 'a') as f:
        f.write(json.dumps(sys.argv) + '\\\\n')
    print('Submitted batch job 100')
""")
FS = dlib.project()
d = dict(number_of_samples=10, block_size=5, temperature_list=[300.0], bead_list=[4, 5, 6],
         number_of_states=2, number_of_modes=2, id_data=1, id_rho=0)
job_boss.PimcSubmissionClass(FS, d).submit_jobs()
lines = [json.loads(x) for x in open(dlib.SCRATCH + "/log")]
dlib.expect(len(lines) == 3, "three jobs")
beads = []
for argv in lines:
    export = [x for x in argv if x.startswith("--export=")][0]
    text = export.split("EXECUTION_PARAMETERS=")[1]
    try:
        p = json.loads(text.replace(";", ","))
    except ValueError:
        dlib.expect(False, "the parameters of a job are not readable: " + text[:200])
    for k in ("export_options", "execution_parameters"):
        dlib.expect(k not in p or not p[k], f"the parameters of another job in {k}")
    beads.append(p["number_of_beads"])
dlib.expect(beads == [4, 5, 6], f"beads {beads}")
'''
