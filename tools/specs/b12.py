ID = "c09-analytic-cache"
PROPERTY = "C09"
NEEDS = "one worker process handles the tasks of two temperatures"
BREAKS = "each worker keeps the analytic data it loaded first and uses it for the other temperatures it is handed"
EDITS = [("pibronic/stats/stats.py",
"""    pimc_results = BoxResultPM()
    rhoData = {}

    # load the data
    pp.load_pimc_data(FS, P, T, pimc_results)
    pp.load_analytic_data(FS, T, rhoData)
""",
"""    pimc_results = BoxResultPM()
    rhoData = __analytic_cache.setdefault(FS.path_analytic_rho, {})

    # load the data
    pp.load_pimc_data(FS, P, T, pimc_results)
    if not rhoData:
        pp.load_analytic_data(FS, T, rhoData)
"""), ("pibronic/stats/stats.py",
"""__number_of_processes = 12
""",
"""__number_of_processes = 12

# the analytic data that this process has loaded
__analytic_cache = {}
""")]
DEMO = '''
import dlib, json, glob, contextlib, io
import numpy as np
from pibronic.stats import stats

FS = dlib.project()
Ts = [100.0 + 10 * i for i in range(12)]
dlib.analytic(FS, Ts)
data = {}
for T in Ts:
    for P in (4, 5, 6):
        _, data[P, T] = dlib.result_file(FS, P, T, 1, 4, seed=int(T) + P)
stats.statistical_analysis_of_pimc(FS, method="basic")
for (P, T), a in data.items():
    d = json.load(open(FS.template_jackknife.format(P=P, T=T, X=4)))
    E = -np.mean((a["s_gP"] - a["s_gM"]) / a["s_rho"]) / (2 * 2.0e-4)
    E = E / np.mean(a["s_g"] / a["s_rho"]) + T / 100
    dlib.expect(abs(d["E"] - E) < 1e-6 * abs(E), f"P={P} T={T}: energy {d['E']} instead of {E}")
'''
