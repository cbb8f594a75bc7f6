"""The statistical analysis, written again from its definition: one sample set in, numbers out."""
from .common import *
from sim.models import BOLTZMAN, DELTA_BETA

TEMPS = [300.0, 250.5, 30.0, 1300.0, 300.25, 77.36, 2.17, 300.04, 77.39]
BEADS = [3, 4, 13, 30, 128]


def random_rows(c, n, scale=1.0):
    """(n, 4) rho, g, g+, g-: any positive numbers will do, the estimators are algebra"""
    r = np.random.RandomState(c.integer(0, 1 << 16))
    rho = r.uniform(0.5, 2.0, n)
    g = rho * r.uniform(0.5, 1.5, n) * scale
    kind = c.pick(["", "", "tails", "zero", "signs", "scaled"])
    if kind == "tails":         # a few samples carry most of the weight
        g = rho * r.lognormal(0.0, 1.5, n) * scale
    elif kind == "zero" and n > 2:
        g[r.randint(n)] = 0.0
    elif kind == "signs" and n > 4:
        g[r.randint(n)] *= -0.3
    elif kind == "scaled":      # only the ratios have a meaning
        f = c.pick([1e-40, 1e-120, 1e60])
        rho, g = rho * f, g * f
    return np.stack([rho, g, g * (1 + r.uniform(-.3, .3, n)), g * (1 + r.uniform(-.3, .3, n))], 1)


def analytic_file(c, Ts, hash_vib, hash_rho):
    d = {"hash_vib": hash_vib, "hash_rho": hash_rho}
    for T in Ts:
        d[f"{T:.2f}"] = {
            "Z_sampling": c.real(0.5, 2.0), "E_sampling": c.real(10, 900),
            "Cv_sampling": c.real(1e3, 9e5), "Z_sampling+beta": c.real(0.5, 2.0),
            "Z_sampling-beta": c.real(0.5, 2.0)}
    return d


def reference(rows, T, analytic, method, jackknife):
    """dict of the quantities one thermo file has to hold"""
    X = len(rows)
    rho, g, gp, gm = rows.T
    r, rp, rm = g / rho, gp / rho, gm / rho
    a = analytic[f"{T:.2f}"]
    if method == "alpha":
        ap = a["Z_sampling"] / a["Z_sampling+beta"]
        am = a["Z_sampling"] / a["Z_sampling-beta"]
    else:
        ap = am = 1.0
    kT2 = BOLTZMAN * T * T

    def estimate(keep):
        z = r[keep].sum() / len(keep)
        p, q = rp[keep].sum() / len(keep) * ap, rm[keep].sum() / len(keep) * am
        e = -(p - q) / (2 * DELTA_BETA) / z
        cv = ((p - 2 * z + q) / DELTA_BETA ** 2 / z - e * e) / kT2
        return z, e, cv
    everything = np.arange(X)
    z, e, cv = estimate(everything)
    spread = np.sqrt(((r - z) ** 2).sum() / X)
    out = {"Z": z, "Z error": spread / np.sqrt(X - 1), "E": e + a["E_sampling"], "E error": 0.0,
           "Cv": cv + a["Cv_sampling"], "Cv error": 0.0}
    if jackknife:
        part = np.array([estimate(np.delete(everything, i))[1:] for i in range(X)])
        mean = part.mean(0)
        dev = np.sqrt((X - 1.0) * ((part - mean) ** 2).sum(0) / (X - 1.0))
        out["jk_E"] = X * e - (X - 1) * mean[0] + a["E_sampling"]
        out["jk_E error"] = dev[0]
        out["jk_Cv"] = X * cv - (X - 1) * mean[1] + a["Cv_sampling"]
        out["jk_Cv error"] = dev[1]
    return out


def same(have, want, scale=None):
    """-> None or the name of the first quantity that differs"""
    for k, v in want.items():
        if k not in have:
            return f"{k} is missing"
        tol = 0.0
        if "E" in k.split("_")[-1].split()[0]:
            tol = 1e-7 / DELTA_BETA
        elif "Cv" in k:
            tol = 1e-6
        try:
            ok = close(have[k], v, rel=1e-6, abs_=tol)
        except (TypeError, ValueError):
            ok = False
        if not ok:
            return f"{k} = {have[k]!r}, expected {v!r}"
    return None


def run_analysis(FS, method, jackknife):
    m = env.modules
    # the code under test compares these words by identity: use its own literals
    import sys
    f = m.stats.jackknife_analysis_of_pimc if jackknife else m.stats.statistical_analysis_of_pimc
    f(FS, method=sys.intern(method), location=sys.intern("local"))
