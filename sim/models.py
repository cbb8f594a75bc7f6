"""Vibronic models: generation, and an independent evaluation of what one sample of
the path-integral engine must be.  Nothing here imports the code under test."""
import json

import numpy as np

# CODATA 2014, as published: joule per kelvin / joule per electron volt
BOLTZMAN = 1.38064852e-23 / 1.6021766208e-19
DELTA_BETA = 2.0e-4

K_N, K_A = "number of modes", "number of surfaces"
K_E, K_W = "energies", "frequencies"
K_G1, K_G2 = "linear couplings", "quadratic couplings"
K_G3, K_G4 = "cubic couplings", "quartic couplings"


def sym(a):
    return (a + np.swapaxes(a, -1, -2)) / 2.0


def coupled(c, A, N, quadratic=False, tag=0):
    """a coupled model as plain arrays, values drawn from the workload stream"""
    rs = np.random.RandomState(c.integer(0, 10 ** 6) + tag)
    m = {K_N: N, K_A: A}
    m[K_W] = np.round(rs.uniform(0.02, 0.06, N), 5)
    m[K_E] = np.round(sym(rs.uniform(-0.05, 0.05, (A, A))) + np.diag(rs.uniform(0, 0.1, A)), 6)
    lin = np.round(sym(rs.uniform(-0.02, 0.02, (N, A, A))), 6)
    m[K_G1] = lin
    if quadratic:
        q = sym(rs.uniform(-0.004, 0.004, (N, N, A, A)))
        q = (q + np.swapaxes(q, 0, 1)) / 2
        m[K_G2] = np.round(q, 7)
    return m


def diagonal(c, A, N, omega, tag=0):
    """a sampling model with A oscillators"""
    rs = np.random.RandomState(c.integer(0, 10 ** 6) + 17 + tag)
    return {K_N: N, K_A: A, K_W: np.array(omega),
            K_E: np.round(rs.uniform(0.0, 0.05, A), 6),
            K_G1: np.round(rs.uniform(-0.02, 0.02, (N, A)), 6)}


def diagonal_of(m):
    out = {K_N: m[K_N], K_A: m[K_A], K_W: m[K_W].copy()}
    out[K_E] = np.diag(m[K_E]).copy()
    if K_G1 in m:
        out[K_G1] = np.diagonal(m[K_G1], axis1=-2, axis2=-1).copy()
    if K_G2 in m:
        out[K_G2] = np.diagonal(m[K_G2], axis1=-2, axis2=-1).copy()
    return out


def to_text(m, zeros=False):
    d = {}
    for k, v in m.items():
        if isinstance(v, np.ndarray):
            if zeros or np.count_nonzero(v):
                d[k] = v.tolist()
        else:
            d[k] = v
    return json.dumps(d)


def from_text(text, diagonal=False):
    """read a model file the way the file format is documented: a missing array is zero"""
    d = json.loads(text)
    A, N = int(d[K_A]), int(d[K_N])
    tail = (A,) if diagonal else (A, A)
    shapes = {K_E: tail, K_W: (N,), K_G1: (N,) + tail, K_G2: (N, N) + tail}
    out = {K_N: N, K_A: A}
    for k, sh in shapes.items():
        out[k] = np.array(d[k], dtype=float) if k in d else np.zeros(sh)
        if out[k].shape != sh:
            raise ValueError(f"{k} has shape {out[k].shape}, expected {sh}")
    return out


def enum_dict(m, VMK, zeros=True):
    """the in-memory form the code under test uses"""
    names = {K_N: VMK.N, K_A: VMK.A, K_E: VMK.E, K_W: VMK.w, K_G1: VMK.G1, K_G2: VMK.G2,
             K_G3: VMK.G3, K_G4: VMK.G4}
    return {names[k]: (v.copy() if isinstance(v, np.ndarray) else v) for k, v in m.items()}


# --------------------------------------------------------------------------
# reference evaluation
# --------------------------------------------------------------------------
class Reference:
    """g(R), g+-(R) and rho(R), for bead coordinates R of shape (N, P)"""

    def __init__(self, vib, rho, T, P, delta_beta=DELTA_BETA):
        self.vib, self.rho, self.T, self.P = vib, rho, T, P
        self.beta = 1.0 / (BOLTZMAN * T)
        self.tau = self.beta / P
        self.taus = {"0": self.tau, "+": (self.beta + delta_beta) / P,
                     "-": (self.beta - delta_beta) / P}
        A, N = vib[K_A], vib[K_N]
        self.A, self.N = A, N
        self.v_lin = np.diagonal(vib[K_G1], axis1=1, axis2=2)      # (N, A)
        self.v_e = np.diag(vib[K_E])
        self.r_lin, self.r_e = rho[K_G1], rho[K_E]

    def weights(self):
        """occupation of the oscillators of the sampling model"""
        w = self.rho[K_W]
        delta = -0.5 * (self.r_lin ** 2 / w[:, None]).sum(0)
        x = -self.beta * (self.r_e + delta)
        p = np.exp(x - x.max())
        return p / p.sum()

    def _log_o(self, omega, lin, e, R, tau):
        """log of the diagonal of O for every bead and state: (P, A)"""
        A = lin.shape[1]
        out = np.empty((self.P, A))
        s = np.sinh(tau * omega)
        coth, csch = np.cosh(tau * omega) / s, 1.0 / s
        for a in range(A):
            d = -lin[:, a] / omega
            delta = -0.5 * (lin[:, a] ** 2 / omega).sum()
            q = R - d[:, None]
            for p in range(self.P):
                q1, q2 = q[:, p], q[:, (p + 1) % self.P]
                ex = -0.5 * (coth * (q1 ** 2 + q2 ** 2) - 2 * csch * q1 * q2).sum()
                out[p, a] = ex - tau * (e[a] + delta) + 0.5 * np.log(csch).sum()
        return out

    def log_rho(self, R):
        lo = self._log_o(self.rho[K_W], self.r_lin, self.r_e, R, self.tau).sum(0)
        m = lo.max()
        return m + np.log(np.exp(lo - m).sum())

    def potential(self, R, p):
        A = self.A
        V = np.zeros((A, A))
        q = R[:, p]
        lin = self.vib[K_G1].copy()
        for a in range(A):
            lin[:, a, a] = 0.0
        V += np.einsum("n,nab->ab", q, lin)
        V += 0.5 * np.einsum("n,m,nmab->ab", q, q, self.vib[K_G2])
        V += self.vib[K_E] - np.diag(self.v_e)
        return V

    def log_g(self, R, which="0"):
        """(log|g|, sign); the coupling factor uses the base temperature, as published"""
        lo = self._log_o(self.vib[K_W], self.v_lin, self.v_e, R, self.taus[which])
        acc = np.eye(self.A)
        scale = 0.0
        for p in range(self.P):
            val, vec = np.linalg.eigh(self.potential(R, p))
            M = (vec * np.exp(-self.tau * val)) @ vec.T
            m = lo[p].max()
            acc = acc @ M @ np.diag(np.exp(lo[p] - m))
            scale += m
        tr = np.trace(acc)
        return scale + np.log(abs(tr)), np.sign(tr), np.abs(np.diag(acc)).sum() / abs(tr)

    # -- reconstruction of R from the random numbers that were drawn
    def circulant(self):
        P = self.P
        C = np.zeros((P, P))
        for i in range(P):
            C[i, (i + 1) % P] += 1
            C[(i + 1) % P, i] += 1
        return C

    def collective(self, vec=None):
        """-> (eigenvalues, eigenvectors) of the ring; any orthonormal basis of it will do"""
        C = self.circulant()
        P = self.P
        if vec is not None and np.shape(vec) == (P, P) and np.allclose(vec.T @ vec, np.eye(P)):
            val = np.diag(vec.T @ C @ vec)
            if np.allclose(C @ vec, vec * val):
                return val, vec
        return np.linalg.eigh(C, UPLO="L")

    def bead_coordinates(self, source, normals, vec):
        """normals: (N, P), drawn with the standard deviation already applied"""
        R = normals @ vec.T
        return R + (-self.r_lin[:, source] / self.rho[K_W])[:, None]

    def deviations(self, val):
        """standard deviation of every collective coordinate: (N, P)"""
        w = self.rho[K_W]
        s = np.sinh(self.tau * w)
        coth, csch = np.cosh(self.tau * w) / s, 1 / s
        return np.sqrt(1.0 / (2 * coth[:, None] - csch[:, None] * val[None, :]))
