"""Spectral functions, Green's functions and density matrices evaluated state by state from the reference NRG solution."""
import numpy as np
import scipy.sparse as sp


def dn(x):
    return x.toarray() if sp.issparse(x) else np.asarray(x)


class Dens:
    """reduced density matrices of the kept states (rho, rhoFDM) and the weights of the full density matrix"""

    def __init__(self, ref, T):
        self.ref, self.T = ref, T
        S = ref.shells
        L = len(S)
        self.Egs = min(s.Egs for s in S)
        last = S[-1]
        k = last.kept
        e = last.E[k] - last.Egs
        w = np.exp(-e / T)
        self.rho = [None] * L
        self.rho[L - 1] = np.diag(w / w.sum())
        for N in range(L - 1, 0, -1):
            U = dn(S[N].U)[:, S[N].kept]
            self.rho[N - 1] = self.site_trace(U @ self.rho[N] @ U.conj().T, S[N].nk_prev)
        # full density matrix
        d = float(ref.d)
        disc = [~s.kept if not s.last else np.ones(len(s.E), bool) for s in S]
        self.disc = disc
        self.bz = [np.exp(-(s.E - self.Egs) / T) for s in S]
        ZD = [b[x].sum() for b, x in zip(self.bz, disc)]
        self.ZZG = sum(z * d ** (L - 1 - N) for N, z in enumerate(ZD))
        self.wnf = [d ** (L - 1 - N) / self.ZZG for N in range(L)]
        self.wn = [self.wnf[N] * ZD[N] for N in range(L)]
        self.rhoFDM = [None] * L        # in the kept basis
        self.rhoFDM[L - 1] = np.zeros((0, 0))
        cur = None
        for N in range(L - 1, 0, -1):
            s = S[N]
            R = np.zeros((len(s.E), len(s.E)), complex if np.iscomplexobj(dn(s.U)) or np.iscomplexobj(cur) else float)
            x = disc[N]
            R[np.flatnonzero(x), np.flatnonzero(x)] = self.wnf[N] * self.bz[N][x]
            if cur is not None:
                i = np.flatnonzero(s.kept)
                R[np.ix_(i, i)] += cur
            U = dn(s.U)
            cur = self.site_trace(U @ R @ U.conj().T, s.nk_prev)
            self.rhoFDM[N - 1] = cur

    def site_trace(self, M, nk):
        d = M.shape[0] // nk
        return np.einsum("iaja->ij", M.reshape(nk, d, nk, d))

    def td(self):
        T = self.T
        F = -T * np.log(self.ZZG) + self.Egs
        w, e = [], []
        for N, s in enumerate(self.ref.shells):
            x = self.disc[N]
            w.append(self.wnf[N] * self.bz[N][x])
            e.append(s.E[x])
        w, e = np.concatenate(w), np.concatenate(e)
        E = (w * e).sum()
        C = (w * (e - E) ** 2).sum() / T ** 2
        return {"T": T, "F_fdm": F, "E_fdm": E, "C_fdm": C, "S_fdm": (E - F) / T}

    def expv(self, name, N):
        s = self.ref.shells[N]
        i = np.flatnonzero(s.kept)
        return np.trace(self.rhoFDM[N] @ s.ops[name][np.ix_(i, i)])


def sgn(ferm):
    return 1.0 if ferm else -1.0      # (-sign) of the definition of the retarded function


def pieces(alg, ref, N, o1, o2, ferm, T, dens=None, P=None):
    """list of (E, A, B): energies and the two parts of the weights of the contributions of shell N (N = -1: initial states)
    A belongs to <O1^+ O2>, B to <O2 O1^+> (with its sign)"""
    sh = ref.initial if N < 0 else ref.shells[N]
    a, b = sh.ops[o1].conj(), sh.ops[o2]
    k = np.flatnonzero(sh.kept)
    e = sh.E - sh.E.min()
    s = sgn(ferm)
    out = []

    def add(j, i, A, B):
        if len(j) and len(i):
            out.append(((e[j][:, None] - e[i][None, :]), A, B))
    kk = np.ix_(k, k)
    if alg in ("FT", "FTmats", "GT", "I1T", "I2T", "CHIT"):
        if alg in ("GT", "I1T", "I2T"):
            T = P["gtp"] * P["scale"]
        if alg == "CHIT":
            T = P["chitp"] * P["scale"]
        w = np.exp(-e[k] / T)
        Z = w.sum()
        m = a[kk] * b[kk]
        if alg.startswith("FT"):
            add(k, k, m * w[None, :] / Z, s * m * w[:, None] / Z)
        elif alg == "CHIT":
            d = e[k][:, None] - e[k][None, :]
            with np.errstate(all="ignore"):
                x = np.where(np.abs(d) > 1e-9 * T, T * (w[None, :] - w[:, None]) / np.where(d == 0, 1, d), (w[None, :] + w[:, None]) / 2)
            return (m * x).sum() / Z
        else:
            n = {"GT": 0, "I1T": 1, "I2T": 2}[alg]
            d = e[k][:, None] - e[k][None, :]
            with np.errstate(all="ignore"):
                x = 1.0 / T / (1.0 / w[:, None] + 1.0 / w[None, :]) * d ** n
            return (m * np.where(np.isfinite(x), x, 0)).sum() / Z
    elif alg in ("DMNRG", "DMNRGmats"):
        r = dens.rho[N]
        A = a[kk] * (b[kk] @ r)
        B = s * (r.T @ a[kk]) * b[kk]
        add(k, k, A, B)
    elif alg.startswith("FDM"):
        d = np.flatnonzero(dens.disc[N])
        kq = np.zeros(0, int) if sh.last else k
        r = dens.rhoFDM[N]
        wb = dens.wnf[N] * dens.bz[N]
        dd = np.ix_(d, d)
        m = a[dd] * b[dd]
        add(d, d, m * wb[d][None, :], s * m * wb[d][:, None])
        if len(kq):
            kd, dk = np.ix_(kq, d), np.ix_(d, kq)
            add(kq, d, a[kd] * b[kd] * wb[d][None, :], s * a[kd] * (r @ b[kd]))
            add(d, kq, a[dk] * (b[dk] @ r), s * a[dk] * b[dk] * wb[d][:, None])
    elif alg.startswith("CFS"):
        if sh.last:
            w = np.exp(-e[k] / T)
            Z = w.sum()
            m = a[kk] * b[kk]
            add(k, k, m * w[None, :] / Z, s * m * w[:, None] / Z)
        else:
            d = np.flatnonzero(~sh.kept)
            r = dens.rho[N]
            kd, dk = np.ix_(k, d), np.ix_(d, k)
            # <O2 O1^+>: the density matrix acts on the states on the left
            add(k, d, 0 * e[d][None, :] * e[k][:, None], s * (r.T @ a[kd]) * b[kd])
            add(d, k, a[dk] * (b[dk] @ r), 0 * e[d][:, None] * e[k][None, :])
    return out


def matsubara(ps, T, ferm, nmats, tol=1e-8):
    """sum of weight/(i w_n - E); the degenerate bosonic term of n = 0 is -A/T"""
    G = np.zeros(nmats, complex)
    for E, A, B in ps:
        W = A + B
        for n in range(nmats):
            w = (2 * n + (1 if ferm else 0)) * np.pi * T
            if n == 0 and not ferm:
                z = np.abs(E) <= tol
                G[n] += (W[~z] / (-E[~z])).sum() + (-A[z] / T).sum()
            else:
                G[n] += (W / (1j * w - E)).sum()
    return G
