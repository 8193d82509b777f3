"""Exact diagonalisation of the whole chain (impurity + sites) in the occupation basis; blocks are connected components."""
import numpy as np
import scipy.sparse as sp
from scipy.sparse.csgraph import connected_components

from .fock import Modes


# types that treat the three channels as one composite site: their zero of energy is zeta (n - 1), not zeta (n - 3)
COMPOSITE = ("QST", "QSTZ", "QSZTZ", "QJ", "SPSU2T", "QSC3", "SPSU2C3")


def hop_terms(cd, c, one, sym, nch, N, coef, polarized, pol2x2, only=None):
    """List of (coefficient, operator, add h.c.?) of the part of H_{N+1} that involves site N+1.
    cd, c: functions of a label returning operator objects that support @ and -; one: the identity"""
    spins = sym.spins
    T = []

    def add(x, op, herm=True):
        if x != 0:
            T.append((x, op(), herm))
    for ch in range(nch) if only is None else [only]:
        for si, s in enumerate(spins):
            k = ch + (nch * si if (polarized or pol2x2) else 0)
            add(coef["xi"][k][N], lambda: cd((N, ch, s)) @ c((N + 1, ch, s)))
            z = coef["zeta"][k][N + 1]
            add(z, lambda: cd((N + 1, ch, s)) @ c((N + 1, ch, s)), False)
            if sym.name not in COMPOSITE:
                add(-0.5 * z, lambda: one, False)
        if pol2x2:
            add(coef["xi"][ch + 2 * nch][N], lambda: cd((N, ch, "u")) @ c((N + 1, ch, "d")))
            add(coef["xi"][ch + 3 * nch][N], lambda: cd((N, ch, "d")) @ c((N + 1, ch, "u")))
            add(coef["zeta"][ch + 3 * nch][N + 1], lambda: cd((N + 1, ch, "d")) @ c((N + 1, ch, "u")))
        if "delta" in coef:
            pch, sgn = {"SPSU2C3": (-ch % 3, 1.0), "SPSU2T": (2 - ch, (-1.0) ** ch)}.get(sym.name, (ch, 1.0))
            add(coef["delta"][ch][N + 1] * sgn, lambda: cd((N + 1, ch, "u")) @ cd((N + 1, pch, "d")))
            k = coef["kappa"][ch][N]
            add(k, lambda: cd((N, ch, "u")) @ cd((N + 1, ch, "d")))
            add(-k, lambda: cd((N, ch, "d")) @ cd((N + 1, ch, "u")))
    if sym.name in COMPOSITE:
        add(-coef["zeta"][0][N + 1], lambda: one, False)
    if "xiR" in coef:
        for s in spins:
            add(coef["xiR"][0][N], lambda: cd((N, 0, s)) @ c((N + 1, 1, s)))
            add(coef["xiR"][1][N], lambda: cd((N, 1, s)) @ c((N + 1, 0, s)))
            add(coef["zetaR"][0][N + 1], lambda: cd((N + 1, 0, s)) @ c((N + 1, 1, s)))
    return T


def multiplets(sym, keys, sectors, tol=1e-7):
    """{invar: sorted energies of multiplets} from {label tuple: energies}; greedy removal of SU(2) descendants"""
    sec = {k: list(v) for k, v in sectors.items()}
    names = [n for n, _ in sym.su2]
    pos = {n: keys.index(n) for n in names}
    out = {}
    for k in sorted(sec, key=lambda k: tuple(-k[pos[n]] for n in names)):
        if any(k[pos[n]] < 0 for n in names) or not sec[k]:
            continue
        es = np.array(sec[k])
        inv = sym.invar_of(dict(zip(keys, k)))
        out.setdefault(inv, []).append(es)
        mem = [k]
        for n in names:
            mem = [m[:pos[n]] + (v,) + m[pos[n] + 1:] for m in mem for v in range(m[pos[n]], -m[pos[n]] - 1, -2)]
        for m in set(mem):
            rest = np.array(sec[m])
            keep = np.ones(len(rest), bool)
            for x in es:
                d = np.where(keep, np.abs(rest - x), np.inf)
                j = int(np.argmin(d))
                if not d[j] < tol:
                    raise ArithmeticError("reference spectrum is not symmetric: %r %r %g" % (k, m, d[j]))
                keep[j] = False
            sec[m] = list(rest[keep])
    return {i: np.sort(np.concatenate(v)) for i, v in out.items()}


class ED:
    def __init__(self, cl, coef, Nmax, polarized=False, pol2x2=False):
        self.cl, self.sym = cl, cl.sym
        self.steps = []
        labels = list(cl.modes.labels)
        Hprev = sp.csr_matrix(cl.H)
        for N in range(Nmax):
            labels = labels + [(N + 1, ch, s) for ch in range(cl.nch) for s in cl.sym.spins]
            modes = Modes(labels)
            Hprev = sp.kron(Hprev, sp.identity(modes.dim // Hprev.shape[0])).tocsr()
            for x, op, herm in hop_terms(modes.cd, modes.c, sp.identity(modes.dim).tocsr(), cl.sym, cl.nch, N, coef, polarized, pol2x2):
                Hprev = Hprev + x * op
                if herm:
                    Hprev = Hprev + np.conj(x) * op.conj().T
            Hprev = Hprev.tocsr()
            self.steps.append(EDStep(cl, modes, Hprev))


class EDStep:
    def __init__(self, cl, modes, H):
        self.modes, self.sym = modes, cl.sym
        self.lab = cl.sym.cartan_values(modes)
        self.keys = sorted(self.lab)
        H.data[np.abs(H.data) < 1e-15] = 0
        H.eliminate_zeros()
        nc, comp = connected_components(H, directed=False)
        order = np.argsort(comp, kind="stable")
        bounds = np.searchsorted(comp[order], np.arange(nc + 1))
        self.blocks = []       # (indices, energies, vectors)
        for b in range(nc):
            idx = order[bounds[b]:bounds[b + 1]]
            h = H[idx][:, idx].toarray()
            if not np.iscomplexobj(h) or np.max(np.abs(h.imag)) == 0:
                h = h.real
            e, v = np.linalg.eigh(h)
            self.blocks.append((idx, e, v))
        self.E = np.concatenate([e for _, e, _ in self.blocks])
        self.Egs = self.E.min()

    def sectors(self):
        """{label tuple: sorted energies}"""
        out = {}
        for idx, e, _ in self.blocks:
            k = tuple(int(self.lab[n][idx[0]]) for n in self.keys)
            out.setdefault(k, []).append(e)
        return {k: np.sort(np.concatenate(v)) for k, v in out.items()}

    def multiplets(self):
        return multiplets(self.sym, self.keys, self.sectors())
