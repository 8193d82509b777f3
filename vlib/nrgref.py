"""Reference NRG: iterative diagonalisation with truncation carried out state by state in the occupation basis (no symmetry reduction,
no Clebsch-Gordan coefficients, no recalculation tables).  It shares no code with the program under test."""
import numpy as np
import scipy.sparse as sp

from .fock import Modes, tensor_component
from .nrgdata import scale
from .nrged import hop_terms, multiplets


class Ambiguous(Exception):
    """The truncation threshold falls between nearly degenerate levels: the outcome depends on rounding."""


class KT:
    """Sum of Kronecker products A (x) B"""

    def __init__(self, terms):
        self.terms = terms

    def __matmul__(self, o):
        return KT([(a @ c, b @ d) for a, b in self.terms for c, d in o.terms])

    def dense(self):
        r = 0
        for a, b in self.terms:
            r = r + sp.kron(a, b, format="csr")
        return r


def dn(x):
    return x.toarray() if sp.issparse(x) else np.asarray(x)


class Shell:
    """One NRG iteration: all states in the eigenbasis"""


def site_modes(sym, nch, n, only=None):
    return Modes([(n, ch, s) for ch in (range(nch) if only is None else [only]) for s in sym.spins])


def combine(sym, names, a, b):
    """labels of product states"""
    par = [n for n, _ in sym.par]
    m3 = [n for n, _ in sym.mod3]
    out = {}
    for n in names:
        x, y = a[n], b[n]
        if n in par:
            r = x[:, None] * y[None, :]
        elif n in m3:
            r = (x[:, None] + y[None, :]) % 3
        elif n == "_F":
            r = (x[:, None] + y[None, :]) % 2
        else:
            r = x[:, None] + y[None, :]
        out[n] = r.reshape(-1)
    return out


def eigh_blocks(H, labels, keys):
    """block diagonalisation by labels; returns energies, vectors (dense), order of the label groups"""
    n = H.shape[0]
    tab = np.array([labels[k] for k in keys]).T
    uniq, inv = np.unique(tab, axis=0, return_inverse=True)
    inv = np.asarray(inv).reshape(-1)
    E = np.zeros(n)
    cplx = np.iscomplexobj(H.data if sp.issparse(H) else H)
    R, C, V = [], [], []
    lab = {k: np.zeros(n, int) for k in keys}
    pos = 0
    H = sp.csr_matrix(H)
    off = 0.0
    for g in range(len(uniq)):
        idx = np.flatnonzero(inv == g)
        h = H[idx][:, idx].toarray()
        off += h.size and (np.abs(h) ** 2).sum()
        e, v = np.linalg.eigh(h)
        m = len(idx)
        E[pos:pos + m] = e
        R.append(np.repeat(idx, m))
        C.append(np.tile(np.arange(pos, pos + m), m))
        V.append(v.reshape(-1))
        for c, k in enumerate(keys):
            lab[k][pos:pos + m] = uniq[g][c]
        pos += m
    tot = (np.abs(H.data) ** 2).sum()
    if abs(tot - off) > 1e-9 * max(1.0, tot):
        raise ArithmeticError("reference Hamiltonian does not conserve the labels: %g of %g" % (tot - off, tot))
    V = np.concatenate(V)
    U = sp.csr_matrix((V.astype(complex) if cplx else V, (np.concatenate(R), np.concatenate(C))), shape=(n, n))
    return E, U if n > 300 else U.toarray(), lab


def sectors(E, lab, keys):
    out = {}
    tab = np.array([lab[k] for k in keys]).T
    for row, e in zip(map(tuple, tab.tolist()), E):
        out.setdefault(row, []).append(e)
    return {k: np.sort(v) for k, v in out.items()}


def retained(all_e, N, P, unscale):
    """truncation threshold (scaled units, measured from the ground state); mirrors the documented rules"""
    a = np.sort(all_e)
    n = len(a)
    same = P.get("fixeps", 0) > 1e-6      # levels of a cluster are made equal
    ka = P.get("keepall", "")
    if (ka == "even" and N % 2 == 0) or (ka == "odd" and N % 2 == 1) or str(N) in ka.split(","):
        return a[-1]
    keep, ke, km = P.get("keep", 1000), P.get("keepenergy", -1.0), P.get("keepmin", 0)
    if ke > 0:
        lim = ke * unscale
        if np.any(np.abs(a - lim) < 1e-7):
            raise Ambiguous("keepenergy")
        nk = int(min(max(1 + np.sum(a <= lim), km), keep))
    else:
        nk = int(keep)
    if nk >= n:
        return a[-1]
    sg, sgm = P.get("safeguard", 1e-5), P.get("safeguardmax", 200)
    if sg > 0:
        extra = 0
        while nk < n and extra < sgm:
            d = a[nk] - a[nk - 1]
            if abs(d - sg) < 1e-7 + 1e-3 * sg:
                raise Ambiguous("safeguard")
            if d > sg:
                break
            nk += 1
            extra += 1
    nk = max(1, min(nk, n))
    c = a[nk - 1]
    if nk < n and a[nk] - c < 1e-7 and not (same and a[nk] == c):
        raise Ambiguous("threshold")
    return c


def levels(e, eps):
    """values at the lower edges of the clusters: levels closer than eps to the lowest one of a cluster are set equal to it"""
    e = np.sort(e)
    e0, out = e[0], [e[0]]
    for x in e[1:]:
        if abs(x - e0 - eps) < 1e-7:
            raise Ambiguous("cluster")
        if x - e0 >= eps:
            e0 = x
            out.append(x)
    return np.array(out)


def merge(e, edges):
    k = np.searchsorted(edges, e + 1e-7, side="right") - 1
    return edges[np.maximum(k, 0)]


def blocks_of(sym, keys, E, lab, tol):
    """block of each state (index into the returned list of quantum numbers): greedy removal of SU(2) descendants"""
    names = [n for n, _ in sym.su2]
    pos = [keys.index(n) for n in names]
    sec = {}
    for i, k in enumerate(map(tuple, np.array([lab[n] for n in keys]).T.tolist())):
        sec.setdefault(k, []).append(i)
    free = {k: sorted(v, key=lambda i: E[i]) for k, v in sec.items()}
    inv, block = [], np.full(len(E), -1)
    for k in sorted(sec, key=lambda k: tuple(-k[p] for p in pos)):
        if any(k[p] < 0 for p in pos) or not free[k]:
            continue
        q = sym.invar_of(dict(zip(keys, k)))
        if q not in inv:
            inv.append(q)
        es = [E[i] for i in free[k]]
        mem = [k]
        for p in pos:
            mem = [m[:p] + (v,) + m[p + 1:] for m in mem for v in range(m[p], -m[p] - 1, -2)]
        for m in set(mem):
            for x in es:
                j = min(free[m], key=lambda i: abs(E[i] - x))
                if abs(E[j] - x) > tol:
                    raise ArithmeticError("reference spectrum is not symmetric")
                block[j] = inv.index(q)
                free[m].remove(j)
    return inv, block


class RefNRG:
    """shells[N], N = 0..Nmax-1; ops: {name: sparse operator on the cluster Fock space (any component)};
    site_ops: {name: function of the modes of a site giving what that site adds to the operator}"""

    def __init__(self, cl, coef, Nmax, P, ops=None, polarized=False, pol2x2=False, Lambda=2.0, lastall=False, maxdim=9000, fullops=True, sc=None,
                 maxblock=None, site_ops=None, substeps=False, n0=0):
        self.cl, self.sym, self.P, self.Nmax = cl, cl.sym, P, Nmax
        self.Lambda = Lambda
        sym, nch = cl.sym, cl.nch
        keys = self.keys = sorted(cl.mp.lab)
        E, U, lab = eigh_blocks(cl.H, cl.mp.lab, keys)
        if cl.ecut is not None:
            m = np.flatnonzero(E <= cl.ecut)
            E, U, lab = E[m], U[:, m], {k: v[m] for k, v in lab.items()}
        self.d = 1 << ((1 if substeps else nch) * len(sym.spins))
        self.substeps = substeps
        steps = self.steps = Nmax * (nch if substeps else 1)
        sh = Shell()
        sh.N, sh.E, sh.lab, sh.kept = -1, E, lab, np.ones(len(E), bool)
        sh.Ec = E
        sh.ops = {k: dn(U.conj().T @ (o @ U)) for k, o in (ops or {}).items()}
        self.initial = sh
        f = {l: dn(U.conj().T @ (cl.modes.cd(l) @ U)) for l in cl.modes.labels if l[0] == 0}
        sh.f = f
        ops_k = dict(sh.ops)
        self.shells = []
        self.truncated = self.partial = self.clustered = False
        self.restarts = 0
        for ndx in range(steps):
            N, M = divmod(ndx, nch) if substeps else (ndx, None)
            k = sh.kept
            nk = int(k.sum())
            if nk * self.d > maxdim:
                raise Ambiguous("reference too large")
            sm = site_modes(sym, nch, N + 1, M)
            slab = sym.cartan_values(sm)
            Ik, Is = sp.identity(nk), sp.identity(self.d)
            par = sp.diags(1.0 - 2.0 * sh.lab["_F"][k])
            fN = {l: sp.csr_matrix(m) for l, m in f.items()}

            def cd(l):
                return KT([(fN[l], Is)]) if l in fN else KT([(par, sm.cd(l))])

            def c(l):
                return KT([(fN[l].conj().T, Is)]) if l in fN else KT([(par, sm.c(l))])
            H = sp.kron(sp.diags(sh.Ec[k]), Is, format="csr")
            for x, op, herm in hop_terms(cd, c, KT([(Ik, Is)]), sym, nch, N, coef, polarized, pol2x2, M):
                o = x * op.dense()
                H = H + (o + o.conj().T if herm else o)
            labels = combine(sym, keys, {n: sh.lab[n][k] for n in keys}, slab)
            new = Shell()
            new.N = ndx
            new.E, new.U, new.lab = eigh_blocks(H, labels, keys)
            new.nk_prev = nk
            new.Egs = new.E.min()
            new.sc = sc(ndx + 1) if sc else scale(ndx + 1, Lambda)
            new.mult = multiplets(sym, keys, sectors(new.E, new.lab, keys), tol=1e-6)
            if maxblock and max(len(e) for e in new.mult.values()) > maxblock:
                raise Ambiguous("largest block %d" % max(len(e) for e in new.mult.values()))
            new.last = ndx == steps - 1
            new.dim = {i: len(e) for i, e in new.mult.items()}
            eps = P.get("fixeps", 0.0) / (new.sc if P.get("absolute") else 1.0)
            ratio = P.get("diagratio", 1.0) if P.get("diag") in ("dsyevr", "zheevr") and not (new.last and lastall) else 1.0
            full = new.mult
            while True:      # repeated when more states need to be computed
                nb = {i: min(max(int(np.ceil(ratio * len(e))), 1), len(e)) for i, e in full.items()}
                mult = {i: e[:nb[i]] for i, e in full.items()}
                rel = {i: (e - new.Egs) / new.sc for i, e in mult.items()}
                edges = None
                if eps > 1e-9:
                    edges = levels(np.concatenate(list(rel.values())), eps)
                    rel = {i: merge(e, edges) for i, e in rel.items()}
                a = np.concatenate(list(rel.values()))
                cmax = retained(a, ndx + n0, P, 1.0)
                part = [i for i in rel if nb[i] < len(full[i]) and (rel[i][-1] <= cmax + 5e-8 or new.last and lastall)]
                if any(abs(rel[i][-1] - cmax) < 1e-7 for i in part) and sum(abs(e[-1] - cmax) < 1e-7 for e in rel.values()) > 1 and edges is None:
                    raise Ambiguous("last computed level")
                if not any(abs(rel[i][-1] - cmax) > 1e-7 for i in part) or not P.get("restart", True):
                    break
                ratio = min(ratio * P.get("restartfactor", 2.0), 1.0)
                self.restarts += 1
            new.mult = mult
            new.multc = {i: e * new.sc + new.Egs for i, e in rel.items()} if edges is not None else mult
            if any(nb[i] < len(full[i]) for i in nb):
                self.partial = True
                if any(full[i][n] - full[i][n - 1] < 1e-6 * new.sc for i, n in nb.items() if n < len(full[i])):
                    raise Ambiguous("last computed level")
                inv, b = blocks_of(sym, keys, new.E, new.lab, 1e-6)
                lim = np.array([full[i][nb[i] - 1] for i in inv])
                have = new.E <= lim[b] + 5e-7 * new.sc
                o = np.lexsort((new.E,) + tuple(new.lab[n] for n in keys))
                same = np.all([new.lab[n][o][1:] == new.lab[n][o][:-1] for n in keys], axis=0)
                if np.any(same & (np.diff(new.E[o]) < 1e-6 * new.sc) & (have[o][1:] != have[o][:-1])):
                    raise Ambiguous("mixed level")
                new.E, new.U, new.lab = new.E[have], sp.csr_matrix(new.U)[:, np.flatnonzero(have)], {n: v[have] for n, v in new.lab.items()}
                if not sp.issparse(new.U) or new.U.shape[0] <= 300:
                    new.U = dn(new.U)
            new.Ec = merge((new.E - new.Egs) / new.sc, edges) * new.sc + new.Egs if edges is not None else new.E
            if edges is not None and len(edges) < len(a):
                self.clustered = True
            new.nmult = len(a)
            if new.last and lastall:
                new.kept = np.ones(len(new.E), bool)
            else:
                new.kept = (new.Ec - new.Egs) / new.sc <= cmax + 5e-8
            new.cmax = cmax
            new.nkept_mult = int(np.sum(a <= cmax + 5e-8))
            Uk = new.U if fullops else new.U[:, new.kept]
            UH = Uk.conj().T
            kk = new.U[:, new.kept]
            if substeps and not new.last:    # the chains that were not extended in this step keep their last site
                f = {l: dn(kk.conj().T @ (sp.kron(m, Is, format="csr") @ kk)) for l, m in fN.items() if l[:2] != (N, M)}
            else:
                f = {}
            if not new.last:
                f.update({l: dn(kk.conj().T @ (KT([(par, sm.cd(l))]).dense() @ kk)) for l in sm.labels})
            new.f = f
            new.ops = {}
            for name, m in ops_k.items():
                o = sp.kron(sp.csr_matrix(np.where(np.abs(m) > 1e-15, m, 0)), Is, format="csr")
                if site_ops and name in site_ops:
                    o = o + sp.kron(Ik, site_ops[name](sm), format="csr")
                new.ops[name] = dn(UH @ (o @ Uk))
            ops_k = {n: m[np.ix_(new.kept, new.kept)] if fullops else m for n, m in new.ops.items()}
            if not new.kept.all():
                self.truncated = True
            self.shells.append(new)
            sh = new

    # ------------------------------------------------------------ thermodynamics
    def td(self, sh, T):
        """standard thermodynamics of one shell at temperature T"""
        x = (sh.Ec - sh.Ec.min()) / T
        w = np.exp(-x)
        Z = w.sum()
        e, e2 = (w * x).sum() / Z, (w * x * x).sum() / Z
        r = {"T": T, "<E>": e, "<E^2>": e2, "C": e2 - e * e, "F": -np.log(Z), "S": e + np.log(Z)}
        for n, v in sh.lab.items():
            r["avg:" + n] = (w * v).sum() / Z
            r["avg2:" + n] = (w * v * v).sum() / Z
        return r


TDMAP = {  # column -> (label, factor for <x>, power)
    "<Sz>": ("Sz", 0.5, 1), "<Sz^2>": ("Sz", 0.25, 2), "<Q>": ("Q", 1, 1), "<Q^2>": ("Q", 1, 2), "<Q1>": ("Q1", 1, 1), "<Q1^2>": ("Q1", 1, 2),
    "<Q2>": ("Q2", 1, 1), "<Q2^2>": ("Q2", 1, 2), "<Q3>": ("Q3", 1, 1), "<Q3^2>": ("Q3", 1, 2), "<Tz>": ("T", 1, 1), "<Tz^2>": ("T", 1, 2),
    "<Jz^2>": ("J", 0.25, 2)}


def td_column(sym, r, col):
    """reference value of a symmetry-specific td column"""
    names = {n for n, _, _ in sym.cartan}
    if col in ("T", "<E>", "<E^2>", "C", "F", "S"):
        return r[col]
    if col.startswith("<s"):
        n = col[2:-3]
        return r["avg2:" + n] - r["avg:" + n] ** 2
    n, f, p = TDMAP[col]
    if n not in names:                       # isospin types report the charge, which is twice the isospin projection
        n = {"Q": "I", "Q1": "I1", "Q2": "I2"}[n]
    elif n == "T" and (("T" in [k for k, _ in sym.su2])):
        f = 0.5 if p == 1 else 0.25
    return f * r[("avg:" if p == 1 else "avg2:") + n]
