"""Generated impurity clusters: Hamiltonian, irreducible tensor operators and the text `data` file of the nrg program."""
import math

import numpy as np
import scipy.sparse as sp

from .fock import SYMS, Modes, Multiplets, cg2, tensor_component


def scale(N, Lambda, z=1.0, disc="Z", bandrescale=1.0):
    s = {"Y": 0.5 * (1 + 1 / Lambda), "Z": (1 - 1 / Lambda) / math.log(Lambda), "C": (1 - 1 / Lambda) / math.log(Lambda)}[disc]
    return s * Lambda ** (-(N - 1) / 2 + 1 - z) * bandrescale


class Tensor:
    """A (possibly multi-component) operator of the cluster: list of components, each with ranks, top-component matrix elements."""

    def __init__(self, comps, fermionic):
        self.comps, self.fermionic = comps, fermionic  # comps: list of (top operator sparse, ranks)


class Cluster:
    def __init__(self, symname, nch, imp=(), seed=0, complex_=False, spread=1.0, degen=False, ham="random", amp=1.0, eoff=0.0):
        self.sym = SYMS[symname]
        self.nch = nch
        self.cplx = complex_ or self.sym.complex_only
        spins = self.sym.spins
        orbs = [(-1 - i, ch) for i, ch in enumerate(imp)]
        # successive impurity orbitals must keep a definite sublattice: n odd, i.e. -1, -3, ...
        orbs = [(-1 - 2 * i, ch) for i, ch in enumerate(imp)]
        labels = [(n, ch, s) for n, ch in orbs for s in spins] + [(0, ch, s) for ch in range(nch) for s in spins]
        self.modes = Modes(labels)
        self.mp = Multiplets(self.sym, self.modes)
        self.rng = np.random.default_rng(seed)
        self.eoff = eoff
        self._diagonalise(spread, degen, ham, amp)
        self.ecut = None

    def trim(self, n):
        """retain only the lowest multiplets, at most about n states (the rest of the cluster is projected out)"""
        lev = sorted((e, self.mp.mult(inv)) for inv in self.E for e in self.E[inv])
        tot, best = 0, None
        for (e, d), nxt in zip(lev, lev[1:]):
            tot += d
            if nxt[0] - e > 1e-4 and (best is None or tot <= n):
                best = 0.5 * (e + nxt[0])
            if tot > n and best is not None:
                break
        if best is None:
            return
        self.ecut = best
        for inv in list(self.E):
            k = int(np.sum(self.E[inv] <= best))
            if k:
                self.E[inv], self.W[inv] = self.E[inv][:k], self.W[inv][:, :k]
            else:
                del self.E[inv], self.W[inv]

    # ------------------------------------------------------------ Hamiltonian
    def _rand(self, shape):
        x = self.rng.normal(size=shape)
        if self.cplx:
            x = x + 1j * self.rng.normal(size=shape)
        return x

    def _diagonalise(self, spread, degen, ham, amp):
        mp = self.mp
        dim = self.modes.dim
        dt = complex if self.cplx else float
        self.H = np.zeros((dim, dim), dtype=dt)
        self.E, self.W = {}, {}
        phys = None
        if ham == "density":
            phys = self._density()
        for inv in mp.invars:
            es, ws = [], []
            for F, W in mp.hw[inv]:
                n = W.shape[1]
                if phys is not None:
                    h = W.T @ (phys[:, None] * W) * amp
                else:
                    h = self._rand((n, n))
                    h = (h + h.conj().T) * (0.5 * spread / max(1.0, math.sqrt(n) / 2)) + np.eye(n) * self.rng.normal() * amp
                if degen and phys is None:
                    e, v = np.linalg.eigh(h)
                    h = (v * np.round(e * 2) / 2) @ v.conj().T
                e, v = np.linalg.eigh(h)
                es.append(e)
                ws.append(W @ v)
            e = np.concatenate(es) + self.eoff
            w = np.concatenate(ws, axis=1)
            o = np.argsort(e, kind="stable")
            self.E[inv], self.W[inv] = e[o], w[:, o]
            for _, V in mp.members(inv, self.W[inv]):
                self.H += (V * self.E[inv]) @ V.conj().T
        self.Egs = min(e[0] for e in self.E.values())

    def _density(self):
        """sum of eps n + U n n (conserves the particle number of every mode when the basis is the occupation basis)"""
        m = self.modes
        orb = {}
        for l in m.labels:
            orb.setdefault((l[0], l[1]), []).append(l)
        tot = [sum(m.occ(l) for l in ls) - len(ls) / 2 for ls in orb.values()]
        d = np.zeros(m.dim)
        for i, a in enumerate(tot):
            d += self.rng.normal() * a
            for j in range(i + 1):
                d += self.rng.normal() * a * tot[j]
        return d

    # ------------------------------------------------------------ operators
    def cluster_op(self, comp):
        """top component of a one-particle operator component (x, kind, (ch, s), ranks) on site 0"""
        x, k, (ch, s), ranks = comp
        lab = (0, ch, s)
        op = self.modes.cd(lab) if k == "cd" else self.modes.c(lab)
        return x * op

    def reduced(self, comps, tol=1e-13):
        """{(I1, I2): matrix} of the sum of irreducible components [(top operator, ranks)]"""
        mp = self.mp
        out = {}
        for top, ranks in comps:
            cache = {}
            shift = self._shift(top)
            for I1 in sorted(self.E):
                for I2 in sorted(self.E):
                    ok, g, mu = True, 1.0, {}
                    for n in mp.names:
                        j1, j2, j = mp.twoj[I1][n], mp.twoj[I2][n], ranks.get(n, 0)
                        if not (abs(j1 - j2) <= j <= j1 + j2) or (j1 + j2 + j) % 2:
                            ok = False
                            break
                        mu[n] = j1 - j2
                        g *= cg2(j2, j2, j, j1 - j2, j1, j1)
                    if not ok:
                        continue
                    if shift is None or not self._allowed(I1, I2, shift):
                        continue
                    key = tuple(mu.get(n, 0) for n in mp.names)
                    if key not in cache:
                        cache[key] = tensor_component(self.modes, mp.jp, top, {n: ranks.get(n, 0) for n in mp.names}, mu)
                    M = self.W[I1].conj().T @ (cache[key] @ self.W[I2])
                    out[(I1, I2)] = out.get((I1, I2), 0) + M / g
        return out

    def _shift(self, top):
        """change of every label that is not an SU(2) projection"""
        t = sp.coo_matrix(top)
        k = np.flatnonzero(np.abs(t.data) > 1e-13)
        if not len(k):
            return None
        i, j = t.row[k], t.col[k]
        par, mod3 = [n for n, _ in self.sym.par], [n for n, _ in self.sym.mod3]
        r = {}
        for n, v in self.mp.lab.items():
            if n in self.mp.names or n == "_F":
                continue
            d = v[i] * v[j] if n in par else (v[i] - v[j]) % 3 if n in mod3 else v[i] - v[j]
            assert (d == d[0]).all()
            r[n] = int(d[0])
        return r

    def _allowed(self, I1, I2, shift):
        l1, l2 = self.mp.hwlab[I1], self.mp.hwlab[I2]
        par, mod3 = [n for n, _ in self.sym.par], [n for n, _ in self.sym.mod3]
        for n, s in shift.items():
            d = l1[n] * l2[n] if n in par else (l1[n] - l2[n]) % 3 if n in mod3 else l1[n] - l2[n]
            if d != s:
                return False
        return True

    def fops(self):
        return [[self.reduced([(self.cluster_op(c), c[3]) for c in comps]) for comps in per] for per in self.sym.fops(self.nch)]

    # ------------------------------------------------------------ text
    def num(self, x):
        if self.cplx:
            x = complex(x)
            return "(%.17g,%.17g)" % (x.real, x.imag)
        return "%.17g" % x

    def block(self, me):
        L = [str(len(me))]
        for (I1, I2) in sorted(me):
            L.append("\t".join(map(str, I1 + I2)))
            for row in me[(I1, I2)]:
                L.append("\t".join(self.num(x) for x in row))
        return L

    def text(self, Nmax, sc, coef, ops=(), comment=(), rescaled=True):
        """coef: dict with xi, zeta (lists per coefficient channel) and optionally delta/kappa, xiR/zetaR
           ops: list of (block letter, name, {(I1,I2): matrix})"""
        L = ["# Input file for NRG Ljubljana" + (" COMPLEX" if self.cplx else "")]
        L += ["# symtype \t" + self.sym.name] + ["# " + c for c in comment] + ["#!9", "# Number of channels, chain sites, subspaces: "]
        L += ["%d\t%d\t%d" % (self.nch, Nmax, len(self.E)), "# SCALE \t%.17g" % sc, "# Energies:"]
        for inv in sorted(self.E):
            e = (self.E[inv] - self.Egs) / (sc if rescaled else 1.0)
            L += ["\t".join(map(str, inv)), str(len(e)), "\t".join("%.17g" % x for x in e)]
        L += ["# Irreducible matrix elements for Wilson chains:"]
        for ch, per in enumerate(self.fops()):
            for i, me in enumerate(per):
                L += ["f %d %d" % (ch, i)] + self.block(me)
        L += ["# GS energy in absolute units:", "e", "%.17g" % self.Egs, "# operators:"]
        for k, name, me in ops:
            L += [k + name] + self.block(me)
        L += ["# Discretization tables:"]

        def tab(letter, names):
            L.append(letter)
            for n in names:
                for t in coef[n]:
                    L.append(str(len(t) - 1))
                    L.extend(self.num(x) for x in t)
        if "star" in coef:  # nrginit writes the first coefficients and the star
            coef = dict(coef, xi=[x[:1] for x in coef["xi"]], zeta=[x[:1] for x in coef["zeta"]], **coef["star"])
        tab("z", ["xi", "zeta"])
        if "star" in coef:
            tab("T", ["ep", "em", "u0p", "u0m"])
        if "delta" in coef:
            tab("Z", ["delta", "kappa"])
        if "xiR" in coef:
            tab("X", ["xiR", "zetaR"])
        return "\n".join(L) + "\n"
