"""
Observing an encoded block: what outputs, slacks and binaries its matrices
allow at a given input.  Independent of the code under test (HiGHS through
scipy), so that only the matrices the code produced are judged.
"""
import numpy as np
from scipy.optimize import linprog

from lib import bb

INF = np.inf


def A(x):
    if x is None:
        return None
    if hasattr(x, "detach"):
        x = x.detach().cpu().numpy()
    return np.asarray(x, dtype=float)


def first(*ms):
    for m in ms:
        if m is not None:
            return m.shape[1]
    return 0


class Block:
    """The matrices of a MixedIntegerConstraintsReturn."""

    def __init__(self, r):
        for k in ("Ain_input", "Ain_slack", "Ain_binary", "rhs_in",
                  "Aeq_input", "Aeq_slack", "Aeq_binary", "rhs_eq",
                  "Aout_input", "Aout_slack", "Aout_binary", "Cout",
                  "input_lo", "input_up", "slack_lo", "slack_up",
                  "binary_lo", "binary_up"):
            setattr(self, k, A(getattr(r, k)))
        self.nx = first(self.Aout_input, self.Ain_input, self.Aeq_input)
        self.ns = first(self.Aout_slack, self.Ain_slack, self.Aeq_slack)
        self.nb = first(self.Aout_binary, self.Ain_binary, self.Aeq_binary)
        self.rhs_in = self.rhs_in if self.rhs_in is not None else \
            np.zeros((0,))
        self.rhs_eq = self.rhs_eq if self.rhs_eq is not None else \
            np.zeros((0,))
        self.rhs_in = self.rhs_in.reshape(-1)
        self.rhs_eq = self.rhs_eq.reshape(-1)
        mi, me = self.rhs_in.shape[0], self.rhs_eq.shape[0]

        def row(a, b, c, m):
            return np.hstack([
                v.reshape(m, n) if v is not None else np.zeros((m, n))
                for v, n in ((a, self.nx), (b, self.ns), (c, self.nb))])

        self.Gi = row(self.Ain_input, self.Ain_slack, self.Ain_binary, mi)
        self.Ge = row(self.Aeq_input, self.Aeq_slack, self.Aeq_binary, me)
        no = [v.shape[0] for v in (self.Aout_input, self.Aout_slack,
                                   self.Aout_binary, self.Cout)
              if v is not None]
        self.no = no[0] if no else 0
        self.Go = row(self.Aout_input, self.Aout_slack, self.Aout_binary,
                      self.no)
        self.co = self.Cout.reshape(-1) if self.Cout is not None else \
            np.zeros(self.no)
        n = self.nx + self.ns + self.nb
        self.lb, self.ub = np.full(n, -INF), np.full(n, INF)
        self.lb[self.nx + self.ns:] = 0.
        self.ub[self.nx + self.ns:] = 1.
        o = 0
        for k, m in (("input", self.nx), ("slack", self.ns),
                     ("binary", self.nb)):
            lo, up = getattr(self, k + "_lo"), getattr(self, k + "_up")
            if lo is not None:
                self.lb[o:o + m] = np.maximum(self.lb[o:o + m],
                                              lo.reshape(-1))
            if up is not None:
                self.ub[o:o + m] = np.minimum(self.ub[o:o + m],
                                              up.reshape(-1))
            o += m

    def at(self, x, binary=None, outs=True, slacks=False, binaries=False):
        """Ranges of outputs/slacks/binaries at input x (None = infeasible)."""
        return ranges(self, np.asarray(x, dtype=float), binary, outs, slacks,
                      binaries)


def program(c, Gi, hi, Ge, he, lb, ub, nb, relax=False):
    """min c v; returns (status, value, v); status in opt, inf, unb."""
    if np.any(lb > ub + 1e-9):
        return "inf", None, None
    return minimise(Prog(Gi, hi, Ge, he, lb, ub, nb), c, relax)


class Prog:
    def __init__(self, Gi, hi, Ge, he, lb, ub, nb):
        n = len(lb)
        self.nb, self.n = nb, n
        self.lb, self.ub = np.array(lb, float), np.maximum(lb, ub)
        G = [m for m, h in ((Gi, hi), (Ge, he)) if len(h)]
        G = np.vstack(G) if G else np.zeros((0, n))
        rl = np.concatenate([np.full(len(hi), -INF), he])
        ru = np.concatenate([hi, he])
        self.lp = bb.LP(np.zeros(n), *bb.dense(G, rl, ru), self.lb, self.ub)


def minimise(p, c, relax=False):
    p.lp.cost(c)
    ids = np.arange(p.n - p.nb, p.n)
    if relax or not p.nb:
        r = p.lp.solve()
        r = r if len(r) == 3 else r + (None, None)
    else:
        r = bb.solve(p.lp, ids, p.lb, p.ub)
    if r[0] not in ("opt", "inf", "unb"):
        raise RuntimeError("program: " + r[0])
    return r


def ranges(bl, x, binary, outs, slacks, binaries):
    n, nx = bl.nx + bl.ns + bl.nb, bl.nx
    if np.any(x < bl.lb[:nx] - 1e-9) or np.any(x > bl.ub[:nx] + 1e-9):
        return None
    hi = bl.rhs_in - bl.Gi[:, :nx] @ x
    he = bl.rhs_eq - bl.Ge[:, :nx] @ x
    Gi, Ge = bl.Gi[:, nx:], bl.Ge[:, nx:]
    # Rows without variables left are checked here (round-off allowed).
    z = ~np.any(Gi != 0, axis=1) if len(hi) else np.zeros(0, bool)
    if np.any(hi[z] < -1e-7):
        return None
    Gi, hi = Gi[~z], hi[~z]
    z = ~np.any(Ge != 0, axis=1) if len(he) else np.zeros(0, bool)
    if np.any(np.abs(he[z]) > 1e-7):
        return None
    Ge, he = Ge[~z], he[~z]
    lb, ub = bl.lb[nx:].copy(), bl.ub[nx:].copy()
    if binary is not None:
        b = np.asarray(binary, dtype=float)
        o = bl.ns
        if np.any(b < lb[o:] - 1e-9) or np.any(b > ub[o:] + 1e-9):
            return None
        lb[o:], ub[o:] = b, b
    objs = []
    if outs:
        objs += [("out", bl.Go[i, nx:], bl.co[i] + bl.Go[i, :nx] @ x)
                 for i in range(bl.no)]
    eye = np.eye(n - nx)
    if slacks:
        objs += [("slack", eye[i], 0.) for i in range(bl.ns)]
    if binaries:
        objs += [("binary", eye[bl.ns + i], 0.) for i in range(bl.nb)]
    res = {"out": [], "slack": [], "binary": []}
    if n == nx:
        for k, c, c0 in objs:
            res[k].append((c0, c0))
        return res
    if np.any(lb > ub + 1e-9):
        return None
    p = Prog(Gi, hi, Ge, he, lb, ub, bl.nb)
    if not objs:
        s = minimise(p, np.zeros(n - nx))
        return None if s[0] == "inf" else res
    for k, c, c0 in objs:
        lo = minimise(p, c)
        if lo[0] == "inf":
            return None
        up = minimise(p, -c)
        res[k].append((-1e9 if lo[0] == "unb" else lo[1] + c0,
                       1e9 if up[0] != "opt" else -up[1] + c0))
    return res


def lp_max(c, Gi, hi, lo, up):
    """max c x over a polytope in a box; (value, x) or None."""
    r = linprog(-np.asarray(c), A_ub=Gi if len(hi) else None,
                b_ub=hi if len(hi) else None,
                bounds=list(zip(lo, up)), method="highs")
    return (-r.fun, r.x) if r.status == 0 else None


def net_extreme(net, lo, up, rows):
    """Extreme points of pre-activations/outputs of a network over a box.

    rows: list of (layer, unit).  Yields (row, sign, value, x).  An encoding
    of its own (pre- and post-activation variables, loose big-M constants).
    """
    import torch
    lins = [q for q in net if isinstance(q, torch.nn.Linear)]
    c = 0.
    for q in net:
        if isinstance(q, torch.nn.LeakyReLU):
            c = float(q.negative_slope)
    assert 0 <= c < 1
    W = [q.weight.detach().numpy() for q in lins]
    b = [q.bias.detach().numpy() if q.bias is not None else
         np.zeros(q.out_features) for q in lins]
    nx = len(lo)
    off_a, off_z, n = [], [], nx
    for k in range(len(W)):
        off_a.append(n)
        n += W[k].shape[0]
        if k < len(W) - 1:
            off_z.append(n)
            n += W[k].shape[0]
    nb = sum(w.shape[0] for w in W[:-1])
    ob = n
    n += nb
    Ge, he, Gi, hi = [], [], [], []
    lb, ub = np.full(n, -INF), np.full(n, INF)
    lb[:nx], ub[:nx] = lo, up
    lb[ob:], ub[ob:] = 0., 1.
    m = np.maximum(np.abs(lo), np.abs(up))
    j = 0
    for k in range(len(W)):
        src = 0 if k == 0 else off_z[k - 1]
        m = np.abs(W[k]) @ m + np.abs(b[k]) + 1.
        for i in range(W[k].shape[0]):
            r = np.zeros(n)
            r[off_a[k] + i] = 1.
            r[src:src + W[k].shape[1]] -= W[k][i]
            Ge.append(r)
            he.append(b[k][i])
            if k < len(W) - 1:
                a, z, be = off_a[k] + i, off_z[k] + i, ob + j
                j += 1
                for ca, cz, cb, h in (
                        (1., -1., 0., 0.), (c, -1., 0., 0.),
                        (-c, 1., -(1 - c) * m[i], 0.),
                        (-1., 1., (1 - c) * m[i], (1 - c) * m[i])):
                    r = np.zeros(n)
                    r[a] += ca
                    r[z] += cz
                    r[be] += cb
                    Gi.append(r)
                    hi.append(h)
    Ge, he = np.array(Ge), np.array(he)
    Gi = np.array(Gi) if Gi else np.zeros((0, n))
    hi = np.array(hi)
    for (k, i) in rows:
        for s in (1., -1.):
            obj = np.zeros(n)
            obj[off_a[k] + i] = -s
            st, v, x = program(obj, Gi, hi, Ge, he, lb, ub, nb)
            assert st == "opt", st
            yield (k, i), s, -s * v, x[:nx]
