"""Ranges of linear maps, polytopes, leaky ReLUs; LP values; projections."""
import math
import warnings

import numpy as np
import torch
from scipy.optimize import linprog, nnls

from lib import nets
from lib.core import MachineryError, R, RV, TV, snap, tick
from neural_network_lyapunov import mip_utils as mu
from neural_network_lyapunov import utils

T = nets.t


def rows(n, C, d, E, f, lo, up):
    G = [list(r) for r in C] + [list(r) for r in E] + \
        [[-v for v in r] for r in E]
    h = list(d) + list(f) + [-v for v in f]
    eye = np.eye(n)
    if up is not None:
        G += eye.tolist()
        h += list(up)
    if lo is not None:
        G += (-eye).tolist()
        h += [-v for v in lo]
    return np.array(G, dtype=float).reshape((-1, n)), np.array(h)


def ratvec(v):
    out, tol = snap(list(v), 4000)
    return out if tol < 10 else None


def certify(c, n, G, h):
    """max c.x over G x <= h: a rational certificate, or None."""
    c = np.array(c, dtype=float)
    fr = [(None, None)] * n
    m = len(h)
    z = linprog(np.zeros(n), A_ub=G, b_ub=h, bounds=fr, method="highs") \
        if m else None
    if m and z.status == 2:
        # sum of multipliers fixed: the least bound is negative
        w = linprog(h, A_eq=np.vstack([G.T, np.ones(m)]),
                    b_eq=np.append(np.zeros(n), 1.), method="highs-ds")
        lam = ratvec(w.x)
        return {"kind": "inf", "l": lam} if lam else None
    r = linprog(-c, A_ub=G if m else None, b_ub=h if m else None, bounds=fr,
                method="highs-ds")
    if r.status == 0:
        x, lam = ratvec(r.x), ratvec(-r.ineqlin.marginals) if m else []
        return {"kind": "opt", "x": x, "l": lam} if x and \
            lam is not None else None
    ray = linprog(-c, A_ub=G if m else None, b_ub=np.zeros(m) if m else None,
                  bounds=[(-1, 1)] * n, method="highs-ds")
    x, rr = ratvec(z.x if m else np.zeros(n)), ratvec(ray.x)
    if not x or not rr or -ray.fun < 1e-9:
        return None
    return {"kind": "unb", "x": x, "r": rr}


def q_of(n, C, d, E, f, lo, up):
    return {"n": n, "C": RV(C), "d": RV(d), "E": RV(E), "f": RV(f),
            "lo": RV(lo) if lo is not None else [],
            "up": RV(up) if up is not None else []}


def num(v):
    v = float(v)
    if v == math.inf or v >= 1e90:
        return {"kind": "+inf", "v": 0}
    if v == -math.inf or v <= -1e90:
        return {"kind": "-inf", "v": 0}
    return {"kind": "num", "v": tick(v)}


def neg(o):
    return {"kind": {"+inf": "-inf", "-inf": "+inf"}.get(o["kind"],
                                                        o["kind"]),
            "v": -o["v"]}


def both(ck, ev, key, n, C, d, E, f, lo, up, c, k, olo, oup):
    """Events for the supremum and the infimum of c.x + k."""
    G, h = rows(n, C, d, E, f, lo, up)
    q = q_of(n, C, d, E, f, lo, up)
    for s, o, side in ((1., oup, "supremum"), (-1., olo, "infimum")):
        if o is None:
            continue
        o = num(o) if s > 0 else neg(num(o))
        cc = [s * v for v in c]
        cert = certify(cc, n, G, h)
        if cert is None:
            ck.notes["uncertified"] = ck.notes.get("uncertified", 0) + 1
            continue
        ev.append({"op": "cert", "key": key, "q": q, "c": RV(cc),
                   "k": R(s * k), "cert": cert, "obs": o, "side": side})


def polytope(rng, n, kind=None):
    """Rows C x <= d: a box-like core with random cuts, maybe unbounded."""
    kind = kind or rng.choice(["bounded", "bounded", "open", "any", "empty"])
    C, d = [], []
    if kind in ("bounded", "open", "empty"):
        for i in range(n):
            for s in (1., -1.):
                if kind == "open" and rng.random() < .4:
                    continue
                r = [0.] * n
                r[i] = s
                C.append(r)
                d.append(rng.choice([.5, 1., 2.]))
    for _ in range(rng.randint(1 if not C else 0, 3)):
        r = nets.vec(rng, n, 2., 1)
        if any(r):
            C.append(r)
            d.append(rng.choice([0., .5, 1., 2.]))
    if kind == "empty":
        r = nets.vec(rng, n, 2., 1)
        C.append([1.] * n)
        d.append(-2.5 * n)
    if not C:
        C, d = [[1.] + [0.] * (n - 1)], [1.]
    o = list(range(len(C)))
    rng.shuffle(o)
    return [C[i] for i in o], [d[i] for i in o]


def run(ck):
    ck.model("MC_Ranges", wait=False)
    warnings.simplefilter("ignore")
    rng = ck.rng
    ev = []
    for _ in range(ck.n(40, 300)):
        n, m = rng.randint(1, 4), rng.randint(1, 3)
        A = [nets.vec(rng, n, 2., 2) for _ in range(m)]
        b = nets.vec(rng, m, 1., 2)
        lo, up = nets.box(rng, n)
        if rng.random() < .2:
            up[0] = lo[0]
        o = mu.compute_range_by_IA(T(A), T(b), T(lo), T(up))
        ev.append({"op": "interval", "key": "range-by-intervals", "A": RV(A),
                   "b": RV(b), "lo": RV(lo), "up": RV(up), "olo": TV(o[0]),
                   "oup": TV(o[1])})
        lin = torch.nn.Linear(n, m, bias=rng.random() < .7).type(nets.F64)
        lin.weight.data = T(A)
        bb = [0.] * m
        if lin.bias is not None:
            lin.bias.data = T(b)
            bb = b
        o = mu.propagate_bounds(lin, T(lo), T(up))
        ev.append({"op": "interval", "key": "layer-range", "A": RV(A),
                   "b": RV(bb), "lo": RV(lo), "up": RV(up),
                   "olo": TV(o[0]), "oup": TV(o[1])})
        c = rng.choice([0., .25, 1., 1.5, -.5, -2.])
        for i in range(n):
            if lo[i] < up[i]:
                a = (T(lo[i]), T(up[i])) if rng.random() < .6 else \
                    (lo[i], up[i])
                o = utils.leaky_relu_interval(c, *a)
                ev.append({"op": "leaky", "key": "leaky-interval",
                           "c": R(c), "lo": R(lo[i]), "up": R(up[i]),
                           "olo": tick(o[0]), "oup": tick(o[1])})
        layer = torch.nn.ReLU() if c == 0. else torch.nn.LeakyReLU(c)
        o = mu.propagate_bounds(layer, T(lo), T(up))
        ev.append({"op": "leakyv", "key": "activation-range", "c": R(c),
                   "lo": RV(lo), "up": RV(up), "olo": TV(o[0]),
                   "oup": TV(o[1])})
    for c in (0., .25, 1., 1.5, -.5, -2.):
        for lo, up in ((-2., 1.), (-.5, 3.), (-1., 0.), (0., 2.), (.5, 2.),
                       (-3., -.5), (-1., 1.)):
            a = (T(lo), T(up)) if rng.random() < .5 else (lo, up)
            o = utils.leaky_relu_interval(c, *a)
            ev.append({"op": "leaky", "key": "leaky-interval", "c": R(c),
                       "lo": R(lo), "up": R(up), "olo": tick(o[0]),
                       "oup": tick(o[1])})
    for _ in range(ck.n(40, 300)):
        n, m = rng.randint(1, 3), rng.randint(1, 2)
        A = [nets.vec(rng, n, 2., 2) for _ in range(m)]
        b = nets.vec(rng, m, 1., 2)
        lo, up = nets.box(rng, n)
        C, d = polytope(rng, n)
        u = rng.random()
        if u < .2:
            C, d = [], []
        elif u < .35:
            lo = None
        elif u < .5:
            up = None
        elif u < .65:
            lo = up = None
        f = (lambda v: None if v is None else np.array(v))
        y = mu.compute_range_by_lp(
            np.array(A), np.array(b), f(lo), f(up),
            np.array(C) if C else None, np.array(d) if C else None)
        for i in range(m):
            both(ck, ev, "range-by-lp", n, C, d, [], [], lo, up, A[i], b[i],
                 y[0][i], y[1][i])
        C, d = polytope(rng, n)
        i = rng.randrange(n)
        g = T if rng.random() < .5 else np.array
        y = utils.compute_bounds_from_polytope(g(C), g(d), i)
        both(ck, ev, "polytope-extent", n, C, d, [], [], None, None,
             np.eye(n)[i].tolist(), 0., y[0], y[1])
        # boundedness of a nonempty polyhedron
        C, d = polytope(rng, n, rng.choice(["bounded", "open", "any"]))
        G, h = rows(n, C, d, [], [], None, None)
        cs = np.vstack([np.eye(n), -np.eye(n)]).tolist()
        certs = [certify(c, n, G, h) for c in cs]
        if all(certs) and not any(c["kind"] == "inf" for c in certs):
            ev.append({"op": "bounded", "key": "boundedness",
                       "q": q_of(n, C, d, [], [], None, None), "cs": RV(cs),
                       "certs": certs,
                       "obs": bool(utils.is_polyhedron_bounded(T(C)))})
            x = nets.vec(rng, n, 4., 2)
            y = utils.project_to_polyhedron(T(C), T(d), T(x))
            project(ck, ev, n, C, d, x, y)
        # value of a linear program
        C, d = polytope(rng, n, rng.choice(["bounded"] * 5 + ["open",
                                                              "empty"]))
        E, fe = [], []
        if n > 1 and rng.random() < .5:
            E = [nets.vec(rng, n, 1., 1)]
            E[0][0] = 1.
            fe = [rng.choice([0., .25])]
        c, k = nets.vec(rng, n, 2., 2), nets.dy(rng)
        c = [v if v else .5 for v in c]
        G, h = rows(n, C, d, E, fe, None, None)
        cert = certify(c, n, G, h)
        if cert is None:
            continue
        if cert["kind"] == "opt":
            # the closed form needs as many active rows as variables
            x = np.array([a / b for a, b in cert["x"]])
            act = int(np.sum(np.abs(G @ x - h)[:len(C)] < 1e-9)) + len(E)
            rk = np.linalg.matrix_rank(np.vstack(
                [G[:len(C)][np.abs(G @ x - h)[:len(C)] < 1e-9]] +
                [np.array(E).reshape((-1, n))]))
            if act != n or rk != n or not unique(c, n, G, h, cert):
                continue
        par = [T(c), T(k), T(C), T(d), T(E).reshape((-1, n)), T(fe)]
        for v in par:
            v.requires_grad_(True)
        val = utils.linear_program_cost(*par)
        if cert["kind"] != "opt":
            if val is not None:
                ck.problem("lp-value", ["no-value-without-optimum"],
                           ck.replay_file("lp", [c, k, C, d, E, fe]))
            continue
        both(ck, ev, "lp-value", n, C, d, E, fe, None, None, c, k, None, val)
        g = torch.autograd.grad(val, par, allow_unused=True)
        g = [torch.zeros_like(v) if w is None else w for v, w in zip(par, g)]
        ev.append({"op": "lpgrad", "key": "lp-value-derivative",
                   "q": q_of(n, C, d, E, fe, None, None), "c": RV(c),
                   "cert": cert, "gc": TV(g[0]), "gd": TV(g[1]),
                   "gA": TV(g[2]), "gb": TV(g[3]), "gE": TV(g[4]),
                   "gf": TV(g[5])})
    ck.assumptions.append("LPs whose certificate is not a small rational are "
                          "skipped (counted as uncertified)")
    if ck.notes.get("uncertified", 0) > len(ev) / 4:
        raise MachineryError("too many uncertified programs")
    ck.stateless("Ranges", ev)


def unique(c, n, G, h, cert):
    """The optimum is one point: strictly positive multipliers span."""
    lam = np.array([a / b for a, b in cert["l"]])
    return np.linalg.matrix_rank(G[lam > 1e-9]) == n if np.any(lam > 1e-9) \
        else False


def project(ck, ev, n, C, d, x, y):
    """Independent nearest point: enumerate active sets, exact rationals."""
    import itertools
    G, h, x0 = np.array(C), np.array(d), np.array(x)
    for k in range(0, n + 1):
        for S in itertools.combinations(range(len(h)), k):
            S = list(S)
            if k:
                g = G[S]
                M = g @ g.T
                if abs(np.linalg.det(M)) < 1e-9:
                    continue
                lam = np.linalg.solve(M, g @ x0 - h[S])
                p = x0 - g.T @ lam
            else:
                lam, p = np.zeros(0), x0
            if np.all(lam > -1e-12) and np.all(G @ p <= h + 1e-9):
                full = np.zeros(len(h))
                full[S] = lam
                yy, ll = ratvec(p), ratvec(full)
                if yy is None or ll is None:
                    ck.notes["uncertified"] = \
                        ck.notes.get("uncertified", 0) + 1
                    return
                ev.append({"op": "project", "key": "projection",
                           "q": q_of(n, C, d, [], [], None, None),
                           "x": RV(x), "y": yy, "l": ll, "obs": TV(y)})
                return
    raise MachineryError("no projection found")
