"""Parametrisations of the state transform."""
import itertools

import numpy as np
import torch

from lib import nets
from lib.core import R, RV, TV, tick
from neural_network_lyapunov import r_options as ro

T = nets.t
ROT = [np.array([[.6, -.8], [.8, .6]]), np.array([[0., 1.], [1., 0.]]),
       np.eye(2), np.array([[-.8, .6], [.6, .8]])]


def orth(rng, n):
    """An orthonormal matrix."""
    q = np.eye(n)
    for _ in range(2):
        if n > 1:
            i, j = rng.sample(range(n), 2)
            g = np.eye(n)
            g[np.ix_([i, j], [i, j])] = rng.choice(ROT)
            q = q @ g
    return q @ np.diag([rng.choice([1., -1.]) for _ in range(n)])


def spd_value(rng, m, n, eps, positive=True):
    """(packed parameters, matrix): exact."""
    L = np.zeros((n, n))
    for i in range(n):
        for j in range(i):
            L[i, j] = nets.dy(rng, 1., 2)
        L[i, i] = rng.choice([.5, 1., 1.5]) if positive else \
            nets.dy(rng, 1., 2)
    bot = np.array([nets.vec(rng, n) for _ in range(m - n)]).reshape(
        (m - n, n))
    v = [L[i, j] for j in range(n) for i in range(j, n)] + \
        bot.reshape(-1).tolist()
    return v, np.vstack((L @ L.T + eps * np.eye(n), bot))


def session(ck):
    rng = ck.rng
    kind = rng.choice(["spd", "spd", "svd", "svd", "free", "fixed"])
    n = rng.randint(1, 3)
    m = n + rng.randint(0, 2)
    eps, a = 0., []
    if kind == "spd":
        eps = rng.choice([.125, .25, .5])
        o = ro.SearchRwithSPDOptions((m, n), eps)
    elif kind == "svd":
        if rng.random() < .3:
            m, n = n, m
        a = [rng.choice([.125, .25, .5, 1.]) for _ in range(min(m, n))]
        o = ro.SearchRwithSVDOptions((m, n), np.array(a))
    elif kind == "free":
        if rng.random() < .5:
            m, n = n, m
        o = ro.SearchRfreeOptions((m, n))
    else:
        Rv = np.array([nets.vec(rng, n) for _ in range(m)])
        o = ro.FixedROptions(T(Rv))
    ev = [{"op": "new", "key": "construct-" + kind, "kind": kind, "m": m,
           "n": n, "eps": R(eps), "a": RV(a), "v": [],
           "R": RV(Rv) if kind == "fixed" else [],
           "nvar": len(o.variables()), "fixed": o.fixed_R}]

    def setv():
        """A representable value with known parameters."""
        if kind == "spd":
            v, M = spd_value(rng, m, n, eps)
        elif kind == "svd":
            while True:
                q = [rng.choice([.25, .5, 1., 1.5, 2.]) for _ in a]
                s = [p + w * w for p, w in zip(a, q)]
                if all(x > y for x, y in zip(s, s[1:])):
                    break
                q = sorted(q, reverse=True)
                s = [p + w * w for p, w in zip(a, q)]
                if all(x > y for x, y in zip(s, s[1:])):
                    break
            D = np.zeros((m, n))
            for i, x in enumerate(s):
                D[i, i] = x
            v, M = q, orth(rng, m) @ D @ orth(rng, n)
        else:
            M = np.array([nets.vec(rng, n) for _ in range(m)])
            v = M.reshape(-1).tolist()
        return v, M

    def rand():
        if kind == "spd":
            return spd_value(rng, m, n, eps, False)[0]
        return nets.vec(rng, len(a) if kind == "svd" else m * n, 1.5, 2)

    ok = False
    for k in range(rng.randint(4, 10)):
        op = rng.choice(["set", "direct", "step", "read", "read", "floor",
                         "export"])
        if kind == "fixed":
            op = "read" if op in ("set", "direct", "step") else op
        elif not ok and op not in ("set", "direct"):
            op = "set"
        if op == "set":
            v, M = setv()
            o.set_variable_value(M.copy())
            ok = True
            # R as given (asymmetric top blocks stand for their mean)
            ev.append({"op": op, "key": "set-" + kind, "v": RV(v),
                       "R": [[R(round(q * 4096) / 4096) for q in r]
                             for r in M] if kind == "svd" else RV(M),
                       "grad": all(q.requires_grad for q in o.variables())})
            if kind == "spd" and n > 1 and rng.random() < .3:
                W = M.copy()
                W[0, 1] += .125
                W[1, 0] -= .125
                o.set_variable_value(W)
        elif op == "direct":
            v = rand()
            x = np.array(v)
            o.set_variable_value_directly(
                x.reshape((m, n)) if kind == "free" else x)
            ok = True
            ev.append({"op": op, "key": "direct-" + kind, "v": RV(v),
                       "grad": all(q.requires_grad for q in o.variables())})
        elif op == "step":
            # one optimisation step: gradient descent on a linear cost
            d = [rng.choice([0., .25, -.25, .5]) for _ in
                 range(o.variables()[0].numel())]
            opt = torch.optim.SGD(o.variables(), lr=1.)
            opt.zero_grad()
            cost = -(o.variables()[0].reshape(-1) * T(d)).sum()
            cost.backward()
            opt.step()
            ev.append({"op": op, "key": "step-" + kind, "d": RV(d)})
        elif op == "read":
            M = o.R()
            e = {"op": op, "key": "read-" + kind, "R": TV(M),
                 "v": TV(o.variables()[0].reshape(-1)) if o.variables()
                 else []}
            if kind == "svd":
                p = o.extract_params()
                e.update(U=TV(p["R_U"]), V=TV(p["R_V"]))
            ev.append(e)
        elif op == "export":
            p = o.extract_params()
            ev.append({"op": op, "key": "export-" + kind,
                       "size": [int(q) for q in p.get("R_size", ())],
                       "eps": R(p.get("R_epsilon", 0.)),
                       "a": RV(p.get("R_a", [])),
                       "v": TV(p["R_variables"].reshape(-1))
                       if "R_variables" in p else []})
        else:
            M = o.R().detach().numpy()
            for x in itertools.islice(
                    (q for q in itertools.product((-1., 0., 2.), repeat=n)),
                    2, 8, 2):
                y = M @ np.array(x)
                ev.append({"op": op, "key": "floor-" + kind, "x": RV(x),
                           "norm2": tick(float(y @ y)),
                           "quad": tick(float(np.array(x) @ y[:n]))
                           if m >= n else 0})
    return ev


def run(ck):
    ck.model("MC_Ropt", wait=False)
    ck.sessions("Ropt", [session(ck) for _ in range(ck.n(150, 1200))],
                size=250 if not ck.thorough else 1500)
