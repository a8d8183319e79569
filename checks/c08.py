"""Generalised gradients of norms and networks; Minkowski sums."""
import numpy as np
import torch

from lib import nets
from lib.core import R, RV
from neural_network_lyapunov import utils

T = nets.t


def vec0(rng, n, tol):
    """Entries with zeros, values at, inside and outside the tolerance."""
    return [rng.choice([0., 0., tol, -tol, tol / 2, -tol / 2, tol + .125,
                        -tol - .125, 1., -1., .5, -2., .25]) for _ in range(n)]


def run(ck):
    ck.model("MC_Grads", wait=False)
    rng = ck.rng
    ev = []
    for _ in range(ck.n(220, 1500)):
        n = rng.randint(1, 5)
        tol = rng.choice([0., 0., 0., .25, .5, 1.])
        x = vec0(rng, n, tol)
        subs = rng.choice([None, None, [], [0.], [-.5, .25], [.5, 0., -.25]])
        kw = {}
        if tol > 0 or rng.random() < .5:
            kw["zero_tol"] = tol
        if subs is not None:
            kw["subgradient_samples"] = np.array(subs)
            if n > 4:
                x = x[:3]
        g = utils.l1_gradient(T(x), **kw)
        ev.append({"op": "l1", "key": "l1", "x": RV(x), "tol": R(tol),
                   "subs": RV(subs or []), "g": RV(g)})
        # entries near the largest one
        m = rng.choice([1., 2., .5])
        tol = rng.choice([0., 0., .25, .5])
        x = [rng.choice([m, -m, m - tol, tol - m, m - tol - .125, 0., m / 4])
             for _ in range(rng.randint(1, 5))]
        if rng.random() < .1:
            x = [rng.choice([0., tol, -tol]) for _ in x]
        g = utils.l_infinity_gradient(T(x), max_tol=tol) if tol > 0 or \
            rng.random() < .5 else utils.l_infinity_gradient(T(x))
        ev.append({"op": "linf", "key": "l-infinity", "x": RV(x),
                   "tol": R(tol), "g": RV(g)})
    for _ in range(ck.n(60, 400)):
        w = nets.shape(rng, nin=(1, 3), nout=(1, 3), depth=(1, 3),
                       width=(1, 3))
        n = nets.net(rng, w, bias=rng.random() < .8)
        x = nets.vec(rng, w[0])
        for _ in range(rng.randint(0, 3)):
            nets.tie(rng, n, x)
        tol = rng.choice([0., 0., .25, 1.])
        with torch.no_grad():
            z, kinks = T(x), 0
            for q in n:
                if not isinstance(q, torch.nn.Linear):
                    kinks += int((z.abs() <= tol).sum())
                z = q(z)
        if kinks > 5:
            continue
        kw = {"zero_tol": tol} if tol > 0 or rng.random() < .5 else {}
        g = nets.aged(rng, [n], lambda: utils.relu_network_gradient(
            n, T(x), **kw))
        ev.append({"op": "net", "key": "network", "net": nets.spec(n),
                   "x": RV(x), "tol": R(tol), "kinks": kinks, "g": RV(g)})
    for _ in range(ck.n(40, 200)):
        d = rng.randint(1, 3)
        a = [nets.vec(rng, d) for _ in range(rng.randint(1, 4))]
        b = [nets.vec(rng, d) for _ in range(rng.randint(1, 4))]
        if rng.random() < .5:
            s = utils.minkowski_sum(T(a), T(b))
        else:    # the same entries as matrices
            s = utils.minkowski_sum(T(a).reshape((len(a), 1, d)),
                                    T(b).reshape((len(b), 1, d)))
            assert tuple(s.shape[1:]) == (1, d)
            s = s.reshape((-1, d))
        ev.append({"op": "sum", "key": "minkowski-sum", "x": RV(a),
                   "y": RV(b), "s": RV(s)})
    ck.stateless("Grads", ev)
