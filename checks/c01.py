"""Activation patterns and affine pieces of (leaky) ReLU networks."""
import numpy as np
import torch

from lib import nets
from lib.core import RV
from neural_network_lyapunov import relu_to_optimization as rto


def blist(p):
    return [[bool(u) for u in layer] for layer in p]


class Bin:
    start = None


def one(rng, n, w, free, base, xs):
    ev = []
    nu = sum(w[1:-1])
    for x in xs:
        xt = nets.t(x)
        p = blist(rto.ComputeReLUActivationPattern(n, xt))
        allp = [blist(q) for q in
                rto.compute_all_relu_activation_patterns(n, xt)]
        ev.append(dict(base, op="pattern", x=RV(x), p=p, all=allp))
        pick = [p] + rng.sample(allp, min(2, len(allp)))
        ys = [nets.vec(rng, w[0], 2., 2) for _ in range(6)] + [
            [a + rng.choice([-.25, 0., .25]) for a in x]
            for _ in range(6)]
        for q in pick:
            g, h, P, qq = rto.ReLUGivenActivationPattern(
                n, w[0], q, nets.F64)
            ev.append(dict(base, op="piece", x=RV(x), p=q, g=RV(g),
                           h=RV(h.reshape(-1)), P=RV(P),
                           q=RV(qq.reshape(-1)), ys=[RV(y) for y in ys]))
        z, beta, out = free.compute_relu_unit_outputs_and_activation(xt)
        ev.append(dict(base, op="units", x=RV(x), z=RV(z.reshape(-1)),
                       beta=[int(b) for b in beta.reshape(-1)],
                       out=RV(torch.as_tensor(out).reshape(-1))))
        bins = [Bin() for _ in range(nu)]
        rto.set_activation_warmstart(n, bins, xt)
        ev.append(dict(base, op="warm", x=RV(x),
                       beta=[int(b.start) if b.start is not None else -1
                             for b in bins]))
    return ev


def run(ck):
    ck.model("MC_Relu", wait=False)
    rng = ck.rng
    ev = []
    for rep in range(ck.n(90, 700)):
        w = nets.shape(rng, depth=(1, 3), width=(1, 3))
        n = nets.net(rng, w, bias=rng.random() < .8)
        xs = [nets.vec(rng, w[0], 2., 2) for _ in range(2)]
        if rng.random() < .5:
            xs.append([0.] * w[0])
        nets.tie(rng, n, xs[0])
        if rng.random() < .5:
            nets.tie(rng, n, xs[0])
        sp = nets.spec(n)
        free = rto.ReLUFreePattern(n, nets.F64)
        key = "relu" if sp["c"][0] == 0 else "leaky"
        base = {"net": sp, "key": key}
        nu = sum(w[1:-1])
        ev += nets.aged(rng, [n], lambda: one(rng, n, w, free, base, xs))
        beta = np.array([rng.randint(0, 1) for _ in range(nu)])
        if rep % 2:
            beta = beta.astype(float)
        ev.append(dict(base, op="binaries", beta=[int(b) for b in beta],
                       p=blist(rto.relu_activation_binary_to_pattern(
                           n, beta))))
    ck.stateless("Pattern", ev)
