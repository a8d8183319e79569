"""Gradient-times-vector encoding and the multilinear gradient."""
import itertools

import numpy as np

from lib import nets
from lib.core import RV, TV, tick
from lib.mip import Block
from neural_network_lyapunov import relu_to_optimization as rto


def rt(rs):
    return [[tick(a), tick(b)] for a, b in rs]


def run(ck):
    ck.model("MC_Relu", wait=False)
    rng = ck.rng
    ev = []
    for rep in range(ck.n(60, 500)):
        w = nets.shape(rng, nin=(1, 3), depth=(1, 3), width=(1, 3))
        n = nets.net(rng, w, bias=rng.random() < .8)
        sp = nets.spec(n)
        free = rto.ReLUFreePattern(n, nets.F64)
        lo, up = nets.box(rng, w[0])
        r = nets.aged(rng, [n], lambda: free.output_gradient_times_vector(
            nets.t(lo), nets.t(up)))
        b = Block(r)
        nu = sum(w[1:-1])
        # The box of the vector is not among the rows when there is no unit
        # between, so only vectors of the box are asked for.
        for y in nets.points(rng, lo, up, 4):
            beta = [rng.randint(0, 1) for _ in range(nu)]
            o = b.at(y, binary=beta)
            ev.append({"op": "gradprod", "key": "gradient-times-vector",
                       "net": sp, "lo": RV(lo), "up": RV(up), "y": RV(y),
                       "beta": beta, "feas": o is not None,
                       "out": rt(o["out"]) if o else [],
                       "wzlo": [TV(v) for v in r.Wz_lo],
                       "wzup": [TV(v) for v in r.Wz_up],
                       "zlo": [TV(v) for v in r.z_lo],
                       "zup": [TV(v) for v in r.z_up]})
    for rep in range(ck.n(16, 120)):
        w = nets.shape(rng, nin=(1, 2), nout=(1, 1), depth=(1, 3),
                       width=(1, 3))
        n = nets.net(rng, w, slope=0., relu=True)
        sp = nets.spec(n)
        free = rto.ReLUFreePattern(n, nets.F64)
        M, B1, B2, d = nets.aged(rng, [n], free.output_gradient)
        M = M.detach().numpy()

        class Ret:
            Ain_input = np.zeros((B1.shape[0], 0))
            Ain_slack = None
            Ain_binary = B1.detach().numpy()
            Aeq_input = Aeq_slack = Aeq_binary = rhs_eq = None
            Aout_input = Aout_slack = Cout = None
            Aout_binary = np.eye(B1.shape[1])
            input_lo = input_up = slack_lo = slack_up = None
            binary_lo = binary_up = None

        nu = sum(w[1:-1])
        for beta in rng.sample(list(itertools.product([0, 1], repeat=nu)),
                               min(4, 2**nu)):
            Ret.rhs_in = (d.detach().numpy().reshape(-1) -
                          B2.detach().numpy() @ np.array(beta, dtype=float))
            rg = Block(Ret).at([])
            paths = list(itertools.product(*[range(k) for k in w[1:-1]]))
            idx = [[list(p), int(free.compute_alpha_index(p))]
                   for p in paths]
            rngs = rt(rg["out"]) if rg else []
            alpha = [int(round(a[0] / 4096)) for a in rngs]
            ev.append({"op": "multilinear", "key": "multilinear-gradient",
                       "net": sp, "beta": list(beta), "alpha": alpha,
                       "range": rngs, "idx": idx,
                       "grad": RV(np.array(alpha, dtype=float) @ M)})
    ck.stateless("NetMip", ev)
