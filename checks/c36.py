"""Roll-pitch-yaw rotation matrices and their derivatives."""
import itertools
import math

import numpy as np
import torch

from lib.core import TV
import neural_network_lyapunov.geometry_transform as gt

PAIRS = [((1, 1), (0, 1)), ((0, 1), (1, 1)), ((-1, 1), (0, 1)),
         ((0, 1), (-1, 1)), ((3, 5), (4, 5)), ((4, 5), (-3, 5)),
         ((-5, 13), (12, 13)), ((-12, 13), (-5, 13)), ((15, 17), (8, 17))]


def run(ck):
    ck.model("MC_Rot", wait=False)
    ang = [math.atan2(s[0] / s[1], c[0] / c[1]) for c, s in PAIRS]
    combos = list(itertools.product(range(len(PAIRS)), repeat=3))
    ck.rng.shuffle(combos)
    combos = combos[:ck.n(500, 729)]
    ev = []
    for q, idx in enumerate(combos):
        a = [[list(PAIRS[i][0]), list(PAIRS[i][1])] for i in idx]
        turns = [2 * math.pi * ck.rng.choice([0, 0, 1, -1]) for _ in idx]
        v = [ang[i] + t for i, t in zip(idx, turns)]
        for kind in ("numpy", "torch"):
            if kind == "numpy":
                rpy = np.array(v)
            else:
                rpy = torch.tensor(v, dtype=torch.float64,
                                   requires_grad=(q % 4 == 0))
            m = gt.rpy2rotmat(rpy)
            ev.append({"op": "rot", "key": kind, "a": a, "R": TV(m)})
            d = gt.rpy2rotmat_gradient(rpy)
            ev.append({"op": "grad", "key": kind, "a": a, "dr": TV(d[0]),
                       "dp": TV(d[1]), "dy": TV(d[2])})
            if kind == "torch" and q % 4 == 0:
                # differentiating the matrix itself
                J = [[[torch.autograd.grad(m[r, c], rpy, retain_graph=True)[0]
                       [k].item() for c in range(3)] for r in range(3)]
                     for k in range(3)]
                ev.append({"op": "grad", "key": "autograd", "a": a,
                           "dr": TV(J[0]), "dp": TV(J[1]), "dy": TV(J[2])})
            if kind == "torch" and q % 10 == 0:
                r32 = torch.tensor(v, dtype=torch.float32)
                m32 = gt.rpy2rotmat(r32)
                d32 = gt.rpy2rotmat_gradient(r32)
                ok = m32.dtype == torch.float32 and all(
                    x.dtype == torch.float32 for x in d32)
                ev.append({"op": "type", "key": "float32", "ok": ok})
                ev.append({"op": "rot", "key": "float32", "a": a,
                           "R": TV(m32)})
    ck.trace("Rot", ev)
