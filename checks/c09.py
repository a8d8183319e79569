"""Flat parameter vectors, structure, gradients and saved models."""
import os

import numpy as np
import torch

from lib import nets
from lib.core import R, RV, TV
from neural_network_lyapunov import r_options, utils

T = nets.t


def lins(n):
    return [q for q in n if isinstance(q, torch.nn.Linear)]


def kinds(n):
    return [type(q).__name__ for q in n]


def npar(w, bias):
    return sum(a * b + (b if bias else 0) for a, b in zip(w, w[1:]))


def grads(n):
    return [[q.weight.grad, q.bias.grad if q.bias is not None else None]
            for q in lins(n)]


def session(ck):
    rng = ck.rng
    w = nets.shape(rng, nin=(1, 3), nout=(1, 3), depth=(0, 3), width=(1, 4))
    bias = rng.random() < .7
    slope = rng.choice([0., .25, .5, .125])
    ev = []
    given = rng.random() < .8
    v = nets.vec(rng, npar(w, bias))
    if rng.random() < .8:
        kw = {"negative_slope": slope, "bias": bias}
        if given:
            kw["params"] = T(v)
        n = utils.setup_relu(tuple(w), dtype=nets.F64, **kw)
        if not given:
            with torch.no_grad():
                for p in n.parameters():
                    p.copy_(T(np.reshape(nets.vec(rng, p.numel()),
                                         tuple(p.shape))))
        # the vector handed in stays the caller's
        vec = kw.get("params")
        if vec is not None and rng.random() < .5:
            vec += 1.
            vec -= .5
    else:
        given = False
        n = nets.net(rng, w, slope=slope, bias=bias,
                     relu=slope == 0. and rng.random() < .5)
    act = [k for k in kinds(n) if k != "Linear"]
    ev.append({"op": "setup", "key": "construct", "w": w, "bias": bias,
               "c": R(slope) if len(w) > 2 else [0, 1],
               "hasbias": all((q.bias is not None) for q in lins(n)),
               "given": given, "v": RV(v), "net": nets.spec(n),
               "kinds": [k if k == "Linear" else "act" for k in kinds(n)],
               "expkinds": (["Linear", "act"] * len(w))[:2 * len(w) - 3]})
    gcnt = 0
    for _ in range(rng.randint(4, 9)):
        o = rng.choice(["update", "extract", "grad", "zero", "structure",
                        "saved", "nudge", "extract"])
        if o == "update":
            v = nets.vec(rng, npar(w, bias))
            utils.update_relu_params(n, T(v))
            ev.append({"op": o, "key": "write", "v": RV(v),
                       "net": nets.spec(n)})
        elif o == "extract":
            x = utils.extract_relu_parameters(n)
            ev.append({"op": o, "key": "read", "v": RV(x)})
        elif o == "nudge":
            ls = list(n.parameters())
            i = rng.randrange(npar(w, bias))
            val = nets.dy(rng)
            k, at = i, 0
            for p in ls:
                if k < p.numel():
                    with torch.no_grad():
                        p.reshape(-1)[k] = val
                    break
                k -= p.numel()
            ev.append({"op": o, "key": "nudge", "at": i + 1, "val": R(val)})
        elif o == "grad":
            for q in lins(n):
                for p in (q.weight, q.bias):
                    if p is None:
                        continue
                    u = rng.random()
                    if u < .3:
                        p.grad = None
                    elif u < .8 or p.grad is None:
                        p.grad = T(np.reshape(nets.vec(rng, p.numel()),
                                              tuple(p.shape)))
            g = grads(n)
            x = utils.extract_relu_parameters_grad(n)
            ev.append({"op": o, "key": "read-gradient", "v": RV(x),
                       "gW": [RV(a) if a is not None else [] for a, _ in g],
                       "gb": [RV(b) if b is not None else [] for _, b in g]})
        elif o == "zero":
            before = [[a is None for a in p] for p in grads(n)]
            utils.network_zero_grad(n)
            g = grads(n)
            ev.append({"op": o, "key": "clear-gradient",
                       "after": [RV(a.reshape(-1)) for p in g for a in p
                                 if a is not None],
                       "nonebefore": before,
                       "none": [[a is None for a in p] for p in g]})
        elif o == "structure":
            a, b, c = utils.extract_relu_structure(n)
            ev.append({"op": o, "key": "structure", "w": list(a), "bias": c,
                       "c": R(b) if b is not None else [0, 1]})
        else:
            ev.append(saved(ck, n, w, bias))
    ev.append({"op": "extract", "key": "read",
               "v": RV(utils.extract_relu_parameters(n))})
    return ev


def saved(ck, n, w, bias):
    rng = ck.rng
    f = os.path.join(ck.dir, "model.pt")
    kind = rng.choice(["forward", "controller", "lyapunov"])
    v = [nets.vec(rng, 2) for _ in range(4)]
    if kind == "forward":
        exp = {"q_equilibrium": v[0], "u_equilibrium": v[1], "dt": .125}
        utils.save_second_order_forward_model(n, T(v[0]), T(v[1]), .125, f)
    elif kind == "controller":
        exp = dict(zip(("x_lo", "x_up", "u_lo", "u_up"), v))
        utils.save_controller_model(n, *[T(a) for a in v], f)
    else:
        val = np.array([[2., .5], [.5, 3.]])
        val3 = np.vstack((val, [[1., -.5]]))
        ro = rng.choice([
            r_options.FixedROptions(T(val)),
            r_options.SearchRwithSPDOptions((3, 2), .125),
            r_options.SearchRwithSVDOptions((3, 2), np.array([.125, .25])),
            r_options.SearchRfreeOptions((3, 2))])
        if not ro.fixed_R:
            ro.set_variable_value(val3)
        exp = {"V_lambda": .5, "lyapunov_positivity_epsilon": .25,
               "lyapunov_derivative_epsilon": .125, "eps_type": "e",
               "R": [[round(4096 * q) for q in r]
                     for r in (val if ro.fixed_R else val3)],
               "fixed_R": ro.fixed_R}
        utils.save_lyapunov_model(n, .5, .25, .125, "e", ro, f)
    d = torch.load(f, weights_only=False)
    os.remove(f)
    m = utils.setup_relu(d["linear_layer_width"], None,
                         d["negative_slope"] if d["negative_slope"] is not
                         None else .5, d["bias"], nets.F64)
    m.load_state_dict(d["state_dict"])
    xs = [nets.vec(rng, w[0]) for _ in range(3)]

    def plain(k, a):
        if k == "R":
            return TV(a)
        return str(a.detach().tolist() if hasattr(a, "detach") else a)

    return {"op": "saved", "key": "saved-" + kind,
            "xs": RV(xs), "ys": [TV(m(T(x))) for x in xs],
            "w": list(d["linear_layer_width"]), "bias": d["bias"],
            "fields": {k: plain(k, d[k]) for k in exp},
            "expfields": {k: (a if k == "R" else str(a))
                          for k, a in exp.items()}}


def run(ck):
    ck.model("MC_Params", wait=False)
    ck.sessions("Params", [session(ck) for _ in range(ck.n(110, 900))],
                size=180 if not ck.thorough else 1200)
