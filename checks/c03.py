"""Bounds of neurons and outputs: sound for every method, MIP exact."""
from lib import nets
from lib.core import RV, TV, snap, tick
from lib.mip import net_extreme
from neural_network_lyapunov import relu_to_optimization as rto
from neural_network_lyapunov.mip_utils import PropagateBoundsMethod as PB


def run(ck):
    rng = ck.rng
    ev = []
    for rep in range(ck.n(60, 260)):
        w = nets.shape(rng, nin=(1, 2), depth=(1, 2) if rep % 4 else (3, 3),
                       width=(1, 3))
        n = nets.net(rng, w, bias=rng.random() < .85)
        lo, up = nets.box(rng, w[0])
        if rng.random() < .3:   # units pushed to always (in)active
            with nets.torch.no_grad():
                for q in n[:-1]:
                    if hasattr(q, "bias") and q.bias is not None:
                        q.bias += nets.t([rng.choice([-3., 0., 3.]) for _ in
                                          range(q.out_features)])
        sp = nets.spec(n)
        free = rto.ReLUFreePattern(n, nets.F64)
        e = {"op": "bounds", "key": "bounds", "net": sp, "lo": RV(lo),
             "up": RV(up)}
        ok = True
        rets = {}
        for m in PB:
            r = nets.aged(rng, [n], lambda: free.output_constraint(
                nets.t(lo), nets.t(up), m), p=.2)
            rets[m] = r
            e[m.name] = {"prelo": TV(r.relu_input_lo),
                         "preup": TV(r.relu_input_up),
                         "postlo": TV(r.relu_output_lo),
                         "postup": TV(r.relu_output_up),
                         "outlo": TV(r.nn_output_lo),
                         "outup": TV(r.nn_output_up)}
            ok = ok and r.nn_input_lo.tolist() == lo and \
                r.nn_input_up.tolist() == up
        e["boxok"] = ok
        rows = [(len(w) - 2, k) for k in range(w[-1])] + \
            [(k, i) for k in range(len(w) - 2) for i in range(w[k + 1])]
        e["xs"] = [RV(x) for x in nets.points(rng, lo, up, 10)]
        r = rets[PB.MIP]
        for (k, i), s, v, x in net_extreme(n, lo, up, rows):
            xr, tol = snap(x)
            if tol < 10:
                e["xs"].append(xr)
            if k == len(w) - 2:
                what, idx = "out", i
                b = (r.nn_output_up if s > 0 else r.nn_output_lo)[i]
            else:
                what, idx = "pre", sum(w[1:k + 1]) + i
                b = (r.relu_input_up if s > 0 else r.relu_input_lo)[idx]
            if tol < 10:
                ev.append({"op": "attain", "key": what, "net": sp, "x": xr,
                           "what": what, "k": idx + 1, "bound": tick(b)})
        ev.append(e)
    ck.notes["exact_extremes_checked"] = len(ev)
    ck.stateless("NetMip", ev)
