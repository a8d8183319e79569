"""The encoding of a network is its graph over the box."""
from lib import nets
from lib.core import RV, tick
from lib.mip import Block
from neural_network_lyapunov import relu_to_optimization as rto
from neural_network_lyapunov.mip_utils import PropagateBoundsMethod as PB


def rng_ticks(rs):
    return [[tick(a), tick(b)] for a, b in rs]


def outside(rng, lo, up):
    x = [a + (b - a) * rng.randint(0, 4) / 4 for a, b in zip(lo, up)]
    i = rng.randrange(len(x))
    d = rng.choice([.125, 1.])
    x[i] = up[i] + d if rng.random() < .5 else lo[i] - d
    return x


def run(ck):
    ck.model("MC_Unit", wait=False)
    rng = ck.rng
    ev = []
    for rep in range(ck.n(100, 700)):
        w = nets.shape(rng, nin=(1, 2), depth=(1, 2), width=(1, 3))
        n = nets.net(rng, w, bias=rng.random() < .8,
                     slope=rng.choice([None, None, None, 1.5]))
        lo, up = nets.box(rng, w[0])
        if rng.random() < .15:
            i = rng.randrange(w[0])
            up[i] = lo[i]
        xs = nets.points(rng, lo, up, 5)
        if rng.random() < .7:
            nets.tie(rng, n, rng.choice(xs))
        sp = nets.spec(n)
        m = [PB.IA, PB.LP, PB.MIP, PB.IA_MIP][rep % 4]
        free = rto.ReLUFreePattern(n, nets.F64)
        b = Block(nets.aged(rng, [n], lambda: free.output_constraint(
            nets.t(lo), nets.t(up), m), p=.7, free=True))
        for x in xs + [outside(rng, lo, up)]:
            r = b.at(x, binaries=True)
            ev.append({"op": "graph", "key": m.name, "net": sp,
                       "lo": RV(lo), "up": RV(up), "x": RV(x),
                       "feas": r is not None,
                       "out": rng_ticks(r["out"]) if r else [],
                       "bin": rng_ticks(r["binary"]) if r else []})
    ck.stateless("NetMip", ev)
