"""Learned vehicle models: step, rest, encoding, bounds, closed loop."""
from checks import c16, c17, loops
from lib import nets, vehicles


def run(ck):
    ck.model("MC_Vehicle", wait=False)
    rng = ck.rng
    ev = []
    n = ck.n(40, 280)
    for rep in range(n):
        o = vehicles.vehicle(rng, vehicles.KINDS[rep % 8])
        if rep % 16 < 8:
            ev += nets.aged(rng, [o.net], lambda: c16.one(rng, o),
                            free=True, at=[o.xs])
        else:
            fb, net, ctl, linear = vehicles.controller(rng, o)
            ev += nets.aged(rng, [net, o.net], lambda: c17.one(
                rng, o, fb, net, ctl, linear), free=True)
    for kind in vehicles.KINDS:
        for _ in range(3):
            ev += vehicles.probe(rng, kind, loops)
    ck.stateless("Sys", ev)
