"""Autonomous network dynamics: step, equilibrium, encoding, bounds."""
from checks import loops
from lib import nets, systems
from lib.core import RV
from lib.mip import Block
from lib.solver import Read

GRB = loops.GRB


def one(rng, o):
    ev = []
    b = loops.base(o)
    before = systems.same(o.net)
    pts = o.inbox(rng, 6)
    far = [([v + rng.choice([-3., 0., 2.]) for v in x], u)
           for x, u in pts[:2]]
    ev += loops.stepping(o, pts + far)
    box = (o.lo, o.up, [], [])
    # the returned matrices
    bl = Block(o.real.mixed_integer_constraints())
    for x, u in pts[:3] + [(o.xs, [])]:
        r = bl.at(x)
        ev.append(loops.encode_event(b, o, x, u, r and r["out"], box,
                                     True))
    # a program
    vt, exact = rng.choice([(GRB.BINARY, True), (GRB.BINARY, True),
                            (loops.RELAX, False)])
    m = loops.mip()
    x_, y_ = loops.free(m, o.nx, "x"), loops.free(m, o.nx, "y")
    ret = o.real.add_dynamics_constraint(m, x_, y_, "s", "b", vt)
    rd = Read(m)
    b2 = dict(b, key=b["key"] + "-in-a-program")
    for x, u in pts[:3] + [(o.xs, [])]:
        ev.append(loops.encode_event(b2, o, x, u,
                                     loops.ask(rd, x_, y_, x), box,
                                     exact))
    ev.append(loops.net_bounds(b2, pts, ret))
    loops.bound_prog(ev, b, o, ret, pts[:3], o.method.name, box)
    # nothing done so far may have touched the network
    ev.append(dict(b, op="same", before=before,
                   after=systems.same(o.net)))
    ev += loops.stepping(o, pts[:2])
    ev.append(dict(b, op="same", before=[RV(o.real.x_lo_all),
                                         RV(o.real.x_up_all)],
                   after=[RV(o.lo), RV(o.up)]))
    return ev


def run(ck):
    ck.model("MC_Sys", wait=False)
    rng = ck.rng
    ev = []
    for rep in range(ck.n(60, 420)):
        o = systems.autonomous(rng)
        ev += nets.aged(rng, [o.net], lambda: one(rng, o), free=True,
                        at=[o.xs])
    ck.stateless("Sys", ev)
