"""Network dynamics with input: step, equilibrium, encoding, bounds."""
from checks import loops
from lib import nets, systems
from lib.core import RV
from lib.mip import Block
from lib.solver import Read

T, GRB = nets.t, loops.GRB


def limits(rng, o):
    """Additional input limits and their intersection with the box."""
    lo, up = list(o.ulo), list(o.uup)
    a = [None, None]
    if rng.random() < .6:
        v = [p + rng.choice([-1., 0., .25]) for p in lo]
        lo, a[0] = [max(p, q) for p, q in zip(lo, v)], T(v)
    if rng.random() < .6:
        v = [p + rng.choice([-.125, 0., 1.]) for p in up]
        up, a[1] = [min(p, q) for p, q in zip(up, v)], T(v)
    return a, lo, up


def one(rng, o):
    ev = []
    b = loops.base(o)
    before = systems.same(o.net)
    pts = o.inbox(rng, 7)
    far = [([v + rng.choice([-3., 0., 2.]) for v in x],
            [v + rng.choice([-2., 0., 2.]) for v in u])
           for x, u in pts[:2]]
    ev += loops.stepping(o, pts if getattr(o, "guarded", False)
                         else pts + far)
    if hasattr(o.real, "mixed_integer_constraints") and \
            o.kind != "residue":
        for given in (False, True):
            a, ulo, uup = limits(rng, o)
            kw = {}
            if given:
                kw = {k: v for k, v in zip(("u_lo", "u_up"), a)
                      if v is not None}
            # limits given here replace the system's own
            ulo = kw["u_lo"].tolist() if "u_lo" in kw else o.ulo
            uup = kw["u_up"].tolist() if "u_up" in kw else o.uup
            bl = Block(o.real.mixed_integer_constraints(**kw))
            for x, u in pts[:4] + [(o.xs, o.us)]:
                r = bl.at(list(x) + list(u))
                ev.append(loops.encode_event(
                    b, o, x, u, r and r["out"],
                    (o.lo, o.up, ulo, uup), True))
    a, ulo, uup = limits(rng, o)
    vt, exact = rng.choice([(GRB.BINARY, True), (GRB.BINARY, True),
                            (loops.RELAX, False)])
    if not getattr(o, "relaxes", True):
        vt, exact = GRB.BINARY, True
    m = loops.mip()
    x_, y_ = loops.free(m, o.nx, "x"), loops.free(m, o.nx, "y")
    u_ = loops.free(m, o.nu, "u")
    ret = o.real.add_dynamics_constraint(
        m, x_, y_, u_, "s", "b", additional_u_lo=a[0],
        additional_u_up=a[1], binary_var_type=vt)
    rd = Read(m)
    b2 = dict(b, key=b["key"] + "-in-a-program")
    for x, u in pts[:5] + [(o.xs, o.us)]:
        ev.append(loops.encode_event(
            b2, o, x, u, loops.ask(rd, x_, y_, x, u_, u),
            (o.lo, o.up, ulo, uup), exact))
    ins = [(x, [min(max(v, p), q) for v, p, q in zip(u, ulo, uup)])
           for x, u in pts]
    ev.append(loops.net_bounds(b2, ins, ret))
    ev.append(dict(b, op="same", before=before,
                   after=systems.same(o.net)))
    ev += loops.stepping(o, pts[:2])
    ev.append(dict(b, op="same", before=[RV(o.real.x_lo_all),
                                         RV(o.real.x_up_all)],
                   after=[RV(o.lo), RV(o.up)]))
    return ev


def run(ck):
    ck.model("MC_Sys", wait=False)
    rng = ck.rng
    ev = []
    for rep in range(ck.n(60, 420)):
        o = systems.controlled(rng)
        ev += nets.aged(rng, [o.net], lambda: one(rng, o), free=True,
                        at=[o.xs])
    ck.stateless("Sys", ev)
