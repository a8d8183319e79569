"""Closed loops: control law, saturation, step and encoding."""
from checks import loops
from lib import nets, systems
from lib.core import RV, TV, snap, tick
from lib.solver import Read

T, GRB = nets.t, loops.GRB
M = systems.M


def branches(fb, x):
    if not hasattr(fb.forward_system, "possible_dx"):
        return [fb.step_forward(T(x))]
    return fb.possible_dx(T(x))


def stepping(b, fb, o, pts):
    ev = []
    for x, _ in pts:
        ev.append(dict(b, op="step", x=RV(x), u=[],
                       uobs=RV(fb.compute_u(T(x))),
                       next=RV(fb.step_forward(T(x))),
                       dxs=[RV(v) for v in branches(fb, x)]))
    if o.kind != "hybrid":
        for ps in (pts, pts[:1]):
            X = T([p[0] for p in ps])
            ev.append(dict(b, op="batch", xs=[RV(p[0]) for p in ps],
                           us=[RV(v) for v in fb.compute_u(X)],
                           next=[RV(v) for v in fb.step_forward(X)]))
    else:
        X = T([p[0] for p in pts])
        us = [RV(v) for v in fb.compute_u(X)]
        ev.append(dict(b, op="batch", xs=[], next=[], us=[]))
        ev += [dict(b, op="step", x=RV(p[0]), u=[], uobs=us[k],
                    next=RV(fb.step_forward(T(p[0]))),
                    dxs=[RV(v) for v in branches(fb, p[0])])
               for k, p in enumerate(pts[:3])]
    ev.append(dict(b, op="restlaw", uobs=RV(fb.compute_u(T(o.xs)))))
    return ev


def encode(ev, b, o, rd, x_, y_, u_, pts, box, exact):
    for x, _ in pts:
        r = loops.ask(rd, x_, list(y_) + list(u_), x)
        ev.append(loops.encode_event(
            b, o, x, [], r and r[:o.nx], box, exact, r and r[o.nx:]))


def extremes(ev, b, o, cr, method, box, pts):
    """The side program that bounds the control."""
    cb = cr.control_bound_prog
    if method == M.IA:
        return
    rd = Read(cb.prog)
    xv, uv = list(cb.x_var), list(cb.u_var)
    exact = len(rd.ints) > 0
    b = dict(b, key=b["key"] + "-control-program")
    for x, _ in pts[:3]:
        r = loops.ask(rd, xv, uv, x)
        ev.append(loops.encode_event(b, o, x, [], r and [], box, False, r)
                  if r is None or not exact else
                  dict(loops.encode_event(b, o, x, [], [], box, False, r)))
    rs, ps = rd.fix([], []).ranges(uv, args=True)
    if rs is None:
        return
    ev.append(loops.blank(b, pts, hasu=True, ulo=TV([r[0] for r in rs]),
                          uup=TV([r[1] for r in rs])))
    ix = rd.index(xv)
    if method == M.LP or not exact or cr.nn_input is None:
        return
    for k in range(o.nu):
        for side in (0, 1):
            q = ps[k][side]
            x, tol = snap([min(max(v, p), c) for v, p, c in
                           zip(q[ix], o.lo, o.up)])
            ev.append(dict(b, op="extreme", what="u", k=k + 1, x=x, u=[],
                           exact=True, bound=tick(rs[k][side]), tol=tol,
                           lo=RV(o.lo), up=RV(o.up)))


def one(rng, o, fb, net, ctl, linear):
    ev = []
    b = loops.base(o, ctl)
    if linear:
        b["key"] += "-linear"
    before = [systems.same(net), systems.same(o.net) if o.net else []]
    z = nets.points(rng, list(o.lo), list(o.up), 7)
    pts = [(x, []) for x in z]
    far = [([v + rng.choice([-3., 0., 2.]) for v in x], [])
           for x, _ in pts[:2]] if o.kind != "hybrid" else []
    ev += stepping(b, fb, o, pts + far)
    method = rng.choice(getattr(o, "methods", [M.IA, M.IA, M.LP, M.MIP,
                                               M.IA_MIP]))
    fb.controller_network_bound_propagate_method = method
    box = (list(o.lo), list(o.up), [], [])
    # a program, exact or first relaxed, strengthened, then exact again
    relaxed = rng.random() < .5 and getattr(o, "relaxes", True)
    m = loops.mip()
    x_, y_ = loops.free(m, o.nx, "x"), loops.free(m, o.nx, "y")
    u_, fr, cr = fb.add_dynamics_mip_constraint(
        m, x_, y_, "u", "fs", "fb", "cs", "cb",
        binary_var_type=loops.RELAX if relaxed else GRB.BINARY)
    encode(ev, b, o, Read(m), x_, y_, u_, pts[:4] + [(o.xs, [])], box,
           not relaxed)
    if relaxed:
        bs = dict(b, key=b["key"] + "-strengthened")
        for _ in range(rng.choice([1, 2])):
            m.setObjective([T(nets.vec(rng, o.nx) + nets.vec(rng, o.nu))],
                           [list(y_) + list(u_)], constant=0.,
                           sense=GRB.MAXIMIZE)
            m.gurobi_model.optimize()
            if m.gurobi_model.status != GRB.Status.OPTIMAL:
                break
            fb.strengthen_dynamics_constraint(m, fr, cr)
            encode(ev, bs, o, Read(m), x_, y_, u_, pts[:4], box, False)
        m.remove_binary_relaxation()
        encode(ev, bs, o, Read(m), x_, y_, u_, pts[:5] + [(o.xs, [])],
               box, True)
    kw = {}
    if cr.relu_input_lo is not None:
        kw = dict(hasctl=True, cprelo=TV(cr.relu_input_lo),
                  cpreup=TV(cr.relu_input_up),
                  cpostlo=TV(cr.relu_output_lo),
                  cpostup=TV(cr.relu_output_up))
    ev.append(dict(loops.blank(
        b, pts, hasu=True, ulo=TV(cr.u_lower_bound),
        uup=TV(cr.u_upper_bound)), **kw))
    if o.kind != "hybrid":
        ev.append(loops.net_bounds(b, pts, fr))
    extremes(ev, b, o, cr, method, box, pts)
    ev.append(dict(b, op="same", before=before, after=[
        systems.same(net), systems.same(o.net) if o.net else []]))
    ev.append(dict(b, op="params", obs=[RV(p) for p in
                                        fb.controller_variables()],
                   want=systems.same(net)))
    ev += stepping(b, fb, o, pts[:2])
    ev.append(dict(b, op="same", before=[RV(fb.x_lo_all),
                                         RV(fb.x_up_all)],
                   after=[RV(o.lo), RV(o.up)]))
    return ev


def run(ck):
    ck.model("MC_Sys", wait=False)
    rng = ck.rng
    ev = []
    for rep in range(ck.n(44, 320)):
        u = rng.random()
        if u < .25:
            o = systems.hybrid_sys(rng)
        else:
            o = systems.controlled(rng, wide=rng.random() < .3)
        fb, net, ctl, linear = systems.controller(rng, o)
        ev += nets.aged(rng, [net, o.net], lambda: one(
            rng, o, fb, net, ctl, linear), free=True)
    ck.stateless("Sys", ev)
