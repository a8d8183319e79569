"""Observations shared by the checks of network dynamics (C15-C17)."""
import gurobipy

from lib import nets, systems
from lib.core import RV, TV, snap, tick
from lib.solver import Read
from neural_network_lyapunov import gurobi_torch_mip

T = nets.t
GRB = gurobipy.GRB
INF = GRB.INFINITY
RELAX = gurobi_torch_mip.BINARYRELAX


def base(o, ctl=None):
    return {"key": o.kind if ctl is None else "loop-" + o.kind,
            "sys": o.spec, "loop": ctl is not None,
            "ctl": ctl or systems.NOCTL}


def stepping(o, pts):
    ev, b = [], base(o)
    for x, u in pts:
        ev.append(dict(b, op="step", x=RV(x), u=RV(u), uobs=[],
                       next=RV(o.at(x, u)),
                       dxs=[RV(v) for v in o.dxs(x, u)]))
    for ps in (pts, pts[:1]):
        X, U = T([p[0] for p in ps]), T([p[1] for p in ps])
        r = o.real.step_forward(X, U) if o.nu else o.real.step_forward(X)
        ev.append(dict(b, op="batch", xs=[RV(p[0]) for p in ps],
                       us=[RV(p[1]) for p in ps], next=[RV(v) for v in r]))
    ev.append(dict(b, op="rest", next=RV(
        o.at(o.xs, o.us) if o.nu else o.at(o.xs, None))))
    return ev


def ticks(rs):
    return [[tick(a), tick(b)] for a, b in rs]


def encode_event(b, o, x, u, res, box, exact, ures=None):
    lo, up, ulo, uup = box
    return dict(b, op="encode", x=RV(x), u=RV(u), lo=RV(lo), up=RV(up),
                ulo=RV(ulo), uup=RV(uup), exact=exact,
                feas=res is not None, out=ticks(res) if res else [],
                uout=ticks(ures) if ures else [])


def mip():
    m = gurobi_torch_mip.GurobiTorchMILP(nets.F64)
    m.gurobi_model.setParam(GRB.Param.OutputFlag, False)
    return m


def free(m, n, name):
    return m.addVars(n, lb=-INF, vtype=GRB.CONTINUOUS, name=name)


def ask(rd, xv, yv, x, uv=(), u=()):
    """Ranges of the next state (and input) at a state (and input)."""
    return rd.fix(xv + list(uv), list(x) + list(u)).ranges(yv)


def bound_prog(ev, b, o, ret, pts, method, box):
    """The side program that bounds the next state."""
    if ret.x_next_bound_prog is None:
        return
    rd = Read(ret.x_next_bound_prog)
    xv, yv = list(ret.x_var), list(ret.x_next_bound_var)
    exact = len(rd.ints) > 0
    for x, u in pts:
        ev.append(encode_event(
            dict(b, key=b["key"] + "-bound-program"), o, x, u,
            ask(rd, xv, yv, x), box, exact))
    rs, ps = rd.fix([], []).ranges(yv, args=True)
    if rs is None:
        return
    ev.append(blank(b, pts, nextlo=TV([r[0] for r in rs]),
                    nextup=TV([r[1] for r in rs]), hasnext=True,
                    key=b["key"] + "-bound-program"))
    # extremes of an exact program are reached
    if not exact or method == "LP":
        return
    ix = rd.index(xv)
    for k in range(len(yv)):
        for side in (0, 1):
            q = ps[k][side]
            if q is None:
                continue
            x, tol = snap([min(max(v, a), c) for v, a, c in
                           zip(q[ix], box[0], box[1])])
            ev.append(dict(b, op="extreme", key=b["key"] + "-bound-program",
                           what="next", k=k + 1, x=x, u=[], exact=True,
                           bound=tick(rs[k][side]), tol=tol,
                           lo=RV(box[0]), up=RV(box[1])))


def blank(b, pts, **kw):
    e = dict(b, op="bounds", xs=[RV(p[0]) for p in pts],
             us=[RV(p[1]) for p in pts], hasnext=False, nextlo=[], nextup=[],
             hasu=False, ulo=[], uup=[], hasnet=False, inlo=[], inup=[],
             prelo=[], preup=[], postlo=[], postup=[], hasnetout=False,
             outlo=[], outup=[], hasctl=False, cprelo=[], cpreup=[],
             cpostlo=[], cpostup=[])
    e.update(kw)
    return e


def net_bounds(b, pts, ret):
    """Bounds recorded with the encoded dynamics."""
    kw = {}
    if getattr(ret, "relu_input_lo", None) is not None:
        kw.update(hasnet=True, inlo=TV(ret.nn_input_lo),
                  inup=TV(ret.nn_input_up), prelo=TV(ret.relu_input_lo),
                  preup=TV(ret.relu_input_up), postlo=TV(ret.relu_output_lo),
                  postup=TV(ret.relu_output_up))
        if ret.nn_output_lo is not None:
            kw.update(hasnetout=True, outlo=TV(ret.nn_output_lo.reshape(-1)),
                      outup=TV(ret.nn_output_up.reshape(-1)))
    if ret.x_next_lb_IA is not None:
        kw.update(hasnext=True, nextlo=TV(ret.x_next_lb_IA.reshape(-1)),
                  nextup=TV(ret.x_next_ub_IA.reshape(-1)))
    return blank(b, pts, **kw)
