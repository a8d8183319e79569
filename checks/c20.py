"""Positivity certificates."""
from checks import loops
from lib import lyap, nets
from lib.core import R, RV
from lib.solver import Read

T = nets.t


def warm(c, net, sp, x, beta):
    return dict(c.base, op="warm", net=sp, x=RV(x), start=[
        int(round(v.start)) if v.start is not None else -1 for v in beta])


def one(rng, c, k=7):
    ev = []
    eps = rng.choice([0., .125, .25, .5, 1., 1.5])
    b = dict(c.base, eps=R(eps))
    pts = lyap.points(rng, c, k)
    kw = {}
    if rng.random() < .4:
        kw["x_warmstart"] = T(rng.choice(pts))
    milp, x = c.real.lyapunov_positivity_as_milp(
        c.eq, c.lam, eps, R=c.R, **kw)
    rd = lyap.Obj(milp)
    c.base = b
    if kw:
        # the starting binaries, in the order of the network's units
        w = [v for v in rd.vars if v.start is not None]
        n = sum(q.out_features for q in list(c.net)[:-1]
                if hasattr(q, "out_features"))
        if len(w) == n:
            ev.append(warm(c, c.net, c.L["net"], kw["x_warmstart"], w))
        else:
            ev.append(dict(b, op="unexpected-warm-start"))
    out = [list(p) for p in pts[:2]]
    for p in out:
        j = rng.randrange(len(p))
        p[j] = rng.choice([c.o.lo[j] - .25, c.o.up[j] + .25])
    for p in pts[-5:] + out:
        ev.append(lyap.at(c, "pos", rd, x, p))
    ev.append(lyap.optimum(c, "posopt", milp, x, pts + grid(c)))
    return ev


def grid(c, n=None):
    """A grid of the box (corners included)."""
    import itertools
    n = n or {1: 9, 2: 5, 3: 3}.get(c.o.nx, 2)
    return [list(p) for p in itertools.product(*[
        [a + (b - a) * k / (n - 1) for k in range(n)]
        for a, b in zip(c.o.lo, c.o.up)])]


def run(ck):
    ck.model("MC_Lyap", wait=False)
    rng = ck.rng
    ev = []
    for rep in range(ck.n(90, 600)):
        c = lyap.case(rng, None, deep=.5)
        ev += lyap.aged(rng, c, lambda: one(rng, c), free=True)
    ck.stateless("Lyap", ev)
