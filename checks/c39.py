"""Programs searching a piecewise-linear Lyapunov function."""
import itertools

import cvxpy as cp
import numpy as np

from lib.core import R, RV, tick, TV
from neural_network_lyapunov import simple_pwl_lyapunov as pwl


def dy(rng, amp=2, den=4):
    return rng.randint(-amp * den, amp * den) / den


def line(rng):
    """Intervals with breakpoints; functions by their breakpoint values."""
    n = rng.randint(1, 4)
    bp = sorted(rng.sample([k / 2 for k in range(-6, 7)], n + 1))
    k = rng.randrange(n)
    xs = rng.choice([bp[k], bp[k + 1], (bp[k] + bp[k + 1]) / 2])
    cells = [([[bp[j]], [bp[j + 1]]]) for j in range(n)]
    cons = [(j, j + 1, [[bp[j + 1]]]) for j in range(n - 1)]
    pieces = []
    for j in range(n):
        a, b = bp[j], bp[j + 1]
        if b <= xs:
            pieces.append((j, [[a], [b]], [-1]))
        elif a >= xs:
            pieces.append((j, [[a], [b]], [1]))
        else:
            pieces += [(j, [[a], [xs]], [-1]), (j, [[xs], [b]], [1])]

    def func(valid):
        # slopes, then offsets that make it continuous and vanish at xs
        s = [abs(dy(rng)) + .5 if bp[j] >= xs else -abs(dy(rng)) - .5
             if valid else dy(rng) for j in range(n)]
        d = [0.] * n
        d[k] = -s[k] * xs
        for j in range(k + 1, n):
            d[j] = d[j - 1] + (s[j - 1] - s[j]) * bp[j]
        for j in range(k - 1, -1, -1):
            d[j] = d[j + 1] + (s[j + 1] - s[j]) * bp[j + 1]
        return [[v] for v in s], d
    return 1, n, [xs], k, cells, cons, pieces, func


def orthants(rng, n):
    """The orthants around x*: V = sum of p|x-x*| on either side."""
    xs = [dy(rng, 1, 2) for _ in range(n)]
    r = [rng.choice([.5, 1., 2.]) for _ in range(n)]
    sg = list(itertools.product([1, -1], repeat=n))
    rng.shuffle(sg)

    def corner(s, t):
        return [x + a * (b * w) for x, a, b, w in zip(xs, s, t, r)]
    cells = [[corner(s, t) for t in itertools.product([0, 1], repeat=n)]
             for s in sg]
    cons, pieces = [], []
    for i, j in itertools.combinations(range(len(sg)), 2):
        df = [q for q in range(n) if sg[i][q] != sg[j][q]]
        if len(df) == 1 or (len(df) > 1 and rng.random() < .2):
            vs = [v for v in cells[i] if v in cells[j]]
            cons.append((i, j, vs))
    pieces = [(i, cells[i], list(sg[i])) for i in range(len(sg))]

    def func(valid):
        w = [[abs(dy(rng)) + .25 if valid else dy(rng) for _ in range(2)]
             for _ in range(n)]
        c = [[w[q][0] if s[q] > 0 else -w[q][1] for q in range(n)]
             for s in sg]
        return c, [-sum(a * b for a, b in zip(v, xs)) for v in c]
    return n, len(sg), xs, rng.randrange(len(sg)), cells, cons, pieces, func


def fan(rng):
    """A square cut by its diagonals; functions by the corner values."""
    h = rng.choice([.5, 1., 2.])
    xs = [dy(rng, 1, 2) for _ in range(2)]
    cor = [[xs[0] + h * a, xs[1] + h * b] for a, b in
           ((1, 1), (-1, 1), (-1, -1), (1, -1))]
    mid = [[xs[0] + h * a, xs[1] + h * b] for a, b in
           ((0, 1), (-1, 0), (0, -1), (1, 0))]
    sg = [((1, 1), (-1, 1)), ((-1, 1), (-1, -1)), ((-1, -1), (1, -1)),
          ((1, -1), (1, 1))]
    cells = [[xs, cor[i], cor[(i + 1) % 4]] for i in range(4)]
    cons = [(i, (i + 1) % 4, [xs, cor[(i + 1) % 4]]) for i in range(4)]
    pieces = []
    for i in range(4):
        pieces.append((i, [xs, cor[i], mid[i]], list(sg[i][0])))
        pieces.append((i, [xs, cor[(i + 1) % 4], mid[i]], list(sg[i][1])))

    def func(valid):
        v = [abs(dy(rng)) + .5 if valid else dy(rng) for _ in range(4)]
        c = []
        for i in range(4):
            a, b = cor[i], cor[(i + 1) % 4]
            m = np.array([[a[0] - xs[0], a[1] - xs[1]],
                          [b[0] - xs[0], b[1] - xs[1]]])
            c.append(np.linalg.solve(m, [v[i], v[(i + 1) % 4]]).tolist())
        return c, [-sum(a * b for a, b in zip(w, xs)) for w in c]
    return 2, 4, xs, rng.randrange(4), cells, cons, pieces, func


def layout(rng):
    k = rng.random()
    n, modes, xs, eq, cells, cons, pieces, func = (
        line(rng) if k < .4 else fan(rng) if k < .6 else
        orthants(rng, rng.choice([2, 2, 3])))
    e1, e2 = rng.choice([0., .25, .5, 1.]), rng.choice([0., .125, .5, 1.])
    real = pwl.SimplePWLLyapunov(n, modes, e1, e2, np.array(xs), eq)
    stable = rng.random() < .6
    der = []
    for i, vs in enumerate(cells):
        if rng.random() < .1:
            continue
        if stable:
            A = [[-rng.choice([.5, 1., 2.]) if p == q else 0.
                  for q in range(n)] for p in range(n)]
            g = [-A[p][p] * xs[p] for p in range(n)]
        else:
            A = [[dy(rng, 2, 2) for _ in range(n)] for _ in range(n)]
            g = [dy(rng, 1, 2) for _ in range(n)]
        der.append((i, vs, A, g))
    rng.shuffle(der)
    if rng.random() < .2 and der:       # a second flow in one cell
        i, vs, A, g = rng.choice(der)
        der.append((i, vs, [[a * 2 for a in r] for r in A],
                    [a + .25 for a in g]))
    rng.shuffle(pieces)
    acts = [("d", a) for a in der] + [("p", a) for a in pieces] + \
        [("c", a) for a in cons]
    rng.shuffle(acts)
    for kind, a in acts:
        if kind == "d":
            real.add_lyapunov_derivative_in_mode(
                a[0], np.array(a[1]), np.array(a[2]), np.array(a[3]))
        elif kind == "p":
            real.add_lyapunov_positivity_in_mode(
                a[0], np.array(a[1]), np.array(a[2]))
        else:
            real.add_continuity_constraint(a[0], a[1], np.array(a[2]))
    y = {"e1": R(e1), "e2": R(e2), "xs": RV(xs), "eq": eq + 1,
         "der": [{"m": a[0] + 1, "vs": RV(a[1]), "A": RV(a[2]),
                  "g": RV(a[3])} for a in der],
         "pos": [{"m": a[0] + 1, "vs": RV(a[1])} for a in pieces],
         "con": [{"m": a[0] + 1, "m2": a[1] + 1, "vs": RV(a[2])}
                 for a in cons]}
    spec = dict(n=n, modes=modes, xs=xs, eq=eq, der=der, cons=cons,
                pieces=pieces, e1=e1, e2=e2, func=func)
    return real, y, spec


def admitted(real, c, d, s1, s2):
    real.c.value = np.array(c).T
    real.d.value = np.array(d)
    real.s1.value = np.array([s1])
    real.s2.value = np.array([s2])
    return int(all(np.max(q.violation()) <= 1e-9 for q in real.constraints))


def slacks(sp, c, d):
    """Only to place candidates near the border; the spec decides."""
    def v(i, x):
        return float(np.dot(c[i], x) + d[i])
    s1 = max([0.] + [float(np.dot(c[i], np.dot(A, x) + g)) + sp["e2"] * v(
        i, x) for i, vs, A, g in sp["der"] for x in vs])
    s2 = max([0.] + [sp["e1"] * float(np.abs(np.subtract(x, sp["xs"])).sum())
                     - v(i, x) for i, vs, _ in sp["pieces"] for x in vs])
    return s1, s2


def candidates(rng, sp):
    for _ in range(6):
        c, d = sp["func"](rng.random() < .6)
        s1, s2 = slacks(sp, c, d)
        for a, b in ((s1, s2), (s1 - .125, s2), (s1, s2 - .125),
                     (s1 + .25, s2 + .5), (0., 0.)):
            yield c, d, a, b
        for _ in range(2):
            cc, dd = [list(v) for v in c], list(d)
            i = rng.randrange(len(dd))
            if rng.random() < .5:
                dd[i] += rng.choice([-.25, .125])
            else:
                cc[i][rng.randrange(sp["n"])] += rng.choice([-.25, .125])
            a, b = slacks(sp, cc, dd)
            yield cc, dd, a + 1., b + 1.
            yield cc, dd, a, b


def solve(rng, real, y, sp):
    w = rng.choice([.125, .25, .5, .75])
    plain = cp.Problem.solve
    try:
        # GUROBI is not installed; the program handed over is what counts
        cp.Problem.solve = lambda self, *a, **k: plain(self, solver="HIGHS")
        c, d, s1, s2 = real.solve(w)
    finally:
        cp.Problem.solve = plain
    known = []
    for _ in range(4):
        kc, kd = sp["func"](rng.random() < .8)
        known.append({"c": RV(kc), "d": RV(kd)})
    if np.max(np.abs(c)) > 3000 or np.max(np.abs(d)) > 3000:
        return []
    return [{"op": "solve", "key": "solve", "y": y, "c": TV(c.T), "d": TV(d),
             "s1": tick(s1), "s2": tick(s2), "w": R(w), "known": known,
             "tol": 40}]


def refusal(rng, real, y, sp):
    i, vs, sg = rng.choice(sp["pieces"])
    j = rng.randrange(sp["n"])
    bad = list(sg)
    if rng.random() < .5:
        bad[j] = 0
    else:
        bad[j] = -bad[j]
    raised = False
    try:
        real.add_lyapunov_positivity_in_mode(i, np.array(vs), np.array(bad))
    except Exception:
        raised = True
    return {"op": "refuse", "key": "refuse", "y": y, "raised": raised}


def run(ck):
    ck.model("MC_Pwl", wait=False)
    ck.model("MC_Pwl", "MC_Pwl_two", wait=False)
    rng = ck.rng
    ev = []
    for _ in range(ck.n(40, 400)):
        real, y, sp = layout(rng)
        for c, d, s1, s2 in candidates(rng, sp):
            ev.append({"op": "admit", "key": "admit", "y": y, "c": RV(c),
                       "d": RV(d), "s1": R(s1), "s2": R(s2),
                       "ok": admitted(real, c, d, s1, s2)})
        ev += solve(rng, real, y, sp)
        ev.append(refusal(rng, real, y, sp))
    ck.stateless("Pwl", ev)
