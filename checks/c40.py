"""The spring-mass hopper: simulation, maps, gradients, linear models."""
import math

import numpy as np

from lib.core import TV, tick
from neural_network_lyapunov import slip_hybrid_linear_system as shls
from neural_network_lyapunov import spring_loaded_inverted_pendulum as slip


def clamp(v, m=12.):
    return [max(-m, min(m, float(x))) if x == x else m for x in v]


class TooFast(Exception):
    """A run outside the range of the specification's numbers."""


def state(v):
    """A flight or stance state; travelled distances may be long."""
    far = (0,) if len(v) < 5 else (4,)
    if any(k not in far and abs(x) > 11.5 for k, x in enumerate(v)):
        raise TooFast
    return TV([clamp([x], 200. if k in far else 12.)[0]
               for k, x in enumerate(v)])


def leg(a):
    a = float(a)
    a = max(-8., min(8., a)) if a == a else 8.
    return {"a": tick(a), "s": tick(math.sin(a)), "c": tick(math.cos(a))}


def model(rng, soft=False):
    l0 = rng.choice([1., 1.5, 2.])
    g = rng.choice([2., 4., 8., 9.8125])
    m = rng.choice([.5, 1., 4.])
    w = rng.choice([60., 120., 200.]) * g / 8 / l0 * 1.5
    if soft:
        w *= .5
    w = round(w * 4) / 4
    return slip.SLIP(m, l0, w * m, g), {"l0": tick(l0), "g": tick(g),
                                        "w": tick(w)}, m


def dy(rng, a, b, d=64):
    return rng.randint(int(a * d), int(b * d)) / d


def angle(rng, v=0.):
    k = rng.random()
    a = 0. if k < .1 else dy(rng, 1 / 64, .3) if k < .6 else dy(rng, .3, .9)
    if v:
        return math.copysign(a, v) if rng.random() < .9 else -math.copysign(
            a, v)
    return a * rng.choice([-1, 1])


def apex(rng, s):
    v = dy(rng, -3, 3) * math.sqrt(s.g * s.l0 / 9.8)
    v = round(v * 64) / 64
    return [dy(rng, -2, 2), round((s.l0 * rng.choice([.8, 1., 1.1, 1.25,
                                                      1.5])) * 64) / 64 +
            dy(rng, 0, .25), v]


def local(rng):
    s, p, m = model(rng)
    ev = []
    a = angle(rng)
    q = [dy(rng, -2, 2), dy(rng, .5, 3), dy(rng, -3, 3), dy(rng, -3, 3)]
    z = [dy(rng, .6, 1.) * s.l0, a, dy(rng, -3, 3), dy(rng, -3, 3),
         dy(rng, -2, 2)]
    ev.append({"op": "flight", "p": p, "q": TV(q),
               "got": TV(s.flight_dynamics(np.array(q)))})
    ev.append({"op": "stance", "p": p, "q": TV(z), "leg": leg(a),
               "got": TV(s.stance_dynamics(np.array(z)))})
    ev.append({"op": "guards", "p": p, "q": TV(q), "z": TV(z), "leg": leg(a),
               "td": tick(s.touchdown_guard(np.array(q), a)),
               "lo": tick(s.liftoff_guard(np.array(z))),
               "apex": tick(s.apex_guard(np.array(q)))})
    ev.append({"op": "energy", "p": p, "q": TV(q), "z": TV(z),
               "leg": leg(a),
               "flight": tick(s.flight_phase_energy(np.array(q)) / m),
               "stance": tick(s.stance_phase_energy(np.array(z)) / m)})
    q[1] = s.l0 * math.cos(a)
    ev.append({"op": "land", "p": p, "q": TV(q), "leg": leg(a),
               "got": TV(s.touchdown_transition(np.array(q), a))})
    z[0] = s.l0
    ev.append({"op": "leave", "p": p, "q": TV(z), "leg": leg(a),
               "got": TV(s.liftoff_transition(np.array(z)))})
    return ev


def simulated(s, p, x0, angles):
    """The events of a run, or None where the start is refused."""
    ev = [{"op": "start", "p": p, "q": TV(x0),
           "legs": [leg(a) for a in angles]}]
    sol = s.simulate(np.array(x0), angles)
    for k, o in enumerate(sol):
        n = o.t.shape[0]
        keep = list(range(n)) if n <= 24 else sorted(
            set(list(range(0, n, 2)) + [n - 1]))
        ys = [state(o.y[:, j]) for j in keep]
        ts = TV(clamp(o.t[keep], 60.))
        if k % 2 == 0:
            ev.append({"op": "fly", "key": "fly", "ts": ts, "ys": ys,
                       "leg": leg(angles[min(k // 2, len(angles) - 1)])})
        else:
            ev.append({"op": "stand", "key": "stand", "ts": ts, "ys": ys,
                       "legs": [leg(o.y[1, j]) for j in keep]})
    ev.append({"op": "end", "key": "end"})
    return ev


def run_of(rng):
    s, p, m = model(rng)
    a = apex(rng, s)
    th = []
    for _ in range(rng.randint(1, 4)):
        th.append(angle(rng, a[2]))
    x0 = a + [0. if rng.random() < .5 else dy(rng, -1, 2)]
    if x0[1] <= s.l0 * math.cos(th[0]) + .02:
        x0[1] = math.ceil((s.l0 * math.cos(th[0]) + .05) * 64) / 64
    return simulated(s, p, x0, th)


def one(rng):
    """One hop from an apex: simulation, map, differentiated map."""
    s, p, m = model(rng)
    a = apex(rng, s)
    th = angle(rng, a[2])
    if rng.random() < .15:
        a[2], th = 0., 0.
    gap = a[1] - s.l0 * math.cos(th)
    if abs(gap) < .02:
        a[1] += 1 / 16
        gap += 1 / 16
    if gap > 0:
        ev = simulated(s, p, a + [0.], [th])
    else:
        ev = [{"op": "nohop"}]
    r = s.apex_map(a[0], a[1], a[2], th)
    found = r[0] is not None
    ev.append({"op": "apexmap", "key": "apexmap", "p": p, "q": TV(a + [0.]),
               "leg": leg(th), "found": found,
               "got": TV(clamp(r, 60.)) if found else []})
    r2 = s.apex_map(-a[0], a[1], -a[2], -th)
    ev.append({"op": "same", "key": "mirror-image", "a": TV(clamp(
        r, 60.)) if found else [], "b": TV(clamp(
            [-r2[0], r2[1], -r2[2], r2[3]], 60.))
        if r2[0] is not None else []})
    d = s.apex_to_apex_gradient(np.array(a), th)
    found = d[0] is not None
    ev.append({"op": "hop", "key": "hop", "found": found,
               "td": state(d[8]) if found else [],
               "lo": state(d[11]) if found else [],
               "apex": state(d[2]) if found else [],
               "t": tick(d[5]) if found else 0})
    return ev


# ----------------------------------------------------------- derivatives
def quotients(f, x, h):
    """Difference quotients of f's values, and whether they settle."""
    x = np.array(x, dtype=float)
    cols, cols2 = [], []
    for k in range(len(x)):
        for step, out in ((h, cols), (h / 2, cols2)):
            e = np.zeros(len(x))
            e[k] = step
            a, b = f(x + e), f(x - e)
            if a is None or b is None:
                return None
            out.append((np.array(a) - np.array(b)) / (2 * step))
    J, J2 = np.array(cols).T, np.array(cols2).T
    if np.abs(J - J2).max() > 2e-3 + np.abs(J2).max() / 400:
        return None
    if np.abs(J2).max() > 60:
        return None
    return J2


def grad(key, got, want, tol=16):
    return {"op": "grad", "key": key, "tol": tol,
            "got": TV(clamp(np.asarray(got, dtype=float).reshape(-1), 90.)),
            "want": TV(np.asarray(want).reshape(-1))}


def flat(*v):
    return np.concatenate([np.asarray(x, dtype=float).reshape(-1)
                           for x in v])


def slopes(rng):
    s, p, m = model(rng)
    ev = []
    a = apex(rng, s)
    th = angle(rng, a[2])
    a[1] = max(a[1], math.ceil((s.l0 * math.cos(th) + .1) * 64) / 64)
    z = [dy(rng, .6, 1.) * s.l0, th, dy(rng, -3, 3), dy(rng, -3, 3),
         dy(rng, -2, 2)]
    q = [dy(rng, -2, 2), s.l0 * math.cos(th), dy(rng, -3, 3),
         dy(rng, -3, 3)]

    def add(key, got, f, x, tol=16, h=1e-3):
        D = quotients(f, x, h)
        if D is not None:
            ev.append(grad(key, got, D, tol))

    def drop(x):
        r = s.apex_to_touchdown_gradient(x[:3], x[3])
        return None if r[0] is None else flat(r[2], r[5])
    r = s.apex_to_touchdown_gradient(np.array(a), th)
    add("apex-to-touchdown", np.column_stack((
        np.vstack((r[0], r[3].reshape(1, 3))), flat(r[1], r[4]))), drop,
        a + [th])
    add("stance-rates", s.stance_dynamics_gradient(np.array(z)),
        lambda x: s.stance_dynamics(x), z)
    gx, ga = s.touchdown_transition_gradient(np.array(q), th)
    add("landing", np.column_stack((gx, ga.reshape(5))),
        lambda x: s.touchdown_transition(x[:4], x[4]), q + [th])
    z[0] = s.l0
    g = s.liftoff_transition_gradient(np.array(z))
    # at lift-off the leg is at rest length: no change of length is meant
    add("lift-off", g[:, 1:], lambda x: s.liftoff_transition(np.concatenate(
        ([s.l0], x))), z[1:])
    ev.append(grad("lift-off-length", g[:, 0], np.zeros(4)))
    lo = [dy(rng, -2, 2), dy(rng, .5, 2), dy(rng, -3, 3), dy(rng, -.5, 3)]
    r = s.liftoff_to_apex_gradient(np.array(lo))
    ev.append({"op": "none", "key": "rise-refused", "a": r[0] is None,
               "b": lo[3] < 0})
    if r[0] is not None:
        x1 = s.liftoff_to_apex_gradient(np.array(lo))
        rise = lo[3] / s.g
        ev.append({"op": "same", "key": "rise", "a": TV(flat(x1[1], x1[3])),
                   "b": TV([lo[0] + lo[2] * rise, lo[1] + lo[3] * rise / 2,
                            lo[2], rise])})

        def up(x):
            o = s.liftoff_to_apex_gradient(x)
            return None if o[0] is None else flat(o[1], o[3])
        add("rise", np.vstack((r[0], r[2].reshape(1, 4))), up, lo)
    td = s.touchdown_transition(np.array(
        [a[0], s.l0 * math.cos(th), a[2], -dy(rng, .5, 2)]), th)

    def stance(x):
        o = s.touchdown_to_liftoff_gradient(x)
        return None if o[0] is None else flat(o[1], o[3])
    r = s.touchdown_to_liftoff_gradient(td)
    if r[0] is not None and td[2] < -.3:
        # lands at rest length: the length is not varied
        D = quotients(lambda x: stance(np.concatenate(([s.l0], x))), td[1:],
                      2e-3)
        if D is not None:
            ev.append(grad("stance", np.vstack((r[0], r[2].reshape(1, 5)))[
                :, 1:], D, 48))

    def hop(x):
        o = s.apex_to_apex_gradient(x[:3], x[3])
        return None if o[0] is None else flat(o[2], o[5], o[8], o[11])
    ev += linear(rng, s, p, a, th, hop)
    return ev


def linear(rng, s, p, a, th, hop):
    ev = []
    r = s.apex_to_apex_gradient(np.array(a), th)
    D = quotients(hop, a + [th], 2e-3) if r[0] is not None else None
    if D is not None:
        got = np.column_stack((
            np.vstack((r[0], r[3].reshape(1, 3), r[6], r[9])),
            flat(r[1], r[4], r[7], r[10])))
        ev.append(grad("apex-to-apex", got, D, 48))
    h = shls.SlipHybridLinearSystem(s.mass, s.l0, s.k, s.g)
    hgt = dy(rng, -1, 1)
    foot = a[0] + s.l0 * math.sin(th) + a[2] * math.sqrt(
        2 * max(0, a[1] - s.l0 * math.cos(th)) / s.g)
    lo = -np.inf if rng.random() < .4 else foot - dy(rng, .1, 2) \
        if rng.random() < .8 else foot + dy(rng, .1, 1)
    up = np.inf if rng.random() < .4 else max(foot, lo) + dy(rng, .1, 2)
    h.add_stepping_stone(lo, up, hgt)
    st = np.array([a[0], a[1] + hgt, a[2]])
    o = h.apex_map_linear_approximation(st, h.stepping_stones[-1], th)
    ev.append({"op": "none", "key": "model-refused", "a": o[0] is None,
               "b": r[0] is None or not lo <= foot <= up})
    if o[0] is None or D is None:
        return ev
    A, B, c, a_t, b_t, c_t, P, q = o
    one = flat(A.dot(st) + np.asarray(B).reshape(-1) * th + c.reshape(-1))
    tat = float(np.dot(flat(a_t), st) + b_t * th + c_t)
    pt = flat(st, th)
    rows = [flat(P[k], q.reshape(-1)[k] - P[k].dot(pt))
            for k in range(P.shape[0])]
    # slack of each condition, and minus its derivative
    slack = [flat(0, -1, 0, -s.l0 * math.sin(th),
                  a[1] - s.l0 * math.cos(th)),
             flat(-D[11], r[11][3])]
    dfoot = D[4] + [0, 0, 0, s.l0 * math.cos(th)]
    if lo > -np.inf:
        slack.append(flat(-dfoot, foot - lo))
    if up < np.inf:
        slack.append(flat(dfoot, up - foot))
    ev.append({"op": "lin", "key": "lin", "at": TV(clamp(one, 60.)),
               "apex": TV(clamp([r[2][0], r[2][1] + hgt, r[2][2]], 60.)),
               "tat": tick(tat), "t": tick(r[5]), "tol": 48,
               "rows": [TV(clamp(v, 90.)) for v in rows],
               "slack": [TV(clamp(v, 90.)) for v in slack]})
    ev.append(grad("linear-model", np.vstack((
        np.column_stack((A, np.asarray(B).reshape(3))),
        flat(a_t, b_t))), D[:4], 48))
    return ev


def stones(rng):
    s, p, m = model(rng)
    a = angle(rng)
    q = [dy(rng, -2, 2), dy(rng, .5, 3), dy(rng, -3, 3), dy(rng, -2, 3)]
    h = dy(rng, -1, 1.5)
    every = slip.SteppingStone(-np.inf, np.inf, h)
    t = s.time_to_touchdown(np.array(q), every, a)
    foot = q[0] + s.l0 * math.sin(a) + q[2] * (t if t is not None else .5)
    lo = foot + dy(rng, -1.5, .5)
    up = lo + dy(rng, .125, 2)
    lo, up = round(lo * 64) / 64, round(up * 64) / 64
    haslo, hasup = rng.random() < .8, rng.random() < .8
    stone = slip.SteppingStone(lo if haslo else -np.inf,
                               up if hasup else np.inf, h)
    got = s.time_to_touchdown(np.array(q), stone, a)
    return [{"op": "ttd", "key": "ttd", "p": p, "q": TV(q), "leg": leg(a),
             "h": tick(h), "haslo": haslo, "hasup": hasup, "lo": tick(lo),
             "up": tick(up), "isopen": t is not None,
             "open": tick(min(float(t), 60.)) if t is not None else 0,
             "found": got is not None,
             "got": tick(min(float(got), 60.)) if got is not None else 0,
             "can": bool(s.can_touch_stepping_stone(np.array(q), stone,
                                                    a))}]


def run(ck):
    ck.model("MC_Slip", wait=False)
    rng = ck.rng
    ev = []
    for _ in range(ck.n(150, 1500)):
        ev += local(rng)
        ev += stones(rng)
        ev += stones(rng)
    for _ in range(ck.n(36, 500)):
        ev += slopes(rng)
    ck.notes["gradients"] = {k: sum(e.get("key") == k for e in ev) for k in
                             ("stance", "apex-to-apex", "lin")}
    ck.stateless("Slip", ev)

    def some(f, n):
        out, fast = [], 0
        while len(out) < n:
            try:
                out.append(f(rng))
            except TooFast:
                # left to the hops drawn next, but not without end
                fast += 1
                if fast > n:
                    out.append([{"op": "start-too-fast"}])
        ck.notes["too fast"] = ck.notes.get("too fast", 0) + fast
        return out
    ck.sessions("Slip", some(run_of, ck.n(80, 800)) +
                some(one, ck.n(150, 1500)), size=400)
