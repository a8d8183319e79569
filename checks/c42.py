"""Learning dynamics with a Lyapunov regulariser."""
import os
import shutil
import tempfile

import gurobipy
import torch

from checks import c20
from lib import lyap, nets, systems
from lib.core import R, RV, TV, tick
from neural_network_lyapunov import dynamics_learning as dl
from neural_network_lyapunov import lyapunov, utils

T, F64 = nets.t, nets.F64
LN2 = 0.6931471805599453
LV = [0., LN2, -LN2, -80.]
E = lyapunov.ConvergenceEps


# ------------------------------------------------------------ learners
def candidate(rng, small=False):
    while True:
        o = systems.autonomous(rng, rng.choice(["pinned", "residual"]),
                               nx=rng.choice([1, 2]))
        if o.disc:
            break
    lin = [q for q in o.net if hasattr(q, "weight")]
    lin[-1].weight.data *= rng.choice([.125, .25, .5, 1.]) * (
        1. if o.kind == "pinned" else .5)
    o.spec = dict(o.spec, net=nets.spec(o.net))
    return lyap.case(rng, made=(o, o.real, {
        "sys": o.spec, "loop": False, "ctl": systems.NOCTL}, None),
        deep=.2)


def options(rng, c, **kw):
    lo = [a + (b - a) * rng.choice([0., .25]) for a, b in zip(c.o.lo, c.o.up)]
    up = [b - (b - a) * rng.choice([0., .25]) for a, b in zip(c.o.lo, c.o.up)]
    w = [rng.choice([0., .5, 1., 2.]) for _ in range(6)]
    o = dict(dtype=F64, x_dim=c.o.nx, z_dim=c.o.nx, V_lambda=float(c.lam),
             V_eps_pos=rng.choice([.125, .5, 1.]),
             V_eps_der_lo=rng.choice([.125, .25]),
             V_eps_der_up=rng.choice([.5, .75]), R=c.R,
             x_lo_stable=T(lo), x_up_stable=T(up),
             z_lo_stable=T(lo), z_up_stable=T(up),
             lyap_loss_optimal=True, lyap_loss_warmstart=False,
             lyap_loss_freq=0, lyap_pos_loss_at_samples_weight=w[0],
             lyap_der_lo_loss_at_samples_weight=w[1],
             lyap_der_up_loss_at_samples_weight=w[2],
             lyap_pos_loss_weight=w[3], lyap_der_lo_loss_weight=w[4],
             lyap_der_up_loss_weight=w[5], use_bce=False,
             use_variational=False, kl_weight_lo=0., kl_weight_up=1.,
             kl_weight_center_step=0, kl_weight_steps_lo_to_up=1,
             decoded_equilibrium_loss_weight=rng.choice([.25, .5, 2.]),
             image_width=1, image_height=1)
    o.update(kw)
    opt = dl.DynamicsLearningOptions(o)
    return opt, w, lo, up


def state_learner(rng, **kw):
    c = candidate(rng)
    opt, w, lo, up = options(rng, c, **kw)
    return dl.StateSpaceDynamicsLearning([], [], c.real, opt), c, opt, w, \
        lo, up


class Enc(torch.nn.Module):
    """Affine mean, constant deviation."""

    def __init__(self, W, b, lv):
        super().__init__()
        self.lin = torch.nn.Linear(len(W[0]), len(W)).type(F64)
        self.lin.weight.data, self.lin.bias.data = T(W), T(b)
        self.lv = lv

    def forward(self, x):
        m = self.lin(x.reshape(x.shape[0], -1))
        return m, T(self.lv).expand(m.shape)


class Dec(torch.nn.Module):
    """Affine, or two levels when probabilities are wanted."""
    near = 1.

    def __init__(self, W, b, shape, level):
        super().__init__()
        self.lin = torch.nn.Linear(len(W[0]), len(W)).type(F64)
        self.lin.weight.data, self.lin.bias.data = T(W), T(b)
        self.shape, self.level = shape, level

    def forward(self, z):
        y = self.lin(z)
        if self.level:
            Dec.near = min(Dec.near, float(y.detach().abs().min()))
            y = y * 0. + torch.where(y >= 0, .75, .25)
        return y.reshape([z.shape[0]] + self.shape)


def image_learner(rng, **kw):
    c = candidate(rng)
    w, h = rng.choice([(1, 1), (1, 2), (2, 1), (2, 2)])
    ch = 2 if rng.random() < .7 or w * h > 1 else 6
    bce, var = rng.random() < .4, rng.random() < .4
    opt, ws, lo, up = options(rng, c, use_bce=bce, use_variational=var,
                              image_width=w, image_height=h, **kw)
    n = ch * w * h
    We = [[nets.dy(rng, .5, 4) for _ in range(n)] for _ in range(c.o.nx)]
    be = [nets.dy(rng, 1., 4) for _ in range(c.o.nx)]
    Wd = [[nets.dy(rng, 1., 4) for _ in range(c.o.nx)] for _ in range(n)]
    bd = [rng.choice([-1, 1]) * rng.choice([.125, .375, .625])
          for _ in range(n)]
    lv = [3] * c.o.nx
    eqimg = pixels(rng, [1, ch, w, h])[0] if rng.random() < .5 else None
    lr = dl.LatentSpaceDynamicsLearning(
        [], [], c.real, opt, Enc(We, be, [LV[k] for k in lv]),
        Dec(Wd, bd, [ch, w, h], bce), decoded_equilibrium=eqimg)
    base = {"T": c.T, "L": c.L, "bce": bce,
            "enc": {"W": RV(We), "b": RV(be)},
            "dec": {"W": RV(Wd), "b": RV(bd)}}
    return lr, c, opt, ws, lo, up, base, (ch, w, h), lv, eqimg, var


def pixels(rng, shape):
    n = 1
    for k in shape:
        n *= k
    return T([rng.randint(0, 4) / 4 for _ in range(n)]).reshape(shape)


def flat(x):
    return RV(x.reshape(x.shape[0], -1))


# -------------------------------------------------------------- losses
def states(rng, c, k):
    return [[a + (b - a) * rng.randint(-1, 5) / 4
             for a, b in zip(c.o.lo, c.o.up)] for _ in range(k)]


def prediction(rng):
    lr, c, opt, w, lo, up = state_learner(rng)
    n = rng.randint(1, 4)
    xs = states(rng, c, n)
    xns = states(rng, c, n)
    if rng.random() < .2:
        xns = [[round(v * 64) / 64 for v in r] for r in
               c.sys.step_forward(T(xs)).tolist()]
    ev = [{"op": "mse", "key": "mse", "T": c.T, "xs": RV(xs), "xns": RV(xns),
           "loss": tick(lr.dynamics_loss(T(xs), T(xns)))}]
    out = lr.lyapunov_loss_at_samples(T(xs))
    ev.append({"op": "smp", "key": "smp", "T": c.T, "L": c.L, "xs": RV(xs),
               "lo": RV(lo), "up": RV(up), "w": RV(w[:3]),
               "eps": RV([opt.V_eps_pos, opt.V_eps_der_lo,
                          opt.V_eps_der_up]),
               "loss": [tick(v.reshape(())) for v in out]})
    n = rng.randint(0, 3)
    x0 = states(rng, c, 1)[0]
    traj, vs = lr.rollout(T(x0), n)
    exp = traj + T([[nets.dy(rng, .5, 8) for _ in x0] for _ in range(n + 1)])
    exp[0] = T(x0)
    exp = (exp * 1024).round() / 1024
    errs = lr.rollout_loss(exp)
    big = max([1.] + [float(v) for v in errs.sqrt()])
    ev.append({"op": "roll", "key": "roll", "T": c.T, "L": c.L, "x0": RV(x0),
               "n": n, "traj": TV(traj), "vs": TV(vs), "errs": TV(errs),
               "exp": RV(exp), "errtol": int(90 * big) + 8})
    many = [exp, (exp * 2).round() / 2, exp + .25][:rng.randint(1, 3)]
    ev.append({"op": "valid", "key": "valid",
               "got": TV(lr.rollout_validation(many)),
               "parts": [TV(lr.rollout_loss(m)) for m in many]})
    return ev


def images(rng):
    lr, c, opt, w, lo, up, base, (ch, a, b), lv, eqimg, var = \
        image_learner(rng, kl_weight_steps_lo_to_up=2)
    n = rng.randint(1, 3)
    xs = pixels(rng, [n, ch, a, b])
    xns = pixels(rng, [n, rng.choice([ch, ch // 2]), a, b])
    lr.n_iter = rng.choice([0, 2, 4, 6])
    if var and n > 0:       # the divergence of exp(-80) is large
        opt.set_option("kl_weight_hi", 0.)
    Dec.near = 1.
    ev = []
    loss = lr.dynamics_loss(xs, xns)
    wkl = float(lr.kl_loss_weight(lr.n_iter))
    if not base["bce"] or Dec.near > .02:
        ev.append(dict(base, op="image", key="image", xs=flat(xs),
                       xns=flat(xns), loss=tick(loss), var=var,
                       wkl=R(round(wkl * 4096) / 4096),
                       lvs=[lv] * n, weq=R(
                           opt.decoded_equilibrium_loss_weight),
                       eqimg=RV(eqimg.reshape(-1)) if eqimg is not None
                       else []))
    if var:
        # a tick of the weight is worth the divergence
        for e in ev:
            e["wkl"] = R(0.)
            e["loss"] = tick(loss - lr.kl_loss(lr.encoder(xs)[0],
                                               lr.encoder(xs)[1]))
    out = lr.lyapunov_loss_at_samples(xs)
    zs = lr.encoder(xs)[0].detach()
    ev.append({"op": "smp", "key": "smp-z", "T": c.T, "L": c.L, "xs": RV(zs),
               "lo": RV(lo), "up": RV(up), "w": RV(w[:3]),
               "eps": RV([opt.V_eps_pos, opt.V_eps_der_lo,
                          opt.V_eps_der_up]),
               "loss": [tick(v.reshape(())) for v in out]})
    if any(abs(float(z) - q) < 1e-6 for r in zs for z, l, u in
           zip(r, lo, up) for q in (l, u)) and var:
        ev.pop()            # on the edge the draw decides
    n = rng.randint(0, 2)
    via = rng.random() < .5
    x0, x1 = pixels(rng, [1, ch // 2, a, b])[0], pixels(
        rng, [1, ch // 2, a, b])[0]
    Dec.near = 1.
    imgs, vs, zs = lr.rollout(torch.cat((x0, x1)), n,
                              decode_intermediate=via)
    exp = pixels(rng, [n + 2, ch // 2, a, b])
    exp[0], exp[1] = x0, x1
    errs = lr.rollout_loss(exp, decode_intermediate=via)
    ok = float(zs.abs().max()) < 1000
    if ok and (not base["bce"] or Dec.near > .05):
        big = 1. if base["bce"] else max(
            [1.] + [float(v) for v in errs.sqrt()])
        ev.append(dict(base, op="rolli", key="rolli", via=via, n=n,
                       x0=RV(x0.reshape(-1)), x1=RV(x1.reshape(-1)),
                       imgs=TV(imgs.reshape(n + 2, -1)), zs=TV(zs),
                       vs=TV(vs), exp=flat(exp), errs=TV(errs),
                       errtol=int(140 * big) + 8))
    # divergence, schedule and draws
    m = rng.randint(1, 3)
    mus = [nets.vec(rng, c.o.nx, 2., 4) for _ in range(m)]
    lvs = [[rng.choice([0, 1, 2]) for _ in range(c.o.nx)] for _ in range(m)]
    k = rng.randint(-3, 3)
    lr2 = utils.SigmoidAnneal(F64, rng.choice([0., .5, 1.]),
                              rng.choice([1., 2., .25]), 10, 4)
    ev.append({"op": "anneal", "key": "anneal", "lo": R(lr2.lo),
               "up": R(lr2.up), "at": k, "w": tick(lr2(10 + 4 * k))})
    lr.n_iter = 2 * rng.randint(0, 3)
    wk = round(float(lr.kl_loss_weight(lr.n_iter)) * 1024) / 1024
    sc = {0: 2048, 2: 2994, 4: 3608, 6: 3902}[lr.n_iter]
    ev.append({"op": "kl", "key": "kl", "mus": RV(mus), "lvs": lvs,
               "w": [sc // 2, 2048], "loss": tick(lr.kl_loss(
                   T(mus), T([[LV[j] for j in r] for r in lvs])))})
    del wk
    return ev


def draws(rng):
    lr = image_learner(rng)[0]
    k = lr.lyap.system.x_dim
    mu = nets.vec(rng, k, 2., 4)
    lv = [rng.choice([0, 1, 2, 3]) for _ in range(k)]
    z = lr.reparam(T([mu]).expand(4096, k), T([[LV[j] for j in lv]]).expand(
        4096, k))
    dev = [int(round(4096 * float(T(LV[j] / 2).exp()))) for j in lv]
    return [{"op": "reparam", "key": "reparam", "mu": RV(mu), "dev": dev,
             "mean": TV(z.mean(dim=0)), "std": TV(z.std(dim=0))}]


# ------------------------------------------------------------ programs
def programs(rng, c, opt):
    o = opt
    out = [(c.real.lyapunov_positivity_as_milp(
        c.eq, o.V_lambda, o.V_eps_pos, R=o.R), "positivity", o.V_eps_pos)]
    for t, k, e in ((E.ExpLower, "lower", o.V_eps_der_lo),
                    (E.ExpUpper, "upper", o.V_eps_der_up)):
        r = c.real.lyapunov_derivative_as_milp(c.eq, o.V_lambda, e, t,
                                               R=o.R)
        out.append(((r.milp, r.x), k, e))
    return out


def certificates(rng):
    lr, c, opt, w, lo, up = state_learner(rng)
    if rng.random() < .7:
        w[3:] = [v or 1. for v in w[3:]]
        for k, n in enumerate(("pos", "der_lo", "der_up")):
            opt.set_option(f"lyap_{n}_loss_weight", w[3 + k])
    prg = programs(rng, c, opt)
    opts, lev = [], []
    for k, ((milp, x), kind, eps) in enumerate(prg):
        v = lyap.solve(milp)
        if v is None:
            return [], []
        opts.append(v)
    pts = lyap.points(rng, c, 4) + c20.grid(c, 5 if c.o.nx < 3 else 2)
    warm = rng.random() < .5
    opt.set_option("lyap_loss_warmstart", warm)
    ev = []
    for rep in range(2 if warm else 1):
        got = lr.lyapunov_loss()
        for k in range(3):
            ev.append({"op": "prog", "key": prg[k][1], "w": R(w[3 + k]),
                       "opt": tick(opts[k]), "loss": tick(got[k])})
        if warm:
            for k, x in enumerate((lr.lyap_pos_x_adv, lr.lyap_der_lo_x_adv,
                                   lr.lyap_der_up_x_adv)):
                xs, ex = lyap.exactly([min(max(p, a), b) for p, a, b in
                                       zip(x.tolist(), c.o.lo, c.o.up)])
                lev.append(dict(
                    c.base, op="posopt" if k == 0 else "decopt", found=True,
                    bound=tick(opts[k]), x=xs, exact=ex, blo=[], bup=[],
                    type=prg[k][1], eps=R(prg[k][2]),
                    grid=[RV(p) for p in pts]))
    opt.set_option("lyap_loss_optimal", False)
    thr = [rng.choice([0., .25, v - .125, v + .25]) for v in opts]
    try:
        got = lr.lyapunov_loss(*thr)
        for k in range(3):
            ev.append({"op": "stop", "key": prg[k][1], "w": R(w[3 + k]),
                       "opt": tick(opts[k]), "thr": tick(thr[k]),
                       "loss": tick(got[k])})
    except Exception as e:      # a suboptimal solution has no dual
        if "singular" not in str(e):
            raise
    for best in (True, False):
        opt.set_option("lyap_loss_optimal", best)
        got = lr.adversarial_samples()
        for k in range(3):
            rets = []
            for r in (got[k].tolist() if len(got[k]) else []):
                xs, ex = lyap.exactly(r)
                rets.append({"x": xs, "exact": ex})
            npos = -1
            if best:        # the entries of the same program's pool
                m = prg[k][0][0].gurobi_model
                m.optimize()
                npos = 0
                for q in range(m.solCount):
                    m.setParam(gurobipy.GRB.Param.SolutionNumber, q)
                    npos += m.PoolObjVal > 0
                m.setParam(gurobipy.GRB.Param.SolutionNumber, 0)
                if abs(opts[k]) < 1e-5:
                    npos = -1
            ev.append(dict(c.base, op="adv", kind=prg[k][1],
                           eps=R(prg[k][2]), opt=tick(opts[k]), best=best,
                           rets=rets, npos=npos))
    return ev, lev


# ------------------------------------------------------- learning loop
class Sink:
    def __init__(self):
        self.rows = []

    def add_scalar(self, name, value, step=None, **k):
        self.rows.append((name, float(torch.as_tensor(value).detach()), int(k.get("global_step",
                                                        step))))


class Scripted(dl.StateSpaceDynamicsLearning):
    """Losses linear in the parameters, by batch."""

    def theta(self):
        return torch.cat([p.reshape(-1) for p in
                          list(self.lyap.lyapunov_relu.parameters()) +
                          list(self.lyap.system.dynamics_relu.parameters())])

    def form(self, x, role):
        self.last = int(x[0, 0])
        return self.forms[self.last][role]

    def dynamics_loss(self, x, x_next):
        assert bool((x == x_next - 1).all())
        return T(self.form(x, "dyn")) @ self.theta()

    def lyapunov_loss_at_samples(self, x):
        return tuple(T(v) @ self.theta() for v in self.form(x, "smp"))

    def lyapunov_loss(self, lyap_pos_threshold=0., lyap_der_lo_threshold=0.,
                      lyap_der_up_threshold=0.):
        self.thr = [lyap_pos_threshold, lyap_der_lo_threshold,
                    lyap_der_up_threshold]
        return tuple(T(v) @ self.theta() for v in self.forms[self.last][
            "prg"])

    def save(self, path):
        self.saves += 1
        super().save(path)


NAMES = ["Dynamics", "LyapunovPosSamples", "LyapunovDerSamples/low",
         "LyapunovDerSamples/up", "LyapunovPos", "LyapunovDer/low",
         "LyapunovDer/up"]


def loop(rng, tmp):
    c = candidate(rng)
    freq = rng.choice([0, 1, 2, 3])
    opt = options(rng, c, lyap_loss_freq=freq)[0]
    nb, nv = rng.randint(1, 3), rng.randint(1, 2)
    sizes = [rng.choice([1, 2, 3]) for _ in range(nb + nv)]
    rate = 2. ** -rng.randint(2, 4)
    ev = []

    def batch(k):
        x = torch.full((sizes[k], c.o.nx), float(k), dtype=F64)
        return x, x + 1

    class Train:
        def __iter__(self):
            for k in range(nb):
                before = len(sink.rows)
                lr.thr = []
                yield batch(k)
                rows = sink.rows[before:]
                lg = {n: v for n, v, s in rows}
                steps = {s for n, v, s in rows}
                e = {"op": "batch", "key": "learn", "b": spec[k],
                     "th": TV(lr.theta()), "thr": TV(lr.thr),
                     "logs": [tick(lg.get(n + "/train", 1e5)) for n in
                              NAMES[:len(rows)]]}
                if steps != {lr.n_iter - 1}:
                    e["logs"] = [0]
                ev.append(e)

    class Val:
        def __iter__(self):
            for k in range(nb, nb + nv):
                yield batch(k)

    lr = Scripted(Train(), Val(), c.real, opt)
    lr.saves, lr.thr = 0, []
    d = int(lr.theta().numel())
    lr.forms = [{"dyn": some(rng, d), "smp": [some(rng, d) for _ in
                                             range(3)],
                 "prg": [some(rng, d) for _ in range(3)]}
                for _ in range(nb + nv)]
    spec = [{"dyn": RV(f["dyn"]), "smp": RV(f["smp"]), "prg": RV(f["prg"]),
             "rows": sizes[k]} for k, f in enumerate(lr.forms)]
    sink = Sink()
    ps = [{"params": g} for g in lr.get_trainable_parameters()]
    lr.optimizer, lr.writer = torch.optim.SGD(ps, lr=rate), sink
    lr.n_iter = 0
    ev.append({"op": "start", "key": "learn", "th": RV(lr.theta()),
               "lr": R(rate), "freq": freq})
    for call in range(rng.randint(1, 2)):
        validate = rng.random() < .6
        epochs = rng.randint(0, 2)
        srate = rng.choice([0, 1, 2])
        path = tempfile.mkdtemp(dir=tmp) if srate or rng.random() < .5 \
            else None
        lr.saves = 0
        last = [0]

        class Epochs:
            """Closes an epoch when the next one (or the end) begins."""
            def close(self, k):
                rows = sink.rows[last[0]:]
                lg = {n: v for n, v, s in rows if n.endswith("/validate")}
                ev.append({"op": "epoch", "key": "learn", "k": k,
                           "val": spec[nb:] if validate else [],
                           "logs": [tick(lg.get(n + "/validate", 1e5))
                                    for n in NAMES[:len(lg)]],
                           "th": TV(lr.theta()), "saves": lr.saves - fin[0],
                           "path": path is not None, "rate": srate,
                           "n": int(lr.n_iter)})
                last[0] = len(sink.rows)

        ep, seen, fin = Epochs(), [0], [0]
        tr = Train()

        class Loader:
            def __iter__(self):
                if seen[0]:
                    ep.close(seen[0] - 1)
                seen[0] += 1
                last[0] = len(sink.rows)
                return iter(tr)
        lr.train_dataloader = Loader()
        lr.train(epochs, validate=validate, save_rate=srate, save_path=path)
        fin[0] = 1 if path else 0
        if seen[0]:
            ep.close(seen[0] - 1)
        f = os.path.join(path, "dyn_learner.pkl") if path else ""
        e = {"op": "done", "key": "learn", "path": path is not None,
             "saved": os.path.exists(f), "disk": []}
        if e["saved"]:
            back = Scripted.load(path, [], [], opt)
            e["disk"] = TV(back.theta())
        ev.append(e)
    return ev


def some(rng, d):
    return [rng.choice([0, 0, -1, 1, .5]) for _ in range(d)]


def named(rng, tmp, prgs):
    """Parameters handed to the optimizer, and reloading."""
    img = rng.random() < .5
    made = image_learner(rng) if img else state_learner(rng)
    lr, c, opt = made[:3]
    os.chdir(tmp)
    only = rng.random() < .5
    lr.reset_optimizer(lyapunov_only=only)
    if lr.writer is not None:
        lr.writer.close()
    mods = {"v": lr.lyap.lyapunov_relu}
    if not only:
        mods["d"] = lr.lyap.system.dynamics_relu
        if img:
            mods.update(e=lr.encoder, g=lr.decoder)
    name = {id(p): a + str(k) for a, m in dict(
        mods, d=lr.lyap.system.dynamics_relu).items()
        for k, p in enumerate(m.parameters())}
    got = [name.get(id(p), "?") for g in lr.optimizer.param_groups
           for p in g["params"]]
    want = [a + str(k) for a, m in mods.items()
            for k, _ in enumerate(m.parameters())]
    ev = [{"op": "params", "key": "img" if img else "state", "got": got,
           "want": want}]
    d = os.path.join(tmp, "s%d" % rng.randint(0, 10**9))
    lr.save(d)
    opt.set_option("use_variational", False)
    back = type(lr).load(d, [], [], opt)

    def behave(q):
        if img:
            ch, a, b = made[7]
            r = lr_rng()
            x = pixels(r, [2, ch, a, b])
            xn = pixels(r, [2, ch, a, b])
            o = [q.dynamics_loss(x, xn)] + list(q.lyapunov_loss_at_samples(
                x)) + list(q.rollout(x[0], 2)[2].reshape(-1))
            o.append(torch.tensor(q.decoded_equilibrium is None))
        else:
            r = lr_rng()
            x, y = T(states(r, c, 3)), T(states(r, c, 3))
            o = [q.dynamics_loss(x, y)] + list(q.lyapunov_loss_at_samples(
                x)) + list(torch.cat([v.reshape(-1) for v in
                                      q.rollout(x[0], 2)]))
        o = [v.reshape(()) for v in o]
        return TV(o + (list(q.lyapunov_loss()) if prgs else []))

    seed = rng.randint(0, 10**9)

    def lr_rng():
        import random
        return random.Random(seed)
    ev.append({"op": "same", "key": "img" if img else "state",
               "a": behave(lr), "b": behave(back)})
    return ev


def run(ck):
    ck.model("MC_Learn", wait=False)
    cwd = os.getcwd()
    tmp = tempfile.mkdtemp(prefix="nnl_c42_")
    try:
        os.chdir(tmp)
        body(ck, tmp)
    finally:
        os.chdir(cwd)
        shutil.rmtree(tmp, ignore_errors=True)


def body(ck, tmp):
    rng = ck.rng
    torch.manual_seed(ck.seed)
    ev, lev = [], []
    for _ in range(ck.n(60, 500)):
        ev += prediction(rng)
        ev += images(rng)
    for _ in range(ck.n(15, 80)):
        ev += draws(rng)
    for _ in range(ck.n(36, 160)):
        a, b = certificates(rng)
        ev += a
        lev += b
    for k in range(ck.n(20, 120)):
        ev += named(rng, tmp, k % 8 == 0)
    ck.stateless("Learn", ev)
    if lev:
        ck.stateless("Lyap", lev)
    ck.sessions("Learn", [loop(rng, tmp) for _ in range(ck.n(60, 400))])
