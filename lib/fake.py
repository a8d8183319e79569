"""A candidate and a system with scripted certificates, for training runs.

They implement the interface Trainer.add_lyapunov documents, so that what the
trainer does with the programs, the losses and the parameters is observed from
outside: every program built and every loss evaluated is recorded.
"""
import gurobipy
import torch

from lib.core import R, TV, tick, tick_rat
from neural_network_lyapunov import feedback_system, gurobi_torch_mip
from neural_network_lyapunov import lyapunov, r_options

F64 = torch.float64
TYPES = {"lower": lyapunov.ConvergenceEps.ExpLower,
         "upper": lyapunov.ConvergenceEps.ExpUpper,
         "asymp": lyapunov.ConvergenceEps.Asymp}


def t(v):
    return torch.tensor(v, dtype=F64)


def sv(xs):
    """Samples as exact coarse rationals."""
    return [[tick_rat(float(v)) for v in x] for x in
            (xs.detach().tolist() if hasattr(xs, "detach") else xs)]


class Sys:
    """x[n+1] = c x + d, c constant."""

    def __init__(self, w):
        self.w = w
        self.x_dim, self.dtype = w.n, F64
        # like a network's weights, which nobody froze
        self.const = t([[w.c]]).requires_grad_(w.rng.random() < .6)

    def gain(self):
        return self.const[0, 0]

    def step_forward(self, x):
        return self.gain() * x + t(self.w.d)


class Loop(feedback_system.FeedbackSystem, Sys):
    """The same with c given by the control network."""

    def __init__(self, w):
        Sys.__init__(self, w)
        self.controller_network = torch.nn.Linear(1, 1, bias=False).to(F64)
        self.controller_network.weight.data = t([[w.c]])

    def gain(self):
        return self.controller_network.weight[0, 0]

    def step_forward(self, x):
        return Sys.step_forward(self, x)

    def controller_variables(self):
        return list(self.controller_network.parameters())


class World:
    """One run's parameters, script and record."""

    def __init__(self, rng, fb, freeR, n=None):
        self.rng = rng
        self.n = n or rng.choice([1, 1, 2])
        k = lambda m=2: float(rng.randint(-m, m))
        self.a = [k() for _ in range(self.n)]
        self.c = rng.choice([-.5, .25, .5, 1.])
        self.d = [k(1) for _ in range(self.n)]
        self.w = [k(1) for _ in range(self.n)]
        self.nr = rng.choice([1, self.n])
        self.r = [k(1) / 2 for _ in range(self.nr)]
        self.gp, self.gd = ([[k(1) for _ in range(self.n)], 0., k(1)]
                            for _ in range(2))
        if fb:
            self.gd[1] = k(1)
        self.fb = fb
        self.system = (Loop if fb else Sys)(self)
        rm = t([self.r])
        if freeR == "free":
            self.R = r_options.SearchRfreeOptions((1, self.nr))
            self.R.set_variable_value(rm.numpy().copy())
        else:
            self.R = r_options.FixedROptions(rm)
        self.freeR = freeR == "free"
        self.net = torch.nn.Linear(self.n, 1, bias=False).to(F64)
        self.net.weight.data = t([self.a])
        self.log = []
        self.script = {"pos": [], "der": []}   # lists of entry lists
        self.built = {"pos": 0, "der": 0}

    def theta(self):
        return TV(torch.cat((self.net.weight.detach().reshape(-1),
                             self.system.gain().detach().reshape(1),
                             self.R.R().detach().reshape(-1))))

    def exact(self):
        return [R(v) for v in self.a + [self.c] + self.r]

    def grad(self, g):
        out = [R(v) for v in g[0]] + [R(g[1])] + [R(g[2])] * self.nr
        return out

    def term(self, g, Rm):
        """Zero, with gradient g."""
        e = (self.net.weight.reshape(-1) * t(g[0])).sum() + g[2] * Rm.sum()
        if self.fb:
            e = e + g[1] * self.system.gain()
        return e - e.detach()


class Ret:
    pass


class Candidate:
    """The candidate handed to the trainer."""

    def __init__(self, w):
        self.w, self.system, self.lyapunov_relu = w, w.system, w.net

    def validate_x_equilibrium(self, x):
        pass

    def note(self, what, lam, eps, Rm, name="none", **kw):
        e = {"what": what, "th": self.w.theta(), "lam": R(lam),
             "eps": R(eps), "type": name, "R": TV(Rm.reshape(-1))}
        e.update(kw)
        self.w.log.append(e)
        return e

    def program(self, kind, g, Rm):
        w = self.w
        q = w.script[kind]
        ent = q[min(w.built[kind], len(q) - 1)]
        w.built[kind] += 1
        m = gurobi_torch_mip.GurobiTorchMILP(F64)
        lo = min(v for s, _ in ent for v in s) - 1.
        up = max(v for s, _ in ent for v in s) + 1.
        x = m.addVars(w.n, lb=lo, ub=up, name="x")
        b = m.addVars(len(ent), vtype=gurobipy.GRB.BINARY, name="b")
        m.addLConstr([torch.ones(len(ent), dtype=F64)], [b],
                     rhs=1., sense=gurobipy.GRB.EQUAL)
        for k in range(w.n):
            m.addLConstr([t([1.]), t([-s[k] for s, _ in ent])], [[x[k]], b],
                         rhs=0., sense=gurobipy.GRB.EQUAL)
        m.setObjective([t([v for _, v in ent])], [b], w.term(g, Rm),
                       gurobipy.GRB.MAXIMIZE)
        return m, x, len(ent)

    def lyapunov_positivity_as_milp(self, x_equilibrium, V_lambda,
                                    V_epsilon, *, R, fixed_R=True,
                                    x_warmstart=None):
        m, x, k = self.program("pos", self.w.gp, R)
        self.note("pos", V_lambda, V_epsilon, R, m=m, x=x, made=k,
                  warm=[] if x_warmstart is None else sv([x_warmstart])[0])
        return m, x

    def lyapunov_derivative_as_milp(self, x_equilibrium, V_lambda, epsilon,
                                    eps_type, *, R, x_warmstart=None, **kw):
        m, x, k = self.program("der", self.w.gd, R)
        name = [q for q in TYPES if TYPES[q] == eps_type]
        self.note("der", V_lambda, epsilon, R, (name or ["?"])[0], m=m, x=x,
                  made=k,
                  warm=[] if x_warmstart is None else sv([x_warmstart])[0])
        r = Ret()
        r.milp, r.x, r.gamma = m, x, []
        return r

    def _loss(self, raw, Rm):
        return torch.relu(raw + Rm.sum() + 1. / 3)

    def lyapunov_positivity_loss_at_samples(
            self, x_equilibrium, state_samples, V_lambda, epsilon=0., *, R,
            margin=0., reduction="mean", weight=None):
        self.note("ploss", V_lambda, epsilon, R, xs=sv(state_samples),
                  margin=rat(margin), red=reduction)
        return self._loss((state_samples @ self.w.net.weight.T).sum(), R)

    def lyapunov_derivative_loss_at_samples_and_next_states(
            self, V_lambda, epsilon, state_samples, state_next,
            x_equilibrium, eps_type, *, R, margin=0., reduction="mean",
            weight=None):
        name = [q for q in TYPES if TYPES[q] == eps_type]
        self.note("dloss", V_lambda, epsilon, R, (name or ["?"])[0],
                  xs=sv(state_samples), ys=TV(state_next),
                  margin=rat(margin), red=reduction)
        return self._loss((state_samples @ self.w.net.weight.T).sum() -
                          (state_next @ t(self.w.w)).sum(), R)


rat = R


def pool(z, limit, fill):
    """The finished record of a program: what its solver holds."""
    m = z.pop("m").gurobi_model
    x = z.pop("x")
    ent = []
    for k in range(m.solCount):
        m.setParam("SolutionNumber", k)
        ent.append([sv([[v.xn for v in x]])[0], R(m.PoolObjVal)])
    z.update(ent=ent, limit=limit, fill=fill)
    return z


def entries(rng, n, tol, k, bad=None):
    """What a program finds: distinct states, distinct objectives."""
    sts, obs = [], []
    while len(sts) < k:
        s = [float(rng.randint(-3, 3)) for _ in range(n)]
        if s not in sts:
            sts.append(s)
    top = bad if bad is not None else rng.random() < .6
    first = rng.choice([.25, .5, 1., 2.]) if top else rng.choice(
        [-1., -.5, 0., 1 / 32])
    obs = [first]
    while len(obs) < k:
        obs.append(obs[-1] - rng.choice([.25, .5, 1.]))
    z = [(s, v) for s, v in zip(sts, obs)]
    rng.shuffle(z)
    return z


def trainer(rng, w, adv=False):
    """(Trainer, cfg)."""
    from neural_network_lyapunov import train_lyapunov_barrier as tlb
    c = Candidate(w)
    tr = tlb.Trainer()
    lam = rng.choice([0., .25, .5])
    tr.add_lyapunov(c, lam, torch.zeros(w.n, dtype=F64), w.R)
    ch = rng.choice
    tr.lyapunov_positivity_sample_cost_weight = ch([.5, 1.] + [0.] * (not adv))
    tr.lyapunov_derivative_sample_cost_weight = ch([.5, 1.] + [0.] * (not adv))
    tr.lyapunov_positivity_mip_cost_weight = ch([0., .5, 1.])
    tr.lyapunov_derivative_mip_cost_weight = ch([0., .5, 1.])
    tr.lyapunov_positivity_sample_margin = ch([0., .125])
    tr.lyapunov_derivative_sample_margin = ch([0., .25])
    tr.lyapunov_positivity_epsilon = ch([.125, .5])
    tr.lyapunov_derivative_epsilon = ch([.0625, .25])
    name = ch(list(TYPES))
    tr.lyapunov_derivative_eps_type = TYPES[name]
    tr.lyapunov_positivity_convergence_tol = .0625
    tr.lyapunov_derivative_convergence_tol = .125
    tr.lyapunov_positivity_mip_pool_solutions = ch([1, 1, 2, 3])
    tr.lyapunov_derivative_mip_pool_solutions = ch([1, 1, 2, 3])
    fillD = rng.random() < .6
    if fillD:
        tr.lyapunov_derivative_mip_params = {
            gurobipy.GRB.Param.OutputFlag: False,
            gurobipy.GRB.Param.PoolSearchMode: 2}
    tr.add_positivity_adversarial_state = adv or rng.random() < .7
    tr.add_derivative_adversarial_state = adv or rng.random() < .7
    tr.add_adversarial_state_only = rng.random() < .6
    tr.max_sample_pool_size = 1000 if adv else ch([1, 2, 3, 4, 500])
    tr.search_controller = rng.random() < .7
    tr.sample_loss_reduction = ch(["mean", "max", "4norm"])
    tr.optimizer = ch(["SGD", "SGD", "SGD", "Adam"])
    tr.learning_rate = ch([.125, .25])
    tr.momentum = ch([0., 0., .5])
    tr.max_iterations = rng.randint(1, 5)
    tr.lyapunov_positivity_mip_warmstart = rng.random() < .4
    tr.lyapunov_derivative_mip_warmstart = rng.random() < .4
    thr = rng.random() < .15
    if thr:
        tr.lyapunov_positivity_mip_term_threshold = 0.
        tr.lyapunov_derivative_mip_term_threshold = 0.
    cfg = {
        "n": w.n, "d": [R(v) for v in w.d], "w": [R(v) for v in w.w],
        "mask": [True] * w.n + [w.fb and tr.search_controller] +
        [w.freeR] * w.nr, "th0": w.exact(),
        "gp": w.grad(w.gp), "gd": w.grad(w.gd),
        "wps": R(tr.lyapunov_positivity_sample_cost_weight),
        "wds": R(tr.lyapunov_derivative_sample_cost_weight),
        "wpm": R(tr.lyapunov_positivity_mip_cost_weight),
        "wdm": R(tr.lyapunov_derivative_mip_cost_weight),
        "lam": R(lam), "epsp": R(tr.lyapunov_positivity_epsilon),
        "epsd": R(tr.lyapunov_derivative_epsilon), "type": name,
        "marp": R(tr.lyapunov_positivity_sample_margin),
        "mard": R(tr.lyapunov_derivative_sample_margin),
        "red": tr.sample_loss_reduction, "tolp": R(.0625), "told": R(.125),
        "np": tr.lyapunov_positivity_mip_pool_solutions,
        "nd": tr.lyapunov_derivative_mip_pool_solutions,
        "addp": tr.add_positivity_adversarial_state,
        "addd": tr.add_derivative_adversarial_state,
        "only": tr.add_adversarial_state_only,
        "cap": tr.max_sample_pool_size, "opt": tr.optimizer,
        "lr": R(tr.learning_rate), "mom": R(tr.momentum),
        "maxit": tr.max_iterations,
        "warmp": tr.lyapunov_positivity_mip_warmstart,
        "warmd": tr.lyapunov_derivative_mip_warmstart, "save": 0}
    tr._fill = (not thr, fillD and not thr)
    return tr, cfg


def samples(rng, n, k):
    return [[float(rng.randint(-3, 3)) for _ in range(n)] for _ in range(k)]


def rounds(w, tr):
    """The log cut at each pair of programs: (pos, der, losses) each."""
    out, np_, nd = [], 0, 0
    for z in w.log:
        if z["what"] in ("pos", "der"):
            if z["what"] == "pos":
                np_ += 1
            else:
                nd += 1
            while len(out) < max(np_, nd):
                out.append({"pl": [], "dl": []})
            fill = tr._fill[z["what"] == "der"]
            k = np_ if z["what"] == "pos" else nd
            lim = tr.lyapunov_positivity_mip_pool_solutions \
                if z["what"] == "pos" else \
                tr.lyapunov_derivative_mip_pool_solutions
            out[k - 1][z["what"]] = pool(z, lim, fill)
        else:
            if not out:
                out.append({"pl": [], "dl": []})
            out[-1]["pl" if z["what"] == "ploss" else "dl"].append(z)
    return out
