"""Programs kept as matrices and handed to the solver."""
import gurobipy
import torch

from lib import nets
from lib.core import R, RV, tick
from neural_network_lyapunov import gurobi_torch_mip as gtm

INF = gurobipy.GRB.INFINITY
GRB = gurobipy.GRB
NONE = []
SENSE = {"<": GRB.LESS_EQUAL, ">": GRB.GREATER_EQUAL, "=": GRB.EQUAL}
KIND = {"c": GRB.CONTINUOUS, "b": GRB.BINARY, "r": gtm.BINARYRELAX}
FIELDS = ("Aout_input", "Aout_slack", "Aout_binary", "Cout", "Ain_input",
          "Ain_slack", "Ain_binary", "rhs_in", "Aeq_input", "Aeq_slack",
          "Aeq_binary", "rhs_eq", "input_lo", "input_up", "slack_lo",
          "slack_up", "binary_lo", "binary_up")
COEFF = [-2., -1., -.5, .5, 1., 1., 2., 1.5, 0.]


class Session:
    def __init__(self, rng, quad=False, dtype=torch.float64):
        self.rng = rng
        self.dtype = dtype
        self.mip = (gtm.GurobiTorchMIQP if quad else gtm.GurobiTorchMILP)(
            dtype)
        self.mip.gurobi_model.setParam(GRB.Param.OutputFlag, False)
        self.quad = quad
        self.vars = []
        self.kind = []
        self.w = []     # a point kept feasible
        self.ev = [{"op": "new", "key": "new"}]

    def T(self, x):
        return torch.tensor(x, dtype=self.dtype)

    def val(self):
        return self.rng.randint(-4, 4) / 2.

    def coef(self):
        return self.rng.choice(COEFF)

    def log(self, op, **k):
        e = {"op": op, "key": k.pop("key", op), "nvars":
             len(self.mip.gurobi_model.getVars()),
             "types": [v.vtype for v in self.vars]}
        e.update(k)
        self.ev.append(e)

    def addvars(self, kind=None, n=None, any_bounds=False):
        rng = self.rng
        kind = kind or rng.choice("cccbr")
        n = n or rng.randint(1, 3)
        lo, up, w = [], [], []
        for _ in range(n):
            if kind == "c":
                x = self.val()
                a = rng.choice([None, x, x - .5, x - 1., x - 2.])
                b = rng.choice([None, x, x + .5, x + 1., x + 2.])
            else:
                x = float(rng.randint(0, 1))
                a, b = 0., 1.
                if any_bounds or rng.random() < .15:
                    a, b = x, rng.choice([x, 1.])
                    if rng.random() < .3:
                        a, b = 0., x
            lo.append(a)
            up.append(b)
            w.append(x)
        kw = {}
        style = rng.random()
        if style < .25 and kind == "c":   # one bound for all, as a number
            lo = [min(w) - rng.choice([0., 1.])] * n
            up = [None] * n
            kw["lb"] = lo[0]
            if rng.random() < .5 and float(lo[0]).is_integer():
                kw["lb"] = int(lo[0])
            if rng.random() < .5:
                up = [max(w) + rng.choice([0., .5])] * n
                kw["ub"] = up[0]
        elif style < .35 and kind == "c":  # defaults: nonnegative
            w = [abs(x) for x in w]
            lo, up = [0.] * n, [None] * n
        elif kind == "b" and all(a == 0. for a in lo) and all(
                b == 1. for b in up) and rng.random() < .7:
            kw = {"lb": 0., "ub": 1.} if rng.random() < .5 else {
                "lb": self.T([0.] * n), "ub": self.T([1.] * n)}
        else:
            kw["lb"] = self.T([-INF if a is None else a for a in lo])
            kw["ub"] = self.T([INF if b is None else b for b in up])
        vs = self.mip.addVars(n, vtype=KIND[kind], name="v", **kw)
        self.vars += vs
        self.kind += [kind] * n
        self.w += w

        def opt(x):
            return NONE if x is None else [R(x)]

        self.log("vars", kind=kind, lo=[opt(a) for a in lo],
                 up=[opt(b) for b in up], key="vars-" + kind)

    def pick(self, k=None):
        ids = list(range(len(self.vars)))
        self.rng.shuffle(ids)
        return ids[:k or self.rng.randint(1, min(4, len(ids)))]

    def rhs(self, sense, val):
        return val if sense == "=" else val + self.rng.choice(
            [0., .5, 1., 2.]) * (1 if sense == "<" else -1)

    def split(self, ids):
        """Cut a list of variables into one or more groups."""
        out = []
        ids = list(ids)
        while ids:
            k = self.rng.randint(1, len(ids))
            out.append(ids[:k])
            ids = ids[k:]
        return out

    def lconstr(self):
        ids = self.pick()
        co = [self.coef() for _ in ids]
        sense = self.rng.choice("<>=")
        rhs = self.rhs(sense, sum(c * self.w[i] for c, i in zip(co, ids)))
        groups, cg, k = self.split(ids), [], 0
        for g in groups:
            cg.append(self.T(co[k:k + len(g)]))
            k += len(g)
        self.mip.addLConstr(
            cg, [[self.vars[i] for i in g] for g in groups],
            sense=SENSE[sense],
            rhs=rhs if self.rng.random() < .5 else self.T(rhs))
        self.log("lconstr", t=[[i + 1, R(c)] for i, c in zip(ids, co)],
                 sense=sense, rhs=R(rhs), key="lconstr-" + sense)

    def mconstr(self):
        m = self.rng.randint(1, 3)
        ids = self.pick()
        A = [[self.coef() for _ in ids] for _ in range(m)]
        sense = self.rng.choice("<>=")
        b = [self.rhs(sense, sum(c * self.w[i] for c, i in zip(r, ids)))
             for r in A]
        groups, mats, k = self.split(ids), [], 0
        for g in groups:
            mats.append(self.T([r[k:k + len(g)] for r in A]))
            k += len(g)
        self.mip.addMConstr(mats, [[self.vars[i] for i in g]
                                   for g in groups], SENSE[sense], self.T(b))
        self.log("mconstr", A=RV(A), vs=[i + 1 for i in ids], sense=sense,
                 b=RV(b), key="mconstr-" + sense)

    def block(self):
        rng = self.rng
        cont = [i for i, k in enumerate(self.kind) if k == "c"]
        if not cont:
            return
        rng.shuffle(cont)
        xv = cont[:rng.randint(1, min(2, len(cont)))]
        rest = [i for i in cont if i not in xv]
        yv = rest[:rng.randint(1, 2)] if rest and rng.random() < .6 else []
        ns, nb = rng.randint(0, 2), rng.randint(0, 2)
        bkind = rng.choice("bbr")
        bv = []
        bins = [i for i, k in enumerate(self.kind) if k == bkind]
        if nb and len(bins) >= nb and rng.random() < .4:
            rng.shuffle(bins)
            bv = bins[:nb]
        s = [self.val() for _ in range(ns)]
        b = [self.w[i] for i in bv] if bv else [
            float(rng.randint(0, 1)) for _ in range(nb)]
        # parts absent as None; the size must be visible in some In/Eq part
        parts = {}
        mi, me = rng.randint(0, 3), rng.randint(0, 1)
        point = [self.w[i] for i in xv] + s + b
        nx = len(xv)
        sizes = (("input", nx, 0), ("slack", ns, nx), ("binary", nb, nx + ns))

        def mats(m):
            return {k: [[self.coef() for _ in range(n)] for _ in range(m)]
                    if n and rng.random() < .8 else None
                    for k, n, _ in sizes}

        def full(d, m):
            return [sum([d[k][r] if d[k] is not None else [0.] * n
                         for k, n, _ in sizes], []) for r in range(m)]

        def dot(r):
            return sum(p * q for p, q in zip(r, point))

        G, E = mats(mi), mats(me)
        O = mats(len(yv)) if yv else {}
        if mi and all(v is None for v in G.values()):
            G["input"] = [[self.coef() for _ in range(nx)] for _ in range(mi)]
        if me and all(v is None for v in E.values()):
            E["input"] = [[self.coef() for _ in range(nx)] for _ in range(me)]
        bounds = {}
        for k, n, o in sizes:
            for q in ("lo", "up"):
                if n and rng.random() < .3 and not (k == "binary" and bv):
                    bounds[k + "_" + q] = [
                        v + (rng.choice([0., 1., .5]) if k != "binary" else
                             0. if q == "lo" else 0.) * (
                            -1 if q == "lo" else 1)
                        for v in point[o:o + n]]
                    if k == "binary" and rng.random() < .5:
                        bounds[k + "_" + q] = [0. if q == "lo" else 1.] * n
        for k, n, _ in sizes[1:]:
            if n and (mi == 0 or G[k] is None) and (me == 0 or E[k] is None)\
                    and not (k + "_lo" in bounds or k + "_up" in bounds or
                             O.get(k) is not None):
                # make the size visible
                if mi == 0:
                    mi = 1
                    G = {"input": None, "slack": None, "binary": None}
                G[k] = [[self.coef() for _ in range(n)] for _ in range(mi)]
        Gf, Ef = full(G, mi), full(E, me)
        h = [dot(r) + rng.choice([0., .5, 1.]) for r in Gf]
        e = [dot(r) for r in Ef]
        # the bounds attached to a block are implied by its rows, too
        imply = rng.random() < .7
        if imply:
            for k, n, o in sizes:
                for q in ("lo", "up"):
                    if k + "_" + q in bounds:
                        for j in range(n):
                            r = [0.] * (nx + ns + nb)
                            r[o + j] = 1. if q == "up" else -1.
                            Gf.append(r)
                            h.append(bounds[k + "_" + q][j] *
                                     (1. if q == "up" else -1.))
            if len(Gf) > mi:
                for k, n, o in sizes:
                    if n and (G[k] is not None or any(
                            any(r[o:o + n]) for r in Gf)):
                        G[k] = [r[o:o + n] for r in Gf]
                    else:
                        G[k] = None
                mi = len(Gf)
        Of = full(O, len(yv)) if yv else []
        o = [self.w[i] - dot(r) for i, r in zip(yv, Of)]
        ret = gtm.MixedIntegerConstraintsReturn()
        for k, n, _ in sizes:
            if mi and G[k] is not None:
                setattr(ret, "Ain_" + k, self.T(G[k]))
            if me and E[k] is not None:
                setattr(ret, "Aeq_" + k, self.T(E[k]))
            if yv and O[k] is not None:
                setattr(ret, "Aout_" + k, self.T(O[k]))
        for k, v in bounds.items():
            setattr(ret, k, self.T(v))
        if mi:
            ret.rhs_in = self.T(h)
            if rng.random() < .3:
                ret.rhs_in = ret.rhs_in.reshape((-1, 1))
        elif rng.random() < .3:
            ret.rhs_in = self.T([])
        if me:
            ret.rhs_eq = self.T(e)
        if yv and (any(o) or rng.random() < .5):
            ret.Cout = self.T(o)
            if rng.random() < .3:
                ret.Cout = ret.Cout.reshape((-1, 1))
        sv, nv = self.mip.add_mixed_integer_linear_constraints(
            ret, [self.vars[i] for i in xv],
            [self.vars[i] for i in yv] if yv else None, "s",
            [self.vars[i] for i in bv] if bv else "b", "in", "eq", "out",
            KIND[bkind] if not (bv and bkind == "r") else GRB.CONTINUOUS)
        self.vars += list(sv) + ([] if bv else list(nv))
        at = {v: i + 1 for i, v in enumerate(self.vars)}
        self.kind += ["c"] * ns + ([] if bv else [bkind] * nb)
        self.w += s + ([] if bv else b)

        def opt(k):
            return RV(bounds[k]) if k in bounds else NONE

        B = {"ns": ns, "nb": nb, "Gi": RV(Gf), "h": RV(h), "Ge": RV(Ef),
             "e": RV(e), "Go": RV(Of), "o": RV(o), "xlo": opt("input_lo"),
             "xup": opt("input_up"), "slo": opt("slack_lo"),
             "sup": opt("slack_up"), "blo": opt("binary_lo"),
             "bup": opt("binary_up")}
        self.log("block", B=B, xv=[i + 1 for i in xv],
                 yv=[i + 1 for i in yv], bv=[i + 1 for i in bv],
                 bkind=bkind, sv=[at[v] for v in sv], nv=[at[v] for v in nv])

    def unrelax(self):
        self.mip.remove_binary_relaxation()
        self.kind = ["b" if k == "r" else k for k in self.kind]
        self.log("unrelax")

    def objective(self):
        rng = self.rng
        ids = self.pick()
        co = [self.coef() for _ in ids]
        c = self.val()
        sense = rng.choice(["min", "max"])
        gs = GRB.MINIMIZE if sense == "min" else GRB.MAXIMIZE
        groups, cg, k = self.split(ids), [], 0
        for g in groups:
            cg.append(self.T(co[k:k + len(g)]))
            k += len(g)
        vg = [[self.vars[i] for i in g] for g in groups]
        cst = c if rng.random() < .5 else self.T(c)
        q = []
        if self.quad:
            qc, qv = [], []
            used = set()
            for _ in range(rng.randint(0, 3)):
                a, b = self.pick(rng.randint(1, 2)), self.pick(
                    rng.randint(1, 2))
                if any((min(i, j), max(i, j)) in used for i in a for j in b)\
                        or (len(set(a) & set(b)) == 2):
                    continue
                used |= {(min(i, j), max(i, j)) for i in a for j in b}
                M = [[self.coef() for _ in b] for _ in a]
                qc.append(self.T(M))
                qv.append(([self.vars[i] for i in a],
                           [self.vars[j] for j in b]))
                q += [[i + 1, j + 1, R(M[r][s])] for r, i in enumerate(a)
                      for s, j in enumerate(b)]
            self.mip.setObjective(qc, qv, cg, vg, cst, gs)
        else:
            self.mip.setObjective(cg, vg, constant=cst, sense=gs)
        self.log("objective", t=[[i + 1, R(v)] for i, v in zip(ids, co)],
                 q=q, c=R(c), sense=sense)
        self.hasobj = True

    hasobj = False

    def probe(self, p):
        mip, rng = self.mip, self.rng
        at = {v: x for v, x in zip(self.vars, p)}
        r = self.T([at[v] for v in mip.r])
        z = self.T([at[v] for v in mip.zeta])
        Gi, Gz, h = mip.get_inequality_constraints()
        ineq = (Gi @ r + Gz @ z - h).detach().tolist() if len(h) else []
        A, b = mip.get_active_constraints(set(), z)
        eq = (A @ r - b).detach().tolist() if len(b) else []
        rows = [k for k in range(len(ineq)) if rng.random() < .4]
        A, b = mip.get_active_constraints(set(rows), z)
        act = (A @ r - b).detach().tolist() if len(b) else []
        m = mip.gurobi_model
        ok = all(v.lb - 1e-9 <= at[v] <= v.ub + 1e-9 and
                 (v.vtype == "C" or at[v] in (0., 1.)) for v in m.getVars())
        for c in m.getConstrs():
            d = sum(co * at[v] for v, co in c._terms.items()) - c.rhs
            ok = ok and (abs(d) < 1e-9 if c.sense == "=" else
                         d < 1e-9 if c.sense == "<" else d > -1e-9)
        kob = sob = 0.
        ks = ss = "min"
        has = self.hasobj and mip.c_r.shape[0] == r.shape[0] and \
            mip.c_zeta.shape[0] == z.shape[0]
        if has:
            kob = mip.c_r @ r + mip.c_zeta @ z + mip.c_constant
            if self.quad:
                kob = kob + r @ (mip.Q_r @ r) + z @ (mip.Q_zeta @ z) + \
                    r @ (mip.Q_rzeta @ z)
            o = m.getObjective()
            lin = o._l if isinstance(o, gurobipy.QuadExpr) else o
            sob = lin._c + sum(c * at[v] for v, c in lin._terms.items())
            if isinstance(o, gurobipy.QuadExpr):
                sob += sum(c * at[a] * at[b]
                           for (a, b), c in o._q.items())
            ks = "min" if mip.sense == GRB.MINIMIZE else "max"
            ss = "min" if m.ModelSense == GRB.MINIMIZE else "max"
        self.ev.append({
            "op": "probe", "key": "probe", "p": RV(p), "solver": bool(ok),
            "kept": all(v <= 1e-9 for v in ineq) and all(
                abs(v) < 1e-9 for v in eq),
            "ineq": [tick(v) for v in ineq], "eq": [tick(v) for v in eq],
            "rows": rows, "act": [tick(v) for v in act], "hasobj": has,
            "kobj": tick(kob), "sobj": tick(sob), "sense": ss, "ksense": ks})

    def probes(self, k):
        rng = self.rng
        self.probe(self.w)
        for _ in range(k):
            p = list(self.w)
            for i in self.pick(rng.randint(1, 2)):
                if self.kind[i] == "b":
                    p[i] = rng.choice([0., 1., 1. - p[i], .5])
                elif self.kind[i] == "r":
                    p[i] = rng.choice([0., 1., .5, 1.25, -.25])
                else:
                    p[i] += rng.choice([-2., -1., -.5, -.25, .25, .5, 1., 2.])
            self.probe(p)

    def refused(self):
        """Calls the documentation says are inconsistent."""
        rng = self.rng
        i = rng.randrange(len(self.vars))
        v = self.vars[i]
        what = rng.choice(["dup", "dupobj", "unknown"])
        raised = False
        try:
            if what == "dup":
                self.mip.addLConstr([self.T([1.]), self.T([2.])], [[v], [v]],
                                    sense=SENSE[rng.choice("<>=")], rhs=1.)
            elif what == "dupobj" and not self.quad:
                self.mip.setObjective([self.T([1.]), self.T([2.])],
                                      [[v], [v]], constant=0.,
                                      sense=GRB.MINIMIZE)
            elif what == "dupobj":
                self.mip.setObjective([self.T([[1., 2.]])], [([v], [v, v])],
                                      [], [], 0., GRB.MINIMIZE)
            else:
                w = self.mip.gurobi_model.addVars(1)[0]
                self.mip.addLConstr([self.T([1.])], [[w]],
                                    sense=SENSE["<"], rhs=1.)
        except AssertionError:
            raised = False
        except Exception:
            raised = True
        self.ev.append({"op": "refused", "key": "refused-" + what,
                        "raised": raised})


def session(ck):
    rng = ck.rng
    s = Session(rng, quad=rng.random() < .3)
    s.addvars("c")
    for _ in range(rng.randint(3, 9)):
        op = rng.choice(["vars", "lconstr", "lconstr", "mconstr", "mconstr",
                         "block", "block", "unrelax", "probe", "objective"])
        if op == "vars" and len(s.vars) < 9:
            s.addvars()
        elif op == "probe":
            s.probes(1)
        elif op == "block" and len(s.vars) > 9:
            continue
        elif op != "vars":
            getattr(s, op)()
    if rng.random() < .8:
        s.objective()
    s.probes(6)
    if rng.random() < .4:
        s.refused()
    return s.ev


def run(ck):
    ck.model("MC_Prog", wait=False)
    ck.sessions("Prog", [session(ck) for _ in range(ck.n(160, 1500))],
                size=450 if not ck.thorough else 2500)
