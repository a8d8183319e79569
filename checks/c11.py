"""Objective of a solved program recomputed from its data."""
import gurobipy
import torch

from lib import nets
from lib.core import R, RV, tick
from neural_network_lyapunov import gurobi_torch_mip as gtm

GRB = gurobipy.GRB
INF = GRB.INFINITY
T = nets.t
COEFF = [-2., -1., -.5, .5, 1., 1., 2., 1.5]
SENSE = {"<": GRB.LESS_EQUAL, ">": GRB.GREATER_EQUAL, "=": GRB.EQUAL}


def leaf(x):
    return torch.tensor(x, dtype=nets.F64, requires_grad=True)


def grad(t, idx=None):
    g = t.grad if t.grad is not None else torch.zeros_like(t)
    return g if idx is None else g[idx]


class Program:
    def __init__(self, rng, quad):
        self.rng, self.quad = rng, quad
        self.mip = (gtm.GurobiTorchMIQP if quad else gtm.GurobiTorchMILP)(
            nets.F64)
        self.mip.gurobi_model.setParam(GRB.Param.OutputFlag, False)
        self.v, self.kind, self.w = [], [], []
        self.rows = []   # (eq, terms, rhs, rhs getter, coefficient getters)
        n, nb = rng.randint(1, 3), rng.choice([0, 1, 1, 2])
        order = ["c", "b"] if rng.random() < .6 else ["b", "c"]
        for k in order:
            if k == "c":
                self.cont(n)
            elif nb:
                self.v += self.mip.addVars(nb, lb=0., ub=1.,
                                           vtype=GRB.BINARY)
                self.kind += ["b"] * nb
                self.w += [float(rng.randint(0, 1)) for _ in range(nb)]
        for _ in range(rng.randint(1, 3)):
            self.lrow() if rng.random() < .5 else self.mrow()
        self.objective()

    def cont(self, n):
        rng = self.rng
        w = nets.vec(rng, n, 2.)
        lo = [x - rng.choice([.5, 1., 2., 3., 0.]) for x in w]
        up = [x + rng.choice([.5, 1., 2., 3.]) for x in w]
        if rng.random() < .15:
            up[0] = lo[0] = w[0]
        L, U = leaf(lo), leaf(up)
        o = len(self.v)
        self.v += self.mip.addVars(n, lb=L, ub=U)
        self.kind += ["c"] * n
        self.w += w
        for j in range(n):
            x = o + j + 1
            if lo[j] == up[j]:
                self.rows.append((True, [[x, 1.]], lo[j],
                                  lambda j=j: float(grad(L, j)), []))
                continue
            self.rows.append((False, [[x, -1.]], -lo[j],
                              lambda j=j: -float(grad(L, j)), []))
            self.rows.append((False, [[x, 1.]], up[j],
                              lambda j=j: float(grad(U, j)), []))

    def ids(self, k=3):
        i = list(range(len(self.v)))
        self.rng.shuffle(i)
        return i[:self.rng.randint(1, min(k, len(i)))]

    def rhs(self, sense, val):
        return val if sense == "=" else val + self.rng.choice(
            [0., .25, .5, 1.]) * (1 if sense == "<" else -1)

    def sense(self):
        return self.rng.choice("<<>>=" if len(self.v) > 2 else "<>")

    def lrow(self):
        ids, s = self.ids(), self.sense()
        co = [self.rng.choice(COEFF) for _ in ids]
        b = self.rhs(s, sum(c * self.w[i] for c, i in zip(co, ids)))
        cut = self.rng.randint(0, len(ids) - 1)
        parts = [q for q in ((0, cut), (cut, len(ids))) if q[0] < q[1]]
        cs = [leaf(co[p:q]) for p, q in parts]
        bt = leaf(b)
        self.mip.addLConstr(cs, [[self.v[i] for i in ids[p:q]]
                                 for p, q in parts], SENSE[s], bt)
        sg = -1. if s == ">" else 1.
        gets = [lambda c=c, k=k: sg * float(grad(c, k))
                for c, (p, q) in zip(cs, parts) for k in range(q - p)]
        self.rows.append((s == "=", [[i + 1, sg * c] for i, c in
                                     zip(ids, co)], sg * b,
                          lambda: sg * float(grad(bt)), gets))

    def mrow(self):
        ids, s = self.ids(), self.sense()
        m = self.rng.randint(1, 2)
        A = [[self.rng.choice(COEFF + [0.]) for _ in ids] for _ in range(m)]
        if s == "=":
            m, A = 1, A[:1]
        b = [self.rhs(s, sum(c * self.w[i] for c, i in zip(r, ids)))
             for r in A]
        cut = self.rng.randint(0, len(ids) - 1)
        parts = [q for q in ((0, cut), (cut, len(ids))) if q[0] < q[1]]
        At = [leaf([r[p:q] for r in A]) for p, q in parts]
        bt = leaf(b)
        self.mip.addMConstr(At, [[self.v[i] for i in ids[p:q]]
                                 for p, q in parts], SENSE[s], bt)
        sg = -1. if s == ">" else 1.
        for r in range(m):
            gets = [lambda a=a, r=r, k=k: sg * float(grad(a, (r, k)))
                    for a, (p, q) in zip(At, parts) for k in range(q - p)]
            self.rows.append((s == "=", [[i + 1, sg * c] for i, c in
                                         zip(ids, A[r])], sg * b[r],
                              lambda r=r: sg * float(grad(bt, r)), gets))

    def objective(self):
        rng = self.rng
        ids = list(range(len(self.v)))
        rng.shuffle(ids)
        co = [rng.choice(COEFF) for _ in ids]
        self.sensew = rng.choice([GRB.MINIMIZE, GRB.MAXIMIZE])
        self.c0 = leaf(nets.dy(rng))
        self.ct = leaf(co)
        self.t = [[i + 1, c] for i, c in zip(ids, co)]
        self.q, self.qget = [], []
        lv = [self.v[i] for i in ids]
        if not self.quad:
            self.mip.setObjective([self.ct], [lv], self.c0, self.sensew)
            return
        sg = 1. if self.sensew == GRB.MINIMIZE else -1.
        cont = [i for i, k in enumerate(self.kind) if k == "c"]
        bins = [i for i, k in enumerate(self.kind) if k == "b"]
        n = len(cont)
        # diagonally dominant, not necessarily symmetric
        M = [[rng.choice([1., 2., 1.5]) if i == j else
              rng.choice([0., .25, .5, -.25, -.5]) if n < 3 else
              rng.choice([0., .25, -.25]) for j in range(n)]
             for i in range(n)]
        qs = [(M, cont, cont)]
        if bins and rng.random() < .7:
            a, b = (cont, bins) if rng.random() < .5 else (bins, cont)
            qs.append(([[rng.choice(COEFF + [0.]) for _ in b] for _ in a],
                       a, b))
        if bins and rng.random() < .5:
            qs.append(([[rng.choice([0., 1., -.5]) for _ in bins]
                        for _ in bins], bins, bins))
        qc, qv = [], []
        for m, a, b in qs:
            m = leaf([[sg * x for x in r] for r in m])
            qc.append(m)
            qv.append(([self.v[i] for i in a], [self.v[j] for j in b]))
            for r, i in enumerate(a):
                for s, j in enumerate(b):
                    self.q.append([i + 1, j + 1, m.detach()[r, s].item()])
                    self.qget.append(lambda m=m, r=r, s=s:
                                     float(grad(m, (r, s))))
        self.leaves = qc
        self.mip.setObjective(qc, qv, [self.ct], [lv], self.c0, self.sensew)


def reset(p):
    """Forget gradients of a previous pool entry."""
    seen = set()

    def clear(t):
        if id(t) not in seen:
            seen.add(id(t))
            t.grad = None

    for r in p.rows:
        for f in [r[3]] + list(r[4]):
            for c in (f.__closure__ or ()) + tuple(
                    x for x in (f.__defaults__ or ())):
                v = getattr(c, "cell_contents", c)
                if torch.is_tensor(v):
                    clear(v)
    for t in [p.c0, p.ct] + getattr(p, "leaves", []):
        clear(t)


def observe(ck, ev, p):
    rng, mip = ck.rng, p.mip
    m = mip.gurobi_model
    nb = sum(k == "b" for k in p.kind)
    if rng.random() < .6:
        m.setParam(GRB.Param.PoolSearchMode, 2)
        m.setParam(GRB.Param.PoolSolutions, 4)
    m.optimize()
    if m.status != GRB.Status.OPTIMAL:
        return
    key = ("MIQP" if nb else "QP") if p.quad else ("MILP" if nb else "LP")
    order = list(range(min(m.solCount, 4)))
    if rng.random() < .5:
        rng.shuffle(order)
    for n in order:
        m.setParam(GRB.Param.SolutionNumber, n)
        x = [v.xn for v in p.v]
        at = dict(zip(p.v, x))
        sol = m.PoolObjVal
        kw = {"penalty": 1e-8} if p.quad else (
            {"penalty": 1e-9} if rng.random() < .2 else {})
        if n or rng.random() < .5:
            kw["solution_number"] = n
        # whichever entry was looked at before
        m.setParam(GRB.Param.SolutionNumber, rng.choice(order))
        reset(p)
        re = mip.compute_objective_from_mip_data_and_solution(**kw)
        m.setParam(GRB.Param.SolutionNumber, rng.choice(order))
        act, zeta = mip.get_active_constraint_indices_and_binary_val(n)
        re2 = mip.compute_objective_from_mip_data(act, zeta, penalty=kw.get(
            "penalty", 0.))
        re.backward(retain_graph=True)
        r = T([at[v] for v in mip.r])
        z = T([round(at[v]) for v in mip.zeta])
        Gi, Gz, h = mip.get_inequality_constraints()
        res = (Gi @ r + Gz @ z - h).detach().tolist()
        A, b = mip.get_active_constraints(act, zeta)
        rank = int(torch.linalg.matrix_rank(A.detach(), tol=1e-7)) \
            if A.shape[0] else 0
        full = rank == A.shape[1] and not p.quad or \
            p.quad and rank == A.shape[0]
        ev.append({
            "op": "solved", "key": key + ("-pool" if n else ""),
            "kinds": p.kind,
            "rows": [{"eq": q[0], "t": [[i, R(c)] for i, c in q[1]],
                      "rhs": R(q[2])} for q in p.rows],
            "obj": {"t": [[i, R(c)] for i, c in p.t],
                    "q": [[i, j, R(c)] for i, j, c in p.q],
                    "c": R(p.c0)},
            "x": [tick(v) for v in x], "sol": tick(sol), "re": tick(re),
            "re2": tick(re2), "zeta": [tick(v) for v in zeta],
            "zvars": [1 + [w is v for w in p.v].index(True)
                      for v in mip.zeta],
            "act": sorted(int(a) for a in act), "res": [tick(v)
                                                        for v in res],
            "hasgrad": bool(full), "gc": [tick(grad(p.ct, k))
                                          for k in range(len(p.t))],
            "gq": [tick(g()) for g in p.qget], "gk": tick(grad(p.c0)),
            "gr": [tick(q[3]()) for q in p.rows],
            "ga": [[tick(g()) for g in q[4]] for q in p.rows]})
    if p.quad or rng.random() < .5 or not len(mip.r):
        return
    # a solution with solver noise on it
    act, zeta = mip.get_active_constraint_indices_and_binary_val(0)
    A, b = mip.get_active_constraints(act, zeta)
    if A.shape[0] != A.shape[1] or len(mip.Aeq_r_row) or not len(act) or \
            torch.linalg.matrix_rank(A.detach()) < A.shape[1]:
        return
    Gi, Gz, h = mip.get_inequality_constraints()
    d = rng.choice([3e-7, 3e-6, 1e-5])
    for tol in (1e-9, 2e-8, 1e-7, 1e-6):
        m.setParam(GRB.Param.SolutionNumber, 0)
        sol = m.PoolObjVal
        keep = m._pool[0][0]
        noisy = list(keep)
        # move inside along the active rows: A x = b - d
        A0 = A.detach()
        r0 = torch.linalg.solve(A0, (b.detach() - d))
        for v, y in zip(mip.r, r0.tolist()):
            noisy[v.index] = y
        m._pool[0] = (noisy, m._pool[0][1]) + tuple(m._pool[0][2:])
        raised, re = False, 0.
        m.setParam(GRB.Param.SolutionNumber, rng.randrange(
            min(m.solCount, 4)))
        try:
            re = mip.compute_objective_from_mip_data_and_solution(
                active_constraint_tolerance=tol)
        except gtm.IncorrectActiveConstraint:
            raised = True
        m._pool[0] = (keep, m._pool[0][1]) + tuple(m._pool[0][2:])
        ev.append({"op": "noisy", "key": "noisy", "sol": tick(sol),
                   "re": tick(re), "raised": raised,
                   "within": bool(tol * 500 > d),
                   "beyond": bool(tol * 520 < d) and
                   abs(float(mip.c_zeta @ zeta + mip.c_constant) - sol)
                   > .01})


def run(ck):
    rng = ck.rng
    ck.model("MC_Value", wait=False)
    ev = []
    for k in range(ck.n(160, 1600)):
        observe(ck, ev, Program(rng, quad=k % 3 == 2))
    ck.stateless("Value", ev)
