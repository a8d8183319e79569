"""
Questions to a program handed to the solver: what range do some variables
have when others are fixed?  The rows are read from the solver model and
answered by lib/bb, not by the model itself.
"""
import numpy as np

from lib import bb

INF = np.inf


class Read:
    def __init__(self, mip):
        m = getattr(mip, "gurobi_model", mip)
        a = m._arrays()
        self.n = a["n"]
        self.vars = list(m._vars)
        self.pos = {id(v): k for k, v in enumerate(self.vars)}
        self.lb, self.ub = a["lb"].copy(), a["ub"].copy()
        self.ints = np.nonzero(a["isint"])[0]
        self.lb[self.ints] = np.maximum(self.lb[self.ints], 0.)
        self.ub[self.ints] = np.minimum(self.ub[self.ints], 1.)
        self.bad = bool(np.any(self.lb > self.ub + 1e-9))
        if not self.bad:
            self.lp = bb.LP(np.zeros(self.n), a["starts"], a["ci"], a["cv"],
                            a["rl"], a["ru"], self.lb,
                            np.maximum(self.lb, self.ub))

    def index(self, vs):
        return [self.pos[id(v)] for v in vs]

    def fix(self, vs, values):
        """Fix variables; the earlier fixing is forgotten."""
        self.lo, self.up = self.lb.copy(), self.ub.copy()
        self.out = False
        for k, x in zip(self.index(vs), values):
            if x < self.lo[k] - 1e-9 or x > self.up[k] + 1e-9:
                self.out = True
            self.lo[k] = self.up[k] = x
        if not self.bad and not self.out:
            self.lp.bounds(np.arange(self.n), self.lo,
                           np.maximum(self.lo, self.up))
        return self

    def minimum(self, c):
        """("opt", value, x), ("inf", ..) or ("unb", ..)."""
        if self.bad or self.out:
            return "inf", None, None
        self.lp.cost(c)
        if len(self.ints):
            r = bb.solve(self.lp, self.ints, self.lo, self.up)
            self.lp.bounds(self.ints, self.lo[self.ints], self.up[self.ints])
        else:
            r = self.lp.solve()
            r = r if len(r) == 3 else r + (None, None)
        if r[0] not in ("opt", "inf", "unb"):
            raise RuntimeError("program: " + r[0])
        return r

    def ranges(self, vs, args=False):
        """[(lo, up)] of the variables, or None when infeasible."""
        out, pts = [], []
        for k in self.index(vs):
            c = np.zeros(self.n)
            c[k] = 1.
            lo = self.minimum(c)
            if lo[0] == "inf":
                return (None, None) if args else None
            up = self.minimum(-c)
            out.append((-1e9 if lo[0] == "unb" else lo[1],
                        1e9 if up[0] != "opt" else -up[1]))
            pts.append((lo[2], up[2]))
        return (out, pts) if args else out

    def feasible(self):
        return self.minimum(np.zeros(self.n))[0] != "inf"
