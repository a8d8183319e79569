"""
Branch and bound over 0-1 columns, one warm-started linear program.  Used
instead of a packaged mixed-integer solver, whose presolve was seen to lose
optimal solutions of tiny programs with ties.
"""
import highspy
import numpy as np

INF = highspy.kHighsInf
S = highspy.HighsModelStatus


class LP:
    """min c x, rl <= A x <= ru, lb <= x <= ub (rows in CSR form)."""

    def __init__(self, c, starts, index, value, rl, ru, lb, ub, tol=1e-7):
        self.n = len(c)
        self.c = np.asarray(c, dtype=float)
        self.lb, self.ub = np.array(lb, float), np.array(ub, float)
        h = highspy.Highs()
        h.setOptionValue("output_flag", False)
        h.setOptionValue("presolve", "off")
        h.setOptionValue("solver", "simplex")
        h.setOptionValue("primal_feasibility_tolerance", tol)
        h.setOptionValue("dual_feasibility_tolerance", 1e-9)
        lp = highspy.HighsLp()
        lp.num_col_ = self.n
        lp.num_row_ = len(rl)
        lp.col_cost_ = self.c
        lp.col_lower_ = self.lb
        lp.col_upper_ = self.ub
        lp.row_lower_ = np.asarray(rl, dtype=float)
        lp.row_upper_ = np.asarray(ru, dtype=float)
        lp.a_matrix_.format_ = highspy.MatrixFormat.kRowwise
        lp.a_matrix_.start_ = np.asarray(starts)
        lp.a_matrix_.index_ = np.asarray(index, dtype=int)
        lp.a_matrix_.value_ = np.asarray(value, dtype=float)
        h.passModel(lp)
        self.h = h

    def cost(self, c):
        self.c = np.asarray(c, dtype=float)
        self.h.changeColsCost(self.n, np.arange(self.n, dtype=np.int32),
                              self.c)

    def bounds(self, cols, lo, up):
        self.h.changeColsBounds(len(cols), np.asarray(cols, dtype=np.int32),
                                np.asarray(lo, float), np.asarray(up, float))

    def solve(self):
        """("opt", value, x), ("inf",), ("unb",) or ("err",)."""
        for _ in range(2):
            self.h.run()
            m = self.h.getModelStatus()
            if m in (S.kOptimal, S.kModelEmpty):
                x = np.array(self.h.getSolution().col_value)
                return "opt", float(self.c @ x), x
            if m == S.kInfeasible:
                return ("inf",)
            if m == S.kUnbounded:
                return ("unb",)
            self.h.clearSolver()
        return ("err",)


def solve(lp, ints, lb, ub, cut=None, tol=1e-7, limit=200000):
    """Minimum with the columns ints in {0, 1}; (status, value, x)."""
    ints = np.asarray(ints, dtype=int)
    best, bx = (np.inf if cut is None else cut), None
    il, iu = np.ceil(lb[ints] - 1e-9), np.floor(ub[ints] + 1e-9)
    if np.any(il > iu):
        return "inf", None, None
    stack = [(il, iu, -np.inf)]
    nodes = 0
    while stack:
        l, u, pb = stack.pop()
        if pb >= best - 1e-9:
            continue
        nodes += 1
        if nodes > limit:
            return "lim", None, None
        lp.bounds(ints, l, u)
        r = lp.solve()
        if r[0] == "inf":
            continue
        if r[0] == "err":
            return "err", None, None
        free = np.nonzero(l < u)[0]
        if r[0] == "unb":
            # unbounded relaxation: split until the 0-1 columns are fixed
            if not len(free):
                return "unb", None, None
            k, first, v = free[0], 0., -np.inf
        else:
            _, v, x = r
            if v >= best - 1e-9:
                continue
            f = np.abs(x[ints] - np.round(x[ints]))
            if not len(free) or f.max() <= tol:
                xi = np.round(x[ints])
                if len(free):
                    # exactly at the rounded point
                    lp.bounds(ints, xi, xi)
                    q = lp.solve()
                    if q[0] == "opt" and q[1] <= v + 1e-6 * (1 + abs(v)):
                        best, bx = q[1], q[2]
                        bx[ints] = xi
                        continue
                    k = free[np.argmax(f[free])]
                    first = np.round(x[ints][k])
                else:
                    best, bx = v, x
                    bx[ints] = l
                    continue
            else:
                k = free[np.argmax(f[free])]
                first = np.round(x[ints][k])
        for val in (1. - first, first):
            l2, u2 = l.copy(), u.copy()
            l2[k] = u2[k] = val
            stack.append((l2, u2, v))
    if bx is None:
        return "inf", None, None
    return "opt", best, bx


def dense(G, rl, ru):
    """CSR arrays of a dense matrix."""
    starts, idx, val = [0], [], []
    for r in G:
        nz = np.nonzero(r)[0]
        idx.extend(nz.tolist())
        val.extend(r[nz].tolist())
        starts.append(len(idx))
    return starts, idx, val, rl, ru
