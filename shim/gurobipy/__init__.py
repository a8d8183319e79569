"""
A stand-in for the gurobipy API used by neural_network_lyapunov, backed by
HiGHS.  The sandbox has no Gurobi and no network, and nearly every module of
the repository imports gurobipy at module scope.  Only the part of the API the
repository touches is provided.  It is deliberately eager (no lazy update) and
deterministic.

LPs go to HiGHS, 0-1 programs to a branch and bound over them; convex QPs go to HiGHS' QP solver; (mixed-)integer QPs
are solved by enumerating the binaries.  After a MILP solve the binaries are
fixed at their rounded values and the LP is solved again, so that the reported
point is a clean vertex.  With PoolSearchMode=2 the pool is filled with the
best solutions that differ in the binaries (no-good cuts), best first.
"""
import itertools
import math
import time

import numpy as np
import highspy


class GurobiError(Exception):
    pass


class _NS:
    pass


def _ns(name, **kw):
    c = type(name, (), kw)
    return c


class GRB:
    BINARY = 'B'
    CONTINUOUS = 'C'
    INTEGER = 'I'
    INFINITY = 1e100
    EQUAL = '='
    LESS_EQUAL = '<'
    GREATER_EQUAL = '>'
    MINIMIZE = 1
    MAXIMIZE = -1
    LOADED = 1
    OPTIMAL = 2
    INFEASIBLE = 3
    INF_OR_UNBD = 4
    UNBOUNDED = 5
    INTERRUPTED = 11
    TIME_LIMIT = 9
    SOLUTION_LIMIT = 10
    Status = _ns("Status", LOADED=1, OPTIMAL=2, INFEASIBLE=3, INF_OR_UNBD=4,
                 UNBOUNDED=5, CUTOFF=6, ITERATION_LIMIT=7, NODE_LIMIT=8,
                 TIME_LIMIT=9, SOLUTION_LIMIT=10, INTERRUPTED=11, NUMERIC=12,
                 SUBOPTIMAL=13)
    Callback = _ns("Callback", POLLING=0, PRESOLVE=1, SIMPLEX=2, MIP=3,
                   MIPSOL=4, MIPNODE=5, MESSAGE=6, MIPNODE_STATUS=5001,
                   MIPNODE_SOLCNT=5006, MIPNODE_OBJBST=5003,
                   MIP_OBJBST=3000, MIP_OBJBND=3001)

    class _Param:
        def __getattr__(self, k):
            if k.startswith('__'):
                raise AttributeError(k)
            return k

    class _Attr:
        def __getattr__(self, k):
            if k.startswith('__'):
                raise AttributeError(k)
            return k

    Param = _Param()
    Attr = _Attr()
    attr = Attr
    param = Param


_DEFAULTS = {
    'OutputFlag': 1, 'DualReductions': 1, 'PoolSolutions': 10,
    'PoolSearchMode': 0, 'SolutionNumber': 0, 'TimeLimit': math.inf,
    'SolutionLimit': 2000000000, 'Threads': 0, 'Presolve': -1, 'MIPFocus': 0,
    'NonConvex': -1, 'FeasibilityTol': 1e-6, 'IntFeasTol': 1e-5,
    'MIPGap': 1e-4, 'OptimalityTol': 1e-6,
}
_CANON = {k.lower(): k for k in _DEFAULTS}


def _f(v):
    if isinstance(v, float):
        return v
    if hasattr(v, 'item'):
        return float(v.item())
    return float(v)


def _bound(v):
    v = _f(v)
    return math.copysign(math.inf, v) if abs(v) >= 1e100 else v


def _is_num(v):
    return isinstance(v, (int, float, np.number)) or (
        hasattr(v, 'item') and not isinstance(v, (Var, LinExpr, QuadExpr,
                                                  MVar)))


class _Arith:
    __array_priority__ = 1000
    __array_ufunc__ = None

    def _lin(self):
        raise NotImplementedError

    def __add__(self, o):
        r = LinExpr(self)
        if isinstance(o, QuadExpr):
            return o + r
        r._iadd(o, 1.)
        return r

    __radd__ = __add__

    def __sub__(self, o):
        if isinstance(o, QuadExpr):
            return (-1.) * o + LinExpr(self)
        r = LinExpr(self)
        r._iadd(o, -1.)
        return r

    def __rsub__(self, o):
        r = LinExpr(self)
        r._scale(-1.)
        if isinstance(o, QuadExpr):
            return o + r
        r._iadd(o, 1.)
        return r

    def __mul__(self, o):
        if isinstance(o, (Var, LinExpr)):
            q = QuadExpr()
            a, b = LinExpr(self), LinExpr(o)
            for va, ca in a._terms.items():
                for vb, cb in b._terms.items():
                    q._addq(ca * cb, va, vb)
            q._l._iadd(a, b._c)
            q._l._iadd(b, a._c)
            q._l._c -= a._c * b._c
            return q
        r = LinExpr(self)
        r._scale(_f(o))
        return r

    __rmul__ = __mul__

    def __truediv__(self, o):
        return self * (1. / _f(o))

    def __neg__(self):
        return self * (-1.)

    def __pow__(self, k):
        assert k == 2
        return self * self

    def __le__(self, o):
        return TempConstr(self - o, '<')

    def __ge__(self, o):
        return TempConstr(self - o, '>')

    def __eq__(self, o):
        return TempConstr(self - o, '=')


class TempConstr:
    def __init__(self, expr, sense):
        self.expr = expr
        self.sense = sense


class Var(_Arith):
    def __init__(self, model, index, lb, ub, vtype, name):
        d = self.__dict__
        d['_model'] = model
        d['index'] = index
        d['lb'] = lb
        d['ub'] = ub
        d['vtype'] = vtype
        d['VarName'] = name
        d['start'] = None
        d['_removed'] = False

    _ALIAS = {'lb': 'lb', 'ub': 'ub', 'vtype': 'vtype', 'varname': 'VarName',
              'start': 'start'}

    def __setattr__(self, k, v):
        lk = k.lower()
        if lk in ('lb', 'ub'):
            self.__dict__[lk] = _bound(v)
        elif lk in self._ALIAS:
            self.__dict__[self._ALIAS[lk]] = v
        else:
            self.__dict__[k] = v

    def __getattr__(self, k):
        lk = k.lower()
        if lk in self._ALIAS:
            return self.__dict__[self._ALIAS[lk]]
        if lk == 'x':
            return self._model._value(self, 0)
        if lk == 'xn':
            return self._model._value(
                self, int(self._model.params['SolutionNumber']))
        if lk == 'name':
            return self.VarName
        raise AttributeError(k)

    def __hash__(self):
        return id(self)

    def sameAs(self, o):
        return self is o

    def __repr__(self):
        return "<Var %s>" % self.VarName


class LinExpr(_Arith):
    def __init__(self, a=None, b=None):
        self._terms = {}
        self._c = 0.
        if a is None:
            return
        if b is None:
            if isinstance(a, LinExpr):
                self._terms = dict(a._terms)
                self._c = a._c
            elif isinstance(a, Var):
                self._terms[a] = 1.
            elif isinstance(a, (list, tuple)):
                for c, v in a:
                    self._t(_f(c), v)
            else:
                self._c = _f(a)
            return
        if isinstance(b, Var):
            self._t(_f(a), b)
            return
        vs = list(b.values()) if isinstance(b, dict) else list(b)
        if hasattr(a, 'detach'):
            cs = a.detach().reshape(-1).tolist()
        elif isinstance(a, np.ndarray):
            cs = a.reshape(-1).tolist()
        elif isinstance(a, (int, float)):
            cs = [a]
        else:
            cs = list(a)
        if len(cs) != len(vs):
            raise GurobiError("LinExpr: length mismatch %d %d" %
                              (len(cs), len(vs)))
        for c, v in zip(cs, vs):
            self._t(_f(c), v)

    __hash__ = None

    def _t(self, c, v):
        if not isinstance(v, Var):
            raise GurobiError("LinExpr: not a Var")
        self._terms[v] = self._terms.get(v, 0.) + c

    def _iadd(self, o, s):
        if isinstance(o, LinExpr):
            for v, c in o._terms.items():
                self._terms[v] = self._terms.get(v, 0.) + s * c
            self._c += s * o._c
        elif isinstance(o, Var):
            self._terms[o] = self._terms.get(o, 0.) + s
        else:
            self._c += s * _f(o)

    def _scale(self, s):
        self._terms = {v: s * c for v, c in self._terms.items()}
        self._c *= s

    def __iadd__(self, o):
        if isinstance(o, QuadExpr):
            return o + self
        self._iadd(o, 1.)
        return self

    def __isub__(self, o):
        self._iadd(o, -1.)
        return self

    def add(self, o, mult=1.):
        self._iadd(o, mult)

    def addTerms(self, cs, vs):
        if isinstance(vs, Var):
            self._t(_f(cs), vs)
        else:
            for c, v in zip(cs, vs):
                self._t(_f(c), v)

    def addConstant(self, c):
        self._c += _f(c)

    def size(self):
        return len(self._terms)

    def getVar(self, i):
        return list(self._terms)[i]

    def getCoeff(self, i):
        return list(self._terms.values())[i]

    def getConstant(self):
        return self._c

    def getValue(self):
        return self._c + sum(c * v.x for v, c in self._terms.items())


class QuadExpr:
    __array_priority__ = 1000
    __array_ufunc__ = None

    def __init__(self, e=None):
        self._q = {}
        self._l = LinExpr()
        if e is not None:
            self._iadd(e, 1.)

    def _addq(self, c, a, b):
        k = (a, b) if a.index <= b.index else (b, a)
        self._q[k] = self._q.get(k, 0.) + c

    def _iadd(self, o, s):
        if isinstance(o, QuadExpr):
            for (a, b), c in o._q.items():
                self._addq(s * c, a, b)
            self._l._iadd(o._l, s)
        else:
            self._l._iadd(o, s)

    def _copy(self):
        return QuadExpr(self)

    def add(self, o, mult=1.):
        self._iadd(o, mult)

    def addTerms(self, cs, v1, v2=None):
        if isinstance(v1, Var):
            cs, v1 = [cs], [v1]
            v2 = None if v2 is None else [v2]
        v1 = list(v1)
        if v2 is None:
            for c, v in zip(cs, v1):
                self._l._t(_f(c), v)
        else:
            for c, a, b in zip(cs, v1, list(v2)):
                self._addq(_f(c), a, b)

    def addConstant(self, c):
        self._l._c += _f(c)

    def __add__(self, o):
        r = self._copy()
        r._iadd(o, 1.)
        return r

    __radd__ = __add__

    def __iadd__(self, o):
        self._iadd(o, 1.)
        return self

    def __sub__(self, o):
        r = self._copy()
        r._iadd(o, -1.)
        return r

    def __mul__(self, s):
        r = QuadExpr()
        r._iadd(self, _f(s))
        return r

    __rmul__ = __mul__


class MVar:
    def __init__(self, vs):
        self._vs = list(vs)

    def tolist(self):
        return list(self._vs)

    def __iter__(self):
        return iter(self._vs)

    def __len__(self):
        return len(self._vs)

    def __getitem__(self, i):
        return self._vs[i]

    @property
    def shape(self):
        return (len(self._vs), )

    @property
    def x(self):
        return np.array([v.x for v in self._vs])

    X = x

    @property
    def lb(self):
        return np.array([v.lb for v in self._vs])

    @property
    def ub(self):
        return np.array([v.ub for v in self._vs])


class Constr:
    def __init__(self, model, terms, sense, rhs, name):
        self._model = model
        self._terms = terms
        self.sense = sense
        self.rhs = rhs
        self.ConstrName = name

    Sense = property(lambda s: s.sense)
    RHS = property(lambda s: s.rhs)


class MConstr(list):
    def tolist(self):
        return list(self)


class tupledict(dict):
    def select(self, *a):
        return list(self.values())

    def sum(self, *a):
        r = LinExpr()
        for v in self.values():
            r += v
        return r


class Env:
    def __init__(self, *a, **k):
        pass

    def start(self):
        pass

    def setParam(self, *a):
        pass


def quicksum(it):
    r = LinExpr()
    for e in it:
        r = r + e
    return r


_BUDGET = {'max_nodes_time': 120.}


class Model:
    def __init__(self, name="", env=None):
        self.ModelName = name
        self._vars = []
        self._constrs = []
        self.params = dict(_DEFAULTS)
        self._obj = LinExpr()
        self._sense = GRB.MINIMIZE
        self._reset()
        self.num_optimize = 0

    # ---- construction
    def _reset(self):
        self.status = GRB.LOADED
        self._pool = []

    def update(self):
        pass

    def addVar(self, lb=0., ub=GRB.INFINITY, obj=0., vtype=GRB.CONTINUOUS,
               name="", column=None):
        lb, ub = _bound(lb), _bound(ub)
        if vtype == GRB.BINARY:
            lb, ub = max(lb, 0.), min(ub, 1.)
        v = Var(self, len(self._vars), lb, ub, vtype,
                name if name else "C%d" % len(self._vars))
        self._vars.append(v)
        if obj:
            self._obj += obj * v
        return v

    def addVars(self, *indices, lb=0., ub=GRB.INFINITY, obj=0.,
                vtype=GRB.CONTINUOUS, name=""):
        assert len(indices) == 1
        n = indices[0]
        keys = list(range(int(n))) if _is_num(n) else list(n)

        def at(a, i):
            if hasattr(a, 'detach'):
                a = a.detach()
                return _f(a.reshape(-1)[i]) if a.dim() > 0 else _f(a)
            if isinstance(a, np.ndarray):
                return _f(a.reshape(-1)[i]) if a.ndim > 0 else _f(a)
            if isinstance(a, (list, tuple)):
                return _f(a[i])
            return _f(a)

        r = tupledict()
        for i, k in enumerate(keys):
            nm = name[i] if isinstance(name, (list, tuple)) else (
                "%s[%s]" % (name, k) if name else "")
            r[k] = self.addVar(lb=at(lb, i), ub=at(ub, i), vtype=vtype,
                               name=nm)
        return r

    def addMVar(self, shape, lb=0., ub=GRB.INFINITY, obj=0.,
                vtype=GRB.CONTINUOUS, name=""):
        n = shape if isinstance(shape, int) else int(np.prod(shape))
        return MVar(self.addVars(n, lb=lb, ub=ub, vtype=vtype,
                                 name=name).values())

    def addLConstr(self, lhs, sense=None, rhs=None, name=""):
        if isinstance(lhs, TempConstr):
            if isinstance(sense, str) and not name:
                name = sense
            e, sense, r = LinExpr(lhs.expr), lhs.sense, 0.
        else:
            e = LinExpr(lhs)
            if isinstance(rhs, (Var, LinExpr)):
                e = e - rhs
                r = 0.
            else:
                r = _f(rhs)
        sense = str(sense)[0]
        assert sense in "<>=", sense
        c = Constr(self, e._terms, sense, r - e._c, name)
        self._constrs.append(c)
        return c

    addConstr = addLConstr

    def addConstrs(self, gen, name=""):
        return [self.addLConstr(g) for g in gen]

    def addMConstr(self, A, x, sense, b, name=""):
        A = A.detach().numpy() if hasattr(A, 'detach') else np.asarray(
            A, dtype=float)
        b = b.detach().numpy() if hasattr(b, 'detach') else np.asarray(
            b, dtype=float)
        b = b.reshape(-1)
        x = list(self._vars) if x is None else list(x)
        if A.ndim != 2 or A.shape[1] != len(x) or A.shape[0] != b.shape[0]:
            raise GurobiError("addMConstr: shape mismatch %s %d %s" %
                              (A.shape, len(x), b.shape))
        out = MConstr()
        for i in range(A.shape[0]):
            s = sense if isinstance(sense, str) and len(sense) == 1 else \
                sense[i]
            terms = {}
            for c, v in zip(A[i].tolist(), x):
                if c != 0.:
                    terms[v] = terms.get(v, 0.) + c
            c = Constr(self, terms, s, float(b[i]), name)
            self._constrs.append(c)
            out.append(c)
        return out

    def remove(self, item):
        if isinstance(item, Constr):
            self._constrs = [c for c in self._constrs if c is not item]
        elif isinstance(item, Var):
            item.__dict__['_removed'] = True
            self._vars = [v for v in self._vars if v is not item]
            for i, v in enumerate(self._vars):
                v.__dict__['index'] = i
            for c in self._constrs:
                c._terms.pop(item, None)
        elif isinstance(item, dict):
            for v in list(item.values()):
                self.remove(v)
        else:
            for v in list(item):
                self.remove(v)

    def setObjective(self, e, sense=None):
        self._obj = e if isinstance(e, QuadExpr) else LinExpr(e)
        if sense is not None:
            self._sense = sense

    def setMObjective(self, Q, c, constant, xQ_L=None, xQ_R=None, xc=None,
                      sense=None):
        c = c.detach().numpy() if hasattr(c, 'detach') else np.asarray(c)
        xs = list(self._vars) if xc is None else list(xc)
        e = LinExpr(c.reshape(-1).tolist(), xs) + _f(constant)
        if Q is not None:
            Q = np.asarray(Q)
            xl = list(self._vars) if xQ_L is None else list(xQ_L)
            xr = xl if xQ_R is None else list(xQ_R)
            q = QuadExpr(e)
            for i in range(Q.shape[0]):
                for j in range(Q.shape[1]):
                    if Q[i, j] != 0:
                        q._addq(float(Q[i, j]), xl[i], xr[j])
            e = q
        self.setObjective(e, sense)

    def getObjective(self):
        if isinstance(self._obj, QuadExpr):
            return self._obj._copy()
        return LinExpr(self._obj)

    @property
    def ModelSense(self):
        return self._sense

    # ---- parameters, attributes
    def setParam(self, name, value):
        k = _CANON.get(str(name).lower(), str(name))
        self.params[k] = value

    def getParamInfo(self, name):
        k = _CANON.get(str(name).lower(), str(name))
        return (k, type(self.params[k]), self.params[k], -math.inf, math.inf,
                _DEFAULTS.get(k))

    @property
    def Params(self):
        m = self

        class P:
            def __setattr__(self, k, v):
                m.setParam(k, v)

            def __getattr__(self, k):
                return m.getParamInfo(k)[2]

        return P()

    def getAttr(self, name, objs=None):
        if objs is not None:
            return [getattr(o, name) for o in objs]
        return getattr(self, name)

    def __getattr__(self, k):
        lk = k.lower()
        if lk == 'objval':
            if not self._pool:
                raise AttributeError("Unable to retrieve attribute 'ObjVal'")
            return self._pool[0][1]
        if lk == 'poolobjval':
            n = int(self.params['SolutionNumber'])
            if n >= len(self._pool):
                raise AttributeError("Unable to retrieve 'PoolObjVal'")
            return self._pool[n][1]
        if lk == 'objbound':
            return self._pool[0][1]
        if lk == 'mipgap':
            return 0.
        if lk == 'solcount':
            return len(self._pool)
        if lk == 'numvars':
            return len(self._vars)
        if lk == 'numconstrs':
            return len(self._constrs)
        if lk == 'numbinvars':
            return sum(v.vtype == GRB.BINARY for v in self._vars)
        if lk == 'numintvars':
            return sum(v.vtype in (GRB.BINARY, GRB.INTEGER)
                       for v in self._vars)
        if lk == 'runtime':
            return 0.
        if lk == 'status':
            return self.__dict__['status']
        raise AttributeError(k)

    def getVars(self):
        return list(self._vars)

    def getConstrs(self):
        return list(self._constrs)

    def getVarByName(self, name):
        for v in self._vars:
            if v.VarName == name:
                return v
        return None

    def computeIIS(self):
        pass

    def write(self, fname):
        pass

    def dispose(self):
        pass

    def close(self):
        pass

    def terminate(self):
        self._terminated = True

    def cbGet(self, what):
        return self._cb[what]

    def _value(self, v, n):
        if n >= len(self._pool):
            raise AttributeError("Unable to retrieve attribute 'x'")
        return self._pool[n][0][v.index]

    # ---- solving
    def _arrays(self):
        n = len(self._vars)
        idx = {v: i for i, v in enumerate(self._vars)}
        c = np.zeros(n)
        Q = None
        obj = self._obj
        if isinstance(obj, QuadExpr):
            if any(q != 0. for q in obj._q.values()):
                Q = np.zeros((n, n))
                for (a, b), q in obj._q.items():
                    Q[idx[a], idx[b]] += q
                    Q[idx[b], idx[a]] += q
            obj = obj._l
        for v, co in obj._terms.items():
            c[idx[v]] += co
        lb = np.array([v.lb for v in self._vars])
        ub = np.array([v.ub for v in self._vars])
        isint = np.array([v.vtype != GRB.CONTINUOUS for v in self._vars],
                         dtype=bool)
        lb = np.where(lb <= -1e20, -np.inf, lb)
        ub = np.where(ub >= 1e20, np.inf, ub)
        rl, ru, starts, ci, cv = [], [], [0], [], []
        for r in self._constrs:
            rl.append(-np.inf if r.sense == '<' else r.rhs)
            ru.append(np.inf if r.sense == '>' else r.rhs)
            for v, co in r._terms.items():
                if co != 0.:
                    ci.append(idx[v])
                    cv.append(co)
            starts.append(len(ci))
        return dict(n=n, c=c, Q=Q, off=obj._c, lb=lb, ub=ub, isint=isint,
                    rl=rl, ru=ru, starts=starts, ci=ci, cv=cv)

    @staticmethod
    def _relaxation(a, lb, ub, sgn, extra):
        h = highspy.Highs()
        h.setOptionValue("output_flag", False)
        h.setOptionValue("presolve", "off")
        h.setOptionValue("solver", "simplex")
        h.setOptionValue("primal_feasibility_tolerance", 1e-9)
        h.setOptionValue("dual_feasibility_tolerance", 1e-9)
        rl, ru = list(a['rl']), list(a['ru'])
        starts, ci, cv = list(a['starts']), list(a['ci']), list(a['cv'])
        for (terms, lo, up) in extra:
            for i, co in terms:
                ci.append(i)
                cv.append(co)
            starts.append(len(ci))
            rl.append(lo)
            ru.append(up)
        lp = highspy.HighsLp()
        lp.num_col_ = a['n']
        lp.num_row_ = len(rl)
        lp.col_cost_ = a['c'] * sgn
        lp.col_lower_ = lb
        lp.col_upper_ = ub
        lp.row_lower_ = np.array(rl, dtype=float)
        lp.row_upper_ = np.array(ru, dtype=float)
        lp.a_matrix_.format_ = highspy.MatrixFormat.kRowwise
        lp.a_matrix_.start_ = np.array(starts)
        lp.a_matrix_.index_ = np.array(ci, dtype=int)
        lp.a_matrix_.value_ = np.array(cv, dtype=float)
        h.passModel(lp)
        return h

    @staticmethod
    def _highs(a, lb, ub, isint, sgn, extra=(), presolve="choose", c=None,
               Q=True, time_limit=None):
        """returns (status, x)"""
        n = a['n']
        h = highspy.Highs()
        h.silent()
        h.setOptionValue("output_flag", False)
        h.setOptionValue("parallel", "off")
        h.setOptionValue("presolve", presolve)
        h.setOptionValue("mip_rel_gap", 1e-9)
        h.setOptionValue("mip_abs_gap", 1e-9)
        h.setOptionValue("primal_feasibility_tolerance", 1e-9)
        h.setOptionValue("dual_feasibility_tolerance", 1e-9)
        h.setOptionValue("mip_feasibility_tolerance", 1e-8)
        h.setOptionValue("time_limit",
                         _BUDGET['max_nodes_time'] if time_limit is None
                         else time_limit)
        lp = highspy.HighsLp()
        rl, ru = list(a['rl']), list(a['ru'])
        starts, ci, cv = list(a['starts']), list(a['ci']), list(a['cv'])
        for (terms, lo, up) in extra:
            for i, co in terms:
                ci.append(i)
                cv.append(co)
            starts.append(len(ci))
            rl.append(lo)
            ru.append(up)
        lp.num_col_ = n
        lp.num_row_ = len(rl)
        cc = (a['c'] if c is None else c) * sgn
        lp.col_cost_ = cc
        lp.col_lower_ = lb
        lp.col_upper_ = ub
        lp.row_lower_ = np.array(rl, dtype=float)
        lp.row_upper_ = np.array(ru, dtype=float)
        lp.a_matrix_.format_ = highspy.MatrixFormat.kRowwise
        lp.a_matrix_.start_ = np.array(starts)
        lp.a_matrix_.index_ = np.array(ci, dtype=int)
        lp.a_matrix_.value_ = np.array(cv, dtype=float)
        if isint is not None and isint.any():
            lp.integrality_ = [
                highspy.HighsVarType.kInteger if b else
                highspy.HighsVarType.kContinuous for b in isint]
        if np.any(lb > ub + 1e-9):
            return GRB.INFEASIBLE, None
        h.passModel(lp)
        if Q and a['Q'] is not None and c is None:
            H = a['Q'] * sgn
            hs = highspy.HighsHessian()
            hs.dim_ = n
            hs.format_ = highspy.HessianFormat.kTriangular
            st, ix, vv = [], [], []
            for j in range(n):
                st.append(len(ix))
                for i in range(j, n):
                    if H[i, j] != 0.:
                        ix.append(i)
                        vv.append(H[i, j])
            st.append(len(ix))
            hs.start_ = np.array(st)
            hs.index_ = np.array(ix, dtype=int)
            hs.value_ = np.array(vv)
            h.passHessian(hs)
        h.run()
        ms = h.getModelStatus()
        S = highspy.HighsModelStatus
        if ms == S.kOptimal or ms == S.kModelEmpty:
            return GRB.OPTIMAL, np.array(h.getSolution().col_value)
        if ms == S.kInfeasible:
            return GRB.INFEASIBLE, None
        if ms == S.kUnbounded:
            return GRB.UNBOUNDED, None
        if ms == S.kUnboundedOrInfeasible:
            return GRB.INF_OR_UNBD, None
        if ms == S.kTimeLimit:
            return GRB.TIME_LIMIT, None
        return 12, None

    def _solve_lp(self, a, lb, ub, sgn, extra=()):
        st, x = self._highs(a, lb, ub, None, sgn, extra)
        if st == GRB.OPTIMAL:
            return st, x
        # Disambiguate with a feasibility solve.
        st0, x0 = self._highs(a, lb, ub, None, sgn, extra, presolve="off",
                              c=np.zeros(a['n']))
        if st0 == GRB.INFEASIBLE:
            return GRB.INFEASIBLE, None
        if st == GRB.UNBOUNDED or st == GRB.INF_OR_UNBD:
            return GRB.UNBOUNDED, None
        st, x = self._highs(a, lb, ub, None, sgn, extra, presolve="off")
        return st, x

    def _objval(self, a, x):
        v = float(a['c'] @ x) + a['off']
        if a['Q'] is not None:
            v += 0.5 * float(x @ a['Q'] @ x)
        return v

    def _solve_once(self, a, lb, ub, sgn, extra=()):
        isint = a['isint']
        if not isint.any():
            return self._solve_lp(a, lb, ub, sgn, extra)
        if a['Q'] is not None:
            ids = np.nonzero(isint)[0]
            best, status = None, GRB.INFEASIBLE
            rng = [range(int(math.ceil(lb[i] - 1e-9)),
                         int(math.floor(ub[i] + 1e-9)) + 1) for i in ids]
            for combo in itertools.product(*rng):
                l2, u2 = lb.copy(), ub.copy()
                l2[ids] = combo
                u2[ids] = combo
                ok = True
                for (terms, lo, up) in extra:
                    s = sum(co * l2[i] for i, co in terms)
                    if s < lo - 1e-9 or s > up + 1e-9:
                        ok = False
                if not ok:
                    continue
                st, x = self._solve_lp(a, l2, u2, sgn)
                if st == GRB.UNBOUNDED:
                    return st, None
                if st == GRB.OPTIMAL:
                    v = sgn * self._objval(a, x)
                    if best is None or v < best[0] - 1e-12:
                        best = (v, x)
                        status = GRB.OPTIMAL
            return status, (None if best is None else best[1])
        return self._branch(a, lb, ub, sgn, extra)

    def _branch(self, a, lb, ub, sgn, extra):
        """Depth-first branch and bound over warm-started relaxations.

        (The packaged mixed-integer presolve was seen to lose optimal
        solutions of tiny programs with ties.)
        """
        ids = np.nonzero(a['isint'])[0]
        il, iu = np.ceil(lb[ids] - 1e-9), np.floor(ub[ids] + 1e-9)
        if np.any(il > iu):
            return GRB.INFEASIBLE, None
        h = self._relaxation(a, lb, ub, sgn, extra)
        S = highspy.HighsModelStatus
        cols = np.asarray(ids, dtype=np.int32)
        c = a['c'] * sgn

        def lp(lo, up):
            h.changeColsBounds(len(cols), cols, np.asarray(lo, float),
                               np.asarray(up, float))
            for opts in ({}, {}, {"simplex_strategy": 4},
                         {"simplex_scale_strategy": 0},
                         {"presolve": "on"}, {"solver": "ipm"}):
                old = [(k, h.getOptionValue(k)[1]) for k in opts]
                for k, v in opts.items():
                    h.setOptionValue(k, v)
                try:
                    h.run()
                    m = h.getModelStatus()
                    if m in (S.kOptimal, S.kModelEmpty):
                        x = np.array(h.getSolution().col_value)
                        return GRB.OPTIMAL, float(c @ x), x
                    if m == S.kInfeasible:
                        return GRB.INFEASIBLE, None, None
                    if m == S.kUnbounded:
                        return GRB.UNBOUNDED, None, None
                finally:
                    for k, v in old:
                        h.setOptionValue(k, v)
                h.clearSolver()
            raise GurobiError("relaxation not solved")

        best, bx = np.inf, None
        stack = [(il, iu, -np.inf)]
        t0 = time.time()
        while stack:
            lo, up, pb = stack.pop()
            if pb >= best - 1e-9:
                continue
            if time.time() - t0 > _BUDGET['max_nodes_time']:
                return GRB.TIME_LIMIT, bx
            st, v, x = lp(lo, up)
            if st == GRB.INFEASIBLE:
                continue
            free = np.nonzero(lo < up)[0]
            if st == GRB.UNBOUNDED:
                if not len(free):
                    return GRB.UNBOUNDED, None
                k, at, v = free[0], lo[free[0]], -np.inf
            else:
                if v >= best - 1e-9:
                    continue
                xi = np.round(x[ids])
                f = np.abs(x[ids] - xi)
                if not len(free):
                    best, bx = v, x
                    bx[ids] = xi
                    continue
                if f.max() <= 1e-7:
                    st, w, y = lp(xi, xi)
                    if st == GRB.OPTIMAL and w <= v + 1e-6 * (1 + abs(v)):
                        best, bx = w, y
                        bx[ids] = xi
                        continue
                k = free[np.argmax(f[free])]
                at = min(max(xi[k], lo[k]), up[k])
            sides = []
            for val in (at - 1., at + 1.):
                l2, u2 = lo.copy(), up.copy()
                if val < at:
                    u2[k] = val
                else:
                    l2[k] = val
                if l2[k] <= u2[k]:
                    sides.append((l2, u2, v))
            l2, u2 = lo.copy(), up.copy()
            l2[k] = u2[k] = at
            stack.extend(sides + [(l2, u2, v)])
        if bx is None:
            return GRB.INFEASIBLE, None
        return GRB.OPTIMAL, bx

    def optimize(self, callback=None):
        self._pool = []
        self._terminated = False
        self.num_optimize += 1
        a = self._arrays()
        sgn = 1. if self._sense == GRB.MINIMIZE else -1.
        lb, ub = a['lb'].copy(), a['ub'].copy()
        if np.any(lb > ub + 1e-9):
            self.status = GRB.INFEASIBLE
            return
        # HiGHS wants lb <= ub.
        ub = np.maximum(lb, ub)
        for v, i in zip(self._vars, range(a['n'])):
            if v.vtype == GRB.BINARY:
                lb[i], ub[i] = max(lb[i], 0.), min(ub[i], 1.)
        st, x = self._solve_once(a, lb, ub, sgn)
        self.status = st
        if st != GRB.OPTIMAL:
            return
        x = _clean(x)
        self._pool.append((x, self._objval(a, x)))
        ids = np.nonzero(a['isint'])[0]
        if int(self.params['PoolSearchMode']) == 2 and len(ids) > 0 and \
                callback is None:
            want = int(self.params['PoolSolutions'])
            extra = []
            while len(self._pool) < want:
                xb = self._pool[-1][0][ids]
                ones = sum(round(b) for b in xb)
                extra.append(([(int(i), 1. if round(b) == 0 else -1.)
                               for i, b in zip(ids, xb)], 1. - ones, np.inf))
                st2, x2 = self._solve_once(a, lb, ub, sgn, extra)
                if st2 != GRB.OPTIMAL:
                    break
                x2 = _clean(x2)
                self._pool.append((x2, self._objval(a, x2)))
        if callback is not None and len(ids) > 0:
            # incumbents improve one after the other, the optimum last
            found, extra = [self._pool[0]], []
            while len(found) < 3:
                xb = found[-1][0][ids]
                ones = sum(round(b) for b in xb)
                extra.append(([(int(i), 1. if round(b) == 0 else -1.)
                               for i, b in zip(ids, xb)], 1. - ones, np.inf))
                st2, x2 = self._solve_once(a, lb, ub, sgn, extra)
                if st2 != GRB.OPTIMAL:
                    break
                x2 = _clean(x2)
                found.append((x2, self._objval(a, x2)))
            for x2, o2 in reversed(found):
                self._pool = [(x2, o2)]
                self._cb = {
                    GRB.Callback.MIPNODE_STATUS: GRB.OPTIMAL,
                    GRB.Callback.MIPNODE_SOLCNT: 1,
                    GRB.Callback.MIPNODE_OBJBST: o2,
                    GRB.Callback.MIP_OBJBST: o2,
                }
                for where in (GRB.Callback.MIP, GRB.Callback.MIPNODE):
                    callback(self, where)
                if self._terminated:
                    self.status = GRB.INTERRUPTED
                    break


def _clean(x):
    """Without the last bits of rounding noise."""
    y = np.round(x * 2. ** 40) / 2. ** 40
    return np.where(np.abs(x) < 1024., y, x)


def setParam(*a):
    pass


def _install_cvxpy_alias():
    """cvxpy's solver="GUROBI" -> an installed solver."""
    try:
        import cvxpy as cp
    except ImportError:
        return
    if getattr(cp.Problem, "_nnl_alias", False):
        return
    orig = cp.Problem.solve

    def solve(self, *args, **kw):
        if str(kw.get("solver", "")).upper() == "GUROBI":
            kw["solver"] = cp.HIGHS if (self.is_mixed_integer()
                                        or self.is_lp()) else cp.CLARABEL
        return orig(self, *args, **kw)

    cp.Problem.solve = solve
    cp.Problem._nnl_alias = True


_install_cvxpy_alias()
