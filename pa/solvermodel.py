"""Abstract model of the gurobipy and pydrake modelling interfaces.

A model is a heap cell whose lists (constraints, variable kinds, parameters) grow by the calls made on it; decision
variables are one symbolic vector; expressions are scalar normal forms; constraints are conditions on them.
"""
from .poly import Poly, P, ZERO, ONE, CTX, fresh
from . import alg
from .alg import Mat, Term
from .vals import *

T = Const('$type')


def K(s):
    return Const(s)


def is_model(c):
    return isinstance(c, DictC) and T in c.d


INF = P(10 ** 100)
GRB_CONST = {'INFINITY': INF, 'BINARY': Const('B'), 'INTEGER': Const('I'), 'CONTINUOUS': Const('C'), 'MINIMIZE': ONE,
             'MAXIMIZE': P(-1), 'LESS_EQUAL': Const('<'), 'GREATER_EQUAL': Const('>'), 'EQUAL': Const('=')}
GRB_STATUS = {'LOADED': 1, 'OPTIMAL': 2, 'INFEASIBLE': 3, 'INF_OR_UNBD': 4, 'UNBOUNDED': 5, 'CUTOFF': 6, 'ITERATION_LIMIT': 7,
              'NODE_LIMIT': 8, 'TIME_LIMIT': 9, 'SOLUTION_LIMIT': 10, 'INTERRUPTED': 11, 'NUMERIC': 12, 'SUBOPTIMAL': 13,
              'INPROGRESS': 14, 'USER_OBJ_LIMIT': 15}
DRAKE_STATUS = {'kSolutionFound': 0, 'kInvalidInput': -1, 'kInfeasibleConstraints': -2, 'kUnbounded': -3,
                'kUnknownError': -4, 'kInfeasible_Or_Unbounded': -5, 'kIterationLimit': -6, 'kDualInfeasible': -7}


def const(path):
    """Value of a constant of gurobipy or pydrake, or None."""
    ps = path.split('.')
    if ps[0] == 'gurobipy' and 'GRB' in ps[:-1]:
        rest = ps[ps.index('GRB') + 1:]
        if rest[0] in GRB_CONST and len(rest) == 1:
            return GRB_CONST[rest[0]]
        if rest[0] == 'Status' and len(rest) == 2 and rest[1] in GRB_STATUS or len(rest) == 1 and rest[0] in GRB_STATUS:
            return P(GRB_STATUS[rest[-1]])
        if rest[0] in ('Attr', 'attr', 'Param') and len(rest) == 2:
            return Const(rest[1])
    if ps[0] == 'pydrake' and len(ps) > 2 and ps[-2] == 'SolutionResult' and ps[-1] in DRAKE_STATUS:
        return P(DRAKE_STATUS[ps[-1]])
    return None


def dec_id(x):
    """Identity of the model whose decision variables occur in a term, or None."""
    if isinstance(x, tuple):
        if len(x) == 3 and x[0] == 'decvar':
            return x[1]
        for y in x:
            r = dec_id(y)
            if r is not None:
                return r
        return None
    if isinstance(x, Poly):
        return dec_id(tuple(a for mn in x.t for a, _ in mn))
    if isinstance(x, Mat):
        return dec_id(tuple(x.terms)) or dec_id(tuple(x.terms.values()))
    return None


def constr(op, x, y):
    """The constraint x op y when decision variables occur (a body and its sense), else None."""
    sense = {'LtE': '<', 'GtE': '>', 'Eq': '='}.get(op)
    if sense is None:
        return None
    dx, dy = dec_id(x), dec_id(y)
    if dx is None and dy is None:
        return None
    x = Mat.scalar(x) if isinstance(x, Poly) else x
    y = Mat.scalar(y) if isinstance(y, Poly) else y
    if dx is None:
        x, y, sense = y, x, {'<': '>', '>': '<', '=': '='}[sense]
    return Cond(('constr', sense, x - y))


def new_model(np, kind):
    I = np.I
    i = P(len(I.models))
    d = {T: Const(kind), K('n'): ZERO, K('constr'): I.new_list([]), K('vtypes'): I.new_list([]),
         K('params'): I.new_list([]), K('obj'): NONE, K('cost'): ZERO, K('prog'): NONE, K('id'): i}
    r = I.alloc(DictC(d))
    I.models.append(r)
    I.ev('model', cell=r.id, api=kind)
    return r


def model_of(np, v):
    """Model that owns the decision variable v."""
    i = dec_id(np.arrs(v)) if v is not None else None
    return np.I.models[i.as_int()] if i is not None else None


def snapshot(np, o):
    I = np.I
    d = I.cell(o).d
    obj = I.simplify(d[K('obj')])
    if obj == NONE:
        obj = Tup([d[K('cost')], NONE])
    p = I.freeze(Tup([d[T], d[K('n')], d[K('constr')], d[K('vtypes')], obj]))
    put(np, o, 'prog', p)
    return p


def prog_of(np, o):
    return np.I.simplify(np.I.cell(o).d[K('prog')])


def status(np, o):
    p = prog_of(np, o)
    return np.I.lift(lambda q: P(GRB_STATUS['LOADED']) if q == NONE else Poly.atom(('int', 'status', q)), p)


def attrval(np, o, name, what=None):
    """Attribute of a solved model (what: None) or of one of its constraints or variables."""
    I = np.I
    n = get(np, o, 'n')
    a = name.lower()

    def one(p):
        if p == NONE:
            return I.top('attribute of an unsolved model')
        if what is None:
            if a == 'status':
                return Poly.atom(('int', 'status', p))
            if a == 'solcount':
                return Poly.atom(('int', 'solcount', p))
            if a == 'objval':
                return Poly.atom(('gattr', 'objval', p))
            if a == 'x' and isinstance(n, Poly):
                return I.new_arr(Mat.fn(('gx', p), (n,)))
            if a == 'pi' or a == 'cbasis':
                return I.top('all the multipliers')
            return I.top('model attribute %s' % name)
        if a in ('pi', 'cbasis', 'x', 'slack'):
            at = ('gattr', a, p, what)
            return Poly.atom(('int',) + at if a == 'cbasis' else at)
        return I.top('attribute %s' % name)
    return I.lift(one, prog_of(np, o))


def new_expr(np, v):
    return np.I.alloc(DictC({T: Const('expr'), K('val'): v}))


def put(np, o, k, v):
    I = np.I
    d = dict(I.cell(o).d)
    d[K(k)] = v
    I.st.heap[o.id] = DictC(d)


def get(np, o, k):
    return np.I.simplify(np.I.cell(o).d[K(k)])


def scalar(np, v):
    I = np.I
    v = I.simplify(v)
    if isinstance(v, Ref) and is_model(I.cell(v)):
        return get(np, v, 'val')
    return v


def call(np, path, args, kwargs):
    I = np.I
    last = path.split('.')[-1]
    if last == 'Model':
        return new_model(np, 'grb')
    if last == 'MathematicalProgram':
        return new_model(np, 'drake')
    if last in ('LinExpr', 'QuadExpr'):
        return new_expr(np, scalar(np, args[0]) if args else ZERO)
    if last == 'quicksum':
        return np.call('builtins.sum', args, kwargs)
    if last == 'GurobiSolver':
        return Opq('solverobj', path)
    return Opq('ext', path, *[I.freeze(a) for a in args if isinstance(a, Val)])


def attr(np, o, c, name):
    I = np.I
    kind = c.d[T].v
    if kind == 'expr':
        return Method(o, name)
    if kind == 'grb':
        if name in ('status', 'Status'):
            return status(np, o)
        if name in ('objVal', 'ObjVal'):
            return attrval(np, o, 'objval')
        if name in ('x', 'X'):
            return attrval(np, o, 'x')
        if name == 'SolCount':
            return attrval(np, o, name)
        if name == 'NumVars':
            return get(np, o, 'n')
        if name == 'params' or name == 'Params':
            return Opq('params')
    return Method(o, name)


def handle_attr(np, h, name):
    """Attribute of the handle of a constraint."""
    I = np.I
    o = I.models[h.args[0].as_int()]
    return attrval(np, o, name, h.args[1])


def var_attr(np, v, name):
    o = model_of(np, v)
    if o is None:
        return None
    return attrval(np, o, name, I_scal(v))


def I_scal(v):
    return v


def set_var(np, v, name, val):
    """Change of an attribute of a decision variable."""
    o = model_of(np, v)
    if o is None:
        return
    append(np, o, 'vtypes', Tup([Const('set'), Const(name.lower()), v, np.I.freeze(val)]))


def addvars(np, o, n, lb, ub, vtype):
    I = np.I
    off = get(np, o, 'n')
    if not isinstance(n, Poly) or not isinstance(off, Poly):
        return I.top('variables')
    i = get(np, o, 'id')
    put(np, o, 'n', off + n)
    append(np, o, 'vtypes', Tup([Const('vars'), off, n, I.freeze(lb), I.freeze(ub), I.freeze(vtype)]))
    return I.new_arr(Mat.atom(('decvar', i, off), (n,)))


def append(np, o, k, v):
    I = np.I
    l = get(np, o, k)
    np.list_method(l, 'append', [v], {})


def add_constr(np, o, c, name=None):
    I = np.I
    if isinstance(c, Ref) and isinstance(I.cell(c), ArrC) and isinstance(I.cell(c).val, BVec):
        b = I.cell(c).val
        c = forall(b.n, b.v, b.c)
    if not isinstance(c, Cond):
        c = Cond(('truth', I.top('constraint')))
    name = name if name is not None else NONE
    append(np, o, 'constr', Tup([c, name]))
    return Opq('constrref', get(np, o, 'id'), I.freeze(name) if name != NONE else c)


def method(np, o, name, args, kwargs):
    I = np.I
    c = I.cell(o)
    kind = c.d[T].v
    args = [I.simplify(a) if isinstance(a, Val) else a for a in args]
    kwargs = {k: I.simplify(v) for k, v in kwargs.items()}
    if kind == 'expr':
        if name in ('add',):
            v = scalar(np, args[0])
            if len(args) > 1:
                v = I.binop('Mult', v, args[1])
            put(np, o, 'val', I.binop('Add', get(np, o, 'val'), v))
            return NONE
        if name == 'copy':
            return new_expr(np, get(np, o, 'val'))
        return I.top('expression method %s' % name)
    # gurobi
    if name in ('addVars', 'addVar') and kind == 'grb':
        names = ['lb', 'ub', 'obj', 'vtype', 'name'] if name == 'addVar' else []
        for k, v in zip(names, args):
            kwargs.setdefault(k, v)
        if 'obj' in kwargs:
            return I.top('objective coefficients')
        r = addvars(np, o, ONE if name == 'addVar' else args[0], kwargs.get('lb', ZERO), kwargs.get('ub', INF), kwargs.get('vtype', Const('C')))
        if name == 'addVar' and isinstance(r, Ref):
            return np.index(r, ZERO) if hasattr(np, 'index') else r
        return r
    if name == 'addMVar':
        return I.top('addMVar')
    if name == 'addConstr':
        return add_constr(np, o, args[0], kwargs.get('name', args[1] if len(args) > 1 else None))
    if name == 'addConstrs':
        return I.top('addConstrs')
    if name == 'setObjective':
        v = scalar(np, args[0])
        sense = kwargs.get('sense', args[1] if len(args) > 1 else NONE)
        put(np, o, 'obj', Tup([v, I.freeze(sense)]))
        return NONE
    if name == 'getVars':
        return I.new_arr(Mat.atom(('decvar', get(np, o, 'id'), ZERO), (get(np, o, 'n'),)))
    if name == 'setParam':
        append(np, o, 'params', Tup([I.freeze(a) for a in args]))
        return NONE
    if name in ('update', 'write', 'reset', 'dispose'):
        return NONE
    if name == 'optimize':
        snapshot(np, o)
        return NONE
    if name == 'getAttr':
        a = args[0].v if isinstance(args[0], Const) else '?'
        if len(args) > 1:
            return I.top('getAttr of several objects')
        return attrval(np, o, a)
    if name == 'getConstrByName':
        return Opq('constrref', get(np, o, 'id'), I.freeze(args[0]))
    if name == 'getConstrs':
        i = get(np, o, 'id')
        l = I.cell(get(np, o, 'constr'))
        if not isinstance(l, ListC) or l.segs is None:
            return I.top('getConstrs')
        one = lambda t: Opq('constrref', i, t.items[0])
        return I.alloc(ListC(tuple(One(one(s.v)) if isinstance(s, One) else Rep(s.n, s.var, one(s.val), s.cond) for s in l.segs), 'list'))
    # drake
    if name == 'NewContinuousVariables':
        return addvars(np, o, args[0], -INF, INF, Const('C'))
    if name == 'NewBinaryVariables':
        return addvars(np, o, args[0], ZERO, ONE, Const('B'))
    if name in ('AddLinearConstraint', 'AddConstraint', 'AddLinearEqualityConstraint'):
        if len(args) == 1:
            return add_constr(np, o, args[0])
        add_constr(np, o, Cond(('truth', I.top('constraint'))))
        return Opq('constr')
    if name in ('AddLinearCost', 'AddQuadraticCost', 'AddCost'):
        if len(args) == 1:
            put(np, o, 'cost', I.binop('Add', get(np, o, 'cost'), scalar(np, args[0])))
        else:
            put(np, o, 'cost', I.top('cost'))
        return NONE
    if name == 'SetSolverOption':
        append(np, o, 'params', Tup([I.freeze(a) for a in args[1:]]))
        return NONE
    if name == 'Solve':
        snapshot(np, o)
        return status(np, o)
    if name == 'GetSolution':
        n = get(np, o, 'n')
        if args and isinstance(n, Poly):
            m = np.arrs(args[0])
            if isinstance(m, Mat) and m.ndim == 1:
                return I.lift(lambda p: I.new_arr(Mat.fn(('gval', p, m), m.shape)), prog_of(np, o))
            if isinstance(m, Mat) and m.ndim == 0:
                return I.lift(lambda p: Poly.atom(('gval', p, m)), prog_of(np, o))
        return I.top('GetSolution')
    return I.top('model method %s' % name)


