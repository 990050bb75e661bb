"""C01: calls leave the data of the caller untouched (effect analysis of every public construct)."""
from pa.check import *
from pa.programs import cheap_handlers

M = mat
SV = 'pympc.optimization.solvers.'
GU, PL = 'pympc.geometry.utils.', 'pympc.plot.'
DM = 'pympc.dynamics.discretization_methods.'
GP = 'pympc.geometry.polyhedron.'
ADD = ('A', 'b', 'C', 'd')


CASES = []       # every public construct with its arguments, also used by C20


def effects(k, I, pre, stor, ev0, receiver, allowed, what, done=True):
    """No event after ev0 writes to a cell of pre or a storage of stor (except the allowed fields of the receiver)."""
    seen = set()
    n = 0
    for e in I.events[ev0:]:
        bad = None
        if e.kind == 'warray':
            n += 1
            hit = sorted(str(x) for x in e.storage & stor)
            if hit:
                bad = 'overwrites entries of an array the caller holds (%s, %s)' % (e.how, hit[0])
        elif e.kind == 'wcell':
            n += 1
            if e.cell in pre:
                bad = 'modifies a %s of the caller (%s)' % (e.what, e.name)
        elif e.kind == 'wfield':
            n += 1
            if e.cell in pre and not str(e.field).startswith('_') and not (e.cell == receiver and e.field in allowed):
                old = pre[e.cell]
                was = old.f.get(e.field) if isinstance(old, ObjC) else None
                if was is None or not same_value(I, was, e.value):
                    bad = 'changes the attribute %s of %s' % (e.field, 'its receiver' if e.cell == receiver else 'another object')
        if bad and (e.fn, bad) not in seen:
            seen.add((e.fn, bad))
            k.violation('%s in %s' % (bad.split(' (')[0], e.fn), e.fn, 'called from %s, line %s of %s %s' % (what, e.site, e.fn, bad), {'stack': e.stack})
    if not seen and done:
        k.ok('no effect on the caller (%d writes examined, %d functions entered)' % (n, len({e.callee for e in I.events[ev0:] if e.kind in ('enter', 'call')})))


def same_value(I, a, b):
    try:
        return a == b or I.freeze(a) == I.freeze(b)
    except Exception:
        return False


def pure(name, anchor, setup, go, allowed=(), opaque=None, limit=100, thorough=False):
    """setup(I) -> tuple of arguments (the first one is the receiver of a method); go(I, *args) -> Result."""
    CASES.append((name, anchor, setup, go, opaque, thorough))

    @ob('C01', name, [anchor], limit=limit, thorough=thorough)
    def _(k):
        h = opaque() if callable(opaque) else opaque
        I = k.interp(dict(cheap_handlers(), **(h or {})))
        args = setup(I)
        if not isinstance(args, tuple):
            args = (args,)
        rec = args[0].id if args and isinstance(args[0], Ref) else None
        pre = dict(I.st.heap)
        stor = frozenset().union(*[c.st for c in pre.values() if isinstance(c, ArrC)] or [frozenset()])
        stor = stor | family_storage(I, pre)
        ev0 = len(I.events)
        done = False
        try:
            go(I, *args)
            done = True
        finally:
            k.note(I)
            effects(k, I, pre, stor, ev0, rec, allowed, name, done)


def family_storage(I, pre):
    out = set()

    def walk(v, seen):
        if id(v) in seen:
            return
        seen[id(v)] = v
        if isinstance(v, FArr):
            out.update(v.st)
        elif isinstance(v, FObj):
            for _, x in v.items:
                walk(x, seen)
        elif isinstance(v, (tuple, list)):
            for x in v:
                walk(x, seen)
        elif isinstance(v, Rep):
            walk(v.val, seen)
        elif isinstance(v, Tup):
            walk(tuple(v.items), seen)
    for c in pre.values():
        if isinstance(c, ListC) and c.segs:
            walk(list(c.segs), {})
    return frozenset(out)


def meth(name, **kw):
    return lambda I, o, *a: method(I, o, name, *a, **kw)


def prop(name):
    return lambda I, o, *a: run(I, lambda: I.getattr(o, name))


def fun(qual, **kw):
    return lambda I, *a: run(I, I.prog.find(qual), *a, **kw)


def ctor(qual):
    return lambda I, *a: new(I, qual, *a)


def filled(I, eq=True, pre='P'):
    """A polyhedron that has been queried: remembered facts are arrays and lists of its own."""
    o = poly(I, eq, pre=pre)
    f = I.cell(o).f
    vals = {'_empty': FALSE, '_bounded': TRUE, '_radius': scalar('rad'), '_center': M(I, pre + 'cen', nx),
            '_vertices': I.new_list([One(M(I, pre + 'v%d' % i, nx)) for i in range(3)])}
    for a, v in vals.items():
        if a in f:
            I.setattr(o, a, v)
    return o


# ------------------------------------------------------------------ polyhedra
for eq in (False, True):
    t = ' equalities' if eq else ''
    pure('Polyhedron' + t, PO + '.__init__', lambda I, eq=eq: (M(I, 'A', m, nx), M(I, 'b', m)) + ((M(I, 'C', p, nx), M(I, 'd', p)) if eq else ()), ctor(PO))
    for a in ('add_inequality', 'add_equality'):
        for ix in (False, True):
            pure('%s%s%s' % (a, t, ' indices' if ix else ''), PO + '.' + a,
                 lambda I, eq=eq, ix=ix: (filled(I, eq), M(I, 'G', s, q if ix else nx), M(I, 'g', s)) + ((indices(I, q, nx),) if ix else ()), meth(a), ADD)
    for a in ('add_lower_bound', 'add_upper_bound'):
        for ix in (False, True):
            pure('%s%s%s' % (a, t, ' indices' if ix else ''), PO + '.' + a,
                 lambda I, eq=eq, ix=ix: (filled(I, eq), M(I, 'l', q if ix else nx)) + ((indices(I, q, nx),) if ix else ()), meth(a), ADD)
    pure('add_bounds' + t, PO + '.add_bounds', lambda I, eq=eq: (filled(I, eq), M(I, 'l', nx), M(I, 'h', nx)), meth('add_bounds'), ADD)
    pure('normalize' + t, PO + '.normalize', lambda I, eq=eq: filled(I, eq), meth('normalize'), ADD)
    pure('remove_redundant_inequalities' + t, PO + '.remove_redundant_inequalities', lambda I, eq=eq: filled(I, eq), meth('remove_redundant_inequalities'), ADD)
    for w, mk in (('', poly), (' remembered', filled)):
        for q1 in ('empty', 'bounded', 'radius', 'center', 'vertices'):
            pure(q1 + t + w, PO + '.' + q1, lambda I, eq=eq, mk=mk: mk(I, eq), prop(q1))
        pure('minimal_facets' + t + w, PO + '.minimal_facets', lambda I, eq=eq, mk=mk: mk(I, eq), meth('minimal_facets'))
        pure('contains' + t + w, PO + '.contains', lambda I, eq=eq, mk=mk: (mk(I, eq), M(I, 'x', nx)), meth('contains'))
        for a in ('is_included_in', 'intersection', 'cartesian_product'):
            pure(a + t + w, PO + '.' + a, lambda I, eq=eq, mk=mk: (mk(I, eq), mk(I, eq, pre='Q')), meth(a))
        pure('inequality_form' + t + w, PO + '.inequality_form', lambda I, eq=eq, mk=mk: mk(I, eq), meth('inequality_form'))
        pure('project_to' + t + w, PO + '.project_to', lambda I, eq=eq, mk=mk: (mk(I, eq), I.new_list([One(ZERO), One(ONE)])), meth('project_to'))
        pure('plot' + t + w, PO + '.plot', lambda I, eq=eq, mk=mk: (mk(I, eq), I.new_list([One(ZERO), One(ONE)])), meth('plot'))
for a, n in (('from_lower_bound', 1), ('from_upper_bound', 1), ('from_bounds', 2)):
    pure(a, PO + '.' + a, lambda I, n=n: tuple(M(I, 'l%d' % i, nx) for i in range(n)), fun(PO + '.' + a))
    pure(a + ' indices', PO + '.' + a, lambda I, n=n: tuple(M(I, 'l%d' % i, q) for i in range(n)) + (indices(I, q, nx), nx), fun(PO + '.' + a))
pure('from_convex_hull', PO + '.from_convex_hull', lambda I: I.new_list([One(M(I, 'v%d' % i, nx)) for i in range(3)]), fun(PO + '.from_convex_hull'))
sym = lambda I, e='e': (Opq('symvec', 'x', nx), Opq('symexpr', e, s))
pure('from_symbolic', PO + '.from_symbolic', lambda I: sym(I) + (Opq('symexpr', 'e2', s),), fun(PO + '.from_symbolic'))
for a in ('add_symbolic_inequality', 'add_symbolic_equality'):
    pure(a, PO + '.' + a, lambda I: (filled(I),) + sym(I), meth(a), ADD)
for n in (1, 2, 3):
    pure('convex_hull_method %d' % n, GP + 'convex_hull_method', lambda I, n=n: (M(I, 'A', m, P(4)), M(I, 'b', m), I.new_list([One(P(i)) for i in range(n)])), fun(GP + 'convex_hull_method'), thorough=n == 3)

# ------------------------------------------------------------------ geometry utilities
pure('nullspace_basis', GU + 'nullspace_basis', lambda I: M(I, 'A', m, nx), fun(GU + 'nullspace_basis'))
pure('linearly_independent_rows', GU + 'linearly_independent_rows', lambda I: M(I, 'A', m, nx), fun(GU + 'linearly_independent_rows'))
for n in (2, 3):
    pure('plane_through_points %d' % n, GU + 'plane_through_points', lambda I, n=n: I.new_list([One(M(I, 'v%d' % i, P(n))) for i in range(n)]), fun(GU + 'plane_through_points'))
for nrm in (True, False):
    pure('same_rows normalize=%s' % nrm, GU + 'same_rows', lambda I, nrm=nrm: (M(I, 'A', m, nx), M(I, 'B', m, nx), cbool(nrm)), fun(GU + 'same_rows'))
    pure('same_rows of two rows normalize=%s' % nrm, GU + 'same_rows', lambda I, nrm=nrm: (M(I, 'A', P(2), nx), M(I, 'B', P(2), nx), cbool(nrm)), fun(GU + 'same_rows'))
pure('same_vectors', GU + 'same_vectors', lambda I: (I.new_list([One(M(I, 'v%d' % i, nx)) for i in range(2)]), I.new_list([One(M(I, 'w%d' % i, nx)) for i in range(2)])), fun(GU + 'same_vectors'))

# ------------------------------------------------------------------ systems
pure('LinearSystem', DS + 'LinearSystem.__init__', lambda I: (M(I, 'A', nx, nx), M(I, 'B', nx, nu)), ctor(DS + 'LinearSystem'))
pure('AffineSystem', DS + 'AffineSystem.__init__', lambda I: (M(I, 'A', nx, nx), M(I, 'B', nx, nu), M(I, 'c', nx)), ctor(DS + 'AffineSystem'))
for cls, mk in (('LinearSystem', lin), ('AffineSystem', aff)):
    c = (lambda I: ()) if mk is lin else (lambda I: (M(I, 'c', nx),))
    pure(cls + '.simulate', DS + cls + '.simulate', lambda I, mk=mk: (mk(I), M(I, 'x0', nx), us(I)), meth('simulate'))
    pure(cls + '.condense', DS + cls + '.condense', lambda I, mk=mk: (mk(I), N), meth('condense'))
    for mth in ('zero_order_hold', 'explicit_euler'):
        pure('%s.from_continuous %s' % (cls, mth), DS + cls + '.from_continuous', lambda I, c=c, mth=mth: (M(I, 'A', nx, nx), M(I, 'B', nx, nu)) + c(I) + (scalar('h'), Const(mth)), fun(DS + cls + '.from_continuous'))
        pure('%s.from_symbolic_continuous %s' % (cls, mth), DS + cls + '.from_symbolic_continuous',
             lambda I, mth=mth: (Opq('symvec', 'x', nx), Opq('symvec', 'u', nu), Opq('symexpr', 'e', nx), scalar('h'), Const(mth)), fun(DS + cls + '.from_symbolic_continuous'))
    pure(cls + '.from_symbolic', DS + cls + '.from_symbolic', lambda I: (Opq('symvec', 'x', nx), Opq('symvec', 'u', nu), Opq('symexpr', 'e', nx)), fun(DS + cls + '.from_symbolic'))
pure('simulate_closed_loop', DS + 'LinearSystem.simulate_closed_loop', lambda I: (lin(I), M(I, 'x0', nx), N, M(I, 'K', nu, nx)), meth('simulate_closed_loop'))
pure('solve_dare', DS + 'LinearSystem.solve_dare', lambda I: (lin(I), M(I, 'Q', nx, nx), M(I, 'R', nu, nu)), meth('solve_dare'))
pure('controllable', DS + 'LinearSystem.controllable', lin, prop('controllable'))
for eq in (False, True):
    pure('LinearSystem.mcais%s' % (' equalities' if eq else ''), DS + 'LinearSystem.mcais', lambda I, eq=eq: (lin(I), M(I, 'K', nu, nx), poly(I, eq, n=nx + nu)), meth('mcais'))
    pure('mcais%s' % (' equalities' if eq else ''), DS + 'mcais', lambda I, eq=eq: (M(I, 'A', nx, nx), filled(I, eq)), fun(DS + 'mcais'))
for x in ('zero_order_hold', 'explicit_euler'):
    pure(x, DM + x, lambda I: (M(I, 'A', nx, nx), M(I, 'B', nx, nu), M(I, 'c', nx), scalar('h')), fun(DM + x))


def pwa_args(I, linear=True):
    S = [lin(I), aff(I)] if linear else [aff(I), new(I, DS + 'AffineSystem', M(I, 'A2', nx, nx), M(I, 'B2', nx, nu), M(I, 'c2', nx)).val]
    D = [filled2(I, 'P'), filled2(I, 'Q')]
    return I.new_list([One(x) for x in S]), I.new_list([One(x) for x in D])


def filled2(I, pre):
    return poly(I, True, n=nx + nu, pre=pre)


def pwa(I):
    return new(I, DS + 'PieceWiseAffineSystem', *pwa_args(I, False)).val


PW = DS + 'PieceWiseAffineSystem'
pure('PieceWiseAffineSystem', PW + '.__init__', pwa_args, ctor(PW))
pure('PieceWiseAffineSystem affine', PW + '.__init__', lambda I: pwa_args(I, False), ctor(PW))
pure('PWA.condense', PW + '.condense', lambda I: (pwa(I), I.new_list([One(ZERO), One(ONE), One(ZERO)])), meth('condense'))
pure('PWA.simulate', PW + '.simulate', lambda I: (pwa(I), M(I, 'x0', nx), I.new_list([One(M(I, 'u%d' % i, nu)) for i in range(2)])), meth('simulate'))
pure('PWA.get_mode', PW + '.get_mode', lambda I: (pwa(I), M(I, 'x', nx), M(I, 'u', nu)), meth('get_mode'))
pure('PWA.is_well_posed', PW + '.is_well_posed', lambda I: pwa(I), meth('is_well_posed'), opaque=geo_handlers)
pure('PWA.is_well_posed, queries analysed', PW + '.is_well_posed', lambda I: pwa(I), meth('is_well_posed'))
pure('condense_pwa_system', DS + 'condense_pwa_system', lambda I: (pwa_args(I, False)[0], I.new_list([One(ZERO), One(ONE)])), fun(DS + 'condense_pwa_system'))
pure('productory', DS + 'productory', lambda I: I.new_list([One(M(I, 'm%d' % i, nx, nx)) for i in range(3)]), fun(DS + 'productory'))
pure('get_state_transition_matrices', DS + 'get_state_transition_matrices', lambda I: (Opq('symvec', 'x', nx), Opq('symvec', 'u', nu), Opq('symexpr', 'e', nx)), fun(DS + 'get_state_transition_matrices'))

# ------------------------------------------------------------------ programs and solvers
ROLES = {'linear_program': ('f', 'A', 'b'), 'quadratic_program': ('H', 'f', 'A', 'b'), 'mixed_integer_quadratic_program': ('nc', 'H', 'f', 'A', 'b')}


def parg(fn, eq):
    def f(I):
        a = {'nc': dim('nc', 0), 'H': M(I, 'H', nx, nx), 'f': M(I, 'f', nx), 'A': M(I, 'A', m, nx), 'b': M(I, 'b', m)}
        return tuple(a[r] for r in ROLES[fn]) + ((M(I, 'C', p, nx), M(I, 'd', p)) if eq else ())
    return f


for mod in ('pnnls', 'gurobi', 'drake', ''):
    for fn in ROLES:
        if mod == 'pnnls' and fn.startswith('mixed'):
            continue
        for eq in (False, True):
            qn = (SV + mod + '.' if mod else PR) + fn
            pure('%s %s%s' % (mod or 'programs', fn, ' equalities' if eq else ''), qn, parg(fn, eq), fun(qn), opaque={PR + x: None for x in ROLES})
pure('pnnls', SV + 'pnnls.pnnls', lambda I: (M(I, 'A', m, nx), M(I, 'B', m, nu), M(I, 'c', m)), fun(SV + 'pnnls.pnnls'))

# ------------------------------------------------------------------ parametric programs and controllers
MPQ = PP + 'MultiParametricQuadraticProgram'


def mpqp_args(I):
    return (dic(I, uu=M(I, 'Huu', nu, nu), ux=M(I, 'Hux', nu, nx), xx=M(I, 'Hxx', nx, nx)), dic(I, u=M(I, 'fu', nu), x=M(I, 'fx', nx)),
            M(I, 'g'), dic(I, u=M(I, 'Au', m, nu), x=M(I, 'Ax', m, nx)), M(I, 'b', m))


def cr(I, pre=''):
    return new(I, PP + 'CriticalRegion', I.new_list([One(ZERO)]), dic(I, **{'x': M(I, pre + 'ux', nu, nx), '0': M(I, pre + 'u0', nu)}),
               dic(I, **{'x': M(I, pre + 'px', m, nx), '0': M(I, pre + 'p0', m)}), dic(I, **{'xx': M(I, pre + 'Vxx', nx, nx), 'x': M(I, pre + 'Vx', nx), '0': scalar(pre + 'V0')}),
               filled(I, False, pre + 'R')).val


def expl(I):
    return new(I, PP + 'ExplicitSolution', I.new_list([One(cr(I)), One(cr(I, 'k'))])).val


pure('MultiParametricQuadraticProgram', MPQ + '.__init__', mpqp_args, ctor(MPQ))
pure('explicit_solve_given_active_set', MPQ + '.explicit_solve_given_active_set', lambda I: (mpqp(I), active_set(I)), meth('explicit_solve_given_active_set'))
pure('explicit_solve_given_active_set empty', MPQ + '.explicit_solve_given_active_set', lambda I: (mpqp(I), I.new_list([])), meth('explicit_solve_given_active_set'))
pure('explicit_solve_given_point', MPQ + '.explicit_solve_given_point', lambda I: (mpqp(I), M(I, 'x', nx), I.new_list([One(ZERO)])), meth('explicit_solve_given_point'))
pure('explicit_solve_given_point no guess', MPQ + '.explicit_solve_given_point', lambda I: (mpqp(I), M(I, 'x', nx)), meth('explicit_solve_given_point'))
pure('mpqp.solve', MPQ + '.solve', lambda I: (mpqp(I), M(I, 'x', nx)), meth('solve'))
pure('explicit_solve', MPQ + '.explicit_solve', lambda I: mpqp(I), meth('explicit_solve'))
pure('get_feasible_set', MPQ + '.get_feasible_set', lambda I: mpqp(I), meth('get_feasible_set'))
for a in ('u', 'p', 'V', 'contains'):
    pure('CriticalRegion.' + a, PP + 'CriticalRegion.' + a, lambda I: (cr(I), M(I, 'x', nx)), meth(a))
for a in ('A', 'b'):
    pure('CriticalRegion.' + a, PP + 'CriticalRegion.' + a, lambda I: cr(I), prop(a))
pure('CriticalRegion.minimal_facets', PP + 'CriticalRegion.minimal_facets', lambda I: cr(I), meth('minimal_facets'))
pure('CriticalRegion.facet_center', PP + 'CriticalRegion.facet_center', lambda I: (cr(I), ONE), meth('facet_center'))
for a in ('u', 'p', 'V', 'get_critical_region'):
    pure('ExplicitSolution.' + a, PP + 'ExplicitSolution.' + a, lambda I: (expl(I), M(I, 'x', nx)), meth(a))
MI = PP + 'MultiParametricMixedIntegerQuadraticProgram'
pure('mpmiqp.solve', MI + '.solve', lambda I: (mpmiqp(I), M(I, 'x', nx)), meth('solve'))

MP, HY = CC + 'ModelPredictiveController', CC + 'HybridModelPredictiveController'
mset = lambda I: (M(I, 'Q', nx, nx), M(I, 'R', nu, nu), M(I, 'P', nx, nx))
pure('ModelPredictiveController', MP + '.__init__', lambda I: (lin(I), N) + mset(I) + (poly(I, True, n=nx + nu), term_set(I)), ctor(MP))


def mpc_x(I, n=None):
    c = mpc(I).val
    I.setattr(c, 'explicit_solution', expl(I))
    return c


for a in ('feedforward', 'feedback'):
    pure('MPC.' + a, MP + '.' + a, lambda I: (mpc(I).val, M(I, 'x', nx)), meth(a))
    pure('MPC.%s_explicit' % a, MP + '.%s_explicit' % a, lambda I: (mpc_x(I), M(I, 'x', nx)), meth(a + '_explicit'))
pure('MPC.store_explicit_solution', MP + '.store_explicit_solution', lambda I: mpc(I).val, meth('store_explicit_solution'), ('explicit_solution',),
     opaque={MPQ + '.explicit_solve': lambda I, fi, env: expl(I)})
pure('MPC.plot_state_space_partition', MP + '.plot_state_space_partition', lambda I: mpc_x(I), meth('plot_state_space_partition', print_active_set=TRUE))
pure('MPC.plot_optimal_value_function', MP + '.plot_optimal_value_function', lambda I: mpc_x(I), meth('plot_optimal_value_function'),
     opaque={MPQ + '.get_feasible_set': lambda I, fi, env: filled(I, False, 'F')})
pure('HybridModelPredictiveController', HY + '.__init__', lambda I: (pwa(I), P(2)) + mset(I) + (term_set(I),), ctor(HY))


def hyb2(I):
    return new(I, HY, pwa(I), P(2), *(mset(I) + (term_set(I),))).val


for a in ('feedforward', 'feedback'):
    pure('HybridMPC.' + a, HY + '.' + a, lambda I: (hyb2(I), M(I, 'x', nx)), meth(a))
pure('HybridMPC.get_mpqp', HY + '.get_mpqp', lambda I: (hyb2(I), I.new_list([One(ZERO), One(ONE)])), meth('get_mpqp'))
pure('condense_optimal_control_problem', CC + 'condense_optimal_control_problem', lambda I: (pwa(I),) + mset(I) + (term_set(I), I.new_list([One(ZERO), One(ONE)])), fun(CC + 'condense_optimal_control_problem'))

# ------------------------------------------------------------------ plots
traj = lambda I, n: I.new_list([One(M(I, 'x%d' % i, P(2))) for i in range(n)])
bnds = lambda I: Tup([M(I, 'lo', P(2)), M(I, 'hi', P(2))])
pure('plot_state_space_trajectory', PL + 'plot_state_space_trajectory', lambda I: (traj(I, 3), I.new_list([One(ZERO), One(ONE)]), TRUE), fun(PL + 'plot_state_space_trajectory'))
pure('plot_input_sequence', PL + 'plot_input_sequence', lambda I: (traj(I, 3), scalar('h'), bnds(I)), fun(PL + 'plot_input_sequence'))
pure('plot_state_trajectory', PL + 'plot_state_trajectory', lambda I: (traj(I, 3), scalar('h'), bnds(I)), fun(PL + 'plot_state_trajectory'))
pure('plot_output_trajectory', PL + 'plot_output_trajectory', lambda I: (M(I, 'C', P(2), P(2)), traj(I, 3), scalar('h'), bnds(I)), fun(PL + 'plot_output_trajectory'))
