"""Simulated trajectories solve the declared differential equations."""
import random

import numpy as np

from nv import gen, util
from nv.harness import Invalid

RULE = ('a case is a simulated system with at least one state whose recorded trajectory was compared at every recorded time with an '
        'independent integration (scipy DOP853) of the same source run by Python; distinct = distinct (states, items, solver method, '
        'start time, signature of the final state)')
NEED = ['trajectories_compared', 'state_rows_compared', 'method_RK45', 'method_BDF', 'method_Euler', 'sum_derivative_states', 'derivative_rows_compared',
        'closed_form_rows', 'declared_orders', 'scaled_rows', 'tiny_states', 'huge_states', 'nonzero_start', 'llvm_kernels']
ASSUMPTIONS = ['right-hand sides are continuous and the solution stays below 50 on the horizon', 'RK45 with rtol 1e-8 is compared to 1e-4, BDF and '
               'Euler with capped steps to coarser bounds: the integration schemes themselves belong to the numerous.solver package']
CFG = dict(timeout=90, budget=400, min_cases=40)

PROFS = {
    'smooth': {'ppers': 0, 'pfuncs': 0, 'nstates': [1, 1, 2, 3], 'feats': {'depth': 2, 'smooth': True}},
    'sums': {'ppers': 0, 'pfuncs': 0, 'nstates': [1, 2], 'pmap': 1.0, 'psum': .7, 'paccsum': 1.0, 'nitems': [2, 3, 4, 5],
             'feats': {'depth': 1, 'smooth': True}},
    'many': {'ppers': 0, 'pfuncs': 0, 'nstates': [2, 3], 'nitems': [4, 5, 6, 8], 'depth': [1, 2, 3], 'ncls': [2, 3], 'size': [0],
             'feats': {'depth': 1, 'smooth': True}},
}


def cases(seed, tier):
    n = 260 if tier == 'quick' else 4000
    r = random.Random(seed * 49979687 + 4)
    for k in sorted(HAND):
        for s in range(({'orders': 8, 'scales': 30}.get(k, 2)) if tier == 'quick' else 12 if k not in ('orders', 'scales') else 80):
            yield {'hand': k, 'seed': r.randrange(1 << 30)}
    names = sorted(PROFS)
    for i in range(n):
        yield {'seed': r.randrange(1 << 40), 'prof': names[i % len(names)], 'method': ['RK45', 'RK45', 'RK45', 'BDF', 'Euler'][i % 5],
               'llvm': i % 16 == 0}


def rhs(ref, spec):
    paths = list(ref.states)
    glob = [(n, v) for n, v in spec['globals']]

    def f(t, y):
        v = ref.eval(dict(zip(paths, y)), dict([('t', t)] + glob))
        return [float(v[p + '_dot']) for p in paths]
    return paths, f


TOL = {'RK45': 1e-4, 'BDF': 3e-2, 'Euler': 5e-2}


def run_case(p, obs):
    if 'hand' in p:
        obs.key = ['hand', p['hand'], p['seed'] % 1000]
        return HAND[p['hand']](obs, random.Random(p['seed']))
    import warnings
    warnings.simplefilter('ignore')
    from scipy.integrate import solve_ivp
    from numerous.engine.simulation import Simulation
    r = random.Random(p['seed'])
    spec = gen.gen_spec(p['seed'], PROFS[p['prof']])
    ref = util.ref_or_invalid(spec)
    if not ref.states:
        raise Invalid('no states')
    t0 = r.choice([0.0, 0.0, 2.0, 10.5]) if p['method'] == 'RK45' else 0.0
    t1 = t0 + r.choice([0.2, 0.5, 1.0])
    num = r.choice([3, 5, 10, 17])
    paths, f = rhs(ref, spec)
    init = dict(ref.vals)
    y0 = [float(init[q]) for q in paths]
    te = np.linspace(t0, t1, num + 1)
    with np.errstate(all='ignore'):
        # a coarse Euler run first: skip what blows up
        y = np.array(y0)
        for k in range(60):
            y = y + (t1 - t0) / 60 * np.array(f(t0 + k * (t1 - t0) / 60, y))
            if not np.all(np.abs(y) < 50):
                raise Invalid('trajectory too large')
        calls = [0]

        def counted(t, y):
            calls[0] += 1
            if calls[0] > 4000 or not np.all(np.abs(y) < 1e3):
                raise Invalid('no reference solution')
            return f(t, y)
        sol = solve_ivp(counted, (t0, t1), y0, method='DOP853', rtol=1e-9, atol=1e-10, t_eval=te)
    if not sol.success or sol.nfev > 4000 or not np.all(np.abs(sol.y) < 50):
        raise Invalid('no reference solution')
    model, top, N = util.build_model(spec, llvm=p['llvm'])
    model.use_llvm = False
    if p['llvm']:
        obs.ev('llvm_kernels')
    opts = {'RK45': dict(rtol=1e-8, atol=1e-9), 'BDF': dict(rtol=1e-7, atol=1e-8, max_step=0.01),
            'Euler': dict(max_step=0.002)}[p['method']]
    sim = Simulation(model, t_start=t0, t_stop=t1, num=num, method=p['method'], **opts)
    try:
        sim.solve()
    except ValueError as e:
        if 'dt shortened' in str(e) or 'Cannot go back' in str(e):
            raise Invalid('solver gave up: %s' % e)
        raise
    df = model.historian_df
    tt = df['time'].values
    obs.check(len(tt) == num + 1 and np.allclose(tt, te, atol=1e-9), 'recorded times %s, expected %s' % (tt[:5], te[:5]))
    fscale = max(1.0, float(np.max(np.abs(sol.y))))
    for i, q in enumerate(paths):
        got = df[q].values
        obs.check(got[0] == y0[i], 'initial value of %s is %r, declared %r' % (q, got[0], y0[i]))
        err = float(np.max(np.abs(got - sol.y[i])))
        obs.check(err <= TOL[p['method']] * fscale, '%s (%s): trajectory of %s is off by %g: got %s, reference %s' % (
            p['method'], p['prof'], q, err, got[-3:], sol.y[i][-3:]))
        obs.ev('state_rows_compared', len(got))
        if q + '_dot' in ref.targets:
            obs.ev('sum_derivative_states')
    for k in (0, len(tt) // 2, len(tt) - 1):
        d = f(tt[k], [df[q].values[k] for q in paths])
        for q, w in zip(paths, d):
            obs.check(util.agree(obs, ref, q + '_dot', df[q + '_dot'].values[k], w, 1e-6), 'derivative of %s in row %d (t=%g) is %r, expected %r' % (
                q, k, tt[k], df[q + '_dot'].values[k], w))
            obs.ev('derivative_rows_compared')
    obs.ev('trajectories_compared')
    obs.ev('method_' + p['method'])
    if t0:
        obs.ev('nonzero_start')
    obs.key = [len(paths), p['method'], t0, num, [round(float(x), 2) for x in sol.y[:, -1]][:6]]


# ---- closed forms ------------------------------------------------------------------------------------------
HEAD = '''
import numpy as np
from numerous.engine.system import Item, Subsystem
from numerous.multiphysics import EquationBase, Equation
class Mass(EquationBase, Item):
    def __init__(self, tag, x, v, m):
        Item.__init__(self, tag)
        EquationBase.__init__(self, tag)
        self.add_state('v', v)
        self.add_constant('m', m)
        self.add_parameter('F', 0.0)
        self.add_state('x', x)
        self.create_namespace('t').add_equation(self)
    @Equation()
    def eq(self, scope):
        scope.x_dot = scope.v
        scope.v_dot = scope.F / scope.m
class Spring(EquationBase, Item):
    def __init__(self, tag, k):
        Item.__init__(self, tag)
        EquationBase.__init__(self, tag)
        self.add_constant('k', k)
        self.add_parameter('x1', 0.0)
        self.add_parameter('x2', 0.0)
        self.add_parameter('F1', 0.0)
        self.add_parameter('F2', 0.0)
        self.create_namespace('t').add_equation(self)
    @Equation()
    def eq(self, scope):
        scope.F1 = scope.k * (scope.x2 - scope.x1)
        scope.F2 = -scope.F1
class Decay(EquationBase, Item):
    def __init__(self, tag, T, k, Ta):
        Item.__init__(self, tag)
        EquationBase.__init__(self, tag)
        self.add_state('T', T)
        self.add_constant('k', k)
        self.add_parameter('Ta', Ta)
        self.create_namespace('t').add_equation(self)
    @Equation()
    def eq(self, scope):
        scope.T_dot = -scope.k * (scope.T - scope.Ta)
class Clock(EquationBase, Item):
    def __init__(self, tag, w):
        Item.__init__(self, tag)
        EquationBase.__init__(self, tag)
        self.add_state('c', 0.0)
        self.add_constant('w', w)
        self.create_namespace('t').add_equation(self)
    @Equation()
    def eq(self, scope):
        scope.c_dot = np.cos(scope.w * scope.global_vars.t)
'''


def sim_of(body, llvm=False, t0=0.0, t1=1.0, num=10, classes='', **kw):
    from numerous.engine.model import Model
    from numerous.engine.simulation import Simulation
    from numerous.utils.historian import InMemoryHistorian
    src = HEAD + classes + '\nclass S(Subsystem):\n    def __init__(self):\n        super().__init__("s")\n' + '\n'.join('        ' + x for x in body) + '\n'
    m = Model(util.load_source(src).S(), use_llvm=llvm, historian=InMemoryHistorian())
    m.use_llvm = False
    kw.setdefault('rtol', 1e-8)
    kw.setdefault('atol', 1e-9)
    s = Simulation(m, t_start=t0, t_stop=t1, num=num, **kw)
    s.solve()
    return m


def masses(obs, r):
    """a chain of masses and springs against the matrix exponential; momentum and energy are conserved"""
    from scipy.linalg import expm
    n = r.randint(2, 6)
    ms = [round(r.uniform(.5, 3), 3) for _ in range(n)]
    ks = [round(r.uniform(.5, 20), 3) for _ in range(n - 1)]
    x0 = [round(r.uniform(-1, 1), 3) for _ in range(n)]
    v0 = [round(r.uniform(-1, 1), 3) for _ in range(n)]
    body = ['M = [Mass("m%%d" %% i, *a) for i, a in enumerate(%r)]' % list(zip(x0, v0, ms)),
            'K = [Spring("k%%d" %% i, k) for i, k in enumerate(%r)]' % ks]
    order = ['m%d' % i for i in range(n)] + ['k%d' % i for i in range(n - 1)]
    r.shuffle(order)
    body.append('self.register_items([%s])' % ', '.join('%s[%s]' % (o[0].upper(), o[1:]) for o in order))
    st = []
    for i in range(n - 1):
        st += ['K[%d].t.x1 = M[%d].t.x' % (i, i), 'K[%d].t.x2 = M[%d].t.x' % (i, i + 1),
               'M[%d].t.F += K[%d].t.F1' % (i, i), 'M[%d].t.F += K[%d].t.F2' % (i + 1, i)]
    r.shuffle(st)
    m = sim_of(body + st, t1=2.0, num=20, llvm=r.random() < .3)
    A = np.zeros((2 * n, 2 * n))
    A[:n, n:] = np.eye(n)
    for i, k in enumerate(ks):
        A[n + i, i] -= k / ms[i]
        A[n + i, i + 1] += k / ms[i]
        A[n + i + 1, i] += k / ms[i + 1]
        A[n + i + 1, i + 1] -= k / ms[i + 1]
    df = m.historian_df
    t = df['time'].values
    z0 = np.array(x0 + v0)
    p0 = sum(a * b for a, b in zip(ms, v0))
    e0 = None
    for j in range(len(t)):
        z = expm(A * t[j]) @ z0
        x = [df['s.m%d.t.x' % i].values[j] for i in range(n)]
        v = [df['s.m%d.t.v' % i].values[j] for i in range(n)]
        err = np.max(np.abs(np.array(x + v) - z))
        obs.check(err < 1e-4, 'mass chain at t=%g: off by %g' % (t[j], err))
        obs.check(abs(sum(a * b for a, b in zip(ms, v)) - p0) < 1e-6, 'momentum is not conserved at t=%g' % t[j])
        e = sum(a * b * b for a, b in zip(ms, v)) / 2 + sum(k * (x[i + 1] - x[i]) ** 2 for i, k in enumerate(ks)) / 2
        e0 = e if e0 is None else e0
        obs.check(abs(e - e0) < 1e-4 * max(1, e0), 'energy drifts at t=%g' % t[j])
        obs.ev('closed_form_rows')


def decays(obs, r):
    """independent exponential decays: no state borrows the rate of another"""
    n = r.randint(2, 12)
    ps = [(round(r.uniform(-5, 5), 3), round(r.uniform(.1, 4), 3), round(r.uniform(-5, 5), 3)) for _ in range(n)]
    body = ['L = [Decay("d%%d" %% i, *a) for i, a in enumerate(%r)]' % ps, 'self.register_items(L)']
    t0 = r.choice([0.0, 3.0])
    m = sim_of(body, t0=t0, t1=t0 + 1.5, num=15, llvm=r.random() < .3)
    df = m.historian_df
    t = df['time'].values
    for i, (T, k, Ta) in enumerate(ps):
        w = Ta + (T - Ta) * np.exp(-k * (t - t0))
        err = float(np.max(np.abs(df['s.d%d.t.T' % i].values - w)))
        obs.check(err < 1e-4, 'decay %d is off by %g' % (i, err))
        obs.ev('closed_form_rows', len(t))


def scales(obs, r):
    """states from 1e-12 to 1e12 and seconds to years in one model or each in their own: each trajectory is right relative to its own size"""
    n = r.randint(1, 4)
    tau = 10.0 ** r.choice([-2, 0, 0, 1, 3, 6])
    common = r.choice([None, -12, -9, -6, -3, 4, 9])
    exps = [r.choice([-12, -9, -7, -5, -3, 0, 3, 6, 12]) if common is None else common for _ in range(n)]
    ps = [tuple(float('%.4g' % x) for x in (r.uniform(1, 5) * r.choice([-1, 1]) * 10.0 ** e, r.uniform(.2, 3) / tau, r.choice([0, 0, 1]) * r.uniform(-1, 1) * 10.0 ** e)) for e in exps]
    # Euler is left out: numerous-solver sizes its first step by an absolute tolerance of 1e-3, whatever max_step says
    method, opts = 'RK45', dict(rtol=1e-8, atol=10.0 ** (min(exps) - 9), max_step=tau * .05)
    num = r.choice([5, 12])
    body = ['L = [Decay("d%%d" %% i, *a) for i, a in enumerate(%r)]' % ps, 'self.register_items(L)']
    m = sim_of(body, t1=1.5 * tau, num=num, llvm=r.random() < .3, method=method, **opts)
    df = m.historian_df
    t = df['time'].values
    obs.check(len(t) == num + 1 and abs(t[-1] - 1.5 * tau) < 1e-6 * tau, 'recorded times %s' % t)
    for i, (T, k, Ta) in enumerate(ps):
        got = df['s.d%d.t.T' % i].values
        w = Ta + (T - Ta) * np.exp(-k * t)
        err = float(np.max(np.abs(got - w))) / (abs(T) + abs(Ta))
        obs.check(err < 1e-4, '%s: a decay from %r to %r at rate %r is off by %g of its size: %s, expected %s' % (method, T, Ta, k, err, got[-3:], w[-3:]))
        obs.ev('scaled_rows', len(t))
        if abs(T) < 1e-6:
            obs.ev('tiny_states')
        if abs(T) > 1e6:
            obs.ev('huge_states')


def clocks(obs, r):
    """explicit time: the integral of cos(w t)"""
    ws = [round(r.uniform(.5, 6), 3) for _ in range(r.randint(1, 5))]
    body = ['L = [Clock("c%%d" %% i, w) for i, w in enumerate(%r)]' % ws, 'self.register_items(L)']
    t0 = r.choice([0.0, 0.0, 1.0, 7.0])
    m = sim_of(body, t0=t0, t1=t0 + 3.0, num=30)
    df = m.historian_df
    t = df['time'].values
    for i, w in enumerate(ws):
        want = (np.sin(w * t) - np.sin(w * t0)) / w
        err = float(np.max(np.abs(df['s.c%d.t.c' % i].values - want)))
        obs.check(err < 1e-3, 'integral of cos(%g t) from %g is off by %g' % (w, t0, err))
        obs.ev('closed_form_rows', len(t))


def orders(obs, r):
    """states and derivatives declared in any order, by one or several equation objects: each state has the rate of its own derivative"""
    n = r.randint(2, 5)
    rates = [round(r.uniform(-3, 3), 3) for _ in range(n)]
    cls, objs = [], []
    for k in range(r.randint(1, 3)):
        decl = []
        for i in range(n):
            how = r.choice(['full', 'apart', 'none', 'constant', 'parameter'] if k else ['full', 'apart', 'apart'])
            if how == 'full':
                decl.append((r.random(), "self.add_state('x%d', 0.0)" % i))
            elif how == 'apart':
                decl += [(r.random(), "self.add_state('x%d', 0.0, create_derivative=False)" % i), (r.random(), "self.add_derivative('x%d')" % i)]
            elif how != 'none':
                decl.append((r.random(), "self.add_%s('x%d', 0.0)" % (how, i)))
        eqs = ['scope.x%d_dot = %r' % (i, rates[i]) for i in range(n)] if not k else ['scope.q%d = 1.0' % k]
        r.shuffle(eqs)
        cls += ['class E%d(EquationBase):' % k, '    def __init__(self):', "        super().__init__('e%d')" % k]
        cls += ['        ' + d for _, d in sorted(decl)] + (["        self.add_parameter('q%d', 0.0)" % k] if k else []) + ['    @Equation()', '    def f%d(self, scope):' % k]
        cls += ['        ' + e for e in eqs] + ['']
        objs.append('E%d()' % k)
    r.shuffle(objs)
    body = ['self.register_items([Y("y%d") for i in range(2)])'.replace('"y%d"', '"y%d" % i')]
    cls += ['class Y(Item):', '    def __init__(self, tag):', '        super().__init__(tag)', "        self.create_namespace('t').add_equations([%s])" % ', '.join(objs), '']
    m = sim_of(body, t1=1.0, num=4, llvm=r.random() < .3, classes='\n'.join(cls))
    df = m.historian_df
    for i in range(n):
        for j in range(2):
            got = df['s.y%d.t.x%d' % (j, i)].values
            obs.check(float(np.max(np.abs(got - rates[i] * df['time'].values))) < 1e-6, 'x%d has the rate %r rather than %r' % (i, got[-1], rates[i]))
            obs.ev('declared_orders')


HAND = {f.__name__: f for f in (masses, decays, scales, clocks, orders)}
