"""Functions and tables imported into a model give in equations and actions what they give in Python; bilinear interpolation is bilinear interpolation."""
import importlib
import math
import os
import random
import sys

import numpy as np

from nv import gen, util
from nv.harness import Invalid

RULE = ('a case is a module of compiled functions and tables imported into one or more models, whose equations and event actions call them, each evaluation compared with the same functions and '
        'equations run as Python; with each case the table interpolation was called directly for many points; distinct = distinct (functions, equations, code generators, number of models)')
NEED = ['models', 'values_compared', 'evaluations', 'functions_called', 'llvm_models', 'same_names_in_two_modules', 'tables', 'tuples_returned', 'actions', 'conditions', 'sets', 'grid_points', 'points_between',
        'points_outside', 'single_lines', 'interpolations_in_equations', 'missing_refused']
ASSUMPTIONS = ['imported functions are compiled (numba) and of numbers', 'grids of bilinear interpolation are regular: the place in the table is computed from the first and last coordinate',
               'LLVM kernels are evaluated and run from the Python solver']
CFG = dict(timeout=90, budget=400, min_cases=40)
FN = ['f', 'ff', 'g', 'f1', 'lookup', 'q', 'tab_f', 'h_', 'scale', 'T']


def cases(seed, tier):
    n = 150 if tier == 'quick' else 2400
    r = random.Random(seed * 49979687 + 22)
    for i in range(n):
        yield {'seed': r.randrange(1 << 40), 'llvm': i % 3, 'event': i % 3 == 0, 'missing': i % 10 == 7}


def grid(r):
    nx, ny = r.choice([1, 2, 3, 5, 11, 12]), r.choice([1, 2, 3, 4, 11])
    x0, dx = round(r.uniform(-3, 1), 2), r.choice([.1, .25, .3, .5, 1, .7])
    y0, dy = round(r.uniform(-3, 1), 2), r.choice([.1, .25, .3, .5, 1, 7.])
    xs = [x0 + dx * i for i in range(nx)]
    ys = [y0 + dy * i for i in range(ny)]
    return xs, ys, [[round(r.uniform(-2, 2), 2) for _ in xs] for _ in ys]


def bilinear(ix, x, y, data_def, data):
    """the same table in plain Python"""
    o = int(data_def[ix])
    nx, ny = int(data[o]), int(data[o + 1])
    xs = data[o + 6:o + 6 + nx]
    ys = data[o + 6 + nx:o + 6 + nx + ny]
    q = np.array(data[o + 6 + nx + ny:o + 6 + nx + ny + nx * ny]).reshape(ny, nx)
    return float(np.interp(y, ys, [np.interp(x, xs, row) for row in q]))


def tables(r, n):
    data, dd, gs = [], [], []
    for _ in range(n):
        xs, ys, q = grid(r)
        data += [0.5] * r.choice([0, 0, 3])
        dd.append(len(data))
        data += [float(len(xs)), float(len(ys)), xs[0], xs[-1], ys[0], ys[-1]] + xs + ys + [v for row in q for v in row]
        gs.append((xs, ys))
    return dd, data, gs


def make_module(r, names):
    """source of a module; functions as (name, arguments, values returned)"""
    dd, data, gs = tables(r, 2)
    L = ['import numpy as np', 'from numba import njit', 'from numerous.utils.interpolation.bilinear_interpolation import bilinear_interpolation', '',
         'C = %r' % gen.fl(r), 'TAB = np.array(%r)' % [gen.fl(r) for _ in range(7)], 'XS = np.array([-2.0, -0.5, 0.25, 1.0, 3.0])', 'YS = np.array(%r)' % [gen.fl(r) for _ in range(5)],
         'DEF = np.array(%r)' % (dd,), 'DATA = np.array(%r)' % (data,), '', '']
    fns = []
    for n in names:
        k = r.choice(['sin', 'tab', 'lut', 'bil', 'bil', 'loop', 'two', 'clip', 'call', 'mix'])
        if k == 'call' and not [f for f in fns if f[1] == 1 and f[2] == 1]:
            k = 'sin'
        a, b = gen.fl(r), gen.fl(r)
        if k == 'sin':
            fns.append((n, 1, 1, k)), L.extend(['@njit', 'def %s(x):' % n, '    return %r * np.sin(x) + C' % a])
        elif k == 'tab':
            fns.append((n, 1, 1, k)), L.extend(['@njit', 'def %s(x):' % n, '    return TAB[int(abs(x) * 3) %% 7] + %r' % a])
        elif k == 'lut':
            fns.append((n, 1, 1, k)), L.extend(['@njit', 'def %s(x):' % n, '    return np.interp(x, XS, YS) * %r' % a])
        elif k == 'bil':
            fns.append((n, 2, 1, k)), L.extend(['@njit', 'def %s(x, y):' % n, '    return bilinear_interpolation(%d, x, y, DEF, DATA)' % r.randrange(2)])
        elif k == 'loop':
            fns.append((n, 1, 1, k)), L.extend(['@njit', 'def %s(x):' % n, '    s = 0.0', '    for i in range(4):', '        s += np.cos(x * i) * %r' % a, '    return s'])
        elif k == 'two':
            fns.append((n, 2, 2, k)), L.extend(['@njit', 'def %s(x, y):' % n, '    return np.sin(x) + y * %r, np.cos(y) - C' % round(a / 5, 3)])
        elif k == 'clip':
            fns.append((n, 1, 1, k)), L.extend(['@njit', 'def %s(x):' % n, '    if x > 1.5:', '        return 1.5', '    if x < %r:' % -abs(a), '        return %r' % b, '    return x * 1.0'])
        elif k == 'call':
            f = r.choice([f for f in fns if f[1] == 1 and f[2] == 1])[0]
            fns.append((n, 1, 1, k)), L.extend(['@njit', 'def %s(x):' % n, '    return %s(x) - %s(x + 1)' % (f, f)])
        else:
            fns.append((n, 3, 1, k)), L.extend(['@njit', 'def %s(x, y, z):' % n, '    return np.tanh(x) * %r + np.sin(y) if z > %r else np.cos(x - y)' % (a, b)])
        L.extend(['', ''])
    return '\n'.join(L), fns


def plain(src):
    """the functions of a module in plain Python"""
    src = src.replace('from numba import njit\n', '').replace('from numerous.utils.interpolation.bilinear_interpolation import bilinear_interpolation\n', '')
    ns = {'njit': lambda f: f, 'bilinear_interpolation': bilinear}
    exec(compile(src, '<plain>', 'exec'), ns)
    return ns


def system_source(r, fns, as_set):
    one = [(f[0], f[1]) for f in fns if f[2] == 1]
    two = [(f[0], f[1]) for f in fns if f[2] == 2]
    bodies = []
    prev = []
    for k in range(r.choice([1, 1, 2])):
        outs = ['o%d%d' % (k, i) for i in range(r.choice([1, 2, 3]))]
        ins = [('a', 3.0), ('b', 3.0), ('s', 2.0)]
        body = gen.gen_body(r, ins, outs, fns=one, fns2=two, feats={'depth': 2}, size=r.randint(0, 2))
        if r.random() < .8 and one:
            # at least one direct call, nested where possible
            f, n = r.choice(one)
            g, m = r.choice(one)
            arg = lambda: r.choice(['scope.a', 'scope.b', 'scope.s', '%r' % gen.fl(r), 'scope.a * 2'])
            body.append('scope.n%d = %s(%s)' % (k, f, ', '.join([(lambda q: '%s(%s)' % (g, ', '.join(arg() for _ in range(m))))(0) if i == 0 and r.random() < .6 else arg() for i in range(n)])))
        else:
            body.append('scope.n%d = scope.a' % k)
        if k == 0:
            body += ['scope.s_dot = np.tanh(scope.n0) - scope.s', 'scope.c_dot = 1.0']
        bodies.append((outs + ['n%d' % k], body))
    L = ['import numpy as np', 'from numerous.engine.system import Item, Subsystem, ItemsStructure', 'from numerous.multiphysics import EquationBase, Equation', '', '',
         'class I(Item, EquationBase):', '    def __init__(self, tag, a, b):', '        Item.__init__(self, tag)', '        EquationBase.__init__(self, tag)',
         "        self.add_parameter('a', a)", "        self.add_parameter('b', b)", "        self.add_state('s', 0.5)", "        self.add_state('c', 0.0)", "        self.add_parameter('w', 0.0)"]
    for outs, _ in bodies:
        for o in outs:
            L.append("        self.add_parameter('%s', 0.0)" % o)
    L.append("        self.create_namespace('t').add_equation(self)")
    for k, (outs, body) in enumerate(bodies):
        L += ['', '    @Equation()', '    def eq%d(self, scope):' % k] + ['        ' + x for x in body]
    L += ['', '', 'class S(Subsystem):', '    def __init__(self, vals):', "        super().__init__('s')", "        self.register_items([I('i%d' % k, a, b) for k, (a, b) in enumerate(vals)]" + (
        ', structure=ItemsStructure.SET' if as_set else '') + ')']
    return '\n'.join(L) + '\n', bodies


def ref_eval(bodies, ns, vals):
    env = dict(ns)
    env['np'] = np
    sc = type('scope', (), {})()
    for k, v in vals.items():
        setattr(sc, k, v)
    for _, body in bodies:
        exec(compile('\n'.join(body), '<eq>', 'exec'), dict(env, scope=sc, min=min, max=max))
    return {k: float(v) for k, v in vars(sc).items()}


def direct(r, obs):
    from numerous.utils.interpolation.bilinear_interpolation import bilinear_interpolation
    dd, data, gs = tables(r, r.choice([1, 2, 3]))
    D, A = np.array(dd), np.array(data)
    for _ in range(120):
        ix = r.randrange(len(dd))
        xs, ys = gs[ix]

        def co(v):
            h = (v[-1] - v[0]) / max(len(v) - 1, 1) or 1.0
            k = r.choice(['node', 'near', 'in', 'in', 'out'])
            q = r.choice(v)
            if k == 'node':
                return q, k
            if k == 'near':
                return float(np.nextafter(q, r.choice([-1e9, 1e9]))), 'node'
            if k == 'in':
                return r.uniform(v[0], v[-1]), k
            return r.choice([v[0] - h * r.choice([1e-9, .3, 1.5, 50]), v[-1] + h * r.choice([1e-9, .3, 1.5, 50])]), k
        x, kx = co(xs)
        y, ky = co(ys)
        z = bilinear_interpolation(ix, x, y, D, A)
        w = bilinear(ix, x, y, D, A)
        obs.check(abs(z - w) < 1e-8, 'interpolation at (%r, %r) in the grid %s x %s gives %r, the bilinear interpolation is %r' % (x, y, [round(v, 3) for v in xs], [round(v, 3) for v in ys], z, w))
        obs.ev({'node': 'grid_points', 'in': 'points_between', 'out': 'points_outside'}[kx if kx == ky else 'out' if 'out' in (kx, ky) else 'in'])
        if len(xs) == 1 or len(ys) == 1:
            obs.ev('single_lines')


def run_case(p, obs):
    import warnings
    warnings.simplefilter('ignore')
    from numerous.engine.model import Model
    from numerous.engine.simulation import Simulation
    from numerous.utils.historian import InMemoryHistorian
    r = random.Random(p['seed'])
    direct(r, obs)
    scratch = os.environ.get('NV_SCRATCH', '/tmp')
    if scratch not in sys.path:
        sys.path.insert(0, scratch)
    files = []
    try:
        names = r.sample(FN, r.choice([1, 2, 3, 4]))
        mods = []
        for k in range(r.choice([1, 1, 2])):
            src, fns = make_module(r, names)
            mn = 'nvimp_%d_%d_%d' % (os.getpid(), p['seed'], k)
            files.append(os.path.join(scratch, mn + '.py'))
            with open(files[-1], 'w') as f:
                f.write(src)
            importlib.invalidate_caches()
            importlib.import_module(mn)
            mods.append((mn, fns, plain(src)))
        models = []
        for k in range(r.choice([1, 1, 2, 3])):
            mn, fns, ns = mods[k % len(mods)]
            as_set = r.random() < .3
            src, bodies = system_source(r, fns, as_set)
            sm = util.load_source(src, keep=True)
            vals = [(gen.fl(r), gen.fl(r)) for _ in range(r.choice([1, 2, 3]) if not as_set else r.choice([2, 3]))]
            llvm = [False, True, r.random() < .5][p['llvm']]
            imports = [(mn, f[0]) for f in fns]
            r.shuffle(imports)
            m = Model(sm.S(vals), use_llvm=llvm, imports=imports, historian=InMemoryHistorian())
            m.use_llvm = False
            pre = [q.rsplit('.', 1)[0] for q in m.path_to_variable if q.endswith('.t.a')]
            models.append((m, bodies, ns, fns, sorted(pre), mn))
            obs.ev('models')
            obs.ev('llvm_models', int(llvm))
            obs.ev('sets', int(as_set))
            txt = '\n'.join(x for _, b in bodies for x in b)
            for f in fns:
                if f[0] + '(' in txt:
                    obs.ev('functions_called')
                    obs.ev({'tab': 'tables', 'lut': 'tables', 'bil': 'interpolations_in_equations', 'two': 'tuples_returned'}.get(f[3], 'other_functions'))
        if len(mods) > 1 and len(models) > 1:
            obs.ev('same_names_in_two_modules')
        order = [k for k in range(len(models)) for _ in range(3)]
        r.shuffle(order)
        for n, k in enumerate(order):
            m, bodies, ns, fns, pre, mn = models[k]
            w = {}
            given = {}
            for q in pre:
                # values on and off the grids
                v = {'a': r.choice([gen.fl(r), -2.0, .25, 1.0]), 'b': r.choice([gen.fl(r), .5]), 's': gen.fl(r, -1, 1)}
                given.update({q + '.' + x: y for x, y in v.items()})
                full = dict(v, w=0.0)
                try:
                    w.update({q + '.' + x: y for x, y in ref_eval(bodies, ns, full).items()})
                except (OverflowError, ZeroDivisionError, ValueError) as e:
                    raise Invalid('Python: %s' % e)
            d, got = util.evaluate(m, given, [0.0])
            util.compare(obs, got, w, 'evaluation %d of model %d of %d' % (n, k, len(models)))
            obs.ev('evaluations')
        if p['event']:
            m, bodies, ns, fns, pre, mn = models[0]
            one = [f for f in fns if f[2] == 1]
            if one:
                f = r.choice(one)
                q = pre[0]
                args = ', '.join(r.choice(["v['%s.b']" % q, repr(gen.fl(r)), "v['%s.a']" % q]) for _ in range(f[1]))
                c = r.choice([f for f in one])
                cargs = ', '.join(['0.3'] * c[1])
                te = .5 + round(r.uniform(.05, .3), 3)
                esrc = 'def act(t, v):\n    v["%s.w"] = %s(%s) + 1\n\n\ndef cond(t, v):\n    return v["%s.c"] - %r + 0 * %s(%s)\n' % (q, f[0], args, q, te, c[0], cargs)
                em = util.load_source(esrc, keep=True)
                if r.random() < .5:
                    m.add_timestamp_event('te', em.act, [te])
                else:
                    m.add_event('se', em.cond, em.act, direction=1)
                    obs.ev('conditions')
                sim = Simulation(m, t_start=0, t_stop=1.0, num=4, max_step=.05)
                util.budget(sim)
                util.run_solver(sim.solve)
                df = m.historian_df
                tt = df['time'].values
                w = df[q + '.w'].values
                ns2 = dict(ns)
                exec(esrc, ns2)
                v = {q + '.' + x: df[q + '.' + x].values[0] for x in 'abcw'}
                ns2['act'](te, v)
                for i in range(len(tt)):
                    if tt[i] < te - 1e-3:
                        obs.check(w[i] == 0, 'the action with the imported function is seen at %r, the event is at %r' % (tt[i], te))
                    elif tt[i] > te + 1e-3:
                        obs.check(util.close(w[i], v[q + '.w'], 1e-8), 'the action wrote %r at %r, Python gives %r' % (w[i], te, v[q + '.w']))
                        obs.ev('values_compared')
                obs.ev('actions')
        if p['missing']:
            # calls of functions which are not imported are refused
            mn, fns, ns = mods[0]
            src, bodies = system_source(r, fns, False)
            used = [f[0] for f in fns if f[0] + '(' in '\n'.join(x for _, b in bodies for x in b)]
            if used:
                sm = util.load_source(src, keep=True)
                try:
                    m = Model(sm.S([(1.0, 2.0)]), use_llvm=[False, True, False][p['llvm']], imports=[(mn, f[0]) for f in fns if f[0] != used[0]] or None, historian=InMemoryHistorian())
                    util.evaluate(m, {}, [0.0])
                    ok = True
                except Exception:
                    ok = False
                obs.check(not ok, 'an equation calls %s, which is not imported, and the model gives values' % used[0])
                obs.ev('missing_refused')
    finally:
        for f in files:
            os.remove(f)
    obs.key = [names, [m[3] for m in models], p['llvm'], p['seed'] % 1000]
