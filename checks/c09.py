"""Externally mapped variables follow their tables."""
import os
import random

import numpy as np
import pandas as pd

from nv import util
from nv.harness import Invalid

RULE = ('a case is a simulation with variables mapped to table columns; every recorded row of every mapped variable, of everything computed '
        'from it and of everything not mapped was compared with the table; distinct = distinct (tables, columns, interpolation kinds, '
        'multiplier, start row, driver, loader)')
NEED = ['mapped_rows', 'linear_rows', 'step_rows', 'derived_rows', 'unmapped_rows', 'two_tables', 'prefix_names', 'multipliers', 'start_rows',
        'late_start', 'set_later', 'resets', 'stepped', 'llvm_kernels', 'nested_systems', 'zero_values', 'integrals', 'constant_columns', 'unequal_tables', 'small_changes']
ASSUMPTIONS = ['times of a table increase strictly; simulated times lie between its first and last row']
CFG = dict(timeout=90, budget=300, min_cases=80)

HEAD = '''
from numerous.multiphysics import EquationBase, Equation
from numerous.engine.system import Item, Subsystem
from numerous.engine.system.external_mappings import ExternalMappingElement, InterpolationType


class Feed(EquationBase, Item):
    def __init__(self, tag, names, init):
        Item.__init__(self, tag)
        EquationBase.__init__(self, tag)
        for i, n in enumerate(names):
            self.add_parameter(n, init[i])
        self.add_parameter('free', 41.5)
        self.add_parameter('total', 0.0)
        self.add_parameter('twice', 0.0)
        self.add_state('x', 0.0)
        self.create_namespace('t').add_equation(self)
'''


def cases(seed, tier):
    n = 200 if tier == 'quick' else 3000
    r = random.Random(seed * 15487469 + 9)
    for i in range(n):
        yield {'seed': r.randrange(1 << 40), 'llvm': i % 12 == 0, 'drive': ['solve', 'solve', 'step', 'reset', 'later'][i % 5],
               'csv': False}


def build(r, p):
    """-> everything a case needs: sources, tables, expectations"""
    c = {}
    pool = [['u', 'u1', 'u11', 'v'], ['T', 'T_in', 'T_in2'], ['a', 'b'], ['q']]
    names = r.choice(pool)
    names = names[:r.randint(1, len(names))]
    c['init'] = [r.choice([0.0, 5.0, -3.25, 100.0]) for _ in names]
    eq = 'scope.total = ' + ' + '.join('%d * scope.%s' % (i + 2, n) for i, n in enumerate(names))
    first = names[0]
    c['items'] = r.choice([['f'], ['f', 'f1'], ['f', 'g', 'f_in']])
    c['nested'] = r.random() < .4
    src = HEAD + '    @Equation()\n    def eq(self, scope):\n        %s\n        scope.twice = 2 * scope.total\n        scope.x_dot = scope.%s\n' % (eq, first)
    ntab = r.choice([1, 1, 2, 2, 3])
    nrows = [r.choice([2, 3, 5, 11, 30])] * ntab
    if r.random() < .4:
        nrows = [r.choice([2, 3, 5, 11, 30]) for _ in range(ntab)]
    span = nrows[0] - 1
    mult = [r.choice([1, 1, 1, 0.5, 1 / 1024., 2048] if p.get('dyadic') else [1, 1, 1, 0.5, 60, 3600.0]) for _ in range(ntab)]
    start = [r.choice([0, 0, 0, 1, 2]) if n > 3 else 0 for n in nrows]
    c.update(names=names, src=src, first=first)
    prefix = 's.mid.' if c['nested'] else 's.'
    paths = [prefix + it + '.t.' + n for it in c['items'] for n in names]
    r.shuffle(paths)
    mapped = paths[:max(1, r.randint(len(paths) // 2, len(paths)))]
    if ntab > len(mapped):
        ntab = len(mapped)
    cut = [0] + sorted(r.sample(range(1, len(mapped)), ntab - 1)) + [len(mapped)]
    same = len(set(nrows)) == 1
    uniform = r.random() < .6
    step = r.choice([0.25, 0.5, 1.0])
    t0 = r.choice([0.0, 0.0, 2.0])
    tables = []
    for k in range(ntab):
        # all tables reach over the same time, in their own unit
        nrow = nrows[k]
        if (uniform and same) or nrow < 3:
            tt = np.linspace(t0, t0 + step * span, nrow)
        else:
            inner = sorted(round(r.uniform(.03, .97), 2) for _ in range(nrow - 2))
            if len(set(inner)) < len(inner):
                inner = [round((i + 1) / (nrow - 1.0), 3) for i in range(nrow - 2)]
            tt = t0 + step * span * np.array([0.0] + inner + [1.0])
        cols = mapped[cut[k]:cut[k + 1]]
        al = {}
        data = {'time': tt / mult[k]}
        for j, path in enumerate(cols):
            kind = r.choice(['lin', 'step'])
            how = r.choice(['rand', 'rand', 'zero', 'const', 'ramp', 'offset', 'tiny'])
            y = {'rand': [round(r.uniform(-9, 9), 3) for _ in range(nrow)], 'zero': [0.0] * nrow, 'const': [round(r.uniform(-9, 9), 3)] * nrow,
                 'ramp': [1.5 * i for i in range(nrow)],
                 # changes that are small beside the values, or beside 1
                 'offset': [r.choice([1e5, 1e7]) + round(r.uniform(-.2, .2), 3)] * nrow, 'tiny': [r.uniform(-9, 9) * 1e-12 for _ in range(nrow)]}[how]
            if how == 'offset':
                y = [v + round(r.uniform(-.2, .2), 3) for v in y]
            name = r.choice(['c%d' % j, 'Temp %d {C}' % j, path])
            data[name] = y
            al[path] = (name, kind, how)
        order = list(data)
        r.shuffle(order)
        tables.append({'df': pd.DataFrame({q: data[q] for q in order}), 'al': al, 'mult': mult[k], 'start': start[k], 'time': 'time'})
    c['tables'] = tables
    # the times the tables cover
    lo = max(tb['df']['time'].values[tb['start']] * tb['mult'] for tb in tables)
    hi = min(tb['df']['time'].values[-1] * tb['mult'] for tb in tables)
    c['lo'], c['hi'] = lo, hi
    c['step'] = step
    c['grid'] = uniform and same and not any(tb['start'] for tb in tables)
    c['dup'] = len(c['items'])
    c['src'] += '''
class Mid(Subsystem):
    def __init__(self, tag, em=None, dl=None):
        super().__init__(tag, external_mappings=em, data_loader=dl)
        self.register_items([Feed(n, %r, %r) for n in %r])
class S(Subsystem):
    def __init__(self, em=None, dl=None):
        %s
''' % (names, c['init'], c['items'],
       "super().__init__('s', external_mappings=em, data_loader=dl); self.register_items([Mid('mid')])" if c['nested'] else
       "super().__init__('s', external_mappings=em, data_loader=dl); self.register_items([Feed(n, %r, %r) for n in %r])" % (names, c['init'], c['items']))
    c['prefix'] = prefix
    return c


def value(tb, path, t):
    name, kind, how = tb['al'][path]
    tt = tb['df']['time'].values[tb['start']:] * tb['mult']
    y = tb['df'][name].values[tb['start']:]
    if kind == 'lin':
        return float(np.interp(t, tt, y)), float(np.interp(t, tt, y))
    eps = 1e-9 * max(1.0, abs(t))
    return float(y[max(0, np.searchsorted(tt, t - eps, side='right') - 1)]), float(y[max(0, np.searchsorted(tt, t + eps, side='right') - 1)])


def mappings(mod, c, ids):
    out = []
    IT = mod.InterpolationType
    for k, tb in enumerate(c['tables']):
        out.append(mod.ExternalMappingElement(ids[k], tb['time'], tb['start'], tb['mult'], {
            path: (name, IT.LINEAR if kind == 'lin' else IT.PIESEWISE) for path, (name, kind, how) in tb['al'].items()}))
    return out


def check_rows(obs, df, c, te, integral):
    prefix = c['prefix']
    tt = df['time'].values
    obs.check(len(tt) == len(te) and np.allclose(tt, te, atol=1e-9), 'times recorded %s, requested %s' % (list(tt[:6]), list(te[:6])))
    where = {path: tb for tb in c['tables'] for path in tb['al']}
    for it in c['items']:
        sums = np.zeros(len(tt))
        for i, n in enumerate(c['names']):
            path = prefix + it + '.t.' + n
            got = df[path].values
            if path in where:
                y = where[path]['df'][where[path]['al'][path][0]].values
                tol = 1e-12 * np.max(np.abs(y)) + 1e-9 * (np.max(y) - np.min(y))
            for k, t in enumerate(tt):
                if path in where:
                    a, b = value(where[path], path, t)
                    obs.check(abs(got[k] - a) <= tol or abs(got[k] - b) <= tol,
                              'row %d (t=%g) of %s is %r, its table says %r' % (k, t, path, got[k], a))
                    obs.ev('mapped_rows')
                    if where[path]['al'][path][2] in ('offset', 'tiny'):
                        obs.ev('small_changes')
                    obs.ev('linear_rows' if where[path]['al'][path][1] == 'lin' else 'step_rows')
                    if a == 0 and c['init'][i] != 0:
                        obs.ev('zero_values')
                    if where[path]['al'][path][2] == 'const':
                        obs.ev('constant_columns')
                else:
                    obs.check(got[k] == c['init'][i], 'row %d of %s, which is not mapped, is %r, declared %r' % (k, path, got[k], c['init'][i]))
                    obs.ev('unmapped_rows')
            sums = sums + (i + 2) * got
        obs.check(np.all(df[prefix + it + '.t.free'].values == 41.5), 'a variable that is not mapped changed')
        obs.check(np.allclose(df[prefix + it + '.t.total'].values, sums, rtol=1e-9, atol=1e-9 * min(1.0, np.max(np.abs(sums)))),
                  'rows of the sum of mapped variables %s, expected %s' % (df[prefix + it + '.t.total'].values[:5], sums[:5]))
        obs.check(np.allclose(df[prefix + it + '.t.twice'].values, 2 * sums, rtol=1e-9, atol=1e-9 * min(1.0, np.max(np.abs(sums)))), 'rows of twice the sum')
        obs.check(np.allclose(df[prefix + it + '.t.x_dot'].values, df[prefix + it + '.t.' + c['first']].values, rtol=1e-9, atol=1e-9 * min(1.0, np.max(np.abs(sums)))),
                  'rows of the derivative')
        obs.ev('derived_rows', 3 * len(tt))
        path = prefix + it + '.t.' + c['first']
        if integral and (path not in where or where[path]['al'][path][1] == 'step'):
            # the input is held over a solver step; a step that begins at a jump may see the old value in its first stage
            u = df[path].values
            x = df[prefix + it + '.t.x'].values
            want = np.concatenate([[0.0], np.cumsum(u[:-1] * np.diff(tt))])
            obs.check(np.max(np.abs(x - want)) <= 1e-3 * (1e-3 + np.sum(np.abs(u[:-1]) * np.diff(tt)) + np.sum(np.abs(np.diff(u)))), 'integral of a held input %s, expected %s' % (x[:6], want[:6]))
            obs.ev('integrals', len(tt))


def run_case(p, obs):
    r = random.Random(p['seed'])
    c = build(r, p)
    run_with(p, obs, r, c, None)


def run_with(p, obs, r, c, loader_for):
    from numerous.engine.model import Model
    from numerous.engine.simulation import Simulation
    from numerous.utils.data_loader import InMemoryDataLoader
    from numerous.utils.historian import InMemoryHistorian

    class Tables(InMemoryDataLoader):
        # one loader for several tables
        def __init__(self, d):
            self.d = d

        def load(self, df_id, t):
            return self.d[df_id]

    mod = util.load_source(c['src'], keep=True)
    ids = ['tab%d' % k for k in range(len(c['tables']))]
    if loader_for:
        ids, loader = loader_for(c)
    else:
        loader = Tables({i: tb['df'].copy() for i, tb in zip(ids, c['tables'])})
    em = mappings(mod, c, ids)
    span = c['hi'] - c['lo']
    t0 = c['lo'] + (r.choice([0, 0, .3, .5]) * span if p['drive'] != 'later' else 0)
    integral = False
    if c['grid'] and t0 == c['lo'] and r.random() < .6:
        num = int(round(span / c['step']))
        te = np.linspace(t0, c['hi'], num + 1)
        t1 = c['hi']
        integral = True
        ms = c['step']
    else:
        t1 = c['hi'] - r.choice([0, 0, .2]) * (c['hi'] - t0)
        num = r.choice([1, 3, 7, 12])
        te = np.linspace(t0, t1, num + 1)
        ms = (t1 - t0) / r.choice([1, 4, 20])
    hist = InMemoryHistorian()
    if p.get('bounded'):
        hist.max_size = p['bounded']
    if p['drive'] == 'later':
        m = Model(mod.S(), use_llvm=p['llvm'], historian=hist)
    else:
        m = Model(mod.S(em, loader), use_llvm=p['llvm'], historian=hist)
    m.use_llvm = False
    sim = Simulation(m, t_start=t0, t_stop=t1, num=num, max_step=ms, **({'rtol': 1e-8, 'atol': 1e-9} if integral else {}))
    util.budget(sim, stuck=True)
    if p['drive'] == 'later':
        m.set_external_mappings(em, loader)
        obs.ev('set_later')
    if p['drive'] == 'step':
        for k in range(num):
            util.run_solver(sim.step_solve, te[k], te[k + 1] - te[k])
        m.create_historian_df()
        # rows appear as the steps produce them
        obs.ev('stepped')
    else:
        util.run_solver(sim.solve)
    check_rows(obs, m.historian_df, c, te, integral and p['drive'] != 'step')
    if p['drive'] == 'reset':
        for _ in range(r.choice([1, 2])):
            sim.reset(t0)
            util.run_solver(sim.solve)
            check_rows(obs, m.historian_df, c, te, integral)
            obs.ev('resets')
    if p['llvm']:
        obs.ev('llvm_kernels')
    if c['nested']:
        obs.ev('nested_systems')
    if len(c['tables']) > 1:
        obs.ev('two_tables')
    if t0 != 0:
        obs.ev('late_start')
    if any(tb['mult'] != 1 for tb in c['tables']):
        obs.ev('multipliers')
    if len(set(len(tb['df']) for tb in c['tables'])) > 1:
        obs.ev('unequal_tables')
    if any(tb['start'] for tb in c['tables']):
        obs.ev('start_rows')
    m_paths = [q for tb in c['tables'] for q in tb['al']]
    if any(a != b and a in b for a in m_paths for b in m_paths):
        obs.ev('prefix_names')
    obs.key = [len(c['tables']), len(m_paths), len(c['tables'][0]['df']), p['drive'], [tb['mult'] for tb in c['tables']],
               [tb['start'] for tb in c['tables']], num, t0, p['llvm'], c['nested'], p['csv']]
    return sim, m
