"""Functions named in run_after_solve and post_step run once per solve and once per accepted step, and see the model of that time."""
import math
import os
import random

import numpy as np

from nv import util

RULE = ('a case is a tree of subsystems with functions to run after each solve and after each step of the solver, whose calls were recorded by the functions themselves - order, time, states, variables '
        'and history as seen by them - and compared with the calls that must happen; distinct = distinct (tree, functions, way of driving, options)')
NEED = ['run_after_calls', 'post_step_calls', 'histories_seen', 'orders_compared', 'solves', 'second_solves', 'resets', 'steps', 'small_buffers', 'event_rows', 'time_event_rows', 'external_batches', 'sets', 'subsystems_in_sets',
        'no_hooks', 'no_states', 'llvm_kernels', 'values_compared']
ASSUMPTIONS = ['functions to run after a step are compiled (numba), they observe through a C callback into Python', 'a state with derivative 1 tells the time to functions that get no arguments']
CFG = dict(timeout=90, budget=400, min_cases=40)

SRC = '''
import ctypes
import numpy as np
import pandas as pd
from numba import njit
from numerous.engine.system import Item, Subsystem, ItemsStructure
from numerous.engine.system.external_mappings import ExternalMappingElement
from numerous.engine.system.external_mappings.interpolation_type import InterpolationType
from numerous.multiphysics import EquationBase, Equation
from numerous.utils.data_loader import CSVDataLoader

LOG = []
SEE = [None]
KEEP = []


def compiled(name):
    @ctypes.CFUNCTYPE(None)
    def cb():
        LOG.append(('step', name, SEE[0]()))
    KEEP.append(cb)

    @njit
    def hook():
        cb()
    return hook


class Clock(Item, EquationBase):
    def __init__(self, tag, t0, a):
        Item.__init__(self, tag)
        EquationBase.__init__(self, tag)
        self.add_state('c', t0)
        self.add_state('x', 1.0)
        self.add_parameter('p', 0.0)
        self.add_parameter('y', 0.0)
        self.add_constant('a', a)
        self.create_namespace('t').add_equation(self)

    @Equation()
    def eq(self, scope):
        scope.y = 2 * scope.x + scope.p
        scope.c_dot = 1.0
        scope.x_dot = scope.a * scope.x


class Plain(Item, EquationBase):
    def __init__(self, tag):
        Item.__init__(self, tag)
        EquationBase.__init__(self, tag)
        self.add_parameter('u', 0.0)
        self.add_parameter('p', 0.0)
        self.create_namespace('t').add_equation(self)

    @Equation()
    def eq(self, scope):
        scope.u = scope.global_vars.t * 3 + 1


class Sub(Subsystem):
    def __init__(self, path, tag, after, step, late, **kw):
        """functions are given to the constructor or set afterwards"""
        if late:
            super().__init__(tag, **kw)
            self.run_after_solve = list(after)
            self.post_step = list(step)
        else:
            super().__init__(tag, run_after_solve=list(after), post_step=list(step), **kw)
        for n in after:
            setattr(self, n, self.make(path + ':' + n))
        for n in step:
            setattr(self, n, compiled(path + ':' + n))

    def make(self, name):
        def f():
            LOG.append(('after', name, SEE[0]()))
        return f
'''


def cases(seed, tier):
    n = 120 if tier == 'quick' else 2400
    r = random.Random(seed * 49979687 + 20)
    for i in range(n):
        yield {'seed': r.randrange(1 << 40), 'drive': ['solve', 'solve2', 'reset', 'step', 'solve'][i % 5], 'opt': ['plain', 'buffer', 'event', 'time', 'external', 'external_time', 'buffer_event'][i % 7],
               'llvm': i % 4 == 3, 'states': i % 11 != 10}


def tree(r, depth, path, tag):
    names = ['h%d' % i for i in range(4)]
    node = {'path': path, 'tag': tag, 'after': r.sample(names, r.choice([0, 1, 2, 3])), 'step': ['s' + q for q in r.sample(names, r.choice([0, 0, 1, 2]))],
            'late': r.random() < .5, 'subs': [], 'set': r.random() < .2}
    if depth > 0:
        for k in range(r.choice([0, 1, 2, 2])):
            node['subs'].append(tree(r, depth - 1, path + '.' + 'u%d' % k, 'u%d' % k))
    return node


def hooks(node, kind):
    for n in node[kind]:
        yield node['path'] + ':' + n
    for s in node['subs']:
        yield from hooks(s, kind)


def counted(sim):
    """counts the steps the solver reports"""
    util.budget(sim)
    n = [0]
    iface = sim.solver.interface
    orig = iface.post_step

    def post_step(t, y):
        n[0] += 1
        return orig(t, y)
    object.__setattr__(iface, 'post_step', post_step)
    return n


def run_case(p, obs):
    from numerous.engine.model import Model
    from numerous.engine.simulation import Simulation
    from numerous.utils.historian import InMemoryHistorian
    import pandas as pd
    r = random.Random(p['seed'])
    mod = util.load_source(SRC, keep=True)
    top = tree(r, r.choice([0, 1, 1, 2, 2]), 's', 's')
    if r.random() < .08:
        def strip(n):
            n['after'], n['step'] = [], []
            for q in n['subs']:
                strip(q)
        strip(top)
    t0 = r.choice([0.0, 0.0, 0.5, 2.0])
    T = r.choice([1.0, 1.0, 2.0])
    num = r.choice([1, 2, 4, 5, 8])
    a = round(r.uniform(-1, .5), 2)
    made = {}

    def make(node):
        kw = {}
        if node is top and p['opt'].startswith('external'):
            ts = np.arange(0, 30) * .5 - 1.5
            df = pd.DataFrame({'time': ts, 'v': np.round(np.sin(ts), 3)})
            f = os.path.join(os.environ.get('NV_SCRATCH', '/tmp'), 'nv20_%d_%d.csv' % (os.getpid(), p['seed']))
            df.to_csv(f, index=False)
            made['file'] = f
            el2 = mod.ExternalMappingElement(f, 'time', 0, 1, {'s.k.t.p': ('v', mod.InterpolationType.LINEAR)})
            kw = dict(external_mappings=[el2], data_loader=mod.CSVDataLoader(chunksize=r.choice([2, 3, 100])))
            made['table'] = df
        s = mod.Sub(node['path'], node['tag'], node['after'], node['step'], node['late'], **kw)
        items = []
        if node is top:
            k = mod.Clock('k', t0, a) if p['states'] else mod.Plain('k')
            made['k'] = k
            items.append(k)
        subs = [make(q) for q in node['subs']]
        if node['set'] and not subs and node is not top:
            s.register_items([mod.Clock('a', 0.0, a), mod.Clock('b', 0.0, a)], structure=mod.ItemsStructure.SET)
            obs.ev('sets')
        elif not subs and node is not top:
            items.append(mod.Clock('i', 0.0, a))
        if node['set'] and len(subs) > 1:
            s.register_items(subs, structure=mod.ItemsStructure.SET)
            obs.ev('subsystems_in_sets')
            subs = []
        order = items + subs
        if order:
            s.register_items(order)
        return s
    system = make(top)
    hist = InMemoryHistorian()
    if 'buffer' in p['opt']:
        hist.max_size = r.choice([2, 3, 5])
    m = Model(system, use_llvm=p['llvm'], historian=hist)
    m.use_llvm = False
    te = None
    if 'event' in p['opt'] and p['states']:
        te = t0 + T * r.uniform(.45, .9)
        src = 'TE = %r\n\n\ndef cond(t, v):\n    return v["s.k.t.c"] - %r\n\n\ndef act(t, v):\n    v["s.k.t.p"] = v["s.k.t.p"] + 1.0\n' % (te, te)
        em = util.load_source(src, keep=True)
        m.add_event('e', em.cond, em.act, direction=1)
    if p['opt'] == 'time' or p['opt'] == 'external_time':
        tt = [t0 + T * r.choice([.25, .5, .33]), t0 + T]
        em = util.load_source('LOG = []\n\n\ndef act(t, v):\n    LOG.append(t)\n', keep=True)
        m.add_timestamp_event('te', em.act, tt, is_external=True)
    want_after = list(hooks(top, 'after'))
    want_step = list(hooks(top, 'step'))
    log = mod.LOG

    def see():
        df = m.historian_df
        rows = None if df is None else df['time'].values.copy()
        return {'v': util.kernel_values(m), 'rows': rows}
    mod.SEE[0] = see
    # the solver finds the state at an event from its last steps, and needs some of them
    kw = dict(max_step=r.choice([.05, .1, .3]) if te is None else .04)
    sim = Simulation(m, t_start=t0, t_stop=t0 + T, num=num, **kw)
    steps = counted(sim)

    def x_at(t):
        return math.exp(a * (t - t0))

    def step_part(calls, b, e, times):
        """calls of one solve or step from b to e; times that must be among those of the steps"""
        if not want_step:
            obs.check(not [c for c in calls if c[0] == 'step'], 'functions after steps ran, none was given')
            return
        st = [c for c in calls if c[0] == 'step']
        k = len(want_step)
        obs.check(len(st) % k == 0 and len(st) > 0, '%d calls of %d functions in the steps from %g to %g' % (len(st), k, b, e))
        obs.check(len(st) == k * steps[0], '%d calls of %d functions in %d steps' % (len(st), k, steps[0]))
        last = b
        seen = []
        tol = 1e-9 if te is None else 1e-5
        for i in range(0, len(st), k):
            obs.check([c[1] for c in st[i:i + k]] == want_step, 'after step %d the functions %s ran, expected %s' % (i // k, [c[1] for c in st[i:i + k]], want_step))
            obs.ev('orders_compared')
            if not p['states']:
                continue
            for c in st[i:i + k]:
                v = c[2]['v']
                t = v['s.k.t.c']
                obs.check(util.close(t, st[i][2]['v']['s.k.t.c'], 1e-12), 'functions of one step see different times')
                obs.check(util.close(v['s.k.t.x'], x_at(t), 2e-3 if te is None else 5e-2), 'after the step to %g x is %r, the solution is %r' % (t, v['s.k.t.x'], x_at(t)))
                obs.ev('values_compared')
            # steps of no length happen where the solver is left and entered again, at events they go back to them
            obs.check(t > last - tol, 'step to %g after the one to %g' % (t, last))
            last = t
            seen.append(t)
        if p['states']:
            obs.check(abs(last - e) < tol, 'the last step the functions saw ended at %r, the run at %r' % (last, e))
            for t in times:
                obs.check(any(abs(t - s) < tol for s in seen), 'no function ran after the step to %r; steps seen %s' % (t, seen))
            if te is not None and b < te <= e:
                obs.ev('event_rows')
        obs.ev('post_step_calls', len(st))

    def after_part(calls, solved):
        af = [c for c in calls if c[0] == 'after']
        if not solved:
            obs.check(not af, 'functions to run after a solve ran in a step')
            return
        obs.check([c[1] for c in af] == want_after, 'after the solve the functions %s ran, expected %s' % ([c[1] for c in af], want_after))
        idx = [i for i, c in enumerate(calls) if c[0] == 'after']
        obs.check(not idx or idx[0] == len(calls) - len(idx), 'a function ran before the solve was over')
        final = m.historian_df['time'].values
        now = util.kernel_values(m)
        for c in af:
            obs.check(c[2]['rows'] is not None and len(c[2]['rows']) == len(final) and np.allclose(c[2]['rows'], final), 'a function after the solve sees %s rows, the history has %d' % (
                None if c[2]['rows'] is None else len(c[2]['rows']), len(final)))
            obs.ev('histories_seen')
            for q, v in c[2]['v'].items():
                obs.check(util.close(v, now[q], 1e-12), 'a function after the solve sees %s = %r, afterwards it is %r' % (q, v, now[q]))
            obs.ev('values_compared', len(now))
        row = {q: m.historian_df[q].values[-1] for q in now if q in m.logged_variables}
        for q, v in row.items():
            obs.check(util.close(v, now[q], 1e-9), 'after the solve %s is %r, the last row has %r' % (q, now[q], v))
        obs.ev('run_after_calls', len(af))

    def solve(first):
        log.clear()
        steps[0] = 0
        util.run_solver(sim.solve)
        obs.ev('solves')
        calls = list(log)
        after_part(calls, True)
        if first:
            step_part(calls, t0, t0 + T, [float(t) for t in sim.time[1:]])
        times = m.historian_df['time'].values
        obs.check(abs(times[-1] - (t0 + T)) < 1e-9, 'the history ends at %r' % times[-1])

    try:
        if p['drive'] == 'step':
            t, h = t0, T / r.choice([2, 3, 5])
            for k in range(r.choice([2, 3, 4])):
                log.clear()
                steps[0] = 0
                util.run_solver(sim.step_solve, t, h)
                obs.ev('steps')
                calls = list(log)
                after_part(calls, False)
                step_part(calls, t, t + h, [t + h])
                t += h
        else:
            solve(True)
            if p['drive'] == 'reset':
                sim.reset(t0)
                log.clear()
                obs.ev('resets')
                solve(True)
            elif p['drive'] == 'solve2':
                sim = Simulation(m, t_start=t0, t_stop=t0 + T, num=num, **kw)
                steps = counted(sim)
                solve(True)
                obs.ev('second_solves')
    finally:
        if 'file' in made:
            os.remove(made['file'])
    if 'buffer' in p['opt']:
        obs.ev('small_buffers')
    if p['opt'].startswith('external'):
        obs.ev('external_batches')
    if 'time' in p['opt']:
        obs.ev('time_event_rows', len(em.LOG))
    if p['llvm']:
        obs.ev('llvm_kernels')
    if not p['states']:
        obs.ev('no_states')
    if not want_after and not want_step:
        obs.ev('no_hooks')
    obs.key = [want_after, want_step, p['drive'], p['opt'], p['llvm'], num]
