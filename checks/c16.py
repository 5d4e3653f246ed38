"""Models and simulations living side by side do not influence each other."""
import os
import pickle
import random
import signal
import sys
import traceback

import numpy as np

from nv import evgen, gen, util
from nv.harness import Invalid

RULE = ('a case is a process in which several models are built, evaluated, written, stepped, simulated and reset in an interleaved order; everything each of them showed was compared with '
        'the same operations on that model alone in a process of its own; distinct = distinct (models, order of operations)')
NEED = ['models', 'operations', 'values_compared', 'switches', 'same_class', 'same_tags', 'llvm_models', 'both_back_ends', 'event_models', 'external_models', 'import_models', 'histories_compared', 'interleaved_steps',
        'resets', 'late_builds', 'two_simulations_of_time', 'default_arguments', 'globals', 'sets']
ASSUMPTIONS = ['each model has a system of its own, built from possibly shared classes', 'each simulation runs in one thread']
CFG = dict(timeout=150, budget=420, min_cases=40)
PROFS = [
    {'ppers': 0, 'pself': 0, 'nstates': [0, 1, 2], 'feats': {'depth': 2, 'smooth': 1}, 'nitems': [1, 2, 3]},
    {'ppers': 0, 'pself': 0, 'pfuncs': .7, 'nstates': [1, 2], 'feats': {'depth': 2, 'smooth': 1}, 'nitems': [1, 2]},
    {'ppers': 0, 'pself': 0, 'pglob': 1.0, 'nstates': [1], 'feats': {'depth': 1, 'smooth': 1}, 'nitems': [1, 2]},
    {'ppers': 0, 'pself': 0, 'pmap': 1.0, 'psum': .6, 'nstates': [1], 'feats': {'depth': 1, 'smooth': 1}, 'nitems': [2, 3, 4]},
]
EXT = '''
import numpy as np
import pandas as pd
from numerous.engine.system import Item, Subsystem, ItemsStructure
from numerous.multiphysics import EquationBase, Equation
from numerous.engine.system.external_mappings import ExternalMappingElement
from numerous.engine.system.external_mappings.interpolation_type import InterpolationType
from numerous.utils.data_loader import InMemoryDataLoader


class I(Item, EquationBase):
    def __init__(self, tag):
        Item.__init__(self, tag)
        EquationBase.__init__(self, tag)
        self.add_parameter('p', 0.5)
        self.add_parameter('q', 0.25)
        self.add_state('x', 1.0)
        self.create_namespace('t').add_equation(self)

    @Equation()
    def eq(self, scope):
        scope.q = scope.p * 2 + scope.x
        scope.x_dot = scope.p - scope.x


class S(Subsystem):
    def __init__(self, a, b, as_set):
        df = pd.DataFrame({'time': [0.0, 1.0, 2.0, 3.0], 'c': a, 'd': b})
        el = ExternalMappingElement('e', 'time', 0, 1, {'s.i.t.p': ('c', InterpolationType.LINEAR), 's.j.t.p': ('d', InterpolationType.PIESEWISE)})
        super().__init__('s', external_mappings=[el], data_loader=InMemoryDataLoader(df))
        self.register_items([I('i'), I('j')])
        if as_set:
            self.register_items([I('k'), I('l'), I('m')], structure=ItemsStructure.SET)
'''

FUN = '''
import numpy as np
from numba import njit

TAB = np.array(%r)


@njit
def nvf(x):
    return %r * np.sin(x) + %r


@njit
def nvg(x, y):
    return TAB[int(abs(x) * 3) %% 5] - y * %r
'''
IMP = '''
import numpy as np
from numerous.engine.system import Item, Subsystem, ItemsStructure
from numerous.multiphysics import EquationBase, Equation


def cond(t, v):
    return v['t.c'] - %r + 0 * nvf(v['t.x'])


def act(t, v):
    v['t.w'] = nvf(v['t.a']) + 1


def tact(t, v):
    v['t.a'] = nvg(v['t.x'], 0.5)


def mact(t, v):
    v['s.j.t.w'] = nvg(v['s.j.t.a'], v['s.i.t.x'])


class I(Item, EquationBase):
    def __init__(self, tag, a):
        Item.__init__(self, tag)
        EquationBase.__init__(self, tag)
        self.add_parameter('a', a)
        self.add_parameter('o', 0.0)
        self.add_parameter('w', 0.0)
        self.add_state('x', 1.0)
        self.add_state('c', 0.0)
        self.create_namespace('t').add_equation(self)

    @Equation()
    def eq(self, scope):
        scope.o = nvg(nvf(scope.a), scope.x) + scope.w
        scope.x_dot = nvf(scope.x) - scope.x
        scope.c_dot = 1.0


class S(Subsystem):
    def __init__(self, a, b, as_set):
        super().__init__('s')
        i = I('i', a)
        i.add_event('up', cond, act, direction=1)
        i.add_timestamp_event('at', tact, timestamps=[%r])
        self.register_items([i, I('j', b)])
        if as_set:
            self.register_items([I('k', b), I('l', a)], structure=ItemsStructure.SET)


def model_events(model):
    model.add_timestamp_event('every', mact, periodicity=%r)
'''


def cases(seed, tier):
    n = 120 if tier == 'quick' else 2000
    r = random.Random(seed * 86028157 + 16)
    for i in range(n):
        yield {'seed': r.randrange(1 << 40), 'llvm': i % 3}


def plan(p):
    """models and an interleaved list of operations (model, op, args)"""
    r = random.Random(p['seed'])
    models = []
    srcs = {}
    for i in range(r.choice([2, 2, 3, 4])):
        if models and r.random() < .45:
            # another model of the same classes
            j = r.randrange(len(models))
            m = dict(models[j])
            m['twin'] = j
        else:
            k = r.choice(['gen', 'gen', 'gen', 'events', 'external', 'imports'])
            m = {'kind': k, 'src': 's%d' % i, 'seed': r.randrange(1 << 30), 'twin': None}
            if k == 'gen':
                m['prof'] = r.randrange(len(PROFS))
        m['vary'] = r.randrange(1 << 30)
        m['llvm'] = [False, True, r.random() < .5][p['llvm']]
        m['defaults'] = r.random() < .3
        models.append(m)
    seqs = [sequence(r, m) for m in models]
    return models, interleave(r, seqs)


def sequence(r, m):
    """operations on one model"""
    ops = [('build',)]
    if m['kind'] == 'gen':
        for _ in range(r.randint(1, 3)):
            ops.append(r.choice([('eval', r.randrange(1 << 30)), ('write', r.randrange(1 << 30)), ('eval', r.randrange(1 << 30)), ('read',)]))
    ops.append(('sim', r.choice(['solve', 'step'])))
    if ops[-1][1] == 'step':
        for k in range(r.randint(2, 5)):
            ops.append(('step',))
            if r.random() < .3:
                ops.append(('write', r.randrange(1 << 30)))
            if r.random() < .3:
                ops.append(('read',))
    else:
        ops.append(('solve',))
    ops.append(('history',))
    if r.random() < .6:
        ops += [('reset',), ('read',)]
        ops += [('solve',) if r.random() < .5 else ('step',)] + [('history',)]
    ops.append(('read',))
    return ops


def interleave(r, seqs):
    order = [i for i, s in enumerate(seqs) for _ in s]
    if r.random() < .8:
        r.shuffle(order)
    at = [0] * len(seqs)
    out = []
    for i in order:
        out.append((i,) + tuple(seqs[i][at[i]]))
        at[i] += 1
    return out


class World:
    def __init__(self, models):
        self.models = models
        self.mods = {}
        self.m = {}

    def module(self, m):
        if m['src'] not in self.mods:
            if m['kind'] == 'gen':
                spec = gen.gen_spec(m['seed'], PROFS[m['prof']])
                util.ref_or_invalid(spec)
                self.mods[m['src']] = (util.load_source(gen.render(spec)), spec)
            elif m['kind'] == 'events':
                from checks import c11
                r = random.Random(m['seed'])
                s, T, te, items, events = c11.build(r, {'change': m['seed'] % 3 == 0, 'llvm': False, 'drive': 'solve'})
                self.mods[m['src']] = (util.load_source(evgen.source(items, events, c11.PARS), keep=True), (s, T, te))
            elif m['kind'] == 'imports':
                r = random.Random(m['seed'])
                f = util.load_source(FUN % ([gen.fl(r) for _ in range(5)], gen.fl(r), gen.fl(r), gen.fl(r)), keep=True)
                sys.modules[f.__name__] = f
                self.mods[m['src']] = (util.load_source(IMP % (round(r.uniform(.3, .6), 3), round(r.uniform(.1, .9), 3), round(r.uniform(.15, .4), 3)), keep=True), f)
            else:
                self.mods[m['src']] = (util.load_source(EXT), None)
            self.loaded(m)
        return self.mods[m['src']]

    def loaded(self, m):
        pass

    def create(self, Model, top, m, **kw):
        return Model(top, use_llvm=m['llvm'], **kw)

    def do(self, op):
        from numerous.engine.model import Model
        from numerous.engine.simulation import Simulation
        from numerous.utils.historian import InMemoryHistorian
        i, name, args = op[0], op[1], op[2:]
        m = self.models[i]
        if name == 'build':
            mod, spec = self.module(m)
            rv = random.Random(m['vary'])
            kw = {} if m['defaults'] else {'historian': InMemoryHistorian()}
            w = {'N': None}
            if m['kind'] == 'gen':
                top, N = mod.build()
                # other initial values than its twin
                ref = gen.Ref(spec)
                for q in sorted(ref.vals):
                    if not q.endswith('_dot') and rv.random() < .5:
                        ip, ns, v = q.rsplit('.', 2)
                        getattr(getattr(N[ip], ns), v).value = gen.fl(rv)
                gl = spec['globals']
                if m['twin'] is not None:
                    gl = [(g, round(v + rv.uniform(-.5, .5), 3)) for g, v in gl]
                w['N'] = N
                model = self.create(Model, top, m, global_variables=[tuple(g) for g in gl] or None, **kw)
                w['gl'] = [v for _, v in gl]
                w['free'] = sorted(q for q, k in ref.kind.items() if k in ('constant', 'parameter'))
                w['states'] = ref.states
                w['t0'], w['T'] = 0.0, .3
            elif m['kind'] == 'events':
                s, T, te = spec
                model = self.create(Model, mod.build(), m, **kw)
                if m.get('copy') != 'clone':
                    mod.model_events(model)
                w['t0'], w['T'] = s, T
                w['free'] = ['.'.join(x) for x in []]
            elif m['kind'] == 'imports':
                sys.modules[spec.__name__] = spec
                names = ['nvf', 'nvg']
                rv.shuffle(names)
                model = self.create(Model, mod.S(round(rv.uniform(-2, 2), 3), round(rv.uniform(-2, 2), 3), m['seed'] % 2), m, imports=[(spec.__name__, n) for n in names], **kw)
                if m.get('copy') != 'clone':
                    mod.model_events(model)
                w['t0'], w['T'] = 0.0, 1.0
                w['free'] = ['s.%s.t.a' % k for k in 'ij']
            else:
                a, b = [[round(rv.uniform(-2, 2), 3) for _ in range(4)] for _ in '12']
                model = self.create(Model, mod.S(a, b, m['seed'] % 2), m, **kw)
                w['t0'], w['T'] = 0.0, 2.9
                w['free'] = []
            model.use_llvm = False
            w['model'] = model
            self.m[i] = w
            return sorted(model.path_to_variable)
        w = self.m[i]
        model = w['model']
        if name == 'eval':
            r = random.Random(args[0])
            _, v = util.evaluate(model, {q: r.uniform(-2, 2) for q in w['states']}, [r.uniform(0, 3)] + w['gl'])
            return v
        if name == 'read':
            return util.kernel_values(model)
        if name == 'write':
            r = random.Random(args[0])
            if not w['free']:
                return None
            vals = {q: gen.fl(r) for q in r.sample(w['free'], min(2, len(w['free'])))}
            how = r.choice(['set', 'update', 'value'])
            if how == 'set':
                model.set_variables(vals)
            elif how == 'update':
                model.update_variables(vals)
            else:
                for q, v in vals.items():
                    model.path_to_variable[q].value = v
            return None
        if name == 'sim':
            kw = dict(max_step=w['T'] / 30) if m['kind'] not in ('events', 'imports') else dict(max_step=.05)
            w['sim'] = Simulation(model, t_start=w['t0'], t_stop=w['t0'] + w['T'], num=5, **kw)
            util.budget(w['sim'])
            w['t'] = w['t0']
            return None
        if name == 'step':
            t, _ = util.run_solver(w['sim'].step_solve, w['t'], w['T'] / 6)
            w['t'] += w['T'] / 6
            return [float(t)]
        if name == 'solve':
            util.run_solver(w['sim'].solve)
            return None
        if name == 'reset':
            w['sim'].reset(w['t0'])
            w['t'] = w['t0']
            return None
        if name == 'history':
            df = model.historian_df
            if df is None:
                model.create_historian_df()
                df = model.historian_df
            return {q: [float(x) for x in df[q].values] for q in ['time'] + sorted(model.path_to_variable) if q == 'time' or q in model.logged_variables}
        raise AssertionError(name)


def solo(models, ops, timeout=60, world=None):
    """the operations in a process of their own"""
    rd, wr = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(rd)
            signal.signal(signal.SIGALRM, signal.SIG_DFL)
            signal.alarm(timeout)
            W = (world or World)(models)
            out = []
            try:
                for op in ops:
                    out.append(W.do(op))
                res = ('ok', out)
            except Invalid as e:
                res = ('invalid', str(e))
            except BaseException:
                res = ('error', traceback.format_exc()[-1500:])
            with os.fdopen(wr, 'wb') as f:
                pickle.dump(res, f)
        finally:
            os._exit(0)
    os.close(wr)
    with os.fdopen(rd, 'rb') as f:
        data = f.read()
    os.waitpid(pid, 0)
    if not data:
        raise Invalid('a process of its own took too long')
    return pickle.loads(data)


def run_case(p, obs):
    import warnings
    warnings.simplefilter('ignore')
    models, ops = plan(p)
    alone = {}
    for i in range(len(models)):
        st, out = solo(models, [o for o in ops if o[0] == i])
        if st == 'invalid':
            raise Invalid(out)
        if st == 'error':
            # fails without any other model around: not what is decided here
            raise Invalid('fails alone: ' + out[-300:])
        alone[i] = out
    follow(World(models), models, ops, alone, obs)
    if len(models) > 1:
        obs.ev('two_simulations_of_time', sum(1 for m in models if m['kind'] == 'events'))
    obs.key = [[m['kind'] + str(m['seed']) for m in models], [(o[0], o[1]) for o in ops]]


def follow(W, models, ops, alone, obs):
    """the operations on models side by side, compared with each of them alone"""
    at = [0] * len(models)
    last = None
    for n, op in enumerate(ops):
        i = op[0]
        try:
            got = W.do(op)
        except Invalid:
            obs.check(False, 'operation %d %s of model %d gives up after operations on other models, alone it does not' % (n, op, i))
        want = alone[i][at[i]]
        at[i] += 1
        ctx = 'operation %d: %s of model %d (%s%s, of %d)' % (n, op[1], i, models[i]['kind'], ', LLVM' if models[i]['llvm'] else '', len(models))
        if isinstance(want, dict):
            obs.check(isinstance(got, dict) and sorted(got) == sorted(want), '%s shows other variables than alone: %s' % (ctx, sorted(set(got or ()) ^ set(want))[:4]))
            for q, v in want.items():
                g = got[q]
                if isinstance(v, list):
                    obs.check(len(g) == len(v), '%s: %d rows of %s, alone %d' % (ctx, len(g), q, len(v)))
                    for k, (a, b) in enumerate(zip(g, v)):
                        if abs(b) < 1e6 or abs(a) < 1e6:
                            obs.check(util.close(a, b, 1e-8), '%s: row %d of %s is %r, alone it is %r' % (ctx, k, q, a, b))
                    obs.ev('values_compared', len(v))
                else:
                    if abs(v) < 1e6 or abs(g) < 1e6:
                        obs.check(util.close(g, v, 1e-8), '%s: %s is %r, alone it is %r' % (ctx, q, g, v))
                    obs.ev('values_compared')
        else:
            obs.check(got == want or np.allclose(got, want), '%s gives %r, alone %r' % (ctx, got, want))
        obs.ev('operations')
        if last is not None and last != i:
            obs.ev('switches')
            if op[1] == 'step':
                obs.ev('interleaved_steps')
            if op[1] == 'build' and any(o[1] in ('sim', 'solve', 'step') for o in ops[:n]):
                obs.ev('late_builds')
        last = i
        if op[1] == 'history':
            obs.ev('histories_compared')
        if op[1] == 'reset':
            obs.ev('resets')
    obs.ev('models', len(models))
    obs.ev('llvm_models', sum(m['llvm'] for m in models))
    if len(set(m['llvm'] for m in models)) > 1:
        obs.ev('both_back_ends')
    for m in models:
        if m['twin'] is not None:
            obs.ev('same_class')
            obs.ev('same_tags')
        if m['kind'] == 'events':
            obs.ev('event_models')
        if m['kind'] == 'imports':
            obs.ev('import_models')
        if m['kind'] in ('external', 'imports'):
            obs.ev('external_models', int(m['kind'] == 'external'))
            if m['seed'] % 2:
                obs.ev('sets')
        if m['defaults']:
            obs.ev('default_arguments')
        if m['kind'] == 'gen' and m['prof'] == 2:
            obs.ev('globals')
