"""Mappings deliver the current value of their source, however deep, chained or ordered."""
import random

import numpy as np

from nv import gen, util

RULE = ('a case is a system with at least one variable-to-variable mapping whose target was compared with its source after '
        'every evaluation; distinct = distinct (mapping graph shape, depth, declaration style, backend)')
NEED = ['models_without_equations', 'sources_with_many_targets', 'mapped_targets_checked', 'chained_targets', 'fan_out_sources', 'cross_item_edges', 'llvm_models', 'hand_shapes',
        'simulated_rows_checked', 'replaced_mappings']
ASSUMPTIONS = ['mapping graphs are acyclic through equations', 'a variable both assigned by an equation and plainly mapped is excluded (documented nowhere)']
CFG = dict(timeout=60, budget=300, min_cases=150)

PROFS = {
    'maps': {'pdecoy': .5, 'pmap': 1.0, 'psum': 0.0, 'paccsum': 0.0, 'pacc': 0.0, 'ninputs': [1, 2, 3], 'nitems': [3, 4, 5, 6], 'size': [0, 1]},
    'chain': {'pdecoy': .4, 'pmap': 1.0, 'psum': 0.0, 'paccsum': 0.0, 'neq': [1, 2, 3], 'nouts': [1, 2, 3], 'nitems': [5, 6, 8], 'size': [0],
              'ninputs': [2, 3], 'depth': [2, 3, 4], 'feats': {'depth': 2}},
    'deep': {'pmap': 1.0, 'psum': 0.1, 'nns': [1, 2], 'nitems': [3, 4, 5], 'depth': [3, 4, 5], 'size': [0, 1], 'ninputs': [1, 2, 3]},
    'few': {'pmap': 1.0, 'psum': 0.0, 'paccsum': 0.0, 'nitems': [2, 3], 'ncls': [1], 'size': [0, 1], 'ninputs': [2, 3], 'depth': [1]},
}


def cases(seed, tier):
    n = 600 if tier == 'quick' else 12000
    r = random.Random(seed * 104729 + 2)
    for k in sorted(HAND):
        for llvm in (False, True):
            yield {'hand': k, 'llvm': llvm}
    names = sorted(PROFS)
    for i in range(n):
        yield {'seed': r.randrange(1 << 40), 'prof': names[i % len(names)], 'llvm': i % 8 == 0, 'sim': i % 6 == 1}


def run_case(p, obs):
    if 'hand' in p:
        obs.key = ['hand', p['hand'], p['llvm']]
        obs.ev('hand_shapes')
        return HAND[p['hand']](obs, p['llvm'])
    spec = gen.gen_spec(p['seed'], PROFS[p['prof']])
    ref = util.ref_or_invalid(spec)
    model, top, N = util.build_model(spec, llvm=p['llvm'])
    obs.ev('llvm_models' if p['llvm'] else 'ast_models')
    maps = {t: s for t, s, k, _ in spec['maps'] if k == 'map'}
    sources = [s for s in maps.values()]
    if spec['decoys']:
        obs.ev('replaced_mappings', len(spec['decoys']))
    chained = {t for t, s in maps.items() if s in ref.targets}
    for it, (states, gl, gd) in enumerate(util.eval_points(spec, ref, 3, p['seed'])):
        d, got = util.evaluate(model, states, gl)
        for t, s in maps.items():
            obs.check(t in got and s in got, 'mapped variable missing: %s or %s' % (t, s))
            obs.check(got[t] == got[s] or (got[t] != got[t] and got[s] != got[s]),
                      '%s is mapped to %s but they are %r and %r after evaluation %d' % (t, s, got[t], got[s], it))
            obs.ev('mapped_targets_checked')
            if t in chained:
                obs.ev('chained_targets')
            if sources.count(s) > 1:
                obs.ev('fan_out_sources')
            if t.rsplit('.', 2)[0] != s.rsplit('.', 2)[0]:
                obs.ev('cross_item_edges')
        # the source value itself is the current one
        util.compare(obs, got, ref.eval(states, gd), 'evaluation %d' % it)
    if p.get('sim') and maps and not p['llvm']:
        from numerous.engine.simulation import Simulation
        sim = Simulation(model, t_start=0, t_stop=0.3, num=4, max_step=0.1)
        try:
            sim.solve()
        except ValueError as e:
            if 'dt shortened' in str(e) or 'Cannot go back' in str(e):
                sim = None
            else:
                raise
        if sim is not None:
            df = model.historian_df
            for t, s in maps.items():
                a, b = df[t].values, df[s].values
                # the row of the initial time is recorded before the first evaluation
                for k in range(1, len(a)):
                    if a[k] == a[k] and b[k] == b[k]:
                        obs.check(util.close(a[k], b[k]), 'row %d of the history: %s=%r but its source %s=%r' % (k, t, a[k], s, b[k]))
                        obs.ev('simulated_rows_checked')
    if maps:
        obs.key = [len(maps), len(chained), len(set(sources)), len(ref.nodes), p['llvm'], spec['early'],
                   sorted(t.count('.') - s.count('.') for t, s in maps.items())]


HEAD = '''
import numpy as np
from numerous.engine.system import Item, Subsystem
from numerous.multiphysics import EquationBase, Equation
class A(EquationBase, Item):
    def __init__(self, tag, x=1.0, inp=0.0):
        Item.__init__(self, tag)
        EquationBase.__init__(self, tag)
        self.add_state('x', x)
        self.add_parameter('inp', inp)
        self.add_parameter('out', 0.0)
        self.add_parameter('un', 7.5)
        self.add_constant('k', 2.0)
        self.create_namespace('n').add_equation(self)
    @Equation()
    def eq(self, scope):
        scope.out = scope.x * 2 + scope.inp
        scope.x_dot = scope.inp - scope.x
class P(Item):
    def __init__(self, tag, v=3.0):
        super().__init__(tag)
        ns = self.create_namespace('p')
        ns.add_equations([PE(v)])
class PE(EquationBase):
    def __init__(self, v):
        super().__init__('pe')
        self.add_parameter('v', v)
        self.add_parameter('w', v + 1)
    @Equation()
    def eq(self, scope):
        scope.w = scope.v + 1
'''


def mk(body, llvm):
    from numerous.engine.model import Model
    src = HEAD + '\nclass S(Subsystem):\n    def __init__(self):\n        super().__init__("s")\n' + \
        '\n'.join('        ' + x for x in body.strip().split('\n')) + '\n'
    return Model(util.load_source(src).S(), use_llvm=llvm)


def expect(obs, m, want, gl=(0.0,), states=None):
    _, got = util.evaluate(m, states or {}, list(gl))
    for k, v in want.items():
        obs.check(util.close(got[k], v), '%s = %r, expected %r' % (k, got[k], v))
        obs.ev('mapped_targets_checked')
    return got


def chain_params(obs, llvm):
    """parameter -> parameter -> parameter chain through variables that no equation touches"""
    m = mk('''a = A("a", 1.5); b = A("b"); c = A("c"); d = A("d")
self.register_items([d, b, a, c])
d.n.un = c.n.un
c.n.un = b.n.un
b.n.un = a.n.out
a.n.inp = d.n.k''', llvm)
    expect(obs, m, {'s.d.n.un': 5.0, 's.c.n.un': 5.0, 's.b.n.un': 5.0, 's.a.n.inp': 2.0})
    expect(obs, m, {'s.d.n.un': -4.0}, states={'s.a.n.x': -3.0})


def deriv_source(obs, llvm):
    """a derivative is a legal source"""
    m = mk('''a = A("a", 1.5, 4.0); b = A("b")
self.register_items([a, b])
b.n.inp = a.n.x_dot''', llvm)
    expect(obs, m, {'s.b.n.inp': 2.5, 's.b.n.out': 4.5})
    expect(obs, m, {'s.b.n.inp': 3.0, 's.b.n.out': 5.0}, states={'s.a.n.x': 1.0})


def remap(obs, llvm):
    """a later assignment of a mapping replaces the earlier one"""
    m = mk('''a = A("a", 1.5); b = A("b", 2.5); c = A("c")
self.register_items([a, b, c])
c.n.inp = a.n.x
c.n.inp = b.n.x''', llvm)
    expect(obs, m, {'s.c.n.inp': 2.5})
    expect(obs, m, {'s.c.n.inp': -2.0}, states={'s.b.n.x': -2.0, 's.a.n.x': 9.0})


def remap_shared(obs, llvm):
    """a mapping is replaced after others were mapped to its target: they follow the new one"""
    for order in ('c.n.inp = a.n.x\nd.n.inp = c.n.inp\nc.n.inp = b.n.x', 'c.n.inp = a.n.x\nd.n.inp = c.n.inp\ne.n.un = d.n.inp\nc.n.inp = b.n.x\ne.n.inp = c.n.inp',
                  'd.n.inp = c.n.inp\nc.n.inp = a.n.x\nc.n.inp = b.n.x'):
        m = mk('''a = A("a", 1.5); b = A("b", 2.5); c = A("c"); d = A("d"); e = A("e")
self.register_items([a, b, c, d, e])
''' + order, llvm)
        expect(obs, m, {'s.c.n.inp': 2.5, 's.d.n.inp': 2.5, 's.d.n.out': 4.5})
        expect(obs, m, {'s.c.n.inp': -2.0, 's.d.n.inp': -2.0}, states={'s.b.n.x': -2.0, 's.a.n.x': 9.0})
        obs.ev('replaced_mappings')


def fan_out(obs, llvm):
    """one source, many targets, in items of different classes and depths"""
    m = mk('''a = A("a", 1.25)
sub = Subsystem("sub"); b = A("b"); c = P("c"); sub.register_items([b, c])
sub2 = Subsystem("sub2"); d = A("d"); sub2.register_items([d]); sub.register_item(sub2)
self.register_items([sub, a])
b.n.inp = a.n.out
d.n.inp = a.n.out
c.p.v = a.n.out
d.n.un = a.n.out''', llvm)
    w = {'s.sub.b.n.inp': 2.5, 's.sub.sub2.d.n.inp': 2.5, 's.sub.c.p.v': 2.5, 's.sub.c.p.w': 3.5, 's.sub.sub2.d.n.un': 2.5}
    expect(obs, m, w)
    expect(obs, m, {k: v + 2 for k, v in w.items()}, states={'s.a.n.x': 2.25})
    obs.ev('fan_out_sources')


def same_item(obs, llvm):
    """within one item, and between namespaces"""
    m = mk('''a = A("a", 1.5); q = P("q")
self.register_items([a, q])
a.n.inp = a.n.x
q.p.v = a.n.out''', llvm)
    expect(obs, m, {'s.a.n.inp': 1.5, 's.a.n.out': 4.5, 's.q.p.w': 5.5})


def constants(obs, llvm):
    m = mk('''a = A("a", 1.5); b = A("b", 1.0)
self.register_items([a, b])
b.n.inp = a.n.k
b.n.k = a.n.un''', llvm)
    expect(obs, m, {'s.b.n.inp': 2.0, 's.b.n.k': 7.5})
    m.update_variables({'s.a.n.un': -1.0})
    expect(obs, m, {'s.b.n.k': -1.0})


def long_chain(obs, llvm):
    """thirty stages, registered backwards: the value crosses all of them in one evaluation"""
    m = mk('''L = [A("i%d" % i, 1.0) for i in range(30)]
self.register_items(L[::-1])
for i in range(1, 30): L[i].n.inp = L[i - 1].n.out''', llvm)
    got = expect(obs, m, {'s.i%d.n.out' % i: 2.0 * (i + 1) for i in range(30)})
    expect(obs, m, {'s.i29.n.out': 58.0 + 10.0}, states={'s.i0.n.x': 5.0})


def update_param(obs, llvm):
    """set_variables / path_to_variable on a source reach the targets at the next evaluation"""
    m = mk('''a = P("a", 3.0); b = A("b")
self.register_items([a, b])
b.n.inp = a.p.w
b.n.un = a.p.v''', llvm)
    expect(obs, m, {'s.b.n.inp': 4.0, 's.b.n.un': 3.0})
    m.set_variables({'s.a.p.v': 10.0})
    expect(obs, m, {'s.b.n.inp': 11.0, 's.b.n.un': 10.0})
    m.path_to_variable['s.a.p.v'].value = -1.0
    expect(obs, m, {'s.b.n.inp': 0.0, 's.b.n.un': -1.0})


def many_targets(obs, llvm):
    """one source with far more targets than usual"""
    n = 230
    m = mk('''a = A("a", 1.5)
L = [A("i%%d" %% i, float(i)) for i in range(%d)]
self.register_items(L[:100] + [a] + L[100:])
for i in L:
    i.n.inp = a.n.out''' % n, llvm)
    for x in (1.5, -2.0):
        w = {'s.i%d.n.inp' % i: 2 * x for i in range(n)}
        w.update({'s.i%d.n.out' % i: 2.0 * i + 2 * x for i in range(n)})
        expect(obs, m, w, states={'s.a.n.x': x})
    obs.ev('fan_out_sources', n)
    obs.ev('sources_with_many_targets')


def no_equations(obs, llvm):
    """models with mappings and no equation at all: the source may be the very first variable of the mapping graph"""
    from numerous.engine.model import Model
    for body, want, upd, want2 in (
            ('b.n.s = a.n.p', {'s.b.n.s': 2.0}, {'s.a.n.p': 7.0}, {'s.b.n.s': 7.0}),
            ('b.n.s = a.n.p\na.n.s = b.n.p', {'s.b.n.s': 2.0, 's.a.n.s': 3.0}, {'s.b.n.p': -1.0}, {'s.b.n.s': 2.0, 's.a.n.s': -1.0}),
            ('b.n.s = a.n.s\nc.n.s = b.n.s', {'s.c.n.s': 12.0}, {'s.a.n.s': 5.5}, {'s.b.n.s': 5.5, 's.c.n.s': 5.5})):
        src = HEAD + """
class QE(EquationBase):
    def __init__(self, v):
        super().__init__('qe')
        self.add_parameter('p', v)
        self.add_parameter('s', v + 10)
class Q(Item):
    def __init__(self, tag, v):
        super().__init__(tag)
        self.create_namespace('n').add_equations([QE(v)])
class S(Subsystem):
    def __init__(self):
        super().__init__('s')
        a = Q('a', 2.0); b = Q('b', 3.0); c = Q('c', 4.0)
        self.register_items([a, b, c])
""" + ''.join('        %s\n' % x for x in body.split('\n'))
        m = Model(util.load_source(src).S(), use_llvm=llvm)
        m.compiled_compute(np.zeros(0), np.zeros(1))
        for k, v in want.items():
            obs.check(m.get_variables()[k] == v, '%s = %r, expected %r (%s)' % (k, m.get_variables()[k], v, body))
        m.set_variables(upd)
        m.compiled_compute(np.zeros(0), np.zeros(1))
        for k, v in want2.items():
            obs.check(m.get_variables()[k] == v, '%s = %r, expected %r after %r (%s)' % (k, m.get_variables()[k], v, upd, body))
            obs.ev('mapped_targets_checked')
    obs.ev('models_without_equations')


HAND = {f.__name__: f for f in (chain_params, deriv_source, remap, remap_shared, fan_out, same_item, constants, long_chain, update_param, many_targets,
                                  no_equations)}
