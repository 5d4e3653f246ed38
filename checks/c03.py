"""Summation mappings: the target is exactly the sum of all contributions."""
import random

import numpy as np

from nv import gen, util
from checks import c02

RULE = ('a case is a system with at least one += target whose value was compared with the sum of the values its sources have '
        'in the same evaluation (plus the target\'s own equation value); distinct = (fan-ins, own-equation flags, backend)')
NEED = ['sum_targets_checked', 'targets_with_own_equation', 'derivative_targets', 'sums_of_sums', 'repeated_sources', 'llvm_models',
        'hand_shapes', 'wide_sums', 'hundreds_of_contributions']
ASSUMPTIONS = ['floating point equality up to 1e-9 relative']
CFG = dict(timeout=60, budget=300, min_cases=150)

PROFS = {
    'sums': {'pmap': 1.0, 'psum': 1.0, 'paccsum': .9, 'pacc': .7, 'ninputs': [1, 2, 3], 'nitems': [3, 4, 5], 'size': [0, 1]},
    'acc': {'pmap': .5, 'psum': .6, 'paccsum': 1.0, 'pacc': 1.0, 'nstates': [1, 2], 'nitems': [2, 3, 4], 'size': [0, 1], 'dupsum': True},
    'chains': {'pmap': 1.0, 'psum': .8, 'paccsum': .8, 'pacc': .8, 'neq': [1, 2], 'nitems': [5, 6], 'size': [0], 'depth': [1, 2, 3]},
    'dups': {'pmap': 1.0, 'psum': 1.0, 'paccsum': .9, 'nitems': [1, 2], 'ncls': [1], 'size': [0], 'dupsum': True},
}


def cases(seed, tier):
    n = 600 if tier == 'quick' else 12000
    r = random.Random(seed * 15485863 + 3)
    for k in sorted(HAND):
        for llvm in (False, True):
            yield {'hand': k, 'llvm': llvm}
    names = sorted(PROFS)
    for i in range(n):
        yield {'seed': r.randrange(1 << 40), 'prof': names[i % len(names)], 'llvm': i % 8 == 0}


def run_case(p, obs):
    if 'hand' in p:
        obs.key = ['hand', p['hand'], p['llvm']]
        obs.ev('hand_shapes')
        return HAND[p['hand']](obs, p['llvm'])
    spec = gen.gen_spec(p['seed'], PROFS[p['prof']])
    ref = util.ref_or_invalid(spec)
    model, top, N = util.build_model(spec, llvm=p['llvm'])
    obs.ev('llvm_models' if p['llvm'] else 'ast_models')
    sums = {}
    for t, s, k, _ in spec['maps']:
        if k == 'sum':
            sums.setdefault(t, []).append(s)
    own = {w[:-3] for n in ref.nodes for w in n[3] if w.endswith('@eq')}
    for it, (states, gl, gd) in enumerate(util.eval_points(spec, ref, 3, p['seed'])):
        d, got = util.evaluate(model, states, gl)
        for t, ss in sums.items():
            if t not in own:
                w = sum(got[s] for s in ss)
                obs.check(util.close(got[t], w), '%s = %r but its %d sources sum to %r (evaluation %d)' % (t, got[t], len(ss), w, it))
            else:
                obs.ev('targets_with_own_equation')
            obs.ev('sum_targets_checked')
            if t.endswith('_dot'):
                obs.ev('derivative_targets')
            if any(s in sums for s in ss):
                obs.ev('sums_of_sums')
            if len(set(ss)) < len(ss):
                obs.ev('repeated_sources')
        want = ref.eval(states, gd)
        util.compare(obs, got, want, 'evaluation %d' % it)
    if sums:
        obs.key = [sorted(len(v) for v in sums.values()), len(own), p['llvm'], len(ref.nodes)]


def wide(obs, llvm):
    """forty sources into one parameter and one derivative"""
    m = c02.mk('''L = [A("i%d" % i, 0.5 + i) for i in range(40)]
b = A("b", 1.0); sub = Subsystem("sub"); sub.register_items([b])
self.register_items(L + [sub])
for i in L:
    b.n.inp += i.n.out
for i in L:
    b.n.x_dot += i.n.x''', llvm)
    out = sum(2 * (0.5 + i) for i in range(40))
    c02.expect(obs, m, {'s.sub.b.n.inp': out, 's.sub.b.n.x_dot': out - 1.0 + out / 2, 's.sub.b.n.out': out + 2.0})
    obs.ev('wide_sums')
    obs.ev('sum_targets_checked')


def very_wide(obs, llvm):
    """hundreds of contributions, to one target from many items and to one from few sources"""
    m = c02.mk('''L = [A("i%d" % i, 0.5 + i) for i in range(410)]
b = A("b", 1.0)
self.register_items(L[:200] + [b] + L[200:])
for i in L:
    b.n.inp += i.n.out
for i in L[:3] * 120:
    b.n.x_dot += i.n.x''', llvm)
    out = sum(2 * (0.5 + i) for i in range(410))
    c02.expect(obs, m, {'s.b.n.inp': out, 's.b.n.x_dot': out - 1.0 + 120 * (0.5 + 1.5 + 2.5), 's.b.n.out': out + 2.0})
    c02.expect(obs, m, {'s.b.n.inp': out - 1.0, 's.b.n.x_dot': out - 2.0 + 120 * 4.0}, states={'s.i0.n.x': 0.0})
    obs.ev('hundreds_of_contributions')
    obs.ev('sum_targets_checked')


def dup(obs, llvm):
    """the same source twice counts twice"""
    m = c02.mk('''a = A("a", 1.5); b = A("b", 1.0)
self.register_items([a, b])
b.n.inp += a.n.x
b.n.inp += a.n.x
b.n.inp += a.n.k''', llvm)
    c02.expect(obs, m, {'s.b.n.inp': 5.0})
    obs.ev('repeated_sources')


def own_eq(obs, llvm):
    """an equation's own value of the target is one of the contributions; instances without a sum keep theirs"""
    m = c02.mk('''a = A("a", 1.5, 1.0); b = A("b", 1.0, 1.0); c = A("c", -1.0, 1.0)
self.register_items([c, a, b])
b.n.out += a.n.x
b.n.out += c.n.x
a.n.x_dot += b.n.out''', llvm)
    for _ in range(3):
        c02.expect(obs, m, {'s.a.n.out': 4.0, 's.c.n.out': -1.0, 's.b.n.out': 3.5, 's.a.n.x_dot': 3.0, 's.b.n.x_dot': 0.0, 's.c.n.x_dot': 2.0})
    obs.ev('targets_with_own_equation', 3)


def sum_of_sum(obs, llvm):
    m = c02.mk('''a = A("a", 1.0); b = A("b", 2.0); c = A("c", 3.0); d = A("d", 4.0)
self.register_items([d, c, b, a])
b.n.inp += a.n.out
b.n.inp += a.n.x
c.n.inp += b.n.inp
c.n.inp += b.n.out
d.n.inp += c.n.inp
d.n.inp += b.n.inp
d.n.un = d.n.inp''', llvm)
    c02.expect(obs, m, {'s.b.n.inp': 3.0, 's.c.n.inp': 10.0, 's.d.n.inp': 13.0, 's.d.n.out': 21.0, 's.d.n.un': 13.0})
    c02.expect(obs, m, {'s.b.n.inp': -3.0, 's.c.n.inp': -3.0 + 1.0, 's.d.n.inp': -5.0}, states={'s.a.n.x': -1.0})
    obs.ev('sums_of_sums')


def api(obs, llvm):
    """add_sum_mapping and += are the same thing"""
    m = c02.mk('''a = A("a", 1.5); b = A("b", 1.0)
self.register_items([a, b])
b.n.inp.add_sum_mapping(a.n.x)
b.n.inp += a.n.k''', llvm)
    c02.expect(obs, m, {'s.b.n.inp': 3.5})


def single(obs, llvm):
    """a sum of one source, and an unregistered value never leaks in: the initial value is not a contribution"""
    m = c02.mk('''a = A("a", 1.5); b = A("b", 1.0, 100.0)
self.register_items([a, b])
b.n.inp += a.n.x''', llvm)
    c02.expect(obs, m, {'s.b.n.inp': 1.5})
    c02.expect(obs, m, {'s.b.n.inp': 1.5})


def cancel(obs, llvm):
    """contributions of opposite sign, evaluated repeatedly: nothing accumulates between evaluations"""
    m = c02.mk('''a = A("a", 1.5); b = A("b", -1.5); c = A("c")
self.register_items([a, b, c])
c.n.inp += a.n.x
c.n.inp += b.n.x
c.n.x_dot += a.n.x''', llvm)
    for i in range(5):
        c02.expect(obs, m, {'s.c.n.inp': 0.0, 's.c.n.x_dot': -1.0 + 1.5})


HAND = {f.__name__: f for f in (wide, very_wide, dup, own_eq, sum_of_sum, api, single, cancel)}
