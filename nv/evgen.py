"""Systems with events whose firing times and effects are known in closed form."""
import math
import random

import numpy as np

HEAD = '''
from numerous.multiphysics import EquationBase, Equation
from numerous.engine.system import Item, Subsystem

LOG = []


class Osc(EquationBase, Item):
    """x = A cos(w (t - s)) with s the time the simulation starts at"""

    def __init__(self, tag, A, w, phi, events=()):
        Item.__init__(self, tag)
        EquationBase.__init__(self, tag)
        self.add_state('x', A * cos(phi))
        self.add_state('v', -A * w * sin(phi))
        self.add_constant('w2', w * w)
        for n, v in PARS:
            self.add_parameter(n, v)
        for n in ('y', 'c', 'out'):
            self.add_parameter(n, 0.0)
        self.create_namespace('t').add_equation(self)
        for e in events:
            e(self)

    @Equation()
    def eq(self, scope):
        scope.y = 2 * scope.x + 1
        scope.c = scope.y * scope.y - 0.5 * scope.v
        scope.out = 3 * scope.p0 - scope.p1 + scope.y
        scope.x_dot = scope.v
        scope.v_dot = -scope.w2 * scope.x


class Ramp(EquationBase, Item):
    """x = x0 + rate (t - s), and what events add to it"""

    def __init__(self, tag, rate, x0, unused, events=()):
        Item.__init__(self, tag)
        EquationBase.__init__(self, tag)
        self.add_state('x', x0)
        self.add_constant('rate', rate)
        for n, v in PARS:
            self.add_parameter(n, v)
        for n in ('y', 'c', 'out'):
            self.add_parameter(n, 0.0)
        self.create_namespace('t').add_equation(self)
        for e in events:
            e(self)

    @Equation()
    def eq(self, scope):
        scope.y = 2 * scope.x + 1
        scope.c = scope.y * scope.y - 0.5 * scope.rate
        scope.out = 3 * scope.p0 - scope.p1 + scope.y
        scope.x_dot = scope.rate


class Still(EquationBase, Item):
    """no states: x is a parameter"""

    def __init__(self, tag, rate, x0, unused, events=()):
        Item.__init__(self, tag)
        EquationBase.__init__(self, tag)
        self.add_parameter('x', x0)
        for n, v in PARS:
            self.add_parameter(n, v)
        for n in ('y', 'c', 'out'):
            self.add_parameter(n, 0.0)
        self.create_namespace('t').add_equation(self)
        for e in events:
            e(self)

    @Equation()
    def eq(self, scope):
        scope.y = 2 * scope.x + 1
        scope.c = scope.y * scope.y
        scope.out = 3 * scope.p0 - scope.p1 + scope.y


class Sub(Subsystem):
    def __init__(self, tag, items):
        super().__init__(tag)
        self.register_items(items)


class S(Subsystem):
    def __init__(self, items):
        super().__init__('s')
        self.register_items(items)
'''


def layout(r, n, kinds=('osc', 'ramp')):
    """n items, some of them in subsystems: list of {'kind', 'tag', 'path', 'a', 'b', 'phi'}"""
    out = []
    sub = None
    tags = r.choice([['a', 'b', 'c', 'd', 'e'], ['m', 'm1', 'm11', 'n', 'o'], ['x', 't', 'v', 'p0', 's']])
    for i in range(n):
        if i and r.random() < .5:
            sub = r.choice([None, 'u', 'w'])
        path = ['s'] + ([sub] if sub else []) + [tags[i]]
        kind = r.choice(kinds)
        if kind == 'osc':
            a, b, phi = round(r.uniform(.6, 2), 3), round(r.uniform(1.2, 4), 3), round(r.uniform(0, 6.2), 3)
        else:
            a, b, phi = round(r.choice([1, -1]) * r.uniform(.5, 2), 3), round(r.uniform(-2, 2), 3), 0.0
        out.append({'kind': kind, 'tag': tags[i], 'path': path, 'sub': sub, 'a': a, 'b': b, 'phi': phi})
    return out


def value(it, var, t, s, jump=0.0):
    """closed form of a variable of an item at time t; s is the start time, jump what events added to the state of a ramp"""
    if it['kind'] == 'osc':
        w = it['b']
        x = it['a'] * math.cos(w * (t - s) + it['phi'])
        v = -it['a'] * w * math.sin(w * (t - s) + it['phi'])
    elif it['kind'] == 'ramp':
        x = it['b'] + it['a'] * (t - s) + jump
        v = it['a']
    else:
        x = it['b'] + jump
        v = 0.0
    return {'x': x, 'v': v, 'y': 2 * x + 1, 'c': (2 * x + 1) ** 2 - 0.5 * v}[var]


def source(items, events, pars):
    """Source of the module; events: {'item' index, 'level', 'key', 'fn' source of functions, 'add' source of the call}"""
    src = 'from math import cos, sin\nPARS = %r\n' % (pars,) + HEAD
    for k, e in enumerate(events):
        src += e['src'] + '\n'
    args = []
    groups = {}
    order = []
    for i, it in enumerate(items):
        regs = [k for k, e in enumerate(events) if e['level'] == 'item' and e['item'] == i]
        cons = '%s(%r, %r, %r, %r, events=[%s])' % ({'osc': 'Osc', 'ramp': 'Ramp', 'still': 'Still'}[it['kind']], it['tag'], it['a'], it['b'], it['phi'],
                                                    ', '.join('add%d' % k for k in regs))
        if it['sub']:
            if it['sub'] not in groups:
                groups[it['sub']] = []
                order.append(('sub', it['sub']))
            groups[it['sub']].append(cons)
        else:
            order.append(('item', cons))
    for kind, q in order:
        args.append(q if kind == 'item' else 'Sub(%r, [%s])' % (q, ', '.join(groups[q])))
    src += '\n\ndef build():\n    return S([%s])\n' % ', '.join(args)
    src += '\n\ndef model_events(m):\n    pass\n' + ''.join('    add%d(m)\n' % k for k, e in enumerate(events) if e['level'] == 'model')
    return src


def make(mod, llvm=False, hist=None):
    from numerous.engine.model import Model
    from numerous.utils.historian import InMemoryHistorian
    m = Model(mod.build(), use_llvm=llvm, historian=hist or InMemoryHistorian())
    mod.model_events(m)
    m.use_llvm = False
    return m


def name(it, level, var):
    """how an event names a variable of the item"""
    return 't.' + var if level == 'item' else '.'.join(it['path']) + '.t.' + var


def crossings(f, t0, t1, n=4000):
    """(time, direction) of all sign changes of f"""
    tt = np.linspace(t0, t1, n)
    y = np.array([f(t) for t in tt])
    out = []
    for k in np.nonzero(np.sign(y[:-1]) * np.sign(y[1:]) < 0)[0]:
        a, b = tt[k], tt[k + 1]
        fa = y[k]
        for _ in range(60):
            m = (a + b) / 2
            if np.sign(f(m)) == np.sign(fa):
                a = m
            else:
                b = m
        out.append((a, 1 if fa < 0 else -1))
    return out


def dip(f, t0, t1, n=4000):
    """smallest |f| at a local extremum (a near miss is not a legal case)"""
    y = np.array([f(t) for t in np.linspace(t0, t1, n)])
    d = np.diff(y)
    k = np.nonzero(d[:-1] * d[1:] < 0)[0] + 1
    return min([abs(y[0]), abs(y[-1])] + [abs(y[j]) for j in k])
