"""Equations mean what their Python source means (both code generators)."""
import random

import numpy as np

from nv import gen, util
from nv.harness import Invalid

RULE = ('a case is a generated system with at least one equation whose compiled evaluation was compared, variable by '
        'variable, with the same source run by Python; distinct = distinct (features used, system shape) signature')
NEED = ['values_compared', 'llvm_models', 'ast_models', 'if_statements', 'tuple_assignments', 'functions_called',
        'second_evaluations', 'known_shapes', 'large_equations']
ASSUMPTIONS = ['generated sources stay inside the statement forms the engine accepts: anything it rejects loudly is not judged',
               'floating point equality up to 1e-9 relative']
CFG = dict(timeout=60, budget=300, min_cases=150)

PROFS = {
    'default': {},
    'deep': {'feats': {'depth': 5}, 'size': [3, 5, 8], 'nitems': [1, 2], 'ncls': [1]},
    'flow': {'size': [6, 9, 12], 'ppers': .5, 'nitems': [1, 2], 'nouts': [1, 2, 3], 'psum': .2},
    'wide': {'nitems': [6, 8, 10], 'ncls': [3, 4], 'depth': [2, 3, 4], 'size': [0, 1]},
    'funcs': {'pfuncs': 1.0, 'pself': .7, 'nitems': [1, 2, 3]},
    'globals': {'pglob': 1.0, 'nitems': [1, 2]},
    'chain': {'neq': [2, 3], 'nouts': [2, 3], 'nitems': [1, 2, 3], 'size': [0, 2]},
}


def cases(seed, tier):
    n = 700 if tier == 'quick' else 12000
    r = random.Random(seed * 7919 + 13)
    for k in range(len(SHAPES)):
        yield {'shape': k, 'llvm': False}
        yield {'shape': k, 'llvm': True}
    for k in range(2 if tier == 'quick' else 12):
        yield {'big': r.randrange(1 << 40), 'llvm': k % 2 == 1}
    yield {'kf': 'self_fn'}
    yield {'kf': 's_local'}
    names = sorted(PROFS)
    for i in range(n):
        yield {'seed': r.randrange(1 << 40), 'prof': names[i % len(names)], 'llvm': i % 8 == 0}


def run_case(p, obs):
    if 'shape' in p:
        return run_shape(p, obs)
    if 'big' in p:
        return run_big(p, obs)
    if 'kf' in p:
        return KF[p['kf']](obs)
    spec = gen.gen_spec(p['seed'], PROFS[p['prof']])
    ref = util.ref_or_invalid(spec)
    model, top, N = util.build_model(spec, llvm=p['llvm'])
    obs.ev('llvm_models' if p['llvm'] else 'ast_models')
    src = '\n'.join(x for c in spec['classes'] for u in c['nss'] for e in u['eqs'] for x in e['lines'])
    for it, (states, gl, gd) in enumerate(util.eval_points(spec, ref, 4, p['seed'])):
        d, got = util.evaluate(model, states, gl)
        want = ref.eval(states, gd)
        util.compare(obs, got, want, 'evaluation %d (%s)' % (it, 'llvm' if p['llvm'] else 'ast'))
        if it:
            obs.ev('second_evaluations')
    feats = {'if': 'if ' in src, 'tuple': any(', ' in l.split('=')[0] for l in src.split('\n')),
             'fn': 'gf1(' in src or 'gf2(' in src or 'cf(' in src, 'aug': '+= ' in src or '-= ' in src,
             'ifexp': ' if ' in src, 'pow': '**' in src, 'list': '= [' in src, 'glob': 'global_vars' in src,
             'elif': 'elif ' in src, 'else': 'else:' in src}
    for k, e in (('if', 'if_statements'), ('tuple', 'tuple_assignments'), ('fn', 'functions_called')):
        if feats[k]:
            obs.ev(e)
    obs.key = [p['llvm'], sorted(k for k, v in feats.items() if v), len(src.split('\n')), len(ref.nodes), len(spec['maps'])]
    obs.notes['lines'] = len(src.split('\n'))


# ---- hand-written shapes: (body lines, expected through Python on the same values) ---------------------------
SHAPES = [
    ['scope.o1 = -scope.a ** 2', 'scope.o2 = 2 ** -scope.b', 'scope.o3 = scope.a - scope.b - scope.c',
     'scope.o4 = scope.a / scope.b / scope.c', 'scope.o5 = scope.a - (scope.b - scope.c)'],
    ['scope.o1 = scope.a ** 2 ** 1.5', 'scope.o2 = (scope.a ** 2) ** 1.5', 'scope.o3 = -(-scope.a)',
     'scope.o4 = 1 / (scope.a + 2) * scope.b', 'scope.o5 = 7 / 2 + 3 * scope.a'],
    ['scope.o1 = 1 if scope.a < scope.b else 2', 'scope.o2 = 1 if scope.a <= scope.a else 2',
     'scope.o3 = 1 if scope.a >= scope.b else (2 if scope.b > scope.c else 3)', 'scope.o4 = 1 if scope.a == scope.a else 2',
     'scope.o5 = 1 if scope.a != scope.b else 2'],
    ['scope.o1 = 1 if 0 < scope.a < scope.b else 2', 'scope.o2 = (scope.a if scope.a > scope.b else scope.b) * 2',
     'scope.o3 = abs(scope.a) + max(scope.a, scope.b) - min(scope.b, scope.c)', 'scope.o4 = np.sqrt(np.abs(scope.a)) * np.exp(scope.b / 9)',
     'scope.o5 = np.arctan2(scope.a, scope.b + 4) + np.power(np.abs(scope.c) + 1, 0.5)'],
    ['x = scope.a', 'x = x + 1', 'x = x * x', 'x += scope.b', 'x -= 2', 'x *= scope.c', 'scope.o1 = x', 'y = x', 'x = 3',
     'scope.o2 = x + y', 'scope.o3 = y', 'scope.o4 = x', 'scope.o5 = scope.o1 + scope.o2'],
    ['x, y = scope.a, scope.b', 'x, y = y, x', 'scope.o1 = x', 'scope.o2 = y', 'scope.o3, scope.o4 = scope.o2, scope.o1',
     'scope.o5 = x - y'],
    ['v = [scope.a, scope.b + 1, scope.c]', 'scope.o1 = v[0]', 'scope.o2 = v[1] * v[2]', 'w = v[2]', 'scope.o3 = w', 'scope.o4 = v[0] - w',
     'scope.o5 = 0.5'],
    ['x = 1', 'if scope.a > 0:', '    x = 2', 'scope.o1 = x', 'if scope.a > 0:', '    x = x + 1', 'elif scope.b > 0:', '    x = x - 5',
     'else:', '    x = 100', 'scope.o2 = x', 'scope.o3 = 4', 'if scope.b > scope.a:', '    scope.o3 = 5', 'scope.o4 = scope.o3',
     'scope.o5 = 1'],
    ['x = 1', 'if scope.a > -0.5:', '    x = 2', '    if scope.b > 0:', '        x = 3', '        y = 4', '        x = x + y',
     '    else:', '        x = 5', 'scope.o1 = x', 'scope.o2 = 1', 'scope.o3 = 1', 'scope.o4 = 1', 'scope.o5 = 1'],
    ['scope.o1 = scope.a', 'scope.o1 += scope.b', 'scope.o2 = scope.o1', 'scope.o2 -= scope.c', 'scope.o3 = scope.o1 + scope.o2',
     'scope.o3 *= 2', 'scope.o4 = scope.o3', 'scope.o4 /= (scope.a ** 2 + 1)', 'scope.o5 = scope.o4 - scope.o3'],
    ['scope.o1 = scope.global_vars.t * scope.a', 'scope.o2 = np.sin(scope.global_vars.t) + scope.global_vars.gain',
     'scope.o3 = scope.global_vars.gain - scope.global_vars.t', 'scope.o4 = 1 if scope.global_vars.t > 1 else 0', 'scope.o5 = 0'],
    ['scope.o1 = shape_f(scope.a, scope.b)', 'scope.o2 = shape_f(scope.b, scope.a)', 'x, y = shape_g(scope.a)',
     'scope.o3 = x - y', 'scope.o4, scope.o5 = shape_g(shape_f(scope.b, 1.0))'],
    ['scope.o1 = 1e-3 * scope.a + 1.5e4', 'scope.o2 = 10 ** 3 * scope.b', 'scope.o3 = 0.1 + 0.2', 'scope.o4 = 1', 'scope.o5 = -1.25'],
    ['"""a docstring"""', '# a comment', 'scope.o1 = (scope.a +', '            scope.b)', 'scope.o2 = scope.a \\', '    - scope.b',
     'scope.o3 = 1; scope.o4 = 2', 'scope.o5 = scope.o3 - scope.o4'],
    ['tmp0 = scope.a', 'tmp1 = tmp0 + 1', 'tmp2 = tmp1 * scope.b', 'scope.o1 = tmp2 - tmp0', 'scope.o2 = tmp1', 'l = scope.c', 'o1 = l + 1',
     'scope.o3 = o1', 'scope.o4 = l', 'a = scope.b', 'scope.o5 = a - scope.a'],
]


def run_shape(p, obs):
    body = SHAPES[p['shape']]
    lines = ['import numpy as np', 'from numerous.engine.system import Item, Subsystem',
             'from numerous.multiphysics import EquationBase, Equation, NumerousFunction',
             '@NumerousFunction()', 'def shape_f(x, y):', '    z = x - 2 * y', '    if z > 0:', '        return z * z', '    return x + y',
             '@NumerousFunction()', 'def shape_g(x):', '    return x * 2, x - 1',
             'class A(EquationBase, Item):', '    def __init__(self, tag, a, b, c):', '        Item.__init__(self, tag)',
             '        EquationBase.__init__(self, tag)',
             '        self.add_state("a", a)', '        self.add_parameter("b", b)', '        self.add_constant("c", c)']
    lines += ['        self.add_parameter("o%d", 0.0)' % k for k in range(1, 6)]
    lines += ['        self.create_namespace("n").add_equation(self)', '    @Equation()', '    def eq(self, scope):']
    lines += ['        ' + x for x in body]
    lines += ['        scope.a_dot = scope.b - scope.a']
    vals = [('i', 1.25, -0.75, 2.0), ('j', -1.5, 0.5, 0.25), ('k', 0.5, 1.5, -2.5)]
    lines += ['class S(Subsystem):', '    def __init__(self):', '        super().__init__("s")',
              '        self.register_items([%s])' % ', '.join('A(%r, %r, %r, %r)' % v for v in vals)]
    from numerous.engine.model import Model
    mod = util.load_source('\n'.join(lines) + '\n')
    model = Model(mod.S(), use_llvm=p['llvm'], global_variables=[('gain', 2.5)])
    obs.ev('llvm_models' if p['llvm'] else 'ast_models')
    ns = {}
    exec('import numpy as np\ndef shape_f(x, y):\n    z = x - 2 * y\n    if z > 0:\n        return z * z\n    return x + y\n'
         'def shape_g(x):\n    return x * 2, x - 1\ndef eq(self, scope):\n' + '\n'.join('    ' + x for x in body), ns)
    for t in (0.5, 2.0):
        _, got = util.evaluate(model, {}, [t, 2.5])
        for tag, a, b, c in vals:
            sc = gen._NS()
            for k, v in (('a', a), ('b', b), ('c', c), ('o1', 0.), ('o2', 0.), ('o3', 0.), ('o4', 0.), ('o5', 0.)):
                setattr(sc, k, np.float64(v))
            sc.global_vars = gen._NS()
            sc.global_vars.t, sc.global_vars.gain = np.float64(t), np.float64(2.5)
            ns['eq'](None, sc)
            util.compare(obs, got, {'s.%s.n.o%d' % (tag, k): getattr(sc, 'o%d' % k) for k in range(1, 6)}, 'shape %d' % p['shape'])
    obs.ev('known_shapes')
    obs.key = [p['shape'], p['llvm']]


def run_big(p, obs):
    """one equation with far more variables, statements and branches than usual"""
    r = random.Random(p['big'])
    n, outs, loc, body = r.choice([120, 160, 210]), [], [], []
    ins = ['scope.i%d' % k for k in range(n)]
    k = 0
    while k < n:
        src = lambda: r.choice(ins + outs[-30:] + loc[-5:])
        e = '%r * %s - %r * %s + %s' % (gen.fl(r), src(), .25, src(), src())
        kind = r.random()
        if kind < .2:
            body.append('l%d = %s' % (k, e))
            loc.append('l%d' % k)
        elif kind < .5:
            body += ['if %s > %s:' % (src(), src()), '    scope.o%d = %s' % (k, e)]
            if r.random() < .5:
                body += ['elif %s < %r:' % (src(), gen.fl(r)), '    scope.o%d = %s' % (k, src())]
            body += ['else:', '    scope.o%d = %s' % (k, src())]
        else:
            body.append('scope.o%d = %s' % (k, e))
        if kind >= .2:
            outs.append('scope.o%d' % k)
            k += 1
        if len(loc) > 60:
            loc = loc[30:]
    vals = [[gen.fl(r) for _ in range(n)] for _ in range(2)]
    lines = ['from numerous.engine.system import Item, Subsystem', 'from numerous.multiphysics import EquationBase, Equation',
             'class A(EquationBase, Item):', '    def __init__(self, tag, v):', '        Item.__init__(self, tag)',
             '        EquationBase.__init__(self, tag)', '        for k, x in enumerate(v):',
             '            self.add_parameter("o%d" % k, 0.0)', '            self.add_parameter("i%d" % k, x)',
             '        self.create_namespace("n").add_equation(self)', '    @Equation()', '    def eq(self, scope):']
    lines += ['        ' + x for x in body]
    lines += ['class S(Subsystem):', '    def __init__(self):', '        super().__init__("s")',
              '        self.register_items([A("a", %r), A("b", %r)])' % tuple(vals)]
    from numerous.engine.model import Model
    model = Model(util.load_source('\n'.join(lines) + '\n').S(), use_llvm=p['llvm'])
    ns = {}
    exec('def eq(self, scope):\n' + '\n'.join('    ' + x for x in body), ns)
    for it in range(2):
        _, got = util.evaluate(model, {}, [0.0])
        for tag, v in zip('ab', vals):
            sc = gen._NS()
            for k in range(n):
                setattr(sc, 'i%d' % k, np.float64(v[k]))
                setattr(sc, 'o%d' % k, np.float64(got['s.%s.n.o%d' % (tag, k)]))
            ns['eq'](None, sc)
            util.compare(obs, got, {'s.%s.n.o%d' % (tag, k): getattr(sc, 'o%d' % k) for k in range(n)}, 'big equation')
    obs.ev('large_equations')
    obs.key = ['big', p['big'], p['llvm']]


# ---- known findings: probed on every run, so that the report follows the code ---------------------------------
def kf_self_fn(obs):
    src = '''
import numpy as np
from numerous.engine.system import Item, Subsystem
from numerous.multiphysics import EquationBase, Equation, NumerousFunction
class A(EquationBase, Item):
    def __init__(self, tag, c):
        Item.__init__(self, tag)
        EquationBase.__init__(self, tag)
        self.add_parameter('x', 1.0)
        self.add_parameter('y', 0.0)
        @NumerousFunction()
        def cf(x):
            return x * c
        self.cf = cf
        self.create_namespace('n').add_equation(self)
    @Equation()
    def eq(self, scope):
        scope.y = self.cf(scope.x)
class S(Subsystem):
    def __init__(self):
        super().__init__('s')
        self.register_items([A('a', 2.0), A('b', 3.0)])
'''
    from numerous.engine.model import Model
    m = Model(util.load_source(src).S(), use_llvm=False)
    _, got = util.evaluate(m, {}, [0.0])
    obs.check(util.close(got['s.b.n.y'], 3.0), 'function of the last instance: %r' % got)
    obs.check(util.close(got['s.a.n.y'], 2.0), 'an instance uses the function of another instance: y=%r, expected 2.0' % got['s.a.n.y'],
              kf='KF-01' if util.close(got['s.a.n.y'], 3.0) else None)


def kf_s_local(obs):
    src = '''
import numpy as np
from numerous.engine.system import Item, Subsystem
from numerous.multiphysics import EquationBase, Equation
class A(EquationBase, Item):
    def __init__(self, tag):
        Item.__init__(self, tag)
        EquationBase.__init__(self, tag)
        self.add_parameter('x', 1.0)
        self.add_parameter('y', 0.0)
        self.create_namespace('n').add_equation(self)
    @Equation()
    def eq(self, scope):
        s_x = 5.0
        scope.y = scope.x + s_x
class S(Subsystem):
    def __init__(self):
        super().__init__('s')
        self.register_items([A('a')])
'''
    from numerous.engine.model import Model
    m = Model(util.load_source(src).S(), use_llvm=False)
    _, got = util.evaluate(m, {}, [0.0])
    obs.check(util.close(got['s.a.n.y'], 6.0), 'local s_x and scope.x are one variable: y=%r, expected 6.0' % got['s.a.n.y'],
              kf='KF-02' if util.close(got['s.a.n.y'], 10.0) or util.close(got['s.a.n.y'], 2.0) else None)


KF = {'self_fn': kf_self_fn, 's_local': kf_s_local}
