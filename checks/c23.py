"""However its variables and equations are declared, a system is the system declared."""
import random
import types

import numpy as np

from nv import gen, util

RULE = ('a case is a system of named variables and equations, declared in a random mixture of forms (methods, inherited and overridden methods, host functions, inline sources, shared decorators, several '
        'equation objects, single and collected declarations, repeated declarations, integrated parameters, and layouts of the source); types, initial values and all values of several evaluations were '
        'compared with the same equations run as Python; distinct = distinct (variables, equations, forms)')
FORMS = ['method', 'inherited', 'overriding', 'host', 'inline', 'shared_decorator', 'called_decorator', 'removed']
LAYOUTS = ['plain', 'comment_first_column', 'docstring', 'one_line', 'broken_lines', 'backslash', 'comments', 'annotated', 'returns', 'tabs']
NEED = (['models', 'values_compared', 'initial_values', 'types_compared', 'llvm_models', 'several_objects', 'repeated_declarations', 'collected_declarations', 'integrated', 'object_of_two_items',
         'object_of_two_namespaces', 'two_items_of_a_class', 'reads_of_other_equations', 'aliases', 'refused_states'] + ['form_' + f for f in FORMS] + ['layout_' + f for f in LAYOUTS])
ASSUMPTIONS = ['a variable is assigned by one equation of its namespace, and the equations of a namespace have no cycle', 'a variable declared again is declared with the same initial value or with a lower type']
CFG = dict(timeout=90, budget=300, min_cases=60)
VARS = ['x', 'y', 'z', 'p', 'q', 'k', 'a1', 'a2', 'u_', 'w', 'level', 'T_in']
EQN = ['eq', 'eval', 'b', 'a', 'zz', 'calc', 'eq1', 'eq10', 'diff', 'f', 'run', '_hidden']
KIND = {'state': 'STATE', 'parameter': 'PARAMETER', 'constant': 'CONSTANT'}


def cases(seed, tier):
    n = 240 if tier == 'quick' else 4000
    r = random.Random(seed * 86028121 + 23)
    for i in range(n):
        yield {'seed': r.randrange(1 << 40), 'llvm': i % 4 == 1, 'form': FORMS[i % len(FORMS)], 'layout': LAYOUTS[(i // 3) % len(LAYOUTS)]}


def make_ns(r, p):
    """variables and equations of one namespace"""
    names = r.sample(VARS, r.choice([3, 4, 5, 6, 7]))
    vs = {}
    for i, v in enumerate(names):
        kind = 'state' if i == 0 else r.choice(['state', 'parameter', 'parameter', 'constant'])
        val = r.choice([0, 1, -2, 0.5, round(r.uniform(-3, 3), 3), round(r.uniform(-3, 3), 3)])
        vs[v] = {'kind': kind, 'val': val, 'alias': None, 'integrate': None, 'num': r.choice(['%r', '%r', 'np.float64(%r)'] + (['np.int64(%r)'] if isinstance(val, int) else []))}
    outs = [v for v in names if vs[v]['kind'] == 'parameter' and r.random() < .75]
    dots = [v for v in names if vs[v]['kind'] == 'state' and r.random() < .85]
    targets = outs + [v + '_dot' for v in dots]
    r.shuffle(targets)
    groups = []
    while targets:
        k = r.choice([1, 1, 2, 3])
        groups.append(targets[:k])
        targets = targets[k:]
    for o in outs:
        if r.random() < .3:
            vs[o]['integrate'] = {'tag': 'i_' + o, 'scale': r.choice([1, 2.5, -0.5, 1 / 3600, 1e-7])}
    eqs = []
    done = []
    tags = r.sample(EQN, min(len(groups), len(EQN)))
    for g, tag in zip(groups, tags):
        ins = [(v, 3.0) for v in names if v not in outs] + [(v, 6.0) for v in done if not v.endswith('_dot')]
        r.shuffle(ins)
        lines = gen.gen_body(r, ins[:5], g, fns=[('dbl', 1), ('mod_f', 2)], size=r.choice([0, 0, 1, 2]), feats={'depth': 2})
        simple = not any(x.startswith((' ', 'if ', 'else', 'elif')) for x in lines)
        form = r.choice(FORMS)
        layout = r.choice(LAYOUTS)
        if not eqs:
            form, layout = p['form'], p['layout']
        if layout == 'one_line' and not simple:
            layout = 'plain'
        eqs.append({'tag': tag, 'lines': lines, 'outs': g, 'form': form, 'layout': layout, 'obj': 0})
        done += g
    return {'vars': vs, 'order': names, 'eqs': eqs}


def layout(lines, kind, head, r):
    """lines of a function definition at indentation 0"""
    ind = '\t' if kind == 'tabs' else '    '
    body = [ind + x.replace('    ', ind) if kind == 'tabs' else ind + x for x in lines]
    if kind == 'comment_first_column':
        k = r.randint(0, len(body) - 1)
        body = body[:k] + ['@0# a comment in the first column'] + body[k:]
    elif kind == 'docstring':
        body = [ind + '"""Computes', '@0the values of scope.x = 1', ind + '"""'] + body
    elif kind == 'one_line':
        return [head + ' ' + '; '.join(lines)]
    elif kind in ('broken_lines', 'backslash'):
        out = []
        for x in body:
            k = x.find(' = ')
            s = x.strip()
            if k < 0 or s.startswith(('if ', 'elif ', 'else')) or '[' in s or ',' in s or s.count(' = ') > 1:
                out.append(x)
            elif kind == 'backslash':
                out += [x[:k] + ' = \\', x[k + 3:]]
            else:
                out += [x[:k] + ' = (', '@0' + x[k + 3:] + ')']
        body = out
    elif kind == 'comments':
        body = [ind + '# first'] + body[:1] + ['', ind + '# scope.x = 5'] + [x + '  # scope.x' for x in body[1:]] + ['', ind + '# last']
    elif kind == 'returns':
        body = body + [ind + r.choice(['return', 'return None', 'pass'])]
    if kind == 'annotated':
        head = head.replace('self, scope', "this, scope: 'Scope'").replace('):', ') -> None:')
    return [head] + body


def shift(lines, n):
    """nested n spaces deep, except what stays in the first column"""
    return [x[2:] if x.startswith('@0') else (' ' * n + x if x.strip() else x) for x in lines]


def render(S, r):
    o = ['import numpy as np', 'from numerous.engine.system import Item, Subsystem',
         'from numerous.multiphysics import EquationBase, Equation, NumerousFunction',
         'from numerous.multiphysics.equation_decorators import InlineEquation, add_equation', '',
         'SHARED = Equation()', 'FACTOR = 1.5',
         '@NumerousFunction()', 'def dbl(x):', '    return np.tanh(2 * x)',
         '@NumerousFunction()', 'def mod_f(x, y):', '    return np.sin(x) * FACTOR - np.cos(y)', '']
    for ci, cl in enumerate(S['classes']):
        for ni, ns in enumerate(cl['nss']):
            for oi in range(ns['nobj']):
                host, base, own, init = [], [], [], []
                nm = 'E%d_%d_%d' % (ci, ni, oi)
                for k, e in enumerate(ns['eqs']):
                    if e['obj'] != oi:
                        continue
                    f = e['form']
                    src = layout(e['lines'], e['layout'], 'def %s(self, scope):' % e['tag'], r)
                    if f == 'host':
                        host += [x[2:] if x.startswith('@0') else x for x in layout(e['lines'], e['layout'], 'def %s_%s(self, scope):' % (nm, e['tag']), r)] + ['']
                        init.append('add_equation(self, %s_%s)' % (nm, e['tag']))
                    elif f == 'inline':
                        n = r.choice([0, 0, 4])
                        text = '\n'.join(x if n == 0 else x for x in shift(src, n) if not x.startswith('# a comment')) if e['layout'] != 'docstring' else \
                            '\n'.join(layout(e['lines'], 'plain', 'def %s(self, scope):' % e['tag'], r))
                        if e['layout'] in ('broken_lines', 'comment_first_column'):
                            text = '\n'.join(layout(e['lines'], 'plain', 'def %s(self, scope):' % e['tag'], r))
                        init.append('self.equations.append(InlineEquation()(%r, %r, {"np": np, "dbl": dbl, "mod_f": mod_f}))' % (e['tag'], ('\n' if r.random() < .5 else '') + text))
                    elif f == 'inherited':
                        base += shift(['@Equation()'] + src, 4) + ['']
                    elif f in ('overriding', 'removed'):
                        other = ['def %s(self, scope):' % e['tag']] + ['    scope.%s = 77.0' % t for t in e['outs']]
                        if f == 'removed':
                            # an equation of the base class is no equation if a plain method replaces it
                            other[0] = other[0].replace(e['tag'] + '(', e['tag'] + '_gone(')
                            own += shift(['def %s_gone(self, scope):' % e['tag'], '    return None'], 4)
                        base += shift(['@Equation()'] + other, 4) + ['']
                        own += shift(['@Equation()'] + src, 4) + ['']
                    elif f == 'shared_decorator':
                        own += shift(['@SHARED'] + src, 4) + ['']
                    elif f == 'called_decorator':
                        own += shift(src + ['%s = Equation()(%s)' % (e['tag'], e['tag'])], 4) + ['']
                    else:
                        own += shift(['@Equation()'] + src, 4) + ['']
                o += host
                par = 'EquationBase'
                if base:
                    o += ['class B%s(EquationBase):' % nm] + base
                    par = 'B' + nm
                decl = declare(ns, oi, r)
                itself = cl['itself'] == (ni, oi)
                body = decl + init
                if itself:
                    ns['itself'] = (oi, par, own, body)
                    continue
                o += ['class %s(%s):' % (nm, par), '    def __init__(self):', "        super().__init__(tag='%s')" % nm] + ['        ' + x for x in body] + [''] + own + ['']
        it = [ns for ns in cl['nss'] if 'itself' in ns]
        par = (it[0]['itself'][1] + ', Item') if it else 'Item'
        o += ['class C%d(%s):' % (ci, par), '    def __init__(self, tag, objs):']
        if it:
            o += ['        Item.__init__(self, tag)', '        EquationBase.__init__(self, tag)'] + ['        ' + x for x in it[0]['itself'][3]]
        else:
            o += ['        super().__init__(tag)']
        for ni, ns in enumerate(cl['nss']):
            o.append("        ns = self.create_namespace('%s')" % ns['tag'])
            objs = ['self' if cl['itself'] == (ni, oi) else "objs['E%d_%d_%d']" % (ci, ni if ns.get('same_as') is None else ns['same_as'], oi) for oi in ns['objorder']]
            if r.random() < .5:
                o.append('        ns.add_equations([%s])' % ', '.join(objs))
            else:
                o += ['        ns.add_equation(%s)' % x for x in objs]
        o.append('')
        if it:
            o += it[0]['itself'][2] + ['']
    o += ['def build():', "    top = Subsystem('s')", '    shared = {}', '    def objects(names, share):', '        d = {}', '        for n in names:', '            if share:',
          '                d[n] = shared.setdefault(n, globals()[n]())', '            else:', '                d[n] = globals()[n]()', '        return d']
    for it in S['items']:
        cl = S['classes'][it['cls']]
        names = ['E%d_%d_%d' % (it['cls'], ni, oi) for ni, ns in enumerate(cl['nss']) if ns.get('same_as') is None for oi in range(ns['nobj']) if cl['itself'] != (ni, oi)]
        o.append('    top.register_item(C%d(%r, objects(%r, %r)))' % (it['cls'], it['tag'], names, it['share']))
    o.append('    return top')
    return '\n'.join(o) + '\n'


def declare(ns, oi, r):
    """the declarations of equation object oi of the namespace"""
    out = []
    pend = {'parameters': [], 'constants': []}
    names = list(ns['order'])
    r.shuffle(names)
    for v in names:
        d = ns['vars'][v]
        owners = ns['owner'][v]
        if oi not in owners:
            continue
        kind = d['kind']
        lower = owners[0] != oi and r.random() < .4 and kind != 'constant'
        val = d['num'] % d['val']
        if lower:
            kind = 'constant' if kind == 'parameter' else r.choice(['parameter', 'constant'])
            val = repr(round(r.uniform(-5, 5), 2))
        kw = ''
        if not lower:
            if d['alias']:
                kw += ', alias=%r' % d['alias']
            if d['integrate'] and owners[0] == oi:
                kw += ', integrate=%r' % d['integrate']
        if kind == 'state':
            out.append('self.add_state(%r, %s%s)' % (v, val, kw))
        elif r.random() < .5:
            if kind == 'parameter':
                items = (["'init_val': %s" % val] + (["'alias': %r" % d['alias']] if 'alias' in kw else []) + (["'integrate': %r" % d['integrate']] if 'integrate' in kw else []))
                if len(items) == 1 and r.random() < .6:
                    pend['parameters'].append('%r: %s' % (v, val))
                else:
                    pend['parameters'].append('%r: {%s}' % (v, ', '.join(items)))
            else:
                pend['constants'].append('%r: %s' % (v, val) if not kw and r.random() < .6 else '%r: {\'value\': %s%s}' % (v, val, ", 'alias': %r" % d['alias'] if kw else ''))
        elif kind == 'parameter' and not kw and not lower and d['val'] == 0 and r.random() < .7:
            out.append(r.choice(['self.add_parameters([%r])', 'self.add_parameter(%r)']) % v)
        else:
            out.append('self.add_%s(%r, %s%s)' % (kind, v, val, kw))
        if lower:
            ns['repeated'] = True
    for k, x in pend.items():
        if x:
            out.append('self.add_%s({%s})' % (k, ', '.join(x)))
            ns['collected'] = True
    return out


def make(p):
    r = random.Random(p['seed'])
    classes = []
    na = 0
    for c in range(r.choice([1, 1, 2])):
        nss = []
        for tag in r.sample(['n', 't', 'default', 'n1'], r.choice([1, 1, 2])):
            ns = make_ns(r, p)
            ns['tag'] = tag
            ns['nobj'] = r.choice([1, 1, 2, 3])
            ns['owner'] = {v: sorted(r.sample(range(ns['nobj']), r.randint(1, ns['nobj'])), key=lambda q: r.random()) for v in ns['order']}
            for e in ns['eqs']:
                e['obj'] = r.randrange(ns['nobj'])
            ns['objorder'] = r.sample(range(ns['nobj']), ns['nobj'])
            nss.append(ns)
        itself = None
        if r.random() < .5:
            ni = r.randrange(len(nss))
            itself = (ni, r.randrange(nss[ni]['nobj']))
        elif r.random() < .3 and len(nss) == 1:
            # the same equation objects in a second namespace
            nss.append(dict(nss[0], tag='again', same_as=0))
        classes.append({'nss': nss, 'itself': itself})
    items = []
    for i, tag in enumerate(r.sample(['a', 'b', 'c', 'item'], r.choice([1, 2, 2, 3]))):
        items.append({'tag': tag, 'cls': r.randrange(len(classes)), 'share': r.random() < .3})
    S = {'classes': classes, 'items': items}
    if len(items) == 1 and r.random() < .6:
        for ns in classes[items[0]['cls']]['nss']:
            if ns.get('same_as') is None and not any(n.get('same_as') is not None for n in classes[items[0]['cls']]['nss']):
                for v in ns['order']:
                    if r.random() < .3:
                        na += 1
                        ns['vars'][v]['alias'] = 'alias%d.%s' % (na, v)
    return S, r


class Fns:
    @staticmethod
    def dbl(x):
        return np.tanh(2 * x)

    @staticmethod
    def mod_f(x, y):
        return np.sin(x) * 1.5 - np.cos(y)


def expected(ns, vals):
    """values of the namespace after an evaluation which starts with vals"""
    sc = types.SimpleNamespace(**vals)
    for e in ns['eqs']:
        g = {'np': np, 'dbl': Fns.dbl, 'mod_f': Fns.mod_f}
        exec('def eq(self, scope):\n' + '\n'.join('    ' + x for x in e['lines']), g)
        g['eq'](None, sc)
    for v, d in ns['vars'].items():
        if d['integrate']:
            setattr(sc, d['integrate']['tag'] + '_dot', getattr(sc, v) * d['integrate']['scale'])
    return vars(sc)


def refused_states(obs):
    from numerous.multiphysics import EquationBase
    for bad in ('1.0', None, [1.0], np.array([1.0]), 1j):
        try:
            EquationBase('e').add_state('x', bad)
        except ValueError:
            obs.ev('refused_states')
        else:
            obs.check(False, 'a state with initial value %r was accepted' % (bad,))


def run_case(p, obs):
    S, r = make(p)
    src = render(S, r)
    mod = util.load_source(src, keep=True)
    from numerous.engine.model import Model
    m = Model(mod.build(), use_llvm=p['llvm'])
    obs.ev('models')
    if p['llvm']:
        obs.ev('llvm_models')
    refused_states(obs)
    want0, kinds, alias, spaces = {}, {}, {}, []
    for it in S['items']:
        cl = S['classes'][it['cls']]
        if it['share'] and sum(1 for j in S['items'] if j['cls'] == it['cls'] and j['share']) > 1:
            obs.ev('object_of_two_items')
        for ns in cl['nss']:
            pre = 's.%s.%s.' % (it['tag'], ns['tag'])
            spaces.append((pre, ns))
            for v, d in ns['vars'].items():
                want0[pre + v] = float(d['val'])
                kinds[pre + v] = KIND[d['kind']]
                if d['alias']:
                    alias[pre + v] = d['alias']
                if d['kind'] == 'state':
                    want0[pre + v + '_dot'] = 0.0
                    kinds[pre + v + '_dot'] = 'DERIVATIVE'
                    if d['alias']:
                        alias[pre + v + '_dot'] = d['alias'] + '_dot'
                if d['integrate']:
                    t = d['integrate']['tag']
                    want0[pre + t], want0[pre + t + '_dot'] = 0.0, 0.0
                    kinds[pre + t], kinds[pre + t + '_dot'] = 'STATE', 'DERIVATIVE'
                    obs.ev('integrated')
            if ns['nobj'] > 1:
                obs.ev('several_objects')
            if ns.get('repeated'):
                obs.ev('repeated_declarations')
            if ns.get('collected'):
                obs.ev('collected_declarations')
            if ns.get('same_as') is not None:
                obs.ev('object_of_two_namespaces')
            outs = set()
            for e in ns['eqs']:
                obs.ev('form_' + e['form'])
                obs.ev('layout_' + e['layout'])
                if any('scope.%s' % x in ln.split(' = ', 1)[-1] for x in outs for ln in e['lines']):
                    obs.ev('reads_of_other_equations')
                outs |= set(e['outs'])
    if len({it['cls'] for it in S['items']}) < len(S['items']):
        obs.ev('two_items_of_a_class')
    got = {k: (v.type.name, float(v.value)) for k, v in m.path_to_variable.items() if k in want0}
    for k in want0:
        obs.check(k in got, 'variable %s was declared but the model has no such variable' % k)
        obs.check(got[k][0] == kinds[k], '%s was declared as %s, the model has %s' % (k, kinds[k], got[k][0]))
        obs.check(got[k][1] == want0[k], '%s was declared with initial value %r, the model has %r' % (k, want0[k], got[k][1]))
        obs.ev('types_compared')
        obs.ev('initial_values')
    states = [k for k in want0 if kinds[k] == 'STATE']
    obs.check(len(m.states_as_vector) == len(states), '%d states were declared, the model has %d' % (len(states), len(m.states_as_vector)))
    vals = dict(want0)
    rng = np.random.RandomState(p['seed'] % (1 << 31))
    for n in range(3):
        st = {} if n == 0 else {k: round(float(rng.uniform(-2, 2)), 3) for k in states}
        vals.update(st)
        want = {}
        for pre, ns in spaces:
            v = expected(ns, {k[len(pre):]: x for k, x in vals.items() if k.startswith(pre)})
            want.update({pre + k: float(x) for k, x in v.items()})
        _, after = util.evaluate(m, {alias.get(k, k): x for k, x in st.items()}, [float(n)])
        named = {alias.get(k, k): x for k, x in want.items()}
        if alias:
            obs.ev('aliases')
        util.compare(obs, after, named, 'evaluation %d' % n)
        vals = want
    obs.key = [[pre, str(ns['eqs']), str(ns['vars'])] for pre, ns in spaces] + [p['llvm']]
