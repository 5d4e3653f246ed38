"""What the engine cannot translate it refuses; it never runs something else instead."""
import random

import numpy as np

from nv import util

RULE = ('a case is a system that is malformed in one place, or an equation with one statement or expression the engine need not support; it must be refused while the system is assembled (or give what Python gives), '
        'and its twin without the flaw must be accepted and give what Python gives; distinct = distinct (flaw, position, surroundings)')
NEED = ['equations', 'structures', 'earlier_mappings', 'refused_equations', 'refused_structures', 'accepted_equations', 'twins_compared', 'twins_built', 'at_top', 'in_if', 'in_else', 'at_end', 'llvm_models', 'sets',
        'values_compared', 'points_where_python_raises']
ASSUMPTIONS = ['a refusal is any exception raised while the system is assembled or evaluated', 'calls whose value is not used (print) need not be run, None may become nan']
CFG = dict(timeout=90, budget=300, min_cases=60)

# (name, lines): what an equation may not contain, or may contain only with the meaning it has in Python. x0..x3 outputs, a b inputs, l a local
ODD = {
    'return_early': ['return'], 'return_value': ['return scope.a'], 'return_if': ['if scope.a > 0.3:', '    scope.x3 = 4.5', '    return'], 'return_if2': ['if scope.b > scope.a:', '    l = 1.5', '    return', '    scope.x3 = l'],
    'assert': ['assert scope.a > 0.2'], 'assert_msg': ["assert scope.a < scope.b, 'no'"], 'raise': ["raise ValueError('no')"],
    'raise_if': ['if scope.a > 0.4:', "    raise ValueError('no')", '    scope.x3 = 1.0'],
    'yield': ['yield scope.a'], 'yield_value': ['l = yield 1.0', 'scope.x3 = 2.0'], 'yield_from': ['yield from [1.0]'],
    'def': ['def f(q):', '    scope.x3 = q', '    return q + 1'], 'def_used': ['def f(q):', '    return q + 1', 'scope.x3 = f(scope.a)'],
    'class': ['class K:', '    scope.x3 = 7.5'], 'class_used': ['class K:', '    z = 2.5', 'scope.x3 = K.z'],
    'for': ['for i in range(3):', '    scope.x3 = scope.x3 * 0.5 + i'], 'for_else': ['for i in range(0):', '    scope.x3 = 9.0', 'else:', '    scope.x3 = 3.5'],
    'while': ['while scope.x3 < 3:', '    scope.x3 = scope.x3 + 1'], 'while_false': ['while scope.a > 99:', '    scope.x3 = 1.5'],
    'with': ['import contextlib', 'with contextlib.nullcontext():', '    scope.x3 = 2.5'],
    'try': ['try:', '    scope.x3 = 2.5', 'except ValueError:', '    scope.x3 = 1.5'], 'try_finally': ['try:', '    scope.x3 = 2.5', 'finally:', '    scope.x3 = 1.5'],
    'match': ['match 2:', '    case 1:', '        scope.x3 = 4.5', '    case 2:', '        scope.x3 = 5.5'], 'match_none': ['match 3:', '    case 1:', '        scope.x3 = 4.5'],
    'ann': ['scope.x3: float = 2.5'], 'ann_only': ['scope.x3: float'], 'ann_local': ['l: float = 2.5', 'scope.x3 = l'],
    'walrus': ['scope.x3 = (l := scope.a) + l'], 'walrus_statement': ['(l := scope.a)', 'scope.x3 = l'],
    'del': ['l = scope.a', 'del l', 'scope.x3 = 2.5'], 'global': ['global zz', 'scope.x3 = 2.5'], 'import': ['import math', 'scope.x3 = math.sqrt(4.0)'], 'import_from': ['from math import sqrt', 'scope.x3 = sqrt(4.0)'],
    'chain_assign': ['scope.x2 = scope.x3 = 1.5'], 'chain_local': ['l = m = 1.5', 'scope.x3 = l + m'], 'star': ['scope.x2, *l = 1.5, 2.5, 3.5', 'scope.x3 = l[1]'], 'list_target': ['[scope.x2, scope.x3] = 1.5, 2.5'],
    'nested_target': ['scope.x2, (scope.x3, l) = 1.5, (2.5, 3.5)'], 'sub_target': ['l = [1.5, 2.5]', 'l[0] = scope.a', 'scope.x3 = l[0]'], 'aug_sub': ['l = [1.5, 2.5]', 'l[0] += scope.a', 'scope.x3 = l[0]'],
    'and': ['if scope.a > 0.2 and scope.b > 0.2:', '    scope.x3 = 8.5'], 'or': ['scope.x3 = 1.5 if scope.a > 1 or scope.b > 1 else 2.5'], 'not': ['scope.x3 = 1.5 if not scope.a > 0.5 else 2.5'], 'not_if': ['if not scope.a > 0.5:', '    scope.x3 = 8.5'],
    'and_value': ['scope.x3 = scope.a and scope.b'], 'bare_test': ['if scope.a:', '    scope.x3 = 1.5'], 'name_test': ['l = scope.a > 0.5', 'if l:', '    scope.x3 = 1.5'], 'call_test': ['if max(scope.a, 0.2) > 0.5:', '    scope.x3 = 1.5'],
    'floordiv': ['scope.x3 = scope.a // 0.25'], 'mod': ['scope.x3 = scope.a % 0.25'], 'mod_negative': ['scope.x3 = (0.0 - scope.a) % 0.25'], 'uadd': ['scope.x3 = +scope.a'], 'invert': ['scope.x3 = ~3'], 'bitor': ['scope.x3 = 3 | 4'],
    'shift': ['scope.x3 = 3 << 2'], 'is': ['scope.x3 = 1.5 if scope.a is None else 2.5'], 'is_not': ['if scope.a is not None:', '    scope.x3 = 3.5'], 'in': ['scope.x3 = 1.5 if 2 in [1, 2] else 2.5'], 'not_in': ['if 2 not in [1, 2]:', '    scope.x3 = 1.5'],
    'aug_mod': ['scope.x3 = scope.a * 5', 'scope.x3 %= 0.75'], 'aug_floordiv': ['scope.x3 = scope.a * 5', 'scope.x3 //= 0.75'], 'aug_pow': ['scope.x3 = scope.a * 5', 'scope.x3 **= 2'], 'aug_div': ['scope.x3 = scope.a * 5', 'scope.x3 /= 4'],
    'lambda': ['l = lambda q: q + 1', 'scope.x3 = l(scope.a)'], 'listcomp': ['l = [q * 2 for q in [1.5, 2.5]]', 'scope.x3 = l[1]'], 'sum_gen': ['scope.x3 = sum(q * scope.a for q in [1.5, 2.5])'], 'dict': ["l = {'k': 2.5}", "scope.x3 = l['k']"],
    'setcomp': ['scope.x3 = len({q for q in [1.5, 2.5]})'], 'slice': ['l = [1.5, 2.5, 3.5][0:2]', 'scope.x3 = l[1]'], 'neg_index': ['l = [1.5, 2.5, 3.5]', 'scope.x3 = l[-1]'], 'keyword': ['scope.x3 = round(scope.a, ndigits=1)'], 'kw_star': ['l = [1.5, 2.5]', 'scope.x3 = max(*l)'],
    'string': ["l = 'abc'", 'scope.x3 = len(l)'], 'complex': ['scope.x3 = 1j'], 'fstring': ["scope.x3 = float(f'{2.5}')"], 'starred_list': ['l = [*[1.5, 2.5], 3.5]', 'scope.x3 = l[2]'],
    'unknown_read': ['scope.x3 = scope.nope'], 'unknown_write': ['scope.nope = scope.a'], 'unknown_name': ['scope.x3 = nope + scope.a'], 'unknown_call': ['scope.x3 = nope(scope.a)'], 'unknown_self': ['scope.x3 = self.nope * scope.a'],
    'unknown_self_call': ['scope.x3 = self.nope(scope.a)'], 'unknown_global': ['scope.x3 = scope.global_vars.nope'], 'global_write': ['scope.global_vars.gain = 9.5'], 'global_aug': ['scope.global_vars.gain += 9.5'], 'time_write': ['scope.global_vars.t = 9.5'],
    'self_write': ['self.q = scope.a'], 'attribute_of_value': ['scope.x3 = scope.a.real'], 'method_of_value': ['scope.x3 = scope.a.conjugate()'], 'matmul': ['scope.x3 = scope.a @ scope.b'],
    'early_use': ['scope.x3 = l', 'l = scope.a'], 'rebind_scope': ['l = scope', 'scope.x3 = l.a'], 'async': ['async def f():', '    scope.x3 = 1.5'],
    'pass': ['pass'], 'docstring': ["'scope.x3 = 1.5'"], 'bare_expr': ['1 + 2'], 'ellipsis': ['...'], 'if_pass': ['if scope.a > 0.2:', '    pass', 'else:', '    scope.x3 = 3.5'], 'if_only_pass': ['if scope.a > 0.2:', '    pass'], 'if_const': ['if True:', '    scope.x3 = 3.5'],
    'if_zero': ['if 0:', '    scope.x3 = 3.5'], 'print': ["print('')"], 'comment': ['# scope.x3 = 1.5'], 'semicolon': ['scope.x2 = 1.5; scope.x3 = 2.5'], 'one_line_if': ['if scope.a > 0.2: scope.x3 = 1.5'], 'tuple_value': ['l = (1.5, 2.5)', 'scope.x3 = l[0]'],
    'state_write': ['scope.s = 1.5'], 'constant_write': ['scope.c = 1.5'], 'compare_value': ['scope.x3 = scope.a > 0.5'], 'chain_compare': ['scope.x3 = 0.2 < scope.a < 0.7 < scope.b'], 'nested_ifexp': ['scope.x3 = 1.5 if scope.a > 0.5 else 2.5 if scope.b > 0.5 else 3.5'],
    'lambda_default': ['scope.x3 = (lambda q=scope.a: q)()'], 'getattr': ["scope.x3 = getattr(scope, 'a')"], 'locals': ["l = 1.5", "scope.x3 = locals()['l']"],
}
MUST = ['global_write', 'global_aug', 'time_write']     # global variables are set from outside
STRUCT = ['self_map', 'map_then_sum', 'foreign_map', 'foreign_sum', 'equal_tags', 'registered_twice', 'registered_in_itself', 'registered_in_circle', 'not_numeric', 'not_numeric_value', 'not_numeric_update', 'not_numeric_state', 'map_a_number',
          'add_a_number', 'mixed_set', 'in_two_sets', 'twice_in_set', 'equal_tags_in_set', 'equal_namespaces', 'namespace_twice', 'namespace_of_another', 'equal_equation_tags', 'tag_no_string', 'no_such_target', 'no_such_source',
          'no_such_namespace', 'port_not_registered', 'not_an_item', 'external_no_variable', 'external_no_column', 'condition_no_variable', 'action_no_variable', 'update_no_variable', 'unknown_global', 'negative_count', 'set_overridden', 'set_more_equations', 'set_fewer_equations']


def cases(seed, tier):
    n = 2 if tier == 'quick' else 16
    r = random.Random(seed * 15487019 + 18)
    for k in range(n):
        odd = sorted(ODD)
        r.shuffle(odd)
        for i, name in enumerate(odd):
            for where in (['top', 'if', 'else', 'end'] if tier != 'quick' else [['top', 'if', 'else', 'end'][(i + k) % 4], ['if', 'end', 'top', 'top'][(i + k) % 4]]):
                yield {'kind': 'eq', 'odd': name, 'where': where, 'seed': r.randrange(1 << 40), 'llvm': r.random() < .25, 'set': r.random() < .1}
        for rep in range(6):
            for name in STRUCT:
                yield {'kind': 'structure', 'flaw': name, 'seed': r.randrange(1 << 40), 'llvm': r.random() < .2}


# ---- equations ---------------------------------------------------------------------------------------------------
HEAD = '''import numpy as np
from numerous.engine.system import Item, Subsystem, ItemsStructure
from numerous.multiphysics import EquationBase, Equation


class K(Item, EquationBase):
    def __init__(self, tag, vals):
        super().__init__(tag)
        for v in ('a', 'b', 'x0', 'x1', 'x2', 'x3'):
            self.add_parameter(v, vals[v])
        self.add_constant('c', vals['c'])
        self.add_state('s', vals['s'])
        self.create_namespace('t').add_equation(self)

    @Equation()
    def eq(self, scope):
%s
'''


def line(r, k):
    e = lambda: r.choice(['scope.a', 'scope.b', 'scope.s', 'scope.c', '0.5 * scope.a', '(scope.a - scope.b)', '1.25'])  # noqa
    return 'scope.x%d = %s %s %s' % (k, e(), r.choice('+-*'), e())


def body(r, odd, where):
    """-> lines with and without the odd statements"""
    pre = [line(r, k) for k in r.sample([0, 1, 2], r.choice([1, 2]))]
    post = [line(r, k) for k in r.sample([0, 1, 2], r.choice([1, 2, 3]))]
    post.append('scope.s_dot = 0.1 * scope.x0')
    ind = lambda L: ['    ' + x for x in L]  # noqa

    def make(odd):
        if where == 'top':
            return pre + odd + post
        if where == 'end':
            return pre + post + odd
        first, second = [inner[0]] + odd + [inner[1]], [inner[2]]
        if where == 'else':
            first, second = second, first
        return pre + ['if scope.a %s %r:' % (op, lim)] + ind(first) + ['else:'] + ind(second) + post
    inner = [line(r, r.choice([0, 1, 2])) for _ in range(3)]
    op, lim = r.choice('<>'), r.choice([0.25, 0.5, 0.0])
    return make(odd), make([])


class Bag:
    pass


def python(lines):
    g = {'np': np}
    exec('def eq(self, scope):\n' + '\n'.join('    ' + x for x in lines) + '\n', g)
    return g['eq']


def engine(lines, vals, p, obs):
    from numerous.engine.model import Model
    mod = util.load_source(HEAD % '\n'.join('        ' + x for x in lines), keep=True)
    top = mod.Subsystem('S')
    items = [mod.K('i%d' % k, v) for k, v in enumerate(vals)]
    top.register_items(items, **(dict(tag='q', structure=mod.ItemsStructure.SET) if p['set'] else {}))
    return Model(top, use_llvm=p['llvm'], global_variables=[('gain', 1.5)])


def evaluate_and_compare(m, lines, vals, p, obs, name):
    """The values of the assembled model are those of Python; where Python raises there must be no values."""
    f = python(lines)
    r = random.Random(p['seed'] + 5)
    for rep in range(4):
        if rep:
            for k, v in enumerate(vals):
                for n in ('a', 'b'):
                    v[n] = round(r.uniform(-1.5, 1.5), 3)
        path = lambda k, n: 'S.%si%d.t.%s' % ('SET_q.' if p['set'] else '', k, n)  # noqa
        m.update_variables({path(k, n): v[n] for k, v in enumerate(vals) for n in ('a', 'b', 's')})
        raised = None
        for k, v in enumerate(vals):
            sc = Bag()
            sc.__dict__.update(v)
            sc.s_dot = v.get('s_dot', 0.0)
            sc.global_vars = Bag()
            sc.global_vars.t, sc.global_vars.gain = 0.5, 1.5
            self = Bag()
            try:
                out = f(self, sc)
                if hasattr(out, '__next__'):
                    raise TypeError('a generator')
            except Exception as e:
                raised = e
                break
            sc.__dict__.pop('global_vars')
            v.update(sc.__dict__)
        try:
            m.compiled_compute(np.array(m.states_as_vector), np.array([0.5, 1.5]))
            got = util.kernel_values(m)
        except Exception:
            if raised is not None:
                obs.ev('points_where_python_raises')
            if name != 'plain equation':
                return False
            raise
        if raised is not None:
            obs.ev('points_where_python_raises')
            obs.check(False, 'equation with %s was accepted and gives values where Python raises %r: %s' % (name, raised, lines))
        for k, v in enumerate(vals):
            for n, x in v.items():
                if n == 's' or path(k, n) not in got:
                    # a state written by an equation is the solver's, see the assumptions
                    continue
                try:
                    x = float(x)
                except (TypeError, ValueError):
                    obs.check(False, 'equation with %s was accepted, but %s is %r in Python: %s' % (name, n, x, lines))
                obs.check(util.close(got[path(k, n)], x), '%s%s: %s is %r, Python gives %r: %s' % (name, ' (LLVM)' if p['llvm'] else '', path(k, n), got[path(k, n)], x, lines))
                obs.ev('values_compared')
    return True


def equation(p, obs):
    r = random.Random(p['seed'])
    odd, plain = body(r, ODD[p['odd']], p['where'])
    vals = []
    for _ in range(r.choice([1, 2, 3])):
        vals.append({n: round(r.uniform(-1.5, 1.5), 3) for n in ('a', 'b', 'x0', 'x1', 'x2', 'x3', 'c', 's')})
    obs.key = repr((odd, vals, p['llvm'], p['set']))
    obs.ev('equations')
    obs.ev({'top': 'at_top', 'if': 'in_if', 'else': 'in_else', 'end': 'at_end'}[p['where']])
    if p['llvm']:
        obs.ev('llvm_models')
    if p['set']:
        obs.ev('sets')
    twin = [dict(v) for v in vals]
    m = engine(plain, twin, p, obs)
    evaluate_and_compare(m, plain, twin, p, obs, 'plain equation')
    obs.ev('twins_compared')
    try:
        m = engine(odd, vals, p, obs)
    except (SystemExit, KeyboardInterrupt):
        raise
    except BaseException:
        obs.ev('refused_equations')
        return
    obs.check(p['odd'] not in MUST, 'an equation with %s was accepted: %s' % (p['odd'], odd))
    obs.ev('accepted_equations' if evaluate_and_compare(m, odd, vals, p, obs, p['odd']) else 'refused_equations')


def mod_top(top, nested, mod):
    if not nested:
        return top
    sub = mod.Subsystem('U')
    top.register_item(sub)
    return sub


# ---- systems -----------------------------------------------------------------------------------------------------
def structure(p, obs):
    import pandas as pd
    from numerous.engine.model import Model
    from numerous.engine.simulation import Simulation
    from numerous.engine.system.external_mappings import ExternalMappingElement, InterpolationType
    from numerous.utils.data_loader import InMemoryDataLoader
    mod = util.load_source(HEAD % ('        scope.x0 = scope.a + scope.b\n        scope.s_dot = 0.0 * scope.x0') + '''

class J(Item, EquationBase):
    def __init__(self, tag, v=1.5):
        super().__init__(tag)
        self.add_parameter('a', v)
        self.add_parameter('z', 0.0)
        self.create_namespace('t').add_equation(self)

    @Equation()
    def eq(self, scope):
        scope.z = 3 * scope.a


class K2(K):
    @Equation()
    def eq(self, scope):
        scope.x0 = scope.a - scope.b
        scope.s_dot = 0.0 * scope.x0


class K3(K):
    pass


class W(EquationBase):
    def __init__(self, tag):
        super().__init__(tag)

    @Equation()
    def eq_w(self, scope):
        scope.x1 = 2 * scope.a


class E(EquationBase):
    def __init__(self, tag, v):
        super().__init__(tag)
        self.add_parameter(v, 1.5)

    @Equation()
    def eq(self, scope):
        pass


class G(Item, EquationBase):
    def __init__(self, tag):
        super().__init__(tag)
        self.add_parameter('a', 1.5)
        self.create_namespace('t').add_equation(self)

    @Equation()
    def eq(self, scope):
        scope.a = scope.global_vars.gain
''', keep=True)
    flaw = p['flaw']

    def build(bad):
        r = random.Random(p['seed'])
        vals = lambda: {n: round(r.uniform(-1.5, 1.5), 3) for n in ('a', 'b', 'x0', 'x1', 'x2', 'x3', 'c', 's')}  # noqa
        tags = ['i', 'j', 'k', 'l', 'ij']
        r.shuffle(tags)
        top, items = mod.Subsystem('S'), {}
        items = [mod.K(t, vals()) for t in tags[:3]]
        a, b, c = items
        free = mod.K(tags[3], vals())
        early = r.random() < .5
        kw, register, extra, after, sub = {}, True, [], None, None
        nested = r.random() < .4
        v, w = r.choice(['a', 'b']), r.choice(['a', 'b', 'x0'])
        # legal mappings made before
        for _ in range(r.choice([0, 1, 2])):
            m1, m2 = r.choice([(a, c), (b, c)] if flaw == 'self_map' else [(b, c)])
            setattr(m1.t, r.choice(['a', 'b', v]), getattr(m2.t, r.choice(['a', 'b', 'x1'])))
            obs.ev('earlier_mappings')
        if flaw == 'self_map':
            if r.random() < .4:
                getattr(a.t, v).add_mapping(getattr(a.t if bad else b.t, v))
            else:
                setattr(a.t, v, getattr(a.t if bad else b.t, v))
        elif flaw == 'map_then_sum':
            if bad:
                setattr(a.t, v, getattr(b.t, w))
            exec('a.t.%s += c.t.%s' % (v, w))
        elif flaw in ('foreign_map', 'foreign_sum'):
            if not bad:
                extra.append(free)
            if flaw == 'foreign_map':
                setattr(a.t, v, getattr(free.t, w))
            else:
                exec('a.t.%s += free.t.%s' % (v, w))
        elif flaw == 'equal_tags':
            extra.append(mod.K(tags[0] if bad else tags[4], vals()))
        elif flaw == 'registered_twice':
            extra.append(r.choice(items) if bad else free)
        elif flaw == 'registered_in_itself':
            after = lambda: top.register_item(top if bad else free)  # noqa
        elif flaw == 'registered_in_circle':
            sub = mod.Subsystem('U')
            extra.append(sub)
            after = lambda: sub.register_item(top if bad else free)  # noqa
        elif flaw == 'not_numeric':
            x = vals()
            x[v] = r.choice(['abc', None, [1.5], 1j, {}, (1.5,), np.array([1.5, 2.5])]) if bad else r.choice([2, 1.5, np.float32(1.5), np.int64(3), True])
            extra.append(mod.K(tags[3], x))
        elif flaw == 'not_numeric_state':
            x = vals()
            x['s'] = r.choice(['abc', None, [1.5], 1j]) if bad else r.choice([2, 1.5, np.float64(1.5)])
            extra.append(mod.K(tags[3], x))
        elif flaw == 'not_numeric_value':
            getattr(a.t, v).value = r.choice(['abc', None, [1.5, 2.5]]) if bad else 2.5
        elif flaw == 'map_a_number':
            if bad:
                setattr(a.t, v, r.choice([2.5, 'abc', None]))
            else:
                setattr(a.t, v, getattr(b.t, v))
        elif flaw == 'add_a_number':
            if bad:
                exec('a.t.%s += 2.5' % v)
            else:
                exec('a.t.%s += b.t.a' % v)
        elif flaw in ('mixed_set', 'in_two_sets', 'twice_in_set', 'equal_tags_in_set'):
            register = False
            SET = mod.ItemsStructure.SET
            if flaw == 'mixed_set':
                top.register_items(items + [mod.J('z')] if bad else items, tag='q', structure=SET)
            elif flaw == 'in_two_sets':
                top.register_items(items, tag='q', structure=SET)
                other = top
                if nested:
                    # sets of other systems may have the tag of this one
                    other = mod.Subsystem('U')
                    top.register_item(other)
                other.register_items([free] + ([r.choice(items)] if bad else []), tag='q' if nested and early else 'r', structure=SET)
            elif flaw == 'twice_in_set':
                top.register_items(items + [r.choice(items) if bad else free], tag='q', structure=SET)
            else:
                top.register_items(items + [mod.K(tags[1] if bad else tags[4], vals())], tag='q', structure=SET)
        elif flaw in ('set_overridden', 'set_more_equations', 'set_fewer_equations'):
            # a set has the equations of one of its items
            register = False
            if flaw == 'set_overridden':
                items = items + [(mod.K2 if bad else mod.K3)('z', vals())]
            else:
                more = [items[-1]] if flaw == 'set_more_equations' else items[:-1]
                for x in more if bad else items:
                    x.registered_namespaces['t'].add_equation(mod.W('w'))
            (mod_top(top, nested, mod)).register_items(items, tag='q', structure=mod.ItemsStructure.SET)
        elif flaw == 'equal_namespaces':
            a.create_namespace('t' if bad else 'u')
        elif flaw == 'namespace_twice':
            ns = a.get_default_namespace()
            a.register_namespace(ns)
            if bad:
                a.register_namespace(ns)
        elif flaw == 'namespace_of_another':
            ns = b.get_default_namespace()
            if bad:
                b.register_namespace(ns)
                a.register_namespace(ns)
        elif flaw == 'equal_equation_tags':
            it = mod.Item(tags[4])
            it.create_namespace('t').add_equations([mod.E('e', 'u'), mod.E('e' if bad else 'f', 'w')])
            if not bad:
                return True
        elif flaw == 'tag_no_string':
            extra.append(mod.K(r.choice([3, 1.5, ('x',)]) if bad else '3', vals()))
            if not bad:
                extra = []
        elif flaw == 'no_such_target':
            setattr(a.t, 'nope' if bad else v, getattr(b.t, v))
        elif flaw == 'no_such_source':
            setattr(a.t, v, getattr(b.t, 'nope' if bad else v))
        elif flaw == 'no_such_namespace':
            setattr(a.t, v, getattr(b.nope if bad else b.t, v))
        elif flaw == 'port_not_registered':
            after = lambda: top.add_port('p', free if bad else a)  # noqa
        elif flaw == 'not_an_item':
            after = lambda: top.register_item(r.choice([5, 'abc', None]) if bad else free)  # noqa
        elif flaw in ('external_no_variable', 'external_no_column'):
            df = pd.DataFrame({'time': [0.0, 1.0, 2.0], 'u': [1.0, 2.0, 3.0]})
            name = 'S.%s%s.t.%s' % ('U.' if nested else '', tags[0], 'nope' if bad and flaw == 'external_no_variable' else v)
            col = 'nope' if bad and flaw == 'external_no_column' else 'u'
            em = [ExternalMappingElement('e', 'time', 0, 1, {name: (col, InterpolationType.LINEAR)})]
            top = mod.Subsystem('S', external_mappings=em, data_loader=InMemoryDataLoader(df))
        elif flaw in ('condition_no_variable', 'action_no_variable'):
            bc, ba = bad and flaw == 'condition_no_variable', bad and flaw == 'action_no_variable'
            src = "def cond(t, v):\n    return v['t.%s'] - 99\ndef act(t, v):\n    v['t.%s'] = 1.0\n" % ('nope' if bc else 's', 'nope' if ba else 'b')
            ev = util.load_source(src, keep=True)
            if r.random() < .5 or bc:
                a.add_event('e', ev.cond, ev.act)
            else:
                a.add_timestamp_event('e', ev.act, [0.5])
        elif flaw == 'unknown_global':
            extra.append(mod.G('g'))
            if not bad:
                kw['global_variables'] = [('gain', 2.5)]
        if register:
            if nested and flaw not in ('equal_tags', 'registered_twice', 'port_not_registered'):
                u = mod.Subsystem('U' if sub is None else 'W')
                if early:
                    top.register_item(u)
                u.register_items(items)
                if not early:
                    top.register_item(u)
            else:
                top.register_items(items)
            for x in extra:
                top.register_item(x)
        if after:
            after()
        m = Model(top, use_llvm=p['llvm'], **kw)
        if flaw in ('not_numeric_update', 'update_no_variable'):
            path = [q for q in m.path_to_variable if q.endswith('t.' + v)][0] if hasattr(m, 'path_to_variable') else sorted(q for q in m.get_variables() if q.endswith('.t.' + v))[0]
            if flaw == 'update_no_variable':
                m.update_variables({path + ('x' if bad else ''): 2.5})
            else:
                m.update_variables({path: 'abc' if bad else 2.5})
        m.compiled_compute(np.array(m.states_as_vector), np.array([0.5] + [g[1] for g in kw.get('global_variables', [])]))
        if flaw in ('negative_count', 'external_no_variable', 'external_no_column', 'condition_no_variable', 'action_no_variable'):
            m.use_llvm = False
            Simulation(m, t_start=0.0, t_stop=1.0, num=-3 if bad and flaw == 'negative_count' else 3)
        got = util.kernel_values(m)
        for x in items:
            val = {q.split('.')[-1]: y for q, y in got.items() if '.%s.t.' % x.tag in q}
            obs.check(util.close(val['x0'], val['a'] + val['b']), 'the twin of %s does not work' % flaw)
        return True
    obs.key = repr((flaw, p['seed']))
    obs.ev('structures')
    if p['llvm']:
        obs.ev('llvm_models')
    build(False)
    obs.ev('twins_built')
    try:
        build(True)
    except (SystemExit, KeyboardInterrupt):
        raise
    except BaseException:
        obs.ev('refused_structures')
        return
    obs.check(False, 'a system with the flaw %s was accepted' % flaw)


def run_case(p, obs):
    if p['kind'] == 'eq':
        equation(p, obs)
    else:
        structure(p, obs)
