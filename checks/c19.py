"""Connectors connect: a binding stands for the item bound to it, in every mapping."""
import random

import numpy as np

from nv import util
from nv.harness import Invalid

RULE = ('a case is a network of items joined by connectors of all kinds; every variable was compared with the network computed in plain Python, and every binding with the item bound to it; '
        'distinct = distinct (connectors, mappings, order of binding and registration)')
NEED = ['networks', 'connectors', 'inputs', 'sum_inputs', 'outputs', 'sum_outputs', 'side_to_side', 'mapped_before_binding', 'mapped_after_binding', 'shared_items', 'chained_connectors', 'private_namespaces',
        'kind_OneWay', 'kind_TwoWay', 'kind_MultiWay', 'kind_Item', 'kind_Subsystem', 'bound_by_assignment', 'bound_one_by_one', 'ports', 'nested', 'set_items', 'set_connectors', 'llvm_models',
        'values_compared', 'refused_unknown', 'refused_twice', 'refused_missing', 'unbound_bindings', 'cross_namespace', 'same_item_both_sides', 'registered_before_binding']
ASSUMPTIONS = ['every variable gets one mapping or sums', 'connections do not form algebraic loops, also not when each namespace (or set of items) is taken as one block, as the engine does']
CFG = dict(timeout=90, budget=300, min_cases=60)


def cases(seed, tier):
    n = 220 if tier == 'quick' else 4000
    r = random.Random(seed * 15485867 + 19)
    for i in range(n):
        yield {'seed': r.randrange(1 << 40), 'llvm': i % 6 == 0, 'sets': ['', '', 'm', 'c', 'mc'][i % 5]}


def make(p):
    r = random.Random(p['seed'])
    f = lambda: round(r.uniform(-2, 2), 3)  # noqa
    nm = r.choice([1, 2, 2, 3, 4, 5])
    allns = r.choice([['t'], ['t'], ['t', 'h']])
    masses = [{'id': i, 'tag': 'm%d' % i, 'ns': allns, 'vals': {(ns, v): f() for ns in allns for v in ('T', 'P', 'b', 'd', 'k')}, 'in': None} for i in range(nm)]
    conns = []
    used = set()     # variables of masses with a plain mapping
    summed = set()
    proto = None
    for i in range(r.choice([1, 1, 2, 3, 4])):
        if 'c' in p['sets'] and proto:
            c = {k: proto[k] for k in ('kind', 'names', 'ns', 'n', 'm', 'own', 'w', 'cls')}
        else:
            kind = r.choice(['OneWay', 'TwoWay', 'TwoWay', 'MultiWay', 'Item', 'Subsystem'])
            k = {'OneWay': 1, 'TwoWay': 2}.get(kind) or r.choice([1, 2, 3])
            names = r.choice([['side%d' % (q + 1) for q in range(k)], ['left', 'right', 'top'][:k], ['b', 'b1', 'b11'][:k]])
            ns = [x for x in allns if r.random() < .7] or [allns[0]]
            n, m = r.choice([1, 2, 2, 3]), r.choice([1, 2])
            c = {'kind': kind, 'names': names, 'ns': ns, 'n': n, 'm': m, 'own': r.random() < .25, 'w': [[f() for _ in range(n + 1)] for _ in range(m)], 'cls': i}
        proto = proto or c
        c = dict(c, id=i, tag='c%d' % i)
        c['vals'] = {(ns, v): f() for ns in c['ns'] for v in ['a%d' % q for q in range(c['n'])] + ['e', 'h']}
        if c['own']:
            c['vals']['own', 'z'] = f()
        # what the bindings are bound to
        c['to'] = {}
        for s in c['names']:
            if conns and r.random() < .2 and 'c' not in p['sets']:
                j = r.randrange(len(conns))
                if not any(v == ('c', j) for v in c['to'].values()) and set(c['ns']) <= set(conns[j]['ns']):
                    c['to'][s] = ('c', j)
                    continue
            c['to'][s] = ('m', r.randrange(nm))
        maps = []
        sides = [s for s in c['names'] if c['to'][s][0] == 'm']
        # the computed variable of an item is read only if nothing is written to the item (no algebraic loops)
        source = lambda s: c['to'][s][1] % 3 == 1 and 'm' not in p['sets']  # noqa
        read = lambda s: r.choice(['T', 'y', 'k'] if source(s) else ['T', 'k'])  # noqa
        for ns in c['ns']:
            for q in range(c['n']):
                x = r.random()
                if x < .15 or not sides:
                    continue
                if x < .35:
                    for s in [r.choice(sides) for _ in range(r.choice([1, 2, 3]))]:
                        maps.append({'dst': ('own', ns, 'a%d' % q), 'src': (s, r.choice(c['ns']), read(s)), 'sum': True, 'what': 'sum_inputs'})
                else:
                    s = r.choice(sides)
                    maps.append({'dst': ('own', ns, 'a%d' % q), 'src': (s, r.choice(c['ns']), read(s)), 'sum': False, 'what': 'inputs'})
            for s in c['names']:
                if c['to'][s][0] == 'c' and r.random() < .7:
                    maps.append({'dst': ('own', ns, 'e'), 'src': (s, ns, 'q%d' % r.randrange(conns[c['to'][s][1]]['m'])), 'sum': True, 'what': 'chained_connectors'})
            if c['own'] and r.random() < .5:
                if not any(m['dst'][1:] == (ns, 'e') for m in maps):
                    maps.append({'dst': ('own', ns, 'e'), 'src': ('own', 'own', 'z'), 'sum': False, 'what': 'private_namespaces'})
        for s in sides:
            i2 = c['to'][s][1]
            if source(s):
                continue
            for _ in range(r.choice([0, 1, 1, 2])):
                ns = r.choice(c['ns'])
                q = (r.choice(c['ns']), 'q%d' % r.randrange(c['m']))
                if r.random() < .6:
                    if (i2, ns, 'P') not in used:
                        summed.add((i2, ns, 'P'))
                        maps.append({'dst': (s, ns, 'P'), 'src': ('own',) + q, 'sum': True, 'what': 'sum_outputs'})
                elif (i2, ns, 'b') not in used and (i2, ns, 'b') not in summed:
                    used.add((i2, ns, 'b'))
                    maps.append({'dst': (s, ns, 'b'), 'src': ('own',) + q, 'sum': False, 'what': 'outputs'})
            if len(sides) > 1 and r.random() < .4:
                o = r.choice([x for x in sides if x != s])
                ns = r.choice(c['ns'])
                key = (i2, ns, 'd')
                sm = r.random() < .5
                if key not in used and (sm or key not in summed):
                    (summed if sm else used).add(key)
                    maps.append({'dst': (s, ns, 'd'), 'src': (o, r.choice(c['ns']), r.choice(['T', 'k'])), 'sum': sm, 'what': 'side_to_side'})
        for mp in maps:
            mp['late'] = r.random() < .35
            mp['how'] = r.random() < .5
        c['maps'] = maps
        c['bind'] = r.choice(['call', 'call', 'one', 'assign'])
        c['early'] = r.random() < .3
        conns.append(c)
    if 'm' not in p['sets'] and r.random() < .5:
        for m in masses:
            if r.random() < .5:
                m['in'] = r.choice(['sub', 'sub2'])
    if 'c' not in p['sets']:
        for c in conns:
            c['in'] = r.choice([None, None, 'csub'])
    return {'masses': masses, 'conns': conns, 'allns': allns, 'ports': r.random() < .5, 'h': r.random()}


def source(net):
    out = ['from numerous.engine.system import *', 'from numerous.multiphysics import EquationBase, Equation', 'from numerous.engine.variables import VariableDescription, VariableType', '',
           'class ME(EquationBase):', '    def __init__(self, v):', "        super().__init__(tag='me')"]
    for v in 'Pbdk':
        out.append('        self.add_parameter(%r, v[%r])' % (v, v))
    out += ["        self.add_state('T', v['T'])", "        self.add_parameter('y', 0.0)", '    @Equation()', '    def eq(self, scope):', '        scope.y = scope.T * 2 + .5 * scope.d',
            '        scope.T_dot = (scope.P + 2 * scope.b) * scope.k - .1 * scope.T', '',
            'class Mass(Item):', '    def __init__(self, tag, nss, v):', '        super().__init__(tag)', '        for ns in nss:',
            '            self.create_namespace(ns).add_equations([ME({b: x for (a, b), x in v.items() if a == ns})])', '']
    done = set()
    for c in net['conns']:
        if c['cls'] in done:
            continue
        done.add(c['cls'])
        out += ['class CE%d(EquationBase):' % c['cls'], '    def __init__(self, v):', "        super().__init__(tag='ce')", "        self.add_constant('h', v['h'])", "        self.add_parameter('e', v['e'])"]
        for q in range(c['n']):
            out.append("        self.add_parameter('a%d', v['a%d'])" % (q, q))
        for q in range(c['m']):
            out.append("        self.add_parameter('q%d', 0.0)" % q)
        out += ['    @Equation()', '    def eq(self, scope):']
        for q in range(c['m']):
            out.append('        scope.q%d = scope.h * (%s) + %r * scope.e' % (q, ' + '.join('%r * scope.a%d' % (c['w'][q][j], j) for j in range(c['n'])), c['w'][q][-1]))
        base = {'OneWay': 'ConnectorOneWay', 'TwoWay': 'ConnectorTwoWay', 'MultiWay': 'ConnectorMultiWay', 'Item': 'ConnectorItem', 'Subsystem': 'Subsystem'}[c['kind']]
        args = {'OneWay': ', %r' % c['names'][0], 'TwoWay': ', side1_name=%r, side2_name=%r' % (c['names'][0], c['names'][-1]), 'MultiWay': ', %r' % c['names']}.get(c['kind'], '')
        out += ['', 'class C%d(%s):' % (c['cls'], base), '    def __init__(self, tag, v, maps, deprecated):', '        super().__init__(tag%s)' % args]
        if c['kind'] in ('Item', 'Subsystem'):
            out += ['        self.create_binding(%r)' % s for s in c['names']]
        for ns in c['ns']:
            out.append('        self.create_namespace(%r).add_equations([CE%d({b: x for (a, b), x in v.items() if a == %r})])' % (ns, c['cls'], ns))
            for s in c['names']:
                out.append("        for n in ('T', 'P', 'b', 'd', 'k', 'y', 'q0', 'q1'):")
                out.append("            if deprecated:\n                self.%s.%s.create_variable(name=n)" % (s, ns))
                out.append("            else:\n                self.%s.%s.create_variable_from_desc(VariableDescription(tag=n, initial_value=0.5, type=VariableType.PARAMETER))" % (s, ns))
        if c['own']:
            out += ["        ns = self.create_namespace('own')", "        ns.create_variable_from_desc(VariableDescription(tag='z', initial_value=v['own', 'z'], type=VariableType.PARAMETER))"]
        out += ['        maps(self)', '']
    return '\n'.join(out)


def domap(c, maps):
    def var(q):
        o = c if q[0] == 'own' else getattr(c, q[0])
        return getattr(o, q[1]), q[2]
    for mp in maps:
        ns, v = var(mp['dst'])
        sns, sv = var(mp['src'])
        src = getattr(sns, sv)
        if mp['sum']:
            if mp['how']:
                getattr(ns, v).add_sum_mapping(src)
            else:
                # ns.v += src
                x = getattr(ns, v)
                x += src
                setattr(ns, v, x)
        elif mp['how']:
            getattr(ns, v).add_mapping(src)
        else:
            setattr(ns, v, src)


def reference(net, T):
    """all values of the network"""
    src, summed = {}, {}
    for c in net['conns']:
        def key(q):
            if q[0] == 'own':
                return ('c', c['id'], q[1], q[2])
            k, i = c['to'][q[0]]
            return (k, i, q[1], q[2])
        for mp in c['maps']:
            if mp['sum']:
                summed.setdefault(key(mp['dst']), []).append(key(mp['src']))
            else:
                src[key(mp['dst'])] = key(mp['src'])
    memo = {}

    def get(k, depth=0):
        if k in memo:
            return memo[k]
        if depth > 60:
            raise Invalid('loop')
        kind, i, ns, v = k
        if k in src:
            x = get(src[k], depth + 1)
        elif k in summed:
            x = sum(get(q, depth + 1) for q in summed[k])
        elif kind == 'm':
            m = net['masses'][i]
            if v == 'T':
                x = T[i, ns]
            elif v == 'y':
                x = get((kind, i, ns, 'T')) * 2 + .5 * get((kind, i, ns, 'd'), depth + 1)
            elif v == 'T_dot':
                x = (get((kind, i, ns, 'P'), depth + 1) + 2 * get((kind, i, ns, 'b'), depth + 1)) * get((kind, i, ns, 'k')) - .1 * get((kind, i, ns, 'T'))
            else:
                x = m['vals'][ns, v]
        else:
            c = net['conns'][i]
            if v[0] == 'q':
                w = c['w'][int(v[1:])]
                x = c['vals'][ns, 'h'] * sum(w[j] * get((kind, i, ns, 'a%d' % j), depth + 1) for j in range(c['n'])) + w[-1] * get((kind, i, ns, 'e'), depth + 1)
            else:
                x = c['vals'][ns, v]
        memo[k] = x
        return x
    out = {}
    for m in net['masses']:
        for ns in m['ns']:
            for v in ('T', 'P', 'b', 'd', 'k', 'y', 'T_dot'):
                out['m', m['id'], ns, v] = get(('m', m['id'], ns, v))
    for c in net['conns']:
        for ns in c['ns']:
            for v in ['a%d' % q for q in range(c['n'])] + ['e', 'h'] + ['q%d' % q for q in range(c['m'])]:
                out['c', c['id'], ns, v] = get(('c', c['id'], ns, v))
        if c['own']:
            out['c', c['id'], 'own', 'z'] = c['vals']['own', 'z']
    return out


def run_case(p, obs):
    import warnings

    from numerous.engine.model import Model
    from numerous.engine.system import ItemsStructure, Subsystem
    from numerous.utils.historian import InMemoryHistorian
    warnings.simplefilter('ignore')
    net = make(p)
    reference(net, {(m['id'], ns): 1.0 for m in net['masses'] for ns in m['ns']})
    mod = util.load_source(source(net))
    M = [mod.Mass(m['tag'], m['ns'], m['vals']) for m in net['masses']]
    C = []
    for c in net['conns']:
        C.append(getattr(mod, 'C%d' % c['cls'])(c['tag'], c['vals'], lambda me, c=c: domap(me, [x for x in c['maps'] if not x['late']]), c['id'] % 2))
    obj = lambda q: (M if q[0] == 'm' else C)[q[1]]  # noqa
    top = Subsystem('top')
    subs = {}
    where = {}

    def register():
        rest = []
        for m in net['masses']:
            where['m', m['id']] = 'top.' + (m['in'] + '.' if m['in'] else '') + ('SET_m.' if 'm' in p['sets'] else '') + m['tag']
            if m['in']:
                s = subs.setdefault(m['in'], Subsystem(m['in']))
                s.register_item(M[m['id']])
                s.add_port('port%d' % m['id'], M[m['id']])
            else:
                rest.append(M[m['id']])
        if 'm' in p['sets']:
            top.register_items(rest, tag='m', structure=ItemsStructure.SET)
        else:
            top.register_items(rest)

    def register_conns():
        rest = []
        setc = 'c' in p['sets'] and len(net['conns']) > 1
        for c in net['conns']:
            i = c.get('in')
            where['c', c['id']] = 'top.' + (i + '.' if i else '') + ('SET_c.' if setc else '') + c['tag']
            if i:
                subs.setdefault(i, Subsystem(i)).register_item(C[c['id']])
            else:
                rest.append(C[c['id']])
        if setc:
            top.register_items(rest, tag='c', structure=ItemsStructure.SET)
            obs.ev('set_connectors', len(rest))
        else:
            top.register_items(rest)
    register()

    def bind(c):
        me = C[c['id']]
        to = {s: obj(q) for s, q in c['to'].items()}
        for s, q in c['to'].items():
            if q[0] == 'm' and net['masses'][q[1]]['in'] and net['ports']:
                to[s] = subs[net['masses'][q[1]]['in']].ports['port%d' % q[1]]
                obs.check(to[s] is M[q[1]], 'port%d is another item' % q[1])
                obs.ev('ports')
        if c['bind'] == 'call':
            me.bind(**to)
        elif c['bind'] == 'one':
            for s in reversed(list(to)):
                me.bind(**{s: to[s]})
            obs.ev('bound_one_by_one')
        else:
            for s in to:
                setattr(me, s, to[s])
            obs.ev('bound_by_assignment')
        domap(me, [x for x in c['maps'] if x['late']])
    late = []
    for c in net['conns']:
        if c['early'] or net['h'] < .5:
            bind(c)
        else:
            late.append(c)
    register_conns()
    for c in late:
        bind(c)
        obs.ev('registered_before_binding')
    order = sorted(subs)
    top.register_items([subs[s] for s in order])
    for c in net['conns']:
        me = C[c['id']]
        for s, q in c['to'].items():
            for ns in c['ns']:
                for v in ('T', 'P') if q[0] == 'm' else ('e',):
                    a, b = getattr(getattr(getattr(me, s), ns), v), getattr(getattr(obj(q), ns), v)
                    obs.check(a is b, '%s.%s.%s.%s of connector %s is not the variable of the item bound to it' % (c['tag'], s, ns, v, c['kind']))
        obs.check(set(map(id, me.get_binded_items())) == set(id(obj(q)) for q in c['to'].values()), 'get_binded_items of %s gives %r' % (c['tag'], me.get_binded_items()))
    m = Model(top, use_llvm=p['llvm'], historian=InMemoryHistorian())
    m.use_llvm = False
    obs.check(m.validate_bindings() is True, 'validate_bindings says no, all bindings are bound')
    r = random.Random(p['seed'] + 3)
    for k in range(3):
        T = {(q['id'], ns): round(r.uniform(-3, 3), 3) for q in net['masses'] for ns in q['ns']}
        if k == 0:
            T = {(q['id'], ns): q['vals'][ns, 'T'] for q in net['masses'] for ns in q['ns']}
        want = reference(net, T)
        d, got = util.evaluate(m, {'%s.%s.T' % (where['m', i], ns): v for (i, ns), v in T.items()}, [0.0])
        util.compare(obs, got, {'%s.%s.%s' % (where[q[0], q[1]], q[2], q[3]): v for q, v in want.items()}, 'network with %s, evaluation %d' % (','.join(c['kind'] for c in net['conns']), k), 1e-8)
        obs.check(len(got) == len(want), 'the model has variables nobody declared: %s' % sorted(set(got) - {'%s.%s.%s' % (where[q[0], q[1]], q[2], q[3]) for q in want})[:4])
    refusals(mod, net, obs)
    obs.ev('networks')
    for c in net['conns']:
        obs.ev('connectors')
        obs.ev('kind_' + c['kind'])
        for mp in c['maps']:
            obs.ev(mp['what'])
            obs.ev('mapped_after_binding' if mp['late'] else 'mapped_before_binding')
            if mp['src'][1] != mp['dst'][1] and mp['src'][0] != 'own':
                obs.ev('cross_namespace')
        if c['own']:
            obs.ev('private_namespaces')
        ms = [q for q in c['to'].values()]
        if len(ms) != len(set(ms)):
            obs.ev('same_item_both_sides')
    allm = [q for c in net['conns'] for q in set(c['to'].values()) if q[0] == 'm']
    obs.ev('shared_items', len(allm) - len(set(allm)))
    obs.ev('nested', sum(1 for q in net['masses'] if q['in']))
    if 'm' in p['sets']:
        obs.ev('set_items', len(M))
    obs.ev('llvm_models', int(p['llvm']))
    obs.key = [[(c['kind'], c['to'], [(x['dst'], x['src'], x['sum'], x['late']) for x in c['maps']], c['bind']) for c in net['conns']], p['sets'], p['llvm']]


def refusals(mod, net, obs):
    """wrong bindings are refused"""
    c = net['conns'][0]
    s = c['names'][0]
    q = net['masses'][0]

    def new():
        return getattr(mod, 'C%d' % c['cls'])('cc', c['vals'], lambda me: domap(me, [x for x in c['maps'] if not x['late']]), 0), mod.Mass('mm', q['ns'], q['vals'])
    me, m = new()
    try:
        me.bind(no_such_binding=m)
    except Exception:
        obs.ev('refused_unknown')
    else:
        obs.check(False, 'a binding the connector does not have is accepted')
    if c['to'][s][0] != 'm':
        return
    me.bind(**{s: m})
    if len(c['names']) > 1:
        from numerous.engine.model import Model
        from numerous.engine.system import Subsystem
        one = getattr(mod, 'C%d' % c['cls'])('cu', c['vals'], lambda me: None, 0)
        m1 = mod.Mass('mu', q['ns'], q['vals'])
        one.bind(**{s: m1})
        t = Subsystem('tt')
        t.register_items([one, m1])
        obs.check(Model(t, use_llvm=False).validate_bindings() is False, 'validate_bindings says yes, binding %s is not bound' % c['names'][1])
        obs.ev('unbound_bindings')
    for other in (m, mod.Mass('m2', q['ns'], q['vals'])):
        try:
            me.bind(**{s: other})
        except Exception:
            obs.ev('refused_twice')
        else:
            obs.check(False, 'a second item is bound to a binding')
    maps = [x for x in c['maps'] if not x['late'] and (s == x['dst'][0] or (s, 'own') == (x['src'][0], x['dst'][0]))]
    if maps:
        # an item without the mapped variables
        from numerous.engine.system import Item
        for nss in ([], c['ns'], ['other']):
            me, _ = new()
            bare = Item('bare')
            for ns in nss:
                bare.create_namespace(ns)
            try:
                me.bind(**{s: bare})
            except Exception:
                obs.ev('refused_missing')
            else:
                obs.check(False, 'an item without %s is bound to binding %s, the mapping %s <- %s is lost' % ('.'.join(maps[0]['src'][1:]), s, maps[0]['dst'], maps[0]['src']))
