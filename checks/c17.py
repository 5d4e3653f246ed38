"""Every variable is addressed by its path from the root, everywhere and uniquely."""
import random

import numpy as np

from nv import util
from nv.harness import Invalid

RULE = ('a case is a hierarchy in which every variable has a value, rate or formula of its own; all ways to find, read, write and record a variable were compared with its paths in the hierarchy; '
        'distinct = distinct (tags, nesting, registration order, levels, aliases)')
NEED = ['variables', 'paths', 'deep_paths', 'equal_tags', 'tag_is_prefix', 'tag_is_namespace', 'top_down', 'mixed_orders', 'shared_items', 'aliases', 'logged_columns', 'columns_left_out', 'writes', 'writes_seen',
        'rows_checked', 'sets', 'subsystems_with_variables', 'llvm_models', 'without_equations', 'item_lookups', 'computed_values']
ASSUMPTIONS = ['tags have no dots; variables of one namespace and aliases of one model are distinct', 'items of one subsystem have different tags (others are refused)']
CFG = dict(timeout=90, budget=300, min_cases=60)
TAGS = ['a', 'b', 'ab', 'a1', 'a11', 't', 'tt', 'x', 'item', 'A', 'SET_a', 'sub']
NS = ['t', 'tt', 'x', 'a', 'default', 'n1', 'n11']
VARS = ['x', 'xx', 'p', 'p1', 'p11', 'a', 't1', 'q', 'x_1', 'value2', 'tag2']


def cases(seed, tier):
    n = 220 if tier == 'quick' else 4000
    r = random.Random(seed * 15485863 + 17)
    for i in range(n):
        yield {'seed': r.randrange(1 << 40), 'llvm': i % 8 == 0, 'order': ['up', 'down', 'mixed', 'mixed'][i % 4], 'shared': i % 6 == 4}


def make(p):
    r = random.Random(p['seed'])
    classes = []
    for c in range(r.choice([1, 2, 3])):
        nss = []
        for ns in r.sample(NS, r.choice([1, 1, 2, 3])):
            vs = []
            for v in r.sample(VARS, r.choice([1, 2, 3, 4])):
                vs.append([v, r.choice(['constant', 'parameter', 'state', 'parameter']), r.choice([None, None, 0, 1, 2])])
            for v in list(vs):
                if v[1] == 'state':
                    vs.append([v[0] + 'rate', 'constant', r.choice([None, 0, 1, 2])])
            comp = None
            if r.random() < .5 and vs:
                comp = ['y', r.choice(vs)[0]]
                vs.append(['y', 'computed', r.choice([None, 0, 1, 2])])
            nss.append({'ns': ns, 'vars': vs, 'comp': comp})
        classes.append(nss)
    nodes = []   # index, tag, class (None: plain subsystem), children

    def node(depth, tag):
        me = {'id': len(nodes), 'tag': tag, 'cls': None, 'kids': [], 'sub': depth > 0 and (not nodes or r.random() < .6), 'set': None, 'attr': None}
        nodes.append(me)
        if not me['sub'] or r.random() < .3:
            me['cls'] = r.randrange(len(classes))
        if me['sub']:
            for tag in r.sample(TAGS, r.choice([1, 2, 2, 3])):
                me['kids'].append(node(depth - 1, tag)['id'])
            if r.random() < .2:
                # a set of items of one class
                c = r.randrange(len(classes))
                st = {'id': len(nodes), 'tag': 'SET_s', 'cls': None, 'kids': [], 'sub': True, 'set': c, 'attr': None}
                nodes.append(st)
                me['kids'].append(st['id'])
                for tag in r.sample(TAGS, r.choice([1, 2, 3])):
                    kid = {'id': len(nodes), 'tag': tag, 'cls': c, 'kids': [], 'sub': False, 'set': None, 'attr': st['id']}
                    nodes.append(kid)
                    st['kids'].append(kid['id'])
        return me
    node(r.choice([1, 2, 3, 3, 4]), r.choice(['root', 'a', 't', 'S1']))
    edges = [(n['id'], k) for n in nodes for k in n['kids'] if n['set'] is None]
    if p['shared']:
        plain = [n for n in nodes if n['id'] and n['set'] is None and n['attr'] is None and (not n['sub'] or not n['kids'])]
        subs = [n for n in nodes if n['sub'] and n['set'] is None]
        r.shuffle(plain)
        for n in plain[:2]:
            to = [s for s in subs if n['id'] not in s['kids'] and n['tag'] not in [nodes[k]['tag'] for k in s['kids']]]
            if to:
                s = r.choice(to)
                s['kids'].append(n['id'])
                edges.append((s['id'], n['id']))
    depth = {}

    def dep(i):
        depth[i] = max([0] + [1 + dep(k) for k in nodes[i]['kids']])
        return depth[i]
    dep(0)
    order = list(edges)
    r.shuffle(order)
    if p['order'] == 'up':
        order.sort(key=lambda e: depth[e[0]])
    elif p['order'] == 'down':
        order.sort(key=lambda e: -depth[e[0]])
    # paths
    paths = {}

    def walk(i, pre):
        n = nodes[i]
        me = pre + [n['tag']]
        paths.setdefault(i, []).append('.'.join(me))
        for k in n['kids']:
            walk(k, me)
    walk(0, [])
    vals = {}
    cnt = 0
    for n in nodes:
        if n['cls'] is None:
            continue
        for ns in classes[n['cls']]:
            for v, kind, lev in ns['vars']:
                cnt += 1
                vals[n['id'], ns['ns'], v] = round(cnt + r.random() * .5, 3)
    aliases = {}
    for key in r.sample(sorted(vals), min(len(vals), 3)):
        if r.random() < .4:
            aliases[key] = 'alias%d' % len(aliases)
    return dict(classes=classes, nodes=nodes, order=order, paths=paths, vals=vals, aliases=aliases, level=r.choice([0, 0, 1, 2]), by=r.choice(['item', 'items', 'bind']))


def source(h):
    out = ['from numerous.engine.system import Item, Subsystem, ItemsStructure', 'from numerous.multiphysics import EquationBase, Equation',
           'from numerous.utils.logger_levels import LoggerLevel', '']
    for c, nss in enumerate(h['classes']):
        for k, ns in enumerate(nss):
            out += ['class E%d_%d(EquationBase):' % (c, k), '    def __init__(self, vals, aliases):', "        super().__init__(tag='e%d')" % k]
            for v, kind, lev in ns['vars']:
                kw = (', logger_level=LoggerLevel(%d)' % lev if lev is not None else '') + ', alias=aliases.get(%r)' % v
                out.append('        self.add_%s(%r, vals[%r]%s)' % ({'computed': 'parameter'}.get(kind, kind), v, v, kw))
            body = ['        scope.%s_dot = scope.%srate' % (v, v) for v, kind, _ in ns['vars'] if kind == 'state']
            if ns['comp']:
                body.append('        scope.y = scope.%s * 3' % ns['comp'][1])
            if body:
                out += ['    @Equation()', '    def eq(self, scope):'] + body
            out.append('')
        for base in ('Item', 'Subsystem'):
            out += ['class C%d%s(%s):' % (c, base, base), '    def __init__(self, tag, vals, aliases):', '        super().__init__(tag)']
            for k, ns in enumerate(nss):
                out.append('        self.create_namespace(%r).add_equations([E%d_%d(vals[%r], aliases.get(%r, {}))])' % (ns['ns'], c, k, ns['ns'], ns['ns']))
            out.append('')
    return '\n'.join(out)


def build(h, mod):
    from numerous.engine.system import ItemsStructure, Subsystem
    objs = {}
    for n in h['nodes']:
        if n['set'] is not None:
            continue
        if n['cls'] is None:
            objs[n['id']] = Subsystem(n['tag'])
            continue
        nss = h['classes'][n['cls']]
        vals = {ns['ns']: {v: h['vals'][n['id'], ns['ns'], v] for v, _, _ in ns['vars']} for ns in nss}
        al = {}
        for (i, ns, v), a in h['aliases'].items():
            if i == n['id']:
                al.setdefault(ns, {})[v] = a
        objs[n['id']] = getattr(mod, 'C%d%s' % (n['cls'], 'Subsystem' if n['sub'] else 'Item'))(n['tag'], vals, al)
    for a, b in h['order']:
        n = h['nodes'][b]
        if n['set'] is not None:
            objs[a].register_items([objs[k] for k in n['kids']], tag='s', structure=ItemsStructure.SET)
        elif h['by'] == 'item':
            objs[a].register_item(objs[b])
        else:
            objs[a].register_items([objs[b]])
    return objs


def run_case(p, obs):
    from numerous.engine.model import Model
    from numerous.engine.simulation import Simulation
    from numerous.engine.system import ItemPath
    from numerous.utils.historian import InMemoryHistorian
    from numerous.utils.logger_levels import LoggerLevel
    h = make(p)
    if not h['vals']:
        raise Invalid('no variables')
    mod = util.load_source(source(h))
    objs = build(h, mod)
    m = Model(objs[0], use_llvm=p['llvm'], logger_level=LoggerLevel(h['level']), historian=InMemoryHistorian())
    m.use_llvm = False
    # what has to be there: path -> (object, initial value, level, kind, key)
    want, level, kinds = {}, {}, {}
    var = {}
    for n in h['nodes']:
        if n['cls'] is None:
            continue
        for ns in h['classes'][n['cls']]:
            for v, kind, lev in ns['vars']:
                items = [(v, kind, h['vals'][n['id'], ns['ns'], v])]
                if kind == 'state':
                    items.append((v + '_dot', 'deriv', 0))
                for name, k2, val in items:
                    key = (n['id'], ns['ns'], name)
                    var[key] = getattr(getattr(objs[n['id']], ns['ns']), name)
                    level[key] = lev or 0
                    kinds[key] = k2
                    for q in h['paths'][n['id']]:
                        want['%s.%s.%s' % (q, ns['ns'], name)] = key
                    a = h['aliases'].get((n['id'], ns['ns'], v))
                    if a:
                        want[a + ('_dot' if k2 == 'deriv' else '')] = key
                        obs.ev('aliases')
    comp = {(n['id'], ns['ns']): ns['comp'][1] for n in h['nodes'] if n['cls'] is not None for ns in h['classes'][n['cls']] if ns['comp']}

    def now(key, t=0.0, over=()):
        """value of a variable at time t"""
        over = dict(over)
        if key in over:
            return over[key]
        i, ns, v = key
        if kinds[key] == 'deriv':
            return now((i, ns, v[:-4] + 'rate'), 0, over)
        if kinds[key] == 'computed':
            return 3 * now((i, ns, comp[i, ns]), t, over)
        x = h['vals'][key]
        if kinds[key] == 'state':
            x = x + t * now((i, ns, v + 'rate'), 0, over)
        return x
    got = m.path_to_variable
    obs.check(set(got) == set(want), 'the model addresses %s, the hierarchy has %s (only in the model: %s, missing: %s)' % (
        len(got), len(want), sorted(set(got) - set(want))[:3], sorted(set(want) - set(got))[:3]))
    for q, key in want.items():
        obs.check(got[q] is var[key], 'path %s leads to another variable' % q)
        obs.check(objs[0].find_variable(q) or q in h['aliases'].values() or q.replace('_dot', '') in h['aliases'].values(), 'find_variable does not find %s' % q)
        obs.ev('paths')
        if q.count('.') > 4:
            obs.ev('deep_paths')
    # evaluation: each name shows its own value
    m.compiled_compute(np.array(m.states_as_vector), np.array([0.0]))

    def read(ctx, t=0.0, over=()):
        g = m.get_variables()
        seen = set()
        for q, v in g.items():
            obs.check(q in want, '%s: get_variables gives an unknown name %s' % (ctx, q))
            seen.add(want[q])
            w = now(want[q], t, over)
            obs.check(util.close(v, w, 1e-9), '%s: %s is %r, its own value is %r' % (ctx, q, v, w))
            if kinds[want[q]] in ('computed', 'deriv'):
                obs.ev('computed_values')
        obs.check(seen == set(var), '%s: get_variables leaves out %s' % (ctx, sorted(set(var) - seen)[:3]))
    read('first evaluation')
    sv = sorted(now(k) for k in var if kinds[k] == 'state')
    obs.check(np.allclose(sorted(float(x) for x in m.states_as_vector), sv), 'states_as_vector is %r, states are %r' % (list(m.states_as_vector), sv))
    init = m.get_variables_initial_values()
    for q, v in init.items():
        if kinds[want[q]] not in ('deriv',):
            obs.check(util.close(v, h['vals'][want[q]]), 'initial value of %s is %r, not %r' % (q, v, h['vals'][want[q]]))
    # items
    byid = {}
    for n in h['nodes']:
        for q in h['paths'][n['id']]:
            got_i = objs[0].get_item(ItemPath(q))
            if n['set'] is None:
                obs.check(got_i is objs[n['id']], 'get_item(%s) gives %r' % (q, got_i))
            else:
                obs.check(got_i is not None and got_i.tag == n['tag'], 'get_item(%s) gives %r' % (q, got_i))
            obs.ev('item_lookups')
        byid.setdefault(n['tag'], set()).add(n['id'])
        if n['set'] is None and len(h['paths'][n['id']]) == 1:
            obs.check('.'.join(objs[n['id']].path) == h['paths'][n['id']][0], 'path of item %s is %s' % (h['paths'][n['id']][0], objs[n['id']].path))
    for q in ('.'.join([h['nodes'][0]['tag'], 'nothing']), 'nothing', h['paths'][0][0] + '.nothing.x'):
        obs.check(objs[0].get_item(ItemPath(q)) is None, 'get_item(%s) finds something' % q)
    for tag, ids in byid.items():
        found = m.search_items(tag)
        obs.check(len(found) == len(ids) and all(f.tag == tag for f in found), 'search_items(%r) finds %d items, there are %d' % (tag, len(found), len(ids)))
    for q, key in want.items():
        if '.' in q:
            below = q.split('.', 1)[1]
            pth = m.get_variable_path(var[key].id, objs[0])
            obs.check(want.get(h['nodes'][0]['tag'] + '.' + pth) == key, 'get_variable_path of %s is %r' % (below, pth))
    # writes reach exactly the variable they name
    r = random.Random(p['seed'] + 1)
    names = [q for q in sorted(want) if kinds[want[q]] in ('constant', 'parameter')]
    over = {}
    for k in range(min(4, len(names))):
        q = r.choice(names)
        v = 1000.0 + k + r.randrange(9) / 8
        how = r.choice(['update', 'set', 'value'])
        if how == 'update':
            m.update_variables({q: v})
        elif how == 'set':
            m.set_variables({q: v})
        else:
            m.path_to_variable[q].value = v
        over[want[q]] = v
        if how != 'update':
            for q2, key in want.items():
                if key == want[q]:
                    obs.check(m.path_to_variable[q2].value == v, 'after writing %s with %s the value of the variable of path %s is %r, not %r' % (q, how, q2, m.path_to_variable[q2].value, v))
        obs.ev('writes')
        m.compiled_compute(np.array(m.states_as_vector), np.array([0.0]))
        read('after writing %s with %s' % (q, how), 0.0, over)
        obs.ev('writes_seen')
    # history
    upd = {q: h['vals'][want[q]] for q in names}
    m.set_variables(upd)
    sim = Simulation(m, t_start=0, t_stop=1, num=4, max_step=.25)
    util.budget(sim)
    util.run_solver(sim.solve)
    df = m.historian_df
    cols = [c for c in df.df.columns if c != 'time']
    logged = [k for k in var if level[k] >= h['level']]
    obs.check(len(cols) == len(logged), '%d columns are recorded, %d variables have the level' % (len(cols), len(logged)))
    tt = df['time'].values
    for q, key in want.items():
        if level[key] >= h['level']:
            c = df[q].values
            for t, v in zip(tt, c):
                w = now(key, t)
                obs.check(util.close(v, w, 1e-6), 'history of %s at %g is %r, not %r' % (q, t, v, w))
                obs.ev('rows_checked')
            obs.check(df.get(q) is not None and np.array_equal(df.get(q).values, c), 'get(%s) differs from the column' % q)
            obs.ev('logged_columns')
        else:
            try:
                df[q]
            except KeyError:
                pass
            else:
                obs.check(False, '%s is recorded although its level is below the one of the model' % q)
            obs.ev('columns_left_out')
    some = [q for q in sorted(want) if level[want[q]] >= h['level']][:6]
    if some:
        r.shuffle(some)
        sub = df[some]
        obs.check(list(sub.columns) == some, 'columns of a selection are %s, asked for %s' % (list(sub.columns), some))
        for k, q in enumerate(some):
            obs.check(np.array_equal(sub.iloc[:, k].values, df[q].values), 'column %s of a selection differs' % q)
    tags = [n['tag'] for n in h['nodes']]
    obs.ev('variables', len(var))
    obs.ev('equal_tags', len(tags) - len(set(tags)))
    obs.ev('tag_is_prefix', sum(1 for a in set(tags) for b in set(tags) if a != b and b.startswith(a)))
    obs.ev('tag_is_namespace', sum(1 for c in h['classes'] for ns in c if ns['ns'] in tags))
    if 1:
        obs.ev({'up': 'bottom_up', 'down': 'top_down', 'mixed': 'mixed_orders'}[p['order']])
    obs.ev('shared_items', sum(1 for q in h['paths'].values() if len(q) > 1))
    obs.ev('sets', sum(1 for n in h['nodes'] if n['set'] is not None))
    obs.ev('subsystems_with_variables', sum(1 for n in h['nodes'] if n['sub'] and n['cls'] is not None))
    obs.ev('llvm_models', int(p['llvm']))
    obs.ev('without_equations', sum(1 for c in h['classes'] for ns in c if not ns['comp'] and all(k != 'state' for _, k, _ in ns['vars'])))
    obs.key = [sorted(want), h['order'], sorted(level.values()), h['level'], p['llvm']]
