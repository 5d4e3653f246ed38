"""Items registered as a set compute what the same items compute one by one."""
import random

import numpy as np

from nv import gen, util
from nv.harness import Invalid

RULE = ('a case is a generated system with at least one set of items whose compiled evaluations at several states and times were compared, variable by variable, with the equations of every '
        'single item run by Python; distinct = distinct (sets, classes, mappings, signature of the values)')
NEED = ['sets', 'set_items', 'values_compared', 'items_of_one', 'events_in_sets', 'state_events_in_sets', 'set_inputs_mapped', 'partly_mapped', 'mapped_from_set', 'set_to_set', 'permuted', 'sums_into_set', 'sums_from_set', 'sums_of_whole_set',
        'set_states', 'deep_sets', 'two_namespaces', 'llvm_kernels', 'several_sets', 'sum_derivatives', 'simulations', 'default_tag', 'scalar_sources', 'within_set', 'globals', 'items_inside_items_of_sets', 'large_sets']
ASSUMPTIONS = ['items of one set do not depend on each other\'s results (documented), only on states, constants and results of others']
CFG = dict(timeout=90, budget=400, min_cases=80)
PROFS = {
    'plain': {'ppers': 0, 'pfuncs': 0, 'pself': 0, 'feats': {'depth': 2}, 'nitems': [1, 2], 'pglob': 0},
    'linked': {'ppers': 0, 'pfuncs': 0, 'pself': 0, 'feats': {'depth': 1}, 'nitems': [1, 2, 3], 'ninputs': [1, 2, 3], 'pglob': 0, 'nns': [1, 1, 2]},
    'functions': {'ppers': .3, 'pfuncs': .6, 'pself': .3, 'feats': {'depth': 2}, 'nitems': [1, 2], 'pglob': 0},
    'globals': {'ppers': 0, 'pfuncs': 0, 'pself': 0, 'feats': {'depth': 2}, 'nitems': [1], 'pglob': .5},
}


def cases(seed, tier):
    n = 1500 if tier == 'quick' else 8000
    r = random.Random(seed * 67867967 + 6)
    names = ['plain', 'linked', 'linked', 'functions', 'plain', 'linked', 'globals']
    for k in range(2 if tier == 'quick' else 6):
        yield {'seed': r.randrange(1 << 40), 'prof': 'large', 'llvm': k % 2 == 1}
    for i in range(n):
        yield {'seed': r.randrange(1 << 40), 'prof': 'events' if i % 12 == 5 else names[i % 7], 'llvm': i % 6 == 0}


def new_item(spec, r, cls, path):
    it = {'cls': cls, 'kind': 'item', 'tag': path[-1], 'path': path, 'init': {}, 'c': spec['classes'][cls]['c']}
    for u in spec['classes'][cls]['nss']:
        for kind, v in u['vars']:
            it['init'][u['tag'] + '.' + v] = gen.fl(r) if r.random() < .8 else r.randint(-3, 4)
    return it


def gen_sets(seed, prof, obs):
    r = random.Random(seed)
    spec = gen.gen_spec(seed, prof)
    useglob = 'global_vars' in str(spec['classes'])
    top = spec['tree']
    subs = [n for n in gen.node_iter(top) if n['kind'] == 'sub']
    nsets = r.choice([1, 1, 2, 3])
    sets = []
    for k in range(nsets):
        parent = r.choice(subs)
        used = set(c['tag'] for c in parent['children'])
        if parent['cls'] is not None:
            used |= set(u['tag'] for u in spec['classes'][parent['cls']]['nss'])
        tag = r.choice([x for x in ['set', 'pipes', 'a', 'tanks', 'b1'] if 'SET_' + x not in used])
        cls = r.randrange(len(spec['classes']))
        used2 = set(u['tag'] for u in spec['classes'][cls]['nss'])
        tags = [x for x in gen.TAGS if x not in used2]
        r.shuffle(tags)
        node = {'kind': 'set', 'set': tag, 'tag': 'SET_' + tag, 'path': parent['path'] + ['SET_' + tag], 'cls': None, 'children': []}
        for t in tags[:r.choice([1, 2, 3, 3, 4, 6])]:
            it = new_item(spec, r, cls, node['path'] + [t])
            node['children'].append(it)
        parent['children'].insert(r.randint(0, len(parent['children'])), node)
        sets.append(node)
    if r.random() < .35:
        # the items of a set may be subsystems with items (and sets) of their own
        host = r.choice(sets)
        for it in host['children']:
            it['kind'] = 'sub'
            it['children'] = []
        for it in r.sample(host['children'], r.randint(1, len(host['children']))):
            used = set(u['tag'] for u in spec['classes'][it['cls']]['nss'])
            for t in r.sample([x for x in gen.TAGS if x not in used], r.randint(1, 2)):
                it['children'].append(new_item(spec, r, r.randrange(len(spec['classes'])), it['path'] + [t]))
            obs.ev('items_inside_items_of_sets')
    groups = []
    members_of = [id(c) for s in sets for c in s['children']]
    for n in gen.node_iter(top):
        if id(n) in members_of:
            continue
        if n['kind'] == 'set':
            for u in spec['classes'][n['children'][0]['cls']]['nss']:
                groups.append((u, ['.'.join(c['path']) + '.' + u['tag'] for c in n['children']], True))
        elif n['kind'] == 'item' or n['cls'] is not None:
            for u in spec['classes'][n['cls']]['nss']:
                groups.append((u, ['.'.join(n['path']) + '.' + u['tag']], False))
    r.shuffle(groups)
    maps = []
    pool = []      # scalar variables
    spools = []    # variables of sets: (paths of the members)

    def add(t, s, k):
        if (t, s) not in [(m[0], m[1]) for m in maps]:
            maps.append([t, s, k])
    for u, members, isset in groups:
        own = [[m + '.' + v for m in members] for v in u['states'] + u['consts']]
        for v in u['inputs'] + u['acc'] + u['derivs']:
            inp = v in u['inputs']
            if r.random() > (prof.get('pmap', .75) if inp else .35):
                continue
            q = r.random()
            sums = not inp or r.random() < .45
            k = 'sum' if sums else 'map'
            same = [s for s in spools + (own if isset and inp else []) if len(s) == len(members)]
            if isset and q < .4 and same:
                for _ in range(r.choice([1, 1, 2]) if sums else 1):
                    src = r.choice(same)
                    ix = list(range(len(members)))
                    if r.random() < .4:
                        r.shuffle(ix)
                        obs.ev('permuted')
                    if src in own:
                        obs.ev('within_set')
                    part = r.random() < .3
                    for i, m in enumerate(members):
                        if not part or r.random() < .6:
                            add(m + '.' + v, src[ix[i]], k)
                    obs.ev('set_to_set')
                if not inp and v in u['derivs']:
                    obs.ev('sum_derivatives')
            elif spools and q < .75 and any(len(s) > 1 for s in spools):
                # from members of sets, or of a whole set
                src = r.choice(spools)
                for m in members:
                    if r.random() < .3 and isset:
                        obs.ev('partly_mapped')
                        continue
                    if sums:
                        for s in (src if r.random() < .5 else r.sample(src, r.randint(1, len(src)))):
                            add(m + '.' + v, s, 'sum')
                        obs.ev('sums_from_set')
                        if not isset:
                            obs.ev('sums_of_whole_set')
                    else:
                        add(m + '.' + v, r.choice(src), 'map')
                        obs.ev('mapped_from_set')
            elif pool:
                for m in members:
                    if r.random() < .3 and isset:
                        obs.ev('partly_mapped')
                        continue
                    for _ in range(r.choice([1, 2, 3]) if sums else 1):
                        add(m + '.' + v, r.choice(pool), k)
                    if isset:
                        obs.ev('scalar_sources')
            if isset:
                obs.ev('set_inputs_mapped')
                if sums:
                    obs.ev('sums_into_set')
        new = [[m + '.' + v for m in members] for v in u['states'] + u['consts'] + u['inputs'] + u['outs'] + u['acc'] + u['derivs']]
        if isset:
            # results of one namespace of a set are used by its other namespaces only through other items
            if sum(1 for g in groups if g[2] and g[1][0].rsplit('.', 1)[0] == members[0].rsplit('.', 1)[0]) == 1 or r.random() < .5:
                spools += new
        else:
            pool += [x[0] for x in new]
    r.shuffle(maps)
    spec['maps'] = [m + [r.choice(['attr', 'call'])] for m in maps]
    # mappings that others replace later
    spec['decoys'] = {}
    r2 = random.Random('decoy %s' % spec['seed'])
    if r2.random() < .4:
        for t, s, k in maps:
            cand = [m[1] for m in maps if m[1] not in (s, t)]
            if k == 'map' and cand and r2.random() < .4:
                spec['decoys'][t] = r2.choice(cand)
    obs.ev('sets', len(sets))
    if len(sets) > 1:
        obs.ev('several_sets')
    for s in sets:
        obs.ev('set_items', len(s['children']))
        cl = spec['classes'][s['children'][0]['cls']]
        if len(s['children']) == 1:
            obs.ev('items_of_one')
        if any(u['states'] for u in cl['nss']):
            obs.ev('set_states')
        if len(s['path']) > 2:
            obs.ev('deep_sets')
        if len(cl['nss']) > 1:
            obs.ev('two_namespaces')
        if s['set'] == 'set':
            obs.ev('default_tag')
    if useglob:
        obs.ev('globals')
    return spec, sets


def run_case(p, obs):
    if p['prof'] == 'events':
        return run_events(p, obs)
    if p['prof'] == 'large':
        return run_large(p, obs)
    r = random.Random(p['seed'] + 1)
    spec, sets = gen_sets(p['seed'], PROFS[p['prof']], obs)
    ref = util.ref_or_invalid(spec)
    model, top, N = util.build_model(spec, llvm=p['llvm'])
    model.use_llvm = False
    if p['llvm']:
        obs.ev('llvm_kernels')
    sig = []
    for states, gl, gd in util.eval_points(spec, ref, 3, p['seed']):
        _, got = util.evaluate(model, states, gl)
        with np.errstate(all='ignore'):
            want = ref.eval(states, gd)
        util.compare(obs, got, want, 'sets %s' % [(s['tag'], len(s['children'])) for s in sets])
        sig.append(round(sum(v for v in want.values() if np.isfinite(v)), 4))
    if not p['llvm'] and ref.states and not PROFS[p['prof']]['pself'] and r.random() < .3:
        simulate(obs, spec, model, ref)
    obs.key = [[len(s['children']) for s in sets], len(spec['maps']), sig]


def simulate(obs, spec, model, ref):
    from numerous.engine.simulation import Simulation
    sim = Simulation(model, t_start=0, t_stop=.1, num=3, max_step=.05)
    util.budget(sim)
    util.run_solver(sim.solve)
    df = model.historian_df
    tt = df['time'].values
    obs.check(len(tt) == 4, 'times %s' % list(tt))
    for k in range(len(tt)):
        st = {q: df[q].values[k] for q in ref.states}
        if not all(abs(x) < 1e4 for x in st.values()):
            break
        with np.errstate(all='ignore'):
            want = ref.eval(st, dict([('t', tt[k])] + [(n, v) for n, v in spec['globals']]))
        for q, w in want.items():
            if np.isfinite(w) and abs(w) < 1e8:
                obs.check(util.agree(obs, ref, q, df[q].values[k], w, 1e-7), 'row %d (t=%g) of %s is %r; at the states of that row it is %r' % (k, tt[k], q, df[q].values[k], w))
    obs.ev('simulations')


LARGE = '''
from numerous.engine.system import Item, Subsystem, ItemsStructure
from numerous.multiphysics import EquationBase, Equation


class A(EquationBase, Item):
    def __init__(self, tag, x):
        Item.__init__(self, tag)
        EquationBase.__init__(self, tag)
        self.add_state('x', x)
        self.add_parameter('i', 0.0)
        self.add_parameter('j', 0.5)
        self.add_parameter('o', 0.0)
        self.create_namespace('n').add_equation(self)

    @Equation()
    def eq(self, scope):
        scope.o = scope.x * 2 + scope.i - scope.j
        scope.x_dot = scope.o - scope.x


class B(EquationBase, Item):
    def __init__(self, tag, base):
        Item.__init__(self, tag)
        EquationBase.__init__(self, tag)
        self.add_parameter('src', 0.0)
        self.add_parameter('base', base)
        self.add_parameter('total', 0.0)
        self.create_namespace('n').add_equation(self)

    @Equation()
    def eq2(self, scope):
        scope.src = scope.base * 2


class S(Subsystem):
    def __init__(self, xs, order, some, base):
        super().__init__('s')
        b = B('b', base)
        L = [A('a%d' % k, x) for k, x in enumerate(xs)]
        self.register_item(b)
        self.register_items(L, 'z', structure=ItemsStructure.SET)
        for k in order:
            L[k].n.i = b.n.src
        for k in some:
            b.n.total += L[k].n.o
        for k, q in zip(order, order[1:]):
            L[k].n.j = L[q].n.x
'''


def run_large(p, obs):
    """far more items in a set than usual, with one source for all and a sum of (nearly) all"""
    from numerous.engine.model import Model
    r = random.Random(p['seed'])
    n = r.choice([130, 180, 240])
    xs = [gen.fl(r) for _ in range(n)]
    order = r.sample(range(n), n)
    some = [k for k in range(n) if r.random() < .9] + [order[0]] * 3
    base = gen.fl(r)
    model = Model(util.load_source(LARGE).S(xs, order, some, base), use_llvm=p['llvm'])
    q = r.randrange(n)
    for states in ({}, {'s.SET_z.a%d.n.x' % q: 4.25}):
        _, got = util.evaluate(model, states, [0.0])
        x = [states.get('s.SET_z.a%d.n.x' % k, v) for k, v in enumerate(xs)]
        j = dict((k, x[q]) for k, q in zip(order, order[1:]))
        want = {}
        for k in range(n):
            o = x[k] * 2 + base * 2 - j.get(k, .5)
            want.update({'s.SET_z.a%d.n.%s' % (k, v): w for v, w in (('o', o), ('i', base * 2), ('j', j.get(k, .5)), ('x_dot', o - x[k]))})
        want['s.b.n.total'] = sum(want['s.SET_z.a%d.n.o' % k] for k in some)
        for k, w in want.items():
            obs.check(util.close(got[k], w, 1e-8), 'set of %d items: %s is %r, expected %r' % (n, k, got[k], w))
        obs.ev('values_compared', len(want))
    obs.ev('large_sets')
    obs.key = ['large', p['seed'], p['llvm']]


EVENTS = '''
from numerous.engine.system import Item, Subsystem, ItemsStructure
from numerous.multiphysics import EquationBase, Equation


class I(%(bases)s, EquationBase):
    def __init__(self, tag, x, p, k, level, at, low):
        %(base)s.__init__(self, tag)
        EquationBase.__init__(self, tag)
        self.add_state('x', x)
        self.add_parameter('p', p)
        self.add_parameter('s', 0.0)
        self.add_parameter('hits', 0.0)
        self.add_constant('k', k)
        ns = self.create_namespace('n')
        ns.add_equation(self)
        if level is not None:
            def cond(t, variables):
                return variables['n.x'] - level

            def act(t, variables):
                variables['n.x'] = low
                variables['n.hits'] = variables['n.hits'] + 1

            self.add_event('e', cond, act, direction=1)
        if at:
            def act2(t, variables):
                variables['n.p'] = variables['n.p'] + k

            self.add_timestamp_event('te', act2, timestamps=at)

    @Equation()
    def eq(self, scope):
        scope.s = scope.p + scope.k
        scope.x_dot = scope.s


def build(args, as_set):
    top = Subsystem('top')
    top.register_items([I(*a) for a in args], tag='set', structure=ItemsStructure.SET if as_set else ItemsStructure.LIST)
    return top
'''


def run_events(p, obs):
    """the same items with events of their own, as a list and as a set, simulated"""
    from numerous.engine.model import Model
    from numerous.engine.simulation import Simulation
    r = random.Random(p['seed'])
    base = r.choice(['Item', 'Subsystem'])
    mod = util.load_source(EVENTS % dict(bases=base, base=base), keep=True)
    tags = r.sample(['a', 'b', 'a1', 'pump', 'x'], r.randint(1, 4))
    args = []
    # level crossings of different items stay apart: at most one item has one
    who = r.choice(tags)
    for t in tags:
        args.append((t, round(r.uniform(-1, .5), 3), round(r.uniform(.5, 1.5), 3), round(r.uniform(.1, .5), 3), round(r.uniform(.7, 1.3), 3) if t == who else None,
                     sorted(round(r.uniform(.1, 1.9), 2) for _ in range(r.randint(0, 3))), round(r.uniform(-.5, 0), 2)))
    outs = []
    for as_set in (False, True):
        m = Model(mod.build(args, as_set), use_llvm=False)
        sim = Simulation(m, t_start=0, t_stop=2, num=20, max_step=.05)
        util.budget(sim)
        util.run_solver(sim.solve)
        df = m.historian_df
        pre = 'top.SET_set.' if as_set else 'top.'
        outs.append(dict([('time', df['time'].values)] + [(t + '.n.' + v, df[pre + t + '.n.' + v].values) for t in tags for v in ('x', 'p', 's', 'hits', 'k')]))
    L, S = outs
    obs.check(len(L['time']) == len(S['time']), 'events of set items: %d rows as a list, %d rows as a set' % (len(L['time']), len(S['time'])))
    for k in L:
        obs.check(len(L[k]) == len(S[k]) and np.allclose(L[k], S[k], rtol=1e-6, atol=1e-8), 'events of set items %r: %s ends at %r as a list and at %r as a set' % (args, k, L[k][-1], S[k][-1]))
    obs.ev('events_in_sets', int(sum(len(a[5]) for a in args) + L[who + '.n.hits'][-1]))
    obs.ev('state_events_in_sets', int(L[who + '.n.hits'][-1]))
    obs.ev('values_compared', sum(len(v) for v in L.values()))
    obs.key = [tags, [float(L[k][-1]) for k in L if k != 'time']]
