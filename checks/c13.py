"""Event actions change exactly the variables they address, by the values their code computes."""
import itertools
import math
import random

import numpy as np

from nv import evgen, util
from nv.harness import Invalid

RULE = ('a case is a simulation with events whose actions are generated code; the same code was run as plain Python on the variables at the times of the events (from '
        'closed-form solutions), and every variable of every recorded row was compared with the outcome; distinct = distinct (systems, events, action code, driver)')
NEED = ['actions', 'rows_checked', 'event_rows', 'internal', 'external', 'item_level', 'model_level', 'state_triggered', 'time_triggered', 'parameters_written',
        'states_written', 'algebraic_read', 'algebraic_written', 'own_writes_read', 'branches', 'loops', 'closures', 'names_in_locals', 'augmented', 'other_items', 'constants_written',
        'several_events', 'simultaneous', 'same_key', 'resets', 'steps', 'late_start', 'llvm_kernels', 'deep_items', 'exact', 'calls', 'negative_or_zero', 'euler', 'serial_rows', 'order_matters', 'back_to_the_start']
ASSUMPTIONS = ['different times of events lie at least 0.02 apart, and simultaneous events do not use each other\'s variables', 'RK45 with tight tolerances, or Euler where it is exact',
               'no action depends discontinuously on a state within the accuracy of the integration', 'closure variables are numbers or names, as the engine requires', 'a local name of a variable is assigned once']
CFG = dict(timeout=90, budget=400, min_cases=60)
NP = 5
PARS = [('p%d' % k, [2.0, 0.5, 0.0, -1.5, 3.0][k]) for k in range(NP)]


def cases(seed, tier):
    n = 260 if tier == 'quick' else 3500
    r = random.Random(seed * 15485863 + 13)
    for i in range(n):
        yield {'seed': r.randrange(1 << 40), 'llvm': i % 12 == 0, 'drive': ['solve', 'solve', 'step', 'reset'][i % 4], 'states': i % 3 != 0, 'serial': i % 9 == 4}


class Code:
    """random code of one action"""

    def __init__(self, r, items, e, obs):
        self.r, self.items, self.e, self.obs = r, items, e, obs
        self.lines = []
        self.closure = {}
        self.locals = []
        self.written = set()
        self.used = set()

    def nm(self, i, v):
        return evgen.name(self.items[i], self.e['level'], v)

    def item(self):
        r, e = self.r, self.e
        if e['level'] == 'model' and len(self.items) > 1 and r.random() < .5:
            self.used.add('other_items')
            return r.choice([i for i in e['may'] if i is not None])
        return e['item']

    def ref(self, i, v, ind):
        """source of a reference to a variable"""
        r = self.r
        name = self.nm(i, v)
        q = r.random()
        if q < .12:
            k = 'k%d' % len(self.lines)
            self.lines.append(ind + '%s = %r' % (k, name))
            self.used.add('names_in_locals')
            return 'v[%s]' % k
        if q < .24:
            k, z = 'k%d' % len(self.lines), 'z%d' % len(self.closure)
            cut = r.randint(0, len(name) - 1)
            if r.random() < .5:
                self.closure[z] = name[:cut]
                self.lines.append(ind + '%s = %s + %r' % (k, z, name[cut:]))
            else:
                self.closure[z] = name[cut:]
                self.lines.append(ind + '%s = %r + %s' % (k, name[:cut], z))
            self.used.add('names_in_locals')
            self.used.add('closures')
            return 'v[%s]' % k
        return 'v[%r]' % name

    def term(self, ind):
        r = self.r
        q = r.random()
        if q < .2:
            return repr(r.choice([1, 2, -1, 0.5, 0.25, -0.75, 3, 0]))
        if q < .3:
            return '0.25 * t'
        if q < .4:
            z = 'z%d' % len(self.closure)
            self.closure[z] = r.choice([1.5, -2, 0.125, 7, 0])
            self.used.add('closures')
            return z
        if q < .5 and self.locals:
            return r.choice(self.locals)
        i = self.item()
        if q < .75:
            v = 'p%d' % r.choice(self.e['pars'])
            if (i, v) in self.written:
                self.used.add('own_writes_read')
            return self.ref(i, v, ind)
        # (the order of simultaneous events is not specified)
        v = r.choice(['x', 'y', 'y', 'c'] if self.e['simult'] else ['x', 'y', 'out', 'out', 'c'])
        if v in ('y', 'out', 'c'):
            self.used.add('algebraic_read')
        return '0.5 * ' + self.ref(i, v, ind)

    def expr(self, ind):
        r = self.r
        q = r.random()
        a = self.term(ind)
        if q < .3:
            return a
        b = self.term(ind)
        if q < .8:
            return '%s %s %s' % (a, r.choice(['+', '-', '+']), b)
        if q < .9:
            return '%s * (%s)' % (r.choice([2, -1, 0.5]), a + ' - ' + b)
        self.used.add('calls')
        return r.choice(['min(%s, %s)', 'max(%s, %s)', 'abs(%s) + %s', '%s - abs(%s)']) % (a, b)

    def statement(self, ind, depth):
        r = self.r
        q = r.random()
        if q < .15:
            ex = self.expr(ind)
            l = 'w%d' % len(self.lines)
            if not any(q in ex for q in ('v[', 't', 'w')):
                # the engine refuses other arithmetic of constants than sums
                ex = '0 * t + ' + ex
            self.lines.append(ind + '%s = %s' % (l, ex))
            if not ind:
                self.locals.append(l)
        elif q < .27 and depth < 2:
            self.used.add('branches')
            if r.random() < .5:
                c = '%s %s %r' % (self.ref(self.item(), 'p%d' % r.choice(self.e['pars']), ind), r.choice(['>', '<', '>=', '<=']), r.choice([0.1, 1.1, -0.3]))
            else:
                c = 't > %r' % round(self.e['s'] + r.uniform(0, self.e['T']), 3)
            self.lines.append(ind + 'if %s:' % c)
            self.body(ind + '    ', depth + 1)
            if r.random() < .6:
                self.lines.append(ind + 'else:')
                self.body(ind + '    ', depth + 1)
        elif q < .34 and depth < 1:
            self.used.add('loops')
            self.lines.append(ind + 'for j%d in range(%d):' % (len(self.lines), r.choice([2, 3])))
            self.body(ind + '    ', depth + 2)
        else:
            i = self.item()
            w = 'p%d' % r.choice(self.e['pars'])
            if self.e['sets'] and r.random() < .2:
                i, w = self.e['sets'][0], 'x'
                if self.e['level'] == 'item' and i != self.e['item']:
                    return self.statement(ind, depth)
                self.used.add('states_written')
                t = self.ref(i, w, ind)
                self.lines.append(ind + '%s = %s' % (t, r.choice(['%s + %r' % ('v[%r]' % self.nm(i, w), r.choice([.5, -1, 2])), repr(r.choice([0.0, 1, -2.5])), '-v[%r]' % self.nm(i, w)])))
                return
            if r.random() < .06:
                w = r.choice(['y', 'out'])
                self.used.add('algebraic_written')
                ex = self.expr(ind)
                self.lines.append(ind + '%s = %s' % (self.ref(i, w, ind), ex))
                return
            self.used.add('parameters_written')
            if r.random() < .3:
                self.used.add('augmented')
                ex = self.expr(ind)
                t = 'v[%r]' % self.nm(i, w)
                self.lines.append(ind + r.choice(['%s += %s', '%s -= %s']) % (t, ex))
            elif r.random() < .2:
                self.used.add('constants_written')
                c = r.choice([0, 1, 2.5, -3, 0.0, -1])
                if r.random() < .5:
                    # back to what it was at the start
                    c = dict(PARS)[w]
                    self.used.add('back_to_the_start')
                self.lines.append(ind + '%s = %r' % (self.ref(i, w, ind), c))
            else:
                ex = self.expr(ind)
                self.lines.append(ind + '%s = %s' % (self.ref(i, w, ind), ex))
            self.written.add((i, w))

    def body(self, ind, depth):
        n = len(self.lines)
        for _ in range(self.r.choice([1, 1, 2])):
            self.statement(ind, depth)
        # a block needs a statement of its own
        assert len(self.lines) > n


def build(r, p):
    s = r.choice([0.0, 0.0, 0.0, 1.25, 7.5])
    T = r.choice([2.0, 3.0])
    num = r.choice([10, 15, 20])
    te = np.linspace(s, s + T, num + 1)
    # (the solver locates state events with less accurate states)
    stated = r.random() < .5
    items = evgen.layout(r, r.choice([1, 2, 3, 4]), ('ramp',) if stated else ('osc', 'ramp', 'ramp'))
    ramps = [i for i, it in enumerate(items) if it['kind'] == 'ramp']
    jumpy = r.choice(ramps) if p['states'] and ramps else None
    keys = r.random() < .4
    events = []
    simult = r.random() < .3
    shared_t = round(s + r.uniform(.05, .95) * T, 3)
    n = r.choice([1, 2, 2, 3, 4])
    if simult:
        n = max(n, 2)
    for k in range(n):
        i = r.randrange(len(items))
        e = dict(item=i, level=r.choice(['item', 'model']), ext=r.random() < .4, key='e' if keys else 'e%d' % k, kind='time', s=s, T=T, simult=simult, sets=[], times=[], period=None, cond=None,
                 pars=list(range(NP)), may=list(range(len(items))))
        still = [q for q in ramps if q != jumpy]
        if stated and r.random() < .6 and still and not simult:
            # triggered by a ramp nobody changes
            e['kind'] = 'state'
            q = i if i in still else r.choice(still)
            if q != i:
                e['level'] = 'model'
            at = round(r.uniform(.4, T - .1), 3) + 0.00037
            e['cond'] = (q, evgen.value(items[q], 'x', s + at, s), r.choice([0, 1 if items[q]['a'] > 0 else -1]))
            e['times'] = [s + at]
        elif r.random() < .2:
            e['period'] = r.choice([.37, .71, 1.13])
            k0 = int(np.ceil(s / e['period'] - 1e-7))
            while k0 * e['period'] <= s + T + 1e-7:
                e['times'].append(k0 * e['period'])
                k0 += 1
        else:
            e['times'] = sorted(round(s + r.uniform(.02, .98) * T, 3) for _ in range(r.randint(1, 3)))
            if simult:
                e['times'] = sorted(set(e['times'][:-1] + [shared_t]))
        if jumpy is not None:
            e['sets'] = [jumpy]
        if simult:
            # events at the same time keep to their own parameters, and items
            e['pars'] = [k]
            e['level'] = 'item' if r.random() < .5 else 'model'
            e['may'] = [i]
            e['sets'] = []
        events.append(e)
    return s, T, te, items, events


def write(r, items, events, obs):
    for k, e in enumerate(events):
        c = Code(r, items, e, obs)
        for _ in range(r.choice([1, 2, 3, 4])):
            c.statement('', 0)
        if not any('v[' in l and '=' in l for l in c.lines):
            c.lines.append('v[%r] = t' % c.nm(e['item'], 'p%d' % e['pars'][0]))
        e['used'] = c.used
        an = r.choice(['act', 'act', 'act%d' % k])
        e['code'] = (c.lines, c.closure)
        lines = list(c.lines)
        if e['ext']:
            lines.append('LOG.append((%d, t))' % k)
        src = 'def fac%d(%s):\n    def %s(t, v):\n        %s\n    return %s\n' % (k, ', '.join(c.closure), an, '\n        '.join(lines), an)
        call = 'fac%d(%s)' % (k, ', '.join('%s=%r' % q for q in c.closure.items()))
        if e['kind'] == 'state':
            q, thr, d = e['cond']
            src += 'def cfac%d(thr):\n    def cond(t, v):\n        return v[%r] - thr\n    return cond\n' % (k, evgen.name(items[q], e['level'], 'x'))
            src += 'def add%d(o):\n    o.add_event(%r, cfac%d(%r), %s, direction=%d, is_external=%r)\n' % (k, e['key'], k, thr, call, d, e['ext'])
        else:
            when = 'periodicity=%r' % e['period'] if e['period'] else 'timestamps=%r' % e['times']
            src += 'def add%d(o):\n    o.add_timestamp_event(%r, %s, %s, is_external=%r)\n' % (k, e['key'], call, when, e['ext'])
        e['src'] = src


class World:
    """what the variables are after the events so far, with the same code run as Python"""

    def __init__(self, items, s, shift=0.0):
        self.items, self.s, self.shift = items, s, shift
        self.pars = [dict(PARS) for _ in items]
        self.jump = [0.0] * len(items)

    def values(self, i, t):
        out = {n: evgen.value(self.items[i], n, t, self.s, self.jump[i]) for n in 'xvyc'}
        if self.shift:
            out['x'] += self.shift
            out['y'] += 2 * self.shift
        out.update(self.pars[i])
        out['out'] = 3 * out['p0'] - out['p1'] + out['y']
        return out

    def run(self, e, t):
        v, back = {}, {}
        for i, it in enumerate(self.items):
            if e['level'] == 'item' and i != e['item']:
                continue
            for n, q in self.values(i, t).items():
                v[evgen.name(it, e['level'], n)] = q
                back[evgen.name(it, e['level'], n)] = (i, n)
        old = dict(v)
        ns = dict(e['code'][1], v=v, t=t)
        exec('\n'.join(e['code'][0]), ns)
        for name, q in v.items():
            i, n = back[name]
            if n in self.pars[i]:
                if abs(q) > 1e4:
                    raise Invalid('values grow')
                self.pars[i][n] = float(q)
            elif n == 'x' and q != old[name]:
                self.jump[i] += q - old[name]


def serial(p, obs):
    """simultaneous events which read what each other writes, and what the equations calculate from it: the outcome is that of one order"""
    from numerous.engine.simulation import Simulation
    r = random.Random(p['seed'])
    s = r.choice([0.0, 1.25])
    T, num = 1.0, 10
    te = np.linspace(s, s + T, num + 1)
    items = evgen.layout(r, r.choice([1, 2]), ('ramp',))
    n = r.choice([2, 2, 3])
    at = s + r.choice([.237, .543, .861])
    exts = r.choice([[False] * n, [True] * n, [r.random() < .5 for _ in range(n)]])
    events = []
    for k in range(n):
        lv = r.choice(['item', 'model'])
        e = dict(item=0, level=lv, ext=exts[k], key='e%d' % k, kind='time', times=[at], period=None)
        nm = [evgen.name(items[0], lv, v) for v in ['p%d' % j for j in range(NP)] + ['out']]
        lines = []
        ws = r.sample(range(NP), r.choice([1, 2]))
        if not k and not {0, 1} & set(ws):
            ws[0] = r.choice([0, 1])
        for w in ws:
            lines.append('v[%r] = %s * v[%r] + %s * v[%r] + %r' % (nm[w], r.choice(['0.5', '0.25', '-0.5']), nm[r.choice([j for j in range(NP)])], r.choice(['0.5', '0.25']),
                                                                  nm[r.choice([0, 1, NP, NP, NP])], r.choice([1, 2, -1, 0.5])))
        e['code'] = (lines, {})
        src = 'def act%d(t, v):\n    %s\n' % (k, '\n    '.join(lines))
        e['src'] = src + 'def add%d(o):\n    o.add_timestamp_event(%r, act%d, timestamps=%r, is_external=%r)\n' % (k, e['key'], k, e['times'], e['ext'])
        events.append(e)
    outcomes = []
    for order in itertools.permutations(range(n)):
        w = World(items, s)
        for k in order:
            w.run(events[k], at)
        outcomes.append([w.pars[0]['p%d' % j] for j in range(NP)])
    mod = util.load_source(evgen.source(items, events, PARS), keep=True)
    m = evgen.make(mod, p['llvm'])
    sim = Simulation(m, t_start=s, t_stop=s + T, num=num, max_step=.05, rtol=1e-8, atol=1e-9, **(dict(method='Euler') if r.random() < .3 else {}))
    util.budget(sim)
    if p['drive'] == 'step':
        for a, b in zip(te[:-1], te[1:]):
            util.run_solver(sim.step_solve, a, b - a)
        m.create_historian_df()
    else:
        util.run_solver(sim.solve)
    df = m.historian_df
    path = '.'.join(items[0]['path']) + '.t.'
    for row, t in enumerate(df['time'].values):
        got = [float(df[path + 'p%d' % j].values[row]) for j in range(NP)]
        if t < at - 1e-3:
            obs.check(got == [v for _, v in PARS], 'serial: %s before the events' % got)
        elif t > at + 1e-3:
            obs.check(any(np.allclose(got, o, rtol=0, atol=1e-3) for o in outcomes), 'serial: after the simultaneous events %s at %g (external: %s) the parameters are %s; in some order they would be one of %s' % (
                [e['code'][0] for e in events], at, exts, got, outcomes))
            obs.ev('serial_rows')
    if len(set(tuple(np.round(o, 2)) for o in outcomes)) > 1:
        obs.ev('order_matters')
    if p['llvm']:
        obs.ev('llvm_kernels')
    obs.key = ['serial', [[e['level'], e['ext'], e['code'][0]] for e in events], at]


def run_case(p, obs):
    from numerous.engine.simulation import Simulation
    if p.get('serial'):
        return serial(p, obs)
    r = random.Random(p['seed'])
    for _ in range(60):
        s, T, te, items, events = build(r, p)
        allt = sorted((t, k) for k, e in enumerate(events) for t in e['times'])
        if any(1e-9 < b[0] - a[0] < .02 for a, b in zip(allt, allt[1:])):
            continue
        if any(abs(b[0] - a[0]) < 1e-9 and len(events[a[1]]['pars']) == NP for a, b in zip(allt, allt[1:])):
            continue
        if any(abs(q - t) < .01 for q in te for t, k in allt):
            continue
        break
    else:
        raise Invalid('no legal system')
    write(r, items, events, obs)
    # snapshots after every event, and once more with slightly different states
    worlds = [World(items, s), World(items, s, 2e-5), World(items, s, -2e-5)]
    snaps = [(-1e9, [dict(q) for q in worlds[0].pars], list(worlds[0].jump))]
    for t, k in allt:
        for w in worlds:
            w.run(events[k], t)
        snaps.append((t, [dict(q) for q in worlds[0].pars], list(worlds[0].jump)))
        for w in worlds[1:]:
            for i in range(len(items)):
                if abs(w.jump[i] - worlds[0].jump[i]) > 1e-2 or any(abs(w.pars[i][n] - worlds[0].pars[i][n]) > 1e-2 for n, _ in PARS):
                    raise Invalid('an action amplifies the inaccuracy of the states')
    src = evgen.source(items, events, PARS)
    mod = util.load_source(src, keep=True)
    m = evgen.make(mod, p['llvm'])
    # (Euler is exact for ramps, and its last evaluation lies a step before the event)
    euler = all(it['kind'] == 'ramp' for it in items) and random.Random(p['seed'] + 1).random() < .5
    sim = Simulation(m, t_start=s, t_stop=s + T, num=len(te) - 1, max_step=.03, rtol=1e-8, atol=1e-9, **(dict(method='Euler') if euler else {}))
    obs.ev('euler', int(euler))
    util.budget(sim)

    def drive():
        if p['drive'] == 'step':
            for a, b in zip(te[:-1], te[1:]):
                util.run_solver(sim.step_solve, a, b - a)
            m.create_historian_df()
            obs.ev('steps', len(te) - 1)
        else:
            util.run_solver(sim.solve)
    for run in range(3 if p['drive'] == 'reset' else 1):
        if run:
            del mod.LOG[:]
            sim.reset(s)
            obs.ev('resets')
        drive()
        check(obs, m, mod, s, T, te, items, events, allt, snaps)
    for e in events:
        obs.ev('external' if e['ext'] else 'internal')
        obs.ev('item_level' if e['level'] == 'item' else 'model_level')
        obs.ev('state_triggered' if e['kind'] == 'state' else 'time_triggered')
        obs.ev('actions', len(e['times']))
        for u in e['used']:
            obs.ev(u)
        if items[e['item']]['sub']:
            obs.ev('deep_items')
    if len(events) > 1:
        obs.ev('several_events')
        if len(set(e['key'] for e in events)) == 1:
            obs.ev('same_key')
    if len(set(t for t, k in allt)) < len(allt):
        obs.ev('simultaneous')
    if s:
        obs.ev('late_start')
    if p['llvm']:
        obs.ev('llvm_kernels')
    if any(q <= 0 for d in snaps[-1][1] for q in d.values()):
        obs.ev('negative_or_zero')
    obs.key = [[e['level'], e['ext'], e['kind'], e['times'], e['code'][0]] for e in events] + [len(items), s, T, p['drive'], p['llvm']]


def check(obs, m, mod, s, T, te, items, events, allt, snaps):
    df = m.historian_df
    tt = df['time'].values
    times = sorted(set(t for t, k in allt))
    # (events and recorded times are at least .01 apart, so rows this near belong to the event)
    W = 1e-3
    own = sorted(set(t for t, k in allt if not events[k]['ext']))
    mixed = [t for t in own if any(abs(t - q) < 1e-9 and events[k]['ext'] for q, k in allt)]
    for t in te:
        obs.check(np.sum(np.abs(tt - t) < 1e-9) == 1, 'requested time %g is not recorded once: %s' % (t, [round(float(q), 4) for q in tt]))
    for t in own:
        if t not in mixed:
            obs.check(np.sum(np.abs(tt - t) < W) >= 1, 'no row for the internal events at %g: %s' % (t, [round(float(q), 4) for q in tt]))
    for k, e in enumerate(events):
        if e['ext']:
            calls = [t for q, t in mod.LOG if q == k]
            obs.check(len(calls) == len(e['times']) and np.allclose(calls, e['times'], rtol=0, atol=W if e['kind'] == 'state' else 1e-5), 'external action %d called at %s, expected %s' % (k, calls, e['times']))
    for row, t in enumerate(tt):
        near = [q for q in times if abs(q - t) < W]
        if near and near[0] in mixed:
            continue
        pars, jump = [x for x in snaps if x[0] <= t + W][-1][1:]
        if near:
            obs.ev('event_rows')
        for i, it in enumerate(items):
            path = '.'.join(it['path']) + '.t.'
            got = {n: float(df[path + n].values[row]) for n, _ in PARS}
            for n, _ in PARS:
                obs.check(abs(got[n] - pars[i][n]) < 2e-3 * (1 + abs(pars[i][n])) or (np.isnan(got[n]) and np.isnan(pars[i][n])),
                          'row %d (t=%.6g): %s%s is %.8g, expected %.8g after the events %s' % (row, t, path, n, got[n], pars[i][n], desc(events, allt, t)))
                if float(pars[i][n]).is_integer() and got[n] == pars[i][n]:
                    obs.ev('exact')
            w = {n: evgen.value(it, n, t, s, jump[i]) for n in 'xvyc'}
            for n in 'xvyc':
                if n == 'v' and it['kind'] == 'ramp':
                    continue
                q = float(df[path + n].values[row])
                obs.check(abs(q - w[n]) < 5e-3 * (1 + abs(w[n])), 'row %d (t=%.6g): %s%s is %.8g, expected %.8g after the events %s' % (
                    row, t, path, n, q, w[n], desc(events, allt, t)))
            y = float(df[path + 'y'].values[row])
            q = float(df[path + 'out'].values[row])
            e = 3 * got['p0'] - got['p1'] + y
            obs.check(abs(q - e) < 1e-9 * (1 + abs(e)), 'row %d (t=%.6g): %sout is %.8g, with the parameters of the row it is %.8g' % (row, t, path, q, e))
            q, e = y, 2 * float(df[path + 'x'].values[row]) + 1
            obs.check(abs(q - e) < 1e-9 * (1 + abs(e)), 'row %d (t=%.6g): %sy is %.8g, with the state of the row it is %.8g' % (row, t, path, q, e))
        obs.ev('rows_checked')


def desc(events, allt, t):
    return [(round(q, 4), events[k]['level'], events[k]['ext'], events[k]['code'][0], events[k]['code'][1]) for q, k in allt if q <= t + 1e-5][-3:]
