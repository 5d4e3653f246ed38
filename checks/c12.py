"""Time events fire once at each of their times, and only there."""
import random

import numpy as np

from nv import evgen, util
from nv.harness import Invalid

RULE = ('a case is a simulation with timestamp and periodic events; the counters, times and order numbers written by internal actions (in every '
        'recorded row) and the calls of external actions were compared with the declared times; distinct = distinct (events, systems, times, driver)')
NEED = ['fired', 'rows_checked', 'event_rows', 'external_calls', 'internal_events', 'item_level', 'model_level', 'periodic', 'stamps', 'at_recorded_times',
        'simultaneous', 'at_start', 'at_end', 'before_start', 'after_end', 'several_events', 'steps', 'llvm_kernels', 'resets', 'same_key', 'late_start',
        'shared_times', 'unsorted', 'arrays', 'second_resets', 'stateless', 'with_state_events']
ASSUMPTIONS = ['times are not negative; two different times lie at least 0.001 apart; the stamps of one event are distinct']
CFG = dict(timeout=90, budget=400, min_cases=60)
PARS = [('p0', 2.0), ('p1', 0.5)] + [('n%d' % k, 0.0) for k in range(5)] + [('last%d' % k, -1.0) for k in range(5)] + [('acc%d' % k, 0.0) for k in range(5)]


def cases(seed, tier):
    n = 240 if tier == 'quick' else 3000
    r = random.Random(seed * 22801763 + 12)
    for i in range(n):
        yield {'seed': r.randrange(1 << 40), 'llvm': i % 12 == 0, 'drive': ['solve', 'solve', 'step', 'reset', 'steps_between'][i % 5]}


def build(r, p):
    s = r.choice([0.0, 0.0, 0.0, 1.25, 7.5])
    T = r.choice([1.0, 2.0, 4.0])
    num = r.choice([1, 4, 5, 8, 10])
    te = np.linspace(s, s + T, num + 1)
    items = evgen.layout(r, r.choice([1, 2, 2, 3, 4]), r.choice([('osc', 'ramp')] * 5 + [('still',), ('osc', 'ramp', 'still')]))
    keys = r.random() < .4
    shared = [round(s + r.uniform(0, T), 3) for _ in range(3)]
    events = []
    for k in range(r.choice([1, 2, 2, 3, 4, 5])):
        i = r.randrange(len(items))
        e = dict(item=i, level=r.choice(['item', 'model']), ext=r.random() < .35, key='e' if keys else 'e%d' % k, slot=k, period=None, stamps=None,
                 array=False, share=False)
        if r.random() < .4:
            e['period'] = r.choice([0.25, 0.3, 0.5, 0.7, 1.0, 1.3, T, T / num, 3.0])
        else:
            pool = shared + [round(s + r.uniform(0, T), 3) for _ in range(4)] + list(te) + [s, s + T, round(s + T + 1.5, 2), s + T / 3, s + 2 * T / 3]
            if s:
                pool += [round(s / 2, 3), 0.0]
            e['stamps'] = [float(x) for x in r.sample(pool, r.randint(1, 5))]
            e['stamps'] = list(dict.fromkeys(e['stamps']))
            if r.random() < .5:
                e['stamps'].sort()
            e['array'] = r.random() < .3
        events.append(e)
    # a state event which has nothing to do with them
    p['state'] = r.random() < .25
    for k, e in enumerate(events):
        it = items[e['item']]
        nm = lambda v: evgen.name(it, e['level'], v)  # noqa
        a = ["v['%s'] = v['%s'] + 1" % (nm('n%d' % e['slot']), nm('n%d' % e['slot'])), "v['%s'] = t" % nm('last%d' % e['slot']),
             "v['%s'] = v['%s'] + t" % (nm('acc%d' % e['slot']), nm('acc%d' % e['slot']))]
        r.shuffle(a)
        if e['ext']:
            a.append("LOG.append((%d, t, v['%s']))" % (k, nm('x')))
        an = r.choice(['act', 'act', 'act%d' % k])
        e['src'] = 'def fac%d(z):\n    def %s(t, v):\n        %s\n    return %s\n' % (k, an, '\n        '.join(a), an)
        if e['period']:
            call = 'periodicity=%r' % e['period']
        else:
            call = 'timestamps=%s' % ('np.array(%r)' % e['stamps'] if e['array'] else repr(e['stamps']))
        e['src'] += 'def add%d(o):\n    import numpy as np\n    o.add_timestamp_event(%r, fac%d(%d), %s, is_external=%r)\n' % (k, e['key'], k, k, call, e['ext'])
    return s, T, te, items, events


def times(e, s, T):
    if e['period']:
        k0 = int(np.ceil(s / e['period'] - 1e-7))
        out = []
        while k0 * e['period'] <= s + T + 1e-7:
            out.append(k0 * e['period'])
            k0 += 1
        return out
    return sorted(t for t in e['stamps'] if s - 1e-9 <= t <= s + T + 1e-9)


def run_case(p, obs):
    from numerous.engine.simulation import Simulation
    r = random.Random(p['seed'])
    for _ in range(40):
        s, T, te, items, events = build(r, p)
        fired = [times(e, s, T) for e in events]
        allt = sorted([t for f in fired for t in f] + list(te) + [e['period'] * np.ceil((s + T) / e['period']) for e in events if e['period']] +
                      [t for e in events for t in e['stamps'] or []])
        if any(1e-8 < b - a < 1e-3 for a, b in zip(allt, allt[1:])):
            continue
        break
    else:
        raise Invalid('no legal system')
    src = evgen.source(items, events, PARS)
    if p['state']:
        src += '    def cond(t, v):\n        return v[%r] - 1000.0\n    def sact(t, v):\n        v[%r] = -7.0\n    m.add_event("st", cond, sact, direction=1)\n' % (
            '.'.join(items[0]['path']) + '.t.x', '.'.join(items[0]['path']) + '.t.p1')
        obs.ev('with_state_events')
    mod = util.load_source(src, keep=True)
    m = evgen.make(mod, p['llvm'])
    sim = Simulation(m, t_start=s, t_stop=s + T, num=len(te) - 1, max_step=r.choice([.05, .2, 10]), rtol=1e-7, atol=1e-8)
    util.budget(sim)
    sub = r.choice([1, 2, 3])

    def drive():
        if p['drive'] == 'step':
            for a, b in zip(te[:-1], te[1:]):
                util.run_solver(sim.step_solve, a, b - a)
            m.create_historian_df()
            obs.ev('steps', len(te) - 1)
            return te
        if p['drive'] == 'steps_between':
            # steps that end between the times of the grid
            cuts = sorted(set([s, s + T] + [round(s + r.uniform(.02, .98) * T, 2) for _ in range(sub)]))
            for a, b in zip(cuts[:-1], cuts[1:]):
                util.run_solver(sim.step_solve, a, b - a)
            m.create_historian_df()
            obs.ev('steps', len(cuts) - 1)
            return np.array(cuts)
        util.run_solver(sim.solve)
        return te
    te_ = drive()
    check(obs, m, mod, s, T, te_, items, events, fired)
    if p['drive'] == 'reset':
        for k in range(2):
            del mod.LOG[:]
            sim.reset(s)
            drive()
            check(obs, m, mod, s, T, te, items, events, fired)
            obs.ev('resets')
            if k:
                obs.ev('second_resets')
    for k, (e, f) in enumerate(zip(events, fired)):
        obs.ev('item_level' if e['level'] == 'item' else 'model_level')
        obs.ev('fired', len(f))
        if not e['ext']:
            obs.ev('internal_events')
        obs.ev('periodic' if e['period'] else 'stamps', len(f))
        if e['stamps']:
            if e['stamps'] != sorted(e['stamps']):
                obs.ev('unsorted')
            if e['array']:
                obs.ev('arrays')
            if any(t < s for t in e['stamps']):
                obs.ev('before_start')
            if any(t > s + T for t in e['stamps']):
                obs.ev('after_end')
        if any(abs(t - q) < 1e-8 for t in f for q in te_[1:-1]):
            obs.ev('at_recorded_times')
        if f and abs(f[0] - s) < 1e-8:
            obs.ev('at_start')
        if f and abs(f[-1] - s - T) < 1e-8:
            obs.ev('at_end')
        for q in range(k):
            if any(abs(a - b) < 1e-8 for a in fired[q] for b in f):
                obs.ev('simultaneous')
                if e['ext'] != events[q]['ext']:
                    obs.ev('shared_times')
    if len(events) > 1:
        obs.ev('several_events')
        if len(set(e['key'] for e in events)) == 1:
            obs.ev('same_key')
    if all(it['kind'] == 'still' for it in items):
        obs.ev('stateless')
    if s:
        obs.ev('late_start')
    if p['llvm']:
        obs.ev('llvm_kernels')
    obs.key = [[e['level'], e['ext'], e['period'], e['stamps']] for e in events] + [s, T, len(te), p['drive'], p['llvm']]


def check(obs, m, mod, s, T, te, items, events, fired):
    df = m.historian_df
    tt = df['time'].values
    what = {}
    for e, f in zip(events, fired):
        for t in f:
            what.setdefault(round(t, 6), [t, False, False])[2 if e['ext'] else 1] = True
    extra = [t for t, i, x in what.values() if i and not x]
    maybe = [t for t, i, x in what.values() if i and x]
    must = np.sort(np.concatenate([te, extra]))
    # a time at which internal and external events meet may have its own row or not
    rows = list(tt)
    for t in maybe:
        near = [q for q in rows if abs(q - t) < 2e-6]
        if len(near) > sum(abs(q - t) < 2e-6 for q in must):
            rows.remove(near[0])
    obs.check(len(rows) == len(must) and np.allclose(rows, must, atol=2e-6), 'recorded times %s, expected the requested %s and those of internal events %s' % (
        [round(float(x), 6) for x in tt], te, extra))
    obs.ev('event_rows', len(extra))
    for k, (e, f) in enumerate(zip(events, fired)):
        it = items[e['item']]
        path = '.'.join(it['path']) + '.t.'
        n, last, acc = (df[path + q + str(e['slot'])].values for q in ('n', 'last', 'acc'))
        for row, t in enumerate(tt):
            lo = len([q for q in f if q < t - 2e-6])
            hi = len([q for q in f if q < t + 2e-6])
            obs.check(lo <= n[row] <= hi, 'row %d (t=%.6g): event %s has fired %g times by then, its times are %s' % (row, t, desc(e), n[row], f))
            # the row of the event shows what it did; so does the recorded row at the same time, except the very first
            if lo != hi and row and (e['ext'] is False or row + 1 == len(tt) or tt[row + 1] > t + 2e-6):
                obs.check(n[row] == hi, 'row %d (t=%.6g) does not show what event %s did at that time' % (row, t, desc(e)))
            c = int(n[row])
            if c:
                obs.check(abs(last[row] - f[c - 1]) < 2e-6, 'row %d: event %s fired at %.8g, declared time %.8g' % (row, desc(e), last[row], f[c - 1]))
            obs.check(abs(acc[row] - sum(f[:c])) < 3e-6 * (c + 1), 'row %d: the times event %s fired at sum up to %g, declared %g' % (row, desc(e), acc[row], sum(f[:c])))
            obs.ev('rows_checked')
        if e['ext']:
            calls = [(t, xv) for q, t, xv in mod.LOG if q == k]
            obs.check(len(calls) == len(f), 'external action of %s called at %s, declared times %s' % (desc(e), [c[0] for c in calls], f))
            for (t, xv), q in zip(calls, f):
                obs.check(abs(t - q) < 2e-6, 'external action of %s called at %.8g, declared time %.8g' % (desc(e), t, q))
                w = evgen.value(it, 'x', t, s)
                obs.check(abs(xv - w) < 1e-3, 'external action of %s saw x=%g at t=%g, x is %g' % (desc(e), xv, t, w))
                obs.ev('external_calls')
    # the events disturb neither the states nor anything else
    used = {}
    for e in events:
        used.setdefault(e['item'], set()).add(e['slot'])
    for i, it in enumerate(items):
        path = '.'.join(it['path']) + '.t.'
        for n, v in PARS:
            if n[0] in 'nla' and int(n[-1]) in used.get(i, ()):
                continue
            obs.check(np.all(df[path + n].values == v), '%s%s was changed by an event of another item' % (path, n))
        x = df[path + 'x'].values
        w = [evgen.value(it, 'x', t, s) for t in tt]
        obs.check(np.allclose(x, w, atol=2e-3), 'state of %s is %s, without events %s' % (path, x[-3:], w[-3:]))


def desc(e):
    return '%s/%s(%s%s)' % (e['level'], e['key'], 'every %g' % e['period'] if e['period'] else 'at %s' % e['stamps'], ', external' if e['ext'] else '')
