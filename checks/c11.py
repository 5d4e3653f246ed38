"""State events fire at the crossings of their condition in the requested direction, and only there."""
import random

import numpy as np

from nv import evgen, util
from nv.harness import Invalid

RULE = ('a case is a simulation of oscillators and ramps whose crossing times are known in closed form; the counters and time stamps written by '
        'internal actions (in every recorded row) and the calls of external actions were compared with them; distinct = distinct (systems, '
        'conditions, thresholds, directions, levels, driver)')
NEED = ['crossings', 'fired', 'wrong_direction_crossings', 'rows_checked', 'event_rows', 'external_calls', 'internal_events', 'item_level', 'model_level',
        'algebraic_conditions', 'two_item_conditions', 'both_directions', 'state_changes', 'no_crossing', 'several_events', 'steps',
        'llvm_kernels', 'resets', 'same_key', 'late_start', 'step_conditions']
ASSUMPTIONS = ['crossings of different conditions lie at least 0.02 apart, those of one condition 0.3 (more than the time between two recorded rows: after an event '
               'the solver may step up to the next one), none within 0.01 of a recorded time or in the first 0.35 (numerous.solver '
               'interpolates over its last steps, which it does not have yet)',
               'RK45 with tight tolerances; conditions do not touch zero without crossing it', 'conditions depend on variables, not on time alone (numerous.solver looks for '
               'the event a little before it, where such a condition is still false, and fires again)']
CFG = dict(timeout=90, budget=400, min_cases=60)
PARS = [('p0', 2.0), ('p1', 0.5)] + [('n%d' % k, 0.0) for k in range(4)] + [('last%d' % k, -1.0) for k in range(4)] + [('acc%d' % k, 0.0) for k in range(4)]


def cases(seed, tier):
    n = 220 if tier == 'quick' else 3000
    r = random.Random(seed * 32452843 + 11)
    for i in range(n):
        yield {'seed': r.randrange(1 << 40), 'llvm': i % 12 == 0, 'drive': ['solve', 'solve', 'step', 'reset'][i % 4], 'change': i % 3 == 0}


def build(r, p):
    s = r.choice([0.0, 0.0, 0.0, 1.25, 7.5])
    T = r.choice([2.0, 3.0, 4.5])
    items = evgen.layout(r, r.choice([1, 2, 2, 3, 4]), ('ramp',) if p['change'] else ('osc', 'osc', 'ramp'))
    events = []
    keys = r.random() < .4
    for k in range(r.choice([1, 1, 2, 3, 4])):
        i = r.randrange(len(items))
        it = items[i]
        level = r.choice(['item', 'model'])
        var = r.choice(['x', 'x', 'v', 'y', 'c'])
        if it['kind'] == 'ramp' and var == 'v':
            var = 'x'
        form = r.choice(['minus', 'minus', 'rev', 'scaled', 'sign', 'two', 'two', 'two'])
        if form == 'two' and (level == 'item' or len(items) < 2 or p['change']):
            form = 'minus'
        thr = round(r.uniform(-1.5, 1.5), 4) + 0.00037
        if var == 'c':
            thr = round(r.uniform(.3, 5), 4) + 0.00037
        j = None
        if form == 'two':
            j = r.choice([q for q in range(len(items)) if q != i])
            if var == 'v':
                var = 'x'
        if form != 'two' and r.random() < .7:
            thr = round(evgen.value(it, var, s + r.uniform(.4, T), s), 4) + 0.00037
        d = r.choice([1, -1, 1, -1, 0])
        e = dict(item=i, level=level, var=var, form=form, thr=thr, dir=d, ext=r.random() < .35, other=j,
                 key='e' if keys else 'e%d' % k, slot=k, inline=r.random() < .4, jump=0.0)
        events.append(e)
    if p['change']:
        # a sawtooth: the event puts the state back by a fixed amount whenever the threshold is reached
        i = r.randrange(len(items))
        it = items[i]
        up = it['a'] > 0
        period = round(r.uniform(.4, .9), 4)
        first = round(r.uniform(.36, .7), 4) + 0.00037
        for e in events:
            if e['item'] == i or e['form'] == 'two':
                e['item'] = (i + 1) % len(items)
                e['form'] = 'minus'
                e['thr'] = 0.77137
        events = [e for e in events if e['item'] != i][:3]
        for q, e in enumerate(events):
            e['slot'] = q
        e = dict(item=i, level=r.choice(['item', 'model']), var='x', form='minus', thr=it['b'] + it['a'] * first, dir=1 if up else -1, ext=r.random() < .4,
                 other=None, key='e' if keys else 'saw', slot=3, inline=False, jump=-it['a'] * period, period=period, first=first)
        events.insert(r.randint(0, len(events)), e)
    for k, e in enumerate(events):
        it = items[e['item']]
        nm = lambda v: evgen.name(it, e['level'], v)  # noqa
        x = "v['%s']" % nm(e['var'])
        cthr = repr(e['thr']) if e['inline'] else 'thr'
        c = {'minus': ['return %s - %s' % (x, cthr)], 'rev': ['return %s - %s' % (cthr, x)], 'scaled': ['w = 2 * %s' % x, 'return 3 * w - 6 * %s' % cthr],
             'sign': ['g = %s - %s' % (x, cthr), 'if g > 0:', '    g = 1.0', 'else:', '    g = -1.0', 'return g'],
             'two': ["return %s - v['%s']" % (x, evgen.name(items[e['other']], 'model', e['var']) if e['other'] is not None else '')]}[e['form']]
        a = ["v['%s'] = v['%s'] + 1" % (nm('n%d' % e['slot']), nm('n%d' % e['slot'])), "v['%s'] = t" % nm('last%d' % e['slot']),
             "v['%s'] = v['%s'] + t" % (nm('acc%d' % e['slot']), nm('acc%d' % e['slot']))]
        if e['jump']:
            a.append("v['%s'] = v['%s'] + %r" % (nm('x'), nm('x'), e['jump']))
        if e['ext']:
            a.append("LOG.append((%d, t, v['%s']))" % (k, nm('x')))
        fn = r.choice(['cond', 'cond', 'cond%d' % k])
        an = r.choice(['act', 'act', 'act%d' % k])
        e['src'] = 'def fac%d(thr):\n    def %s(t, v):\n        %s\n    def %s(t, v):\n        %s\n    return %s, %s\n' % (
            k, fn, '\n        '.join(c), an, '\n        '.join(a), fn, an)
        e['src'] += 'def add%d(o):\n    c, a = fac%d(%r)\n    o.add_event(%r, c, a, direction=%d, is_external=%r)\n' % (k, k, e['thr'], e['key'], e['dir'], e['ext'])
    num = int(np.ceil(T / r.choice([.15, .2, .22])))
    te = np.linspace(s, s + T, num + 1)
    return s, T, te, items, events


def expect(items, events, s, T, te):
    """times at which every event has to fire"""
    fired, cross = [], 0
    for e in events:
        it = items[e['item']]
        if e['jump']:
            f, times = None, []
            t = e['first']
            while t < T:
                times.append(s + t)
                t += e['period']
            fired.append(times)
            continue
        sg = {'rev': -1, 'scaled': 6}.get(e['form'], 1)
        if e['form'] == 'two':
            f = lambda t: evgen.value(it, e['var'], t, s) - evgen.value(items[e['other']], e['var'], t, s)  # noqa
        else:
            f = lambda t: sg * (evgen.value(it, e['var'], t, s) - e['thr'])  # noqa
        cr = evgen.crossings(f, s, s + T)
        if evgen.dip(f, s, s + T) < .02:
            raise Invalid('a condition touches zero')
        slope = [abs(f(t + 1e-4) - f(t - 1e-4)) / 2e-4 for t, d in cr]
        if slope and min(slope) < .15:
            raise Invalid('a slow crossing')
        cross += len(cr)
        e['wrong'] = len([1 for t, d in cr if d * e['dir'] < 0])
        fired.append([t for t, d in cr if d * e['dir'] >= 0])
        own = [t for t, d in cr]
        if any(b - a < .3 for a, b in zip(own, own[1:])):
            raise Invalid('crossings of one condition too close')
    allt = sorted(t for f in fired for t in f)
    if any(t < s + .35 for t in allt):
        raise Invalid('a crossing in the first steps')
    if any(b - a < .02 for a, b in zip(allt, allt[1:])) or any(abs(t - q) < .01 for t in allt for q in te):
        raise Invalid('crossings too close to each other or to a recorded time')
    return fired, cross


def run_case(p, obs):
    from numerous.engine.simulation import Simulation
    r = random.Random(p['seed'])
    for _ in range(40):
        s, T, te, items, events = build(r, p)
        try:
            fired, cross = expect(items, events, s, T, te)
        except Invalid:
            continue
        break
    else:
        raise Invalid('no legal system')
    mod = util.load_source(evgen.source(items, events, PARS), keep=True)
    m = evgen.make(mod, p['llvm'])
    sim = Simulation(m, t_start=s, t_stop=s + T, num=len(te) - 1, max_step=.03, rtol=1e-8, atol=1e-9)
    util.budget(sim)

    def drive():
        if p['drive'] == 'step':
            for a, b in zip(te[:-1], te[1:]):
                util.run_solver(sim.step_solve, a, b - a)
            m.create_historian_df()
            obs.ev('steps', len(te) - 1)
        else:
            util.run_solver(sim.solve)
    drive()
    check(obs, m, mod, s, T, te, items, events, fired)
    if p['drive'] == 'reset':
        del mod.LOG[:]
        sim.reset(s)
        drive()
        check(obs, m, mod, s, T, te, items, events, fired)
        obs.ev('resets')
    obs.ev('crossings', cross)
    obs.ev('wrong_direction_crossings', sum(e.get('wrong', 0) for e in events))
    for e, f in zip(events, fired):
        obs.ev('item_level' if e['level'] == 'item' else 'model_level')
        if not e['ext']:
            obs.ev('internal_events')
        if not f:
            obs.ev('no_crossing')
        else:
            obs.ev('fired', len(f))
            for what, cond in [('algebraic_conditions', e['var'] == 'y' or e['var'] == 'c'), ('two_item_conditions', e['form'] == 'two'),
                               ('both_directions', e['dir'] == 0), ('state_changes', e['jump'] != 0), ('step_conditions', e['form'] == 'sign')]:
                if cond:
                    obs.ev(what)
    if len(events) > 1:
        obs.ev('several_events')
        if len(set(e['key'] for e in events)) == 1:
            obs.ev('same_key')
    if s:
        obs.ev('late_start')
    if p['llvm']:
        obs.ev('llvm_kernels')
    obs.key = [[e['form'], e['var'], e['dir'], e['level'], e['ext'], round(e['thr'], 3)] for e in events] + [s, T, p['drive'], p['llvm']]


TOL = 1e-3


def check(obs, m, mod, s, T, te, items, events, fired):
    df = m.historian_df
    tt = df['time'].values
    # recorded times: the requested ones, and one row for every internal event
    extra = sorted(t for e, f in zip(events, fired) if not e['ext'] for t in f)
    want = np.sort(np.concatenate([te, extra]))
    obs.check(len(tt) == len(want), '%d rows recorded, expected %d: requested %s and internal events at %s; recorded %s' % (
        len(tt), len(want), te, extra, [round(x, 5) for x in tt]))
    obs.check(np.allclose(np.sort(tt), want, atol=TOL), 'recorded times %s, expected %s' % (tt, want))
    obs.check(np.all(np.diff(tt) >= -1e-9), 'recorded times go back: %s' % tt)
    obs.ev('event_rows', len(extra))
    for k, (e, f) in enumerate(zip(events, fired)):
        it = items[e['item']]
        path = '.'.join(it['path']) + '.t.'
        n, last, acc = (df[path + q + str(e['slot'])].values for q in ('n', 'last', 'acc'))
        x = df[path + 'x'].values
        for row, t in enumerate(tt):
            lo = len([q for q in f if q < t - TOL])
            hi = len([q for q in f if q < t + TOL])
            own = lo != hi      # the row recorded at the event itself
            obs.check(lo <= n[row] <= hi, 'row %d (t=%.6g): event %s has fired %g times, its condition has crossed %d times (%s)' % (row, t, desc(e), n[row], lo, f))
            if own and not e['ext']:
                obs.check(n[row] == hi, 'row %d (t=%.6g) recorded at event %s does not show what its action did' % (row, t, desc(e)))
            c = int(n[row])
            if c:
                obs.check(abs(last[row] - f[c - 1]) < TOL, 'row %d: event %s fired at %.8g, its condition crossed at %.8g' % (row, desc(e), last[row], f[c - 1]))
            obs.check(abs(acc[row] - sum(f[:c])) < TOL * (c + 1), 'row %d: the times event %s fired at sum up to %g, expected %g' % (row, desc(e), acc[row], sum(f[:c])))
            if e['jump']:
                w = evgen.value(it, 'x', t, s, c * e['jump'])
                obs.check(abs(x[row] - w) < 5e-3, 'row %d (t=%.6g): state %g after %d events, expected %g' % (row, t, x[row], c, w))
            obs.ev('rows_checked')
        calls = [(t, xv) for q, t, xv in mod.LOG if q == k]
        if e['ext']:
            obs.check(len(calls) == len(f), 'external action of %s called %d times (at %s), expected at %s' % (desc(e), len(calls), [c[0] for c in calls], f))
            for j, ((t, xv), q) in enumerate(zip(calls, f)):
                obs.check(abs(t - q) < TOL, 'external action of %s called at %.8g, its condition crossed at %.8g' % (desc(e), t, q))
                w = evgen.value(it, 'x', t, s, (j + 1) * e['jump'])
                obs.check(abs(xv - w) < 5e-3, 'external action of %s saw x=%g at t=%g, x is %g' % (desc(e), xv, t, w))
                obs.ev('external_calls')
    # nothing else was written
    used = {}
    for e in events:
        used.setdefault(e['item'], set()).add(e['slot'])
    for i, it in enumerate(items):
        path = '.'.join(it['path']) + '.t.'
        for n, v in PARS:
            if n[0] in 'nla' and int(n[-1]) in used.get(i, ()):
                continue
            obs.check(np.all(df[path + n].values == v), '%s%s was changed by an event of another item' % (path, n))


def desc(e):
    return '%s/%s(%s %s %g dir %d)' % (e['level'], e['key'], e['form'], e['var'], e['thr'], e['dir'])
