"""Bounded and file-backed histories hold exactly the rows of an unbounded one."""
import os
import random

import numpy as np
import pandas as pd

from nv import gen, util
from nv.harness import Invalid

RULE = ('a case is a system simulated with an unbounded historian and with a bounded or file-backed one; the rows of both were compared '
        'one by one; distinct = distinct (system, buffer size, number of rows, driver, historian kind)')
NEED = ['bounded_rows_compared', 'file_rows_compared', 'flushes', 'buffer_of_one', 'exact_fill', 'stepped_runs', 'event_rows', 'row_values', 'events_on_states', 'appended_files']
ASSUMPTIONS = ['the file is read back with pandas (round-trip precision)']
CFG = dict(timeout=90, budget=300, min_cases=60)
PROF = {'ppers': 0, 'nstates': [0, 1, 2], 'feats': {'depth': 2, 'smooth': 1}, 'nitems': [1, 2], 'nns': [1, 2]}


def cases(seed, tier):
    n = 180 if tier == 'quick' else 3000
    r = random.Random(seed * 67867967 + 8)
    for i in range(n):
        yield {'seed': r.randrange(1 << 40), 'kind': ['mem', 'file'][i % 2], 'drive': ['solve', 'step', 'events', 'solve'][(i // 2) % 4]}


def make(spec, hist, p, r_seed, num, t1):
    from numerous.engine.simulation import Simulation
    model, top, N = util.build_model(spec, historian=hist)
    r = random.Random(r_seed)
    if p['drive'] == 'events':
        stamps = sorted({round(r.uniform(0.05, t1 * .95), 3) for _ in range(r.choice([1, 3, 6]))})
        target = sorted(q for q in ref_consts(spec))[0]
        src = "def act(t, variables):\n    variables['%s'] = variables['%s'] + 0.5\n" % (target, target)
        mod = util.load_source(src, keep=True)
        model.add_timestamp_event('e', mod.act, timestamps=stamps)
        if r.random() < .5:
            src = "def per(t, variables):\n    variables['%s'] = variables['%s'] - 0.25\n" % (target, target)
            mod = util.load_source(src, keep=True)
            model.add_timestamp_event('p', mod.per, periodicity=round(t1 / 7, 3))
        q = r.random()
        sts = sorted(gen.Ref(spec).states)
        if q < .85 and sts:
            # the solver is entered anew after an event that changes states
            src = "def shr(t, variables):\n    variables['%s'] = variables['%s'] * 0.9\n" % (sts[0], sts[0])
            mod = util.load_source(src, keep=True)
            if q < .55:
                model.add_timestamp_event('s', mod.shr, timestamps=sorted({round(r.uniform(0.05, t1 * .95), 4) for _ in range(3)}), is_external=q < .15)
            else:
                src = "def con(t, variables):\n    return t - %r\n" % round(r.uniform(.1, .9) * t1 + .00037, 5)
                model.add_event('c', util.load_source(src, keep=True).con, mod.shr, direction=1)
    sim = Simulation(model, t_start=0.0, t_stop=t1, num=num, max_step=t1 / 5, rtol=1e-8, atol=1e-9)
    return model, sim


def ref_consts(spec):
    ref = gen.Ref(spec)
    return [q for q, k in ref.kind.items() if k in ('constant', 'parameter')]


def drive(model, sim, p, num, t1):
    util.budget(sim)
    if p['drive'] == 'step':
        dt = t1 / num
        for k in range(num):
            util.run_solver(sim.step_solve, k * dt, dt)
        model.create_historian_df()
    else:
        util.run_solver(sim.solve)


def same(x, y):
    # the solver is entered anew when the buffer is full, so its steps may differ a little
    ok = np.isfinite(x) & (np.abs(x) < 1e6)
    return len(x) == len(y) and np.array_equal(np.isnan(x), np.isnan(y)) and np.allclose(x[ok], y[ok], rtol=5e-3, atol=1e-3)


def run_case(p, obs):
    from numerous.utils.historian import InMemoryHistorian, LocalHistorian
    r = random.Random(p['seed'])
    spec = gen.gen_spec(p['seed'], PROF)
    ref = util.ref_or_invalid(spec)
    if p['drive'] == 'events' and not ref_consts(spec):
        raise Invalid('nothing to write')
    if p['drive'] == 'step' and not ref.states:
        raise Invalid('stepping a system without states')
    target = sorted(ref_consts(spec))[0] if p['drive'] == 'events' else None
    num = r.choice([1, 2, 5, 9, 10, 24])
    t1 = r.choice([0.3, 1.0, 2.0])
    s = r.randrange(1 << 30)
    big = InMemoryHistorian()
    big.max_size = 100000
    m0, s0 = make(spec, big, p, s, num, t1)
    drive(m0, s0, p, num, t1)
    a = m0.historian_df
    n = len(a['time'].values)
    size = r.choice([1, 1, 2, 3, 5, n - 1, n, n, n + 1, 2 * n + 5])
    size = max(1, size)
    if p['kind'] == 'mem':
        h = InMemoryHistorian()
        h.max_size = size
    else:
        fn = os.path.join(os.getcwd(), 'h%d.csv' % (p['seed'] % 1000000))
        if os.path.exists(fn):
            os.remove(fn)
        h = LocalHistorian(fn, size)
    m1, s1 = make(spec, h, p, s, num, t1)
    drive(m1, s1, p, num, t1)
    b = m1.historian_df
    tb = b['time'].values
    obs.check(len(tb) == n, '%s buffer of %d: %d rows instead of %d (times %s)' % (p['kind'], size, len(tb), n, list(tb[:12])))
    obs.check(list(b.index) == list(range(n)), 'index %s' % list(b.index)[:8])
    calm = all(np.all(np.abs(a[q].values) < 50) for q in ref.states)
    for q in ['time'] + sorted(ref.vals):
        x, y = a[q].values, b[q].values
        if q not in ('time', target) and not (q in ref.states and calm and p['drive'] != 'events'):
            continue
        obs.check(same(x, y), 'buffer of %d: %s has rows %s, unbounded %s' % (size, q, y[:6], x[:6]))
        obs.ev('bounded_rows_compared', n)
    # the steps and the time an event is noticed differ a little, so the rows are judged one by one
    cols = {q: b[q].values for q in ref.vals}
    for k in range(n):
        st = {q: cols[q][k] for q in ref.states}
        if not all(abs(x) < 1e4 for x in st.values()):
            break
        if target:
            ref.vals[target] = cols[target][k]
        with np.errstate(all='ignore'):
            want = ref.eval(st, dict([('t', tb[k])] + [(g, v) for g, v in spec['globals']]))
        for q, w in want.items():
            if np.isfinite(w) and abs(w) < 1e8:
                obs.check(util.agree(obs, ref, q, cols[q][k], w, 1e-7), 'buffer of %d: row %d (t=%g) of %s is %r, at its states %r' % (
                    size, k, tb[k], q, cols[q][k], float(w)))
                obs.ev('row_values')
    obs.ev('flushes', n // size)
    obs.ev('events_on_states', int(any(e.key in 'sc' for e in m1.timestamp_events + m1.events)))
    if size == 1:
        obs.ev('buffer_of_one')
    if size == n:
        obs.ev('exact_fill')
    if p['drive'] == 'step':
        obs.ev('stepped_runs')
    if p['drive'] == 'events':
        obs.ev('event_rows', n - num - 1)
    if p['kind'] == 'file':
        f = pd.read_csv(fn, float_precision='round_trip')
        obs.check(len(f) == n, 'file has %d rows, %d were recorded (buffer %d)' % (len(f), n, size))
        for q in ['time'] + sorted(ref.vals):
            obs.check(q in f.columns, 'file has no column %s' % q)
            x, y = b[q].values, f[q].values
            obs.check(np.array_equal(x, y, equal_nan=True), 'file: %s has %s, recorded %s' % (q, y[:6], x[:6]))
            obs.ev('file_rows_compared', n)
        if r.random() < .4 and p['drive'] == 'solve':
            s1.reset(0.0)
            drive(m1, s1, p, num, t1)
            f = pd.read_csv(fn, float_precision='round_trip')
            obs.check(len(f) == 2 * n, 'after a second run the file has %d rows, expected %d' % (len(f), 2 * n))
            for q in ['time'] + sorted(ref.states):
                obs.check(same(f[q].values[:n], a[q].values), 'rows of the first run changed in the file: %s' % q)
            obs.ev('appended_files')
        os.remove(fn)
    obs.key = [len(ref.vals), size, n, p['drive'], p['kind']]
