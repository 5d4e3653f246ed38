"""A reset simulation, and a new simulation of the same model, repeat the first run whatever happened in between."""
import random

import numpy as np

from nv import gen, util
from nv.harness import Invalid

RULE = ('a case is a model simulated, disturbed (other runs, steps, writes, aborted runs, other simulations), brought back by reset or a new Simulation, and simulated again: values before '
        'the run and every row after it compared with the first run, and with a model built anew; distinct = distinct (system, events, disturbances, way back)')
NEED = ['runs', 'resets', 'new_simulations', 'rows_compared', 'initial_values_compared', 'computed_after_reset', 'aborted', 'writes', 'partial_steps', 'extra_runs', 'other_times', 'events', 'external_events',
        'persistent', 'stateless', 'rebuilt', 'llvm_kernels', 'several_rounds', 'late_start', 'step_runs', 'counts_checked', 'history_cleared']
ASSUMPTIONS = ['the model is not changed structurally between the runs']
CFG = dict(timeout=120, budget=420, min_cases=60)
PROFS = {
    'mix': {'ppers': 0, 'nstates': [0, 1, 1, 2], 'feats': {'depth': 2, 'smooth': 1}, 'nitems': [1, 2, 3]},
    'algebraic': {'ppers': 0, 'nstates': [0], 'nouts': [1, 2, 3], 'feats': {'depth': 2, 'smooth': 1}, 'nitems': [1, 2, 3]},
    'maps': {'ppers': 0, 'nstates': [1, 2], 'pmap': 1.0, 'feats': {'depth': 2, 'smooth': 1}, 'nitems': [2, 3, 4], 'nns': [1, 2]},
    'globals': {'ppers': 0, 'nstates': [0, 1], 'pglob': 1.0, 'feats': {'depth': 2, 'smooth': 1}, 'nitems': [1, 2]},
}


KEEP = """
class KeepEq(EquationBase):
    def __init__(self, a, b):
        super().__init__('keepeq')
        self.add_constant('a', a)
        self.add_constant('b', b)
        self.add_parameter('k', -1.5)
        self.add_parameter('n', 0.25)
        self.add_parameter('z', 0.0)
    @Equation()
    def eq(self, scope):
        scope.z = scope.k + scope.n
        if scope.global_vars.t > scope.a:
            scope.k = 7.25 + scope.b
        if scope.global_vars.t > scope.b:
            scope.n = scope.a
class Keep(Item):
    def __init__(self, tag, a, b):
        super().__init__(tag)
        self.create_namespace('m').add_equations([KeepEq(a, b)])
"""


def cases(seed, tier):
    n = 200 if tier == 'quick' else 3000
    r = random.Random(seed * 49979687 + 14)
    names = sorted(PROFS)
    for i in range(n):
        yield {'seed': r.randrange(1 << 40), 'prof': names[i % len(names)], 'method': ['RK45', 'RK45', 'Euler', 'BDF'][(i // 4) % 4], 'llvm': i % 20 == 0}


def event_source(r, spec, ref, t0, t1, method):
    """events that change parameters nothing else determines, and states"""
    mapped = set(m[0] for m in spec['maps'])
    free = [q for q, k in ref.kind.items() if k == 'constant' and q not in mapped]
    written = set(w for n in ref.nodes for w in n[3])
    free += [q for q, k in ref.kind.items() if k == 'parameter' and q not in mapped and q not in written]
    free.sort()
    L = ['CALLS = []', 'FAIL = [-1]']
    adds = []
    if not free:
        return None
    for k in range(r.choice([0, 1, 1, 2, 3])):
        q = r.choice(free)
        body = r.choice(["v[%r] = v[%r] + %r" % (q, q, gen.fl(r)), "v[%r] = 0.5 * v[%r] - t" % (q, r.choice(free)), "v[%r] = -v[%r]" % (q, q)])
        if ref.states and method in ('RK45', 'Euler') and r.random() < .3:
            q = r.choice(sorted(ref.states))
            body = "v[%r] = 0.5 * v[%r] + 0.1" % (q, q)
        ext = r.random() < .5
        L.append('def act%d(t, v):' % k)
        if ext:
            L += ['    CALLS.append((%d, t))' % k, '    if len(CALLS) - 1 == FAIL[0]:', '        raise RuntimeError("planned")']
        L.append('    ' + body)
        if r.random() < .4:
            kw = 'periodicity=%r' % round((t1 - t0) * r.choice([.21, .37, .8]), 4)
        else:
            kw = 'timestamps=%r' % sorted(round(t0 + r.uniform(.05, .95) * (t1 - t0), 4) for _ in range(r.choice([1, 2, 3])))
        adds.append('    m.add_timestamp_event("e%d", act%d, %s, is_external=%r)' % (k, k, kw, ext))
    L += ['def add(m):', '    pass'] + adds
    return '\n'.join(L) + '\n', len(adds), any('is_external=True' in a for a in adds)


def table(m):
    df = m.historian_df
    names = [c for c in m.logged_variables]
    out = {'time': df['time'].values.copy()}
    for c in names:
        out[c] = df[c].values.copy()
    return out


def same(obs, a, b, what, tol=0.0):
    obs.check(sorted(a) == sorted(b), '%s: other columns: %s' % (what, sorted(set(a) ^ set(b))[:4]))
    obs.check(len(a['time']) == len(b['time']) and np.allclose(a['time'], b['time'], rtol=0, atol=1e-9),
              '%s: recorded times %s, first run %s' % (what, list(a['time'][:12]), list(b['time'][:12])))
    for c in a:
        x, y = a[c], b[c]
        with np.errstate(all='ignore'):
            ok = (x == y) | (np.isnan(x) & np.isnan(y)) | (np.abs(x - y) <= 1e-9 * (1 + np.abs(y)))
        if not np.all(ok):
            k = int(np.argmin(ok))
            obs.check(False, '%s: row %d (t=%g) of %s is %r, in the first run %r' % (what, k, a['time'][k], c, float(x[k]), float(y[k])))
    obs.check(True, '')
    obs.ev('rows_compared', len(a['time']))


def run_case(p, obs):
    from numerous.engine.model import Model
    from numerous.engine.simulation import Simulation
    from numerous.utils.historian import InMemoryHistorian
    r = random.Random(p['seed'])
    spec = gen.gen_spec(p['seed'], PROFS[p['prof']])
    ref = util.ref_or_invalid(spec)
    t0 = r.choice([0.0, 0.0, 1.0, 3.5])
    t1 = t0 + r.choice([0.3, 1.0, 2.0])
    num = r.choice([3, 7, 10])
    te = np.linspace(t0, t1, num + 1)
    ev = event_source(r, spec, ref, t0, t1, p['method'])
    steps = r.random() < .25
    keep = [round(t0 + r.uniform(.1, 1.3) * (t1 - t0), 3) for _ in range(2)] if r.random() < .5 else None
    kw = dict(t_start=t0, t_stop=t1, num=num, method=p['method'], max_step=(t1 - t0) / r.choice([3, 10]))

    def make(llvm):
        mod = util.load_source(gen.render(spec) + KEEP)
        top, N = mod.build()
        if keep:
            # variables which keep what they got once a time was reached
            it = mod.Keep('keep', *keep)
            top.register_item(it)
            N['.'.join([spec['tree']['tag'], 'keep'])] = it
        m = Model(top, use_llvm=llvm, historian=InMemoryHistorian(), global_variables=[tuple(g) for g in spec['globals']] or None)
        m.use_llvm = False
        em = None
        if ev:
            em = util.load_source(ev[0], keep=True)
            em.add(m)
        return m, N, em

    def simulate(m, kw=kw):
        s = Simulation(m, **kw)
        util.budget(s)
        return s

    def run(s, m):
        obs.ev('runs')
        if steps:
            m_t = te
            for a, b in zip(m_t[:-1], m_t[1:]):
                util.run_solver(s.step_solve, a, b - a)
            m.create_historian_df()
            obs.ev('step_runs')
        else:
            util.run_solver(s.solve)
        return table(m)

    A, N, em = make(p['llvm'])
    sim = simulate(A)
    init = dict(util.kernel_values(A))
    first = run(sim, A)
    if not all(np.all(np.abs(first[q]) < 1e6) for q in ref.states):
        raise Invalid('states grow')
    ncalls = len(em.CALLS) if em else 0
    if r.random() < .4:
        B, _, emb = make(False)
        same(obs, run(simulate(B), B), first, 'a model built anew')
        obs.ev('rebuilt')
    if ev and ev[1]:
        obs.ev('events')
        if ev[2]:
            obs.ev('external_events')
    rounds = r.choice([1, 1, 2, 3])
    hist = []
    names = sorted(q for q in ref.vals if q in A.aliases)
    for rnd in range(rounds):
        ops = [r.choice(['solve', 'steps', 'set', 'value', 'update', 'fault', 'fault', 'other', 'none', 'item']) for _ in range(r.choice([1, 2, 3]))]
        for op in ops:
            hist.append(op)
            if op == 'solve':
                util.run_solver(sim.solve)
                obs.ev('extra_runs')
            elif op == 'steps':
                for k in range(r.randint(1, 3)):
                    util.run_solver(sim.step_solve, te[k], te[k + 1] - te[k])
                obs.ev('partial_steps')
            elif op in ('set', 'update', 'value', 'item'):
                some = r.sample(names, min(len(names), r.choice([1, 2, 5])))
                obs.ev('writes', len(some))
                vals = {q: gen.fl(r) for q in some}
                if op == 'set':
                    A.set_variables(vals)
                elif op == 'update':
                    A.update_variables(vals)
                elif op == 'value':
                    for q, v in vals.items():
                        A.path_to_variable[q].value = v
                else:
                    for q, v in vals.items():
                        ip, ns, n = q.rsplit('.', 2)
                        getattr(getattr(N[ip], ns), n).value = v
            elif op == 'fault':
                if not (ev and ev[2] and ncalls):
                    continue
                sim.reset(t0)
                del em.CALLS[:]
                em.FAIL[0] = r.randrange(ncalls)
                try:
                    run(sim, A)
                    obs.check(False, 'an action raised, and the run ended without an error')
                except RuntimeError as e:
                    if 'planned' not in str(e):
                        raise
                em.FAIL[0] = -1
                obs.ev('aborted')
            elif op == 'other':
                d = r.choice([0.0, 0.5, 2.0])
                k2 = dict(kw, t_start=t0 + d, t_stop=t1 + d + .5, num=r.choice([2, 5]))
                if p['method'] != 'Euler':
                    k2['method'] = r.choice(['RK45', p['method']])
                util.run_solver(simulate(A, k2).solve)
                obs.ev('other_times')
        if em:
            del em.CALLS[:]
        way = r.choice(['reset', 'new'])
        hist.append(way)
        if way == 'reset':
            sim.reset(t0)
            obs.ev('resets')
        else:
            sim = simulate(A)
            obs.ev('new_simulations')
        obs.check(A.historian_df is None, 'after %s the history still has %s rows' % (way, None if A.historian_df is None else len(A.historian_df['time'].values)))
        obs.ev('history_cleared')
        now = util.kernel_values(A)
        if keep:
            q = spec['tree']['tag'] + '.keep.m.'
            # (the solver of a new simulation may try times after the start to choose its first step)
            kw0 = (-1.5, .25) if way == 'reset' else (init[q + 'k'], init[q + 'n'])
            obs.check((now[q + 'k'], now[q + 'n']) == kw0, 'after %s (history %s) kept variables are %r, not %r' % (way, hist, (now[q + 'k'], now[q + 'n']), kw0))
        if way == 'reset':
            # the variables the equations determine are those of the initial values, too (a new simulation evaluates the equations at time 0)
            A.numba_model.func(t0, A.numba_model.get_states())
            for q, v in util.kernel_values(A).items():
                obs.check(util.close(v, now[q]), 'after %s (history %s) %s is %r, the equations give %r for the initial values' % (way, hist, q, now[q], v))
                obs.ev('computed_after_reset')
        for q, w in init.items():
            if ref.kind.get(q) in ('state', 'constant'):
                obs.check(now[q] == w, 'after %s (history %s) %s is %r, initially %r' % (way, hist, q, now[q], w))
                obs.ev('initial_values_compared')
            v = A.path_to_variable[q].value
            if ref.kind.get(q) in ('state', 'constant'):
                obs.check(v == w, 'after %s (history %s) the value of the variable %s is %r, initially %r' % (way, hist, q, v, w))
        again = run(sim, A)
        same(obs, again, first, 'run after %s' % hist)
        if em:
            obs.check(len(em.CALLS) == ncalls, 'external actions were called %d times, in the first run %d (history %s)' % (len(em.CALLS), ncalls, hist))
            obs.ev('counts_checked')
    if rounds > 1:
        obs.ev('several_rounds')
    if t0:
        obs.ev('late_start')
    if not ref.states:
        obs.ev('stateless')
    if keep:
        obs.ev('persistent')
    if p['llvm']:
        obs.ev('llvm_kernels')
    obs.key = [p['prof'], p['method'], hist, ev[1] if ev else 0, len(ref.states), len(ref.nodes), t0, num, steps]
