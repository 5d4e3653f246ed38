"""A simulation driven step by step, with variables read and written in between."""
import random

import numpy as np

from nv import gen, util
from nv.harness import Invalid

RULE = ('a case is a simulation driven by single steps of varying sizes with reads and writes of variables between them; after every step the states were compared with an independent '
        'integration (scipy) that starts from the written values, and all variables with the reference at those states; distinct = distinct (system, method, steps, writes)')
NEED = ['steps', 'uneven_steps', 'states_compared', 'values_compared', 'writes_parameter', 'writes_state', 'write_set', 'write_update', 'write_value', 'write_item', 'returned_times', 'rows_checked',
        'equal_to_solve', 'method_RK45', 'method_Euler', 'method_BDF', 'late_start', 'llvm_kernels', 'stateless', 'second_rounds', 'writes_of_earlier_values', 'writes_before_the_first_step', 'beyond_stop', 'resized_history']
ASSUMPTIONS = ['right-hand sides are continuous and states stay below 50', 'states are written in RK45 and Euler runs only, BDF of the solver package keeps its own',
               'no events']
CFG = dict(timeout=90, budget=400, min_cases=40)
PROFS = {
    'smooth': {'ppers': 0, 'pfuncs': 0, 'nstates': [1, 1, 2], 'feats': {'depth': 2, 'smooth': True}},
    'sums': {'ppers': 0, 'pfuncs': 0, 'nstates': [1, 2], 'pmap': 1.0, 'psum': .5, 'paccsum': .6, 'nitems': [2, 3, 4], 'feats': {'depth': 1, 'smooth': True}},
    'algebraic': {'ppers': 0, 'pfuncs': 0, 'nstates': [0], 'nitems': [1, 2, 3], 'feats': {'depth': 2, 'smooth': True}},
    'globals': {'ppers': 0, 'pfuncs': 0, 'nstates': [1, 2], 'pglob': 1.0, 'feats': {'depth': 1, 'smooth': True}, 'nitems': [1, 2]},
}


def cases(seed, tier):
    n = 220 if tier == 'quick' else 3500
    r = random.Random(seed * 32452867 + 15)
    names = ['smooth', 'sums', 'globals', 'smooth', 'sums', 'algebraic']
    for i in range(n):
        yield {'seed': r.randrange(1 << 40), 'prof': names[i % 6], 'method': ['RK45', 'RK45', 'Euler', 'BDF'][(i // 6) % 4], 'llvm': i % 18 == 0}


def run_case(p, obs):
    import warnings
    warnings.simplefilter('ignore')
    from scipy.integrate import solve_ivp
    from numerous.engine.simulation import Simulation
    r = random.Random(p['seed'])
    spec = gen.gen_spec(p['seed'], PROFS[p['prof']])
    ref = util.ref_or_invalid(spec)
    glob = [(n, v) for n, v in spec['globals']]
    mapped = set(m[0] for m in spec['maps'])
    written = set(w for n in ref.nodes for w in n[3])
    free = sorted(q for q, k in ref.kind.items() if q not in mapped and q not in written and k in ('constant', 'parameter'))
    paths = list(ref.states)
    method = p['method']

    def f(t, y):
        v = ref.eval(dict(zip(paths, y)), dict([('t', t)] + glob))
        return [float(v[q + '_dot']) for q in paths]

    calls = [0]

    def counted(t, y):
        calls[0] += 1
        if calls[0] > 3000 or not np.all(np.abs(y) < 1e3):
            raise Invalid('no reference solution')
        return f(t, y)

    def everything(t, y):
        with np.errstate(all='ignore'):
            return dict(ref.eval(dict(zip(paths, y)), dict([('t', t)] + glob)))
    t0 = r.choice([0.0, 0.0, 1.0, 12.5])
    nst = r.choice([2, 4, 8])
    even = r.random() < .4
    sizes = [r.choice([.05, .1, .2])] * nst if even else [round(r.choice([.02, .05, .1, .25]) * r.uniform(.7, 1.3), 4) for _ in range(nst)]
    ts = [t0]
    for h in sizes:
        ts.append(ts[-1] + h)
    beyond = r.random() < .3
    opts = {'RK45': dict(rtol=1e-8, atol=1e-9, max_step=.01), 'BDF': dict(rtol=1e-7, atol=1e-8, max_step=0.01), 'Euler': dict(max_step=0.002)}[method]
    # the historian must cope with more rows than the simulation was declared to have
    num = r.choice([1, nst])
    model, top, N = util.build_model(spec, llvm=p['llvm'])
    model.use_llvm = False
    sim = Simulation(model, t_start=t0, t_stop=ts[-1] * (.5 if beyond else 1) + .01, num=num, method=method, **opts)
    util.budget(sim)
    y = np.array([float(ref.vals[q]) for q in paths])
    init = dict(ref.vals)
    log = []
    rows = [(t0, y.copy())]
    wrote = 0
    first = False
    earlier = {}

    def fresh(q):
        # also what the variable once was: its value of the declaration, or one written before
        old = [float(init[q])] + earlier.get(q, [])
        if r.random() < .4 and abs(old[-1]) < 50:
            obs.ev('writes_of_earlier_values')
            v = r.choice(old)
        else:
            v = gen.fl(r)
        earlier.setdefault(q, []).append(v)
        return v
    for k, h in enumerate(sizes):
        t = ts[k]
        d = 0.0
        if r.random() < .5:
            how = r.choice(['set', 'update', 'value', 'item'])
            vals = {}
            if free and r.random() < .8:
                for q in r.sample(free, min(len(free), r.choice([1, 2]))):
                    vals[q] = fresh(q)
                    obs.ev('writes_parameter')
            if paths and method != 'BDF' and r.random() < .4:
                q = r.choice(paths)
                vals[q] = fresh(q)
                obs.ev('writes_state')
            if vals:
                before = np.array(f(t, y)) if paths else 0
                if how == 'set':
                    model.set_variables(vals)
                elif how == 'update':
                    model.update_variables(vals)
                elif how == 'value':
                    for q, v in vals.items():
                        model.path_to_variable[q].value = v
                else:
                    for q, v in vals.items():
                        ip, ns, n = q.rsplit('.', 2)
                        getattr(getattr(N[ip], ns), n).value = v
                obs.ev('write_' + how)
                log.append((how, sorted(vals)))
                wrote += 1
                first = first or not k
                for q, v in vals.items():
                    if q in paths:
                        y[paths.index(q)] = v
                    else:
                        ref.vals[q] = np.float64(v)
                if paths:
                    # the solver package keeps one derivative from before the write
                    d = float(np.max(np.abs(np.array(f(t, y)) - before))) * opts['max_step']
        if not k:
            rows[0] = (t0, y.copy())
        with np.errstate(all='ignore'):
            if paths:
                calls[0] = 0
                sol = solve_ivp(counted, (t, t + h), y, method='DOP853', rtol=1e-9, atol=1e-10, t_eval=[t + h])
                if not sol.success or sol.nfev > 3000 or not np.all(np.abs(sol.y) < 50):
                    raise Invalid('no reference solution')
                yw = sol.y[:, -1]
            else:
                yw = y
        rt = util.run_solver(sim.step_solve, t, h)
        obs.ev('steps')
        obs.check(isinstance(rt, tuple) and len(rt) == 2 and abs(rt[0] - ts[k + 1]) < 1e-9 and abs(rt[1] - ts[k + 1]) < 1e-9,
                  'step from %r by %r returned %r' % (t, h, rt))
        obs.ev('returned_times')
        got = util.kernel_values(model)
        vec = np.array(model.states_as_vector)
        tol = {'RK45': 1e-4, 'BDF': 3e-2, 'Euler': 5e-2}[method] * max(1.0, float(np.max(np.abs(yw))) if len(yw) else 1) + 2 * d
        for q, w in zip(paths, yw):
            obs.check(abs(got[q] - w) <= tol, 'after the step to t=%g (%s, writes %s) %s is %r, expected %r' % (ts[k + 1], method, log, q, got[q], float(w)))
            obs.ev('states_compared')
        obs.check(sorted(vec) == sorted(got[q] for q in paths), 'states_as_vector is %s, the states are %s' % (vec, [got[q] for q in paths]))
        # everything else belongs to the states and the time of the end of the step
        y = np.array([got[q] for q in paths])
        want = everything(ts[k + 1], y)
        for q, w in want.items():
            if np.isfinite(w) and abs(w) < 1e8:
                obs.check(util.agree(obs, ref, q, got[q], w, 1e-7), 'after the step to t=%g %s is %r, at the states then it is %r (writes %s)' % (ts[k + 1], q, got[q], float(w), log))
                obs.ev('values_compared')
        rows.append((ts[k + 1], y.copy(), {q: got[q] for q in want}))
        if r.random() < .1:
            model.create_historian_df()
    model.create_historian_df()
    df = model.historian_df
    tt = df['time'].values
    obs.check(len(tt) == len(rows) and np.allclose(tt, ts, rtol=0, atol=1e-9), 'steps ended at %s, recorded %s' % (ts, list(tt)))
    cols = {q: df[q].values for q in ref.vals}
    for k, row in enumerate(rows):
        for i, q in enumerate(paths):
            obs.check(cols[q][k] == row[1][i], 'row %d (t=%g) of %s is %r, after that step it was %r' % (k, tt[k], q, cols[q][k], row[1][i]))
        if k:
            for q, w in row[2].items():
                obs.check(util.close(cols[q][k], w, 1e-12), 'row %d (t=%g) of %s is %r, after that step it was %r' % (k, tt[k], q, cols[q][k], w))
        obs.ev('rows_checked')
    if num < len(sizes):
        obs.ev('resized_history')
    if first:
        obs.ev('writes_before_the_first_step')
    if not wrote and even and r.random() < .8:
        # the same by solve
        ref.vals.update(init)
        m2, _, _ = util.build_model(spec)
        s2 = Simulation(m2, t_start=t0, t_stop=ts[-1], num=nst, method=method, **opts)
        util.budget(s2)
        util.run_solver(s2.solve)
        c2 = m2.historian_df
        for q in paths:
            tol = {'RK45': 1e-5, 'BDF': 3e-2, 'Euler': 3e-2}[method]
            e = np.max(np.abs(c2[q].values - cols[q]) / (1 + np.abs(cols[q])))
            obs.check(e <= tol, '%s: solve gives %s for %s, steps %s' % (method, c2[q].values, q, cols[q]))
        obs.ev('equal_to_solve')
    elif r.random() < .4:
        # once more, from the start
        sim.reset(t0)
        util.run_solver(sim.step_solve, ts[0], sizes[0])
        got = util.kernel_values(model)
        if not first:
            for i, q in enumerate(paths):
                obs.check(abs(got[q] - rows[1][1][i]) <= 1e-9 * (1 + abs(got[q])), 'after reset the first step ends with %s = %r, before it was %r' % (q, got[q], rows[1][1][i]))
        obs.ev('second_rounds')
    obs.ev('method_' + method)
    if len(set(sizes)) > 1:
        obs.ev('uneven_steps')
    if t0:
        obs.ev('late_start')
    if beyond:
        obs.ev('beyond_stop')
    if not paths:
        obs.ev('stateless')
    if p['llvm']:
        obs.ev('llvm_kernels')
    obs.key = [p['prof'], method, t0, sizes, log, len(paths), len(ref.nodes)]
