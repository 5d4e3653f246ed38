"""The two code generators agree: same system, same states, same values and derivatives."""
import random

import numpy as np

from nv import gen, util
from checks import c01

RULE = ('a case is a generated system compiled by both back ends whose derivative vectors and variables were compared after '
        'each of several evaluations; distinct = distinct (equations, mappings, features) signature')
NEED = ['pairs_compared', 'derivatives_compared', 'values_compared', 'state_orders_compared', 'simulations_compared', 'write_read_round_trips']
ASSUMPTIONS = ['the LLVM kernel is run from the Python solver (the jitted solver does not build with the installed numba)',
               'floating point equality up to 1e-9 relative']
CFG = dict(timeout=60, budget=400, min_cases=60)


def cases(seed, tier):
    n = 260 if tier == 'quick' else 4000
    r = random.Random(seed * 32452843 + 5)
    profs = dict(c01.PROFS)
    from checks import c02, c03
    for m, pr in (('m_', c02.PROFS), ('s_', c03.PROFS)):
        profs.update({m + k: v for k, v in pr.items()})
    names = sorted(profs)
    for i in range(n):
        nm = names[i % len(names)]
        yield {'seed': r.randrange(1 << 40), 'prof': profs[nm], 'name': nm, 'sim': i % 5 == 0}


def run_case(p, obs):
    spec = gen.gen_spec(p['seed'], p['prof'])
    ref = util.ref_or_invalid(spec)
    ma, _, _ = util.build_model(spec, llvm=False)
    ml, _, _ = util.build_model(spec, llvm=True)
    obs.check(len(ma.states_as_vector) == len(ml.states_as_vector) == len(ref.states), 'number of states: ast %d, llvm %d, declared %d' % (
        len(ma.states_as_vector), len(ml.states_as_vector), len(ref.states)))

    def order(m):
        inv = {v: m.inverse_aliases.get(k) for k, v in m.vars_ordered_values.items()}
        return [inv[i] for i in m.state_idx]
    oa, ol = order(ma), order(ml)
    obs.check(sorted(oa) == sorted(ol) == sorted(ref.states), 'states differ: %s / %s' % (oa, ol))
    obs.ev('state_orders_compared')
    for it, (states, gl, gd) in enumerate(util.eval_points(spec, ref, 3, p['seed'])):
        da, ga = util.evaluate(ma, states, gl)
        dl, glv = util.evaluate(ml, states, gl)
        obs.check(set(ga) == set(glv), 'the back ends expose different variables: %s' % sorted(set(ga) ^ set(glv))[:5])
        ref.eval(states, gd)
        util.compare(obs, glv, ga, 'llvm against ast, evaluation %d' % it, ref=ref)
        A = dict(zip(oa, da))
        L = dict(zip(ol, dl))
        for s in oa:
            if np.isfinite(A[s]):
                obs.check(util.agree(obs, ref, s + '_dot', A[s], L[s]), 'derivative of %s: ast %r, llvm %r' % (s, A[s], L[s]))
                obs.ev('derivatives_compared')
                obs.check(util.close(A[s], ga[s + '_dot']), 'returned derivative of %s is %r, variable is %r' % (s, A[s], ga[s + '_dot']))
        obs.ev('pairs_compared')
    # writing and reading single variables through both kernels
    rng = np.random.RandomState(p['seed'] % 99991)
    names = sorted(ga)
    for nme in [names[i] for i in rng.randint(0, len(names), 5)]:
        v = float(rng.uniform(-9, 9))
        for m in (ma, ml):
            before = m.get_variables()
            m.update_variables({nme: v})
            after = m.get_variables()
            obs.check(after[nme] == v, 'wrote %r to %s, read %r' % (v, nme, after[nme]))
            bad = [k for k in before if k != nme and before[k] != after[k] and before[k] == before[k]]
            obs.check(not bad, 'writing %s changed %s' % (nme, bad[:3]))
            obs.ev('write_read_round_trips')
    if p['sim']:
        from numerous.engine.simulation import Simulation
        dfs = []
        for llvm in (False, True):
            m, _, _ = util.build_model(spec, llvm=llvm)
            m.use_llvm = False
            try:
                s = Simulation(m, t_start=0, t_stop=0.2, num=4, method='Euler', max_step=0.01)
                s.solve()
            except ValueError as e:
                if 'dt shortened' in str(e) or 'Cannot go back' in str(e):
                    dfs = None
                    break
                raise
            dfs.append(m.historian_df)
        if dfs:
            a, b = dfs
            obs.check(len(a['time'].values) == len(b['time'].values), 'histories have %d and %d rows' % (len(a['time'].values), len(b['time'].values)))
            # as long as the states are moderate: rounding differences of an unstable case grow without bound
            rows = 0
            while rows < len(a['time'].values) and all(abs(d[s].values[rows]) < 100 for d in dfs for s in ref.states):
                rows += 1
            for s in sorted(ref.vals):
                x, y = a[s].values, b[s].values
                for k in range(rows):
                    if abs(x[k]) < 1e6 or abs(y[k]) < 1e6:
                        obs.check(util.close(x[k], y[k], 1e-7), 'history of %s row %d: ast %r llvm %r' % (s, k, x[k], y[k]))
            obs.ev('rows_compared', rows)
            obs.ev('simulations_compared')
    obs.key = [p['name'], len(ref.nodes), len(spec['maps']), len(ref.states), len(ga)]
