"""The recorded history: every requested time exactly once, in order, each row the model evaluated at that time."""
import random

import numpy as np

from nv import gen, util

RULE = ('a case is a solved simulation whose whole history was checked: times, order, index, and every variable of every row against the '
        'reference evaluated at the states and time of that row; distinct = distinct (system size, states, method, times, number of runs)')
NEED = ['rows_checked', 'row_values_compared', 'method_RK45', 'method_BDF', 'method_Euler', 'stateless_rows', 'nonzero_start', 'second_solves',
        'resets', 'nan_rows', 'frame_accesses', 'time_dependent_rows', 'llvm_kernels', 'written_before_the_run']
ASSUMPTIONS = ['systems without events or variables that keep values from earlier evaluations']
CFG = dict(timeout=90, budget=300, min_cases=60)

PROFS = {
    'mix': {'ppers': 0, 'nstates': [0, 1, 1, 2], 'feats': {'depth': 2, 'smooth': 1}, 'nitems': [1, 2, 3]},
    'algebraic': {'ppers': 0, 'nstates': [0], 'nouts': [1, 2, 3], 'feats': {'depth': 2, 'smooth': 1}, 'nitems': [1, 2, 3]},
    'maps': {'ppers': 0, 'nstates': [1, 2], 'pmap': 1.0, 'feats': {'depth': 2, 'smooth': 1}, 'nitems': [2, 3, 4], 'nns': [1, 2]},
    'globals': {'ppers': 0, 'nstates': [0, 1], 'pglob': 1.0, 'feats': {'depth': 2, 'smooth': 1}, 'nitems': [1, 2]},
}


def cases(seed, tier):
    n = 260 if tier == 'quick' else 4000
    r = random.Random(seed * 86028121 + 7)
    names = sorted(PROFS)
    for k in range(4):
        yield {'nan': k}
    for i in range(n):
        yield {'seed': r.randrange(1 << 40), 'prof': names[i % len(names)], 'method': ['RK45', 'RK45', 'BDF', 'Euler'][(i // 4) % 4],
               'llvm': i % 20 == 0}


def check_rows(obs, df, ref, spec, te, first=0):
    tt = df['time'].values
    obs.check(len(tt) == len(te), '%d rows recorded for %d requested times: %s' % (len(tt), len(te), list(tt[:8])))
    for k, (a, b) in enumerate(zip(tt, te)):
        obs.check(abs(a - b) < 1e-9 * max(1, abs(b)), 'row %d is at t=%r, requested %r' % (k, a, b))
    obs.check(list(df.index) == list(range(len(tt))), 'index of the history is %s' % list(df.index)[:6])
    cols = {q: df[q].values for q in ref.vals}
    for k in range(first, len(tt)):
        st = {q: cols[q][k] for q in ref.states}
        if not all(abs(x) < 1e4 for x in st.values()):
            break
        with np.errstate(all='ignore'):
            want = ref.eval(st, dict([('t', tt[k])] + [(n, v) for n, v in spec['globals']]))
        for q, w in want.items():
            if np.isfinite(w) and abs(w) < 1e8:
                obs.check(util.agree(obs, ref, q, cols[q][k], w, 1e-7), 'row %d (t=%g) of %s is %r; at the states of that row it is %r' % (
                    k, tt[k], q, cols[q][k], float(w)))
                obs.ev('row_values_compared')
        obs.ev('rows_checked')
    return cols


def run_case(p, obs):
    from numerous.engine.simulation import Simulation
    if 'nan' in p:
        return run_nan(p, obs)
    r = random.Random(p['seed'])
    spec = gen.gen_spec(p['seed'], PROFS[p['prof']])
    ref = util.ref_or_invalid(spec)
    init = dict(ref.vals)
    declared = dict(init)
    model, top, N = util.build_model(spec, llvm=p['llvm'])
    model.use_llvm = False
    if p['llvm']:
        obs.ev('llvm_kernels')
    t0 = r.choice([0.0, 0.0, 1.0, 3.5, 30.0])
    t1 = t0 + r.choice([0.1, 0.3, 1.0, 7.0 / 3.0])
    num = r.choice([1, 2, 3, 7, 10, 23])
    te = np.linspace(t0, t1, num + 1)
    sim = Simulation(model, t_start=t0, t_stop=t1, num=num, method=p['method'], max_step=(t1 - t0) / r.choice([1, 3, 10]))
    util.budget(sim)
    # variables written after the simulation was made, before it runs: every row follows them
    changed = {}
    if r.random() < .5:
        fixed = set(m[0] for m in spec['maps']) | set(w for n in ref.nodes for w in n[3])
        free = sorted(q for q, k in ref.kind.items() if q not in fixed and k in ('constant', 'parameter'))
        changed = {q: gen.fl(r) for q in r.sample(free, min(len(free), r.choice([1, 2, 3])))}
        if ref.states and p['method'] != 'BDF' and r.random() < .3:
            changed[r.choice(sorted(ref.states))] = gen.fl(r)
        r.choice([model.update_variables, model.set_variables])(changed)
        for q, v in changed.items():
            ref.vals[q] = np.float64(v)
            obs.ev('written_before_the_run')
    util.run_solver(sim.solve)
    df = model.historian_df
    cols = check_rows(obs, df, ref, spec, te)
    init.update({q: v for q, v in changed.items() if q in ref.states})
    for q in ref.states:
        obs.check(cols[q][0] == init[q], 'first row: state %s is %r, declared %r' % (q, cols[q][0], init[q]))
    obs.ev('method_' + p['method'])
    if not ref.states:
        obs.ev('stateless_rows', len(te))
    if t0:
        obs.ev('nonzero_start')
    if 'global_vars.t' in str(spec['classes']):
        obs.ev('time_dependent_rows', len(te))
    # the frame: by path, by list of paths, by get
    names = sorted(ref.vals)
    two = [names[i] for i in np.random.RandomState(p['seed'] % 1000).randint(0, len(names), 2)]
    if two[0] != two[1]:
        d = df[two]
        obs.check(list(d.columns) == two and np.array_equal(d[two[0]].values, cols[two[0]], equal_nan=True)
                  and np.array_equal(d[two[1]].values, cols[two[1]], equal_nan=True), 'selecting two columns gives other data')
    obs.check(np.array_equal(df.get(two[0]).values, cols[two[0]], equal_nan=True), 'get(path) gives other data')
    obs.check(df.get('no.such.variable') is None, 'get of an unknown path is %r' % (df.get('no.such.variable'),))
    obs.ev('frame_accesses')
    what = r.choice(['once', 'reset', 'twice'])
    if what != 'once' and not p['llvm']:
        keep = {q: cols[q].copy() for q in cols}
        if what == 'reset':
            sim.reset(t0)
            for q in changed:
                ref.vals[q] = declared[q]
            util.run_solver(sim.solve)
            check_rows(obs, model.historian_df, ref, spec, te)
            obs.ev('resets')
        else:
            util.run_solver(sim.solve)
            df = model.historian_df
            tt = df['time'].values
            obs.check(len(tt) == 2 * len(te) and np.allclose(tt, np.concatenate([te, te]), atol=1e-9),
                      'two solves recorded times %s' % list(tt[:30]))
            obs.check(list(df.index) == list(range(len(tt))), 'index after the second solve: %s' % list(df.index)[-4:])
            for q in keep:
                obs.check(np.array_equal(df[q].values[:len(te)], keep[q], equal_nan=True), 'rows of the first solve of %s changed' % q)
            obs.ev('second_solves')
    obs.key = [len(ref.states), len(ref.nodes), p['method'], t0, num, what, p['llvm']]


def run_nan(p, obs):
    """A variable that is not a number does not remove rows."""
    from checks import c04
    from numerous.engine.model import Model
    from numerous.engine.simulation import Simulation
    from numerous.utils.historian import InMemoryHistorian
    v = ['float("nan")', 'float("inf")', '-float("inf")', '0.0'][p['nan']]
    src = c04.HEAD + '''
class Odd(EquationBase, Item):
    def __init__(self, tag):
        Item.__init__(self, tag)
        EquationBase.__init__(self, tag)
        self.add_parameter('u', %s)
        self.add_parameter('w', 0.0)
        self.create_namespace('t').add_equation(self)
    @Equation()
    def eq(self, scope):
        scope.w = scope.u * 0 + scope.global_vars.t
class S(Subsystem):
    def __init__(self):
        super().__init__('s')
        self.register_items([Odd('o'), Decay('d', 3.0, 1.0, 0.0)])
''' % v
    m = Model(util.load_source(src).S(), use_llvm=False, historian=InMemoryHistorian())
    s = Simulation(m, t_start=0, t_stop=1, num=5)
    s.solve()
    df = m.historian_df
    tt = df['time'].values
    obs.check(len(tt) == 6 and np.allclose(tt, np.linspace(0, 1, 6)), 'with a variable that is %s the history has times %s' % (v, list(tt)))
    obs.check(np.allclose(df['s.d.t.T'].values, 3 * np.exp(-tt), rtol=1e-2), 'state rows: %s' % df['s.d.t.T'].values)
    if p['nan'] == 3:
        obs.check(np.allclose(df['s.o.t.w'].values, tt, atol=1e-9), 'time dependent rows %s' % df['s.o.t.w'].values)
    else:
        obs.check(np.all(np.isnan(df['s.o.t.w'].values)), 'rows of a variable that is not a number: %s' % df['s.o.t.w'].values)
    obs.ev('nan_rows', len(tt))
    obs.key = ['nan', p['nan']]
