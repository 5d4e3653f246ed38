"""Observation helpers shared by the checks; they use only what a user of the engine can see."""
import importlib.util
import itertools
import os

import numpy as np

from nv.harness import Invalid, Violation

_count = itertools.count()


def load_source(src, keep=False):
    """Import generated source from a real file (equations are read with inspect.getsource)."""
    name = 'nvgen_%d_%d' % (os.getpid(), next(_count))
    fn = os.path.join(os.environ.get('NV_SCRATCH', '/tmp'), name + '.py')
    with open(fn, 'w') as f:
        f.write(src)
    try:
        sp = importlib.util.spec_from_file_location(name, fn)
        m = importlib.util.module_from_spec(sp)
        sp.loader.exec_module(m)
    finally:
        if not keep:
            # inspect caches the lines on first use, at class creation
            os.remove(fn)
    return m


def kernel_values(model):
    """path -> value of the last evaluation."""
    return {p: float(v) for p, v in model.get_variables().items()}


def close(a, b, rtol=1e-9, atol=1e-12):
    a, b = float(a), float(b)
    if np.isnan(a) and np.isnan(b):
        return True
    return abs(a - b) <= atol + rtol * max(abs(a), abs(b), 1.0)


def agree(obs, ref, path, got, want, rtol=1e-9):
    """close, or no further apart than rounding errors in the inputs of the equations explain: an expression like sin(x ** 3) of a
    large x has no better value, and the engine may sum and round in another order than the reference."""
    if close(got, want, rtol):
        return True
    if ref is None or path not in ref.vals:
        return False
    d = abs(float(got) - float(want))
    s = ref.spread(path, 1e-15)
    # (a branch that flips is not a rounding error: its difference does not grow with the error)
    if d <= 30 * s and (d < 1e-4 * max(1, abs(want)) or ref.spread(path, 1e-14) > 3 * s):
        obs.ev('ill_conditioned')
        return True
    return False


def build_model(spec, llvm=False, **kw):
    """Render, import and assemble the engine model of a spec."""
    from nv import gen
    from numerous.engine.model import Model
    from numerous.utils.historian import InMemoryHistorian
    mod = load_source(gen.render(spec))
    top, N = mod.build()
    kw.setdefault('historian', InMemoryHistorian())
    return Model(top, use_llvm=llvm, global_variables=[tuple(g) for g in spec['globals']] or None, **kw), top, N


def eval_points(spec, ref, n, seed):
    rng = np.random.RandomState(seed % (2 ** 31))
    for _ in range(n):
        states = {p: float(rng.uniform(-2, 2)) for p in ref.states}
        gl = [float(rng.uniform(0, 3))] + [g[1] for g in spec['globals']]
        yield states, gl, dict(zip(['t'] + [g[0] for g in spec['globals']], gl))


def evaluate(model, states, gl):
    """One evaluation of the engine's compiled equations at the given states and globals."""
    model.update_variables(states)
    d = model.compiled_compute(np.array(model.states_as_vector), np.array(gl, dtype=np.float64))
    return d, kernel_values(model)


def ref_or_invalid(spec):
    from nv import gen
    try:
        ref = gen.Ref(spec)
    except gen.RefError as e:
        raise Invalid(str(e))
    return ref


def compare(obs, got, want, ctx, rtol=1e-9, ref=None):
    """Every path of want must be there with its value."""
    for p, w in want.items():
        if p not in got:
            obs.check(False, '%s: variable %s is not in the model' % (ctx, p))
        g = got[p]
        if not np.isfinite(w):
            continue
        obs.check(agree(obs, ref or getattr(want, 'ref', None), p, g, w, rtol), '%s: %s = %r, Python gives %r' % (ctx, p, g, float(w)))
        obs.ev('values_compared')


def budget(sim, n=30000, stuck=False):
    """Gives the solver of sim a budget of derivative evaluations; a run that needs more is not decided (the external solver
    has no end for a right-hand side that becomes infinite in finite time). With stuck, for systems without state events, a run that
    spends the last third of it on the same few times with moderate states and rates is a violation: it repeats itself for ever."""
    left = [n]
    times, size = set(), [0.0]
    iface = sim.solver.interface
    orig = iface.get_deriv

    def get_deriv(t, y):
        left[0] -= 1
        if left[0] < 0:
            if stuck and len(times) <= 100 and size[0] < 1e6:
                raise Violation('the run does not get past t=%g: %d derivative evaluations at %d times' % (t, n // 3, len(times)))
            raise Invalid('budget of derivative evaluations used up at t=%g' % t)
        d = orig(t, y)
        if stuck and left[0] < n // 3:
            times.add(float(t))
            for a in (y, d):
                s = float(np.max(np.abs(a))) if len(a) else 0.0
                size[0] = max(size[0], s if s == s else np.inf)
        return d
    object.__setattr__(iface, 'get_deriv', get_deriv)
    return sim


def run_solver(f, *a):
    """f(*a), with the solver's own refusals (too small steps) reported as undecided."""
    try:
        return f(*a)
    except ValueError as e:
        if any(x in str(e) for x in ('dt shortened', 'Cannot go back', 'infs or NaNs')):
            raise Invalid('solver gave up: %s' % e)
        raise
