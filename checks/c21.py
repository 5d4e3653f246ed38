"""Clones and models loaded from files are the model they were made of, and independent of it."""
import os
import pickle
import random
import shutil
import sys
import tempfile

from nv import util
from nv.harness import Invalid
from checks import c16

RULE = ('a case is a process with a model and clones of it, clones of clones or models loaded from its file, used in an interleaved order; everything each of them showed was compared with '
        'the same operations on a model built from the same source alone, in a process of its own; distinct = distinct (models, order of operations)')
NEED = ['models', 'operations', 'values_compared', 'switches', 'clones', 'clones_of_clones', 'files_loaded', 'files_of_other_processes', 'copies_of_used_models', 'histories_compared', 'resets',
        'event_models', 'model_events', 'import_models', 'external_models', 'sets', 'globals', 'item_writes', 'own_events', 'refused']
ASSUMPTIONS = ['the classes and functions of the system can be imported (pickle)', 'the jitted solver does not build with the installed numba, the LLVM kernel is run from the Python solver',
               'a file is written when the model is built, so events added to the model later are added to the loaded model, too']
CFG = dict(timeout=150, budget=420, min_cases=40)


class Unpicklable(Exception):
    pass


def cases(seed, tier):
    n = 100 if tier == 'quick' else 1600
    r = random.Random(seed * 86028157 + 21)
    for i in range(n):
        yield {'seed': r.randrange(1 << 40), 'kind': ['gen', 'imports', 'events', 'gen', 'external'][i % 5], 'how': ['clone', 'file', 'clone', 'fresh'][(i // 5) % 4]}


def plan(p):
    r = random.Random(p['seed'])
    k = p['kind']
    m = {'kind': k, 'src': 's0', 'seed': r.randrange(1 << 30), 'twin': None, 'vary': r.randrange(1 << 30), 'llvm': True, 'defaults': r.random() < .3}
    if k == 'gen':
        m['prof'] = r.randrange(len(c16.PROFS))
    models = [m]
    m['flags'] = ['clonable'] if p['how'] == 'clone' else ['export_model']
    for i in range(r.choice([1, 1, 2])):
        c = dict(m, copy=p['how'] if p['how'] == 'clone' else 'file', of=0, flags=[])
        if c['copy'] == 'clone':
            if i == 1 and r.random() < .7:
                c['of'] = 1
                models[1]['flags'] = ['clonable']
        models.append(c)
    seqs = [c16.sequence(r, m) for m in models]
    for i, s in enumerate(seqs):
        if k == 'gen':
            for _ in range(r.randint(0, 2)):
                s.insert(r.randint(1, len(s) - 1), ('itemwrite' if i == 0 else 'write', r.randrange(1 << 30)))
    for i, s in enumerate(seqs):
        # an event of one of them alone
        if i and k != 'external' and not any(c.get('of') == i for c in models) and r.random() < .5:
            s.insert(1, ('addev', r.randrange(1 << 30)))
    ops = c16.interleave(r, seqs)
    # nothing before what it is made of
    built, out = set(), []
    while ops:
        n = next(n for n, o in enumerate(ops) if models[o[0]].get('of') is None or models[o[0]]['of'] in built)
        op = ops.pop(n)
        if op[1] == 'build':
            built.add(op[0])
        out.append(op)
    return models, out


class World(c16.World):
    path = None

    def loaded(self, m):
        mod = self.mods[m['src']][0]
        sys.modules[mod.__name__] = mod

    def file(self, i):
        m = self.models[i]
        tag = self.m[i]['tag'] if i in self.m else self.tag
        return os.path.join(self.path, tag + '.numerous')

    def create(self, Model, top, m, **kw):
        if m.get('copy') == 'clone':
            model = self.m[m['of']]['model'].clone(**{f: True for f in m['flags']})
        elif m.get('copy') == 'file':
            model = Model.from_file(os.path.join(self.path, top.tag + '.numerous'))
        else:
            os.environ['EXPORT_MODEL_PATH'] = self.path
            sys.setrecursionlimit(20000)
            try:
                return Model(top, use_llvm=True, **{f: True for f in m['flags']}, **kw)
            except (pickle.PicklingError, AttributeError) as e:
                if "an't pickle" in str(e):
                    raise Unpicklable(str(e))
                raise
            finally:
                del os.environ['EXPORT_MODEL_PATH']
        if 'historian' in kw:
            model.historian = kw['historian']
        return model

    def do(self, op):
        if op[1] == 'itemwrite':
            w = self.m[op[0]]
            r = random.Random(op[2])
            if not w['free']:
                return None
            for q in r.sample(w['free'], min(2, len(w['free']))):
                ip, ns, v = q.rsplit('.', 2)
                getattr(getattr(w['N'][ip], ns), v).value = round(r.uniform(-3, 3), 3)
            return None
        if op[1] == 'addev':
            w = self.m[op[0]]
            r = random.Random(op[2])
            names = w['free'] or sorted(q for q in w['model'].path_to_variable if q.endswith('.p0'))
            if not names:
                return None
            q = r.choice(names)
            mod = util.load_source('def added(t, v):\n    v[%r] = v[%r] + 0.75\n' % (q, q), keep=True)
            w['model'].add_timestamp_event('added', mod.added, timestamps=[w['t0'] + round(w['T'] * r.uniform(.1, .9), 3)], is_external=r.random() < .3)
            return None
        return super().do(op)


def other_process(f):
    pid = os.fork()
    if pid == 0:
        try:
            f()
        except BaseException:
            os._exit(1)
        os._exit(0)
    return os.waitpid(pid, 0)[1]


def run_case(p, obs):
    import warnings
    warnings.simplefilter('ignore')
    models, ops = plan(p)
    plain = [{k: v for k, v in m.items() if k not in ('copy', 'of', 'flags')} for m in models]
    alone = {}
    d = tempfile.mkdtemp(prefix='nv21_', dir=os.environ.get('NV_SCRATCH', '/tmp'))
    try:
        W = World(models)
        W.path = d
        W.module(models[0])
        for i in range(len(models)):
            class P(World):
                def create(self, Model, top, m, **kw):
                    return Model(top, use_llvm=True, **kw)
            P.path = d
            mods = W.mods

            def make(ms):
                w = P(ms)
                w.mods = mods
                return w
            st, out = c16.solo(plain, [o for o in ops if o[0] == i], world=make)
            if st == 'invalid':
                raise Invalid(out)
            if st == 'error':
                raise Invalid('fails alone: ' + out[-300:])
            alone[i] = out
        if p['how'] == 'fresh':
            # the model is built and written by a process that is gone when the file is loaded
            def export():
                os.environ['EXPORT_MODEL_PATH'] = d
                w = World(models)
                w.path, w.mods = d, W.mods
                w.do((0, 'build'))
            if other_process(export) or not os.listdir(d):
                raise Invalid('cannot be exported')
            ops = [o for o in ops if o[0] != 0]
            obs.ev('files_of_other_processes')
        try:
            c16.follow(W, models, ops, alone, obs)
        except Unpicklable as e:
            raise Invalid('cannot be pickled: %s' % e)
        for i, m in enumerate(models):
            if not any(o[0] == i for o in ops):
                continue
            if m.get('copy') == 'clone':
                obs.ev('clones')
                if m['of'] > 0:
                    obs.ev('clones_of_clones')
            elif m.get('copy') == 'file':
                obs.ev('files_loaded')
            if m.get('copy') and m['kind'] == 'events':
                obs.ev('model_events', len(W.m[i]['model'].events) + len(W.m[i]['model'].timestamp_events))
            if m.get('copy') and any(o[0] == m['of'] and o[1] != 'build' for o in ops[:ops.index((i, 'build'))]):
                obs.ev('copies_of_used_models')
        obs.ev('item_writes', sum(o[1] == 'itemwrite' for o in ops))
        obs.ev('own_events', sum(o[1] == 'addev' for o in ops))
        if p['how'] == 'clone' and not models[-1]['flags']:
            try:
                W.m[len(models) - 1]['model'].clone()
                refused = False
            except Exception:
                refused = True
            obs.check(refused, 'a clone that is not clonable was cloned')
            obs.ev('refused')
    finally:
        shutil.rmtree(d, ignore_errors=True)
    obs.key = [p['how'], [m['kind'] + str(m['seed']) for m in models], [(o[0], o[1]) for o in ops]]
