"""Driver of the checks: deterministic cases, forked workers, verdicts, evidence, replay.

Verdicts are three-valued: violated (exit 1), held on everything explored (exit 0), inconclusive (exit 2: a
harness error, too few cases, or a monitor that never observed the events it decides on).
"""
import collections
import hashlib
import importlib
import json
import os
import select
import signal
import sys
import time
import traceback

HERE = None
SCRATCH = os.environ.get('NV_SCRATCH', '/tmp')
REPO = os.environ.get('NV_REPO', '/repo')
NWORK = int(os.environ.get('NV_WORKERS', '8'))


class Violation(Exception):
    """The monitor observed something the property forbids."""

    def __init__(self, msg, kf=None, **data):
        super().__init__(msg)
        self.kf = kf
        self.data = data


class Invalid(Exception):
    """The generated case is not a legal input; it decides nothing."""


class Obs:
    """What a case observed."""

    def __init__(self):
        self.n = collections.Counter()
        self.key = None
        self.notes = {}

    def ev(self, name, k=1):
        self.n[name] += k

    def check(self, cond, msg, kf=None, **data):
        self.n['assertions'] += 1
        if not cond:
            raise Violation(msg, kf=kf, **data)


def blame(tb):
    """Who raised: 'repo' if the innermost known frame is the code under test, 'harness' if it is ours."""
    frames = traceback.extract_tb(tb)
    for f in reversed(frames):
        fn = os.path.abspath(f.filename)
        if fn.startswith(REPO + os.sep):
            return 'repo', '%s:%s %s' % (fn[len(REPO) + 1:], f.lineno, f.name)
        if fn.startswith(HERE + os.sep):
            return 'harness', '%s:%s %s' % (fn, f.lineno, f.name)
        if f.filename == '<string>' and (f.name == 'global_kernel' or f.name.startswith(('EQ_', 'var_EQ_'))):
            return 'repo', 'the generated kernel, in %s' % f.name.rstrip('0123456789abcdef_')
    return 'harness', '?'


def run_one(mod, params):
    obs = Obs()
    res = {'status': 'ok'}
    t0 = time.time()
    try:
        mod.run_case(params, obs)
    except Violation as e:
        res = {'status': 'violation', 'msg': str(e)[:2000], 'kf': e.kf, 'data': repr(e.data)[:2000]}
    except Invalid as e:
        res = {'status': 'invalid', 'msg': str(e)[:300]}
    except (MemoryError, KeyboardInterrupt) as e:
        res = {'status': 'inconclusive', 'msg': repr(e)[:300]}
    except BaseException as e:
        who, where = blame(e.__traceback__)
        tb = ''.join(traceback.format_exception(type(e), e, e.__traceback__))[-3000:]
        if who == 'repo':
            kf = mod.classify(params, e, where) if hasattr(mod, 'classify') else None
            res = {'status': 'violation', 'msg': 'valid input, but the engine raised %s: %s (at %s)' % (
                type(e).__name__, str(e)[:300], where), 'data': tb, 'kf': kf}
        elif isinstance(e, (KeyError, IndexError, ValueError, TypeError, ZeroDivisionError, OverflowError)):
            # the monitor could not read what the engine produced (a column, row or value is missing or of another shape);
            # on the unchanged tree this never happens
            res = {'status': 'violation', 'msg': 'the monitor cannot interpret what the engine produced: %s: %s (at %s)' % (
                type(e).__name__, str(e)[:300], where), 'data': tb, 'kf': None}
        else:
            res = {'status': 'error', 'msg': tb}
    res['n'] = dict(obs.n)
    res['key'] = obs.key
    res['notes'] = obs.notes
    res['t'] = time.time() - t0
    return res


def worker(mod, rfd, wfd):
    signal.signal(signal.SIGINT, signal.SIG_DFL)
    dn = os.open(os.devnull, os.O_WRONLY)
    os.dup2(dn, 1)
    os.dup2(dn, 2)
    d = os.path.join(SCRATCH, 'w%d' % os.getpid())
    os.makedirs(d, exist_ok=True)
    os.chdir(d)
    rf = os.fdopen(rfd, 'r')
    with os.fdopen(wfd, 'w') as wf:
        for line in rf:
            res = run_one(mod, json.loads(line))
            wf.write(json.dumps(res, default=str) + '\n')
            wf.flush()
    os._exit(0)


class W:
    def __init__(self, mod, others):
        r1, w1 = os.pipe()
        r2, w2 = os.pipe()
        self.pid = os.fork()
        if self.pid == 0:
            try:
                os.close(w1)
                os.close(r2)
                for o in others:
                    os.close(o.w)
                    os.close(o.r)
                worker(mod, r1, w2)
            finally:
                os._exit(3)
        os.close(r1)
        os.close(w2)
        self.w, self.r = w1, r2
        self.buf = b''
        self.case = None
        self.t = 0
        self.done = 0

    def send(self, case):
        self.case = case
        self.t = time.time()
        os.write(self.w, (json.dumps(case) + '\n').encode())

    def close(self, kill=False):
        if kill:
            try:
                os.kill(self.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
        for fd in (self.w, self.r):
            os.close(fd)
        try:
            _, st = os.waitpid(self.pid, 0)
        except ChildProcessError:
            st = 0
        return st


def run_all(mod, cases, deadline, timeout, on_result, nwork, respawn):
    """Runs the cases in forked workers; on_result(case, result) -> True to stop early."""
    it = iter(cases)
    ws = []
    stop = False
    exhausted = False
    retried = set()
    queue = []

    def nxt():
        nonlocal exhausted
        if stop:
            return None
        if queue:
            return queue.pop(0)
        if stop or exhausted or time.time() > deadline:
            return None
        try:
            return next(it)
        except StopIteration:
            exhausted = True
            return None

    def spawn():
        c = nxt()
        if c is None:
            return False
        w = W(mod, ws)
        ws.append(w)
        w.send(c)
        return True

    while len(ws) < nwork and spawn():
        pass
    while ws:
        if stop:
            for w in ws:
                w.close(kill=True)
            break
        rs, _, _ = select.select([w.r for w in ws], [], [], 1.0)
        for w in list(ws):
            if w.r in rs:
                try:
                    data = os.read(w.r, 1 << 20)
                except OSError:
                    data = b''
                if not data:
                    case = w.case
                    ws.remove(w)
                    st = w.close()
                    if case is not None:
                        sig = os.WTERMSIG(st) if os.WIFSIGNALED(st) else None
                        h = json.dumps(case)
                        if h not in retried:
                            retried.add(h)
                            queue.append(case)
                        elif sig in (signal.SIGSEGV, signal.SIGABRT, signal.SIGBUS, signal.SIGFPE, signal.SIGILL):
                            stop |= bool(on_result(case, {'status': 'violation', 'msg': 'process crashed with signal %s' % sig,
                                                          'n': {}, 'key': None, 'notes': {}, 't': 0, 'kf': None}))
                        else:
                            stop |= bool(on_result(case, {'status': 'inconclusive', 'msg': 'worker ended, status %s' % st,
                                                          'n': {}, 'key': None, 'notes': {}, 't': 0}))
                    spawn()
                    continue
                w.buf += data
                if b'\n' in w.buf:
                    line, w.buf = w.buf.split(b'\n', 1)
                    case, w.case = w.case, None
                    w.done += 1
                    stop |= bool(on_result(case, json.loads(line)))
                    if w.done >= respawn:
                        ws.remove(w)
                        w.close()
                        spawn()
                        continue
                    c = nxt()
                    if c is None:
                        ws.remove(w)
                        w.close()
                    else:
                        w.send(c)
            elif time.time() - w.t > timeout * (2 if json.dumps(w.case) in retried else 1):
                case = w.case
                ws.remove(w)
                w.close(kill=True)
                h = json.dumps(case)
                if h not in retried:
                    retried.add(h)
                    queue.append(case)
                else:
                    # cases take far less than a second to a few seconds; two runs without an end, the second with twice the time
                    stop |= bool(on_result(case, {'status': 'violation', 'msg': 'does not end: no result after %ss and again after %ss' % (
                        timeout, 2 * timeout), 'n': {}, 'key': None, 'notes': {}, 't': timeout, 'kf': None}))
                spawn()


def load_known():
    kf = {}
    p = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if not line or line.startswith('#') or line.startswith('fixed:'):
                continue
            parts = line.split(None, 2)
            kf[parts[0]] = (parts[1].split('=', 1)[1], parts[2])
    return kf


def warm(mod):
    """Compile what every case needs before forking."""
    if hasattr(mod, 'warm'):
        mod.warm()
    else:
        from nv import warmup
        warmup.model()


def main():
    global HERE
    HERE = os.path.abspath(sys.argv[1])
    cid = sys.argv[2]
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1'))
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    mod = importlib.import_module('checks.%s' % cid.lower())
    replay = None
    if '--replay' in sys.argv:
        replay = json.load(open(os.path.join(HERE, sys.argv[sys.argv.index('--replay') + 1])))
        if '--here' in sys.argv:
            print(json.dumps(run_one(mod, replay['params']), indent=1))
            sys.exit(0)
    out = os.dup(1)
    dn = os.open(os.devnull, os.O_WRONLY)
    sys.stdout.flush()
    os.dup2(dn, 1)   # the engine prints; the verdict goes to the real stdout

    def say(s):
        os.write(out, (s + '\n').encode())

    try:
        warm(mod)
    except BaseException as e:
        who, where = blame(e.__traceback__)
        if who == 'repo':
            say('the engine raised %r at %s on the warm-up model' % (e, where))
        else:
            say('warm-up failed: %s' % traceback.format_exc()[-1500:])
            sys.exit(2)
    known = load_known()
    cases = [replay['params']] if replay else mod.cases(seed, tier)
    cfg = dict(timeout=60, budget=420, min_cases=20, respawn=60, nwork=NWORK)
    cfg.update(getattr(mod, 'CFG', {}))
    if tier == 'thorough':
        cfg['budget'] = 780 if 'budget_thorough' not in cfg else cfg['budget_thorough']
    tot = collections.Counter()
    stat = collections.Counter()
    keys = set()
    samples, viol, errs, incon, kfs = [], [], [], [], {}
    slow = [0, None]

    def on_result(case, r):
        stat[r['status']] += 1
        for k, v in r['n'].items():
            tot[k] += v
        if r['t'] > slow[0]:
            slow[:] = [r['t'], case]
        if r['status'] == 'ok':
            if r['key'] is not None:
                keys.add(hashlib.sha1(json.dumps(r['key'], sort_keys=True, default=str).encode()).hexdigest())
            if len(samples) < 4 and r['n']:
                samples.append({'case': case if len(json.dumps(case)) < 4000 else str(case)[:4000], 'observed': r['n'], 'notes': r['notes']})
        elif r['status'] == 'violation':
            kf = r.get('kf')
            if kf and kf in known and known[kf][0] == cid:
                kfs.setdefault(kf, []).append(case)
                stat['violation'] -= 1
                stat['known'] += 1
            else:
                viol.append((case, r))
                return len(viol) >= int(os.environ.get('NV_MAXVIOL', 2))
        elif r['status'] == 'error':
            errs.append((case, r))
            return len(errs) >= 3
        elif r['status'] == 'inconclusive':
            incon.append((case, r))
        return False

    run_all(mod, cases, t0 + cfg['budget'], cfg['timeout'], on_result, cfg['nwork'], cfg['respawn'])
    wall = time.time() - t0
    ran = stat['ok'] + stat['violation'] + stat['known']
    evd = {'property': cid, 'tier': tier, 'seed': seed, 'level': 'exploration',
           'coverage': {'evaluations': ran, 'distinct_nontrivial': len(keys), 'rule': mod.RULE, 'samples': samples,
                        'monitor_events': dict(tot), 'invalid_cases': stat['invalid'],
                        'inconclusive_cases': stat['inconclusive'], 'known_finding_cases': {k: len(v) for k, v in kfs.items()},
                        'slowest_case_s': round(slow[0], 2), 'slowest_case': slow[1], 'exhaustive': False},
           'assumptions': getattr(mod, 'ASSUMPTIONS', []), 'wall_s': round(wall, 2), 'violations': len(viol)}
    if not replay:
        p = os.path.join(HERE, 'evidence', '%s.json' % cid)
        with open(p + '.tmp', 'w') as f:
            json.dump(evd, f, indent=1, default=str)
        os.replace(p + '.tmp', p)
    for k in sorted(kfs):
        say('KNOWN-FINDING: property=%s %s %s' % (cid, k, known[k][1]))
    if viol:
        os.makedirs(os.path.join(HERE, 'evidence', 'replay'), exist_ok=True)
        for i, (case, r) in enumerate(viol):
            rp = os.path.join(HERE, 'evidence', 'replay', '%s-%d.json' % (cid, i))
            with open(rp, 'w') as f:
                json.dump({'property': cid, 'params': case, 'msg': r['msg'], 'data': r.get('data'), 'seed': seed,
                           'tier': tier}, f, indent=1, default=str)
            say('VIOLATION property=%s replay=%s' % (cid, rp))
            say('  ' + r['msg'].replace('\n', ' ')[:700])
        say('%s: %d violation(s) in %d cases, %.1f s' % (cid, len(viol), ran, wall))
        sys.exit(1)
    if errs:
        say('harness error in %s: %s' % (cid, errs[0][1]['msg']))
        say(json.dumps(errs[0][0])[:500])
        sys.exit(2)
    need = getattr(mod, 'NEED', [])
    missing = [k for k in need if not tot[k]]
    if not replay and (missing or ran < cfg['min_cases'] or len(incon) > max(2, ran // 20)):
        say('%s inconclusive: ran %d cases, events never seen %s, %d inconclusive %s' % (
            cid, ran, missing, len(incon), [r['msg'] for _, r in incon[:3]]))
        sys.exit(2)
    say('%s held: %d cases (%d distinct non-trivial, %d invalid, %d inconclusive), events %s, %.1f s' % (
        cid, ran, len(keys), stat['invalid'], stat['inconclusive'], dict(tot), wall))
    sys.exit(0)


if __name__ == '__main__':
    sys.modules['nv.harness'] = sys.modules['__main__']
    main()
