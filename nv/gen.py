"""Random system generator, renderer and reference evaluator.

A *spec* is a JSON-able description of a numerous-engine system.  `render(spec)` gives Python
source that builds the system with the public API; `Ref(spec)` evaluates the same
description in plain Python: equation bodies are executed *as Python* on a scope object, and mappings are
applied in dependency order computed by this file, never by the engine.
"""
import random
import math
import types

FUN1 = ['np.sin', 'np.cos', 'np.tanh', 'np.abs', 'np.arctan']
CMP = ['<', '<=', '>', '>=']


def fl(r, lo=-3.0, hi=3.0):
    v = round(r.uniform(lo, hi), 3)
    return v if v != 0 else 0.5


class ExprGen:
    """Generates bounded expressions; self.names maps readable names to an absolute bound."""

    def __init__(self, r, names, fns=(), feats=None):
        self.r = r
        self.names = dict(names)
        self.fns = list(fns)
        self.feats = feats or {}
        self.noif = False

    def ifcond(self):
        """Test of an if *statement*: no conditional expression inside (documented limitation)."""
        self.noif = True
        try:
            return self.cond(1)
        finally:
            self.noif = False

    def leaf(self):
        r = self.r
        if self.names and r.random() < 0.72:
            n = r.choice(sorted(self.names))
            return n, self.names[n]
        if r.random() < 0.3:
            v = r.randint(-4, 5)
        else:
            v = fl(r)
        if v < 0:
            return '(%r)' % v if r.random() < .5 else '%r' % v, abs(v)
        return repr(v), max(abs(v), .1)

    def expr(self, depth):
        r = self.r
        if depth <= 0 or r.random() < 0.12:
            return self.leaf()
        k = r.random()
        if k < 0.42:
            a, ba = self.expr(depth - 1)
            b, bb = self.expr(depth - 1)
            op = r.choice(['+', '-', '*', '-', '+'])
            if op == '*':
                return self.cap('(%s) * (%s)' % (a, b), ba * bb)
            if r.random() < .5:
                return self.cap('%s %s (%s)' % (a, op, b), ba + bb)
            return self.cap('(%s) %s (%s)' % (a, op, b), ba + bb)
        if k < 0.50:
            a, ba = self.expr(depth - 1)
            b, bb = self.expr(depth - 1)
            den = r.choice(['(2.5 + np.sin(%s))', '(1.5 + (%s) ** 2)', '(3 + np.tanh(%s))'])
            return self.cap('(%s) / %s' % (a, den % b), ba)
        if k < 0.57:
            a, ba = self.expr(depth - 1)
            return self.cap('(%s) ** %d' % (a, r.choice([2, 2, 3])), max(ba, 1) ** 3)
        if k < 0.60:
            a, ba = self.expr(depth - 1)
            return '(1.5 + np.sin(%s)) ** %r' % (a, r.choice([0.5, -1.5, 1.5])), 4.0
        if k < 0.68:
            a, ba = self.expr(depth - 1)
            return '-(%s)' % a, ba
        if k < 0.70:
            a, ba = self.leaf()
            return '-%s ** 2' % (a if not a.startswith('-') else '(%s)' % a), ba ** 2 if ba < 20 else 400
        if k < 0.82:
            a, ba = self.expr(depth - 1)
            f = r.choice(FUN1)
            return '%s(%s)' % (f, a), (1.6 if f != 'np.abs' else ba)
        if k < 0.87:
            a, ba = self.expr(depth - 1)
            b, bb = self.expr(depth - 1)
            f = r.choice(['np.minimum', 'np.maximum', 'min', 'max'])
            return '%s(%s, %s)' % (f, a, b), max(ba, bb)
        if k < 0.92 and self.fns:
            f, n = r.choice(self.fns)
            args = [self.expr(depth - 2)[0] for _ in range(n)]
            return '%s(%s)' % (f, ', '.join(args)), 6.0
        if self.noif or self.feats.get('smooth'):
            return self.leaf()
        a, ba = self.expr(depth - 1)
        b, bb = self.expr(depth - 1)
        return '((%s) if %s else (%s))' % (a, self.cond(depth - 1), b), max(ba, bb)

    def cap(self, s, b):
        if b > 60:
            f = self.r.choice(['np.sin', 'np.tanh', 'np.cos'])
            return '%s(%s)' % (f, s), 1.0
        return s, b

    def cond(self, depth):
        r = self.r
        a, _ = self.expr(min(depth, 1))
        if r.random() < 0.2:
            return '%r < %s %s %r' % (fl(r, -2, 0), a, r.choice(CMP[:2]), fl(r, 0, 2))
        b, _ = (self.expr(min(depth, 1)) if r.random() < .5 else (repr(fl(r, -1.5, 1.5)), 1))
        op = r.choice(CMP) if r.random() < .9 else r.choice(['==', '!='])
        return '%s %s %s' % (a, op, b)


def gen_body(r, ins, outs, persist=(), fns=(), fns2=(), feats=None, gl=(), size=None):
    """Statements of one equation. ins: readable scope names, outs: names that must be assigned unconditionally,
    persist: names assigned only under an `if`. Returns (lines)."""
    feats = feats or {}
    names = {('scope.' + n): b for n, b in ins}
    names.update({('scope.global_vars.' + n): b for n, b in gl})
    eg = ExprGen(r, names, fns, feats)
    lines = []
    nloc = 0
    used_locals = []
    todo = list(outs)
    r.shuffle(todo)
    pers = list(persist)
    depth = feats.get('depth', 3)

    def newloc():
        nonlocal nloc
        nloc += 1
        if r.random() < .2:
            # a local may have the name of a variable
            v = r.choice([n for n, _ in ins] + list(outs) + list(persist) + ['e', 'scope1', 'n'])
            if v not in eg.names and v not in used_locals and v.isidentifier():
                used_locals.append(v)
                return v
        return r.choice(['a', 'b', 'c', 'c', 'tmp', 'v', 'q_']) + str(nloc)

    nstat = (size if size is not None else r.randint(0, 4))
    acts = ['out'] * len(todo) + ['if'] * len(pers) + ['misc'] * nstat
    r.shuffle(acts)
    assigned_locals = {}
    for act in acts:
        if act == 'out':
            if not todo:
                continue
            k = r.random()
            if k < 0.16 and len(todo) >= 2:
                a, b = todo.pop(), todo.pop()
                ea, ba = eg.expr(depth)
                eb, bb = eg.expr(depth)
                form = r.choice(['scope.%s, scope.%s = %s, %s', 'scope.%s, scope.%s = (%s, %s)'])
                lines.append(form % (a, b, ea, eb))
                eg.names['scope.' + a] = ba
                eg.names['scope.' + b] = bb
            elif k < 0.24 and len(todo) >= 2 and fns2:
                a, b = todo.pop(), todo.pop()
                f, n = r.choice(list(fns2))
                lines.append('scope.%s, scope.%s = %s(%s)' % (a, b, f, ', '.join(eg.expr(1)[0] for _ in range(n))))
                eg.names['scope.' + a] = 6.0
                eg.names['scope.' + b] = 6.0
            elif k < 0.28 and len(todo) >= 2 and feats.get('aug', True):
                # chained: one value for several targets, which may be read in it
                ts = [todo.pop() for _ in range(r.choice([2, 2, 3])) if todo]
                e, b = eg.expr(depth)
                tg = ['scope.' + t for t in ts]
                if r.random() < .4:
                    v = newloc()
                    eg.names[v] = b
                    assigned_locals[v] = 1
                    tg.insert(r.randint(0, len(tg)), v)
                elif assigned_locals and r.random() < .4:
                    v = r.choice(sorted(assigned_locals))
                    eg.names[v] = b
                    tg.insert(r.randint(0, len(tg)), v)
                lines.append('%s = %s' % (' = '.join(tg), e))
                for t in ts:
                    eg.names['scope.' + t] = b
            elif k < 0.36:
                o = todo.pop()
                e, b = eg.expr(1)
                e2, b2 = eg.expr(2)
                lines.append('scope.%s = %s' % (o, e))
                if feats.get('aug', True):
                    lines.append('scope.%s %s %s' % (o, r.choice(['+=', '-=']), e2))
                    b += b2
                eg.names['scope.' + o] = b
            else:
                o = todo.pop()
                e, b = eg.expr(depth)
                lines.append('scope.%s = %s' % (o, e))
                eg.names['scope.' + o] = b
        elif act == 'if' and pers:
            p = pers.pop()
            c = eg.ifcond()
            body = ['scope.%s = %s' % (p, eg.expr(depth - 1)[0])]
            if assigned_locals and r.random() < .5:
                v = r.choice(sorted(assigned_locals))
                body.insert(r.randint(0, 1), '%s = %s' % (v, eg.expr(1)[0]))
                eg.names[v] = 60.0
            if r.random() < .3:
                # reads the value of the previous evaluation
                body[-1] = 'scope.%s = np.tanh(scope.%s) + %s' % (p, p, eg.expr(1)[0])
            lines.append('if %s:' % c)
            lines += ['    ' + x for x in body]
            if r.random() < .3:
                lines.append('elif %s:' % eg.ifcond())
                lines.append('    scope.%s = %s' % (p, eg.expr(2)[0]))
            if assigned_locals and r.random() < .3:
                v = r.choice(sorted(assigned_locals))
                lines.append('else:')
                lines.append('    %s = %s' % (v, eg.expr(1)[0]))
                eg.names[v] = 60.0
            eg.names['scope.' + p] = 60.0
        else:
            k = r.random()
            if k > 0.88 and len(assigned_locals) >= 2:
                v, w = r.sample(sorted(assigned_locals), 2)
                e, b = eg.expr(1)
                lines.append(r.choice(['%s, %s = %s, %s' % (v, w, w, e), '%s, %s = (%s, %s)' % (v, w, w, v),
                                       '%s, %s = %s - %s, %s' % (v, w, e, w, v)]))
                nb = eg.names[v] + eg.names[w] + b
                eg.names[v] = eg.names[w] = nb
                if nb > 60:
                    for q in (v, w):
                        lines.append('%s = np.tanh(%s)' % (q, q))
                        eg.names[q] = 1.0
                continue
            if k < 0.45:
                v = newloc()
                e, b = eg.expr(depth)
                lines.append('%s = %s' % (v, e))
                eg.names[v] = b
                assigned_locals[v] = 1
            elif k < 0.55:
                v, w = newloc(), newloc()
                ea, ba = eg.expr(2)
                eb, bb = eg.expr(2)
                lines.append('%s, %s = %s, %s' % (v, w, ea, eb))
                eg.names[v], eg.names[w] = ba, bb
                assigned_locals[v] = assigned_locals[w] = 1
            elif k < 0.63 and assigned_locals:
                v = r.choice(sorted(assigned_locals))
                e, b = eg.expr(1)
                op = r.choice(['+=', '-=', '*='])
                lines.append('%s %s %s' % (v, op, e))
                nb = eg.names[v] * b if op == '*=' else eg.names[v] + b
                eg.names[v] = nb
                if nb > 60:
                    lines.append('%s = np.tanh(%s)' % (v, v))
                    eg.names[v] = 1.0
            elif k < 0.72 and assigned_locals:
                v = r.choice(sorted(assigned_locals))
                e, b = eg.expr(2)
                lines.append('%s = %s' % (v, e))
                eg.names[v] = b
            elif k < 0.80 and feats.get('lists', True):
                v = newloc()
                es = [eg.expr(2) for _ in range(r.randint(2, 3))]
                lines.append('%s = [%s]' % (v, ', '.join(e for e, _ in es)))
                w = newloc()
                ix = r.randrange(len(es))
                lines.append('%s = %s[%d]' % (w, v, ix))
                eg.names[w] = es[ix][1]
                assigned_locals[w] = 1
            elif k < 0.86 and fns2:
                v, w = newloc(), newloc()
                f, n = r.choice(list(fns2))
                lines.append('%s, %s = %s(%s)' % (v, w, f, ', '.join(eg.expr(1)[0] for _ in range(n))))
                eg.names[v], eg.names[w] = 6.0, 6.0
                assigned_locals[v] = assigned_locals[w] = 1
            elif assigned_locals and not feats.get('smooth'):
                v = r.choice(sorted(assigned_locals))
                lines.append('if %s:' % eg.ifcond())
                e, b = eg.expr(2)
                if r.random() < .3:
                    lines.append('    if %s:' % eg.ifcond())
                    lines.append('        %s = %s' % (v, e))
                    if r.random() < .5:
                        lines.append('    else:')
                        lines.append('        %s = %s' % (v, eg.expr(1)[0]))
                        b = 60.0
                else:
                    lines.append('    %s = %s' % (v, e))
                if r.random() < .35:
                    lines.append('else:')
                    lines.append('    %s = %s' % (v, eg.expr(2)[0]))
                    b = 60.0
                eg.names[v] = max(b, eg.names[v])
    return lines


TAGS = ['a', 'b', 'a1', 'ab', 'a_b', 'item', 'item1', 'item11', 'tank', 'tank2', 'x', 'n0', 'pump', 'pump_1', 'm', 'mm']
VARS = ['x', 'y', 'T', 'x1', 'x2', 'v', 'p', 'P', 'q', 'm', 'pos', 'vel', 'Q1', 'k', 'kx', 'T_in', 'h', 'w', 'z', 'r_']


def gen_unit(r, prof, fns, fns2, gl, selffns):
    """One namespace: variables and equations."""
    names = list(VARS)
    r.shuffle(names)
    take = lambda: names.pop()
    states = [take() for _ in range(r.choice(prof.get('nstates', [0, 1, 1, 2, 3])))]
    consts = [take() for _ in range(r.choice([0, 1, 1, 2]))]
    inputs = [take() for _ in range(r.choice(prof.get('ninputs', [0, 1, 2, 3])))]
    neq = r.choice(prof.get('neq', [1, 1, 1, 2]))
    eqs = []
    base = [(n, 5.0) for n in states + consts + inputs]
    derivs = [s + '_dot' for s in states]
    dsplit = [[] for _ in range(neq)]
    for d in derivs:
        dsplit[r.randrange(neq)].append(d)
    outs_all, acc_all, pers_all = [], [], []
    avail = list(base)
    for e in range(neq):
        outs = [take() for _ in range(r.choice(prof.get('nouts', [0, 1, 2])))]
        acc = [take()] if names and r.random() < prof.get('pacc', .25) else []
        pers = [take()] if names and r.random() < prof.get('ppers', .2) else []
        if not (outs or acc or pers or dsplit[e]):
            outs = [take()]
        # derivs and accs are written by separate final statements so that they are never read back in-class
        body = gen_body(r, avail, outs, pers, fns=fns + selffns, fns2=fns2, gl=gl,
                        feats=prof.get('feats'), size=prof.get('size') and r.choice(prof['size']))
        names_now = {'scope.' + n: b for n, b in avail}
        names_now.update({'scope.' + o: 60.0 for o in outs})
        for g, b in gl:
            names_now['scope.global_vars.' + g] = b
        eg = ExprGen(r, names_now, fns + selffns, prof.get('feats'))
        tail = []
        for d in dsplit[e] + acc:
            tail.append('scope.%s = %s' % (d, eg.expr(prof.get('feats', {}).get('depth', 3))[0]))
        r.shuffle(tail)
        for d in dsplit[e] + acc:
            if r.random() < .25:
                tail.append(r.choice(['scope.%s += %s', 'scope.%s -= %s', 'scope.%s = %s',
                                      'if scope.%s > 0.1:\n    scope.%s = %s'][:3]) % (d, eg.expr(2)[0]))
        eqs.append({'lines': body + tail, 'ins': [n for n, _ in avail], 'outs': outs + acc + dsplit[e],
                    'pers': pers})
        avail = avail + [(o, 60.0) for o in outs]
        outs_all += outs
        acc_all += acc
        pers_all += pers
    vs = [['state', s] for s in states] + [['constant', c] for c in consts] + \
         [['parameter', p] for p in inputs + outs_all + acc_all + pers_all]
    r.shuffle(vs)
    # the registration order of the equations need not be the dependency order
    order = list(range(neq))
    r.shuffle(order)
    return {'vars': vs, 'eqs': [eqs[i] for i in order], 'states': states, 'inputs': inputs, 'consts': consts,
            'outs': outs_all, 'acc': acc_all, 'pers': pers_all, 'derivs': derivs}


def split_unit(r, u):
    """The equations of a namespace as objects of their own; some declare variables of one another."""
    parts = [{'tag': t, 'vars': [], 'first': f} for t, f in zip(r.sample(['e', 'ea', 'eq0', 'heat'], len(u['eqs'])), r.choice([[0, 0, 0], [0, 1, 2]]))]
    for kind, v in u['vars']:
        k = r.randrange(len(parts))
        parts[k]['vars'].append([kind, v])
        if r.random() < .3:
            # constant < parameter < state: whichever comes later, the variable is of the highest kind
            lower = ['constant', 'parameter', 'state']
            other = r.choice(lower[:lower.index(kind) + 1])
            parts[(k + 1) % len(parts)]['vars'].append([other, v])
    return parts


def gen_spec(seed, prof=None):
    prof = prof or {}
    r = random.Random(seed)
    spec = {'seed': seed, 'funcs': [], 'globals': [], 'classes': []}
    gl = [('t', 5.0)]
    if r.random() < prof.get('pglob', .3):
        pool = ['gain', 'tau', 'x', 'p1', 't1', 'time', 'gain_', 'T', 'k', 'y']
        for n in (pool[:r.choice([1, 2])] if r.random() < .5 else r.sample(pool, r.choice([1, 2, 3]))):
            spec['globals'].append([n, fl(r)])
            gl.append((n, 5.0))
    fns, fns2 = [], []
    if r.random() < prof.get('pfuncs', .25):
        spec['funcs'].append('@NumerousFunction()\ndef gf1(x, y):\n    if x > y:\n        return np.tanh(x) + %r\n    return y * 0.25 - x' % fl(r))
        fns.append(('gf1', 2))
        if r.random() < .6:
            spec['funcs'].append('@NumerousFunction()\ndef gf2(x):\n    return np.sin(x), x * 0.5')
            fns2.append(('gf2', 1))
    ncls = r.choice(prof.get('ncls', [1, 2, 2, 3]))
    for c in range(ncls):
        selffns = []
        nns = r.choice(prof.get('nns', [1, 1, 1, 2]))
        style = r.choice(['self', 'self2', 'sep']) if nns == 1 else 'sep'
        if style != 'sep' and r.random() < prof.get('pself', .2):
            selffns = [('self.cf', 1)]
        nss = []
        for k in range(nns):
            u = gen_unit(r, prof, fns, fns2, gl, selffns)
            if style == 'sep' and len(u['eqs']) > 1 and random.Random('%s %s %s' % (seed, c, k)).random() < .7:
                u['split'] = split_unit(random.Random('split %s %s %s' % (seed, c, k)), u)
            u['tag'] = ['n0', 't1', 'mech'][k] if r.random() < .7 else ['ns', 'nsx', 'x'][k]
            nss.append(u)
        if len({u['tag'] for u in nss}) < len(nss):
            nss[1]['tag'] = 'zz'
        spec['classes'].append({'name': 'K%d' % c, 'style': style, 'nss': nss, 'cf': bool(selffns), 'c': fl(r),
                                'base': 'Item'})
    # tree
    nitems = r.choice(prof.get('nitems', [1, 2, 3, 4, 5]))
    items = []
    for i in range(nitems):
        items.append({'cls': r.randrange(ncls), 'kind': 'item'})
    depth = r.choice(prof.get('depth', [1, 1, 2, 3]))
    top = {'tag': r.choice(['s', 'sys', 'system', 'root']), 'kind': 'sub', 'children': [], 'cls': None}
    subs = [(top, 0)]
    for i in range(r.choice([0, 1, 2, 3]) if depth > 1 else 0):
        parent, d = r.choice(subs)
        if d + 1 >= depth:
            continue
        s = {'kind': 'sub', 'children': [], 'cls': None}
        if r.random() < .35:
            s['cls'] = r.randrange(ncls)
        parent['children'].append(s)
        subs.append((s, d + 1))
    for it in items:
        r.choice(subs)[0]['children'].append(it)
    if r.random() < .3:
        top['cls'] = r.randrange(ncls)

    insts = []

    def walk(n, path):
        n['path'] = path + [n['tag']]
        if n['kind'] == 'item' or n['cls'] is not None:
            cl = spec['classes'][n['cls']]
            n['init'] = {}
            for u in cl['nss']:
                for kind, v in u['vars']:
                    n['init'][u['tag'] + '.' + v] = fl(r) if r.random() < .8 else r.randint(-3, 4)
            # instances with different self functions are a known finding of the engine, see known_findings.txt
            n['c'] = cl['c']
            insts.append(n)
        if n['kind'] == 'sub':
            r.shuffle(n['children'])
            used = {u['tag'] for u in spec['classes'][n['cls']]['nss']} if n['cls'] is not None else set()
            for ch in n['children']:
                t = r.choice([x for x in TAGS if x not in used])
                used.add(t)
                ch['tag'] = t
                walk(ch, n['path'])

    def prune(n):
        n['children'] = [ch for ch in n['children'] if ch['kind'] == 'item' or (prune(ch) or ch['cls'] is not None)]
        return bool(n['children'])
    prune(top)
    walk(top, [])
    spec['tree'] = top
    # maps
    units = []
    for n in insts:
        for u in spec['classes'][n['cls']]['nss']:
            units.append(('.'.join(n['path']) + '.' + u['tag'], u))
    r.shuffle(units)
    maps = []
    pool = []
    for up, u in units:
        own = [up + '.' + v for v in u['states'] + u['consts']]
        for v in u['inputs']:
            if r.random() < prof.get('pmap', .7):
                cand = pool if r.random() < .85 and pool else (pool + own)
                if not cand:
                    continue
                if r.random() < prof.get('psum', .35):
                    k = r.choice([1, 2, 2, 3, 4, 5])
                    for _ in range(k):
                        maps.append([up + '.' + v, r.choice(cand), 'sum'])
                else:
                    maps.append([up + '.' + v, r.choice(cand), 'map'])
        for v in u['acc'] + u['derivs']:
            if pool and r.random() < prof.get('paccsum', .45):
                for _ in range(r.choice([1, 1, 2, 3])):
                    maps.append([up + '.' + v, r.choice(pool), 'sum'])
        pool += own + [up + '.' + v for v in u['inputs'] + u['outs'] + u['acc'] + u['pers'] + u['derivs']]
    if not prof.get('dupsum', False):
        seen, m2 = set(), []
        for m in maps:
            if (m[0], m[1]) not in seen:
                seen.add((m[0], m[1]))
                m2.append(m)
        maps = m2
    # order of statements: sums into one target keep nothing in particular; shuffle all
    r.shuffle(maps)
    spec['maps'] = [m + [r.choice(['attr', 'call'])] for m in maps]
    # some variables are mapped to something else before: the later mapping counts
    spec['decoys'] = {}
    r2 = random.Random('decoy %s' % seed)
    if r2.random() < .5:
        for t, s, k, _ in spec['maps']:
            if k == 'map' and r2.random() < prof.get('pdecoy', .2):
                cand = [q for q in pool if q != t and q != s]
                if cand:
                    spec['decoys'][t] = r2.choice(cand)
    spec['early'] = r.random() < .5
    spec['bind'] = r.random() < .3
    return spec


def node_iter(n):
    yield n
    for c in n.get('children', []):
        yield from node_iter(c)


def render(spec):
    o = ['import numpy as np', 'from numerous.engine.system import Item, Subsystem, ItemsStructure',
         'from numerous.multiphysics import EquationBase, Equation, NumerousFunction', '']
    o += [f + '\n' for f in spec['funcs']]
    kinds = {'state': 'add_state', 'constant': 'add_constant', 'parameter': 'add_parameter'}

    def eqfuncs(u, first=0):
        L = []
        for i, e in enumerate(u['eqs'], first):
            L.append('    @Equation()')
            L.append('    def eq%d(self, scope):' % i)
            L += ['        ' + x for x in e['lines']]
            L.append('')
        return L

    for cl in spec['classes']:
        for base in ('Item', 'Subsystem'):
            nm = cl['name'] + ('' if base == 'Item' else 'S')
            if cl['style'] == 'sep':
                for u in cl['nss']:
                    if base == 'Item' and u.get('split'):
                        for i, part in enumerate(u['split']):
                            o.append('class %s_%s_%d(EquationBase):' % (cl['name'], u['tag'], i))
                            o.append('    def __init__(self, init):')
                            o.append("        super().__init__(tag='%s')" % part['tag'])
                            for kind, v in part['vars']:
                                o.append("        self.%s('%s', init['%s.%s'])" % (kinds[kind], v, u['tag'], v))
                            o.append('')
                            o += eqfuncs({'eqs': [u['eqs'][i]]}, part['first'])
                    elif base == 'Item':
                        o.append('class %s_%s(EquationBase):' % (cl['name'], u['tag']))
                        o.append('    def __init__(self, init):')
                        o.append("        super().__init__(tag='%s_%s')" % (cl['name'], u['tag']))
                        for kind, v in u['vars']:
                            o.append("        self.%s('%s', init['%s.%s'])" % (kinds[kind], v, u['tag'], v))
                        o.append('')
                        o += eqfuncs(u)
                o.append('class %s(%s):' % (nm, base))
                o.append('    def __init__(self, tag, init, c):')
                o.append('        super().__init__(tag)')
                for u in cl['nss']:
                    o.append("        ns = self.create_namespace('%s')" % u['tag'])
                    if u.get('split'):
                        o.append('        ns.add_equations([%s])' % ', '.join('%s_%s_%d(init)' % (cl['name'], u['tag'], i) for i in range(len(u['split']))))
                        continue
                    o.append('        ns.add_equations([%s_%s(init)])' % (cl['name'], u['tag']))
                o.append('')
            else:
                u = cl['nss'][0]
                if cl['style'] == 'self' or base == 'Subsystem':
                    o.append('class %s(%s, EquationBase):' % (nm, base))
                    o.append('    def __init__(self, tag, init, c):')
                    o.append('        super().__init__(tag)')
                else:
                    o.append('class %s(EquationBase, %s):' % (nm, base))
                    o.append('    def __init__(self, tag, init, c):')
                    o.append('        %s.__init__(self, tag)' % base)
                    o.append('        EquationBase.__init__(self, tag)')
                for kind, v in u['vars']:
                    o.append("        self.%s('%s', init['%s.%s'])" % (kinds[kind], v, u['tag'], v))
                if cl['cf']:
                    o.append('        @NumerousFunction()')
                    o.append('        def cf(x):')
                    o.append('            return np.tanh(x) * c')
                    o.append('        self.cf = cf')
                o.append("        ns = self.create_namespace('%s')" % u['tag'])
                o.append('        ns.add_equation(self)')
                o.append('')
                o += eqfuncs(u)
    o.append('def build():')
    o.append('    N = {}')

    def emit(n):
        p = '.'.join(n['path'])
        if n['kind'] == 'item' or n['cls'] is not None:
            nm = spec['classes'][n['cls']]['name'] + ('S' if n['kind'] == 'sub' else '')
            o.append('    N[%r] = %s(%r, %r, %r)' % (p, nm, n['tag'], n['init'], n['c']))
        elif n['kind'] != 'set':
            o.append('    N[%r] = Subsystem(%r)' % (p, n['tag']))

    def emit_maps():
        for t, s, k, st in [[t, s, 'map', 'attr'] for t, s in sorted(spec.get('decoys', {}).items())] + spec['maps']:
            tp, tv = t.rsplit('.', 1)
            ti, tn = tp.rsplit('.', 1)
            sp, sv = s.rsplit('.', 1)
            si, sn = sp.rsplit('.', 1)
            T = 'N[%r].%s' % (ti, tn)
            S = 'N[%r].%s.%s' % (si, sn, sv)
            if k == 'map':
                o.append('    %s.%s = %s' % (T, tv, S) if st == 'attr' else '    %s.%s.add_mapping(%s)' % (T, tv, S))
            else:
                o.append('    %s.%s += %s' % (T, tv, S) if st == 'attr' else '    %s.%s.add_sum_mapping(%s)' % (T, tv, S))

    nodes = list(node_iter(spec['tree']))
    for n in nodes:
        emit(n)
    if spec['early']:
        emit_maps()

    def reg(n):
        for c in n.get('children', []):
            if c['kind'] == 'sub':
                reg(c)
            elif c['kind'] == 'set':
                for k in c['children']:
                    if k['kind'] == 'sub':
                        reg(k)
        # item sets are registered by the subsystem that holds them
        for c in n.get('children', []):
            if c['kind'] == 'set':
                o.append('    N[%r].register_items([%s], %sstructure=ItemsStructure.SET)' % (
                    '.'.join(n['path']), ', '.join('N[%r]' % '.'.join(k['path']) for k in c['children']), 'tag=%r, ' % c['set'] if c['set'] != 'set' else ''))
        plain = [c for c in n.get('children', []) if c['kind'] != 'set']
        if plain:
            L = ', '.join('N[%r]' % '.'.join(c['path']) for c in plain)
            o.append('    N[%r].register_items([%s]%s)' % ('.'.join(n['path']), L, ', bind=True' if spec['bind'] else ''))
    reg(spec['tree'])
    if not spec['early']:
        emit_maps()
    o.append('    return N[%r], N' % spec['tree']['tag'])
    return '\n'.join(o) + '\n'


class _NS:
    pass


class RefError(Exception):
    pass


class Vals(dict):
    ref = None


class Ref:
    """Plain-Python evaluator of a spec."""

    def __init__(self, spec):
        import numpy as np
        self.np = np
        self.spec = spec
        self.vals = Vals()
        self.vals.ref = self
        self.rng = None
        self.kind = {}
        self.states, self.derivs = [], []
        glob = {'np': np, 'NumerousFunction': lambda *a: (lambda f: f), 'Equation': lambda *a: (lambda f: f)}
        for f in spec['funcs']:
            exec(f, glob)
        self.nodes = []      # (kind, data, reads, writes)
        targets = {}
        for t, s, k, _ in spec['maps']:
            targets.setdefault(t, []).append(s)
        self.targets = targets
        written = set()
        for n in node_iter(spec['tree']):
            if not (n['kind'] == 'item' or n['cls'] is not None):
                continue
            cl = spec['classes'][n['cls']]
            selfobj = _NS()
            c = n['c']
            selfobj.cf = (lambda c: (lambda x: np.tanh(x) * c))(c)
            ip = '.'.join(n['path'])
            for u in cl['nss']:
                up = ip + '.' + u['tag'] + '.'
                for kind, v in u['vars']:
                    self.vals[up + v] = np.float64(n['init'][u['tag'] + '.' + v])
                    self.kind[up + v] = kind
                    if kind == 'state':
                        self.vals[up + v + '_dot'] = np.float64(0.0)
                        self.kind[up + v + '_dot'] = 'deriv'
                        self.states.append(up + v)
                for e in u['eqs']:
                    src = 'def f(self, scope):\n' + '\n'.join('    ' + x for x in e['lines']) + '\n'
                    g = dict(glob)
                    exec(compile(src, '<ref>', 'exec'), g)
                    outs = [up + x for x in e['outs'] + e['pers']]
                    written.update(outs)
                    tm = {x: (x if x not in targets else x + '@eq') for x in outs}
                    self.nodes.append(('eq', (g['f'], selfobj, up, [v for _, v in u['vars']], tm),
                                       [up + x for x in e['ins']], list(tm.values())))
        for t, ss in targets.items():
            srcs = list(ss) + ([t + '@eq'] if t in written else [])
            self.nodes.append(('sum', (t, srcs), srcs, [t]))
        self._sort()

    def _sort(self):
        writer = {}
        for i, n in enumerate(self.nodes):
            for w in n[3]:
                writer[w] = i
        done, order, mark = set(), [], set()

        def visit(i):
            if i in done:
                return
            if i in mark:
                raise RefError('cyclic spec')
            mark.add(i)
            for x in self.nodes[i][2]:
                if x in writer and writer[x] != i:
                    visit(writer[x])
            done.add(i)
            order.append(i)
        import sys
        sys.setrecursionlimit(10000)
        for i in range(len(self.nodes)):
            visit(i)
        self.order = order

    def spread(self, path, eps, n=4):
        """How far the value of a variable moves when all inputs of all equations of the last evaluation are off by about eps."""
        before, states, gl = self.at
        keep = self.vals, self.at
        out = []
        try:
            for k in range(n):
                self.vals, self.rng, self.eps = dict(before), self.np.random.RandomState(k), eps
                with self.np.errstate(all='ignore'):
                    out.append(float(self.eval(states, gl)[path]))
        finally:
            self.vals, self.at = keep
            self.rng = None
        return max(abs(x - float(self.vals[path])) for x in out)

    def eval(self, states, gl):
        """One evaluation: states {path: v}, gl {name: v}. Returns {path: v} of everything."""
        np = self.np
        v = self.vals
        self.at = (Vals(v), dict(states), dict(gl))
        off = (lambda x: x) if self.rng is None else (lambda x: x * (1 + self.eps * self.rng.uniform(-1, 1)))
        for p, x in states.items():
            v[p] = np.float64(x)
        tmp = {}
        G = _NS()
        for k, x in gl.items():
            setattr(G, k, np.float64(off(x)))
        for i in self.order:
            kind, data, reads, writes = self.nodes[i]
            if kind == 'eq':
                f, selfobj, up, names, tm = data
                sc = _NS()
                for nme in names:
                    setattr(sc, nme, off(v[up + nme]))
                    if up + nme + '_dot' in v:
                        setattr(sc, nme + '_dot', v[up + nme + '_dot'])
                sc.global_vars = G
                f(selfobj, sc)
                for full, dst in tm.items():
                    val = np.float64(getattr(sc, full[len(up):]))
                    if dst == full:
                        v[full] = val
                    else:
                        tmp[dst] = val
            else:
                t, srcs = data
                if len(srcs) == 1:
                    s = srcs[0]
                    v[t] = v[s] if s in v else tmp[s]
                else:
                    v[t] = np.float64(sum(off(float(v[s]) if s in v else float(tmp[s])) for s in srcs))
        return v
