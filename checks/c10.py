"""External data loaded in batches act as if the whole table were in memory."""
import os
import random
import shutil
import tempfile

import numpy as np
import pandas as pd

from checks import c09
from nv import util
from nv.harness import Invalid

RULE = ('a case is a simulation whose mapped tables are read in batches (CSV chunks or a windowed loader); every recorded row was compared with '
        'the whole table, and simulations running past the data had to end with the error that says so; distinct = distinct (tables, '
        'chunk size, column order, driver, loader)')
NEED = ['mapped_rows', 'linear_rows', 'step_rows', 'derived_rows', 'batches', 'many_batches', 'csv', 'windows', 'two_tables', 'time_first', 'time_later',
        'same_file', 'exhausted', 'to_the_end', 'resets', 'stepped', 'start_rows', 'multipliers', 'reused_loader', 'second_solve', 'whole_file', 'bounded']
ASSUMPTIONS = c09.ASSUMPTIONS + ['the time column of a CSV file is called "time"; the rows to skip at the start lie within the first batch', 'a loader reused for another model has tables without skipped rows']
CFG = dict(timeout=90, budget=400, min_cases=80)


def cases(seed, tier):
    n = 200 if tier == 'quick' else 2500
    r = random.Random(seed * 982451653 + 10)
    for i in range(n):
        yield {'seed': r.randrange(1 << 40), 'llvm': i % 16 == 0, 'drive': ['solve', 'solve', 'step', 'reset', 'later', 'again', 'beyond', 'reuse'][i % 8],
               'csv': i % 5 != 4}


class Rows:
    def __init__(self, df, sel):
        self.df, self.sel = df, sel

    def __getitem__(self, name):
        return self.df[name][self.sel]


class Window:
    """a loader which returns a few rows around the time it is asked for"""

    def __init__(self, tables, k):
        self.tables, self.k = tables, k

    def load(self, df_id, t):
        df = self.tables[df_id]
        i = max(0, int(np.searchsorted(df['time'].values, t, side='right')) - 1)
        return df.iloc[i:i + self.k].copy()


def run_case(p, obs):
    from numerous.utils.data_loader import CSVDataLoader
    r = random.Random(p['seed'])
    # times which a text file keeps exactly: whether 2.5 lies beyond the row 2.4999999999999996 is not the question here
    p['dyadic'] = True
    c = c09.build(r, p)
    if p['drive'] == 'reuse' or not p['csv']:
        for tb in c['tables']:
            tb['start'] = 0
        c['lo'] = max(tb['df']['time'].values[0] * tb['mult'] for tb in c['tables'])
    d = tempfile.mkdtemp(prefix='csv')
    nload = []
    try:
        def loader_for(c):
            tables = c['tables']
            least = min(len(tb['df']) for tb in tables)
            # two elements may use the same file
            if len(tables) > 1 and len(tables[0]['df']) == len(tables[1]['df']) and p['same']:
                a, b = tables[0], tables[1]
                b['mult'], b['start'] = a['mult'], a['start']
                extra = {path: ('z%d' % j, kind, how) for j, (path, (name, kind, how)) in enumerate(b['al'].items())}
                df = a['df'].copy()
                for path, (name, kind, how) in b['al'].items():
                    df[extra[path][0]] = b['df'][name].values
                b['al'] = extra
                a['df'] = b['df'] = df
                obs.ev('same_file')
            smax = max(tb['start'] for tb in tables)
            if p['csv']:
                size = r.choice([1, 2, 3, 4, 7, 1000])
                size = max(size, smax + 1)
                if r.random() < .06:
                    size = None
                    obs.ev('whole_file')
                loader = CSVDataLoader(chunksize=size)
                files = {}
                for k, tb in enumerate(tables):
                    if id(tb['df']) not in files:
                        f = os.path.join(d, 't%d.csv' % k)
                        tb['df'].to_csv(f, index=False)
                        files[id(tb['df'])] = f
                ids = [files[id(tb['df'])] for tb in tables]
                obs.ev('csv')
                for tb in tables:
                    obs.ev('time_first' if list(tb['df'].columns)[0] == 'time' else 'time_later')
            else:
                # the window contains the row before and the row after any time
                size = max(2, r.choice([2, 3, 5]), smax + 2)
                keep = {}
                for k, tb in enumerate(tables):
                    keep.setdefault(id(tb['df']), 'w%d' % k)
                ids = [keep[id(tb['df'])] for tb in tables]
                loader = Window({i: tb['df'] for i, tb in zip(ids, tables)}, size)
                obs.ev('windows')
            inner = loader.load

            def load(df_id, t):
                nload.append((df_id, t))
                return inner(df_id, t)
            loader.load = load
            p['loader'] = loader
            p['ids'] = ids
            p['size'] = size
            return ids, loader

        p['same'] = r.random() < .5
        if r.random() < .3:
            p['bounded'] = r.choice([1, 2, 5])
            obs.ev('bounded')
        drive(p, obs, r, c, loader_for)
        obs.ev('batches', len(nload))
        if len(nload) > 3 * len(c['tables']):
            obs.ev('many_batches')
        obs.key = (obs.key or []) + [p['size'], p['csv'], [list(tb['df'].columns).index('time') for tb in c['tables']]]
    finally:
        shutil.rmtree(d, ignore_errors=True)


def drive(p, obs, r, c, loader_for):
    from numerous.engine.model import Model
    from numerous.engine.simulation import Simulation
    from numerous.utils.historian import InMemoryHistorian
    kind = p['drive']
    if kind in ('solve', 'step', 'reset', 'later'):
        sim, m = c09.run_with(p, obs, r, c, loader_for)
        if sim.time[-1] == c['hi']:
            obs.ev('to_the_end')
        return
    p['drive'] = 'solve'
    sim, m = c09.run_with(p, obs, r, c, loader_for)
    if kind == 'again':
        # once more, without a reset: the rows of the second run are those of the table as well
        util.run_solver(sim.solve)
        df = m.historian_df
        k = len(df['time']) - len(sim.time)
        c09.check_rows(obs, Rows(df, slice(k, None)), c, sim.time, False)
        obs.ev('second_solve')
    elif kind == 'reuse':
        # another simulation, on another stretch of time, with the loader of the first
        mod = util.load_source(c['src'], keep=True)
        em = c09.mappings(mod, c, p['ids'])
        span = c['hi'] - c['lo']
        t0 = c['lo'] + r.choice([0, 0, .2, .6]) * span
        num = r.choice([2, 6])
        m2 = Model(mod.S(em, p['loader']), use_llvm=False, historian=InMemoryHistorian())
        s2 = Simulation(m2, t_start=t0, t_stop=c['hi'], num=num, max_step=span / 10)
        util.budget(s2, stuck=True)
        util.run_solver(s2.solve)
        c09.check_rows(obs, m2.historian_df, c, np.linspace(t0, c['hi'], num + 1), False)
        obs.ev('reused_loader')
        # and the first one again
        sim.reset(sim.time[0])
        util.run_solver(sim.solve)
        c09.check_rows(obs, m.historian_df, c, sim.time, False)
    elif kind == 'beyond':
        # data end before the simulation does
        mod = util.load_source(c['src'], keep=True)
        ids, loader = loader_for(c)
        em = c09.mappings(mod, c, ids)
        span = c['hi'] - c['lo']
        t1 = c['hi'] + r.choice([.1, 1.0, 5.0]) * span
        num = r.choice([3, 10, 25])
        m2 = Model(mod.S(em, loader), use_llvm=False, historian=InMemoryHistorian())
        s2 = Simulation(m2, t_start=c['lo'], t_stop=t1, num=num, max_step=span / r.choice([2, 10]))
        util.budget(s2, stuck=True)
        try:
            util.run_solver(s2.solve)
        except (ValueError, Invalid) as ex:
            if isinstance(ex, Invalid) and 'external data' not in str(ex):
                raise
            obs.check('external data' in str(ex), 'past the end of the data: %r' % ex)
            obs.ev('exhausted')
        else:
            obs.check(False, 'data end at %g, the simulation went on to %g and recorded %s' % (c['hi'], t1, m2.historian_df['time'].values[-3:]))
        m2.create_historian_df()
        df = m2.historian_df
        tt = df['time'].values
        ok = tt <= c['hi'] + 1e-9
        te = np.linspace(c['lo'], t1, num + 1)
        c09.check_rows(obs, Rows(df, ok), c, te[:int(ok.sum())], False)
