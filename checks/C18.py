"""Grid accumulators and dataset selection."""
import numpy as np
import pandas as pd
import xarray as xr
from hypothesis import strategies as st

from harness.core import Test, expect, expect_equal, expect_close

from glmtools.grid.accumulate import (accumulate_minvar_on_grid_direct_idx,
                                      accumulate_var_on_grid_direct_idx, select_dataset)

RULE = ('Grids of 1-7 by 1-7 (single or double precision, zero or pre-filled, possibly a view '
        'of one time frame of a larger grid); 0-6 tables (data frames with any row labels, '
        'datasets, record arrays) each naming any cells once in any order, with whole or '
        'fractional positive values; sequences closed or left open; selectors with empty and '
        'non-empty events and flashes. Also grids of up to 300 by 260 and up to 600 tables naming the same cell. '
        'Non-trivial: some cell is addressed by two tables and '
        'some cell by none. Oracle: per-cell running sum or minimum in plain Python.')


@st.composite
def cases(draw):
    nx, ny = draw(st.integers(1, 7)), draw(st.integers(1, 7))
    tabs = []
    for _ in range(draw(st.integers(0, 6))):
        cells = draw(st.lists(st.tuples(st.integers(0, ny - 1), st.integers(0, nx - 1)),
                              min_size=0, max_size=8, unique=True))
        vals = [draw(st.one_of(st.integers(1, 2000), st.integers(1, 3200).map(lambda v: v / 16.),
                               st.integers(9000, 150000)))
                for _ in cells]
        tabs.append({'cells': [list(c) for c in cells], 'vals': vals,
                     'kind': draw(st.sampled_from(['frame', 'frame', 'dataset', 'records']))})
    return {'nx': nx, 'ny': ny, 'tabs': tabs, 'close': draw(st.booleans()),
            'dtype': draw(st.sampled_from(['f4', 'f8'])), 'vtype': draw(st.sampled_from(
                ['f4', 'f8'])), 'view': draw(st.booleans()), 'fill': draw(st.booleans()),
            'what': draw(st.sampled_from(['sum', 'min'])), 'select': draw(st.booleans()),
            'seed': draw(st.integers(0, 2 ** 31))}


@st.composite
def many(draw):
    """Hundreds of tables, most of them with an entry for the same cell."""
    return dict(draw(cases()), nx=draw(st.sampled_from([3, 70, 300])),
                ny=draw(st.sampled_from([2, 40, 260])), tabs=[],
                n=draw(st.sampled_from([3, 270, 600])))


def body_many(case, ctx):
    rng = np.random.RandomState(case['seed'])
    nx, ny, tabs = case['nx'], case['ny'], []
    hot = rng.randint(nx * ny)
    for _ in range(case['n']):
        c = rng.choice(nx * ny, min(nx * ny, rng.randint(1, 400 if case['n'] < 9 else 5)),
                       replace=False)
        if rng.rand() < 0.95 and hot not in c:
            c[0] = hot
        v = (rng.randint(1, 1000, len(c)) if rng.rand() < 0.5 else
             rng.randint(1, 3200, len(c)) / 16. if rng.rand() < 0.8 or case['what'] == 'sum' else
             rng.randint(9000, 150000, len(c)))
        tabs.append({'cells': [[int(i) // nx, int(i) % nx] for i in c], 'vals': v.tolist(),
                     'kind': ['frame', 'frame', 'dataset', 'records'][rng.randint(4)]})
    body(dict(case, tabs=tabs), ctx)


def table(t, vtype):
    yi, xi = (np.array([c[k] for c in t['cells']], dtype='i8') for k in (0, 1))
    v = np.array(t['vals'], dtype=vtype)
    if t['kind'] == 'frame':
        return pd.DataFrame({'yy': yi, 'v': v, 'xx': xi},
                            index=np.arange(len(v))[::-1] * 3 + 5)
    if t['kind'] == 'dataset':
        return xr.Dataset({'yy': ('n', yi), 'xx': ('n', xi), 'v': ('n', v)})
    r = np.zeros(len(v), dtype=[('xx', 'i4'), ('v', vtype), ('yy', 'i4')])
    r['xx'], r['yy'], r['v'] = xi, yi, v
    return r


def body(case, ctx):
    rng = np.random.RandomState(case['seed'])
    big = np.zeros((case['ny'], case['nx'], 3), dtype=case['dtype'])
    if case['fill']:
        big[:] = rng.randint(0, 3, big.shape) * 64.0
    grid = big[:, :, 1] if case['view'] else big[:, :, 1].copy()
    want = grid.astype('f8')
    rest = big.copy()
    if case['dtype'] == case['vtype'] == 'f8':
        # values that single precision cannot hold, still added exactly
        case = dict(case, tabs=[dict(t, vals=[v + 2.0 ** -30 for v in t['vals']])
                                for t in case['tabs']])
    out = {}
    f = (accumulate_var_on_grid_direct_idx if case['what'] == 'sum'
         else accumulate_minvar_on_grid_direct_idx)
    hits = np.zeros(grid.shape, int)
    use_select = case['select']
    with ctx.sut('accumulate'):
        acc = f(grid, 'v', 'xx', 'yy', out=out)
        target = select_dataset(acc, use_event_data=True) if use_select else acc
        for t in case['tabs']:
            d = table(t, case['vtype'])
            if use_select:
                if t['kind'] == 'dataset':
                    d = d.to_dataframe()
                target.send((d, d[:0]))
            else:
                target.send(d)
        if case['close']:
            acc.close()
    for t in case['tabs']:
        for (y, x), v in zip(t['cells'], t['vals']):
            hits[y, x] += 1
            if case['what'] == 'sum':
                want[y, x] += v
            else:
                want[y, x] = v if want[y, x] == 0 else min(v, want[y, x])
    # multiples of 1/16 below 2^18 are exact in single precision, the others in double
    expect_equal(grid.astype('f8'), want, 'the grid')
    if case['view']:
        expect_equal(big[:, :, 0::2], rest[:, :, 0::2], 'other frames of the grid')
    if case['close']:
        expect('out' in out, 'nothing was handed out on closing')
        expect_equal(np.asarray(out['out'], 'f8'), want, 'grid handed out on closing')
    ctx.label(case['what'])
    ctx.nontrivial = bool((hits > 1).any() and (hits == 0).any())


@st.composite
def selections(draw):
    n = draw(st.integers(0, 8))
    return {'sends': [[draw(st.integers(0, 3)), draw(st.integers(0, 3))] for _ in range(n)],
            'events': draw(st.booleans()), 'default': draw(st.booleans())}


def body_select(case, ctx):
    got = []

    class Sink:
        def send(self, d):
            got.append(d)

    ev = [np.arange(a) + 10 * k for k, (a, b) in enumerate(case['sends'])]
    fl = [np.arange(b) + 10 * k + 5 for k, (a, b) in enumerate(case['sends'])]
    use = True if case['default'] else case['events']
    with ctx.sut('select_dataset'):
        s = select_dataset(Sink()) if case['default'] else select_dataset(
            Sink(), use_event_data=use)
        for e, f in zip(ev, fl):
            s.send((e, f))
        s.close()
    want = [a for a in (ev if use else fl) if len(a)]
    expect_equal(len(got), len(want), 'number of tables forwarded')
    for g, w in zip(got, want):
        expect_equal(g, w, 'a forwarded table')
    ctx.nontrivial = 0 < len(want) < len(ev)


TESTS = [Test('accumulate', cases(), body, quick=3000),
         Test('many', many(), body_many, quick=48),
         Test('select', selections(), body_select, quick=300)]
