"""Product file names."""
from datetime import datetime, timedelta

from hypothesis import strategies as st

from harness.core import Test, expect, expect_equal

RULE = ('Names built from any environment, algorithm, platform and three instants to a tenth of a '
        'second between 1990 and 2090, with leap days, year ends, midnight and the first and last '
        'tenth over-represented, with and without the suffix. Non-trivial: an instant with '
        'non-zero tenths on day 1, 59, 60, 365 or 366. Oracle: calendar arithmetic.')

DAYS = [[2016, 12, 31], [2016, 2, 29], [2017, 12, 31], [2018, 1, 1], [2020, 2, 29], [2020, 3, 1],
        [2020, 12, 30], [2020, 12, 31], [2019, 2, 28], [2019, 3, 1], [2000, 2, 29], [2000, 12, 31]]


@st.composite
def instants(draw):
    if draw(st.booleans()):
        d = datetime(*draw(st.sampled_from(DAYS)))
    else:
        d = datetime(1990, 1, 1) + timedelta(days=draw(st.integers(0, 36524)))
    s = draw(st.one_of(st.sampled_from([0, 1, 9, 10, 599, 600, 35999, 36000, 863990, 863999]),
                       st.integers(0, 863999)))
    return [d.year, d.month, d.day, s]


def code(v):
    """Date and tenths as written in names, without strftime."""
    y, m, d, s = v
    leap = y % 4 == 0 and (y % 100 != 0 or y % 400 == 0)
    lengths = [31, 29 if leap else 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31]
    sec = s // 10
    return '%04d%03d%02d%02d%02d%d' % (y, sum(lengths[:m - 1]) + d, sec // 3600, sec // 60 % 60,
                                       sec % 60, s % 10)


def when(v):
    return datetime(*v[:3]) + timedelta(seconds=v[3] // 10, microseconds=v[3] % 10 * 100000)


@st.composite
def cases(draw):
    return {'t': [draw(instants()) for _ in range(3)],
            'env': draw(st.sampled_from(['OR', 'OT', 'DE', 'IT', 'SP'])),
            'alg': draw(st.sampled_from(['GLM-L2-LCFA', 'GLM-L2-GLMC-M3', 'GLM-L2-GLMF-M6',
                                         'GLM-L2-GLMM1-M3', 'GLM-L1b-nc'])),
            'platform': draw(st.sampled_from(['G16', 'G17', 'G18', 'G19'])),
            'suffix': draw(st.sampled_from(['.nc', '.nc', '']))}


def body(case, ctx):
    from glmtools.io.glm import parse_glm_filename, parse_glm_filename_time
    c = [code(v) for v in case['t']]
    name = '%s_%s_%s_s%s_e%s_c%s%s' % (case['env'], case['alg'], case['platform'], *c,
                                       case['suffix'])
    with ctx.sut('parse_glm_filename'):
        got = parse_glm_filename(name)
    expect_equal(len(got), 6, 'values')
    for g, w, what in zip(got, [case['env'], case['alg'], case['platform']],
                          ['environment', 'algorithm', 'platform']):
        expect_equal(g, w, what)
    for g, v, p, what in zip(got[3:], case['t'], 'sec', ['start', 'end', 'creation']):
        expect(isinstance(g, datetime) and g == when(v), '%s of %s is %s instead of %s', what,
               name, g, when(v))
        with ctx.sut('parse_glm_filename_time'):
            one = parse_glm_filename_time(p + code(v))
        expect(one == when(v), '%s is %s instead of %s', p + code(v), one, when(v))
    days = {int(v[4:7]) for v in c if v[-1] != '0'}
    ctx.label(case['alg'])
    ctx.nontrivial = bool(days & {1, 59, 60, 365, 366})


TESTS = [Test('names', cases(), body, quick=6000)]
