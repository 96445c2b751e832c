"""C28: result-file naming is parsed unambiguously."""
from vf.core import Part, check
from hypothesis import strategies as st

ID = 'C28'
RULE = 'Case = stems, numbers, timestamps, near-miss names, nested lists.'
ASCII = [chr(k) for k in range(32, 127) if chr(k) != '/']
stem = st.one_of(st.text(alphabet=st.sampled_from(ASCII), min_size=0, max_size=30),
                 st.text(alphabet=st.sampled_from('_.01a9'), min_size=1, max_size=40),
                 st.text(alphabet=st.sampled_from('абв_Ж1.'), min_size=1, max_size=10),
                 st.builds('{0}_{1:05d}_{2:012d}'.format, st.sampled_from(['a', 'b_1', '']),
                           st.integers(0, 99999), st.integers(0, 10 ** 12 - 1)))
digits5 = st.integers(0, 99999).map('{0:05d}'.format)
digits12 = st.one_of(st.integers(0, 10 ** 12 - 1), st.integers(0, 20)).map('{0:012d}'.format)


def build_parse(c, ctx):
    import utils
    s, m, t, e = c['stem'], c['m'], c['t'], c['e']
    name = s + '_' + m + '_' + t + '.' + e
    got = utils.dummy_split_filename(name)
    check(tuple(got) == (s, int(m), int(t), e), '{0!r} was split into {1}', name, got)
    check(type(got[1]) is int and type(got[2]) is int, 'numbers of {0!r} are {1}', name, got)
    check(utils.is_filename_correct_crys_txt_file(name, s) == (e == 'txt'), 'txt test of {0!r}', name)
    check(utils.is_filename_correct_crys_cry_file(name, s) == (e == 'cry'), 'cry test of {0!r}', name)
    # Trailing timestamp.
    base = s + '_' + t
    check(utils.has_filename_timestamp(base), 'timestamp of {0!r} not seen', base)
    check(tuple(utils.get_filename_and_timestamp_pair(base)) == (s, t), 'pair of {0!r} is {1}', base,
          utils.get_filename_and_timestamp_pair(base))
    ctx.nt(len(s) > 0)


def recognise(c, ctx):
    """Near-miss names: accepted exactly when stem, digits and extension fit."""
    import utils
    s, m, t, e = c['stem'], c['m'], c['t'], c['e']
    other = c['other']
    name = other + '_' + m + '_' + t + '.' + e
    good = other == s and all(x in '0123456789' for x in m + t)
    ctx.nt(good or other != s or not m.isdigit() or not t.isdigit())
    ctx.cls('fits' if good else 'does not fit', e)
    check(bool(utils.is_filename_correct_crys_txt_file(name, s)) == (good and e == 'txt'),
          'txt test of {0!r} for {1!r}', name, s)
    check(bool(utils.is_filename_correct_crys_cry_file(name, s)) == (good and e == 'cry'),
          'cry test of {0!r} for {1!r}', name, s)
    md, td = utils.dummy_split_filename(name)[1:3]
    check(md == (int(m) if all(x in '0123456789' for x in m) else None), 'number of {0!r}', name)
    check(td == (int(t) if all(x in '0123456789' for x in t) else None), 'timestamp of {0!r}', name)


@st.composite
def recognise_case(draw):
    s = draw(stem.filter(bool))
    other = draw(st.sampled_from([s, s, s, s + '_', s + 'x', 'x' + s, s[:-1], s.upper(), s + '_00001']))
    bad = 'abXYZ ._-+²'

    def field(good, n):
        t = draw(good)
        if draw(st.integers(0, 3)) == 0:
            k = draw(st.integers(0, n - 1))
            t = t[:k] + draw(st.sampled_from(bad)) + t[k + 1:]
        return t
    return {'stem': s, 'other': other, 'm': field(digits5, 5), 't': field(digits12, 12),
            'e': draw(st.sampled_from(['txt', 'txt', 'cry', 'cry', 'dat', 'csv', 'TXT', 'log']))}


def timestamp(c, ctx):
    import utils
    s = c['s']
    has = len(s) >= 13 and s[-13] == '_' and all(x in '0123456789' for x in s[-12:])
    ctx.nt(has)
    ctx.cls('timestamp' if has else 'no timestamp')
    check(bool(utils.has_filename_timestamp(s)) == has, 'timestamp of {0!r}: {1}', s, not has)
    want = (s[:-13], s[-12:]) if has else (s, '000000000000')
    check(tuple(utils.get_filename_and_timestamp_pair(s)) == want, 'pair of {0!r} is {1}', s,
          utils.get_filename_and_timestamp_pair(s))


ts_case = st.fixed_dictionaries({'s': st.one_of(
    st.builds(lambda a, b, c: a + b + c, st.sampled_from(['', 'a', 'a_', 'x_1', '12', 'b_000000000001']),
              st.sampled_from(['_', '', '__', '-', '_0']),
              st.one_of(digits12, digits12.map(lambda t: t[1:]), digits12.map(lambda t: t + '1'),
                        digits12.map(lambda t: t[:5] + 'x' + t[6:]), digits12.map(lambda t: t + '_'),
                        digits12.map(lambda t: t + ' '))),
    stem)})


def grouping(c, ctx):
    import utils
    fs = ['{0}_{1:05d}_{2:012d}.{3}'.format(c['stem'], m, t, e) for m, t, e in c['files']]
    keep = list(fs)
    d = utils.group_txt_files_by_timestamps(fs)
    check(fs == keep, 'the list of files changed')
    want = {}
    for f, (_, t, _) in zip(fs, c['files']):
        want.setdefault('{0:012d}'.format(t), []).append(f)
    check(dict(d) == want, 'groups {0}, expected {1}', d, want)
    check(list(d) == list(want), 'order of groups {0}, expected {1}', list(d), list(want))
    ctx.nt(len(want) > 1 and len(fs) > len(want))


group_case = st.fixed_dictionaries({'stem': stem, 'files': st.lists(
    st.tuples(st.integers(0, 20), st.integers(0, 4), st.sampled_from(['txt'])).map(list), max_size=12)})

nested = st.recursive(st.lists(st.one_of(st.integers(-5, 5), st.text(max_size=2), st.none(), st.floats(0, 1)),
                               max_size=4),
                      lambda s: st.lists(st.one_of(s, st.integers(-5, 5)), max_size=4), max_leaves=20)


def flat(c, ctx):
    import copy
    import utils

    def leaves(x):
        out = []
        for e in x:
            out += leaves(e) if isinstance(e, list) else [e]
        return out
    a = c['a']
    keep = copy.deepcopy(a)
    got = utils.flatten(a)
    check(list(got) == leaves(keep), 'flatten({0}) is {1}', keep, got)
    check(a == keep, 'flatten changed its argument')
    ctx.nt(any(isinstance(e, list) and e for e in keep))


def parts():
    return [Part('build_parse', st.fixed_dictionaries({
        'stem': stem, 'm': digits5, 't': digits12, 'e': st.sampled_from(['txt', 'cry', 'dat', 'csv'])}),
        build_parse, 3000, rule='construct then parse'),
        Part('recognise', recognise_case(), recognise, 4000, rule='near-miss names'),
        Part('timestamp', ts_case, timestamp, 3000, rule='non-trivial with a timestamp'),
        Part('grouping', group_case, grouping, 1500, rule='a group of two and another group'),
        Part('flatten', st.fixed_dictionaries({'a': nested}), flat, 1500, rule='nested non-empty list')]
