"""Generators shared by the properties, and the comparison of a result with an expectation."""
import itertools
from hypothesis import strategies as st
from . import cal
from .core import Fail

# ---------------------------------------------------------------- references
REFS = [
    (2019, 3, 15, 12, 30, 45), (2019, 1, 1, 0, 0, 0), (2019, 12, 31, 23, 59, 59), (2020, 2, 29, 7, 5, 9),
    (2020, 2, 28, 0, 59, 1), (2019, 2, 28, 6, 59, 59), (2020, 3, 1, 1, 0, 0), (2019, 3, 31, 23, 0, 30),
    (2019, 1, 31, 11, 59, 59), (2020, 1, 30, 12, 0, 0), (2019, 4, 30, 18, 45, 0), (2000, 2, 29, 0, 0, 1),
    (1900, 2, 28, 13, 14, 15), (1999, 12, 31, 12, 0, 59), (2016, 12, 31, 22, 10, 10), (2021, 7, 4, 3, 3, 3),
    (2022, 11, 30, 16, 20, 0), (2018, 6, 30, 8, 0, 0), (1970, 1, 1, 0, 0, 0), (2038, 1, 19, 3, 14, 7),
    (1600, 12, 31, 6, 0, 0), (2023, 10, 8, 10, 10, 59), (2017, 5, 27, 23, 30, 0), (2024, 12, 30, 5, 55, 55),
    (2015, 8, 31, 21, 0, 1), (2100, 2, 28, 19, 1, 0),
]
EDGE_REFS = [(1400, 1, 1, 0, 0, 0), (1400, 1, 31, 7, 0, 0), (9999, 12, 31, 23, 59, 59), (9999, 12, 1, 12, 0, 0),
             (1400, 12, 31, 1, 1, 1), (9999, 1, 1, 0, 30, 0)]

_years = st.one_of(st.sampled_from([2019, 2020, 2000, 1900, 2024, 2100, 1999, 1970, 2038, 1600, 1401, 9998, 1400, 9999]),
                   st.integers(1400, 9999), st.integers(1990, 2040))


@st.composite
def ref(draw, lo=1400, hi=9999):
    y = draw(_years.filter(lambda v: lo <= v <= hi))
    m = draw(st.integers(1, 12))
    e = cal.mdays(y, m)
    d = draw(st.one_of(st.sampled_from([1, e, e - 1, 28, 2]), st.integers(1, e)))
    h = draw(st.one_of(st.integers(0, 23), st.sampled_from([0, 1, 6, 7, 11, 12, 13, 23])))
    mi = draw(st.one_of(st.sampled_from([0, 1, 30, 59]), st.integers(0, 59)))
    s = draw(st.one_of(st.sampled_from([0, 1, 30, 59]), st.integers(0, 59)))
    return (y, m, d, h, mi, s)


# ------------------------------------------------------------------ contexts
# words that no recogniser reads anything into, alone or next to a phrase
WORDS = ['please', 'call', 'bob', 'hello', 'report', 'we', 'will', 'fly', 'her', 'blue', 'house', 'ship', 'quickly',
         'zebra', 'knowledge', 'review', 'with', 'bring', 'lunch', 'monkeys', 'friendly', 'dayz', 'hourly', 'sunny',
         'moonlight', 'frozen', 'weds', 'mayor', 'marching', 'unknown', 'nowhere', 'todays', 'fourteenish', 'her\'s',
         'caf\u00e9', '\u00fcber', 'yearning', 'decor', 'lastly', 'nextdoor', 'thistle', 'forty', 'hundred']
PRE_SEP = [' ', '  ', '\t', '\n', '. ', ', ', '! ', ': ']
POST = ['', '.', '!', ',', ' please', ' we will review', ', bob', '. hello', ' \u00fcber', ';', '\n', ' ', ')', '"', ' - ', '\tcall bob',
        ' amber', ' android', ' beyond', ' tomato', ' stand', ' thunder', ' evelyn', ' pmq']      # begin like something that may follow
POST_SAFE = ['', '.', '!', ' please', ' we will review', ', bob', '. hello', ';', ')', '"', '\n', ' amber', ' android', ' beyond', ' tomato', ' stand', ' thunder']


@st.composite
def prefix(draw, seps=PRE_SEP, maxwords=6, long=True):
    k = draw(st.one_of(st.just(0), st.integers(1, maxwords)))
    if long and draw(st.integers(0, 19)) == 0:
        k = draw(st.integers(30, 90))
    if k == 0:
        return draw(st.sampled_from(['', '', '', ' ', '  ']))
    ws = draw(st.lists(st.sampled_from(WORDS), min_size=k, max_size=k))
    return ' '.join(ws) + draw(st.sampled_from(seps))


def recase(s, mode):
    if mode == 0:
        return s
    if mode == 1:
        return up(s)
    if mode == 2:
        return ''.join(up(c) if i == 0 or s[i - 1] == ' ' else c for i, c in enumerate(s))
    return ''.join(up(c) if (mode >> (i % 24)) & 1 else c for i, c in enumerate(s))


def up(s):      # ASCII only: the text is bytes to the library
    return ''.join(chr(ord(c) - 32) if 'a' <= c <= 'z' else c for c in s)


case_mode = st.one_of(st.just(0), st.just(0), st.just(1), st.just(2), st.integers(3, (1 << 24) - 1))


def blen(s):
    return len(s.encode('utf-8', 'surrogateescape'))


# ---------------------------------------------------------------- comparison
def describe(r):
    return 'index %d length %d tags [%s] start %s end %s rendered %s' % (r['i'], r['n'], r['t'].strip(), r['s'], r['e'], r['d'])


FIELDS = ['year', 'month', 'day', 'weekday', 'hour', 'minute', 'second', 'zone']


def cmp_comp(what, got, vals, cert, ctx):
    """vals: 8 values or None (not stated); cert: 8 of '0' '1' '?'"""
    gv, gc = got
    for k in range(8):
        if vals[k] is not None and gv[k] != vals[k]:
            raise Fail('%s: %s of the %s is %s, expected %s' % (ctx, FIELDS[k], what, gv[k], vals[k]))
        if cert[k] != '?' and gc[k] != cert[k]:
            raise Fail('%s: %s of the %s is %s' % (ctx, FIELDS[k], what, 'not known' if cert[k] == '1' else 'known instead of implied'))


def exp8(t6, wday=None, zone=0):
    return [t6[0], t6[1], t6[2], wday, t6[3], t6[4], t6[5], zone]


def check_one(resp, text, at, length, start, cert, end=None, ecert=None, tag=None, loose_lead=False, loose_trail=True):
    """exactly one result, covering [at, at+length) bytes of text; start/end are 8-lists; tag '' = none"""
    ctx = repr(text)
    rs = resp['r']
    if start is None:
        if rs:
            raise Fail('%s: expected no result, got %s' % (ctx, describe(rs[0])))
        return
    if len(rs) != 1:
        raise Fail('%s: expected one result, got %d%s' % (ctx, len(rs), ''.join('; ' + describe(r) for r in rs[:3])))
    check_result(rs[0], text, at, length, start, cert, end, ecert, tag, loose_lead, loose_trail)


def check_result(r, text, at, length, start, cert, end=None, ecert=None, tag=None, loose_lead=False, loose_trail=True):
    ctx = repr(text)
    b = text.encode('utf-8', 'surrogateescape')
    i, n = r['i'], r['n']
    if not (0 <= i and i + n <= len(b)):
        raise Fail('%s: span %d+%d is outside the text of %d bytes' % (ctx, i, n, len(b)))
    lead_ok = i == at or (loose_lead and i < at and b[i:at].isspace())
    if not lead_ok:
        raise Fail('%s: result starts at %d, the phrase at %d' % (ctx, i, at))
    stop = i + n
    trail_ok = stop == at + length or (loose_trail and stop > at + length and b[at + length:stop].strip(b' \t\r\n\v\f') in (b'', b'.'))
    if not trail_ok:
        raise Fail('%s: result ends at %d, the phrase at %d' % (ctx, stop, at + length))
    cmp_comp('start', r['s'], start, cert, ctx)
    if end is None:
        if r['e'] is not None:
            raise Fail('%s: unexpected end %s' % (ctx, r['e']))
    else:
        if r['e'] is None:
            raise Fail('%s: the end is missing' % ctx)
        cmp_comp('end', r['e'], end, ecert or '????????', ctx)
    if tag is not None and r['t'].split() != tag.split():
        raise Fail('%s: tags are [%s], expected [%s]' % (ctx, r['t'].strip(), tag))
    if not r['p']:
        raise Fail('%s: result is not a possible date' % ctx)
    d = cal.render([start[0], start[1], start[2], start[4], start[5], start[6]])
    if end is not None:
        d += ' - ' + cal.render([end[0], end[1], end[2], end[4], end[5], end[6]])
    if r['d'] != d:
        raise Fail('%s: rendered as %s, expected %s' % (ctx, r['d'], d))
