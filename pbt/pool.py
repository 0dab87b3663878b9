"""Phrases of every recogniser with their expectations, and texts of no particular meaning."""
import itertools, random, re
from hypothesis import strategies as st
from . import cal, dates, gen

P = {c.parser: c() for c in (dates.C06, dates.C07, dates.C08, dates.C09, dates.C10, dates.C11, dates.C12, dates.C13, dates.C14, dates.C15,
                             dates.C16, dates.C17, dates.C18)}
ALL = sorted(P)
CLI = ['ctp', 'dfp', 'dow', 'cdp', 'mme', 'tlp', 'mnp', 'tap', 'txp', 'iso', 'hol', 'wxp']


def meaning(parser):
    return st.builds(lambda c, b: dict(c, bl=b) if b else c, P[parser].meaning(), dates.blanks)


def phrase(parser, c):
    return P[parser].text_of(c)


def expects(parser, c, ref):
    """list of acceptable answers; each (start8, cert, end8, ecert) or None; or 'any'"""
    e = P[parser].expect(c, tuple(ref))
    return e if isinstance(e, (list, set)) or e == 'any' else [e]


def kinds_of(p, rnd):
    """enumerated cases of one recogniser, one of every kind in turn: the kind is what the phrase is made of"""
    def key(x):
        if isinstance(x, dict):
            return tuple(sorted((k, key(v)) for k, v in x.items() if k not in ('ref', 'pre', 'post', 'case', 'bl')))
        if isinstance(x, str):
            x = re.sub('[0-9]+', '#', x)
        return x if isinstance(x, str) and len(x) < 14 else x if isinstance(x, bool) else type(x).__name__
    groups = {}
    for c in P[p].enum('quick'):
        groups.setdefault(key(c), []).append(c)
    ks = sorted(groups, key=repr)
    rnd.shuffle(ks)
    while True:
        for k in ks:
            yield rnd.choice(groups[k])


# ---------------------------------------------------------------------- soup
TOKENS = (['now', 'today', 'tonight', 'tomorrow', 'tmr', 'yesterday', 'last night', 'lastnight', 'morning', 'afternoon', 'evening', 'night', 'noon',
           'midnight', 'this', 'next', 'last', 'past', 'in', 'within', 'ago', 'before', 'earlier', 'later', 'after', 'from now', 'from', 'now', 'at',
           'out', 'henceforth', 'forward', 'half', 'half a', 'half an', 'a', 'an', 'few', 'a few', 'week', 'weeks', 'early', 'late', 'to', '-', 'and',
           'through', 'on', 'of', ',', 'T', 'Z', '+01:00', '-0530', '+09', 'am', 'pm', 'a.m.', 'p.m', "o'clock", 'est', 'utc', '(pdt)', 'ad', 'bc', 'be',
           'day', 'eve', "new year's", 'christmas', 'thanksgiving', 'black friday', 'labor', 'mlk', 'martin luther king jr', "president's", 'memorial',
           'first', 'second', 'third', 'twenty first', 'thirty-first', 'twelfth', '.', ':', '/', '~', '\u2013', '\u301c', '\uff1a', '(', ')', '?']
          + dates.NUMW + sorted(dates.C08.SP) + sorted(dates.WD) + sorted(dates.MVAL))
NUMS = ['0', '1', '2', '5', '7', '9', '10', '12', '13', '15', '23', '24', '25', '28', '29', '30', '31', '32', '59', '60', '61', '99', '00', '05', '007',
        '100', '365', '1000', '1234', '1399', '1400', '2018', '2019', '2020', '2359', '2400', '0959', '9999', '10000', '32768', '65536', '123456',
        '2147483647', '2147483648', '4294967296', '9223372036854775807', '99999999999999999999', '5:30', '17:00', '23:59:59', '24:00', '10.15', '2019-02-28',
        '2019-02-29', '2020-2-29', '1399-12-31', '9999-12-31', '2019-13-01', '12:60', '12:59:60', '2019-03-15T23:59:59.999Z', '2019-03-15T10:00+05:30',
        '1e9', '3.5', '-5', '+5', '½']
SEPS = [' ', ' ', ' ', ' ', ' ', '', ', ', '-', '\t', '  ', '\n', '. ', ' - ', '/', ':']

_piece = st.one_of(st.sampled_from(TOKENS), st.sampled_from(TOKENS), st.sampled_from(TOKENS), st.sampled_from(NUMS), st.sampled_from(NUMS),
                   st.sampled_from(gen.WORDS))
_junk = st.one_of(st.binary(min_size=1, max_size=6).map(lambda b: b.decode('latin1')), st.text(min_size=1, max_size=4))


@st.composite
def soup(draw, maxn=8, junk=False):
    n = draw(st.integers(1, maxn))
    out = []
    for i in range(n):
        if i:
            out.append(draw(st.sampled_from(SEPS)))
        out.append(draw(_junk) if junk and draw(st.integers(0, 4)) == 0 else draw(_piece))
    return ''.join(out)


@st.composite
def any_phrase(draw, parsers=ALL):
    p = draw(st.sampled_from(parsers))
    return phrase(p, draw(meaning(p)))


@st.composite
def mutated(draw, parsers=ALL):
    """a phrase with a few characters or tokens changed"""
    s = draw(any_phrase(parsers))
    for _ in range(draw(st.integers(1, 3))):
        i = draw(st.integers(0, max(0, len(s))))
        k = draw(st.integers(0, 4))
        if k == 0:
            s = s[:i] + s[i + 1:]
        elif k == 1:
            s = s[:i] + draw(st.sampled_from('0123456789:.-/, \taehnpstTZ(')) + s[i:]
        elif k == 2:
            s = s[:i] + draw(st.sampled_from('0123456789:.-/, \taehnpst')) + s[i + 1:]
        elif k == 3:
            s = s[:i] + ' ' + draw(_piece) + ' ' + s[i:]
        else:
            s = s[:i] + draw(_piece) + s[i:]
    return s


@st.composite
def text(draw, parsers=ALL, junk=False):
    k = draw(st.integers(0, 5))
    if k <= 1:
        return draw(soup(junk=junk))
    if k == 2:
        return draw(mutated(parsers))
    n = draw(st.integers(1, 4))
    out = draw(gen.prefix())
    for i in range(n):
        if i:
            out += draw(st.sampled_from([' ', ', ', ' at ', ' on ', ' to ', ' - ', ' and ', ' through ', '. ', ' of ', ' or call bob ', '-', '\n']))
        out += draw(st.one_of(any_phrase(parsers), any_phrase(parsers), mutated(parsers), st.sampled_from(gen.WORDS)))
    return out + draw(st.sampled_from(gen.POST))


def valid_fields(v, what, ctx):
    from .core import Fail
    if not cal.valid(v[0], v[1], v[2]):
        raise Fail('%s: the %s is not on the calendar: %s' % (ctx, what, v))
    h, m, s = v[4], v[5], v[6]
    if not (0 <= h <= 24 and 0 <= m <= 59 and 0 <= s <= 59):
        raise Fail('%s: the %s is not a time of day: %s' % (ctx, what, v))
    t = cal.add_secs((v[0], v[1], v[2], 0, 0, 0), h * 3600 + m * 60 + s)
    return t
