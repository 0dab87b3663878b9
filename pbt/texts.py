"""C02 - C05 and C27: guarantees over arbitrary texts, several phrases per text, and call histories."""
import itertools, random, re
from hypothesis import strategies as st
from . import cal, dates, gen, pool
from .core import Prop, Fail, Driver, refs, hx
from .gen import blen, recase, describe, REFS, EDGE_REFS

RENDER = re.compile(r'(\d{4})-([A-Z][a-z]{2})-(\d\d) (\d\d):(\d\d):(\d\d)')


def parse_render(s):
    m = RENDER.fullmatch(s)
    if not m or m.group(2) not in cal.MON:
        return None
    v = [int(m.group(1)), cal.MON.index(m.group(2)) + 1] + [int(g) for g in m.groups()[2:]]
    if not cal.valid(*v[:3]) or v[3] > 23 or v[4] > 59 or v[5] > 59:
        return None
    return tuple(v)


def parse_range(s):
    """[start] or [start, end] of a rendered date"""
    out = [parse_render(p) for p in s.split(' - ')]
    return None if None in out or len(out) > 2 else out


def check_valid(r, ctx, ordered):
    a = pool.valid_fields(r['s'][0], 'start', ctx)
    want, b = [a], None
    if r['e'] is not None:
        b = pool.valid_fields(r['e'][0], 'end', ctx)
        want.append(b)
    if r['d'] is None:
        raise Fail('%s: the result cannot be rendered: %s' % (ctx, describe(r)))
    if None in want:
        raise Fail('%s: the result lies outside the calendar: %s' % (ctx, describe(r)))
    if r['d'] != ' - '.join(cal.render(t) for t in want):
        raise Fail('%s: %s is rendered as %s' % (ctx, want, r['d']))
    if not r['p']:
        raise Fail('%s: a result that is no possible date: %s' % (ctx, describe(r)))
    if b is not None and ordered and b < a:
        raise Fail('%s: the end lies before the start: %s' % (ctx, describe(r)))


ref_any = st.one_of(gen.ref(), st.sampled_from(REFS), st.sampled_from(EDGE_REFS))


# ------------------------------------------------------------------------ C02
class C02(Prop):
    id = 'C02'
    rule = ('(a) phrases of every notation that denote no date of the calendar, each with the recogniser of its notation: no result; (b) phrases, mutated '
            'phrases and token soups x references (calendar edges included) through every recogniser and the command line: every result is a real date, '
            'rendered exactly, ranges ordered. Non-trivial: a result was reported, or an impossible phrase was tried')
    quick, thorough = 1500, 12000
    IMPOSSIBLE = ['mme', 'mnp', 'iso', 'txp', 'dfp', 'tap', 'tlp', 'rel', 'wxp', 'cdp', 'dow']

    def enum(self, tier):
        # days that months do not have, in every spelling of the month and several of the day
        for m in sorted(dates.MVAL):
            n = dates.MVAL[m]
            for y in (1400, 1900, 2000, 2019, 2020, 2100, 9999):
                for d in range(cal.mdays(y, n) + 1, 33):
                    for f in ('%s %d, %d', '%s %dth %d', '%s-%d-%d'):
                        yield {'k': 'no', 'p': 'mme', 'text': f % (m, d, y), 'ref': REFS[d % len(REFS)]}
            for d in (30, 31, 32):
                if d > cal.mdays(2020, n):
                    for r in REFS[:8]:
                        yield {'k': 'no', 'p': 'mme', 'text': '%s %d' % (m, d), 'ref': r}
                        yield {'k': 'no', 'p': 'mme', 'text': '%s 3 to %d' % (m, d), 'ref': r}
            for y in (0, 1, 12, 999, 1000, 1200, 1399):
                yield {'k': 'no', 'p': 'mnp', 'text': '%s %04d' % (m, y), 'ref': REFS[0]}
                yield {'k': 'no', 'p': 'mme', 'text': '%s 12, %04d' % (m, y), 'ref': REFS[0]}
            yield {'k': 'no', 'p': 'mnp', 'text': '%s 2019 bc' % m, 'ref': REFS[0]}
        for y in (0, 1, 1200, 1399):
            yield {'k': 'no', 'p': 'iso', 'text': '%04d-05-05' % y, 'ref': REFS[0]}
            yield {'k': 'no', 'p': 'iso', 'text': '%04d-05-05T10:11:12Z' % y, 'ref': REFS[0]}
        for u, n in (('years', 8600), ('months', 103200), ('weeks', 448700), ('days', 3141000), ('hours', 75400000), ('minutes', 2147483647)):
            for r in ((2019, 3, 15, 12, 30, 45), (9000, 1, 1, 0, 0, 0), (2000, 2, 29, 23, 59, 59)):
                if u == 'minutes' and r[0] != 9000:
                    continue
                for k in (1, 2, 10, 100000):
                    yield {'k': 'no', 'p': 'dfp', 'text': 'in %d %s' % (n * k, u), 'ref': r}
                    yield {'k': 'no', 'p': 'tlp', 'text': '%d %s from now' % (n * k, u), 'ref': r}
                    yield {'k': 'no', 'p': 'rel', 'text': 'next %d %s' % (n * k, u), 'ref': r}
                    if r[0] != 9000:
                        yield {'k': 'no', 'p': 'tap', 'text': '%d %s ago' % (n * k, u), 'ref': r}
                        yield {'k': 'no', 'p': 'rel', 'text': 'last %d %s' % (n * k, u), 'ref': r}
                    if u == 'weeks':
                        yield {'k': 'no', 'p': 'wxp', 'text': 'next %d weeks' % (n * k), 'ref': r}
        # times of day that do not exist, alone and in ranges
        for a in [('%d:%02d' % (h, m)) for h in (0, 5, 9, 12, 23, 24, 25, 29, 99) for m in (0, 30, 59, 60, 61, 75, 99)] + ['10:30:59', '10:30:60', '23:59:99', '13pm', '0am', '24pm', '60', '2360', '2400', '2401', '2560']:
            for lead in ('', 'at ', 'from '):
                yield {'k': 'ok', 'p': 'txp', 'text': lead + a, 'ref': REFS[0]}
            for b in ('10:30', '9pm', '9:00 am', '23:59:59', '0:00', '24:00', '24:01', '12:60', '11:59', '24:59', '25:00', '11:60 pm', '13 pm', '10:30:60', '9:60', '0:60', '23:60', '12:59:60', '00:00:60'):
                for j in (' - ', ' to '):
                    yield {'k': 'ok', 'p': 'txp', 'text': a + j + b, 'ref': REFS[2]}
                    yield {'k': 'ok', 'p': 'txp', 'text': 'from ' + b + j + a, 'ref': REFS[len(a + b) % len(REFS)]}
        for h in (0, 12, 23, 24, 25, 99):
            for m in (0, 59, 60, 61, 99):
                for x in ('', ':00', ':59', ':60', ':99', ':30.5'):
                    for z in ('', 'Z', '+05:30', '-12:00', '+99:99'):
                        yield {'k': 'ok', 'p': 'iso', 'text': '2019-03-15T%02d:%02d%s%s' % (h, m, x, z), 'ref': REFS[0]}
        # every recogniser at the edges of the calendar
        for p in pool.ALL:
            for i, r in enumerate(EDGE_REFS):
                for t in ('yesterday', 'tomorrow', 'last night', 'today', 'morning', 'noon', 'in 1 day', 'in 1 second', 'in a year', '1 day ago', '1 second ago',
                          '1 month ago', '1 year later', 'next month', 'last year', 'this week', 'this month', 'this year', 'next 2 weeks', 'last week',
                          'sunday', 'saturday', 'last monday', 'next friday', 'january', 'december', 'june 1400', 'dec 31', 'jan 1', 'dec 31 9999', 'jan 1, 1400',
                          '9pm - 1am', 'from 23:00 to 1:00', '1400-01-01', '9999-12-31T23:59:59+01:00', 'christmas', 'thanksgiving', 'memorial day',
                          'feb 29', 'feb 29 to 30', 'half a year ago', 'in half a day', 'next half year', '12 months ago', 'february 29th 1400'):
                    yield {'k': 'ok', 'p': p, 'text': t, 'ref': r}
                    yield {'k': 'cli', 'p': p, 'text': t, 'ref': r} if p == 'ctp' else {'k': 'ok', 'p': p, 'text': 'we fly ' + t + ' please', 'ref': r}

    def strategy(self, tier):
        @st.composite
        def s(draw):
            k = draw(st.integers(0, 5))
            if k == 0:
                p = draw(st.sampled_from(self.IMPOSSIBLE))
                r = draw(ref_any)
                c = draw(pool.meaning(p))
                if pool.expects(p, c, r) == [None] or set(map(str, pool.expects(p, c, r))) == {'None'}:
                    return {'k': 'no', 'p': p, 'text': pool.phrase(p, c), 'ref': r}
                return {'k': 'ok', 'p': p, 'text': pool.phrase(p, c), 'ref': r}
            return {'k': 'cli' if k == 1 else 'ok', 'p': draw(st.sampled_from(pool.ALL)) if draw(st.booleans()) else '*', 'text': draw(pool.text()), 'ref': draw(ref_any)}
        return s()

    def run(self, drvs, c):
        d, ref, text = drvs['plain'], tuple(c['ref']), c['text'].replace('\0', ' ')[:900]
        if c['k'] == 'cli':
            out = d.cli(text, '%04d-%02d-%02d %02d:%02d:%02d' % ref)['out']
            ctx = 'command line %r at %s' % (text, cal.render(ref))
            if out == '[???] -- Invalid date\n':
                return ''
            if not out.startswith('Date:\t') or not out.endswith('\n') or parse_range(out[6:-1]) is None:
                raise Fail('%s prints %r' % (ctx, out))
            return 'cli'
        cls = ''
        for p in (pool.ALL if c['p'] == '*' else [c['p']]):
            rs = d.parse(p, ref, text)['r']
            ctx = '%s %r at %s' % (p, text, cal.render(ref))
            if c['k'] == 'no':
                if rs:
                    raise Fail('%s: expected no result, got %s' % (ctx, describe(rs[0])))
                cls = 'impossible ' + p
            for r in rs:
                check_valid(r, ctx, p in ('txp', 'rel'))
                cls = 'result ' + p
        return cls


# ------------------------------------------------------------------------ C03
# neutral words only: anything between the phrases must not touch them
BETWEEN = [' or call bob ', '. hello ', ' please, ', ' we will review ', '; bring lunch ', ' blue house ', '! zebra ', '\nreport\n', ' with ', ' ship ']


def multi_ok(parser, c):
    return True


class C03(Prop):
    id = 'C03'
    rule = ('1 to 24 phrases of one recogniser (a tenth of them impossible) separated by 1-60 neutral words: all of them, with their own value and span, in '
            'order; and mutated texts and soups through every recogniser: spans inside the text, in order, disjoint. Non-trivial: at least one result')
    quick, thorough = 1000, 9000

    def enum(self, tier):
        for p, ts in {'cdp': ['today', 'tomorrow', 'yesterday'], 'dow': ['monday', 'last friday', 'sunday'], 'mnp': ['may 2019', 'june', 'sept. 2020'],
                      'iso': ['2019-03-15', '2020-02-29T10:00:00'], 'txp': ['5pm', '17:30', 'at 10:15'], 'hol': ['christmas', "new year's"],
                      'dfp': ['in 5 days', 'within an hour'], 'tap': ['2 days ago', '3 hours earlier'], 'tlp': ['2 days later', '1 hour from now'],
                      'rel': ['next month', 'this week'], 'wxp': ['last week', 'next 2 weeks'], 'ctp': ['this morning', 'evening'],
                      'mme': ['may 5', 'june 7, 2019', 'dec 25 - 26']}.items():
            for n in (2, 3, 5, 8, 12):
                for sep in BETWEEN:
                    yield {'k': 'rep', 'p': p, 'ts': [ts[i % len(ts)] for i in range(n)], 'sep': sep, 'ref': REFS[n]}
            for n in (30, 52, 70, 101, 130) if tier == 'quick' else (30, 52, 70, 101, 130, 260, 530):       # many in one text
                yield {'k': 'rep', 'p': p, 'ts': [ts[i % len(ts)] for i in range(n)], 'sep': BETWEEN[n % len(BETWEEN)], 'ref': REFS[n % len(REFS)]}
            # far apart: positions and lengths that do not fit into a byte or two
            for n, k in ((40, 10), (20, 99), (5, 400), (3, 3500), (3, 7000)) + (() if tier == 'quick' else ((2, 20000), (9, 4096), (3, 50000))):
                yield {'k': 'rep', 'p': p, 'ts': [ts[i % len(ts)] for i in range(n)], 'sep': ' or call bob' + ' we review' * k + ' ', 'ref': REFS[n % len(REFS)]}

    def strategy(self, tier):
        @st.composite
        def s(draw):
            if draw(st.integers(0, 3)) == 0:
                return {'k': 'any', 'text': draw(pool.text()), 'ref': draw(st.one_of(gen.ref(1401, 9998), st.sampled_from(REFS)))}
            p = draw(st.sampled_from(pool.ALL))
            n = draw(st.sampled_from([1, 2, 2, 3, 3, 4, 6, 12]))
            cs = [draw(pool.meaning(p)) for _ in range(n)]
            return {'k': 'multi', 'p': p, 'cs': cs, 'pre': draw(gen.prefix()), 'seps': [draw(st.sampled_from(BETWEEN)) for _ in cs],
                    'long': draw(st.sampled_from([0, 0, 0, 12])), 'case': draw(gen.case_mode), 'ref': draw(st.one_of(gen.ref(1500, 9000), st.sampled_from(REFS)))}
        return s()

    def spans(self, rs, b, ctx):
        end = 0
        for r in rs:
            i, n = r['i'], r['n']
            if i < 0 or n <= 0 or i + n > len(b):
                raise Fail('%s: span %d+%d in a text of %d bytes' % (ctx, i, n, len(b)))
            if i < end:
                raise Fail('%s: the result at %d overlaps or precedes the one that ends at %d' % (ctx, i, end))
            if not b[i:i + n].strip():
                raise Fail('%s: the span %d+%d is blank' % (ctx, i, n))
            end = i + n

    def run(self, drvs, c):
        d, ref = drvs['plain'], tuple(c['ref'])
        if c['k'] == 'any':
            text = c['text'].replace('\0', ' ')[:900]
            cls = ''
            for p in pool.ALL:
                rs = d.parse(p, ref, text)['r']
                self.spans(rs, text.encode('utf-8', 'surrogateescape'), '%s %r' % (p, text))
                if rs:
                    cls = 'any text'
            return cls
        p = c['p']
        if c['k'] == 'rep':
            text, at, exp = '', [], []
            alone = {t: d.parse(p, ref, t)['r'] for t in set(c['ts'])}
            for t in c['ts']:
                at.append(len(text))
                text += t + c['sep']
            ctx = '%s %r at %s' % (p, text, cal.render(ref))
            rs = d.parse(p, ref, text)['r']
            if len(rs) != len(c['ts']):
                raise Fail('%s: %d results instead of %d' % (ctx, len(rs), len(c['ts'])))
            for t, a, r in zip(c['ts'], at, rs):
                if len(alone[t]) != 1:
                    raise Fail('%s: %r alone has %d results' % (p, t, len(alone[t])))
                e = alone[t][0]
                if (r['s'], r['e'], r['d'], r['t']) != (e['s'], e['e'], e['d'], e['t']):
                    raise Fail('%s: %r at %d is %s, alone %s' % (ctx, t, a, describe(r), describe(e)))
                lead = text[min(r['i'], a):a]
                if not (r['i'] == a or (r['i'] < a and not lead.strip())) or r['i'] + r['n'] < a + len(t) or text[a + len(t):r['i'] + r['n']].strip():
                    raise Fail('%s: the span of %r at %d is %d+%d' % (ctx, t, a, r['i'], r['n']))
            return 'repeated ' + p
        text, phr = c['pre'], []
        for cc, sep in zip(c['cs'], c['seps']):
            ph = pool.phrase(p, cc)
            if blen(text) + blen(ph) > 850:
                break
            phr.append((blen(text), ph, cc))
            text += ph + sep * 1 + ('hello bob ' * c['long'] if c['long'] and len(phr) == 1 else '')
        text0 = text
        text = recase(text, c['case'])
        ctx = '%s %r at %s' % (p, text, cal.render(ref))
        rs = list(d.parse(p, ref, text)['r'])
        self.spans(rs, text.encode('utf-8', 'surrogateescape'), ctx)
        k = 0
        prop = pool.P[p]
        n = 0
        for at, ph, cc in phr:
            exps = pool.expects(p, cc, ref)
            stop = at + blen(ph)
            mine = [r for r in rs if r['i'] < stop and r['i'] + r['n'] > at]
            if exps == 'any':
                k += len(mine)
                continue
            err = None
            for e in exps:
                try:
                    if e is None:
                        if mine:
                            raise Fail('%s: %r at %d denotes no date but gave %s' % (ctx, ph, at, describe(mine[0])))
                    else:
                        if len(mine) != 1:
                            raise Fail('%s: %d results for %r at %d' % (ctx, len(mine), ph, at))
                        a, ln = at, blen(ph)
                        if p == 'mme' and cc['on'] and not cc['wd'] and mine[0]['i'] > at:
                            on = len(re.match(r'on\s*', ph).group())
                            a, ln = at + on, ln - on
                        if ph.endswith('.') and mine[0]['i'] + mine[0]['n'] == a + ln - 1:
                            ln -= 1
                        gen.check_result(mine[0], text, a, ln, e[0], e[1], e[2], e[3], prop.tag, prop.loose_lead)
                    err = None
                    break
                except Fail as x:
                    err = err or x
            if err:
                raise err
            k += len(mine)
            n += len(mine)
        if k != len(rs):
            raise Fail('%s: %d results for %d phrases: %s' % (ctx, len(rs), len(phr), '; '.join(describe(r) for r in rs)))
        return '%s %s' % (p, n if n < 4 else '4+') if n else ''


# ------------------------------------------------------------------------ C04
KEYWORDS = {
    'cdp': ['now', 'today', 'tonight', 'tomorrow', 'tmr', 'yesterday', 'last night'],
    'ctp': ['morning', 'afternoon', 'evening', 'night', 'noon'],
    'dow': sorted(dates.WD) + ['last monday', 'next fri', 'friday next week'],
    'mnp': sorted(m for m in dates.MVAL if m[-1] != '.') + ['may 2019', 'june, 2020'],
    'mme': ['may 5', 'june 7th', 'december twenty first'],
    'hol': ['christmas', 'thanksgiving', 'labor', 'labor day', 'black friday', 'mlk', 'memorial day', 'columbus', "president's day", 'independence day'],
    'dfp': ['in 5 days', 'within 2 hours', 'in a week', 'in half an hour', 'in two years'],
    'tap': ['5 days ago', 'two hours earlier', '3 weeks before', 'half an hour ago'],
    'tlp': ['5 days later', 'two hours from now', '3 weeks out', 'an hour after', '2 days henceforth'],
    'rel': ['next week', 'last month', 'this year', 'past 2 days', 'next 3 hours'],
    'wxp': ['last week', 'next week', 'this week', 'next 2 weeks', 'last three weeks'],
    'txp': ['noon', 'midnight', '5pm', 'at 10:30', '5 p.m', "10 o'clock"],
    'iso': [],
}
LETTERS = 'abcdefghijklmnopqrstuvwxyz'


class C04(Prop):
    id = 'C04'
    rule = ('(a) any text (phrases, mutations, soups) in two letter cases through every recogniser and the command line: the same results; (b) phrases of every '
            'notation alone and with neutral words before and after, or whitespace around: the same value, index moved by the length of the prefix; (c) keyword phrases with letters attached '
            'in front or behind: no result there. Non-trivial: a result (a, b), or an embedded keyword (c)')
    quick, thorough = 1000, 9000

    def enum(self, tier):
        r = REFS[0]
        for p, ks in KEYWORDS.items():
            for k in ks:
                for l in LETTERS:
                    yield {'k': 'emb', 'p': p, 'kw': k, 'a': l, 'b': '', 'ref': r}
                    if k[-1].isalpha():
                        yield {'k': 'emb', 'p': p, 'kw': k, 'a': '', 'b': l, 'ref': r}
                for w in ('ish', 'ly', 'like', 'wards', 'time', 'er', 'ness'):
                    if k[-1].isalpha():
                        yield {'k': 'emb', 'p': p, 'kw': k, 'a': '', 'b': w, 'ref': r}
                        yield {'k': 'emb', 'p': p, 'kw': k, 'a': 'mega', 'b': w, 'ref': r}
                for pre, post in ((' ', ''), ('', ' '), ('  ', '  '), ('\t', '\n'), ('\n\n', ''), ('', '\n'), ('', ')'), ('', '"'), ('call bob ', ' please'), ('... ', '!')):
                    yield {'k': 'ctx', 'p': p, 'ph': k, 'pre': pre, 'post': post, 'ref': r}
                for mode in (1, 2, 0x555555, 0xaaaaaa, 0xf0f0f0):
                    yield {'k': 'case', 'text': 'we fly ' + k + ' please', 'a': 0, 'b': mode, 'ref': r}
        # one phrase of every kind, far into a long text and in front of one
        rnd = random.Random(4)
        n = 0
        for p in pool.ALL:
            for c in itertools.islice(pool.kinds_of(p, rnd), 16 if p == 'mme' else 80 if tier == 'quick' else 400):
                ph, r = pool.phrase(p, c), c['ref']
                n += 1
                pad = self.pad((20, 100, 127, 200, 255, 256, 300, 400, 511, 512, 600, 800)[n % 12], n)
                yield {'k': 'ctx', 'p': p, 'ph': ph, 'pre': pad, 'post': '', 'ref': r}
                yield {'k': 'ctx', 'p': p, 'ph': ph, 'pre': ('', 'we fly ', '  ')[n % 3], 'post': ', bob ' + pad.strip(), 'ref': r}
                text = ph if n % 5 == 0 else pad + ph if n % 5 < 3 else ph + ', bob ' + pad
                if n % 4 == 1:
                    text = ('hello\n', 'zebra,\r\n', 'call bob.\n\n', 'we review\v')[n // 4 % 4] + text
                for mode in (1, 2, 0xaaaaaa):
                    yield {'k': 'case', 'p': p, 'text': text, 'a': 0, 'b': mode, 'ref': r}

        for p in pool.ALL:                          # very long contexts
            for c in itertools.islice(pool.kinds_of(p, rnd), 4 if tier == 'quick' else 30):
                for m in (33000, 66000):
                    n += 1
                    yield {'k': 'ctx', 'p': p, 'ph': pool.phrase(p, c), 'pre': self.pad(m, n), 'post': ('', '.', ' please ' + self.pad(m, n).strip())[n % 3], 'ref': c['ref']}
                    yield {'k': 'ctx', 'p': p, 'ph': recase(pool.phrase(p, c), 1), 'pre': '\n'.join([self.pad(50 + k % 40, n) for k in range(m // 600)]) + '\n', 'post': '\n\n', 'ref': c['ref']}

    @staticmethod
    def pad(n, k):
        """n bytes of neutral words"""
        ws = ('hello', 'zebra', 'we', 'will', 'review', 'blue', 'house', 'ship', 'bob', 'quickly', 'lunch')
        s = ''
        while len(s) < n:
            s += ws[(k + len(s)) % len(ws)] + ' '
        return s[:max(0, n - 1)].rstrip() + ' ' * (n - len(s[:max(0, n - 1)].rstrip()))

    def strategy(self, tier):
        mode = st.integers(0, (1 << 24) - 1)

        @st.composite
        def s(draw):
            k = draw(st.integers(0, 3))
            r = draw(st.one_of(gen.ref(1500, 9000), st.sampled_from(REFS)))
            if k == 0:
                return {'k': 'case', 'text': draw(pool.text()), 'a': draw(mode), 'b': draw(mode), 'ref': r}
            if k == 1:
                p = draw(st.sampled_from([q for q in pool.ALL if KEYWORDS[q]]))
                a, b = draw(st.text(LETTERS, max_size=6)), draw(st.text(LETTERS, max_size=6))
                kw = draw(st.sampled_from(KEYWORDS[p]))
                if not kw[-1].isalpha():
                    b = ''
                return {'k': 'emb', 'p': p, 'kw': kw, 'a': a, 'b': b, 'ref': r}
            p = draw(st.sampled_from(pool.ALL))
            return {'k': 'ctx', 'p': p, 'ph': pool.phrase(p, draw(pool.meaning(p))), 'pre': draw(gen.prefix()), 'post': draw(st.sampled_from(gen.POST_SAFE)), 'ref': r}
        return s()

    @staticmethod
    def value(r):
        return (r['s'], r['e'], r['t'], r['d'], r['p'])

    def run(self, drvs, c):
        d, ref = drvs['plain'], tuple(c['ref'])
        if c['k'] == 'case':
            text = c['text'].replace('\0', ' ')[:900]
            x, y = recase(text.lower() if text.isascii() else text, c['a']), None
            base = ''.join(chr(ord(ch) + 32) if 'A' <= ch <= 'Z' else ch for ch in text)
            x, y = recase(base, c['a']), recase(base, c['b'])
            cls = ''
            for p in [c['p']] if 'p' in c else pool.ALL:
                a, b = d.parse(p, ref, x)['r'], d.parse(p, ref, y)['r']
                if a != b:
                    raise Fail('%s at %s: %r gives %s but %r gives %s' % (p, cal.render(ref), x, [describe(r) for r in a], y, [describe(r) for r in b]))
                if a:
                    cls = 'case'
            rf = '%04d-%02d-%02d %02d:%02d:%02d' % ref
            a, b = d.cli(x, rf)['out'], d.cli(y, rf)['out']
            if a != b:
                raise Fail('command line at %s: %r gives %r but %r gives %r' % (cal.render(ref), x, a, y, b))
            return cls
        if c['k'] == 'emb':
            a, b, kw = c['a'], c['b'], c['kw']
            word = a + kw + b
            if not a and not b:
                return ''
            # the letters may not make up another keyword
            if a in ('at', 'from', 'with', 'within') or any(w in a or w in b or (w in word and w not in kw) for w in NOTKW) or ('.' in kw and b) or (a[-1:] == 't' and kw[0].isdigit()):
                return ''
            text = 'hello ' + word + ' please'
            rs = d.parse(c['p'], ref, text)['r']
            for r in rs:
                # a phrase starts or ends at a word boundary: nothing may start or end inside the longer word
                i, e = r['i'], r['i'] + r['n']
                t = text[i:e]
                i += len(t) - len(t.lstrip())
                e -= len(t) - len(t.rstrip())
                bad_a = a and 6 < i < 6 + len(a) + len(kw.split()[0]) or (a and i <= 6 < e)
                bad_b = b and 6 + len(a) + len(kw) - len(kw.split()[-1]) < e < 6 + len(word) or (b and e == 6 + len(word))
                if (a and bad_a) or (b and bad_b):
                    raise Fail('%s: %r inside %r was recognised: %s' % (c['p'], kw, text, describe(r)))
            return 'embedded ' + c['p']
        p, ph, pre, post = c['p'], c['ph'], c['pre'], c['post']
        a = d.parse(p, ref, ph)['r']
        b = d.parse(p, ref, pre + ph + post)['r']
        ctx = '%s at %s: %r' % (p, cal.render(ref), pre + ph + post)
        if len(a) != len(b):
            raise Fail('%s has %d results, %r alone %d' % (ctx, len(b), ph, len(a)))
        n = blen(pre)
        raw = (pre + ph + post).encode('utf-8', 'surrogateescape')
        for x, y in zip(a, b):
            if self.value(x) != self.value(y):
                raise Fail('%s: %s, alone %s' % (ctx, describe(y), describe(x)))
            i, e, j, f = x['i'] + n, x['i'] + x['n'] + n, y['i'], y['i'] + y['n']
            if (i != j and raw[min(i, j):max(i, j)].strip()) or (e != f and raw[min(e, f):max(e, f)].strip(b' \t\r\n\v\f.')):
                raise Fail('%s: span %d-%d instead of %d-%d' % (ctx, j, f, i, e))
        return 'context ' + p if a else ''


NOTKW = (['now', 'today', 'tonight', 'tomorrow', 'tmr', 'yesterday', 'night', 'morning', 'afternoon', 'evening', 'noon', 'week', 'day', 'eve', 'early', 'late', 'on', 'this', 'last', 'next']
         + sorted(dates.WD) + sorted(dates.MVAL) + sorted(dates.C08.SP) + dates.NUMW)


# ------------------------------------------------------------------------ C05
class C05(Prop):
    id = 'C05'
    rule = ('histories of 2-14 requests (recogniser, text, reference; also command line runs, refinements) run in one process with reused recognisers, in another process in a '
            'different order with fresh recognisers, and each twice (enumerated: references that differ in one field or lie a round distance apart, and 1,200 calls in a row): all answers to a request are equal, the text differs in letter case only, the reference not at all. '
            'Non-trivial: histories in which some request has a result')
    quick, thorough = 250, 5000
    recycle = 10 ** 9
    # words that several recognisers look up, used where they mean something and where they do not
    COUNTS = ['5', '05', '0', 'five', 'few', 'a few', 'half', 'half a', 'a', 'an', 'twelve', 'some', 'seventh', 'last', '']
    NAMES = ['mon', 'monday', 'thurs', 'week', 'may', 'may.', 'june', 'sept', 'noon', 'pst', 'xyz', '5pm', 'second', 'thirty-first', 'twenty  first', 'thirtieth', '5', 'tomorrow', '']
    FORMS = {'dfp': ['in # days', 'within # hours', 'in # weeks'], 'tap': ['# days ago', '# hours 5 minutes ago'], 'tlp': ['# weeks later', '2 days # seconds from now'],
             'rel': ['next # days', 'last # weeks', 'this # months'], 'wxp': ['next # weeks', 'last # week', 'this week']}
    NFORMS = {'dow': ['#', 'last #', '# next week', 'early # this'], 'mnp': ['# 2019', 'in # '], 'mme': ['# 5', 'june # to #, 2019', '#, may 5'], 'ctp': ['this # morning', '#'], 'cdp': ['# tomorrow', '#'],
              'hol': ['christmas #', '#'], 'iso': ['2019-05-06T07:08 #'], 'txp': ['at 5pm #', '5 to #', '# to 6 p.m.'], 'cli': ['5pm #', '# 5pm', '10:30 - 11 # ', 'may 5 at #', '#']}

    def enum(self, tier):
        k = 0
        texts = {p: [f.replace('#', c) for f in fs for c in self.COUNTS] for p, fs in self.FORMS.items()}
        texts.update({p: [f.replace('#', c) for f in fs for c in self.NAMES] for p, fs in self.NFORMS.items()})
        for p in sorted(texts):
            for o in sorted(texts):
                k += 1
                r, r2 = REFS[k % len(REFS)], REFS[k * 5 % len(REFS)]
                a, b = [[p, t, r, False] for t in texts[p]], [[o, t, r2, False] for t in texts[o]]
                n = len(a) + len(b)
                yield {'q': a + b, 'perm': list(range(len(a), n)) + list(range(len(a)))}
                yield {'q': a + b, 'perm': list(range(n - 1, -1, -1))}
        # phrases of every kind, each at references of different years, months, days and hours; in the other process
        # the references come in the opposite order
        rnd = random.Random(5)
        rs = [REFS[0], REFS[3], REFS[7], REFS[11], REFS[16], REFS[21]]
        for p in pool.ALL:
            ts = []
            for c in itertools.islice(pool.kinds_of(p, rnd), 1000):
                t = pool.phrase(p, c)
                if t not in ts:
                    ts.append(t)
            ts = ts[:(24 if p == 'mme' else 96) if tier == 'quick' else 1000]
            for i in range(0, len(ts), 12):
                q = [[p, t, r, False] for t in ts[i:i + 12] for r in rs[:3 if p == 'mme' else 6]]
                yield {'q': q, 'perm': list(range(len(q) - 1, -1, -1))}
                q = [['cli', t, r, False] for t in ts[i:i + 12:4] for r in (rs[0], rs[3])]
                yield {'q': q, 'perm': list(range(len(q) - 1, -1, -1))}

        # references that differ in one field only, both ways round
        b = (2019, 3, 15, 12, 30, 45)
        near = [b] + [b[:i] + (v,) + b[i + 1:] for i, v in enumerate((2021, 4, 16, 13, 31, 46))] + [(2019, 3, 15, 2, 30, 45), (2019, 3, 15, 12, 30, 0)]
        # and references a round distance apart
        b2 = (2019, 3, 1, 12, 30, 45)
        far = [b2] + [(y,) + b2[1:] for y in (2020, 2023, 2029, 2047, 2119, 2219, 2419, 3019, 9019, 1619)] + [cal.add_secs(b2, 86400 * n) for n in (1, 7, 14, 28, 91, 364, 365, 3650)] + [cal.add_secs(b2, n) for n in (3600 * 12, 60, 6, 10)]
        far2 = [(y, 11, 28, 3, 4, 5) for y in (1500, 1600, 1700, 1800, 1900, 2000, 2100, 2400)]
        for p in pool.ALL:
            ts = []
            for c in itertools.islice(pool.kinds_of(p, rnd), 1000):
                t = pool.phrase(p, c)
                if t not in ts:
                    ts.append(t)
            if p == 'hol':
                for h in sorted(dates.HOL):
                    for rs in (far, far2):
                        yield {'q': [[p, h + ' day', r, False] for r in rs], 'perm': list(range(len(rs) - 1, -1, -1))}
            k += 1
            for i, t in enumerate((ts[::max(1, len(ts) // (4 if p == 'mme' else 16))] if tier == 'quick' else ts)[:60]):
                rs = far2 if i % 4 == 3 else far
                yield {'q': [[p, t, r, False] for r in rs], 'perm': list(range(len(rs) - 1, -1, -1))}
            ts = (ts[::max(1, len(ts) // 12)] if tier == 'quick' else ts)[:60]
            for i in range(0, len(ts), 4):
                q = [[p, t, r, False] for t in ts[i:i + 4] for r in near]
                yield {'q': q, 'perm': list(range(len(q) - 1, -1, -1))}
                q = [[p, t, r, False] for r in near for t in ts[i:i + 4]]
                yield {'q': q, 'perm': list(range(len(q) - 1, -1, -1))}
                if p != 'rel':
                    q = [['cli', t, r, False] for t in ts[i:i + 2] for r in near[::2]]
                    yield {'q': q, 'perm': list(range(len(q) - 1, -1, -1))}
            # many calls in one process
            t = [x for x in ts if x.strip()]
            q = [[p, t[0], b, False], [p, t[len(t) // 2], near[1], False], [p, 'call bob', b, False], [p, 'we fly ' + t[-1], near[3], False]]
            yield {'q': q, 'perm': [3, 2, 1, 0], 'n': 300 if tier == 'quick' else 3000}
        yield {'q': [['cli', t, b, False] for t in ('monday at 5pm', 'call bob', 'may 5 - june 6', '10:30 est')], 'perm': [3, 2, 1, 0], 'n': 40 if tier == 'quick' else 600}

    def simpler(self, c):
        q = c['q']
        if c.get('n', 1) > 1:
            yield dict(c, n=c['n'] // 2)
            yield dict(c, n=c['n'] - 1)
            for x in q:
                yield dict(c, q=[x], perm=[0])
            return
        for x in q:
            for y in q:                  # two requests are often enough
                if x is not y and x[0] == y[0] and x[1] == y[1]:
                    yield {'q': [x, y], 'perm': [1, 0]}

    def strategy(self, tier):
        rf = st.one_of(gen.ref(), st.sampled_from(REFS), st.sampled_from(EDGE_REFS))

        @st.composite
        def s(draw):
            n = draw(st.integers(2, 14))
            one = draw(st.sampled_from(pool.ALL)) if draw(st.booleans()) else None
            qs = []
            for _ in range(n):
                p = one or draw(st.sampled_from(pool.ALL + ['cli', 'cli']))
                if p != 'cli' and draw(st.booleans()):
                    t = draw(gen.prefix(long=False)) + pool.phrase(p, draw(pool.meaning(p))) + draw(st.sampled_from(gen.POST))
                else:
                    t = draw(pool.text(junk=True))
                qs.append([p, t, draw(rf), draw(st.booleans())])
            if draw(st.booleans()):          # the same text again, with another reference
                q = draw(st.sampled_from(qs))
                qs.append([q[0], q[1], draw(rf), False])
            return {'q': qs, 'perm': draw(st.permutations(range(len(qs)))), 'case': draw(gen.case_mode)}
        return s()

    @staticmethod
    def line(q, fresh):
        p, t, r, _ = q
        t = t.replace('\0', ' ')[:600]
        if p == 'cli':
            return 'C %s %s' % (hx(t or ' '), hx('%04d-%02d-%02d %02d:%02d:%02d' % tuple(r)))
        return '%s %s %s %s' % ('p' if fresh else 'P', p, refs(r), hx(t))

    def run(self, drvs, c):
        A, B = drvs['plain'], drvs.setdefault('other', Driver(drvs['plain'].exe, recycle=10 ** 9))
        if A.p is not None and not getattr(self, 'keep', False):
            A.kill()
        B.kill()
        qs = c['q']
        first = []
        n = 0
        for q in qs:
            a = A.ask(self.line(q, False))
            n += 1 if a.get('r') or 'Date' in a.get('out', '') else 0
            first.append(a)
            if q[3]:
                b = A.ask(self.line(q, False))
                if a != b:
                    raise Fail('%s %r at %s: the same call again gives another answer: %s, then %s' % (q[0], q[1], cal.render(tuple(q[2])), a, b))
            if q[0] != 'cli':
                if not a['refkept']:
                    raise Fail('%s %r at %s: the reference time was changed' % (q[0], q[1], cal.render(tuple(q[2]))))
                want = ''.join(chr(x + 32) if 65 <= x <= 90 else chr(x) for x in q[1].replace('\0', ' ')[:600].encode('utf-8', 'surrogateescape'))
                got = ''.join(chr(ord(x) + 32) if 'A' <= x <= 'Z' else x for x in a['text'])
                if got != want:
                    raise Fail('%s %r: the text became %r' % (q[0], q[1], a['text']))
        for k in range(1, c.get('n', 1)):
            for q, a in zip(qs, first):
                b = A.ask(self.line(q, False))
                if a != b:
                    raise Fail('%s %r at %s: after %d calls another answer: %s, then %s' % (q[0], q[1], cal.render(tuple(q[2])), k * len(qs), str(a)[:600], str(b)[:600]))
        # the very same requests, other order, fresh objects, fresh process
        for i in c['perm']:
            b = B.ask(self.line(qs[i], True))
            if b != first[i]:
                raise Fail('%s %r at %s: %s after one history, %s after another' % (qs[i][0], qs[i][1], cal.render(tuple(qs[i][2])), str(first[i])[:600], str(b)[:600]))
        B.kill()
        return 'history with %s results' % (n if n < 4 else '4+') if n else ''


# ------------------------------------------------------------------------ C27
TAGGERS = {'olr': None, 'tza': 'tza', 'mdt': 'mdt', 'mdr': 'mdr'}


class C27(Prop):
    id = 'C27'
    rule = ('phrases, mutations and soups through every recogniser: each result has exactly the tag of its recogniser; and sentences with 1-5 phrases through all '
            'recognisers and then the refiners one by one: after each refiner a result has the tags of the results whose spans it covers plus that of the refiner if it changed. '
            'Non-trivial: a result; classes by recogniser and by refiner that changed something')
    quick, thorough = 1200, 10000

    def enum(self, tier):
        rnd = random.Random(27)
        for p in pool.ALL:                            # phrases of every kind, with the recogniser they belong to
            for n, c in enumerate(itertools.islice(pool.kinds_of(p, rnd), 1000)):
                if tier != 'quick' or n < (150 if p == 'mme' else 500):
                    yield {'k': 'p', 'p': p, 'text': ('', 'we fly ', 'hello bob, ')[n % 3] + pool.phrase(p, c) + ('', ' please')[n // 3 % 2], 'ref': c['ref']}
        for p in pool.ALL:
            for k in KEYWORDS[p] + (['2019-03-15', '2019-3-15T10:11Z'] if p == 'iso' else []):
                for r in REFS[:6]:
                    yield {'k': 'p', 'text': 'we fly ' + k + ' please', 'ref': r}
        for a in ('today', 'monday', 'may 5', '2019-03-15', 'may 2019', 'christmas', 'next friday', 'last week', '3 days ago', 'in 5 days'):
            for j in (' at ', ' ', ', ', ' to ', ' - ', ' and ', ' through ', ' on ', ' of '):
                for b in ('5pm', '10:30', 'noon', 'morning', 'friday', 'june 7', '2019-04-01', 'from 9pm to 1am', 'tomorrow', '17:00 est'):
                    for t in (a + j + b, b + j + a):
                        yield {'k': 'x', 'text': t, 'ref': REFS[0], 'chain': ['olr', 'tza', 'mdt', 'mdr']}

    def strategy(self, tier):
        @st.composite
        def s(draw):
            r = draw(st.one_of(gen.ref(1500, 9000), st.sampled_from(REFS)))
            if draw(st.booleans()):
                return {'k': 'p', 'text': draw(pool.text()), 'ref': r}
            return {'k': 'x', 'text': draw(pool.text()), 'ref': r, 'chain': draw(st.sampled_from([['olr', 'tza', 'mdt', 'mdr'], ['olr', 'tza', 'mdt', 'mdr'], ['olr', 'mdt', 'tza'], ['olr', 'mdr', 'mdt'], ['olr', 'mdr', 'tza']]))}
        return s()

    def run(self, drvs, c):
        d, ref, text = drvs['plain'], tuple(c['ref']), c['text'].replace('\0', ' ')[:700]
        if c['k'] == 'p':
            cls = ''
            for p in [c['p']] if 'p' in c else pool.ALL:
                want = [pool.P[p].tag] if pool.P[p].tag else []
                for r in d.parse(p, ref, text)['r']:
                    if r['t'].split() != want:
                        raise Fail('%s %r at %s: tags are [%s], expected %s' % (p, text, cal.render(ref), r['t'].strip(), want))
                    cls = 'recogniser ' + p
            return cls
        try:
            stages = d.ask('X %s %s %s %s' % (','.join(pool.CLI), ','.join(c['chain']), refs(ref), hx(text)))['stages']
        except Fail as e:
            if 'out of range' in str(e) or 'out of' in str(e):       # ranges that leave the calendar are the program's business
                return ''
            raise
        cls = 'sentence' if stages[0] else ''
        for name, a, b in zip(c['chain'], stages, stages[1:]):
            for r in b:
                i, e = r['i'], r['i'] + r['n']
                same = [x for x in a if x == r]
                if same:
                    continue                                     # taken over as it was
                src = [x for x in a if x['i'] >= i and x['i'] + x['n'] <= e]
                want = set(TAGGERS[name].split() if TAGGERS[name] else [])
                for x in src:
                    want |= set(x['t'].split())
                if not src or set(r['t'].split()) != want:
                    raise Fail('%r at %s after %s: %s has tags [%s], expected [%s]' % (text, cal.render(ref), name, describe(r), r['t'].strip(), ' '.join(sorted(want))))
                cls = 'refined by ' + name
            # nothing else may have gained a tag
            if name == 'olr':
                for r in b:
                    if r not in a:
                        raise Fail('%r after overlap removal: %s is new' % (text, describe(r)))
        return cls
