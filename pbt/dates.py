"""C06 - C18: one recogniser each.  A case is a dict of the meaning, the spelling
and the context; phrase(case) renders it and expect(case) computes the answer."""
import itertools, re, zlib
from hypothesis import strategies as st
from . import cal, gen
from .core import Prop, Fail
from .gen import REFS, EDGE_REFS, blen, check_one, describe, exp8, recase


blanks = st.one_of(st.just(0), st.just(0), st.just(0), st.integers(1, 10))


class PhraseProp(Prop):
    parser = None
    tag = ''
    loose_lead = False
    pre = gen.prefix()
    posts = gen.POST
    ref_range = (1400, 9999)

    def meaning(self):
        """strategy of the case dict without context"""
        raise NotImplementedError

    def phrase(self, c):
        raise NotImplementedError

    # blanks inside a phrase may be of any kind and number (but not inside "twenty first")
    WIDE = [None, '  ', '\t', '\n', '   ', ' \n\t ', '\r\n', ' ' * 12, '\n\n', ' ' * 40, '\t\t\t\t\t\t']
    narrow = re.compile(r'(?<!twenty)(?<!thirty)[ \t\r\n]+')

    def text_of(self, c):
        s, k = self.phrase(c), c.get('bl', 0)
        if k:
            n = iter(range(k, 10 ** 6))
            s = self.narrow.sub(lambda m: self.WIDE[1 + next(n) % (len(self.WIDE) - 1)], s)
        return s

    def expect(self, c, ref):
        """(start8, cert, end8, ecert) or None for no result"""
        raise NotImplementedError

    def cls(self, c, exp):
        return 'x'

    def strategy(self, tier):
        @st.composite
        def s(draw):
            c = draw(self.meaning())
            c['ref'] = draw(gen.ref(*self.ref_range))
            c['pre'] = draw(self.pre)
            c['post'] = draw(st.sampled_from(self.posts))
            c['case'] = draw(gen.case_mode)
            c['bl'] = draw(blanks)
            return c
        return s()

    # some of the enumerated phrases in a sentence and in capitals
    PRES = ['we fly ', 'please ', 'hello bob, ', 'zebra\n', 'call her. ', '  ', 'we will review blue house ship ' * 8]

    def cases(self, tier):
        for i, c in enumerate(self.enum(tier)):
            h = zlib.crc32(b'%d' % i)
            if not {'pre', 'post', 'case'} & set(c):
                if h % 3 == 0:
                    c = dict(c, case=(1, 2, 0x555555, 0xaaaaaa)[h // 3 % 4])
                if h // 12 % 4 == 0:
                    c = dict(c, pre=self.PRES[h // 48 % len(self.PRES)], post=self.posts[h // 1000 % len(self.posts)])
                if h // 48000 % 5 == 0:
                    c = dict(c, bl=1 + h // 240000 % 10)
            yield c

    def simpler(self, c):
        yield {k: v for k, v in c.items() if k not in ('pre', 'post', 'case', 'bl')}
        for x in (('pre', 'post'), ('case',), ('bl',)):
            if set(x) & set(c):
                yield {k: v for k, v in c.items() if k not in x}

    def run(self, drvs, c):
        ref = tuple(c['ref'])
        ph = self.text_of(c)
        pre, post = c.get('pre', ''), c.get('post', '')
        text = recase(pre + ph + post, c.get('case', 0))
        exp = self.expect(c, ref)
        resp = drvs['plain'].parse(self.parser, ref, text)
        ctx = '%s at %s' % (self.parser, cal.render(ref))
        try:
            if exp is None:
                check_one(resp, text, 0, 0, None, None)
            else:
                start, cert, end, ecert = exp
                n = blen(ph)
                if ph.endswith('.') and resp['r'] and resp['r'][0]['i'] + resp['r'][0]['n'] == blen(pre) + n - 1:
                    n -= 1                    # a final full stop may be left out
                check_one(resp, text, blen(pre), n, start, cert, end, ecert, self.tag, self.loose_lead)
        except Fail as e:
            raise Fail('[%s] %s' % (ctx, e))
        return ('none ' if exp is None else '') + self.cls(c, exp)


# the first and last days of the calendar
LASTDAYS = [(1400, 1, d, (d * 5) % 24, 4, 3) for d in range(1, 17)] + [(1400, 2, 1, 3, 0, 0), (1400, 2, 14, 23, 0, 1), (9999, 11, 30, 1, 2, 3), (9999, 11, 18, 0, 0, 0)] + [
    (9999, 12, d, (d * 5) % 24, 59, 58) for d in range(15, 32)]


def subset(cases, tier, k):
    """every k-th case of a big product, quick tier only"""
    return cases if tier != 'quick' or k == 1 else itertools.islice(cases, 0, None, k)


# ------------------------------------------------------------------------ C06
class C06(PhraseProp):
    id, parser, tag = 'C06', 'cdp', 'cdp'
    rule = ('casual date word x spacing x reference x neutral context x letter case; enumerated: all words x references around '
            'every hour and month/year/leap boundary. Non-trivial: a result is expected, counted by word and by day shift')
    words = ['now', 'today', 'tonight', 'tomorrow', 'tmr', 'yesterday', 'last night', 'lastnight', 'last  night', 'last\tnight', 'last   \n night']

    def enum(self, tier):
        for w in self.words:
            for r in REFS + EDGE_REFS:
                for h in range(24):
                    for mi, s in ((0, 0), (59, 59), r[4:]):
                        yield {'w': w, 'ref': r[:3] + (h, mi, s)}
        if tier != 'quick':
            for w in self.words[:7]:
                for o in range(cal.ordinal(2018, 12, 1), cal.ordinal(2021, 2, 1)):
                    for h in (0, 1, 6, 7, 23):
                        yield {'w': w, 'ref': cal.from_ordinal(o) + (h, 30, 1)}
        for w in self.words:
            for r in LASTDAYS:
                yield {'w': w, 'ref': r}
        for w in ('today', 'yesterday', 'tomorrow'):       # every day of three years
            for o in range(cal.ordinal(2019, 1, 1), cal.ordinal(2022, 1, 1)):
                yield {'w': w, 'ref': cal.from_ordinal(o) + (5, 4, 3)}

    def meaning(self):
        return st.fixed_dictionaries({'w': st.sampled_from(self.words)})

    def phrase(self, c):
        return c['w']

    def expect(self, c, ref):
        w = c['w'].split()[0][:4]
        d, t, shift = ref[:3], (0, 0, 0), 0
        cert = '11100000'
        if c['w'] in ('tomorrow', 'tmr'):
            shift = 1 if ref[3] > 0 else 0
        elif c['w'] == 'yesterday':
            shift, t = -1, (ref[3], 0, 0)
        elif w == 'last':
            shift = -1 if ref[3] > 6 else 0
        elif c['w'] == 'tonight':
            t = (22, 0, 0)
        elif c['w'] == 'now':
            t, cert = ref[3:], '11101110'
        d = cal.add_days(d, shift)
        if d is None:
            return None
        return exp8(d + tuple(t)), cert, None, None

    def cls(self, c, e):
        return ' '.join(c['w'].split())


# ------------------------------------------------------------------------ C07
class C07(PhraseProp):
    id, parser, tag, loose_lead = 'C07', 'ctp', 'ctp', True
    rule = 'casual time word x "this" x spacing x reference x neutral context x letter case; every case has an expected result'
    W = {'morning': 6, 'afternoon': 15, 'evening': 20, 'night': 20, 'noon': 12}
    forms = ['%s', 'this %s', 'this  %s', 'this%s', 'this\t%s', 'this \n  %s']

    def enum(self, tier):
        for w in self.W:
            for f in self.forms:
                for r in REFS + EDGE_REFS:
                    for mi in (0, 1, 30, 59, r[4]):
                        yield {'w': w, 'f': f, 'ref': r[:4] + (mi, r[5])}
            for o in range(cal.ordinal(2019, 1, 1), cal.ordinal(2021, 1, 1)):
                yield {'w': w, 'f': 'this %s', 'ref': cal.from_ordinal(o) + (o % 24, o % 60, 3)}

    def meaning(self):
        return st.fixed_dictionaries({'w': st.sampled_from(sorted(self.W)), 'f': st.sampled_from(self.forms)})

    def phrase(self, c):
        return c['f'] % c['w']

    def expect(self, c, ref):
        return exp8(ref[:3] + (self.W[c['w']], ref[4], 0), cal.weekday(*ref[:3])), '00000000', None, None

    def cls(self, c, e):
        return c['w'] + (' with this' if 'this' in c['f'] else '')


# ------------------------------------------------------------- counts and units
NUMW = ['one', 'two', 'three', 'four', 'five', 'six', 'seven', 'eight', 'nine', 'ten', 'eleven', 'twelve']
NUMV = {w: i + 1 for i, w in enumerate(NUMW)}
HALF = {'year': ('month', 6), 'month': ('day', 15), 'week': ('day', 3), 'day': ('hour', 12), 'hour': ('minute', 30), 'minute': ('second', 30)}
DIGITS = [1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 18, 20, 21, 23, 24, 25, 27, 28, 29, 30, 31, 32, 35, 36, 45, 48, 50, 52, 53,
          59, 60, 61, 72, 89, 90, 91, 99, 100, 120, 180, 200, 255, 256, 300, 364, 365, 366, 367, 400, 500, 618, 619, 620, 730, 999, 1000,
          1439, 1440, 1441, 3599, 3600, 5000, 7979, 7980, 7981, 8599, 8600, 8601, 9999, 10000, 32767, 32768, 65535, 65536, 86399, 86400,
          100000, 131072, 786420, 786431, 786432, 786433, 786444, 1000000, 1572864, 2914000, 2914700, 16777217, 99999999, 306783379, 613566756, 613566757, 613566758,
          2147483647]                     # 786432 months = 65536 years; 613566757 weeks > 2 ** 32 days

DAYUNITS = ('day', 'week', 'month', 'year')


def count_value(s):
    """the number meant by a count; None = half"""
    if s in NUMV:
        return NUMV[s]
    if s.split()[0] == 'half' or s.startswith('half'):
        return None
    if 'few' in s:
        return 3
    if s in ('a', 'an', ''):
        return 1
    return int(s)


def padded(lo, hi=999):
    """numbers with leading zeros"""
    return st.tuples(st.integers(1, 3), st.integers(lo, hi)).map(lambda t: '0' * t[0] + str(t[1]))


PADDED = ['01', '07', '08', '09', '010', '011', '012', '0100', '00', '008']


def resolve(n, unit):
    if n is None:
        u, v = HALF[unit]
        return u, v
    return unit, n


UNIT_SECS = {'second': 1, 'minute': 60, 'hour': 3600}


def move(ref, parts, sign):
    """set of possible date-times (ref +- all parts, in any order of the units); parts: [(unit, n)].
    None in the set: leaves the calendar"""
    datep = [(u, n) for u, n in parts if u in DAYUNITS]
    timep = sum(UNIT_SECS[u] * n for u, n in parts if u in UNIT_SECS)
    outs = set()
    summed = {}                              # "1 month half year": 1 and 6 months, or 7
    for u, n in datep:
        summed[u] = summed.get(u, 0) + n
    perms = list(itertools.permutations(datep))
    if len(summed) < len(datep):
        perms += itertools.permutations(summed.items())
    for perm in perms:
        d = ref[:3]
        for u, n in perm:
            if d is None:
                break
            n = sign * n
            if abs(n) > 4 * 10 ** 6:
                d = None
            elif u == 'day':
                d = cal.add_days(d, n)
            elif u == 'week':
                d = cal.add_days(d, 7 * n)
            elif u == 'month':
                d = cal.add_months(d, n)
            else:
                d = cal.add_months(d, 12 * n)
        outs.add(None if d is None else cal.add_secs(d + ref[3:], sign * timep))
    return outs


def limits(ref, unit, sign):
    """counts around the last one that stays on the calendar"""
    lo, hi = 0, 1 << 33
    while lo < hi:
        n = (lo + hi + 1) // 2
        if move(ref, [(unit, n)], sign) == {None}:
            hi = n - 1
        else:
            lo = n
    return [n for n in (lo - 1, lo, lo + 1, lo + 2, lo + 60) if 0 < n < 1 << 31]


LIMREFS = EDGE_REFS + [REFS[0], REFS[3], (1401, 2, 28, 23, 59, 59), (9998, 3, 1, 0, 0, 1), (9999, 12, 31, 0, 0, 0), (1400, 1, 1, 23, 59, 59), (5000, 6, 30, 12, 0, 0)]


# ------------------------------------------------------------------------ C08
class C08(PhraseProp):
    id, parser, tag = 'C08', 'dfp', 'dfp'
    rule = ('in/within x count spelling x unit spelling x reference x context; enumerated: every count spelling and ~90 numbers x every unit '
            'spelling x boundary references. Non-trivial: every case; classes separate results, clamped months, carries and rejected offsets')
    U = {'second': ['sec', 'secs', 'second', 'seconds'], 'minute': ['min', 'mins', 'minute', 'minutes'], 'hour': ['hr', 'hrs', 'hour', 'hours'],
         'day': ['day', 'days'], 'week': ['wk', 'wks', 'week', 'weeks'], 'month': ['month', 'months'], 'year': ['yr', 'yrs', 'year', 'years']}
    SP = {v: k for k, vs in U.items() for v in vs}
    counts = NUMW + ['a', 'an', 'a few', 'an few', 'a  few', 'half', 'half a', 'half an', 'half  a']
    quick, thorough = 3500, 40000

    def enum(self, tier):
        rs = REFS + EDGE_REFS
        for k, u in enumerate(sorted(self.SP)):
            for cn in self.counts:
                for r in rs:
                    yield {'in': 'in', 'n': cn, 'u': u, 'ref': r}
                    if (k + r[2]) % 4 == 0:
                        yield {'in': 'within', 'n': cn, 'u': u, 'ref': r}
        for unit, sp in self.U.items():
            for j, n in enumerate(DIGITS + [0]):
                for i, r in enumerate(rs):
                    yield {'in': 'in' if (i + j) % 3 else 'within', 'n': str(n), 'u': sp[(i + j) % len(sp)], 'ref': r}
            for r in LIMREFS:
                for n in limits(r, unit, 1):
                    yield {'in': 'in', 'n': str(n), 'u': sp[-1], 'ref': r}
            for i, n in enumerate(PADDED):
                for r in rs[i % 3::3]:
                    yield {'in': 'in', 'n': n, 'u': sp[i % len(sp)], 'ref': r}
        for r in LASTDAYS:
            for u in ('day', 'weeks', 'months', 'hours', 'year'):
                for n in ('half', '1', '2', '5', 'twelve', '24', '36'):
                    yield {'in': 'in', 'n': n, 'u': u, 'ref': r}
        for n in range(0, 800 if tier == 'quick' else 4000):     # every small number
            for unit, sp in self.U.items():
                yield {'in': 'in', 'n': str(n), 'u': sp[-1], 'ref': rs[n % len(rs)]}
        for o in range(cal.ordinal(2019, 1, 1), cal.ordinal(2021, 1, 1)):    # every day of two years
            d = cal.from_ordinal(o)
            for n in ('1', '2', '11', '12', '13'):
                yield {'in': 'in', 'n': n, 'u': 'months', 'ref': d + (23, 59, 59)}
            yield {'in': 'in', 'n': '1', 'u': 'year', 'ref': d + (0, 0, 0)}
            yield {'in': 'in', 'n': '4', 'u': 'years', 'ref': d + (0, 0, 0)}
            yield {'in': 'in', 'n': 'half a', 'u': 'day', 'ref': d + (12, 0, 0)}

    def meaning(self):
        return st.fixed_dictionaries({
            'in': st.sampled_from(['in', 'within', 'in ', 'within \t', 'in\n']), 'u': st.sampled_from(sorted(self.SP)),
            'n': st.one_of(st.sampled_from(self.counts), st.integers(0, 120).map(str), st.sampled_from(DIGITS).map(str),
                           st.integers(0, 10 ** 6).map(str), padded(0))})

    def phrase(self, c):
        return '%s %s %s' % (c['in'], c['n'], c['u'])

    def expect(self, c, ref):
        unit, n = self.SP[c['u']], count_value(c['n'])
        whole_day = unit in DAYUNITS
        if n is None and unit == 'day':
            t = cal.add_secs(ref, 43200)
            return t and (exp8(t[:5] + (0,)), '00000000', None, None)   # minutes are the finest it states
        if n is None and unit == 'second':
            n = 1
        unit, n = resolve(n, unit)
        t, = move(ref, [(unit, n)], 1)
        if t is None:
            return None
        return exp8(t[:3] + ((0, 0, 0) if whole_day else t[3:])), '00000000', None, None

    def cls(self, c, e):
        n = c['n'] if not c['n'].isdigit() else 'number'
        return '%s %s' % (n, self.SP[c['u']])


# ------------------------------------------------------------------- C09 / C10
class Compound(PhraseProp):
    sign = 0
    ends = []
    U = {'second': ['sec', 'second', 'seconds'], 'minute': ['min', 'mins', 'minute', 'minutes'], 'hour': ['hour', 'hours'],
         'day': ['day', 'days'], 'week': ['week', 'weeks'], 'month': ['month', 'months'], 'year': ['year', 'years']}
    SP = {v: k for k, vs in U.items() for v in vs}
    gaps = [' ']
    rule = ('1-7 parts "count unit" (each unit once) x ending x reference x context. Enumerated: every count spelling and ~90 numbers x every '
            'unit spelling x boundary references x endings, and all pairs and triples of units. Non-trivial: every case')

    counts = []
    lead = ['']

    def enum(self, tier):
        rs = REFS + EDGE_REFS
        k = 0
        for r in LASTDAYS:
            for u in ('days', 'weeks', 'months', 'hours'):
                for n in ('half', '1', '2', '5', 'twelve', '24', '36'):
                    yield {'p': [[n, ' ', u]], 'end': self.ends[0], 'lead': '', 'ref': r}
            for q in (('1', '12'), ('1', '36'), ('9', '24'), ('8', '48')):
                yield {'p': [[q[0], ' ', 'days'], [q[1], ' ', 'hours']], 'end': self.ends[0], 'lead': '', 'ref': r}
        for u in sorted(self.SP):
            for cn in self.counts:
                if cn.startswith('half') and self.SP[u] == 'second':
                    continue
                for r in rs:
                    k += 1
                    yield {'p': [[cn, ' ', u]], 'end': self.ends[k % len(self.ends)], 'lead': '', 'ref': r}
        for unit, sp in self.U.items():
            for n in DIGITS:
                for r in rs:
                    k += 1
                    yield {'p': [[str(n), ' ', sp[k % len(sp)]]], 'end': self.ends[k % len(self.ends)], 'lead': self.lead[k % len(self.lead)], 'ref': r}
        for unit, sp in self.U.items():
            for r in LIMREFS:
                for n in limits(r, unit, self.sign):
                    k += 1
                    yield {'p': [[str(n), ' ', sp[-1]]], 'end': self.ends[k % len(self.ends)], 'lead': '', 'ref': r}
        for n in range(1, 500 if tier == 'quick' else 4000):
            for unit, sp in self.U.items():
                yield {'p': [[str(n), ' ', sp[-1]]], 'end': self.ends[n % len(self.ends)], 'lead': '', 'ref': rs[n % len(rs)]}
                for z in PADDED if n == 1 else ():
                    if int(z):
                        k += 1
                        yield {'p': [[z, ' ', sp[k % len(sp)]]], 'end': self.ends[k % len(self.ends)], 'lead': '', 'ref': rs[k % len(rs)]}
        order = ['year', 'month', 'week', 'day', 'hour', 'minute', 'second']
        for u in order[:-1]:                       # a half and the unit that it is given in, both ways round
            for n in ('1', '2', 'five', '40', '2147483647'):
                for h in ('half', 'half a', 'half an'):
                    for r in rs[::3]:
                        for v in (HALF[u][0], 'second'):
                            k += 1
                            p = [[h, ' ', u], [n, ' ', self.U[v][-1]]]
                            yield {'p': p if k % 2 else p[::-1], 'end': self.ends[k % len(self.ends)], 'lead': '', 'ref': r}
        for size in (2, 3):
            for comb in itertools.permutations(order, size):
                for v in ((1, 1, 1), (2, 13, 5), (11, 3, 40), (1, 25, 90)):
                    for r in (rs[::5] if size == 3 else rs[::2]):
                        k += 1
                        yield {'p': [[str(n), ' ', self.U[u][-1]] for u, n in zip(comb, v)], 'end': self.ends[k % len(self.ends)], 'lead': '', 'ref': r}
        for o in range(cal.ordinal(2019, 1, 1), cal.ordinal(2021, 1, 1)):
            d = cal.from_ordinal(o)
            for u in ('months', 'years'):
                for n in (1, 2, 4, 11):
                    yield {'p': [[str(n), ' ', u]], 'end': self.ends[0], 'lead': '', 'ref': d + (1, 2, 3)}
            yield {'p': [['13', ' ', 'hours']], 'end': self.ends[0], 'lead': '', 'ref': d + (12, 30, 0)}

    def meaning(self):
        cnt = st.one_of(st.sampled_from(self.counts), st.integers(1, 100).map(str), st.sampled_from(DIGITS).map(str),
                        st.integers(1, 10 ** 6).map(str), padded(1))
        small = st.one_of(st.sampled_from(NUMW + ['a', 'a few']), st.integers(1, 400).map(str), padded(1))

        @st.composite
        def s(draw):
            k = draw(st.sampled_from([1, 1, 2, 2, 3, 4, 5, 7]))
            us = draw(st.permutations(sorted(self.U)))[:k]
            parts = []
            for u in us:
                c = draw(cnt if k == 1 else small)
                if c.startswith('half') and u == 'second':
                    c = '7'
                parts.append([c, draw(st.sampled_from(self.gaps)), draw(st.sampled_from(self.U[u]))])
            for i in draw(st.sets(st.integers(0, k - 1), max_size=2)) if k >= 2 and draw(st.integers(0, 4)) == 0 else ():
                if us[i] != 'second':
                    parts[i][0], parts[i][1] = draw(st.sampled_from([h for h in self.counts if h.startswith('half')])), ' '
            return {'p': parts, 'end': draw(st.sampled_from(self.ends)), 'lead': draw(st.sampled_from(self.lead)),
                    'j': draw(st.sampled_from([' ', '  ', '\t', '\n ']))}
        return s()

    def phrase(self, c):
        return c['lead'] + c.get('j', ' ').join('%s%s%s' % tuple(p) for p in c['p']) + c.get('j', ' ') + c['end']

    def expect(self, c, ref):
        parts = []
        for n, _, u in c['p']:
            parts.append(resolve(count_value(n), self.SP[u]))
        outs = move(ref, parts, self.sign)
        hastime = any(u in UNIT_SECS for u, _ in parts)
        hasdate = any(u in DAYUNITS for u, _ in parts)
        res = []
        for t in outs:
            if t is None:
                res.append(None)
            else:
                res.append((exp8(t[:3] + (t[3:] if hastime else (0, 0, 0))),
                            ('111' if hasdate else '000') + '0' + ('111' if hastime else '000') + '0', None, None))
        return res

    def run(self, drvs, c):
        ref = tuple(c['ref'])
        ph = self.text_of(c)
        pre, post = c.get('pre', ''), c.get('post', '')
        text = recase(pre + ph + post, c.get('case', 0))
        exps = self.expect(c, ref)
        resp = drvs['plain'].parse(self.parser, ref, text)
        err = None
        for exp in exps:          # month arithmetic: any order of the units is right
            try:
                if exp is None:
                    check_one(resp, text, 0, 0, None, None)
                else:
                    check_one(resp, text, blen(pre), blen(ph), exp[0], exp[1], None, None, self.tag)
                err = None
                break
            except Fail as e:
                err = err or Fail('[%s at %s] %s' % (self.parser, cal.render(ref), e))
        if err:
            raise err
        return ('none ' if exps == [None] else '') + ('%d parts' % len(c['p']) if len(c['p']) > 1 else
                                                      '%s %s' % (c['p'][0][0] if not c['p'][0][0].isdigit() else 'number', self.SP[c['p'][0][2]]))


class C09(Compound):
    id, parser, tag, sign = 'C09', 'tap', 'tap', -1
    ends = ['ago', 'before', 'earlier']
    lead = ['', '', '', 'within ', 'within  ']
    gaps = [' ', ' ', '  ', '', '\t']
    counts = NUMW + ['a', 'an', 'a few', 'a  few', 'half', 'half a', 'half an']

    def meaning(self):
        def fixgap(c):                 # "5days" is fine, "adays" and "halfadays" are not asked for
            for p in c['p']:
                if not p[0].isdigit() and p[1] == '':
                    p[1] = ' '
            return c
        return super().meaning().map(fixgap)


class C10(Compound):
    id, parser, tag, sign = 'C10', 'tlp', 'tlp', 1
    ends = ['later', 'after', 'from now', 'henceforth', 'forward', 'out']
    gaps = [' ', ' ', '  ', '\t']
    counts = NUMW + ['a', 'an', 'a few', 'a  few', 'half', 'half a', 'half an']
    narrow = re.compile(r'(?<!from)[ \t\r\n]+')


# ------------------------------------------------------------------------ C11
class C11(PhraseProp):
    id, parser, tag = 'C11', 'rel', 'rel'
    rule = ('this/next/last/past x count x unit spelling x reference x context; enumerated: all modifiers x counts x spellings x boundary '
            'references, "this" x every day of three years. Non-trivial: every case')
    U = {'second': ['second', 'seconds'], 'minute': ['min', 'mins', 'minute', 'minutes'], 'hour': ['hour', 'hours'],
         'day': ['day', 'days'], 'week': ['week', 'weeks'], 'month': ['month', 'months'], 'year': ['year', 'years']}
    SP = {v: k for k, vs in U.items() for v in vs}
    counts = [''] + NUMW + ['few', 'half', 'half a', 'half an']

    def enum(self, tier):
        rs = REFS + EDGE_REFS
        for m in ('next', 'last', 'past'):
            for u in sorted(self.SP):
                for n in self.counts:
                    if n.startswith('half') and self.SP[u] == 'second':
                        continue
                    for r in rs:
                        yield {'m': m, 'n': n, 'u': u, 'ref': r}
            for unit, sp in self.U.items():
                for j, n in enumerate(DIGITS + [0]):
                    for i, r in enumerate(rs):
                        yield {'m': m, 'n': str(n), 'u': sp[(i + j) % len(sp)], 'ref': r}
                for r in LIMREFS:
                    for n in limits(r, unit, 1 if m == 'next' else -1):
                        yield {'m': m, 'n': str(n), 'u': sp[-1], 'ref': r}
                for i, n in enumerate(PADDED):
                    for r in rs[i % 3::3]:
                        yield {'m': m, 'n': n, 'u': sp[i % len(sp)], 'ref': r}
        for r in LASTDAYS:
            for u in ('day', 'week', 'weeks', 'month', 'year', 'hour'):
                yield {'m': 'this', 'n': '', 'u': u, 'ref': r}
                for n in ('', 'two', '1', '2', 'few', 'half', 'half a'):
                    for m in ('next', 'last', 'past'):
                        yield {'m': m, 'n': n, 'u': u, 'ref': r}
        for u in sorted(self.SP):
            for r in rs:
                yield {'m': 'this', 'n': '', 'u': u, 'ref': r}
                yield {'m': 'this', 'n': 'two', 'u': u, 'ref': r}
                yield {'m': 'this', 'n': '3', 'u': u, 'ref': r}
        for o in range(cal.ordinal(2018, 12, 1), cal.ordinal(2021, 3, 1)):
            for u in ('week', 'month', 'year'):
                yield {'m': 'this', 'n': '', 'u': u, 'ref': cal.from_ordinal(o) + (o % 24, 1, 2)}
            for m in ('next', 'last', 'past'):
                for u in ('month', 'year', 'week', 'day'):
                    yield {'m': m, 'n': '', 'u': u, 'ref': cal.from_ordinal(o) + (o % 24, 1, 2)}
        for y in range(1401, 9999, 7 if tier == 'quick' else 1):
            for u in ('week', 'month', 'year'):
                yield {'m': 'this', 'n': '', 'u': u, 'ref': (y, 2, 1 + y % 28, 3, 4, 5)}

    def meaning(self):
        def fix(c):
            if c['n'].startswith('half') and self.SP[c['u']] == 'second':
                c['n'] = '4'
            return c
        return st.fixed_dictionaries({
            'm': st.sampled_from(['this', 'next', 'last', 'past']), 'u': st.sampled_from(sorted(self.SP)),
            'n': st.one_of(st.just(''), st.sampled_from(self.counts), st.integers(0, 200).map(str), st.sampled_from(DIGITS).map(str),
                           st.integers(0, 10 ** 6).map(str), padded(0)),
            'g': st.sampled_from([' ', ' ', '  ', '\t'])}).map(fix)

    def phrase(self, c):
        g = c.get('g', ' ')
        return c['m'] + g + (c['n'] + g if c['n'] else '') + c['u']

    def expect(self, c, ref):
        unit, n = self.SP[c['u']], count_value(c['n'] or 'a')
        y, m, d = ref[:3]
        if c['m'] == 'this':
            if c['n']:
                return None
            if unit == 'week':
                w = cal.weekday(y, m, d)
                a, b = cal.add_days((y, m, d), -w), cal.add_days((y, m, d), 6 - w)
                if a is None or b is None:
                    return None
                return exp8(a + (0, 0, 0)), '00000000', exp8(b + (0, 0, 0)), '00000000'
            if unit == 'month':
                return (exp8((y, m, 1, 0, 0, 0)), '11000000', exp8((y, m, cal.mdays(y, m), 0, 0, 0)), '11000000')
            if unit == 'year':
                return exp8((y, 1, 1, 0, 0, 0)), '10000000', exp8((y, 12, 31, 0, 0, 0)), '10000000'
            return None
        sign = 1 if c['m'] == 'next' else -1
        if n is None and unit == 'day':
            t = cal.add_secs(ref, sign * 43200)
            return t and (exp8(t[:5] + (0,)), '00000000', None, None)
        whole = unit in DAYUNITS
        t, = move(ref, [resolve(n, unit)], sign)
        if t is None:
            return None
        return exp8(t[:3] + ((0, 0, 0) if whole else t[3:])), '00000000', None, None

    def cls(self, c, e):
        return '%s %s %s' % (c['m'], 'number' if c['n'].isdigit() else c['n'], self.SP[c['u']])


# ------------------------------------------------------------------------ C12
class C12(PhraseProp):
    id, parser, tag = 'C12', 'wxp', ''
    rule = 'last/next x count as digits or word x week(s), "this week", and non-number words, x references x context. Non-trivial: every case'
    bad = ['hundred', 'last', 'next', 'fine', 'oneish', 'thirteen', 'twenty', 'few', 'couple', 'several', 'many', 'third', 'zero']

    def enum(self, tier):
        rs = REFS + EDGE_REFS
        for r in rs:
            yield {'m': 'this', 'n': '', 'u': 'week', 'ref': r}
            for m in ('last', 'next'):
                for u in ('week', 'weeks'):
                    for n in [''] + NUMW + self.bad:
                        yield {'m': m, 'n': n, 'u': u, 'ref': r}
                for n in DIGITS + [0]:
                    yield {'m': m, 'n': str(n), 'u': 'weeks', 'ref': r}
        for r in LIMREFS:
            for m in ('last', 'next'):
                for n in limits(r, 'week', 1 if m == 'next' else -1):
                    yield {'m': m, 'n': str(n), 'u': 'weeks', 'ref': r}
        for m in ('last', 'next'):
            for n in PADDED:
                for r in rs[::3]:
                    yield {'m': m, 'n': n, 'u': 'weeks', 'ref': r}
        for r in LASTDAYS:
            for m, n in (('last', ''), ('next', ''), ('next', '2'), ('this', ''), ('last', 'two'), ('next', 'one'), ('last', '1')):
                yield {'m': m, 'n': n, 'u': 'week' if m == 'this' else 'weeks', 'ref': r}
        for n in range(0, 700):
            for m in ('last', 'next'):
                yield {'m': m, 'n': str(n), 'u': 'weeks', 'ref': rs[n % len(rs)]}
        for o in range(cal.ordinal(2019, 1, 1), cal.ordinal(2021, 1, 1)):
            for m, n in (('last', ''), ('next', ''), ('next', '3'), ('this', ''), ('last', 'twelve')):
                yield {'m': m, 'n': n, 'u': 'week', 'ref': cal.from_ordinal(o) + (4, 5, 6)}

    def meaning(self):
        return st.fixed_dictionaries({
            'm': st.sampled_from(['last', 'next', 'last', 'next', 'this']), 'u': st.sampled_from(['week', 'weeks']),
            'n': st.one_of(st.just(''), st.sampled_from(NUMW), st.sampled_from(self.bad), st.integers(0, 5000).map(str), st.sampled_from(DIGITS).map(str), padded(0)),
            'g': st.sampled_from([' ', '  ', '\t'])}).map(lambda c: dict(c, n='', u='week') if c['m'] == 'this' else c)

    def phrase(self, c):
        g = c.get('g', ' ')
        return c['m'] + g + (c['n'] + g if c['n'] else '') + c['u']

    def expect(self, c, ref):
        n = c['n']
        if n in self.bad:
            return None
        n = count_value(n or 'a') * {'last': -1, 'next': 1, 'this': 0}[c['m']]
        d = cal.add_days(ref[:3], 7 * n) if abs(n) < 10 ** 7 else None
        return d and (exp8(d + (0, 0, 0)), '00000000', None, None)

    def cls(self, c, e):
        return '%s %s' % (c['m'], 'number' if c['n'].isdigit() else c['n'])


# ------------------------------------------------------------------------ C13
WD = {'sunday': 0, 'sun': 0, 'monday': 1, 'mon': 1, 'tuesday': 2, 'tue': 2, 'tues': 2, 'wednesday': 3, 'wed': 3, 'thursday': 4, 'thur': 4,
      'thurs': 4, 'thu': 4, 'friday': 5, 'fri': 5, 'saturday': 6, 'sat': 6}


class C13(PhraseProp):
    id, parser, tag, loose_lead = 'C13', 'dow', 'dow', True
    rule = ('weekday spelling x modifier before or after x "week" x timing x reference day x context; enumerated: all spellings x modifiers x '
            'every day of two years. Non-trivial: every case; classes by modifier, its position and timing')
    posts = [p for p in gen.POST]

    def enum(self, tier):
        mods = [('', 'pre'), ('this', 'pre'), ('last', 'pre'), ('next', 'pre'), ('this', 'post'), ('last', 'post'), ('next', 'post'), ('this', 'week'), ('last', 'week'), ('next', 'week')]
        full = ['sunday', 'monday', 'tuesday', 'wednesday', 'thursday', 'friday', 'saturday']
        for o in range(cal.ordinal(2019, 11, 20), cal.ordinal(2020, 3, 10)):
            for w in full:
                for m, pos in mods:
                    yield {'w': w, 'm': m, 'pos': pos, 't': '', 'ref': cal.from_ordinal(o) + (o % 24, 0, 0)}
        for r in LASTDAYS:
            for w in full:
                for m, pos in mods:
                    yield {'w': w, 'm': m, 'pos': pos, 't': '', 'ref': r}
        for w in sorted(WD):
            for m, pos in mods:
                for t in ('', 'early', 'earlier', 'late'):
                    for o in range(cal.ordinal(2019, 12, 28), cal.ordinal(2020, 1, 6)):
                        yield {'w': w, 'm': m, 'pos': pos, 't': t, 'ref': cal.from_ordinal(o) + (o % 24, 0, 0)}
        for r in REFS + EDGE_REFS:
            for w in full:
                for m, pos in mods:
                    yield {'w': w, 'm': m, 'pos': pos, 't': '', 'ref': r}
        for y in range(1401, 9999, 31 if tier == 'quick' else 1):
            for m, pos in mods[:4]:
                for md in ((1, 1), (12, 31), (3, 1)):
                    yield {'w': full[y % 7], 'm': m, 'pos': pos, 't': '', 'ref': (y,) + md + (3, 4, 5)}

    def meaning(self):
        return st.fixed_dictionaries({'w': st.sampled_from(sorted(WD)), 'm': st.sampled_from(['', 'this', 'last', 'next']),
                                      'pos': st.sampled_from(['pre', 'pre', 'post', 'week']), 't': st.sampled_from(['', '', '', 'early', 'earlier', 'late']),
                                      'g': st.sampled_from([' ', ' ', ' ', '  ', '\t', ''])}).map(
            lambda c: dict(c, pos='pre') if c['m'] == '' else c)

    def phrase(self, c):
        g = c.get('g', ' ')
        s = c['t'] + g if c['t'] else ''
        if c['m'] and c['pos'] == 'pre':
            s += c['m'] + g
        s += c['w']
        if c['m'] and c['pos'] != 'pre':
            s += g + c['m'] + (g + 'week' if c['pos'] == 'week' else '')
        return s

    def expect(self, c, ref):
        w = cal.weekday(*ref[:3])
        d = cal.add_days(ref[:3], WD[c['w']] - w + {'': 0, 'this': 0, 'last': -7, 'next': 7}[c['m']])
        if d is None:
            return None
        # the recogniser may look a week further than the day it names
        t = {'': (0, 0, 0), 'early': (6, 1, 0), 'earlier': (6, 1, 0), 'late': (20, 1, 0)}[c['t']]
        return exp8(d + t, None), ('111' if c['m'] in ('last', 'next') else '000') + '00000', None, None

    def cls(self, c, e):
        return '%s/%s/%s' % (c['m'], c['pos'], c['t'])


# ------------------------------------------------------------------------ C14
MNAMES = [['january', 'jan', 'jan.'], ['february', 'feb', 'feb.'], ['march', 'mar', 'mar.'], ['april', 'apr', 'apr.'], ['may', 'may.'],
          ['june', 'jun', 'jun.'], ['july', 'jul', 'jul.'], ['august', 'aug', 'aug.'], ['september', 'sep', 'sep.', 'sept', 'sept.'],
          ['october', 'oct', 'oct.'], ['november', 'nov', 'nov.'], ['december', 'dec', 'dec.']]
MVAL = {n: i + 1 for i, l in enumerate(MNAMES) for n in l}


def closest_years(ref, m, d):
    """years in which (m, d) lies closest to the reference day; the reference year wins a tie"""
    o = cal.ordinal(*ref[:3])
    dist = {}
    for y in (ref[0] - 1, ref[0], ref[0] + 1):
        if cal.valid(y, m, d):
            dist[y] = abs(cal.ordinal(y, m, d) - o)
    best = min(dist.values())
    ys = [y for y, v in dist.items() if v == best]
    if ref[0] in ys:
        ys = [ref[0]]
    if (m, d) == (2, 28):       # the day before a leap day: a day's tolerance
        ys = [y for y, v in dist.items() if v <= best + 1]
    return ys


def era_year(y, era):
    """year on the calendar, or None"""
    e = era.strip().lower()
    if e == 'be':
        y -= 543
    elif e == 'bc':
        return None
    return y if cal.LO <= y <= cal.HI else None


ERAS = ['', '', '', ' ad', 'ad', ' be', 'be', ' bc', 'bc', '  AD', ' Be']


class C14(PhraseProp):
    id, parser, tag = 'C14', 'mnp', 'mnp'
    rule = ('month spelling x (no year, or separator x year x era) x reference x context; enumerated: every spelling x years, and every month '
            'without year x every day of 2.5 years. Non-trivial: every case; classes by month and by year form')
    posts = ['', '!', ',', ' please', ' we will review', ', bob', ';', ')', '"', ' :', ' amber', ' android', ' beyond', ' adults', ' bcc']
    quick, thorough = 2000, 15000
    ref_range = (1401, 9998)

    def enum(self, tier):
        for i, l in enumerate(MNAMES):
            for o in range(cal.ordinal(2018, 12, 25), cal.ordinal(2021, 1, 10), 1 if tier != 'quick' else 2):
                yield {'m': l[o % len(l)], 'sep': '', 'y': None, 'era': '', 'ref': cal.from_ordinal(o) + (o % 24, 0, 0)}
            for n in l:
                for r in REFS:
                    yield {'m': n, 'sep': '', 'y': None, 'era': '', 'ref': r}
                for y in (1399, 1400, 1401, 1582, 1900, 1999, 2000, 2019, 2020, 2562, 9999, 1000, 1942, 1943, 1944, 1, 2, 12, 99, 500, 0):
                    for era in ('', ' ad', ' be', ' bc'):
                        yield {'m': n, 'sep': ' ', 'y': y, 'era': era, 'ref': REFS[y % len(REFS)]}
                for sep in (' ', ', ', ',', ' , ', '-', ' - ', '  '):
                    yield {'m': n, 'sep': sep, 'y': 2021, 'era': '', 'ref': REFS[i]}
                for k, q in enumerate('()[]{}<>"\',.;:!?/&*+=-|#'):       # directly after a punctuation mark
                    yield {'m': n, 'sep': ' ' if (i + k) % 2 else '', 'y': 2021 if (i + k) % 2 else None, 'era': '', 'ref': REFS[k % len(REFS)],
                           'pre': ('', 'we fly ', 'bob')[k % 3] + q, 'post': {'(': ')', '[': ']', '"': '"'}.get(q, '')}
        for y in range(1000, 10000, 29 if tier == 'quick' else 1):
            yield {'m': MNAMES[y % 12][0], 'sep': ' ', 'y': y, 'era': '', 'ref': REFS[y % len(REFS)]}

    def meaning(self):
        return st.one_of(
            st.fixed_dictionaries({'m': st.sampled_from(sorted(MVAL)), 'sep': st.just(''), 'y': st.none(), 'era': st.just('')}),
            st.fixed_dictionaries({'m': st.sampled_from(sorted(MVAL)), 'sep': st.sampled_from([' ', ', ', ',', ' , ', '-', ' - ', '  ', ' -']),
                                   'y': st.one_of(st.integers(1000, 9999), st.integers(1398, 1402), st.integers(1940, 1945), st.integers(1990, 2030)),
                                   'era': st.sampled_from(ERAS)}))

    def phrase(self, c):
        return c['m'] + c['sep'] + ('' if c['y'] is None else '%04d' % c['y'] + c['era'])

    def run(self, drvs, c):
        # "-" only separates a month from its year
        return super().run(drvs, c)

    def expect(self, c, ref):
        m = MVAL[c['m']]
        if c['y'] is None:
            y, = closest_years(ref, m, 1)
            return exp8((y, m, 1, 0, 0, 0)), '01000000', None, None
        y = era_year(c['y'], c['era'])
        return y and (exp8((y, m, 1, 0, 0, 0)), '11000000', None, None)

    def cls(self, c, e):
        return '%02d %s' % (MVAL[c['m']], 'no year' if c['y'] is None else 'year ' + c['era'].strip().lower())


# ------------------------------------------------------------------------ C15
ORD = ['first', 'second', 'third', 'fourth', 'fifth', 'sixth', 'seventh', 'eighth', 'ninth', 'tenth', 'eleventh', 'twelfth', 'thirteenth',
       'fourteenth', 'fifteenth', 'sixteenth', 'seventeenth', 'eighteenth', 'nineteenth', 'twentieth', 'twenty first', 'twenty second',
       'twenty third', 'twenty fourth', 'twenty fifth', 'twenty sixth', 'twenty seventh', 'twenty eighth', 'twenty ninth', 'thirtieth', 'thirty first']


def suffix(d):
    return 'th' if 11 <= d <= 13 else {1: 'st', 2: 'nd', 3: 'rd'}.get(d % 10, 'th')


DAYFORMS = ['n', 'n', 'nn', 'sfx', 'word', 'hyph']


def day_text(d, form):
    if form == 'n' or not 1 <= d <= 31:
        return str(d)
    if form == 'nn':
        return '%02d' % d
    if form == 'sfx':
        return str(d) + suffix(d)
    w = ORD[d - 1]
    return w.replace(' ', '-') if form == 'hyph' else w


class C15(PhraseProp):
    id, parser, tag = 'C15', 'mme', 'mme'
    rule = ('month x day form (number, two digits, suffix, ordinal word, hyphenated) x optional second day x optional year and era x weekday prefix '
            'x separators x reference x context; enumerated: every month x day x form with and without year, every pair of day forms as a range. '
            'Non-trivial: every case; classes by form, range, year and validity')
    posts = ['', '!', ',', ' please', ' we will review', ', bob', '. hello', ';', ')', '"', ' amber', ' pmq', ' ambassador bob', ' android', ' beyond', ' tomato', ' stand', ' thunder']
    quick, thorough = 2000, 12000
    ref_range = (1401, 9998)

    def case(self, **k):
        c = {'on': '', 'wd': '', 'm': 'jan', 's1': ' ', 'd': 1, 'f': 'n', 'd2': None, 'to': '', 'f2': 'n', 's2': '', 'y': None, 'era': '', 'ref': REFS[0]}
        c.update(k)
        return c

    def enum(self, tier):
        k = 0
        for m in range(1, 13):
            for d in range(1, 32):
                for f in ('n', 'nn', 'sfx', 'word', 'hyph'):
                    k += 1
                    yield self.case(m=MNAMES[m - 1][k % len(MNAMES[m - 1])], d=d, f=f, s2=(', ', ' ', '/', '-')[k % 4], y=(2019, 2020, 2021, 1900, 2000)[k % 5], ref=REFS[k % len(REFS)])
                    if (m, d) != (2, 29):
                        yield self.case(m=MNAMES[m - 1][k % len(MNAMES[m - 1])], d=d, f=f, ref=REFS[(k + 3) % len(REFS)])
        for m in range(1, 13):                  # the number is that of a clock time
            for n in MNAMES[m - 1]:
                for d in range(1, 25):
                    k += 1
                    yield self.case(m=n, d=d, f=('n', 'nn')[k // 3 % 2], clock=(':30', ':00', ':15:20', ':05pm')[k % 4])
                    if d <= 12:
                        yield self.case(m=n, d=d, clock=(' am', 'pm', ' pm', 'am', '  pm')[k % 5])
        for d in (0, 32, 40, 99):
            for m in range(1, 13):
                yield self.case(m=MNAMES[m - 1][0], d=d, y=2019, s2=', ')
                yield self.case(m=MNAMES[m - 1][0], d=d)
        for d in range(1, 31):                  # ranges in all forms
            for d2 in (d, d + 1, 31) if d < 30 else (d, 31):
                for f in ('n', 'nn', 'sfx', 'word', 'hyph'):
                    for f2 in ('n', 'nn', 'sfx', 'word', 'hyph'):
                        k += 1
                        yield self.case(m=MNAMES[k % 12][0], d=d, f=f, d2=d2, f2=f2, to=(' to ', ' - ', '-', 'to ')[k % 3], y=(None, 2020, 2021)[k % 3], s2=(', ', ' ')[k % 2])
        for n in sorted(MVAL):
            for wd in [''] + sorted(WD):
                k += 1
                yield self.case(m=n, d=1 + k % 28, wd=wd, ws=(' ', ', ', ',')[k % 3], on=('', 'on ')[k % 2], y=(None, 2018)[k % 2], s2=', ', ref=REFS[k % len(REFS)])
            for s1 in (' ', '-', '/', ', ', ' , ', ''):
                k += 1
                yield self.case(m=n, d=1 + k % 28, s1=s1, y=2022, s2=' ')
        for o in range(cal.ordinal(2018, 12, 25), cal.ordinal(2021, 1, 10), 3 if tier == 'quick' else 1):
            for md in ((1, 1), (6, 30), (7, 2), (12, 31), (3, 1), (2, 28), (10, 15)):
                yield self.case(m=MNAMES[md[0] - 1][0], d=md[1], ref=cal.from_ordinal(o) + (7, 8, 9))
        for y in range(1390, 10000, 37 if tier == 'quick' else 3):
            for era in ('', ' ad', ' be', ' bc'):
                k += 1
                yield self.case(m=MNAMES[k % 12][1], d=1 + k % 28, y=y, era=era, s2=', ')
            yield self.case(m='feb', d=29, y=y, s2=', ')
        for y in (1, 2, 5, 19, 99, 100, 543, 999):
            for era in (' ad', ' bc', 'BC', 'ad'):
                yield self.case(m='mar', d=15, y=y, era=era, s2=', ')
                yield self.case(m='mar', d=15, y=y, y4=1, era=era, s2=', ')

    def meaning(self):
        @st.composite
        def s(draw):
            c = self.case()
            c['m'] = draw(st.sampled_from(sorted(MVAL)))
            c['d'] = draw(st.one_of(st.integers(1, 31), st.integers(1, 31), st.sampled_from([28, 29, 30, 31, 0, 32, 99])))
            c['f'] = draw(st.sampled_from(DAYFORMS))
            if draw(st.booleans()):
                c['wd'] = draw(st.sampled_from(sorted(WD)))
                c['ws'] = draw(st.sampled_from([' ', ', ', ',', ' , ']))
            c['on'] = draw(st.sampled_from(['', '', 'on ', 'on  ']))
            c['s1'] = draw(st.sampled_from([' ', ' ', '-', '/', ', ', ' ,', '  ']))
            if 0 < c['d'] <= 31 and draw(st.integers(0, 2)) == 0:
                c['d2'] = draw(st.integers(c['d'], 31))
                c['f2'] = draw(st.sampled_from(DAYFORMS))
                c['to'] = draw(st.sampled_from([' to ', ' - ', '-', ' to  ', ' -']))
            if draw(st.booleans()):
                c['y'] = draw(st.one_of(st.integers(1000, 9999), st.integers(1990, 2030), st.integers(1398, 1402)))
                c['s2'] = draw(st.sampled_from([', ', ' ', '/', '-', ' , ', ',']))
                c['era'] = draw(st.sampled_from(ERAS))
            return c
        return s()

    def phrase(self, c):
        s = c['on'] + (c['wd'] + c.get('ws', ' ') if c['wd'] else '') + c['m'] + c['s1'] + day_text(c['d'], c['f'])
        if c['d2'] is not None:
            s += c['to'] + day_text(c['d2'], c['f2'])
        if c['y'] is not None:
            s += c['s2'] + ('%04d' if c.get('y4') else '%d') % c['y'] + c['era']
        return s + c.get('clock', '')

    def expect(self, c, ref):
        m, d = MVAL[c['m']], c['d']
        wd = WD[c['wd']] if c['wd'] else None
        if not 1 <= d <= 31 or c.get('clock'):
            return [None]
        if c['y'] is not None:
            y = era_year(c['y'], c['era'])
            ys = [y]
        else:
            if (m, d) == (2, 29):
                return 'any'
            if not cal.valid(2020, m, d):
                return [None]
            ys = closest_years(ref, m, d)
        out = []
        for y in ys:
            if y is None or not cal.valid(y, m, d) or (c['d2'] is not None and not cal.valid(y, m, c['d2'])):
                out.append(None)
                continue
            cert = '111' + ('1' if c['wd'] else '0') + '0000'
            if c['d2'] is None:
                out.append((exp8((y, m, d, 0, 0, 0), wd), cert, None, None))
            else:
                out.append((exp8((y, m, d, 0, 0, 0), wd), cert, exp8((y, m, c['d2'], 23, 59, 0), wd), cert[:4] + '11?0'))
        return out

    def run(self, drvs, c):
        ref = tuple(c['ref'])
        ph = self.text_of(c)
        pre, post = c.get('pre', ''), c.get('post', '')
        text = recase(pre + ph + post, c.get('case', 0))
        exps = self.expect(c, ref)
        resp = drvs['plain'].parse(self.parser, ref, text)
        if exps == 'any':
            return ''
        err = None
        for exp in exps:
            try:
                if exp is None:
                    check_one(resp, text, 0, 0, None, None)
                else:
                    lead = len(re.match(r'on[ \t\r\n]*', ph).group()) if c['on'] and not c['wd'] and resp['r'] and resp['r'][0]['i'] != blen(pre) else 0   # a bare "on" may stay out
                    check_one(resp, text, blen(pre) + lead, blen(ph) - lead, exp[0], exp[1], exp[2], exp[3], self.tag)
                err = None
                break
            except Fail as e:
                err = err or Fail('[mme at %s] %s' % (cal.render(ref), e))
        if err:
            raise err
        return '%s%s%s%s%s' % ('none ' if exps[0] is None else '', c['f'], ' range ' + c['f2'] if c['d2'] is not None else '',
                               ' year' + c['era'].strip().lower() if c['y'] is not None else '', ' weekday' if c['wd'] else '')


# ------------------------------------------------------------------------ C16
def fixed(m, d):
    return lambda y: (y, m, d)


HOL = {
    "new year's": (fixed(1, 1), False), "new year's eve": (fixed(12, 31), False), 'independence': (fixed(7, 4), False),
    'veterans': (fixed(11, 11), False), "veteran's": (fixed(11, 11), False), 'christmas': (fixed(12, 25), False),
    'christmas eve': (fixed(12, 24), False), 'mlk': (lambda y: cal.nth_weekday(y, 1, 1, 3), True),
    'martin luther king jr': (lambda y: cal.nth_weekday(y, 1, 1, 3), True), 'martin luther king junior': (lambda y: cal.nth_weekday(y, 1, 1, 3), True),
    'martin luther king jnr': (lambda y: cal.nth_weekday(y, 1, 1, 3), True), "president's": (lambda y: cal.nth_weekday(y, 2, 1, 3), True),
    'memorial': (lambda y: cal.last_weekday(y, 5, 1), True), 'labor': (lambda y: cal.nth_weekday(y, 9, 1, 1), True),
    'columbus': (lambda y: cal.nth_weekday(y, 10, 1, 2), True), 'thanksgiving': (lambda y: cal.nth_weekday(y, 11, 4, 4), True),
    'black friday': (lambda y: cal.add_days(cal.nth_weekday(y, 11, 4, 4), 1), True),
}


class C16(PhraseProp):
    id, parser, tag = 'C16', 'hol', 'hol'
    rule = 'holiday spelling x "day" x reference x context; enumerated: every spelling x every year (every 5th on the quick tier outside 1990-2060). Non-trivial: every case'

    def enum(self, tier):
        for h in sorted(HOL):
            for y in range(1400, 10000):
                if tier != 'quick' or 1990 <= y <= 2060 or y % 5 == 0:
                    k = y * 7 + len(h)
                    m = 1 + k % 12
                    yield {'h': h, 'day': ('', ' day', '  day', 'day')[y % 4 if h[-1] != 's' or y % 4 != 3 else 1], 'ref': (y, m, 1 + k % cal.mdays(y, m), k % 24, k % 60, 7)}
            for r in REFS + EDGE_REFS:
                for d in ('', ' day'):
                    for g in (' ', '', '  ', '\t', ' \n ') if ' ' in h else (' ',):
                        yield {'h': h, 'day': d, 'g': g, 'ref': r}

    def meaning(self):
        return st.fixed_dictionaries({'h': st.sampled_from(sorted(HOL)), 'day': st.sampled_from(['', ' day', '  day']), 'g': st.sampled_from([' ', ' ', ' ', '', '  ', '\n'])})

    def phrase(self, c):
        return c['h'].replace(' ', c.get('g', ' ')) + c['day']

    def expect(self, c, ref):
        f, moving = HOL[c['h']]
        d = f(ref[0])
        return (exp8(d + (0, 0, 0), cal.weekday(*d) if moving else None), '111%d1100' % (1 if moving else 0) if moving else '111?1100', None, None)

    def cls(self, c, e):
        return c['h']


# ------------------------------------------------------------------------ C17
class C17(PhraseProp):
    id, parser, tag = 'C17', 'iso', 'iso'
    rule = ('year-month-day[Thh:mm[:ss[.f]]][Z|+hh[:]mm] with fields in and out of range, one or two digits; enumerated: all month/day pairs, all minutes '
            'of a day, all zone offsets. Non-trivial: every case; classes by form and validity')
    posts = ['', '!', ',', ' please', ' we will review', ', bob', ';', ')', '"', '\n']

    def case(self, **k):
        c = {'d': ['2019', '03', '15'], 't': None, 's': None, 'fr': None, 'z': '', 'ref': REFS[0]}
        c.update(k)
        return c

    def enum(self, tier):
        k = 0
        for y in ('1400', '1900', '2000', '2019', '2020', '9999', '1399', '0000', '1000'):
            for m in range(0, 15):
                for d in range(0, 34):
                    k += 1
                    yield self.case(d=[y, ('%d' if k % 2 else '%02d') % m, ('%d' if k % 3 else '%02d') % d], ref=REFS[k % len(REFS)])
        for h in range(0, 30):
            for mi in range(0, 64):
                if h == 24 and mi == 0:
                    continue
                k += 1
                yield self.case(t=['%02d' % h, '%02d' % mi], z=('', 'Z', '+01:00', '-0530', '+09')[k % 5])
                if h < 10 or mi < 10:
                    yield self.case(t=['%d' % h, '%d' % mi], s='%d' % (k % 60), z=('', 'Z', '-01:00', '+0530', '-09')[k % 5])
        for s in range(0, 64):
            for fr in (None, '1', '123', '9999'):
                yield self.case(t=['23', '59'], s='%02d' % s, fr=fr)
        for sign in '+-':
            for h in range(0, 25):
                for m in [None] + list(range(0, 60, 1 if tier != 'quick' else 5)) + [1, 59]:
                    for col in ('', ':'):
                        yield self.case(t=['07', '08'], s='09', z='%s%02d' % (sign, h) + ('' if m is None else '%s%02d' % (col, m)))
        for s in range(1, 60):
            yield self.case(t=['24', '00'], s='%02d' % s, z=('', 'Z')[s % 2])
        for o in range(cal.ordinal(2019, 1, 1), cal.ordinal(2021, 1, 1)):
            y, m, d = cal.from_ordinal(o)
            yield self.case(d=[str(y), '%02d' % m, '%02d' % d], t=['%02d' % (o % 24), '%02d' % (o % 60)], z='Z')

    def meaning(self):
        @st.composite
        def s(draw):
            num = lambda v: draw(st.sampled_from(['%d', '%02d', '%02d'])) % v
            y = draw(st.one_of(st.integers(0, 9999), st.integers(1400, 2100), st.sampled_from([1399, 1400, 9999, 2000, 1900])))
            m = draw(st.one_of(st.integers(1, 12), st.integers(1, 12), st.sampled_from([0, 13, 99])))
            d = draw(st.one_of(st.integers(1, 28), st.integers(28, 31), st.sampled_from([0, 32, 99])))
            c = self.case(d=['%04d' % y, num(m), num(d)])
            if draw(st.integers(0, 3)):
                h = draw(st.one_of(st.integers(0, 23), st.integers(0, 23), st.sampled_from([25, 26, 99])))
                mi = draw(st.one_of(st.integers(0, 59), st.integers(0, 59), st.sampled_from([60, 99])))
                c['t'] = [num(h), num(mi)]
                if draw(st.booleans()):
                    c['s'] = num(draw(st.one_of(st.integers(0, 59), st.integers(0, 59), st.sampled_from([60, 99]))))
                    if draw(st.integers(0, 2)) == 0:
                        c['fr'] = '%d' % draw(st.integers(0, 9999))
                z = draw(st.integers(0, 4))
                if z == 1:
                    c['z'] = 'z'
                elif z > 1:
                    c['z'] = draw(st.sampled_from('+-')) + '%02d' % draw(st.integers(0, 14))
                    if z > 2:
                        c['z'] += draw(st.sampled_from(['', ':'])) + '%02d' % draw(st.integers(0, 59))
            return c
        return s()

    def phrase(self, c):
        s = '-'.join(c['d'])
        if c['t']:
            s += 'T' + ':'.join(c['t']) + (':' + c['s'] if c['s'] else '') + ('.' + c['fr'] if c['fr'] else '') + c['z']
        return s

    def expect(self, c, ref):
        y, m, d = map(int, c['d'])
        if not cal.valid(y, m, d):
            return None
        if not c['t']:
            return exp8((y, m, d, 0, 0, 0), None, 0), '11100000', None, None
        h, mi = map(int, c['t'])
        s = int(c['s']) if c['s'] else 0
        if h > 23 or mi > 59 or s > 59:
            return None
        z, zone = c['z'].lower(), 0
        if z and z != 'z':
            n = z[1:].replace(':', '')
            zone = (int(n[:2]) * 60 + int(n[2:] or 0)) * (-1 if z[0] == '-' else 1)
        return exp8((y, m, d, h, mi, s), None, zone), '11101%s%s1' % ('1', '1' if c['s'] else '0'), None, None

    def cls(self, c, e):
        return 'date' + (' time' if c['t'] else '') + (' sec' if c['s'] else '') + (' frac' if c['fr'] else '') + (' zone' + c['z'][:1] + str(len(c['z'])) if c['z'] else '')


# ------------------------------------------------------------------------ C18
AM = ['am', 'a.m.', 'a.m', 'a', 'AM']
PM = ['pm', 'p.m.', 'p.m', 'p', 'PM']


class Clock:
    """a written clock time: form, hour, minute, second, meridiem spelling"""


def clock_text(t):
    """t = {'f': form, 'h':, 'm':, 's':, 'mer':, 'gap':}"""
    f = t['f']
    if f in ('noon', 'midnight'):
        return f
    if f == 'hhmm':
        s = '%02d%02d' % (t['h'], t['m'])
    elif f == 'hmm':
        s = '%d%02d' % (t['h'], t['m'])
    elif f == 'h':
        s = '%d' % t['h']
    elif f == 'hms':
        s = '%d:%02d:%02d' % (t['h'], t['m'], t['s'])
    elif f == 'hhms':
        s = '%02d:%02d:%02d' % (t['h'], t['m'], t['s'])
    elif f == 'h.m':
        s = '%d.%02d' % (t['h'], t['m'])
    elif f == 'hh:m':
        s = '%02d:%02d' % (t['h'], t['m'])
    else:
        s = '%d:%02d' % (t['h'], t['m'])
    if t.get('fr') and f in ('hms', 'hhms'):
        s += '.' + t['fr']
    if t.get('wide'):
        s = s.replace(':', '\uff1a')
    if t.get('mer'):
        s += t.get('gap', '') + t['mer']
    return s


def clock_value(t):
    """(h, m, s, bad)"""
    f = t['f']
    if f == 'noon':
        return 12, 0, 0, False
    if f == 'midnight':
        return 0, 0, 0, False
    h, m, s = t['h'], t.get('m', 0) if f != 'h' else 0, t.get('s', 0) if f in ('hms', 'hhms') else 0
    bad = m > 59 or s > 59 or h > 24 or (h == 24 and (m or s)) != 0
    mer = t.get('mer', '').lower()[:1]
    if mer and h > 12:
        bad = True
    if mer == 'a' and h == 12:
        h = 0
    if mer == 'p' and h < 12:
        h += 12
    return h, m, s, bad


class C18(PhraseProp):
    id, parser, tag, loose_lead = 'C18', 'txp', 'txp', True
    rule = ('clock time in 10 notations x meridiem spelling, or two of them as a range, x at/from x reference x context; enumerated: all 1,440 minutes in '
            'each notation, all hours x meridiems, invalid fields, and a grid of ranges. Non-trivial: every case; classes by notation, range and validity')
    pre = st.one_of(st.just(''), gen.prefix(seps=[' ', '  ', '\t', '\n', ', ', '. ']))
    posts = ['', '!', ',', ' please', ' we will review', ', bob', ';', ')', '"', '\n']

    def enum(self, tier):
        k = 0
        for h in range(24):
            for m in range(60):
                for f in ('h:m', 'hh:m', 'h.m', 'hhmm', 'hmm'):
                    k += 1
                    yield {'a': {'f': f, 'h': h, 'm': m}, 'lead': ('', 'at ', 'from ')[k % 3], 'ref': REFS[k % len(REFS)]}
                if h and h <= 12:
                    for mer in (AM + PM):
                        k += 1
                        yield {'a': {'f': ('h:m', 'hh:m', 'hmm', 'hhmm')[k // 7 % 4], 'h': h, 'm': m, 'mer': mer, 'gap': ('', ' ', '  ')[k % 3]}, 'lead': ('', 'at ')[k % 2], 'ref': REFS[k % len(REFS)]}
                for s in ((0, 30, 59) if tier == 'quick' else range(60)):
                    k += 1
                    yield {'a': {'f': ('hms', 'hhms')[k % 2], 'h': h, 'm': m, 's': s}, 'lead': '', 'ref': REFS[k % len(REFS)]}
        for h in range(1, 13):
            for mer in AM + PM + ["o'clock", 'oclock', 'o clock']:
                for gap in ('', ' '):
                    for lead in ('', 'at ', 'from '):
                        for r in REFS[:6]:
                            yield {'a': {'f': 'h', 'h': h, 'mer': mer, 'gap': gap if mer[0] != 'o' else ' '}, 'lead': lead, 'ref': r}
        for r in REFS + EDGE_REFS:
            for f in ('noon', 'midnight'):
                for lead in ('', 'at ', 'from '):
                    yield {'a': {'f': f}, 'lead': lead, 'ref': r}
        for h in range(0, 100):                                     # rejected fields
            for m in (0, 59, 60, 75, 99):
                if (h == 24 and m == 0) or (h < 24 and m < 60):
                    continue
                k += 1
                yield {'a': {'f': ('h:m', 'h.m', 'hhmm', 'hmm')[k % 4], 'h': h, 'm': m}, 'lead': '', 'ref': REFS[0]}
                yield {'a': {'f': 'hms', 'h': h, 'm': m, 's': 30}, 'lead': '', 'ref': REFS[0]}
            if h > 12:
                for mer in ('am', 'p.m'):
                    yield {'a': {'f': 'h', 'h': h, 'mer': mer, 'gap': ' '}, 'lead': 'at ', 'ref': REFS[0]}
                    yield {'a': {'f': 'h:m', 'h': h, 'm': 10, 'mer': mer, 'gap': ''}, 'lead': '', 'ref': REFS[0]}
        for s in range(60, 100):
            yield {'a': {'f': 'hms', 'h': 10, 'm': 10, 's': s}, 'lead': '', 'ref': REFS[0]}
        joins = [' - ', '-', ' to ', ' \u301c ', ' ~ ', ' \u2013 ', '~']
        for h in (0, 9, 11, 12, 13, 23):                              # ranges to a time that does not exist
            for b in ([{'f': 'h:m', 'h': x, 'm': y} for x in (25, 26, 30, 47, 99) for y in (0, 30)] + [{'f': 'h:m', 'h': x, 'm': y} for x in (0, 9, 12, 23) for y in (60, 75, 99)] +
                      [{'f': 'hms', 'h': x, 'm': 10, 's': y} for x in (9, 23) for y in (60, 99)] + [{'f': 'h', 'h': x, 'mer': m, 'gap': ''} for x in (13, 14, 23, 24, 60) for m in ('am', 'pm')] +
                      [{'f': 'h:m', 'h': x, 'm': 20, 'mer': m, 'gap': ' '} for x in (13, 23) for m in ('a.m.', 'pm')]):
                k += 1
                yield {'a': {'f': ('h:m', 'hh:m')[k % 2], 'h': h, 'm': 5 * (k % 7)}, 'b': b, 'j': joins[k % len(joins)], 'lead': ('', 'from ')[k % 2], 'ref': REFS[k % len(REFS)]}
                if 0 < h <= 12:
                    yield {'a': {'f': 'h', 'h': h, 'mer': ('am', 'pm')[k % 2], 'gap': ''}, 'b': b, 'j': joins[k % len(joins)], 'lead': ('', 'from ')[k % 2], 'ref': REFS[k % len(REFS)]}
        for h in range(24):
            for h2 in range(24):
                for m, m2 in ((0, 0), (30, 0), (15, 45)):
                    k += 1
                    c = {'a': {'f': ('h:m', 'hh:m', 'hhmm', 'hmm')[k * 7 // 5 % 4], 'h': h, 'm': m}, 'b': {'f': ('h:m', 'hhmm', 'h:m', 'hmm')[k // 3 % 4], 'h': h2, 'm': m2}, 'j': joins[k % len(joins)], 'lead': ('', 'from ')[k % 2], 'ref': REFS[k % len(REFS)]}
                    if not self.range_ok(c):
                        c['j'] = ' to '
                    yield c
        for h in range(1, 13):
            for h2 in range(1, 13):
                for ma in ('am', 'pm', 'a.m.', 'p.m', ''):
                    for mb in ('am', 'pm', 'p.m.', ''):
                        c = {'a': {'f': ('h', 'h:m')[(h + h2) % 2], 'h': h, 'm': 20, 'mer': ma, 'gap': ''}, 'b': {'f': ('h', 'h:m')[h2 % 2], 'h': h2, 'm': 40, 'mer': mb, 'gap': ' '},
                             'j': joins[(h + h2) % len(joins)], 'lead': ('', 'from ')[h % 2], 'ref': REFS[(h * h2) % len(REFS)]}
                        if self.range_ok(c):
                            yield c
        for x in range(60):                                            # full-width colons
            k += 1
            yield {'a': {'f': ('h:m', 'hh:m')[k % 2], 'h': (x * 7) % 24, 'm': x, 'wide': 1}, 'lead': ('', 'at ')[x % 2], 'ref': REFS[k % len(REFS)]}
            yield {'a': {'f': 'hms', 'h': (x * 5) % 24, 'm': 59 - x, 's': x, 'wide': 1}, 'lead': '', 'ref': REFS[k % len(REFS)]}
            yield {'a': {'f': 'hms', 'h': 9, 'm': x, 's': 7, 'wide': x % 2}, 'b': {'f': ('hms', 'h:m')[x // 2 % 2], 'h': 17, 'm': x, 's': 59 - x, 'wide': x % 3}, 'j': joins[k % len(joins)], 'lead': '',
                   'ref': REFS[k % len(REFS)]}
            yield {'a': {'f': 'h:m', 'h': x % 12 + 1, 'm': x, 'mer': (AM + PM)[x % len(AM + PM)], 'gap': ('', ' ')[x % 2], 'wide': 1}, 'lead': '', 'ref': REFS[k % len(REFS)]}
        for n in range(1, 7):                                          # fractions of a second, which change nothing
            for x in ('0', '5', '123456', '999999', '000001'):
                fr = x[:n].ljust(n, '5')
                for h, mer in ((9, ''), (17, ''), (9, 'pm'), (12, 'a.m.')):
                    k += 1
                    a = {'f': ('hms', 'hhms')[k % 2], 'h': h, 'm': 7, 's': k % 60, 'fr': fr, 'mer': mer, 'gap': ('', ' ')[k // 2 % 2]}
                    yield {'a': a, 'lead': ('', 'at ')[k % 2], 'ref': REFS[k % len(REFS)]}
                    if not mer:
                        yield {'a': a, 'b': {'f': 'hms', 'h': 23, 'm': n, 's': 5, 'fr': fr[::-1]}, 'j': joins[k % len(joins)], 'lead': '', 'ref': REFS[k % len(REFS)]}
                        yield {'a': {'f': 'h:m', 'h': h, 'm': n}, 'b': {'f': 'hms', 'h': 3, 'm': n, 's': 59, 'fr': fr}, 'j': joins[k % len(joins)], 'lead': '', 'ref': REFS[k % len(REFS)]}
        for x in range(62):                                            # seconds and minutes of both ends
            for h, h2 in ((9, 17), (0, 23), (23, 0), (12, 12), (7, 7)):
                k += 1
                yield {'a': {'f': ('hms', 'hhms')[k % 2], 'h': h, 'm': 7, 's': 11}, 'b': {'f': ('hms', 'hhms')[k // 2 % 2], 'h': h2, 'm': 50, 's': x}, 'j': joins[k % len(joins)], 'lead': ('', 'from ')[k % 2],
                       'ref': REFS[k % len(REFS)]}
                yield {'a': {'f': 'hms', 'h': h, 'm': 7, 's': min(x, 59)}, 'b': {'f': 'h:m', 'h': h2, 'm': 50}, 'j': joins[k % len(joins)], 'lead': ('', 'from ')[k % 2], 'ref': REFS[k % len(REFS)]}
                yield {'a': {'f': 'h:m', 'h': h, 'm': min(x, 59)}, 'b': {'f': ('h:m', 'h.m')[k % 2], 'h': h2, 'm': x}, 'j': joins[k % len(joins)], 'lead': ('', 'from ')[k % 2], 'ref': REFS[k % len(REFS)]}
        for r in REFS + EDGE_REFS:
            yield {'a': {'f': 'h', 'h': 9, 'mer': 'pm', 'gap': ''}, 'b': {'f': 'h', 'h': 1, 'mer': 'am', 'gap': ''}, 'j': ' to ', 'lead': 'from ', 'ref': r}

    def badend(self, c):
        return 'b' in c and clock_value(c['b'])[3]

    @staticmethod
    def range_ok(c):
        """combinations whose reading is settled by the property"""
        a, b = c['a'], c['b']
        ma, mb = a.get('mer', '')[:1].lower(), b.get('mer', '')[:1].lower()
        if 'o' in (ma, mb):
            return False
        if b['f'] in ('hhmm', 'hmm') and not mb and '-' in c['j']:
            return False                                  # reads like a zone: 10:00-0500
        if a['f'] == 'h' and not ma and not mb:
            return False                                  # two bare numbers
        if ma == 'a' and not mb:
            return 1 <= b['h'] <= 11 and clock_value(b)[:2] > clock_value(a)[:2] or b['h'] > 12
        if mb == 'a' and not ma:
            return 1 <= a.get('h', 0) <= 11
        if mb == 'p' and not ma:
            return a['f'] in ('noon', 'midnight') or (1 <= a['h'] <= 11 and a['h'] < b['h'] % 12 + (12 if b['h'] == 12 else 0)) or a['h'] > 12 or a['h'] == 0
        return True

    def meaning(self):
        @st.composite
        def t(draw, to=False):
            f = draw(st.sampled_from(['h:m', 'hh:m', 'h.m', 'hhmm', 'hmm', 'hms', 'hhms', 'h:m', 'h', 'h', 'mer', 'mer'] + ([] if to else ['noon', 'midnight'])))
            if f in ('noon', 'midnight'):
                return {'f': f}
            if f in ('h', 'mer'):
                mer = draw(st.sampled_from(AM + PM + ([] if to else ["o'clock"])))
                h = draw(st.one_of(st.integers(1, 12), st.integers(1, 12), st.integers(1, 12), st.sampled_from([13, 14, 23])))
                if f == 'mer' and mer[0] != 'o':
                    return {'f': draw(st.sampled_from(['h:m', 'h.m', 'hms', 'hmm', 'hhmm'])), 'h': h, 'm': draw(st.integers(0, 59)), 's': draw(st.integers(0, 59)), 'mer': mer, 'gap': draw(st.sampled_from(['', ' ', '  ']))}
                return {'f': 'h', 'h': h, 'mer': mer, 'gap': ' ' if mer[0] == 'o' else draw(st.sampled_from(['', ' ', '  ']))}
            fr = {'fr': draw(st.integers(0, 999999).map(lambda n: str(n)[:1 + n % 6]))} if f in ('hms', 'hhms') and draw(st.booleans()) else {}
            return {**fr, 'f': f, 'h': draw(st.one_of(st.integers(0, 23), st.integers(0, 23), st.integers(0, 23), st.sampled_from([25, 33]))),
                    'm': draw(st.one_of(st.integers(0, 59), st.integers(0, 59), st.integers(0, 59), st.sampled_from([60, 99]))), 's': draw(st.one_of(st.integers(0, 59), st.integers(0, 59), st.just(60)))}

        @st.composite
        def s(draw):
            c = {'a': draw(t()), 'lead': draw(st.sampled_from(['', '', 'at ', 'from ', 'from  ']))}
            if draw(st.booleans()):
                b = draw(t(to=True))
                c2 = dict(c, b=b, j=draw(st.sampled_from([' - ', '-', ' to ', '  to ', ' ~ ', ' \u2013 ', ' to  ', ' \u301c ', '\u301c', '~'])))
                if not clock_value(c['a'])[3] and (clock_value(b)[3] or self.range_ok(c2)):
                    c = c2
            return c
        return s()

    def phrase(self, c):
        s = c['lead'] + clock_text(c['a'])
        if 'b' in c:
            s += c['j'] + clock_text(c['b'])
        return s

    def expect(self, c, ref):
        a = c['a']
        h, m, s, bad = clock_value(a)
        if bad:
            return None
        if self.badend(c):
            return 'any'
        day = ref[:3]
        sec = '1' if a['f'] in ('hms', 'hhms') else '0'
        cert = '000011' + sec + '0'
        if 'b' not in c:
            return exp8(day + (h, m, s)), cert, None, None
        b = c['b']
        h2, m2, s2, _ = clock_value(b)
        ma, mb = a.get('mer', '')[:1].lower(), b.get('mer', '')[:1].lower()
        if mb == 'p' and not ma and 1 <= h < 12 and a['f'] not in ('noon', 'midnight'):
            h += 12
        if ma == 'p' and not mb and 1 <= h2 < 12:
            h2 += 12
        eday = day
        if (h2, m2, s2) < (h, m, s):
            eday = cal.add_days(day, 1)
            if eday is None:
                return None
        return exp8(day + (h, m, s)), cert, exp8(eday + (h2, m2, s2)), '000011' + ('1' if b['f'] in ('hms', 'hhms') else '0') + '0'

    def run(self, drvs, c):
        if not self.badend(c):
            return super().run(drvs, c)
        # the start may be reported on its own, the end not at all
        ref, text = tuple(c['ref']), recase(c.get('pre', '') + self.text_of(c) + c.get('post', ''), c.get('case', 0))
        h, m, s, _ = clock_value(c['a'])
        for r in drvs['plain'].parse('txp', ref, text)['r']:
            if r['e'] is not None:
                raise Fail('%r at %s: a range to a time that does not exist: %s' % (text, cal.render(ref), describe(r)))
            if r['i'] <= blen(c.get('pre', '')) + 5:
                want = ref[:3] + (h, m, s)
                v = r['s'][0]
                if (v[0], v[1], v[2], v[4], v[5], v[6]) != want:
                    raise Fail('%r at %s: %s instead of %s' % (text, cal.render(ref), describe(r), cal.render(want)))
        return 'range to no time'

    def cls(self, c, e):
        a = c['a']
        s = a['f'] + ('/' + a['mer'][0].lower() if a.get('mer') else '')
        if 'b' in c:
            s += ' - ' + c['b']['f'] + ('/' + c['b']['mer'][0].lower() if c['b'].get('mer') else '')
            if e and e[2][:3] != e[0][:3]:
                s += ' next day'
        return s
