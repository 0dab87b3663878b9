"""C19 - C24 and C26: components, results, refiners and helpers against reference models."""
import copy, re
from hypothesis import strategies as st
from . import cal, dates, gen, pool
from .core import Prop, Fail, refs, hx
from .gen import REFS, describe

F = 8
VALS = {0: (1400, 9999), 1: (1, 12), 2: (1, 28), 3: (0, 6), 4: (0, 23), 5: (0, 59), 6: (0, 59), 7: (-720, 840)}


class Comp:
    """reference model of date components"""

    def __init__(self):
        self.k, self.m = {}, {}

    def set(self, f, v):
        self.k[f] = v

    def imply(self, f, v):
        if f not in self.k:
            self.m[f] = v

    def get(self, f):
        return self.k[f] if f in self.k else self.m.get(f, 0)

    def vals(self):
        return [self.get(f) for f in range(F)]

    def cert(self):
        return ''.join('1' if f in self.k else '0' for f in range(F))

    def json(self):
        return [self.vals(), self.cert()]

    def date(self):
        """date-time of the components, or None"""
        v = self.vals()
        if not cal.valid(v[0], v[1], v[2]):
            return None
        return cal.add_secs((v[0], v[1], v[2], 0, 0, 0), v[4] * 3600 + v[5] * 60 + v[6])

    def copy(self):
        c = Comp()
        c.k, c.m = dict(self.k), dict(self.m)
        return c


NAMES = ['year', 'month', 'mday', 'wday', 'hour', 'min', 'sec', 'tzoffset']
UNKNOWN = ['', 'day', 'Year', 'years', 'minute', 'seconds', 'dls', 'zone', 'mda', 'hours', ' hour', 'yea', 'weekday', 'tz', 'MONTH', 'secs', 'e', 'isdst']


# ------------------------------------------------------------------------ C19
class C19(Prop):
    id = 'C19'
    rule = ('histories of 1-40 operations (set, imply, imply unknown name, read, ask certainty, copy by assignment and by construction, reset, date) on three '
            'component sets, all of them read at the end; enumerated: every pair of operations on every pair of components. Non-trivial: something was set or implied and read; '
            'classes by the kinds of operations that took part')
    quick, thorough = 5000, 40000

    def enum(self, tier):
        for f in range(F):
            for g in range(F):
                lo, hi = VALS[f]
                for a in ('s', 'i'):
                    for b in ('s', 'i'):
                        for v, w in ((hi, VALS[g][0]), (lo, VALS[g][1]), (0, 0), (-5, 7)):
                            yield {'ops': [[a, 0, f, v], [b, 0, g, w]]}
                            yield {'ops': [[a, 0, f, v], ['=', 1, 0], [b, 0, g, w]]}
                            yield {'ops': [[a, 0, f, v], ['y', 1, 0], [b, 1, g, w]]}
                            yield {'ops': [[a, 0, f, v], [b, 0, g, w], [a, 0, f, w]]}
            for u in UNKNOWN:
                yield {'ops': [['i', 0, f, 3], ['I', 0, u, 9], ['C', 0, u]]}
        for o in range(cal.ordinal(1999, 12, 1), cal.ordinal(2004, 3, 2), 1 if tier != 'quick' else 3):
            y, m, d = cal.from_ordinal(o)
            yield {'ops': [['s' if o % 2 else 'i', 0, 0, y], ['s', 0, 1, m], ['s' if o % 3 else 'i', 0, 2, d], ['s', 0, 4, o % 24], ['i', 0, 5, o % 60], ['s', 0, 6, o % 59], ['d', 0]]}

        # every choice of known and implied components makes up the same date-time
        for m in range(1 << F):
            for v in ((2019, 3, 15, 5, 17, 41, 7, 60), (2020, 2, 29, 6, 23, 59, 59, -300), (1999, 12, 31, 0, 1, 1, 1, 0)):
                ops = [['s' if m >> f & 1 else 'i', 0, f, v[f]] for f in range(F)]
                yield {'ops': ops + [['d', 0]]}
                # the implied values were other ones before the known ones came
                yield {'ops': [['i', 0, f, v[f] - 1 if v[f] > 1 else 2] for f in range(F) if m >> f & 1] + ops + [['=', 1, 0], ['d', 1], ['d', 0]]}
                if m >> 7 & 1:           # or are missing
                    yield {'ops': [o for o in ops if o[2] < 3 or m >> o[2] & 1] + [['d', 0]]}

    def strategy(self, tier):
        slot, f = st.integers(0, 2), st.integers(0, F - 1)

        @st.composite
        def val(draw, g):
            return draw(st.one_of(st.integers(*VALS[g]), st.integers(*VALS[g]), st.sampled_from([0, -1, 1, 31, 2147483647, -2147483648])))

        @st.composite
        def op(draw):
            k = draw(st.sampled_from(['s', 's', 's', 'i', 'i', 'i', 'I', 'g', 'c', 'C', '=', '=', 'y', 'n', 'd', 'a']))
            x = draw(slot)
            if k in 'si':
                g = draw(f)
                return [k, x, g, draw(val(g))]
            if k in 'gc':
                return [k, x, draw(f)]
            if k == 'I':
                return [k, x, draw(st.sampled_from(UNKNOWN)), draw(st.integers(-9, 9))]
            if k == 'C':
                return [k, x, draw(st.sampled_from(UNKNOWN))]
            if k in '=y':
                return [k, x, draw(slot)]
            return [k, x]
        return st.lists(op(), min_size=1, max_size=40).map(lambda o: {'ops': o})

    def run(self, drvs, c):
        s = [Comp() for _ in range(3)]
        line, want = [], []
        kinds = set()
        for o in c['ops']:
            k, x = o[0], o[1]
            if k == 's':
                s[x].set(o[2], o[3])
            elif k == 'i':
                s[x].imply(o[2], o[3])
            elif k == 'g':
                want.append(s[x].get(o[2]))
            elif k == 'c':
                want.append(1 if o[2] in s[x].k else 0)
            elif k == 'C':
                want.append(0)
            elif k in '=y':
                s[x] = s[o[2]].copy()
            elif k == 'n':
                s[x] = Comp()
            elif k == 'd':
                v = s[x].vals()
                if not all(VALS[f][0] <= v[f] <= VALS[f][1] for f in (4, 5, 6)) or not (-9999 <= v[0] <= 20000 and -99 <= v[1] <= 99 and -99 <= v[2] <= 99):
                    continue
                t = s[x].date()
                want.append(None if t is None else '%04d-%02d-%02dT%02d:%02d:%02d' % t)
            elif k == 'a':
                want.append(s[x].json())
            kinds.add(k)
            line.append(':'.join([k] + [hx(a) if isinstance(a, str) else str(a) for a in o[1:]]))
        for x in range(3):
            line.append('a:%d' % x)
            want.append(s[x].json())
        got = drvs['plain'].ask('K ' + ' '.join(line))
        if got != want:
            for i, (g, w) in enumerate(zip(got, want)):
                if g != w:
                    raise Fail('answer %d of the history %s is %s, expected %s' % (i, c['ops'], g, w))
            raise Fail('answers %s, expected %s' % (got, want))
        return ''.join(sorted(kinds)) if kinds & set('si') else ''


# -------------------------------------------------------------------- results
TAGS = ['ctp', 'cdp', 'dfp', 'dow', 'mme', 'tlp', 'mnp', 'tap', 'iso', 'txp', 'hol', 'rel', 'mdr', 'mdt', 'tza']


class Res:
    def __init__(self):
        self.i, self.text, self.t, self.s, self.e, self.end = 0, b'', set(), Comp(), Comp(), False
        self.unsure = False      # end given but never made valid, then copied

    def copy(self):
        r = Res()
        r.i, r.text, r.t, r.s = self.i, self.text, set(self.t), self.s.copy()
        r.end = self.end
        r.e = self.e.copy() if self.end else Comp()
        r.unsure = self.unsure or (not self.end and bool(self.e.k or self.e.m))
        return r

    def render(self):
        out = []
        for comp in [self.s] + ([self.e] if self.end else []):
            t = comp.date()
            if t is not None and 'tza' in self.t:
                t = cal.add_secs(t, -60 * comp.get(7))
            if t is None:
                return None
            out.append(cal.render(t))
        return ' - '.join(out)

    def possible(self):
        v = self.s.vals()
        if not (v[0] or v[1] or v[2] or v[4] or v[5] or v[6] or self.end):
            return 0
        return 1 if self.s.date() is not None and (not self.end or self.e.date() is not None) else 0

    def json(self):
        return {'i': self.i, 'n': len(self.text), 't': sorted(self.t), 'p': self.possible(), 's': self.s.json(), 'e': self.e.json() if self.end else None,
                'd': self.render()}

    @staticmethod
    def norm(j):
        return {k: (sorted(j[k].split()) if k == 't' else j[k]) for k in ('i', 'n', 't', 'p', 's', 'e', 'd')}


def diff(got, want):
    return ', '.join('%s is %s, expected %s' % (k, got[k], want[k]) for k in want if got[k] != want[k])


# ------------------------------------------------------------------------ C20
BIGI = [k + d for k in (127, 255, 256, 999, 1000, 1023, 1024, 4096, 32767, 65535, 65536, 100000, 1 << 20, 1 << 24, 1 << 30) for d in (0, 1)] + [2147483647]


class C20(Prop):
    id = 'C20'
    rule = ('histories of 1-40 operations on three results and a list (build, set/imply start and end, make the end valid, index, text, tag, ask for a tag, emptiness, '
            'copy by assignment and by construction, store in and fetch from the list), all results read at the end. Non-trivial: histories with a change after a copy, or a rendered date')
    quick, thorough = 5000, 40000

    def enum(self, tier):
        for t in range(15):
            for u in range(15):
                yield {'ops': [['N', 0, 5, 'abc'], ['t', 0, t], ['=', 1, 0], ['t', 1, u], ['q', 0, u], ['q', 1, t], ['q', 2, t]]}
        for i in (0, 1, 7, 100000):
            for tx in ('', 'x', 'monday', ' ', 'a' * 300):
                yield {'ops': [['N', 0, i, tx], ['m', 0], ['y', 1, 0], ['X', 0, 3], ['m', 1], ['T', 1, ''], ['m', 1], ['X', 1, 0], ['m', 1]]}
        for i in BIGI:                                   # positions far into a text
            yield {'ops': [['N', 0, i, 'abc'], ['=', 1, 0], ['y', 2, 1]]}
            yield {'ops': [['X', 0, i], ['T', 0, 'a'], ['v', 0], ['X', 0, 3], ['w', 1, 0]]}
        date = [['s', 0, 0, 2019], ['s', 0, 1, 3], ['s', 0, 2, 15]]
        for f in range(F):
            for v in VALS[f]:
                yield {'ops': [['s', 0, f, v]]}
                yield {'ops': date + [['s', 0, f, v], ['es', 0, 0, 2019], ['es', 0, 1, 3], ['es', 0, 2, 16], ['E', 0], ['=', 1, 0], ['es', 0, f, v], ['s', 1, f, v]]}
                yield {'ops': date + [['v', 0], ['s', 0, f, v], ['w', 1, 0], ['i', 1, f, v]]}
        for y, m, d in ((2019, 2, 29), (2020, 2, 29), (1399, 12, 31), (1400, 1, 1), (2019, 4, 31), (2019, 13, 1), (2019, 0, 1), (2019, 1, 0), (9999, 12, 31), (1900, 2, 29)):
            yield {'ops': [['s', 0, 0, y], ['s', 0, 1, m], ['s', 0, 2, d]]}
            yield {'ops': date + [['es', 0, 0, y], ['es', 0, 1, m], ['es', 0, 2, d], ['E', 0]]}
            yield {'ops': date + [['es', 0, 0, y], ['es', 0, 1, m], ['es', 0, 2, d]]}

    def strategy(self, tier):
        slot, f = st.integers(0, 2), st.integers(0, F - 1)

        @st.composite
        def op(draw):
            k = draw(st.sampled_from(['N', 'N', 's', 'i', 'es', 'ei', 'E', 'E', 'X', 'T', 't', 't', 'q', 'm', '=', '=', 'y', 'v', 'v', 'w', 'w', 'a', 'n', 'D', 'D', 'eD']))
            x = draw(slot)
            if k == 'N':
                return [k, x, draw(st.one_of(st.integers(0, 300), st.integers(0, 300), st.sampled_from(BIGI))), draw(st.text('abc 5', max_size=8))]
            if k in ('s', 'i', 'es', 'ei'):
                g = draw(f)
                return [k, x, g, draw(st.integers(*VALS[g]))]
            if k in ('D', 'eD'):
                r = draw(gen.ref())
                return [k, x, list(r)]
            if k == 'X':
                return [k, x, draw(st.one_of(st.integers(0, 300), st.integers(0, 300), st.sampled_from(BIGI)))]
            if k == 'T':
                return [k, x, draw(st.text('abc 5', max_size=8))]
            if k in 'tq':
                return [k, x, draw(st.integers(0, 14))]
            if k in '=y':
                return [k, x, draw(slot)]
            if k == 'w':
                return [k, x, draw(st.integers(0, 5))]
            return [k, x]
        return st.lists(op(), min_size=1, max_size=40).map(lambda o: {'ops': o})

    def run(self, drvs, c):
        s, vec = [Res() for _ in range(3)], []
        line, want = [], []
        copied = changed = False

        def emit(*a):
            line.append(':'.join(map(str, a)))
        for o in c['ops']:
            k, x = o[0], o[1]
            if k == 'n':
                s[x] = Res()
                emit('n', x)
            elif k == 'N':
                s[x] = Res()
                s[x].i, s[x].text = o[2], o[3].encode()
                emit('N', x, o[2], hx(o[3]))
            elif k in ('s', 'i'):
                (s[x].s.set if k == 's' else s[x].s.imply)(o[2], o[3])
                emit(k, x, o[2], o[3])
                changed = changed or copied
            elif k in ('es', 'ei'):
                (s[x].e.set if k == 'es' else s[x].e.imply)(o[2], o[3])
                emit(k, x, o[2], o[3])
                changed = changed or copied
            elif k in ('D', 'eD'):
                comp = s[x].s if k == 'D' else s[x].e
                for fld, v in zip((0, 1, 2, 4, 5, 6), o[2]):
                    comp.set(fld, v)
                    emit('s' if k == 'D' else 'es', x, fld, v)
            elif k == 'E':
                if s[x].unsure:
                    continue
                s[x].end = True
                emit('E', x)
            elif k == 'X':
                s[x].i = o[2]
                emit('X', x, o[2])
                changed = changed or copied
            elif k == 'T':
                s[x].text = o[2].encode()
                emit('T', x, hx(o[2]))
            elif k == 't':
                s[x].t.add(TAGS[o[2]])
                emit('t', x, TAG_POS[o[2]])
                changed = changed or copied
            elif k == 'q':
                want.append(1 if TAGS[o[2]] in s[x].t else 0)
                emit('q', x, TAG_POS[o[2]])
            elif k == 'm':
                want.append(1 if s[x].i == 0 and not s[x].text else 0)
                emit('m', x)
            elif k in '=y':
                s[x] = s[o[2]].copy()
                copied = True
                emit(k, x, o[2])
            elif k == 'v':
                vec.append(s[x].copy())
                copied = True
                emit('v', x)
            elif k == 'w':
                if not vec:
                    continue
                s[x] = vec[o[2] % len(vec)].copy()
                emit('w', x, o[2])
            elif k == 'a':
                want.append(s[x].json())
                emit('a', x)
        for x in range(3):
            emit('a', x)
            want.append(s[x].json())
        for i in range(len(vec)):
            emit('w', 0, i)
            emit('a', 0)
            want.append(vec[i].json())
        got = drvs['plain'].ask('S 2019,3,15,12,30,45 ' + ' '.join(line))
        got = [Res.norm(g) if isinstance(g, dict) else g for g in got]
        if got != want:
            for i, (g, w) in enumerate(zip(got, want)):
                if g != w:
                    raise Fail('answer %d of the history %s: %s' % (i, c['ops'], diff(g, w) if isinstance(g, dict) else '%s, expected %s' % (g, w)))
            raise Fail('answers %s, expected %s' % (got, want))
        nd = sum(1 for w in want if isinstance(w, dict) and w['d'])
        return ('change after copy' if changed else '') + (' rendered' if nd else '')


# order of the driver's tag numbers
DRIVER_TAGS = ['ctp', 'cdp', 'dfp', 'dow', 'mme', 'tlp', 'mnp', 'tap', 'iso', 'txp', 'hol', 'rel', 'mdr', 'mdt', 'tza']
TAG_POS = [DRIVER_TAGS.index(t) for t in TAGS]


# ------------------------------------------------------------- refiner inputs
def spec(i, text, tags, start, end):
    """start, end: list of (k|m, field, value); end None = none"""
    ops = lambda l: ','.join('%s%d=%d' % tuple(o) for o in l) or '-'
    return '%d;%s;%s;%s;%s' % (i, hx(text), ','.join(tags) or '-', ops(start), '!' if end is None else ops(end))


def model(i, text, tags, start, end):
    r = Res()
    r.i, r.text, r.t = i, text.encode('utf-8'), set(tags)
    for l, comp in ((start, r.s), (end or [], r.e)):
        for k, f, v in l:
            (comp.set if k == 'k' else comp.imply)(f, v)
    r.end = end is not None
    return r


def refine(drv, refiner, text, items):
    """items: list of (i, text, tags, start, end); returns the refined results, normalised"""
    resp = drv.refine(refiner, (2019, 3, 15, 12, 30, 45), text, [spec(*it) for it in items])
    return [Res.norm(r) for r in resp['r']], [Res.norm(r) for r in resp['in']]


def compare(got, want, ctx, skip=()):
    if len(got) != len(want):
        raise Fail('%s: %d results instead of %d: got %s, expected %s' % (ctx, len(got), len(want), [(g['i'], g['n']) for g in got], [(w['i'], w['n']) for w in want]))
    for k, (g, w) in enumerate(zip(got, want)):
        if w is None:
            continue
        for key in w:
            if g[key] != w[key] and key not in skip:
                if key == 'e' and w['e'] and g['e'] and None in w['e'][0]:
                    if all(a == b or b is None for a, b in zip(g['e'][0], w['e'][0])) and g['e'][1] == w['e'][1]:
                        continue
                raise Fail('%s: %s of result %d is %s, expected %s' % (ctx, {'i': 'index', 'n': 'length', 't': 'tags', 's': 'start', 'e': 'end', 'd': 'rendering', 'p': 'possible'}[key], k, g[key], w[key]))


def date_ops(t, known=True, wday=None):
    k = 'k' if known else 'm'
    l = [[k, 0, t[0]], [k, 1, t[1]], [k, 2, t[2]]]
    if wday is not None:
        l.append(['k', 3, wday])
    return l


filler = st.text('abcdefgh .,!', min_size=0, max_size=6)


# ------------------------------------------------------------------------ C21
class C21(Prop):
    id = 'C21'
    rule = ('lists of 0-9 results in text order with indices and lengths that overlap, touch, nest and stay apart, with arbitrary dates, ends and tags, against the left-to-right fold of the '
            'property; enumerated: all lists of up to 3 (thorough 4) spans in a text of 7 characters. Non-trivial: at least one pair overlaps or touches')
    quick, thorough = 3500, 40000

    def enum(self, tier):
        spans = [(i, n) for i in range(0, 6) for n in range(1, 7 - i)]
        yield {'s': []}
        for a in spans:
            yield {'s': [a]}
            for b in spans:
                if b[0] >= a[0]:
                    yield {'s': [a, b]}
                    for c in spans:
                        if c[0] >= b[0]:
                            yield {'s': [a, b, c]}
                            if tier != 'quick':
                                for d in spans:
                                    if d[0] >= c[0]:
                                        yield {'s': [a, b, c, d]}
        import random
        rnd = random.Random(21)
        for n in (10, 17, 33, 50, 65, 100, 129, 200, 257):          # many results, and far into the text
            for far in (0, 250, 1000, 32760, 65530, 70000):
                i, s, x = far, [], []
                for _ in range(n):
                    ln = rnd.choice((1, 2, 5, 9, 30, 127, 128, 255, 256, 300)) if far else rnd.randint(1, 12)
                    s.append((i, ln))
                    x.append(rnd.randint(0, 10 ** 6))
                    i += rnd.choice((0, ln, ln, ln + 1, ln + 9, max(1, ln - 1), ln // 2))
                yield {'s': s, 'x': x}

    def strategy(self, tier):
        @st.composite
        def s(draw):
            n = draw(st.integers(2, 9))
            i, out = draw(st.sampled_from([0, 0, 1, 5])), []
            for _ in range(n):
                ln = draw(st.integers(1, 12))
                out.append((i, ln))
                i += draw(st.one_of(st.integers(0, 14), st.just(ln), st.just(0)))
            return {'s': out, 'x': [draw(st.integers(0, 10 ** 6)) for _ in out]}
        return s()

    def items(self, c):
        out = []
        for k, (i, n) in enumerate(c['s']):
            x = c['x'][k] if 'x' in c else k * 7919
            tags = [t for b, t in enumerate(TAGS) if (x >> b) & 1]
            start = date_ops((2000 + x % 50, 1 + x % 12, 1 + x % 28), x % 3 != 0) + ([['k', 4, x % 24], ['k', 5, x % 60]] if x % 2 else [])
            end = None if x % 5 else date_ops((2051, 1, 1 + x % 28))
            out.append((i, 'abcdefghijklmnopqrstuvwxyz'[k % 26] * n, tags, start, end))
        return out

    def run(self, drvs, c):
        its = self.items(c)
        text = 'x' * (max([i + n for i, n in c['s']] + [0]) + 3)
        got, inp = refine(drvs['plain'], 'olr', text, its)
        keep = []
        inter = False
        for k, (i, n) in enumerate(c['s']):
            if keep:
                pi, pn = c['s'][keep[-1]]
                inter = inter or i <= pi + pn
                if i < pi + pn:
                    if n > pn:
                        keep[-1] = k
                    continue
            keep.append(k)
        want = [model(*its[k]).json() for k in keep]
        compare(got, want, 'overlap removal of %s' % (c['s'],))
        return '%d of %d' % (len(keep), len(its)) if inter else ''


# ------------------------------------------------------------------------ C22
ZONES = {}
for _l in '''ACDT 630 ACST 570 ADT -180 AEDT 660 AEST 600 AFT 270 AKDT -480 AKST -540 ALMT 360 AMST -180 AMT -240 ANAST 720 ANAT 720 AQTT 300 ART -180
AST -240 AWDT 540 AWST 480 AZOST 0 AZOT -60 AZST 300 AZT 240 BNT 480 BOT -240 BRST -120 BRT -180 BST 60 BTT 360 CAST 480 CAT 120 CCT 390 CDT -300 CEST 120
CET 60 CHADT 825 CHAST 765 CKT -600 CLST -180 CLT -240 COT -300 CST -360 CVT -60 CXT 420 CHST 600 DAVT 420 EASST -300 EAST -360 EAT 180 ECT -300 EDT -240
EEST 180 EET 120 EGST 0 EGT -60 EST -300 ET -300 FJST 780 FJT 720 FKST -180 FKT -240 FNT -120 GALT -360 GAMT -540 GET 240 GFT -180 GILT 720 GMT 0 GST 240
GYT -240 HAA -180 HAC -300 HADT -540 HAE -240 HAP -420 HAR -360 HAST -600 HAT -90 HAY -480 HKT 480 HLV -210 HNA -240 HNC -360 HNE -300 HNP -480 HNR -420
HNT -150 HNY -540 HOVT 420 ICT 420 IDT 180 IOT 360 IRDT 270 IRKST 540 IRKT 540 IRST 210 IST 330 JST 540 KGT 360 KRAST 480 KRAT 480 KST 540 KUYT 240 LHDT 660
LHST 630 LINT 840 MAGST 720 MAGT 720 MART -510 MAWT 300 MDT -360 MESZ 120 MEZ 60 MHT 720 MMT 390 MSD 240 MSK 240 MST -420 MUT 240 MVT 300 MYT 480 NCT 660
NDT -90 NFT 690 NOVST 420 NOVT 360 NPT 345 NST -150 NUT -660 NZDT 780 NZST 720 OMSST 420 OMST 420 PDT -420 PET -300 PETST 720 PETT 720 PGT 600 PHOT 780
PHT 480 PKT 300 PMDT -120 PMST -180 PONT 660 PST -480 PT -480 PWT 540 PYST -180 PYT -240 RET 240 SAMT 240 SAST 120 SBT 660 SCT 240 SGT 480 SRT -180 SST -660
TAHT -600 TFT 300 TJT 300 TKT 780 TLT 540 TMT 300 TVT 720 ULAT 480 UTC 0 UYST -120 UYT -180 UZT 300 VET -210 VLAST 660 VLAT 660 VUT 660 WAST 120 WAT 60
WEST 60 WESZ 60 WET 0 WEZ 0 WFT 720 WGST -120 WGT -180 WIB 420 WIT 540 WITA 480 WST 780 WT 0 YAKST 600 YAKT 600 YAPT 600 YEKST 360 YEKT 360'''.split('\n'):
    _w = _l.split()
    for _a, _b in zip(_w[::2], _w[1::2]):
        ZONES[_a] = int(_b)
NOZONE = ['XYZ', 'AAA', 'QQ', 'FOO', 'ESTX', 'ES', 'ESTER', 'UT', 'GM', 'ZZZZZ', 'PLEAS', 'BOB', 'SHIP', 'HER', 'UTCC', 'OK', 'CESTX', 'PDTX', 'E', 'ESTERN']


class C22(Prop):
    id = 'C22'
    rule = ('(a) lists of 1-3 results (clock times with and without range or known zone, and others) and a text that ends in an abbreviation, through the refiner; (b) written clock times '
            'and ranges with an abbreviation through the recogniser and refiner; (c) through the command line, at month, year and leap-day boundaries. Enumerated: all abbreviations x spacing, '
            'parentheses, case. Non-trivial: a known abbreviation was applied (its shift crossing midnight counted separately)')
    quick, thorough = 2500, 25000

    def enum(self, tier):
        k = 0
        for z in sorted(ZONES) + NOZONE:
            for gap in (' ', '', '  '):
                for par in (False, True):
                    for mode in (0, 1, 2, 5):
                        k += 1
                        yield {'k': 'r', 'z': gen.recase(z.lower(), mode), 'gap': gap, 'par': par, 'ref': REFS[k % len(REFS)],
                               'its': [{'t': (k % 24, k * 7 % 60, None if k % 2 else 30), 'e': None if k % 3 else ((k + 2) % 24, 5, None), 'txp': True, 'zone': None}], 'pre': ''}
            for h, m in ((0, 0), (0, 30), (5, 0), (12, 0), (16, 59), (23, 30), (23, 59)):
                for r in REFS[:8]:
                    k += 1
                    yield {'k': 'cli', 'z': z if k % 2 else z.lower(), 'gap': ' ', 'par': k % 5 == 0, 't': {'f': ('h:m', 'hh:m')[k % 2], 'h': h, 'm': m}, 'b': None, 'ref': r}
                    if k % 3 == 0:
                        yield {'k': 'x', 'z': z, 'gap': ' ', 'par': False, 't': {'f': 'h:m', 'h': h, 'm': m}, 'b': {'f': 'h:m', 'h': (h + 3) % 24, 'm': m}, 'ref': r}

        for n in (20, 36, 40, 300, 5000, 9400, 10000):              # far into a text
            for z in ('EST', 'ist', 'CEST', 'WT', 'PHOT', 'XYZ'):
                for e in (None, (23, 5, None)):
                    yield {'k': 'r', 'z': z, 'gap': ' ', 'par': n % 3 == 0, 'ref': REFS[n % len(REFS)], 'its': [{'t': (n % 22, n % 60, None), 'e': e, 'txp': True, 'zone': None}], 'pre': 'we fly ' * n}
                    if n < 9000:
                        yield {'k': 'cli', 'z': z, 'gap': ' ', 'par': n % 3 == 0, 't': {'f': 'h:m', 'h': n % 22, 'm': n % 60}, 'b': e and {'f': 'h:m', 'h': 23, 'm': 5}, 'ref': REFS[n % len(REFS)], 'pre': 'we fly ' * n}

    def strategy(self, tier):
        tm = st.tuples(st.integers(0, 23), st.integers(0, 59), st.one_of(st.none(), st.integers(0, 59)))
        z = st.one_of(st.sampled_from(sorted(ZONES)), st.sampled_from(sorted(ZONES)), st.sampled_from(sorted(ZONES)), st.sampled_from(NOZONE))
        base = {'gap': st.sampled_from(['', ' ', '  ', '\t']), 'par': st.booleans(), 'ref': st.one_of(gen.ref(1401, 9998), st.sampled_from(REFS))}
        it = st.fixed_dictionaries({'t': tm, 'e': st.one_of(st.none(), tm), 'txp': st.sampled_from([True, True, True, False]), 'zone': st.one_of(st.none(), st.none(), st.integers(-720, 840)),
                                    'ezone': st.one_of(st.none(), st.none(), st.integers(-720, 840)), 'day': st.booleans()})

        @st.composite
        def ct(draw):
            f = draw(st.sampled_from(['h:m', 'hh:m', 'h.m', 'hms', 'mer', 'hhmm']))
            if f == 'mer':
                return {'f': draw(st.sampled_from(['h', 'h:m'])), 'h': draw(st.integers(1, 12)), 'm': draw(st.integers(0, 59)), 'mer': draw(st.sampled_from(['am', 'pm', 'a.m.', 'p.m.'])), 'gap': ''}
            return {'f': f, 'h': draw(st.integers(0, 23)), 'm': draw(st.integers(0, 59)), 's': draw(st.integers(0, 59))}
        recz = st.tuples(z, gen.case_mode).map(lambda p: gen.recase(p[0].lower(), p[1]))
        return st.one_of(
            st.fixed_dictionaries(dict(base, k=st.just('r'), z=recz, its=st.lists(it, min_size=1, max_size=3), pre=st.sampled_from(['', 'call bob ', 'x']))),
            st.fixed_dictionaries(dict(base, k=st.sampled_from(['x', 'cli']), z=recz, gap=st.sampled_from([' ', '  ']), t=ct(), b=st.one_of(st.none(), ct()))))

    def run(self, drvs, c):
        d, ref = drvs['plain'], tuple(c['ref'])
        z = c['z']
        tail = c['gap'] + ('(%s)' % z if c['par'] else z)
        off = ZONES.get(z.upper())
        if c['k'] == 'r':
            its, text = [], c['pre']
            for n, it in enumerate(c['its']):
                i = len(text)
                t = '%d:%02d' % it['t'][:2]
                day = [['m', 0, ref[0]], ['m', 1, ref[1]], ['m', 2, ref[2]]]
                ops = lambda v, zone: day + [['k', 4, v[0]], ['k', 5, v[1]]] + ([['k', 6, v[2]]] if v[2] is not None else []) + ([['k', 7, zone]] if zone is not None else [])
                text += t
                its.append((i, t, ['txp'] if it['txp'] else ['cdp'], ops(it['t'], it['zone']), ops(it['e'], it.get('ezone')) if it['e'] else None))
                if n + 1 < len(c['its']):
                    text += ' hello 9 '
            text += tail
            got, inp = refine(d, 'tza', text, its)
            want = [model(*x) for x in its]
            last = want[-1]
            applied = False
            if off is not None and 'txp' in last.t and 2 <= len(z) <= 5:
                applied = True
                if 7 not in last.s.k:
                    last.s.set(7, off)
                if last.end and 7 not in last.e.k:
                    last.e.set(7, off)
                last.text += tail.encode()
                last.t.add('tza')
            compare(got, [w.json() for w in want], 'zone %r in %r' % (z, text))
            return ('refiner' + (' range' if last.end else '') + (' zone known' if c['its'][-1]['zone'] is not None else '')) if applied else ''
        a, b = c['t'], c['b']
        if b is not None:
            if not dates.C18.range_ok({'a': a, 'b': b, 'j': ' to '}) or (a['f'] == 'h') != (b['f'] == 'h') and False:
                b = None
        cc = {'a': a, 'lead': '', 'ref': ref}
        if b is not None:
            cc.update(b=b, j=' to ')
        ph = pool.phrase('txp', cc)
        if tail.strip()[:1] == '(' and False:
            return ''
        e = pool.expects('txp', cc, ref)
        e = None if e == 'any' else e[0]
        if e is None:
            return ''
        if z.upper() in ('AM', 'PM'):
            return ''
        text = ph + tail
        start = tuple(e[0][:3] + e[0][4:7])
        end = tuple(e[2][:3] + e[2][4:7]) if e[2] else None
        sh = lambda t: cal.add_secs(t, -60 * off) if off is not None else t
        ws, we = sh(start), sh(end) if end else None
        if ws is None or (end and we is None):
            return ''
        want = cal.render(ws) + (' - ' + cal.render(we) if we else '')
        if c['k'] == 'cli':
            out = d.cli(c.get('pre', '') + text, '%04d-%02d-%02d %02d:%02d:%02d' % ref)['out']
            if out != 'Date:\t' + want + '\n':
                raise Fail('command line %r at %s: prints %r, expected %s' % (text, cal.render(ref), out, want))
        else:
            stages = d.ask('X txp tza %s %s' % (refs(ref), hx(text)))['stages']
            rs = stages[1]
            if len(rs) != 1 or rs[0]['d'] != want:
                raise Fail('%r at %s: %s, expected %s' % (text, cal.render(ref), [describe(r) for r in rs], want))
            r = rs[0]
            if off is not None and (r['s'][0][7] != off or r['s'][1][7] != '1' or (r['e'] and (r['e'][0][7] != off or r['e'][1][7] != '1'))):
                raise Fail('%r at %s: zone of %s is not %d' % (text, cal.render(ref), describe(r), off))
            n0 = stages[0][0]['n']
            if off is not None and r['n'] != n0 + len(tail.encode()) - (len(stages[0][0:1]) and max(0, stages[0][0]['i'] + n0 - len(ph))):
                raise Fail('%r at %s: the span of %s does not reach over %r' % (text, cal.render(ref), describe(r), tail))
            if off is None and [dict(x) for x in stages[0]] != rs:
                raise Fail('%r at %s: changed to %s by an unknown abbreviation' % (text, cal.render(ref), describe(r)))
        return '' if off is None else c['k'] + (' range' if b else '') + (' other day' if ws[:3] != start[:3] else '')


# ------------------------------------------------------------------------ C23
# kinds of results: L deadline or week (date implied), D date, W weekday of this week, T clock time, C casual time, F date and time
REFTAGS = ['tza', 'mdr', 'mdt', 'hol', 'rel', 'mnp', 'tlp', 'tap']       # tags that decide nothing about the pairing


class C23(Prop):
    id = 'C23'
    rule = ('lists of 1-8 results, each a date (also range, also weekday), a clock time (also range, also past midnight, also with zone), a casual time or a full date-time, in a text with '
            'arbitrary gaps; against the left-to-right pairing of the property; enumerated: all kind sequences up to length 4 (thorough 5). Non-trivial: at least one merge; classes by kind sequence')
    quick, thorough = 2000, 30000

    def enum(self, tier):
        import itertools
        n = 0
        for ln in range(0, 5 if tier == 'quick' else 6):
            for ks in itertools.product('DWTCFrtL' if ln < 4 else 'DTCFrtL', repeat=ln):
                if self.settled(ks):
                    n += 1
                    yield self.case(ks, n)
        import random
        rnd = random.Random(23)
        for ln in (9, 16, 31, 60, 110, 260):                        # many results, and far into the text
            for rep in range(6):
                ks = [rnd.choice('DDWTTCFrtL')]
                while len(ks) < ln:
                    k = rnd.choice('DDWTTCFrtL')
                    if self.settled((ks[-1], k)):
                        ks.append(k)
                yield dict(self.case(ks, ln * 7 + rep), pre='we fly ' * (0, 1, 20, 40, 5000, 10000)[rep])
        for o in range(cal.ordinal(2019, 12, 20), cal.ordinal(2021, 1, 5)):     # midnight at the end of every month
            for ks in ('Dt', 'tD', 'rT', 'Wt'):
                c = self.case(ks, o)
                for it in c['its']:
                    if it['k'] in 'DW':
                        it['d'] = cal.from_ordinal(o)
                    if it['k'] == 't':
                        it['t'], it['e'] = (21, 30, None), (1, 15, None)
                yield c

    @staticmethod
    def settled(ks):
        """sequences whose pairing the property settles: a casual time is implied only, so it is not put next to another time"""
        for a, b in zip(ks, ks[1:]):
            if 'C' in (a, b) and (a in 'TCt' and b in 'TCt'):
                return False
        return True

    def case(self, ks, x):
        its = []
        for k, kind in enumerate(ks):
            v = (x * 31 + k * 97) & 0xfffff
            its.append({'k': kind, 'd': (2000 + v % 60, 1 + v % 12, 1 + v % 28), 'd2': (2070 + v % 7, 1 + v % 12, 1 + v % 27), 't': (v % 24, v % 60, None if v % 3 else v % 59),
                        'e': ((v + 5) % 24, (v + 1) % 60, None if v % 2 else 7), 'z': None if v % 4 else v % 700 - 300, 'sep': (' ', ' at ', ', ', ' hello ', '')[v % 5], 'w': None if v % 5 else v % 7,
                        'x': [REFTAGS[(x + k) % len(REFTAGS)]] if (x + k) % 3 else []})
        return {'its': its, 'pre': ('', 'call bob ')[x % 2]}

    def strategy(self, tier):
        tm = st.tuples(st.integers(0, 23), st.integers(0, 59), st.one_of(st.none(), st.integers(0, 59)))
        day = gen.ref(1401, 9990).map(lambda r: r[:3])
        it = st.fixed_dictionaries({'k': st.sampled_from('DDDWTTTCFrtLL'), 'd': day, 'd2': day, 't': tm, 'e': tm, 'z': st.one_of(st.none(), st.integers(-720, 840)),
                                    'w': st.one_of(st.none(), st.integers(0, 6)), 'x': st.lists(st.sampled_from(REFTAGS), max_size=2, unique=True),
                                    'sep': st.sampled_from([' ', ' at ', ', ', ' on ', ' of ', '-', '', ' hello bob ', 't', '  '])})

        def fix(c):
            out = []
            for i in c['its']:
                if out and not self.settled((out[-1]['k'], i['k'])):
                    i = dict(i, k='F')
                out.append(i)
            return dict(c, its=out)
        return st.fixed_dictionaries({'its': st.lists(it, min_size=1, max_size=8), 'pre': st.sampled_from(['', 'call bob ', 'x'])}).map(fix)

    def build(self, c):
        text, its = c['pre'], []
        for n, it in enumerate(c['its']):
            k, t, e = it['k'], it['t'], it['e']
            word = {'D': 'date', 'W': 'monday', 'T': '10:30', 'C': 'morning', 'F': 'full date', 'r': 'dates', 't': '9pm-1am', 'L': 'in 5 days'}[k] + str(n)
            i = len(text)
            text += word + it['sep']
            d, d2 = tuple(it['d']), tuple(it['d2'])
            if d2 < d:
                d, d2 = d2, d
            tk = lambda v: [['k', 4, v[0]], ['k', 5, v[1]]] + ([['k', 6, v[2]]] if v[2] is not None else []) + ([['k', 7, it['z']]] if it['z'] is not None else [])
            ref = (2019, 3, 15)
            if k in 'D':
                its.append((i, word, ['mme'], date_ops(it['d'], True, it['w']), None))
            elif k == 'r':
                its.append((i, word, ['mme'], date_ops(d, True, it['w']), date_ops(d2, True, it['w'])))
            elif k == 'L':          # a deadline or a week: the date implied, no time of day
                its.append((i, word, ['dfp'] if n % 2 else [], date_ops(it['d'], False), None))
            elif k == 'W':
                its.append((i, word, ['dow'], date_ops(it['d'], False), None))
            elif k == 'T':
                its.append((i, word, ['txp'], date_ops(ref, False) + tk(t), None))
            elif k == 't':
                ed = cal.add_days(ref, 1) if tuple(x or 0 for x in e) < tuple(x or 0 for x in t) else ref
                its.append((i, word, ['txp'], date_ops(ref, False) + tk(t), date_ops(ed, False) + tk(e)))
            elif k == 'C':
                its.append((i, word, ['ctp'], date_ops(ref, False) + [['m', 3, 5], ['m', 4, t[0]], ['m', 5, t[1]]], None))
            else:
                its.append((i, word, ['iso'], date_ops(it['d']) + tk(t), None))
            # tags of earlier stages, or any other: they stay with the result they belong to
            its[-1] = its[-1][:2] + (its[-1][2] + it.get('x', []),) + its[-1][3:]
        return text, its

    @staticmethod
    def with_time(dc, tc):
        """components of the date with the time of the other"""
        r = dc.copy()
        put = r.set if 4 in tc.k else r.imply
        put(4, tc.get(4))
        put(5, tc.get(5))
        if 6 in tc.k:
            r.set(6, tc.get(6))
        else:
            r.imply(6, tc.get(6))
        if 7 in tc.k:
            r.set(7, tc.get(7))
        return r

    def merged(self, date, time, text):
        r = Res()
        r.i = min(date.i, time.i)
        stop = max(date.i + len(date.text), time.i + len(time.text))
        r.text = text.encode()[r.i:stop]
        r.t = date.t | time.t | {'mdt'}
        r.s = self.with_time(date.s, time.s)
        nowday = False
        if date.end or time.end:
            r.end = True
            r.e = self.with_time(date.e if date.end else date.s, time.e if time.end else time.s)
            if not date.end and r.e.date() < r.s.date():
                d = cal.add_days(tuple(r.e.vals()[:3]), 1)
                for f in range(3):
                    (r.e.set if f in r.e.k else r.e.imply)(f, d[f])
                nowday = True
        j = r.json()
        if nowday:
            j['e'] = [j['e'][0][:3] + [None] + j['e'][0][4:], j['e'][1]]     # whether the weekday follows is left open
        return j

    def run(self, drvs, c):
        text, its = self.build(c)
        got, inp = refine(drvs['plain'], 'mdt', text, its)
        ks = [it['k'] for it in c['its']]
        ms = [model(*x) for x in its]
        want, i, n = [], 0, 0
        while i < len(ms):
            if i + 1 < len(ms) and ks[i] in 'DWrL' and ks[i + 1] in 'TtC':
                want.append(self.merged(ms[i], ms[i + 1], text))
                i, n = i + 2, n + 1
            elif i + 1 < len(ms) and ks[i + 1] in 'DWrL' and ks[i] in 'TtC':
                want.append(self.merged(ms[i + 1], ms[i], text))
                i, n = i + 2, n + 1
            else:
                want.append(ms[i].json())
                i += 1
        compare(got, want, 'date-time merging of %s in %r' % (''.join(ks), text))
        return ('merged ' + ''.join(ks[:5])) if n else ''


# ------------------------------------------------------------------------ C24
class C24(Prop):
    id = 'C24'
    rule = ('lists of 1-8 results with and without end in arbitrary chronological order, with connectors or other words between; against the left-to-right pairing of the property; enumerated: '
            'all sequences up to length 4 of (end or not) x (connector or not) x (earlier/later). Non-trivial: at least one join; classes by sequence')
    quick, thorough = 3500, 30000
    CON = [' to ', ' and ', ' through ', ' - ', '-', '  to  ', ' -', '- ', '\tthrough\n', ' and  ', '    to     ', '\n\nthrough\r\n\t', ' ' * 20 + '-' + ' ' * 30, '\r\nand\r\n']
    NOCON = [' hello ', ' or ', ', ', ' ', '. ', ' but bob ', ' until ', '; ', ' / ', ' via ', '  ', ' & ', '\n', ' ' * 12, '\n\n\n\n', '    or     ', '      hello     ']

    def enum(self, tier):
        import itertools
        n = 0
        for ln in range(0, 5):
            for ends in itertools.product((False, True), repeat=ln):
                for cons in itertools.product((False, True), repeat=max(0, ln - 1)):
                    for order in itertools.permutations(range(ln)):
                        n += 1
                        yield {'its': [{'d': (2019, 1 + order[i], 5, 10 * (n % 2), 0, 0), 'end': ends[i], 'sep': (self.CON[(n + i) % len(self.CON)] if i < ln - 1 and cons[i] else
                               self.NOCON[(n + i) % len(self.NOCON)]), 'k': 'mme', 'h': n % 3 == 0, 'x': [TAGS[(n + 7 * i) % 15]] if (n + i) % 4 else []} for i in range(ln)], 'pre': ('', 'from ')[n % 2]}
        import random
        rnd = random.Random(24)
        for ln in (9, 16, 31, 60, 110, 260):                        # many results, and far into the text
            for rep in range(6):
                yield {'its': [{'d': (2019, rnd.randint(1, 12), rnd.randint(1, 28), rnd.randint(0, 23), 0, 0), 'end': rnd.random() < .2, 'k': rnd.choice(TAGS[:12]), 'h': rnd.random() < .5,
                                'sep': rnd.choice(self.CON if rnd.random() < .7 else self.NOCON), 'x': []} for _ in range(ln)], 'pre': 'we fly ' * (0, 1, 20, 40, 5000, 10000)[rep]}
        for con in self.CON + self.NOCON:
            for a, b in (((2019, 3, 15, 0, 0, 0), (2019, 3, 15, 0, 0, 1)), ((2019, 3, 16, 0, 0, 0), (2019, 3, 15, 23, 59, 59)), ((2020, 1, 1, 0, 0, 0), (2019, 12, 31, 23, 0, 0)),
                         ((1400, 1, 1, 0, 0, 0), (9999, 12, 31, 23, 59, 59)), ((2019, 5, 1, 12, 30, 0), (2019, 5, 1, 12, 29, 59))):
                for x, y in ((a, b), (b, a)):
                    yield {'its': [{'d': x, 'end': False, 'sep': con, 'k': 'mme', 'h': True}, {'d': y, 'end': False, 'sep': '', 'k': 'txp', 'h': True}], 'pre': 'x'}
                    for o in (1, 3, 5):         # overlapping or nested results have nothing between them
                        yield {'its': [{'d': x, 'end': False, 'sep': con, 'k': 'mme', 'h': True, 'o': o}, {'d': y, 'end': False, 'sep': con, 'k': 'txp', 'h': True},
                                       {'d': (2022, 1, 1, 0, 0, 0), 'end': True, 'sep': con, 'k': 'iso', 'h': False}], 'pre': 'x '}

    def strategy(self, tier):
        it = st.fixed_dictionaries({'d': st.one_of(gen.ref(), st.tuples(st.just(2019), st.integers(1, 3), st.integers(1, 3), st.integers(0, 2), st.just(0), st.integers(0, 1))),
                                    'end': st.sampled_from([False, False, False, True]), 'k': st.sampled_from(TAGS[:12]), 'h': st.booleans(), 'x': st.lists(st.sampled_from(TAGS), max_size=3, unique=True),
                                    'sep': st.one_of(st.sampled_from(self.CON), st.sampled_from(self.CON), st.sampled_from(self.NOCON))})
        return st.fixed_dictionaries({'its': st.lists(it, min_size=1, max_size=8), 'pre': st.sampled_from(['', 'from ', 'call bob '])})

    def run(self, drvs, c):
        text, its = c['pre'], []
        for n, it in enumerate(c['its']):
            w = 'date%d' % n
            d = tuple(it['d'])
            ops = [['k', 0, d[0]], ['k', 1, d[1]], ['k' if n % 2 else 'm', 2, d[2]]] + [['k' if it['h'] else 'm', f, v] for f, v in ((4, d[3]), (5, d[4]), (6, d[5]))]
            its.append((len(text), w, [it['k']] + it.get('x', []), ops, date_ops((9999, 12, 31)) if it['end'] else None))
            text += w[:-it['o']] if it.get('o') else w + it['sep']
        got, inp = refine(drvs['plain'], 'mdr', text, its)
        ms = [model(*x) for x in its]
        want, i, n, tie = [], 0, 0, False
        while i < len(ms):
            if i + 1 < len(ms) and not ms[i].end and not ms[i + 1].end and not c['its'][i].get('o') and c['its'][i]['sep'] in self.CON:
                a, b = ms[i], ms[i + 1]
                if b.s.date() < a.s.date():
                    a, b = b, a
                r = Res()
                r.i, r.text = ms[i].i, text.encode()[ms[i].i:ms[i + 1].i + len(ms[i + 1].text)]
                r.t, r.s, r.e, r.end = a.t | b.t | {'mdr'}, a.s.copy(), b.s.copy(), True
                j = r.json()
                if a.s.date() == b.s.date():
                    j.pop('s'), j.pop('e')          # either may be the start
                want.append(j)
                i, n = i + 2, n + 1
            else:
                want.append(ms[i].json())
                i += 1
        compare(got, want, 'range merging of %r' % text)
        return 'joined %d of %d' % (2 * n, len(ms)) if n else ''


# ------------------------------------------------------------------------ C26
class C26(Prop):
    id = 'C26'
    rule = ('ordinal words in all hyphen, space and case variants and near misses; all cardinals, articles, few and digits through the unit fragments and through every recogniser that takes a count '
            '(the word and its digits give the same result); 1-7 counts with units; case conversion of byte strings with every byte. Non-trivial: every case but unknown words')
    quick, thorough = 3500, 30000

    def enum(self, tier):
        for v, w in enumerate(dates.ORD, 1):
            parts = w.split(' ')
            for g in (' ', '-', '  ', ' - ', '--', '   '):
                for pre in ('', ' ', '   ', '-'):
                    for post in ('', ' ', '    ', '-'):
                        for mode in (0, 1, 2, 0x5a5a5a):
                            yield {'k': 'ord', 'w': pre + gen.recase(g.join(parts), mode) + post, 'v': v}
        for w in ['', 'one', 'zeroth', 'firs', 'firstt', 'thirty second', 'thirty-second', 'fortieth', 'twenty', 'thirty', 'twenty tenth', 'first twenty', 'twentyfirst', 'twenty first first',
                  'hundredth', 'second twenty', '1', '21', '1st', 'twentieth first', 'thirtieth first', 'twenty  eleventh', 'twelth', 'nineth', 'eigth', 'fourty', 'therd', 'last', 'monday',
                  'thirty third', 'fifth sixth', 'ninth.', 'first,', 'thirtyfirst', 'no', ' ', '-']:
            yield {'k': 'ord', 'w': w, 'v': 0}
        for b in range(0, 256):
            yield {'k': 'case', 'b': [b]}
            yield {'k': 'case', 'b': [65, b, 122, b]}
        for u in ('sec', 'second', 'seconds', 'min', 'mins', 'minute', 'minutes', 'hour', 'hours', 'day', 'days', 'week', 'weeks', 'month', 'months', 'year', 'years'):
            for n in dates.NUMW + ['a', 'an', 'a few', 'afew', 'an few', 'a  few'] + [str(i) for i in range(1, 61)] + ['half', 'half a', 'half an']:
                if n.startswith('half') and u[:3] == 'sec':
                    continue
                for g in (' ', '  ') if not n.isdigit() else (' ', '', '  '):
                    yield {'k': 'frag', 'p': [[n, g, u]], 'pre': '', 'j': ' '}
        for v, w in enumerate(dates.NUMW, 1):
            for p, f in (('dfp', 'in %s %s'), ('dfp', 'within %s %s'), ('tap', '%s %s ago'), ('tlp', '%s %s later'), ('tlp', '%s %s from now'), ('rel', 'next %s %s'), ('rel', 'last %s %s'), ('rel', 'past %s %s'),
                         ('wxp', 'next %s %s'), ('wxp', 'last %s %s')):
                for u in ('minutes', 'days', 'weeks', 'months', 'years', 'hours', 'seconds'):
                    if p == 'wxp' and u != 'weeks':
                        continue
                    for r in REFS[:5]:
                        yield {'k': 'same', 'p': p, 'a': f % (w, u), 'b': f % (v, u), 'ref': r}
                        if v == 1 and p in ('dfp', 'tap', 'tlp'):
                            yield {'k': 'same', 'p': p, 'a': f % ('a', u[:-1]), 'b': f % (1, u), 'ref': r}
                            yield {'k': 'same', 'p': p, 'a': f % ('an', u[:-1]), 'b': f % (1, u), 'ref': r}
                        if v == 3 and p in ('dfp', 'tap', 'tlp'):
                            yield {'k': 'same', 'p': p, 'a': f % ('a few', u), 'b': f % (3, u), 'ref': r}
                        if v == 3 and p == 'rel':
                            yield {'k': 'same', 'p': p, 'a': f % ('few', u), 'b': f % (3, u), 'ref': r}
        for v, w in enumerate(dates.ORD, 1):          # ordinals as days
            for m in ('jan', 'july', 'december'):
                for r in REFS[:5]:
                    for ww in (w, w.replace(' ', '-')):
                        yield {'k': 'same', 'p': 'mme', 'a': '%s %s, 2021' % (m, ww), 'b': '%s %d, 2021' % (m, v), 'ref': r}
                        if v > 1:
                            yield {'k': 'same', 'p': 'mme', 'a': '%s first to %s, 2021' % (m, ww), 'b': '%s 1 to %d, 2021' % (m, v), 'ref': r}

    def strategy(self, tier):
        C = dates.C09()

        @st.composite
        def frag(draw):
            c = draw(C.meaning())
            return {'k': 'frag', 'p': c['p'], 'pre': draw(st.sampled_from(['', '', '', ' ', '      ', '  '])), 'j': draw(st.sampled_from([' ', '  ', '\t'])), 'case': draw(gen.case_mode)}
        return st.one_of(frag(), frag(), st.fixed_dictionaries({'k': st.just('case'), 'b': st.lists(st.integers(0, 255), max_size=60)}),
                         st.tuples(st.sampled_from([(w, i) for i, w in enumerate(dates.ORD, 1)]), st.text('abcdefghijklmnopqrstuvwxyz', min_size=1, max_size=3), st.booleans(), st.booleans()).map(
                             lambda t: {'k': 'ord', 'w': (t[1] if t[2] or not t[3] else '') + t[0][0] + (t[1] if t[3] else ''), 'v': -1}))

    def run(self, drvs, c):
        d = drvs['plain']
        if c['k'] == 'ord':
            got = d.ask('U ord ' + hx(c['w']))
            want = c['v']
            if want == -1:
                w = c['w']
                want = dates.ORD.index(w) + 1 if w in dates.ORD else 0
            if got != want:
                raise Fail('the ordinal value of %r is %s, expected %s' % (c['w'], got, want))
            return 'ordinal' if want else 'not an ordinal'
        if c['k'] == 'case':
            s = ''.join(map(chr, c['b']))
            for q, f in (('low', lambda x: x + 32 if 65 <= x <= 90 else x), ('up', lambda x: x - 32 if 97 <= x <= 122 else x)):
                got = d.ask('U %s %s' % (q, hx(bytes(c['b']))))
                want = ''.join(chr(f(b)) for b in c['b'])
                if got != want:
                    raise Fail('%s of %r is %r, expected %r' % ({'low': 'lower case', 'up': 'upper case'}[q], s, got, want))
            return 'case conversion'
        if c['k'] == 'same':
            a, b = (d.parse(c['p'], tuple(c['ref']), t)['r'] for t in (c['a'], c['b']))
            ctx = '%s at %s: %r' % (c['p'], cal.render(tuple(c['ref'])), c['a'])
            if len(a) != 1 or len(b) != 1:
                raise Fail('%s has %d results, %r %d' % (ctx, len(a), c['b'], len(b)))
            if (a[0]['s'], a[0]['e'], a[0]['d']) != (b[0]['s'], b[0]['e'], b[0]['d']):
                raise Fail('%s: %s, but %r: %s' % (ctx, describe(a[0]), c['b'], describe(b[0])))
            return 'word = digits ' + c['p']
        t = c['pre'] + c['j'].join(''.join(p) for p in c['p'])
        t = gen.recase(t, c.get('case', 0))
        want, oor = {}, False
        SP = dates.C09.SP
        for n, g, u in c['p']:
            unit, v = dates.resolve(dates.count_value(n.replace('afew', 'a few')), SP[u])
            want[unit] = v = want.get(unit, 0) + v       # a half adds to the count of the smaller unit
            if v > 8600 * {'second': 31622400, 'minute': 527040, 'hour': 8784, 'day': 366, 'week': 53, 'month': 12, 'year': 1}[unit]:
                oor = True
        got = d.ask('U frag ' + hx(t))
        if got.get('oor'):
            if not oor:
                raise Fail('the units of %r are rejected as out of range, expected %s' % (t, want))
            return 'fragments out of range'
        if oor:
            return ''
        if got != want:
            raise Fail('the units of %r are %s, expected %s' % (t, got, want))
        return 'fragments %d' % len(want)
