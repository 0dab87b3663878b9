"""C25: the program end to end.  C01: any bytes, any reference."""
import datetime, itertools, os, re, subprocess, sys, time
from hypothesis import strategies as st
from . import cal, dates, gen, pool, state
from .core import Prop, Fail, Driver, DriverError, refs, hx, VERIF
from .gen import blen, recase, describe, REFS, EDGE_REFS
from .texts import parse_range, parse_render, RENDER, BETWEEN
import build as _build

INVALID = '[???] -- Invalid date\n'


def ref_arg(r):
    return '%04d-%02d-%02d %02d:%02d:%02d' % tuple(r)


def line(start, end=None):
    return 'Date:\t' + cal.render(tuple(start)) + (' - ' + cal.render(tuple(end)) if end else '') + '\n'


def t6(v):
    return tuple(v[:3]) + tuple(v[4:7])


def outs(exps):
    """printed lines for a list of acceptable answers of a recogniser"""
    return [line(t6(e[0]), t6(e[2]) if e[2] else None) for e in exps if e is not None]


DATEW = ['today', 'tomorrow', 'tmr', 'yesterday']
CLI = [p for p in pool.CLI]
NONTIME = [p for p in CLI if p not in ('txp', 'ctp')]
# recognisers whose answers are pure dates (a day, no time of day)
PURE = ['cdp', 'dow', 'mme', 'mnp', 'hol', 'iso']
JOIN_DT = [' ', ' at ', ' at ', ', ', ' , ', ' on ', ' of ', '  ', '\t', '   at  ', '\n', ' ,\n', ' ' * 12, '\t\n on \t ', '\r\n']
JOIN_TD = [' ', ' on ', ' on ', ', ', ' of ', '  ', '\n', '   on   ', '\t', '  ,  ', ' ' * 12, '\n\n of\t', '\r\n']
JOIN_RG = [' to ', ' - ', ' through ', ' and ', '  to ', ' -  ', '\tto\n', ' TO ', ' And ', '\n\nthrough\n\n', '    -    ', '\t \n and \t\r\n', ' ' * 15 + 'to' + ' ' * 20]
LETTERS = 'bcdfghjklnpqrstvwxz'


def tie(pc):
    """a bare "noon" is a clock time and a casual time alike: which of the two is printed is left open"""
    return pc[0] == 'txp' and pc[1]['a']['f'] == 'noon' or pc[0] == 'ctp' and pc[1]['w'] == 'noon'


def dates_one(cc, ref):
    """the one reading of a clock time, None if it has none"""
    e = pool.expects('txp', cc, ref)
    return None if e == 'any' else e[0]


class C25(Prop):
    id = 'C25'
    kinds = ['plain', 'cli']
    rule = ('sentences for the whole program: (one) a phrase of any notation in neutral context; (dt) a date and a clock time in either order with every joiner; (rg) two dates, '
            'or two date-times, with every connector in either chronological order; (tz) the same with a zone abbreviation at the end; (first) several phrases with neutral words '
            'between; (none) neutral and near-miss words only; (now) no reference argument; (any) phrases, mutations and soups against the composition of the recognisers, '
            'in text order, and the refiners. Enumerated: every recogniser x every joiner x boundary references. Non-trivial: a definite line is expected')
    quick, thorough = 2200, 25000

    # ---- meanings ---------------------------------------------------------
    def date(self, years=False):
        """(recogniser, case) of a phrase that names days only"""
        @st.composite
        def s(draw):
            p = draw(st.sampled_from(PURE))
            c = draw(pool.meaning(p))
            if p == 'cdp':
                c = {'w': draw(st.sampled_from(DATEW))}
            elif p == 'iso':
                y, m = draw(st.integers(1402, 9990)), draw(st.integers(1, 12))
                c = dates.C17().case(d=['%04d' % y, '%02d' % m, '%02d' % draw(st.integers(1, cal.mdays(y, m)))])
            elif p in ('mnp', 'mme'):
                c = dict(c)
                if p == 'mnp' or years:
                    if c.get('y') is None or not 1402 <= c['y'] <= 9990:
                        c['y'] = draw(st.integers(1402, 9990))
                        c.setdefault('era', '')
                        c['era'] = ''
                        if p == 'mme':
                            c['s2'] = ', '
                        else:
                            c['sep'] = c.get('sep') or ' '
                if p == 'mme':
                    c['d'] = 1 + c['d'] % 28 if not 1 <= c['d'] <= 28 else c['d']
                    if c.get('d2') is not None and years == 'single':
                        c['d2'] = None
            return [p, c]
        return s()

    @staticmethod
    def clock():
        h = st.integers(0, 23)
        m = st.integers(0, 59)
        a = st.fixed_dictionaries({'f': st.sampled_from(['h:m', 'hh:m', 'hms', 'hhms']), 'h': h, 'm': m, 's': m})
        b = st.fixed_dictionaries({'f': st.sampled_from(['h', 'h:m', 'hms']), 'h': st.integers(1, 12), 'm': m, 's': m, 'gap': st.sampled_from(['', ' ']),
                                   'mer': st.sampled_from(['am', 'pm', 'a.m.', 'p.m.', 'AM', 'PM', 'a.m', 'p.m'])})
        return st.one_of(a, b, b)

    def enum(self, tier):
        n = 0
        one = {'ctp': ['this morning', 'evening'], 'cdp': DATEW, 'dow': ['monday', 'last friday', 'next tue'], 'mme': ['may 5', 'june 7, 2019', 'dec 25 - 26', 'sat, feb 28th'],
               'mnp': ['may 2019', 'june', 'sept. 2020'], 'iso': ['2019-03-15', '2020-02-29T10:00:00', '2020-2-9'], 'txp': ['5pm', '17:30', 'at 10:15', 'from 3 to 5 pm'],
               'hol': ['christmas', "new year's eve", 'thanksgiving day'], 'dfp': ['in 5 days', 'within an hour', 'in half a day'], 'tap': ['2 days ago', '3 hours earlier'],
               'tlp': ['2 days later', '1 hour from now', '3 years 2 months from now'], 'wxp': ['last week', 'next 2 weeks', 'this week']}
        for p in CLI:
            for t in one[p]:
                for pre in ('', 'we will fly ', 'hello. '):
                    for post in ('', '!', ' please review'):
                        for r in REFS[:10]:
                            n += 1
                            yield {'k': 'lit', 'p': p, 't': t, 'pre': pre, 'post': post, 'ref': r, 'case': n % 3}
        for p in CLI:                               # long sentences: an argument may have some 128 KB
            for t in one[p]:
                for k in (20, 80, 160, 330, 660, 1000, 2100, 5200):
                    n += 1
                    yield {'k': 'lit', 'p': p, 't': t, 'pre': 'we will fly ' * k, 'post': ('', '!', ' please review' * k)[n % 3], 'ref': REFS[n % 10], 'case': n % 3}
        for p in CLI:                               # many dates: the first one counts
            for i, t in enumerate(one[p]):
                for k in (12, 22, 35, 60, 110, 180):
                    for q in (p, CLI[(n + 3) % len(CLI)]):
                        n += 1
                        if (p == 'txp') != (q == 'txp') or 'ctp' in (p, q):      # a time would combine with a date
                            continue
                        u = one[q][(i + 1) % len(one[q])]
                        yield {'k': 'lit', 'p': p, 't': t, 'pre': ('', 'we will fly ')[n % 2], 'post': (' or call bob ' + u) * (k - 1), 'ref': REFS[n % 10], 'case': n % 3}
        # date x joiner x time, every kind, around midnight and month ends
        ds = [('cdp', 'today'), ('cdp', 'tomorrow'), ('cdp', 'yesterday'), ('dow', 'monday'), ('dow', 'last friday'), ('mme', 'may 5, 2019'), ('mme', 'feb 29, 2020'),
              ('mnp', 'june 2018'), ('iso', '2019-03-15'), ('mme', 'dec 25 - 26, 2020')]
        ts = ['5pm', '17:30', '0:00', '23:59:59', '9 p.m. to 1 a.m.', '10:00 - 11:15', 'midnight', '12am']
        for p, d in ds:
            for t in ts:
                for j in JOIN_DT[:6]:
                    n += 1
                    if p == 'mnp' and not j.strip():
                        continue            # "june 2018 17:30": looks like a day behind the month
                    yield {'k': 'dtl', 'p': p, 'd': d, 't': t, 'j': j, 'o': 0, 'ref': REFS[n % len(REFS)], 'post': ('', ' please', '!')[n % 3]}
                for j in JOIN_TD[:5]:
                    n += 1
                    if p == 'mnp' and not j.strip() and t[-1].isdigit():
                        continue            # "17:30 june": looks like a day in front of the month
                    yield {'k': 'dtl', 'p': p, 'd': d, 't': t, 'j': j, 'o': 1, 'ref': REFS[n % len(REFS)], 'post': ('', ' please', '!')[n % 3]}
        rs = ds[:9] + [('hol', 'christmas')]
        for p, d in rs:
            for q, e in rs:
                if d == e:
                    continue
                for j in JOIN_RG:
                    n += 1
                    if p in ('mme', 'mnp') and q == 'iso':      # "june 2018 to 2019-...": two numbers make a time range
                        continue
                    yield {'k': 'rgl', 'p': p, 'd': d, 'q': q, 'e': e, 'j': j, 'ref': REFS[n % len(REFS)], 'post': ('', '!')[n % 2], 'pre': ('', 'we fly ', 'from ')[n % 3] if p != 'iso' else ''}

    def strategy(self, tier):
        ref = st.one_of(gen.ref(1500, 9000), st.sampled_from(REFS))

        @st.composite
        def one(draw):
            p = draw(st.sampled_from(CLI))
            return {'k': 'one', 'p': p, 'c': draw(pool.meaning(p)), 'pre': draw(gen.prefix()), 'post': draw(st.sampled_from(gen.POST_SAFE)), 'case': draw(gen.case_mode), 'ref': draw(ref)}

        @st.composite
        def dt(draw):
            d = draw(self.date().filter(lambda d: d[0] != 'hol'))
            b = draw(st.one_of(st.none(), st.none(), self.clock()))
            o = draw(st.integers(0, 1))
            return {'k': 'dt', 'd': d, 'a': draw(self.clock()), 'b': b, 'o': o, 'tj': draw(st.sampled_from([' to ', ' - ', '-'])), 'j': draw(st.sampled_from(JOIN_TD if o else JOIN_DT)),
                    'pre': draw(gen.prefix(long=False)), 'post': draw(st.sampled_from(gen.POST_SAFE)), 'case': draw(gen.case_mode), 'ref': draw(ref),
                    'z': draw(st.sampled_from(['', '', ' est', ' (PDT)', ' cest', ' ist', ' xyz'])) if not o else ''}

        @st.composite
        def rg(draw):
            c = {'k': 'rg', 'd': draw(self.date('single')), 'e': draw(self.date('single')), 'j': draw(st.sampled_from(JOIN_RG)), 'pre': draw(gen.prefix(long=False)),
                 'post': draw(st.sampled_from(gen.POST_SAFE)), 'case': draw(gen.case_mode), 'ref': draw(ref)}
            if draw(st.booleans()) and 'hol' not in (c['d'][0], c['e'][0]):
                c.update(a=draw(self.clock()), b=draw(self.clock()), ja=draw(st.sampled_from([' ', ' at ', ', '])), jb=draw(st.sampled_from([' ', ' at ', ', '])))
            return c

        @st.composite
        def first(draw):
            if draw(st.integers(0, 3)) == 0:
                ps = ['txp', 'txp']
            else:
                ps = [draw(st.sampled_from(NONTIME)) for _ in range(2)]
            ps += [draw(st.sampled_from(CLI)) for _ in range(draw(st.integers(0, 4)))]
            return {'k': 'first', 'cs': [[p, draw(pool.meaning(p))] for p in ps], 'seps': [draw(st.sampled_from(BETWEEN)) for _ in ps], 'pre': draw(gen.prefix()),
                    'case': draw(gen.case_mode), 'ref': draw(ref)}

        near = ['tomorro', 'todayz', 'yesterda', 'nextweek', 'mornin', 'marchh', 'octobre', 'mondayish', 'noons', 'midnights', 'agoo', 'weekk', 'christmass', 'daze', 'janu', 'dece', 'mons',
                'lastnite', 'after', 'ago', 'later', 'in', 'at', 'to', '-', 'and', 'through', 'on', 'of', 'est', 'utc', 'am', 'pm', 'this', 'week', 'days', 'hours', 'early']
        rnd = st.text(LETTERS, min_size=1, max_size=9)
        none = st.fixed_dictionaries({'k': st.just('none'), 'ws': st.lists(st.one_of(st.sampled_from(gen.WORDS), st.sampled_from(gen.WORDS), rnd, st.sampled_from(near)), min_size=0, max_size=25),
                                      'sep': st.sampled_from([' ', ' ', ', ', '\n', '. ']), 'case': gen.case_mode, 'ref': ref})
        anyt = st.fixed_dictionaries({'k': st.just('any'), 'text': pool.text(pool.CLI), 'ref': st.one_of(ref, st.sampled_from(EDGE_REFS))})
        return st.one_of(one(), one(), dt(), dt(), rg(), rg(), first(), first(), none, anyt, anyt)

    # ---- running ----------------------------------------------------------
    def phr(self, pc):
        return pool.phrase(pc[0], pc[1])

    def alone(self, d, p, text, ref):
        """the single result of one recogniser (literals of the enumeration)"""
        rs = d.parse(p, ref, text)['r']
        if len(rs) != 1:
            raise Fail('%s: %d results for %r at %s' % (p, len(rs), text, cal.render(ref)))
        return rs[0]

    def expect_cli(self, d, text, ref, want, what):
        if blen(text) > 125000 or '\0' in text:
            return False
        got = d.cli(text, ref_arg(ref))
        if got['rc'] != 0:
            raise Fail('command line %r at %s: exit status %s' % (text, cal.render(ref), got['rc']))
        if got['out'] not in want:
            raise Fail('command line %r at %s (%s): prints %r, expected %s' % (text, cal.render(ref), what, got['out'], ' or '.join(map(repr, want))))
        return True

    def run(self, drvs, c):
        d = drvs['plain']
        if c['k'] == 'real':
            self.real({'cli': drvs['cli'].exe}, d, c)
            return 'real'
        ref = tuple(c['ref'])
        return getattr(self, 'k_' + c['k'])(d, c, ref)

    def k_lit(self, d, c, ref):
        r = self.alone(d, c['p'], c['t'], ref)
        text = recase(c['pre'] + c['t'] + c['post'], c['case'])
        self.expect_cli(d, text, ref, ['Date:\t%s\n' % r['d']], c['p'])
        return 'one ' + c['p']

    def k_one(self, d, c, ref):
        p = c['p']
        ph = pool.phrase(p, c['c'])
        exps = pool.expects(p, c['c'], ref)
        if exps == 'any' or any(e is None for e in exps) or tie([p, c['c']]):
            return ''
        text = recase(c['pre'] + ph + c['post'], c['case'])
        return 'one ' + p if self.expect_cli(d, text, ref, outs(exps), p) else ''

    @staticmethod
    def joined(date, time):
        """printed start and end of a date (start, end or None) with a time"""
        ds, de = date
        ts, te = time
        s = ds[:3] + ts
        e = None
        if de or te:
            e = (de or ds)[:3] + (te or ts)
            if not de and e < s:
                x = cal.add_days(e[:3], 1)
                if x is None:
                    return None
                e = x + e[3:]
        return s, e

    def k_dtl(self, d, c, ref):
        x, y = self.alone(d, c['p'], c['d'], ref), self.alone(d, 'txp', c['t'], ref)
        f = lambda r: (t6(r['s'][0]), t6(r['e'][0]) if r['e'] else None)
        tx = f(y)
        se = self.joined(f(x), (tx[0][3:], tx[1][3:] if tx[1] else None))
        if se is None:
            return ''
        text = (c['t'] + c['j'] + c['d'] if c['o'] else c['d'] + c['j'] + c['t']) + c['post']
        self.expect_cli(d, text, ref, [line(*se)], 'date and time')
        return 'date-time ' + c['p'] + (' rev' if c['o'] else '')

    def k_rgl(self, d, c, ref):
        x, y = self.alone(d, c['p'], c['d'], ref), self.alone(d, c['q'], c['e'], ref)
        a, b = t6(x['s'][0]), t6(y['s'][0])
        text = c['pre'] + c['d'] + c['j'] + c['e'] + c['post']
        self.expect_cli(d, text, ref, [line(min(a, b), max(a, b))], 'range')
        return 'range %s %s' % (c['p'], c['q'])

    def clash(self, pc, nxt, j):
        """would the first phrase run on into what follows?"""
        p, c = pc
        return p in ('mme', 'mnp') and nxt[:1].isdigit()

    def k_dt(self, d, c, ref):
        p, dc = c['d']
        dph = self.phr(c['d'])
        cc = {'a': c['a'], 'lead': ''}
        if c['b'] is not None:
            c2 = dict(cc, b=c['b'], j=c['tj'])
            if dates.C18.range_ok(c2) and not (c['o'] and False):
                cc = c2
        tph = pool.phrase('txp', cc)
        exps = pool.expects(p, dc, ref)
        te = dates_one(cc, ref)
        if exps == 'any' or any(e is None for e in exps) or te is None:
            return ''
        tm = (t6(te[0])[3:], t6(te[2])[3:] if te[2] else None)
        j = c['j']
        if not c['o'] and p == 'mme' and dc.get('y') is None:
            return ''                   # "may 5 10:30", "may 5, 1030": a year, or a time?
        if not c['o'] and p == 'mnp' and (dc.get('y') is None or not j.strip()):
            return ''                   # "june 2018 17:30": looks like a day behind the month
        if not c['o'] and p == 'iso' and not j.strip():
            pass
        if c['o'] and p == 'mnp' and not j.strip() and tph[-1].isdigit():
            return ''                   # "17:30 june": looks like a day in front of the month
        if c['o'] and re.match(r'on\s', dph) and 'on' in j:
            return ''
        if not c['o'] and dph.rstrip().endswith('.') and j[0] in ',':
            pass
        text = (tph + j + dph) if c['o'] else (dph + j + tph)
        off = 0
        post = c['post']
        if c['z']:
            z = c['z'].strip(' ()').upper()
            off = state.ZONES.get(z, 0)
            post = c['z']
        want = []
        for e in exps:
            se = self.joined((t6(e[0]), t6(e[2]) if e[2] else None), tm)
            if se is None:
                return ''
            a, b = [cal.add_secs(x, -60 * off) if x else None for x in se]
            if a is None or (se[1] and b is None):
                return ''
            want.append(line(a, b))
        if c['o'] and c['pre'] and c['pre'][-1] not in ' \t\n':
            return ''
        text = recase(c['pre'] + text + post, c['case'])
        if not self.expect_cli(d, text, ref, want, 'date and time'):
            return ''
        return 'date-time %s%s%s%s' % (p, ' rev' if c['o'] else '', ' range' if 'b' in cc else '', ' zone' if off else '')

    def k_rg(self, d, c, ref):
        (p, dc), (q, ec) = c['d'], c['e']
        x, y = self.phr(c['d']), self.phr(c['e'])
        ex, ey = pool.expects(p, dc, ref), pool.expects(q, ec, ref)
        if 'any' in (ex, ey) or any(e is None for e in list(ex) + list(ey)):
            return ''
        if any(e[2] for e in list(ex) + list(ey)):
            return ''
        ta = tb = None
        if 'a' in c:
            a = dates_one({'a': c['a'], 'lead': ''}, ref)
            b = dates_one({'a': c['b'], 'lead': ''}, ref)
            if a is None or b is None or y[:1].isdigit():
                return ''
            for r, k, j in ((p, dc, c['ja']), (q, ec, c['jb'])):
                if r == 'mnp' and not j.strip() or r in ('mme', 'mnp') and k.get('y') is None:
                    return ''
            ta, tb = t6(a[0])[3:], t6(b[0])[3:]
            x += c['ja'] + pool.phrase('txp', {'a': c['a'], 'lead': ''})
            y += c['jb'] + pool.phrase('txp', {'a': c['b'], 'lead': ''})
        elif y[:1].isdigit() and p in ('mme', 'mnp'):
            return ''
        if re.match(r'on\s', y) and q == 'mme' and not ec.get('wd'):
            return ''                   # a bare "on" stays out of the span: the gap is not a pure connector
        want = set()
        for e in ex:
            for f in ey:
                s, t = t6(e[0]), t6(f[0])
                if ta:
                    s, t = s[:3] + ta, t[:3] + tb
                want.add(line(min(s, t), max(s, t)))
        text = recase(c['pre'] + x + c['j'] + y + c['post'], c['case'])
        if not self.expect_cli(d, text, ref, sorted(want), 'range'):
            return ''
        return 'range %s %s%s' % (p, q, ' with times' if ta else '')

    def k_first(self, d, c, ref):
        text, exps = c['pre'], None
        for i, (pc, sep) in enumerate(zip(c['cs'], c['seps'])):
            ph = self.phr(pc)
            e = pool.expects(pc[0], pc[1], ref)
            if i < 2 and (e == 'any' or any(v is None for v in e) or tie(pc)):
                return ''
            if i == 0:
                exps = e
            if i and blen(text + ph + sep) > 850:
                break
            text += ph + sep
        if not self.expect_cli(d, recase(text, c['case']), ref, outs(exps), 'the first of several'):
            return ''
        return 'first %s of %d' % (c['cs'][0][0], len(c['cs']))

    def k_none(self, d, c, ref):
        text = recase(c['sep'].join(c['ws']), c['case'])
        return 'no date' if self.expect_cli(d, text, ref, [INVALID], 'no date in it') and text else ''

    def k_any(self, d, c, ref):
        text = c['text'].replace('\0', ' ')[:900]
        if blen(text) > 900:
            return ''
        stages = d.ask('X %s olr,tza,mdt,mdr %s %s' % (','.join(CLI), refs(ref), hx(text)))['stages']
        idx = [r['i'] for r in stages[0]]
        if len(set(idx)) != len(idx):
            # several readings that start at the same place: their order is not settled
            by = {}
            for r in stages[0]:
                by.setdefault(r['i'], []).append((r['n'], r['d']))
            if any(len({n for n, _ in v}) < len(v) or len(v) > 1 for v in by.values()):
                return ''
        last = stages[-1]
        want = INVALID if not last or last[0]['d'] is None else 'Date:\t%s\n' % last[0]['d']
        self.expect_cli(d, text, ref, [want], 'composition')
        return '' if want == INVALID else 'composition of %d' % len(idx)

    # ---- the real program, without a reference ------------------------------
    def extra(self, tier, seed, exes, stats):
        import random
        rnd = random.Random(seed)
        drv = Driver(exes['plain'])
        zones = ['UTC0', 'EST5', 'JST-9', 'NPT-5:45', 'HST10', 'LINT-14', 'XXX-13:45', 'UTC0']
        lits = [('cdp', 'now'), ('cdp', 'today'), ('cdp', 'tomorrow'), ('cdp', 'yesterday'), ('dow', 'monday'), ('dow', 'last friday'), ('dfp', 'in 5 days'), ('dfp', 'in 90 minutes'),
                ('tap', '2 days ago'), ('tap', '1 hour ago'), ('tlp', '3 weeks later'), ('tlp', '45 seconds from now'), ('hol', 'christmas'), ('wxp', 'last week'), ('txp', '5pm'), ('ctp', 'this morning'),
                ('mme', 'may 5'), ('mnp', 'june')]
        try:
            for i in range(60 if tier == 'quick' else 600):
                p, t = lits[i % len(lits)]
                case = {'k': 'real', 'p': p, 't': t, 'tz': zones[rnd.randrange(len(zones))], 'pre': rnd.choice(['', 'call bob '])}
                try:
                    self.real(exes, drv, case)
                    stats.add(case, 'current time ' + case['tz'])
                except Fail as e:
                    yield case, str(e)
                    return
        finally:
            drv.kill()

    def real(self, exes, drv, c):
        env = dict(os.environ, TZ=c['tz'])
        m = re.fullmatch(r'[A-Z]+(-?)(\d+)(?::(\d+))?', c['tz'])
        off = (60 * int(m.group(2)) + int(m.group(3) or 0)) * 60 * (1 if m.group(1) else -1)
        now = lambda: (datetime.datetime(1970, 1, 1) + datetime.timedelta(seconds=int(time.time()) + off)).timetuple()[:6]
        a = now()
        r = subprocess.run([exes['cli'], c['pre'] + c['t']], env=env, capture_output=True, timeout=60)
        b = now()
        if r.returncode != 0:
            raise Fail('program with %r and no reference in zone %s: status %d' % (c['t'], c['tz'], r.returncode))
        want, x = set(), tuple(a)
        while x <= tuple(b):
            want.add('Date:\t%s\n' % self.alone(drv, c['p'], c['t'], x)['d'])
            x = cal.add_secs(x, 1)
        if r.stdout.decode('latin1') not in want:
            raise Fail('program with %r and no reference at %s in zone %s prints %r, expected %s' % (c['pre'] + c['t'], cal.render(a), c['tz'], r.stdout, sorted(want)))


# ------------------------------------------------------------------------ C01
USAGE = 'Usage: ./main [test string] [reference date] (last argument is optional) \nIf reference date is provided, format should be YYYY-MM-DD HH:MM:SS\n'
LINE = re.compile(r'Date:\t(.+)\n')


def printed_ok(out):
    if out == INVALID:
        return True
    m = LINE.fullmatch(out)
    return bool(m) and parse_range(m.group(1)) is not None


class C01(Prop):
    id = 'C01'
    kinds = ['asan', 'plain']
    fuzz_kinds = ['fuzz', 'debug']
    rule = ('texts of at most 1,000 bytes: arbitrary bytes, arbitrary Unicode, phrases, mutated phrases, soups with junk, huge numbers, long repetitions of one piece; every recogniser '
            'and the program, under address and undefined-behaviour sanitizers and (long repetitions) with the ordinary stack; argument lists of 0 to 5 arguments, well-formed and malformed '
            'references; a coverage-guided fuzzing run over (recogniser or program, reference, text) with a corpus of phrases; and a sample under valgrind for uninitialised values. '
            'Non-trivial: the text is recognised by at least one recogniser, or contains a byte outside ASCII letters, digits and spaces, or an argument list that asks for the usage text')
    quick, thorough = 260, 9000
    recycle = 4000
    PIECES = ['a', '1', ' ', '  1', '12:', '9', '-', '\u2013', '5 days ', '5 days ago ', 'monday ', 'may ', 'may 5, ', 'next ', 'last night ', '10:10 - ', '5pm to ', '2019-03-15', 'in 5 ', 'half a ',
              'a', '1 hour 1 min ', 'T', '1st ', 'twenty ', 'twenty-first', 'this ', "new year's ", 'at ', 'noon', '. ', ', ', '\t', '\n', '(', 'est ', 'p.m. ', '0', '99', ' \u3000', '\xff', 'o clock ',
              '5  ', 'few ', 'an ', 'week ', 'from ', '1.1:', 'bc ', '2018 ad ', '1400-1-1T', '+0530', '- ', ' to ', 'and ', '5-', 'may-', 'jan. ', 'days ', 'week']

    def enum(self, tier):
        n = 0
        for p in self.PIECES:
            for k in (1, 2, 5, 20, 100, 1000):
                s = (p * k).encode('utf-8', 'surrogateescape')[:1000]
                n += 1
                for pre, post in ((b'', b''), (b'5 ', b' ago'), (b'may 5 ', b''), (b'in ', b' days'), (b'', b' 5pm to 6 pm')):
                    t = (pre + s + post)[:1000] if post == b'' else pre + s[:1000 - len(pre) - len(post)] + post
                    yield {'k': 'text', 't': t.hex(), 'ref': REFS[n % len(REFS)], 'on': 'plain' if k > 5 else 'asan'}
        for b in range(256):                               # every byte alone, in and next to phrases
            for f in ('%s', '5%sdays ago', 'may%s5', '%smay 5%s', '5pm%s', '10%s30', '5 days%s ago', 'at%s5'):
                t = f.replace('%s', '\0').encode().replace(b'\0', bytes([b]))
                yield {'k': 'text', 't': t.hex(), 'ref': REFS[b % len(REFS)], 'on': 'asan'}
        ok, bad = '2019-03-15 12:30:45', ['', ' ', 'x', 'today', 'not a date', '....', '-', ':', 'YYYY-MM-DD HH:MM:SS', '\xff\xfe', '?' * 500]
        for args in ([], ['today', ok, 'x'], ['today', ok, ok, ok], [''] * 5, ['a', 'b', 'c']):
            yield {'k': 'args', 'a': args, 'want': 'usage'}
        for b in bad:
            for t in ('today', '', 'hello'):
                yield {'k': 'args', 'a': [t, b], 'want': 'usage'}
        for b in ('1399-12-31 10:00:00', '10000-01-01 10:00:00', '2019-02-29 10:00:00', '2019-13-01 10:00:00', '2019-00-10 10:00:00', '2019-04-31 00:00:00', '0000-00-00 00:00:00',
                  '2019-3 10:00:00', '2019 10:00:00', 'today 10:00:00'):
            yield {'k': 'args', 'a': ['today', b], 'want': 'usage'}
        for b in (ok, '1400-01-01 00:00:00', '9999-12-31 23:59:59', '2020-02-29 00:00:00'):
            for t in ('today', '', 'hello', 'tomorrow', 'yesterday', '9pm - 1am'):
                yield {'k': 'args', 'a': [t, b], 'want': 'line'}
        for t in ('today', '', 'hello', 'now', '\xff', 'next month', 'in 5 days'):
            yield {'k': 'args', 'a': [t], 'want': 'line'}
        # two expressions at the edges of the calendar, refined
        for a in ('dec 31 9999', '9999-12-31', 'dec 31', 'december 31st', 'today', 'tomorrow', 'jan 1 1400', '1400-01-01', 'jan 1', 'yesterday', 'friday', 'sunday', 'saturday', 'last week', "new year's eve",
                  'in 1 day', '1 day ago', '1 second from now', 'dec 30 to 31', 'dec 30 to 31 9999'):
            for b in ('9pm - 1am', 'from 23:00 to 22:00', '12am', '23:59:59 pst', '0:00 nzst', '1am - 2am lint', 'at 11:59pm nut', 'at noon', 'to 9999-12-31', '- jan 1 1400', 'and tomorrow', 'at 24:00',
                      '24:00 - 23:00', 'at 9 pm to midnight'):
                for r in ('9999-12-31 23:59:59', '1400-01-01 00:00:00', '9999-12-31 00:00:00', '1400-01-01 23:59:59'):
                    yield {'k': 'args', 'a': [a + ' ' + b, r], 'want': 'line'}
                    if r[11] == '0':
                        yield {'k': 'args', 'a': [b + ' ' + a, r], 'want': 'line'}

    def strategy(self, tier):
        ref = st.one_of(gen.ref(), st.sampled_from(REFS), st.sampled_from(EDGE_REFS))
        utf = lambda s: s.encode('utf-8', 'surrogatepass')
        rep = st.builds(lambda a, p, k, b: utf(a) + utf(p) * k + utf(b), st.sampled_from(['', '5 ', 'may ', 'in ', 'last ', '2 days ']), st.one_of(st.sampled_from(self.PIECES), pool.soup(3, True)),
                        st.integers(2, 200), st.sampled_from(['', ' ago', ' later', ' days', ' 5pm', ' from now', ', 2019', ' est']))
        huge = st.builds(lambda f, n: utf(f.replace('#', str(n))), st.sampled_from(
            ['in # days', '# years ago', '# hours # minutes from now', 'next # months', 'last # weeks', 'may #', 'may 5, #', '#:#', '#pm', '#-#-#', '#-03-15T#:#:#+#', 'june #', 'within # seconds',
             'in #.5 days', '#.# hours ago', '# to #', 'from # to # pm', 'this # years', 'next # weeks', '# half years later', '#th', 'may #th to #nd, # bc']),
            st.one_of(st.integers(0, 10 ** 25), st.integers(2 ** 31 - 2, 2 ** 31 + 2), st.integers(2 ** 63 - 2, 2 ** 63 + 2), st.integers(0, 10 ** 9), st.integers(10 ** 30, 10 ** 60), st.integers(0, 99999)))
        text = st.one_of(st.binary(max_size=60), st.binary(max_size=1000), st.text(max_size=120).map(utf), pool.text(junk=True).map(utf), pool.soup(14, True).map(utf), pool.soup(6, True).map(utf),
                         pool.mutated().map(utf), rep, huge, huge)
        t = st.builds(lambda t, r, on: {'k': 'text', 't': t[:1000].hex(), 'ref': r, 'on': on}, text, ref, st.sampled_from(['asan', 'asan', 'asan', 'plain']))
        field = st.sampled_from(['2019', '03', '15', '12', '30', '45', '00', '99', '1400', '9999', '10000', '1399', '13', '32', 'x', '', '-1', '1e3', ' ', '2019-03-15', '12:30:45', '.5', '12.5', 'feb', 'Mar'])
        sep = st.sampled_from(['-', ':', ' ', '', '/', 'T', ',', '.', '  '])
        rarg = st.one_of(st.lists(st.one_of(field, sep), min_size=0, max_size=12).map(''.join), st.text(max_size=20), st.binary(max_size=12).map(lambda b: b.decode('latin1')),
                         ref.map(ref_arg), ref.map(ref_arg))
        a = st.builds(lambda n, t, r: {'k': 'args', 'a': ([t, r] + ['x'] * 4)[:n], 'want': None}, st.sampled_from([0, 1, 2, 2, 2, 2, 2, 3, 4, 5]), pool.soup(3), rarg)
        return st.one_of(t, t, t, t, t, a)

    def drv(self, drvs, kind):
        d = drvs[kind]
        if kind in ('asan', 'fuzz') and not d.wrap:     # the sanitizers need far more stack per call
            d.wrap = ['/bin/sh', '-c', 'ulimit -s 1000000 2>/dev/null; exec "$0"']
        return d

    def run(self, drvs, c):
        if c['k'] == 'args':
            d = self.drv(drvs, 'asan')
            a = [x.replace('\0', ' ') for x in c['a']]
            got = d.cli(*a)
            ctx = 'the program with arguments %r' % a
            if got['rc'] != 0:
                raise Fail('%s: exit status %s' % (ctx, got['rc']))
            out = got['out']
            want = c['want']
            if len(a) not in (1, 2):
                want = 'usage'
            if out == USAGE or (out.startswith('Usage') and out.count('\n') >= 1 and 'Date:' not in out and '[???]' not in out):
                if want == 'line' or (len(a) == 2 and re.fullmatch(r'(1[4-9]|[2-9]\d)\d\d-\d\d-\d\d ([01]\d|2[0-3]):[0-5]\d:[0-5]\d', a[1]) and cal.valid(*map(int, a[1][:10].split('-')))):
                    raise Fail('%s prints its usage' % ctx)
                return 'usage'
            if want == 'usage':
                raise Fail('%s prints %r instead of its usage' % (ctx, out))
            if not printed_ok(out):
                raise Fail('%s prints %r' % (ctx, out))
            return 'arguments'
        if c['k'] == 'fuzz':
            return self.run_fuzz(drvs['fuzz'].exe if 'fuzz' in drvs else _build.build('fuzz'), bytes.fromhex(c['data']))
        if c['k'] == 'vg':
            return self.run_vg(_build.build('debug'), c)
        t = bytes.fromhex(c['t'])[:1000]
        text = t.decode('utf-8', 'surrogateescape')
        d, ref = self.drv(drvs, c['on']), tuple(c['ref'])
        cls = ''
        for p in pool.ALL:
            got = d.parse(p, ref, text)
            for r in got['r']:
                cls = 'result'
                if r['i'] < 0 or r['n'] < 0 or r['i'] + r['n'] > len(t):
                    raise Fail('%s %r: a span of %d+%d in %d bytes' % (p, t, r['i'], r['n'], len(t)))
        a = t.replace(b'\0', b' ').decode('utf-8', 'surrogateescape')
        got = d.cli(a, ref_arg(ref))
        if got['rc'] != 0 or not printed_ok(got['out']):
            raise Fail('the program with %r at %s: status %s, prints %r' % (t, cal.render(ref), got['rc'], got['out']))
        odd = any(not (chr(b).isalnum() or b == 32) or b > 126 for b in t)
        return (c['on'] + ' ' + (cls or ('no result, odd bytes' if odd else ''))) if cls or odd else ''

    # ---- coverage-guided fuzzing and valgrind -------------------------------
    FUZZ_ENV = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:allocator_may_return_null=1', UBSAN_OPTIONS='print_stacktrace=0', TZ='UTC')

    def fuzz_cmd(self, exe, *args):
        return ['/bin/sh', '-c', 'ulimit -s 1000000 2>/dev/null; exec "$0" "$@"', exe] + list(args)

    def run_fuzz(self, exe, data):
        import tempfile
        with tempfile.NamedTemporaryFile(dir=_build.BUILD) as f:
            f.write(data)
            f.flush()
            r = subprocess.run(self.fuzz_cmd(exe, '-timeout=100', f.name), capture_output=True, env=self.FUZZ_ENV, timeout=300)
        if r.returncode:
            keep = [l for l in r.stderr.decode('utf-8', 'replace').splitlines() if 'ERROR' in l or 'runtime error' in l or 'SUMMARY' in l or 'what()' in l]
            raise Fail('what=%s text %r: %s' % ((pool_names() + ['program'])[data[0] % 14], data[6:1006], ' | '.join(keep[:4])[:500]))
        return 'fuzz'

    def seeds(self, rnd):
        """corpus of the fuzzer: phrases of every recogniser"""
        out = []
        for i, p in enumerate(pool_names()):
            for t in ('today', 'this morning', 'last friday', 'may 5 to 7, 2018 ad', 'june 2019', '2 days 3 hours ago', '3 weeks from now', 'half a year earlier', 'from 10:30 to 11 p.m.', '2019-03-15T10:11:12.5+05:30',
                      "new year's eve", 'next 2 weeks', 'in a few days', 'within half an hour', 'next half year', 'last few months', 'late monday next week', 'twenty-first', 'sat, dec 25th - 26th', 'noon est',
                      'tomorrow at 5pm', 'may 5 to june 7', 'monday and friday', 'at 7.15', '9pm - 1am'):
                ref = bytes(rnd.randrange(256) for _ in range(5))
                out.append(bytes([i]) + ref + t.encode())
                out.append(bytes([13]) + ref + t.encode())
        return out

    def extra(self, tier, seed, exes, stats):
        import random, shutil, tempfile
        rnd = random.Random(seed)
        jobs = int(os.environ.get('VERIF_JOBS', os.cpu_count() or 4))
        exe = _build.build('fuzz')
        dbg = _build.build('debug')
        tmp = tempfile.mkdtemp(prefix='fuzz', dir=_build.BUILD)
        try:
            ps = []
            for j in range(max(1, jobs // 2)):
                d = os.path.join(tmp, 'c%d' % j)
                os.mkdir(d)
                for i, s in enumerate(self.seeds(rnd)):
                    with open(os.path.join(d, 's%d' % i), 'wb') as f:
                        f.write(s)
                secs = 70 if tier == 'quick' else 3 * 3600
                log = open(os.path.join(tmp, 'log%d' % j), 'wb')
                ps.append(subprocess.Popen(self.fuzz_cmd(exe, '-seed=%d' % (seed * 100 + j + 1), '-max_total_time=%d' % secs, '-max_len=1006' if j % 2 else '-max_len=120', '-timeout=100', '-len_control=20',
                                                         '-dict=' + os.path.join(VERIF, 'driver', 'words.dict'), '-artifact_prefix=' + os.path.join(tmp, 'crash%d-' % j), '-print_final_stats=1', d),
                                           stdout=log, stderr=log, env=self.FUZZ_ENV))
            # meanwhile: valgrind on a sample
            bad = []
            import concurrent.futures as cf
            cases = self.vg_cases(rnd, 60 if tier == 'quick' else 6000)

            def vg(c):
                try:
                    return c, self.run_vg(dbg, c), None
                except VgFail as e:
                    return e.case, '', str(e)
            with cf.ThreadPoolExecutor(max(1, jobs - jobs // 2)) as ex:
                for c, cls, err in ex.map(vg, cases):
                    if err:
                        bad.append((c, err))
                    else:
                        for q in c['q']:
                            stats.add({'k': 'vg', 'q': [q]}, cls)
            total = 0
            for j, p in enumerate(ps):
                p.wait()
                log = open(os.path.join(tmp, 'log%d' % j), 'rb').read().decode('utf-8', 'replace')
                m = re.search(r'stat::number_of_executed_units:\s*(\d+)', log)
                n = int(m.group(1)) if m else 0
                total += n
                arts = [f for f in os.listdir(tmp) if f.startswith('crash%d-' % j)]
                for a in arts:
                    data = open(os.path.join(tmp, a), 'rb').read()
                    small = os.path.join(tmp, 'min%d' % j)
                    if 'timeout-' not in a:
                        try:
                            subprocess.run(self.fuzz_cmd(exe, '-minimize_crash=1', '-runs=20000', '-max_total_time=40', '-exact_artifact_path=' + small, os.path.join(tmp, a)), capture_output=True,
                                           env=self.FUZZ_ENV, timeout=200)
                        except subprocess.TimeoutExpired:
                            pass
                        if os.path.exists(small):
                            data = open(small, 'rb').read()
                    try:
                        self.run_fuzz(exe, data)
                    except Fail as e:
                        bad.append(({'k': 'fuzz', 'data': data.hex()}, str(e)))
                if p.returncode != 0 and not arts:
                    raise DriverError('the fuzzer ended with status %d: %s' % (p.returncode, log[-800:]))
                cov = [f for f in os.listdir(os.path.join(tmp, 'c%d' % j)) if not f.startswith('s')]
                for f in cov[:400]:           # inputs that reached new code
                    data = open(os.path.join(tmp, 'c%d' % j, f), 'rb').read()
                    stats.add({'k': 'fuzz', 'data': data.hex()}, 'fuzzed: new coverage')
            stats.n += total
            for b in bad:
                yield b
        finally:
            shutil.rmtree(tmp, ignore_errors=True)

    VG_TEXTS = ['today', 'last night', 'this morning', 'last friday next week', 'may 5 to 7, 2018 ad', 'june', 'june 2019 bc', '2 days 3 hours ago', 'half a year from now', 'from 10:30 to 11 p.m.', '5pm est',
                '2019-03-15T10:11:12+05:30', "new year's eve", 'next 2 weeks', 'in a few days', 'within half an hour', 'next half year', 'this month', 'tomorrow at 5pm', 'may 5 to june 7', 'monday, 9pm - 1am',
                '', '99:99', 'may 99', 'in 99999999999 days', '\xff\xfe 5 days ago', 'memorial day', 'noon midnight tonight', 'christmas and thanksgiving', 'next week at 10:15:30']

    def vg_cases(self, rnd, n):
        """each recogniser with n phrases of its own kinds, the program with some of them, and everything with fixed texts"""
        out = []
        for p in pool.ALL:
            cs = list(itertools.islice(pool.kinds_of(p, rnd), n // 3 if p == 'mme' else n))
            q = [[p, pool.phrase(p, c), list(c['ref'])] for c in cs]
            out += [{'k': 'vg', 'q': q[k:k + 120]} for k in range(0, len(q), 120)]
            q = [['C', t, r] for _, t, r in q[:n // 10]]
            out += [{'k': 'vg', 'q': q[k:k + 40]} for k in range(0, len(q), 40)]
        texts = list(self.VG_TEXTS)
        rnd.shuffle(texts)
        for k in range(0, len(texts), 6):
            r = REFS[rnd.randrange(len(REFS))]
            out.append({'k': 'vg', 'q': [[p, t, r] for t in texts[k:k + 6] for p in pool.ALL + ['C']]})
        return out

    def run_vg(self, exe, c):
        """the requests of the case under memcheck; any error is a failure"""
        req = []
        for p, t, r in c['q']:
            req.append('C %s %s' % (hx(t), hx(ref_arg(r))) if p == 'C' else 'P %s %s %s' % (p, refs(r), hx(t)))
        r = subprocess.run(['valgrind', '-q', '--error-exitcode=97', '--leak-check=no', '--main-stacksize=64000000', exe], input=('\n'.join(req) + '\n').encode(), capture_output=True,
                           env=dict(os.environ, TZ='UTC'), timeout=800)
        if r.returncode:
            if len(c['q']) > 1:                        # which of them
                for half in (c['q'][:len(c['q']) // 2], c['q'][len(c['q']) // 2:]):
                    self.run_vg(exe, {'k': 'vg', 'q': half})
            keep = [l for l in r.stderr.decode('utf-8', 'replace').splitlines() if l.startswith('==')]
            raise VgFail(c, 'memcheck on %r: status %d %s' % (c['q'], r.returncode, ' | '.join(keep[:8])[:600]))
        return 'memcheck'


class VgFail(Fail):
    def __init__(self, case, msg):
        super().__init__(msg)
        self.case = case


def pool_names():
    return ['ctp', 'dfp', 'dow', 'cdp', 'mme', 'tlp', 'mnp', 'tap', 'txp', 'iso', 'hol', 'wxp', 'rel']
