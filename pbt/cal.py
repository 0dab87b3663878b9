"""Calendar arithmetic of the oracles: proleptic Gregorian, years 1400 to 9999.
Nothing here looks at the library."""
import datetime as _d

LO, HI = 1400, 9999
MON = ['Jan', 'Feb', 'Mar', 'Apr', 'May', 'Jun', 'Jul', 'Aug', 'Sep', 'Oct', 'Nov', 'Dec']


def leap(y):
    return y % 4 == 0 and (y % 100 != 0 or y % 400 == 0)


def mdays(y, m):
    return (31, 29 if leap(y) else 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31)[m - 1]


def valid(y, m, d):
    return LO <= y <= HI and 1 <= m <= 12 and 1 <= d <= mdays(y, m)


_CUM = [0]
for _m in range(1, 13):
    _CUM.append(_CUM[-1] + (31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31)[_m - 1])


def ordinal(y, m, d):
    p = y - 1
    return p * 365 + p // 4 - p // 100 + p // 400 + _CUM[m - 1] + (1 if m > 2 and leap(y) else 0) + d


ORD_LO, ORD_HI = ordinal(LO, 1, 1), ordinal(HI, 12, 31)


def from_ordinal(n):
    """(y, m, d), or None off the calendar"""
    if not ORD_LO <= n <= ORD_HI:
        return None
    y = n // 366 + 1
    while ordinal(y + 1, 1, 1) <= n:
        y += 1
    m = 1
    while m < 12 and ordinal(y, m + 1, 1) <= n:
        m += 1
    return (y, m, n - ordinal(y, m, 1) + 1)


def weekday(y, m, d):
    """Sunday = 0"""
    return ordinal(y, m, d) % 7


def add_days(date, n):
    return None if date is None else from_ordinal(ordinal(*date) + n)


def add_months(date, n):
    """Clamps to the end of the month; the last day of a month stays the last day."""
    if date is None:
        return None
    y, m, d = date
    last = d == mdays(y, m)
    t = y * 12 + m - 1 + n
    y2, m2 = divmod(t, 12)
    m2 += 1
    if not LO <= y2 <= HI:
        return None
    e = mdays(y2, m2)
    return (y2, m2, e if last or d > e else d)


def add_secs(ref, n):
    """ref = (y,m,d,H,M,S) -> the same moved by n seconds, or None"""
    t = ordinal(*ref[:3]) * 86400 + ref[3] * 3600 + ref[4] * 60 + ref[5] + n
    day = from_ordinal(t // 86400)
    if day is None:
        return None
    s = t % 86400
    return day + (s // 3600, s // 60 % 60, s % 60)


def secs(t6):
    return ordinal(*t6[:3]) * 86400 + t6[3] * 3600 + t6[4] * 60 + t6[5]


def render(t6):
    return '%04d-%s-%02d %02d:%02d:%02d' % (t6[0], MON[t6[1] - 1], t6[2], t6[3], t6[4], t6[5])


def nth_weekday(y, m, wd, n):
    """n-th (1..) weekday wd (Sunday = 0) of the month"""
    d = 1 + (wd - weekday(y, m, 1)) % 7 + 7 * (n - 1)
    return (y, m, d)


def last_weekday(y, m, wd):
    e = mdays(y, m)
    return (y, m, e - (weekday(y, m, e) - wd) % 7)


def selftest():
    for y in (1400, 1500, 1600, 1899, 1900, 1904, 2000, 2019, 2024, 2100, 9999):
        for m in range(1, 13):
            for d in (1, 2, 15, 27, 28, mdays(y, m)):
                p = _d.date(y, m, d)
                assert ordinal(y, m, d) == p.toordinal() and from_ordinal(p.toordinal()) == (y, m, d)
                assert weekday(y, m, d) == p.isoweekday() % 7
