#!/usr/bin/env python3
"""known_findings.txt from the fix commits of /repo (developer helper; the file is committed)."""
import subprocess
MAP = {  # words of the subject -> property
 '24:01 to 24:59': 'C02', 'was taken for the time of day of the next date': 'C25', 'kept the space behind it, which made "friday': 'C25', 'kept the space behind it, which made "5pm': 'C25',
 'hiding a time zone': 'C22', 'text of counts and units': 'C26', 'noon a friend': 'C18', '24:00 on the last day': 'C02', 'tnoon': 'C04', 'apr 0012': 'C14', 'apr 5-2018': 'C15',
 'single leading space': 'C14', 'range from midnight': 'C18', 'HHMM': 'C18', 'were not tagged': 'C27', 'five letters': 'C22', 'was moved by twelve': 'C18', 'year 1 BC': 'C14', '"early" and "late"': 'C13',
 'bare weekday': 'C23', 'refining past the end': 'C01', 'malformed reference': 'C01', 'wrapped around': 'C02', '16777216': 'C08', 'tested for a range over': 'C24', 'one character too long': 'C24',
 'given latest first': 'C24', 'dropped the last result': 'C24', 'stayed behind': 'C23', 'passes the end of a month': 'C23', 'dropped the timezone': 'C23', 'added the timezone offset': 'C22',
 'replaced the text': 'C22', 'never on the end': 'C22', 'passes midnight (9pm': 'C18', 'seventeenth': 'C15', 'lost their sign': 'C17', 'do not exist': 'C17', 'unknown word': 'C12', 'black friday': 'C16',
 'christmas never': 'C16', 'day range in words': 'C15', 'month, day and year only': 'C15', '2019 BC': 'C14', 'May." threw': 'C14', 'preceding word': 'C03', 'left out the separator': 'C03',
 'already in the afternoon': 'C18', '10:75:30': 'C18', 'uninitialized': 'C01', '"tomorrow " took': 'C25', 'martin luther king were': 'C16', 'leading space, so none': 'C11', '"min"/"mins"': 'C11', 'hrs, mins': 'C08', 'stayed on the reference day': 'C08',
 'half a <unit>': 'C09', 'did not carry hours': 'C09', 'left the calendar and reported': 'C09', 'looked for the preceding': 'C09', '"later" pattern': 'C10', '"ago" pattern': 'C09', 'mismatched parentheses': 'C13',
 'let the exception through': 'C01', 'Feb 31': 'C02', 'setTag': 'C20', 'isCertain("min")': 'C19',
}
EXACT = {'4e3459f': 'C09', '86d2e6c': 'C09', 'b763c0c': 'C23', '120bfee': 'C13', '2ff0b6f': 'C15'}
out = []
log = subprocess.run(['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s'], capture_output=True, text=True).stdout.splitlines()
for l in log:
    h, s = l.split(' ', 1)
    if not s.startswith('fix: '):
        continue
    s = s[5:]
    ps = [p for k, p in MAP.items() if k in s]
    p = EXACT.get(h) or (ps[0] if ps else None)
    if not p:
        raise SystemExit('no property for ' + l)
    out.append('fixed: property=%s %s %s' % (p, h, s))
open('/verif/known_findings.txt', 'w').write('\n'.join(out) + '\n')
print(len(out))
