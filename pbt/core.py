"""Runner: driver processes, enumeration and Hypothesis workers, shrinking,
confirmation in fresh processes, replay files, evidence."""
import collections, hashlib, json, multiprocessing, os, random, resource, select, signal, subprocess, sys, time, traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)
import build as _build

HANG_S = 45           # no answer for this long on a text of 1 KB is a hang (they take milliseconds)
MEM = 6 << 30         # address space of an uninstrumented driver


class Fail(Exception):
    """the property does not hold for the case at hand"""


class DriverError(Exception):
    """the machinery itself is broken"""


def hx(s):
    if isinstance(s, str):
        s = s.encode('utf-8', 'surrogateescape')
    return s.hex() if s else '-'


def refs(r):
    return ','.join(map(str, r))


class Driver:
    """One driver process.  ask() raises Fail when the code under test crashes,
    hangs or lets an exception out."""

    def __init__(self, exe, wrap=(), recycle=20000):
        self.exe, self.wrap, self.recycle = exe, list(wrap), recycle
        self.limit = None if any(k in exe for k in ('asan-', 'fuzz-')) else lambda: resource.setrlimit(resource.RLIMIT_AS, (MEM, MEM))
        self.p = None
        self.log = []

    def start(self):
        self.close()
        env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:hard_rss_limit_mb=4000',
                   UBSAN_OPTIONS='print_stacktrace=0:exitcode=99', TZ='UTC')
        self.errf = open(os.path.join(_build.BUILD, 'stderr-%d-%d' % (os.getpid(), id(self))), 'w+b')
        os.unlink(self.errf.name)
        self.p = subprocess.Popen(self.wrap + [self.exe], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=self.errf,
                                  env=env, bufsize=0, preexec_fn=self.limit)
        self.buf = b''
        self.log = []

    def close(self):
        if self.p:
            try:
                self.p.stdin.close()
            except OSError:
                pass
            try:
                self.p.wait(20)
            except subprocess.TimeoutExpired:
                self.p.kill()
                self.p.wait()
            self.p.stdout.close()
            self.errf.close()
        self.p = None

    def kill(self):
        if self.p:
            self.p.kill()
            self.p.wait()
            self.p.stdout.close()
            self.errf.close()
        self.p = None

    def _dead(self, what):
        self.errf.seek(0)
        err = self.errf.read().decode('utf-8', 'replace')
        keep = [l for l in err.splitlines() if 'ERROR' in l or 'runtime error' in l or 'SUMMARY' in l or 'Assertion' in l
                or 'terminate' in l or 'what()' in l or '==' in l[:4]]
        rc = self.p.poll()
        self.kill()
        raise Fail('%s (status %s) %s' % (what, rc, ' | '.join(keep[:6])[:600]))

    def raw(self, line):
        if self.p is None or len(self.log) >= self.recycle:
            self.start()
        self.log.append(line)
        try:
            self.p.stdin.write(line.encode() + b'\n')
        except OSError:
            self._dead('the program died')
        fd = self.p.stdout.fileno()
        while b'\n' not in self.buf:
            r, _, _ = select.select([fd], [], [], HANG_S)
            if not r:
                self._dead('no answer within %d s' % HANG_S)
            chunk = os.read(fd, 1 << 16)
            if not chunk:
                try:
                    self.p.wait(30)
                except subprocess.TimeoutExpired:
                    pass
                self._dead('the program died')
            self.buf += chunk
        out, self.buf = self.buf.split(b'\n', 1)
        return out

    def ask(self, line):
        out = json.loads(self.raw(line))
        if isinstance(out, dict) and 'exc' in out:
            if out.get('driver'):
                raise DriverError(out['exc'] + ' for ' + line)
            raise Fail('uncaught exception: %s' % out['exc'])
        return out

    # -- requests -------------------------------------------------------------
    def parse(self, parser, ref, text, fresh=False):
        return self.ask('%s %s %s %s' % ('p' if fresh else 'P', parser, refs(ref), hx(text)))

    def cli(self, *args):
        return self.ask('C' + ''.join(' ' + hx(a) for a in args))

    def refine(self, refiner, anchor, text, specs):
        return self.ask('R %s %s %s %d%s' % (refiner, refs(anchor), hx(text), len(specs), ''.join(' ' + s for s in specs)))


class Prop:
    id = None
    kinds = ['plain']
    rule = ''
    level_note = ''
    quick = 3500         # Hypothesis examples per worker
    thorough = 40000
    workers = 8
    recycle = 20000

    def enum(self, tier):
        return iter(())

    def cases(self, tier):
        """the enumerated cases as they are run"""
        return self.enum(tier)

    def simpler(self, case):
        """simpler variants of an enumerated case"""
        return iter(())

    def strategy(self, tier):
        return None

    def run(self, drv, case):
        """Raises Fail; returns the class of the case ('' = trivial)."""
        raise NotImplementedError

    def extra(self, tier, seed, drvs, stats):
        """further phases in the main process: yields failing (case, message)"""
        return iter(())


class Stats:
    def __init__(self):
        self.n = 0
        self.seen = set()
        self.classes = collections.Counter()
        self.samples = {}

    def add(self, case, cls):
        self.n += 1
        if cls:
            self.classes[cls] += 1
            key = json.dumps(case, sort_keys=True)
            self.seen.add(hashlib.blake2b(key.encode(), digest_size=8).digest())
            if cls not in self.samples and len(self.samples) < 40:
                self.samples[cls] = case

    def merge(self, o):
        self.n += o.n
        self.seen |= o.seen
        self.classes.update(o.classes)
        for k, v in o.samples.items():
            self.samples.setdefault(k, v)


def _worker(prop, exes, tier, seed, w, nw, deadline, q):
    random.seed(seed * 1000 + w)
    drvs = {k: Driver(e, recycle=prop.recycle) for k, e in exes.items()}
    st = Stats()
    fail = None
    note = ''
    try:
        cur = None
        # ---- enumeration
        try:
            for i, case in enumerate(prop.cases(tier)):
                if i % nw != w:
                    continue
                cur = case
                st.add(case, prop.run(drvs, case))
                if (st.n & 255) == 0 and time.time() > deadline:
                    note = 'enumeration cut short'
                    break
        except Fail as e:
            fail = (cur, str(e), {k: list(d.log) for k, d in drvs.items()}, 'enumeration')
        # ---- random search
        strat = prop.strategy(tier) if fail is None else None
        if strat is not None:
            import hypothesis as hy
            last = {}

            @hy.seed(seed * 1000 + w)
            @hy.settings(max_examples=prop.quick if tier == 'quick' else prop.thorough, database=None, deadline=None,
                         suppress_health_check=list(hy.HealthCheck), report_multiple_bugs=False,
                         phases=[hy.Phase.generate, hy.Phase.target, hy.Phase.shrink], print_blob=False,
                         verbosity=hy.Verbosity.quiet)
            @hy.given(strat)
            def go(case):
                if time.time() > deadline and not last:
                    return
                try:
                    cls = prop.run(drvs, case)
                except Fail as e:
                    if 'first' in last and 'no answer within' in str(last['min'][1]):
                        raise KeyboardInterrupt
                    if 'first' not in last:
                        last['first'] = (case, str(e), {k: list(d.log) for k, d in drvs.items()})
                        last['t'] = time.time()
                    last['min'] = (case, str(e))
                    if time.time() - last['t'] > 120 or 'no answer within' in str(e):      # shrinking goes on too long: keep what we have
                        raise KeyboardInterrupt
                    raise
                st.add(case, cls)

            try:
                go()
            except BaseException as e:
                if not last:
                    raise
            if last:
                fail = (last['min'][0], last['min'][1], last['first'][2], 'random search', last['first'][0])
        q.put((w, st, fail, note, None))
    except BaseException:
        q.put((w, st, None, note, traceback.format_exc()))
    finally:
        for d in drvs.values():
            d.kill()


def confirm(prop, exes, case, history=None, times=3):
    """how often does the case fail in a fresh process (after the given history)?"""
    n, msg = 0, ''
    for _ in range(times):
        drvs = {k: Driver(e, recycle=10 ** 9) for k, e in exes.items()}
        try:
            if history:
                for k, lines in history.items():
                    for l in lines:
                        try:
                            drvs[k].raw(l)
                        except Fail:
                            pass
            prop.run(drvs, case)
        except Fail as e:
            n, msg = n + 1, str(e)
        finally:
            for d in drvs.values():
                d.kill()
        if n == 2 and 'no answer within' in msg:
            break                             # every try takes long
    return n, msg


def shrink_history(prop, exes, case, hist):
    """drop requests from the history while the case still fails after it"""
    t0 = time.time()
    for k in list(hist):
        lines = hist[k]
        step = max(1, len(lines) // 2)
        while step >= 1 and time.time() - t0 < 100:
            i = 0
            while i < len(lines) and time.time() - t0 < 100:
                cut = lines[:i] + lines[i + step:]
                if confirm(prop, exes, case, dict(hist, **{k: cut}), 1)[0]:
                    lines = cut
                    hist = dict(hist, **{k: lines})
                else:
                    i += step
            step //= 2
    return hist


def write_replay(prop, case, msg, history=None):
    d = os.path.join(VERIF, 'replays')
    os.makedirs(d, exist_ok=True)
    body = {'property': prop.id, 'case': case, 'message': msg}
    if history:
        body['history'] = history
    name = '%s-%s.json' % (prop.id, hashlib.sha1(json.dumps(case, sort_keys=True).encode()).hexdigest()[:10])
    path = os.path.join(d, name)
    with open(path, 'w') as f:
        json.dump(body, f, indent=1)
    return path


def load_known(pid):
    """known_findings.txt: 'finding: property=<id> key=<key> <text>' lines suppress exactly the failures with that key"""
    out = []
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('finding: property=%s ' % pid):
                out.append(l[len('finding: property=%s ' % pid):])
    return out


def run_check(prop, tier, seed):
    t0 = time.time()
    exes = {}
    for k in prop.kinds:
        exes[k] = _build.build(k)
    budget = float(os.environ.get('VERIF_BUDGET', '0')) or (420 if tier == 'quick' else 6 * 3600)
    deadline = time.time() + budget
    for l in load_known(prop.id):
        print('KNOWN-FINDING: property=%s %s' % (prop.id, l))
    nw = min(prop.workers, int(os.environ.get('VERIF_JOBS', os.cpu_count() or 4)))
    q = multiprocessing.Queue()
    ps = [multiprocessing.Process(target=_worker, args=(prop, exes, tier, seed, w, nw, deadline, q)) for w in range(nw)]
    for p in ps:
        p.start()
    st, fails, notes, broken = Stats(), [], [], None
    got = 0
    while got < nw:
        try:
            w, s, f, note, err = q.get(timeout=5)
        except Exception:
            if all(not p.is_alive() for p in ps) and q.empty():
                broken = broken or 'a worker ended without a report'
                break
            continue
        got += 1
        st.merge(s)
        if f:
            fails.append(f)
        if note:
            notes.append(note)
        if err:
            broken = err
    for p in ps:
        p.join(30)
    if not fails and not broken:
        for case, msg in prop.extra(tier, seed, exes, st):
            fails.append((case, msg, None, 'extra'))
    rc = 0
    reported = []
    # the shortest failing cases first
    fails.sort(key=lambda f: len(json.dumps(f[0])))
    for f in fails:
        case, msg, hist = f[0], f[1], f[2]
        n, m = confirm(prop, exes, case)
        history = None
        if n < 3:
            n2, m2 = confirm(prop, exes, case, None, 7)
            n, m = n + n2, m or m2
        if n < 2 and len(f) > 4:          # the shrunk case depended on what went before: try the original
            n, m = confirm(prop, exes, f[4])
            if n >= 2:
                case = f[4]
        if n < 2 and hist:
            c0 = f[4] if len(f) > 4 else case
            hist = {k: v[:-1] for k, v in hist.items()}
            n, m = confirm(prop, exes, c0, hist)
            if n >= 2:
                case, history = c0, shrink_history(prop, exes, c0, hist)
        if n >= 2:
            if not history:
                for c in prop.simpler(case):
                    k, m2 = confirm(prop, exes, c, None, 2)
                    if k == 2:
                        case, m = c, m2
                        break
            path = write_replay(prop, case, m, history)
            print('property %s does not hold: %s' % (prop.id, m))
            print('case: %s' % json.dumps(case)[:2000])
            print('VIOLATION property=%s replay=%s' % (prop.id, path))
            reported.append(path)
            rc = 1
            break
        else:
            notes.append('a failure did not reproduce: %s (%s)' % (msg[:200], json.dumps(case)[:300]))
    if broken and rc == 0:
        print(broken)
        print('the check could not be completed')
        rc = 2
    ev = {'property': prop.id, 'tier': tier, 'seed': seed, 'level': 'exploration',
          'coverage': {'evaluations': st.n, 'distinct_nontrivial': len(st.seen), 'rule': prop.rule,
                       'samples': [{'class': k, 'case': v} for k, v in list(st.samples.items())[:25]],
                       'classes': dict(st.classes.most_common(60)), 'notes': notes, 'workers': nw},
          'wall_s': round(time.time() - t0, 2), 'violations': len(reported)}
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', prop.id + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    print('%s %s seed=%d: %d cases, %d distinct non-trivial, %.1f s, %s' %
          (prop.id, tier, seed, st.n, len(st.seen), time.time() - t0, 'ok' if rc == 0 else 'FAILED'))
    for n in notes[:5]:
        print('note: ' + n)
    return rc
