#!/usr/bin/env python3
"""Builds the driver and the fuzz target from /repo's current working tree.

Build products live in /verif/build/<hash of the sources and flags>/ (ignored by
git); a check that runs in a fresh copy builds from scratch, one that runs twice
on the same tree reuses the products.
"""
import fcntl, hashlib, os, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')

KINDS = {
    # kind: (compiler, flags, sources of ours, with time.cpp)
    'plain': (['g++', '-std=c++17', '-O1', '-D_GLIBCXX_ASSERTIONS'], ['driver.cpp'], True),
    'asan': (['g++', '-std=c++17', '-O1', '-g1', '-D_GLIBCXX_ASSERTIONS', '-D_GLIBCXX_SANITIZE_VECTOR',
              '-fsanitize=address,undefined,float-cast-overflow', '-fno-sanitize-recover=all', '-fno-omit-frame-pointer'],
             ['driver.cpp'], True),
    'debug': (['g++', '-std=c++17', '-O0', '-g1'], ['driver.cpp'], True),   # for valgrind
    'cli': (['g++', '-std=c++17', '-O1', '-D_GLIBCXX_ASSERTIONS'], [], 'main'),                # the program itself
    'fuzz': (['clang++', '-std=c++17', '-O1', '-g1', '-D_GLIBCXX_ASSERTIONS',
              '-fsanitize=fuzzer,address,undefined,float-cast-overflow', '-fno-sanitize-recover=all'],
             ['fuzz.cpp'], True),
}


class BuildError(Exception):
    pass


def repo_sources():
    out = []
    for base, dirs, files in os.walk(os.path.join(REPO, 'src')):
        dirs.sort()
        for f in sorted(files):
            if f.endswith(('.cpp', '.hpp', '.h', '.cc', '.cxx', '.inl', '.ipp')):
                out.append(os.path.join(base, f))
    out.append(os.path.join(REPO, 'time.cpp'))
    for f in sorted(os.listdir(REPO)):
        if f.endswith(('.hpp', '.h')):
            out.append(os.path.join(REPO, f))
    return out


def digest(kind):
    h = hashlib.sha256(repr(KINDS[kind]).encode())
    d = os.path.join(VERIF, 'driver')
    for p in repo_sources() + [os.path.join(d, f) for f in sorted(os.listdir(d))]:
        h.update(p.encode() + b'\0')
        h.update(open(p, 'rb').read())
    return h.hexdigest()[:16]


def build(kind):
    """Returns the path of the executable."""
    flags, ours, with_cli = KINDS[kind]
    dest = os.path.join(BUILD, kind + '-' + digest(kind))
    exe = os.path.join(dest, 'prog')
    if os.path.exists(exe):
        try:
            os.utime(dest)
        except OSError:
            pass
        return exe
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, kind + '.lock'), 'w') as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        if os.path.exists(exe):
            return exe
        for old in os.listdir(BUILD):       # keep the disk small
            o = os.path.join(BUILD, old)
            try:                            # another run may be using a young one
                if old.startswith(kind + '-') and len(os.listdir(BUILD)) > 40 and time.time() - os.path.getmtime(o) > 3600:
                    shutil.rmtree(o, ignore_errors=True)
            except OSError:
                pass
        tmp = dest + '.tmp%d' % os.getpid()
        os.makedirs(tmp)
        jobs = []
        units = [(os.path.join(VERIF, 'driver', s), []) for s in ours]
        if with_cli:
            units.append((os.path.join(REPO, 'time.cpp'), [] if with_cli == 'main' else ['-Dmain=chrono_main']))
        units += [(s, []) for s in repo_sources() if s.endswith(('.cpp', '.cc', '.cxx')) and '/src/' in s]
        for i, (src, extra) in enumerate(units):
            obj = os.path.join(tmp, '%d.o' % i)
            log = open(os.path.join(tmp, '%d.log' % i), 'wb')
            jobs.append((subprocess.Popen(flags + extra + ['-I' + REPO, '-I' + os.path.join(REPO, 'src'), '-c', src, '-o', obj],
                                          stdout=log, stderr=log), obj, src, log.name))
        for p, obj, src, log in jobs:
            if p.wait() != 0:
                msg = open(log, errors='replace').read()[:4000]
                for q, *_ in jobs:
                    q.wait()
                shutil.rmtree(tmp, ignore_errors=True)
                raise BuildError('%s does not compile (%s):\n%s' % (src, kind, msg))
        r = subprocess.run(flags + [j[1] for j in jobs] + ['-Wl,--allow-multiple-definition', '-o', os.path.join(tmp, 'prog'),
                                                           '-lboost_date_time'],
                           capture_output=True, text=True)
        if r.returncode != 0:
            shutil.rmtree(tmp, ignore_errors=True)
            raise BuildError('link (%s):\n%s' % (kind, r.stderr[:4000]))
        for _, obj, _, log in jobs:
            os.unlink(obj)
            os.unlink(log)
        os.rename(tmp, dest)
        return exe


if __name__ == '__main__':
    for k in sys.argv[1:] or ['plain', 'asan']:
        t = time.time()
        try:
            print(k, build(k), '%.1fs' % (time.time() - t))
        except BuildError as e:
            print(e)
            sys.exit(2)
