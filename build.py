#!/usr/bin/env python3
"""Builds the simulator from /repo's working tree. Prints nothing if all is well."""
import hashlib, os, subprocess, sys, glob, fcntl
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('SIM_REPO', '/repo')
OUT = os.environ.get('SIM_BUILD', os.path.join(HERE, 'build'))
CC = 'clang'
CXX = 'clang++'

def sh(args, **kw):
    return subprocess.run(args, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

def digest(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b'\0')
    return h.hexdigest()[:24]

def read(p):
    with open(p, 'rb') as f:
        return f.read()

def build():
    os.makedirs(OUT, exist_ok=True)
    with open(os.path.join(OUT, '.lock'), 'w') as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        return build_locked()

def build_locked():
    glib = sh(['pkg-config', '--cflags', 'glib-2.0', 'gobject-2.0']).stdout.split()
    libs = sh(['pkg-config', '--libs', 'glib-2.0', 'gobject-2.0']).stdout.split()
    incs = [REPO + '/include', REPO + '/src']
    hdrs = sorted(glob.glob(REPO + '/include/*.h') + glob.glob(REPO + '/src/*.h'))
    hdrtext = b''.join(read(h) for h in hdrs)
    # What the Makefile defines, sanitizers and scheduling points on top of it
    # -Dunix: GNU mode of gcc predefines it, as does clang in gnu mode
    libflags = ['-std=gnu11', '-O0', '-g1', '-fPIC', '-fno-omit-frame-pointer', '-w',
        '-fsanitize=address',
        # What isn't initialized is something strange, and always the same
        '-ftrivial-auto-var-init=pattern',
        '-fsanitize-coverage=trace-pc-guard,trace-loads,trace-stores',
        '-DGLIB_DISABLE_DEPRECATION_WARNINGS',
        # GLib's atomic operations become calls, hence scheduling points
        '-U__GCC_HAVE_SYNC_COMPARE_AND_SWAP_4'] + \
        ['-I' + i for i in incs] + glib
    # whatever preprocessor defines the repository's own build adds
    try:
        mk = read(REPO + '/Makefile').decode()
    except OSError:
        mk = ''
    for line in mk.splitlines():
        if line.replace(' ', '').startswith(('DEFINES=', 'DEFINES+=')):
            for w in line.split('=', 1)[1].split():
                if w.startswith('-D') and '$' not in w:
                    libflags.append(w)
    harflags = ['-std=c++17', '-O1', '-g1', '-fno-omit-frame-pointer', '-fno-exceptions', '-fno-rtti',
        '-Wall', '-Wno-unused-function', '-Wno-deprecated-declarations', '-Wno-unused-private-field',
        '-fsanitize=address', '-mllvm', '-asan-instrument-reads=0', '-mllvm', '-asan-instrument-writes=0',
        '-mllvm', '-asan-globals=0', '-mllvm', '-asan-stack=0',
        '-I' + HERE + '/sim', '-I' + REPO + '/include'] + glib
    syms = HERE + '/sim/redefine.syms'
    jobs = []
    har_hdr = b''.join(read(h) for h in sorted(glob.glob(HERE + '/sim/*.h') + glob.glob(HERE + '/scenarios/*.h')))
    for m in ('hb', 'he', 'lb', 'le'):
        src = HERE + '/sim/mark_%s.c' % m
        jobs.append((src, [CC, '-c'], '', m))
    order = {}
    for src in sorted(glob.glob(REPO + '/src/*.c')):
        d = digest(read(src), hdrtext, ' '.join(libflags), read(syms), CC)
        order.setdefault('lib', []).append((src, d))
    for src in sorted(glob.glob(HERE + '/sim/*.cpp') + glob.glob(HERE + '/scenarios/*.cpp')):
        d = digest(read(src), har_hdr, hdrtext, ' '.join(harflags), CXX)
        order.setdefault('har', []).append((src, d))
    todo, objs = [], {'lib': [], 'har': []}
    used = set()
    for kind in ('lib', 'har'):
        for src, d in order[kind]:
            base = os.path.basename(src).rsplit('.', 1)[0]
            obj = '%s/%s-%s-%s.o' % (OUT, kind, base, d)
            objs[kind].append(obj)
            used.add(obj)
            if not os.path.exists(obj):
                todo.append((kind, src, obj))
    marks = {}
    for m in ('hb', 'he', 'lb', 'le'):
        src = HERE + '/sim/mark_%s.c' % m
        obj = '%s/mark-%s-%s.o' % (OUT, m, digest(read(src)))
        marks[m] = obj
        used.add(obj)
        if not os.path.exists(obj):
            todo.append(('mark', src, obj))
    def one(job):
        kind, src, obj = job
        tmp = obj + '.tmp%d.o' % os.getpid()
        if kind == 'lib':
            r = sh([CC] + libflags + ['-c', src, '-o', tmp])
            if not r.returncode:
                r2 = sh(['objcopy', '--redefine-syms=' + syms, tmp])
                if r2.returncode:
                    r = r2
        elif kind == 'har':
            r = sh([CXX] + harflags + ['-c', src, '-o', tmp])
        else:
            r = sh([CC, '-c', src, '-o', tmp])
        if not r.returncode:
            os.rename(tmp, obj)
        return src, r
    ok = True
    todo.sort(key=lambda j: -os.path.getsize(j[1]) if j[0] == 'har' else 0)
    with ThreadPoolExecutor(8) as ex:
        for src, r in ex.map(one, todo):
            if r.returncode:
                ok = False
                sys.stdout.write('BUILD FAILED %s\n%s\n' % (src, r.stdout))
            elif r.stdout.strip() and os.environ.get('SIM_WARN'):
                sys.stdout.write(r.stdout)
    if not ok:
        return None
    allobjs = [marks['hb']] + objs['har'] + [marks['he'], marks['lb']] + objs['lib'] + [marks['le']]
    exe = '%s/sim-%s' % (OUT, digest('\n'.join(os.path.basename(o) for o in allobjs)))
    used.add(exe)
    if not os.path.exists(exe):
        tmp = exe + '.tmp%d' % os.getpid()
        r = sh([CXX, '-fsanitize=address', '-fuse-ld=bfd', '-rdynamic', '-o', tmp] + allobjs + libs + ['-lpthread', '-ldl'])
        if r.returncode:
            sys.stdout.write('LINK FAILED\n%s\n' % r.stdout)
            return None
        os.rename(tmp, exe)
    # Keep the build directory small: only what was used lately
    old = sorted((p for p in glob.glob(OUT + '/*') if p not in used and not p.endswith('.lock')),
        key=lambda p: os.path.getmtime(p))
    for p in old[:-120] if len(old) > 120 else []:
        try:
            os.unlink(p)
        except OSError:
            pass
    return exe

if __name__ == '__main__':
    e = build()
    if not e:
        sys.exit(2)
    print(e)
