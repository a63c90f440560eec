#!/usr/bin/env python3
"""Build the simulator from the current working tree of the repository.

Prints the path of the executable.  Output goes to <verif>/.build/<key>/ where the key is a
hash of every source that goes in, so that a changed tree is always rebuilt.
"""
import fcntl, glob, hashlib, os, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('WZ_REPO', '/repo')
NODES = 4
CFLAGS = ['-std=gnu11', '-g', '-O1', '-fno-pie', '-fno-builtin', '-fno-common', '-U_FORTIFY_SOURCE', '-fno-stack-protector',
          '-ffile-prefix-map=%s=.' % REPO, '-w', '-I' + HERE + '/config', '-I' + REPO, '-DHAVE_CONFIG_H', '-I' + REPO + '/utilities', '-I' + HERE]
TSAN = ['-fsanitize=thread', '--param', 'tsan-instrument-func-entry-exit=0']
UTILS = ['cipher-info', 'encipher', 'decipher', 'digest', 'keyring']
LIBDIR = '/usr/lib/x86_64-linux-gnu/'


class BuildError(Exception):
    pass


def run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if p.returncode != 0:
        raise BuildError(' '.join(cmd[:6]) + ' ...\n' + p.stdout[-4000:])
    return p.stdout


def sources():
    lib = sorted(glob.glob(REPO + '/wizard/*.c'))
    utl = sorted(glob.glob(REPO + '/utilities/*.c'))
    hdr = sorted(glob.glob(REPO + '/wizard/*.h') + glob.glob(REPO + '/utilities/*.h'))
    act = sorted(glob.glob(HERE + '/act_*.c'))
    cc = sorted(glob.glob(HERE + '/*.cc'))
    own = sorted(glob.glob(HERE + '/*.h') + glob.glob(HERE + '/config/**/*.h', recursive=True)) + [os.path.abspath(__file__)]
    return lib, utl, hdr, act, cc, own


def digest(files, extra=''):
    h = hashlib.sha256(extra.encode())
    for f in files:
        h.update(os.path.basename(f).encode() + b'\0')
        with open(f, 'rb') as fd:
            h.update(fd.read())
    return h.hexdigest()[:20]


def symbols(path, *args):
    return [l.split()[-1] for l in run(['nm', *args, path]).splitlines() if l.strip()]


def build():
    lib, utl, hdr, act, cc, own = sources()
    key = digest(lib + utl + hdr + act + cc + own)
    root = VERIF + '/.build'
    os.makedirs(root, exist_ok=True)
    lock = open(root + '/lock', 'w')
    fcntl.flock(lock, fcntl.LOCK_EX)
    out = root + '/' + key
    exe = out + '/wzsim'
    if os.path.exists(out + '/ok'):
        os.utime(out + '/ok')
        return exe
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    # object cache: a translation unit is recompiled when it or any header changed
    cache = root + '/objs'
    os.makedirs(cache, exist_ok=True)
    hk_lib = digest(hdr + [f for f in own if '/config/' in f])
    hk_act = digest(hdr + [f for f in own if f.endswith('.h') and os.path.basename(f) not in ('core.h', 'gen.h')])
    hk_cc = digest([f for f in own if f.endswith('.h') and 'config' not in f])

    def obj(src, cmd, hk):
        o = cache + '/' + os.path.basename(src).replace('.', '_') + '-' + digest([src], hk + repr(cmd)) + '.o'
        if not os.path.exists(o):
            tmp = o + '.%d.tmp' % os.getpid()
            run(cmd + ['-c', src, '-o', tmp])
            os.rename(tmp, o)
        os.utime(o)
        return o

    jobs = []
    for s in lib:
        jobs.append((s, ['gcc'] + CFLAGS + TSAN, hk_lib))
    for s in utl:
        b = os.path.basename(s)[:-2]
        d = ['-Dmain=' + b.replace('-', '_') + '_main'] if b in UTILS else []
        jobs.append((s, ['gcc'] + CFLAGS + TSAN + d, hk_lib))
    nact = len(jobs)
    for s in act:
        jobs.append((s, ['gcc'] + CFLAGS + ['-Wall', '-Wno-unused-function'], hk_act))
    ncc = len(jobs)
    for s in cc:
        jobs.append((s, ['g++', '-std=c++17', '-g', '-O2', '-fno-pie', '-fno-builtin-memcmp', '-fno-strict-aliasing', '-Wall'], hk_cc))
    with ThreadPoolExecutor(os.cpu_count() or 4) as ex:
        objs = list(ex.map(lambda j: obj(*j), jobs))
    node_objs, cc_objs = objs[:ncc], objs[ncc:]
    arch = [LIBDIR + 'lib%s.a' % n for n in ('z', 'bz2', 'lzma')]
    node = out + '/node.o'
    run(['ld', '-r', '-o', node] + node_objs + arch)
    # every libc call the core provides a replacement for goes to the replacement
    wr = {s[2:] for o in cc_objs for s in symbols(o, '--defined-only', '-g') if s.startswith('w_')}
    und = symbols(node, '-u')
    red = [s for s in und if s in wr]
    real = sorted(s for s in und if s not in wr and not s.startswith('__tsan') and not s.startswith('sim_'))
    with open(out + '/real-symbols.txt', 'w') as f:
        f.write('\n'.join(real) + '\n')
    with open(out + '/redef.txt', 'w') as f:
        f.write(''.join('%s w_%s\n' % (s, s) for s in red))
    run(['objcopy', '--redefine-syms=' + out + '/redef.txt', node])
    defs = [s for s in symbols(node, '--defined-only', '-g')]
    nodes = []

    def mk(k):
        rf = '%s/n%d.txt' % (out, k)
        with open(rf, 'w') as f:
            f.write(''.join('%s n%d_%s\n' % (s, k, s) for s in defs))
        o = '%s/node%d.o' % (out, k)
        cmd = ['objcopy', '--redefine-syms=' + rf]
        if k:
            cmd += ['--strip-debug']
        run(cmd + ['--rename-section', '.data=ndata%d' % k, '--rename-section', '.bss=nbss%d' % k, node, o])
        return o
    with ThreadPoolExecutor(NODES) as ex:
        nodes = list(ex.map(mk, range(NODES)))
    run(['g++', '-static', '-no-pie', '-o', exe] + cc_objs + nodes + [LIBDIR + 'libz.a', LIBDIR + 'libbz2.a', '-lm', '-lpthread'])
    with open(exe + '.sym', 'w') as f:
        f.write(run(['nm', '-n', exe]))
    for o in nodes + [node]:
        os.unlink(o)
    with open(out + '/ok', 'w') as f:
        f.write(key + '\n')
    # keep the most recent builds only
    olds = sorted((d for d in glob.glob(root + '/*') if os.path.exists(d + '/ok')), key=lambda d: os.path.getmtime(d + '/ok'))
    for d in olds[:-6]:
        shutil.rmtree(d, ignore_errors=True)
    co = sorted(glob.glob(cache + '/*.o'), key=os.path.getmtime)
    for o in co[:-1200]:
        os.unlink(o)
    return exe


if __name__ == '__main__':
    try:
        print(build())
    except BuildError as e:
        sys.stderr.write('build of the simulator failed:\n' + str(e) + '\n')
        sys.exit(2)
