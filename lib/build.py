"""Builds the executor and the command line tools from /repo's working tree.

Every build goes to /verif/build/<variant>-<hash>, where the hash covers all
sources, flags and the harness, so a check always sees the current tree."""
import fcntl, glob, hashlib, os, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
OUT = os.path.join(VERIF, 'build')
SRC = os.path.join(REPO, 'source')

COMMON = ['-std=c++14', '-w', '-include', 'cstring', '-D__error_t_defined=1',
          '-fno-delete-null-pointer-checks',
          '-I' + SRC, '-I' + SRC + '/lib_common', '-I' + SRC + '/lib_compiler',
          '-I' + SRC + '/lib_vm', '-I' + SRC + '/lib_builtins']
# calling members on a null value_t is how this code base represents `none`,
# so that one check of the undefined behaviour sanitizer is off
SAN = ['-O1', '-g1', '-fno-omit-frame-pointer', '-fsanitize=address,undefined',
       '-fno-sanitize=null,vptr', '-fno-sanitize-recover=all']
VARIANTS = {
    'asan': dict(cxx='g++', flags=SAN + ['-DPROBE_ASAN'], hook=True),
    'plain': dict(cxx='g++', flags=['-O1', '-g1'], hook=False),
    'fuzz': dict(cxx='clang++', flags=['-O1', '-g1', '-fsanitize=fuzzer,address,undefined',
                 '-fno-sanitize=null,vptr,function', '-fno-sanitize-recover=all'], hook=True),
    'tsan': dict(cxx='g++', flags=['-O1', '-g1', '-fsanitize=thread'], hook=False),
}


class BuildError(Exception):
    pass


def sources():
    return sorted(glob.glob(SRC + '/lib_*/*.cpp'))


def tree_hash(extra=b''):
    h = hashlib.sha256(extra)
    for root, dirs, files in os.walk(SRC):
        dirs.sort()
        if 'sdl' in root:
            continue
        for f in sorted(files):
            if f.endswith(('.cpp', '.h', '.hpp', '.inl', '.c')):
                p = os.path.join(root, f)
                h.update(p.encode())
                with open(p, 'rb') as fd:
                    h.update(fd.read())
    for f in sorted(glob.glob(VERIF + '/harness/*')):
        with open(f, 'rb') as fd:
            h.update(fd.read())
    return h.hexdigest()[:16]


def _run(cmd):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    return r.returncode, r.stdout.decode('latin1')


def _compile(cxx, flags, files, outdir, exe, link):
    os.makedirs(outdir, exist_ok=True)
    objs = []
    jobs = []
    for i, f in enumerate(files):
        o = os.path.join(outdir, '%02d-%s.o' % (i, os.path.basename(f)))
        objs.append(o)
        jobs.append([cxx] + COMMON + flags + ['-c', f, '-o', o])
    with ThreadPoolExecutor(os.cpu_count() or 8) as ex:
        for (rc, out), j in zip(ex.map(_run, jobs), jobs):
            if rc:
                return False, out
    rc, out = _run([cxx] + flags + objs + ['-o', exe + '.tmp'] + link)
    for o in objs:
        os.unlink(o)
    if rc:
        return False, out
    os.rename(exe + '.tmp', exe)
    return True, ''


def build(variant, target='probe'):
    """target: probe, driver (the run tool) or comp (the compile tool)."""
    v = VARIANTS[variant]
    key = tree_hash((variant + target + repr(v) + repr(COMMON)).encode())
    d = os.path.join(OUT, '%s-%s-%s' % (target, variant, key))
    exe = os.path.join(d, target)
    os.makedirs(OUT, exist_ok=True)
    with open(os.path.join(OUT, '.lock-%s-%s' % (target, variant)), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(exe):
            return exe
        for old in glob.glob(os.path.join(OUT, '%s-%s-*' % (target, variant))):
            shutil.rmtree(old, ignore_errors=True)
        main = {'probe': [os.path.join(VERIF, 'harness', 'probe.cpp')],
                'driver': sorted(glob.glob(SRC + '/driver/*.cpp')),
                'fuzz': [os.path.join(VERIF, 'harness', 'fuzz.cpp')],
                'comp': sorted(glob.glob(SRC + '/comp/*.cpp'))}[target]
        files = main + sources()
        log = ''
        for hook in ([['-DNANO_VERIF'], []] if v['hook'] else [[]]):
            ok, log = _compile(v['cxx'], v['flags'] + hook, files, d, exe, ['-lpthread'])
            if ok:
                return exe
    raise BuildError('build of %s (%s) failed:\n%s' % (target, variant, log[-4000:]))


if __name__ == '__main__':
    for a in sys.argv[1:] or ['probe:asan']:
        t, v = a.split(':')
        print(build(v, t))
