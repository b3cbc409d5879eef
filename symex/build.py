"""Builds from /repo's working tree: LLVM IR for the symbolic executor and a sanitised native build for replay."""
import os, subprocess, shutil, glob, re, hashlib
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get('VERIF_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CLANG = 'clang++-18'
OPT = '/usr/lib/llvm-18/bin/opt'
DEFAULT_CONFIG = ('THIN_TARGET_APPROXIMATION', 'STORE_SPLINES', 'REACTIONS', 'ET_CALCULATED_INDEX')


class BuildError(Exception):
    pass


def sh(cmd, **k):
    r = subprocess.run(cmd, capture_output=True, text=True, **k)
    if r.returncode:
        raise BuildError('%s\n%s' % (' '.join(cmd), r.stderr[-1500:]))
    return r


def gen_config(dst, config):
    """build_config.h from build_config.in the way cmake would"""
    os.makedirs(os.path.join(dst, 'catima'), exist_ok=True)
    out = []
    for l in open(os.path.join(REPO, 'build_config.in')):
        m = re.match(r'\s*#cmakedefine\s+(\w+)', l)
        if m:
            l = '#define %s\n' % m.group(1) if m.group(1) in config else '/* #undef %s */\n' % m.group(1)
        out.append(l)
    open(os.path.join(dst, 'catima', 'build_config.h'), 'w').write(''.join(out))


def sources():
    return sorted(glob.glob(os.path.join(REPO, 'src', '*.cpp')))


def _nolimit():
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (resource.RLIM_INFINITY, resource.RLIM_INFINITY))


class Build:
    """one configuration (harness file, preprocessor defines, cmake options)"""

    def __init__(self, work, harness, defines=(), config=DEFAULT_CONFIG, stubs=False):
        self.h = os.path.join(VERIF, 'harness', harness)
        key = hashlib.sha1(repr((harness, tuple(defines), tuple(config))).encode()).hexdigest()[:10]
        self.dir = os.path.join(work, os.path.splitext(harness)[0] + '-' + key)
        self.defines = ['-D' + d for d in defines]
        self.config = config
        os.makedirs(self.dir, exist_ok=True)
        gen_config(os.path.join(self.dir, 'gen'), config)
        self.inc = ['-I' + os.path.join(REPO, 'include'), '-I' + os.path.join(self.dir, 'gen'), '-I' + os.path.join(VERIF, 'harness')]
        self.exe = None

    def ir(self, entries):
        d = self.dir
        flags = ['-std=c++17', '-O0', '-Xclang', '-disable-O0-optnone', '-fno-exceptions', '-fno-rtti', '-DNDEBUG', '-DVS_SYMBOLIC',
                 '-ffp-contract=off', '-fno-threadsafe-statics', '-fno-discard-value-names',
                 '-fsanitize=signed-integer-overflow', '-fsanitize-trap=signed-integer-overflow'] + self.defines + self.inc

        def one(src):
            o = os.path.join(d, ('' if src.startswith(REPO) else 'h_') + os.path.basename(src).replace('.cpp', '.ll'))
            sh([CLANG] + flags + ['-S', '-emit-llvm', src, '-o', o])
            return o
        with ThreadPoolExecutor(8) as ex:
            f = ex.map(one, sources() + [self.h])
            lls = list(f)
        linked = os.path.join(d, 'all.ll')
        sh(['llvm-link-18', '-S', '-o', linked] + lls[:-1] + ['--override=' + lls[-1]])
        opt = os.path.join(d, 'all.opt.ll')
        sh([OPT, '-S', '-passes=internalize,globaldce,function(sroa,early-cse,simplifycfg,instsimplify),globaldce',
            '-internalize-public-api-list=' + ','.join(entries), linked, '-o', opt])
        return opt

    def native(self):
        """shared library of the real code + harness executable, ASan/UBSan, symbols interposable (not optimized: with -fsemantic-interposition global arrays get no redzones)"""
        if self.exe:
            return self.exe
        d = self.dir
        flags = ['-std=c++17', '-O0', '-g1', '-fPIC', '-ffp-contract=off', '-DNDEBUG', '-DVS_NATIVE',
                 '-D_GLIBCXX_ASSERTIONS', '-fsanitize=address,undefined', '-fsanitize=float-cast-overflow', '-fno-sanitize-recover=all',
                 '-fno-omit-frame-pointer', '-ftrivial-auto-var-init=pattern'] + self.defines + self.inc

        def one(src):
            o = os.path.join(d, ('' if src.startswith(REPO) else 'h_') + os.path.basename(src).replace('.cpp', '.o'))
            sh([CLANG] + flags + ['-c', src, '-o', o])
            return o
        with ThreadPoolExecutor(8) as ex:
            objs = list(ex.map(one, sources() + [self.h, os.path.join(VERIF, 'harness', 'vs_native.cpp')]))
        lib = os.path.join(d, 'libcode.so')
        sh([CLANG, '-shared', '-fsanitize=address,undefined', '-o', lib] + objs[:-2])
        exe = os.path.join(d, 'replay')
        sh([CLANG, '-fsanitize=address,undefined', '-rdynamic', '-o', exe] + objs[-2:] + [lib, '-Wl,-rpath,' + d])
        self.exe = exe
        return exe

    def run_native(self, case, inputs_file, timeout=60):
        exe = self.native()
        env = dict(os.environ)
        env['ASAN_OPTIONS'] = 'detect_leaks=0:detect_odr_violation=0:abort_on_error=0:exitcode=99'
        env['UBSAN_OPTIONS'] = 'print_stacktrace=1:exitcode=99'
        try:
            r = subprocess.run([exe, case, inputs_file], capture_output=True, text=True, timeout=timeout, env=env, preexec_fn=_nolimit)
        except subprocess.TimeoutExpired:
            return {'rc': 'timeout', 'fails': [], 'checks': {}, 'obs': [], 'err': 'timeout', 'assume': True}
        if 'ReserveShadowMemoryRange' in r.stderr or 'error while loading' in r.stderr:
            raise BuildError('native replay cannot run: ' + r.stderr[:300])
        fails, checks, obs = [], {}, []
        assume = True
        for l in r.stdout.splitlines():
            if l.startswith('CHECK\t'):
                _, ok, lab, det = (l.split('\t') + ['', ''])[:4]
                checks.setdefault(lab, []).append(ok == 'ok')
                if ok != 'ok' and assume:
                    fails.append((lab, det))
            elif l.startswith('OBS\t'):
                p = l.split('\t')
                obs.append((p[1], float(p[2])))
            elif l.startswith('ASSUME\tfalse'):
                assume = False
        return {'rc': r.returncode, 'fails': fails, 'checks': checks, 'obs': obs, 'err': r.stderr[:3000], 'assume': assume}
