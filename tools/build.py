"""Builds the repository's code (from its current working tree) and the simulator into a scratch directory."""
import os, re, subprocess, hashlib, shutil, sys
from concurrent.futures import ThreadPoolExecutor
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('SIM_REPO', '/repo')
SIM = VERIF + '/sim'
CC = '/usr/bin/gcc'
CLANG = '/usr/bin/clang'
LLVMLINK = '/usr/lib/llvm-18/bin/llvm-link'
POOL = ThreadPoolExecutor(8)
ENV = {'PATH': '/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin', 'LC_ALL': 'C', 'HOME': '/tmp'}

class BuildError(Exception):
    pass

def run(cmd, cwd=None, ok=True, env=None):
    p = subprocess.run(cmd, cwd=cwd, env=env or ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')
    if ok and p.returncode:
        raise BuildError('%s\n%s' % (' '.join(cmd), p.stdout[-3000:]))
    return p

WRAP = '''syscall getrandom getentropy arc4random arc4random_buf open open64 openat __open_2 __open64_2 read __read_chk close fcntl ioctl
poll __poll_chk nanosleep usleep sleep sched_yield abort exit _exit _Exit quick_exit raise kill __assert_fail __stack_chk_fail __chk_fail
time clock gettimeofday clock_gettime rand random srand srandom getpid getppid gettid pthread_self getenv secure_getenv
pthread_mutex_lock pthread_mutex_trylock pthread_mutex_unlock pthread_once fopen fopen64 perror malloc calloc realloc reallocarray
posix_memalign aligned_alloc memalign valloc mmap mmap64 mprotect madvise mlock strdup sbrk pthread_create sysconf getauxval stat access'''.split()
WRAP_OUT = 'write printf __printf_chk fprintf __fprintf_chk dprintf __dprintf_chk syslog __syslog_chk puts fputs putchar fputc putc fwrite'.split()
WRAP_MEM = 'memcpy memmove memset memcmp __memcpy_chk __memmove_chk __memset_chk'.split()

def make_vars(d):
    out = run(['make', '-C', d, '-pn'], ok=False).stdout
    v = {}
    for line in out.splitlines():
        m = re.match(r'^(SOURCES|SOURCESKECCAK|CFLAGS|NISTFLAGS) [:?]?= (.*)$', line)
        if m:
            v[m.group(1)] = m.group(2)
    def expand(s):
        for _ in range(5):
            s = re.sub(r'\$\((\w+)\)', lambda m: v.get(m.group(1), ''), s)
        return s
    return {k: expand(s) for k, s in v.items()}

def cflags(s):
    fl = []
    for f in s.split():
        f = {'-march=native': '-march=x86-64-v3', '-mtune=native': '-mtune=generic'}.get(f, f)
        if f in ('-z', 'noexecstack') or f.startswith('-W'):
            continue
        fl.append(f)
    return fl

ASAN = ['-fsanitize=address', '--param', 'asan-instrumentation-with-call-threshold=0', '--param', 'asan-use-after-return=0', '-fsanitize=bounds,shift-exponent,integer-divide-by-zero,vla-bound,unreachable,builtin', '-fno-omit-frame-pointer']
TRACEWRAP = ['pqcrystals_kyber_fips202_%s_sha3_512' % i for i in ('ref', 'avx2')]

OTHER_BUILDS = {'o0': (CC, '-O0', False), 'clang3': (CLANG, '-O3', False), 'clang0': (CLANG, '-O0', False), 'whole': (CC, '-O3', True), 'clangwhole': (CLANG, '-O3', True)}

class Builder:
    def __init__(self, out):
        self.out = out
        self.notes = []
        self.vars = {}
        for impl in ('ref', 'avx2'):
            v = make_vars(REPO + '/' + impl)
            if 'SOURCESKECCAK' not in v or 'CFLAGS' not in v:
                raise BuildError('cannot read SOURCES from the Makefile in ' + impl)
            src = []
            for s in v['SOURCESKECCAK'].split():
                if s.endswith('.o'):
                    s = s[:-2] + '.c'
                if s not in src:
                    src.append(s)
            self.kemsrc = getattr(self, 'kemsrc', {})
            self.kemsrc[impl] = v.get('SOURCES', '').split() + ['symmetric-shake.c']
            self.vars[impl] = (src, cflags(v['CFLAGS']), cflags(v.get('NISTFLAGS', '-O3')))

    def compile(self, impl, src, obj, flags, cc=CC):
        d = REPO + '/' + impl
        run([cc] + flags + ['-fPIC', '-w', '-c', src, '-o', obj], cwd=d)
        return obj

    def objects(self, flavor, impl, K):
        """objects of all library sources for one parameter set"""
        src, fl, _ = self.vars[impl]
        o = '%s/obj/%s_%s_%d' % (self.out, flavor, impl, K)
        os.makedirs(o, exist_ok=True)
        flags = fl + ['-DKYBER_K=%d' % K]
        if flavor == 'tsan':
            flags = flags + ['-fsanitize=thread']
        if flavor in OTHER_BUILDS:
            cc, opt, together = OTHER_BUILDS[flavor]
            flags = [f for f in flags if not f.startswith('-O')] + [opt]
            ours = [s for s in src if s.endswith('.c')] if together else []
            jobs = [POOL.submit(self.compile, impl, s, o + '/' + s.replace('/', '_') + '.o', flags, CC if s.endswith('.S') else cc) for s in src if s not in ours]
            if ours:
                jobs.append(POOL.submit(self.together, impl, ours, o, flags, cc))
        elif flavor == 'asan':
            jobs = [POOL.submit(self.checked_asm, impl, s, o + '/' + s.replace('/', '_'), flags) if s.endswith('.S') else POOL.submit(self.compile, impl, s, o + '/' + s.replace('/', '_') + '.o', flags + ASAN) for s in src]
            jobs.append(POOL.submit(self.compile, impl, SIM + '/glue_asan.S', o + '/glue_asan.o', []))
        else:
            jobs = [POOL.submit(self.compile, impl, s, o + '/' + s.replace('/', '_') + '.o', flags) for s in src]
        g = flags + (['-DSIM_AVX2'] if impl == 'avx2' else []) + ['-I', REPO + '/' + impl]
        jobs.append(POOL.submit(self.compile, impl, SIM + '/glue.c', o + '/glue.o', [f for f in g if f != '-fsanitize=thread']))
        return jobs

    def together(self, impl, names, o, flags, cc):
        """several sources optimised as one program"""
        if cc == CLANG:
            objs = [self.compile(impl, s, '%s/%s.bc' % (o, s.replace('/', '_')), flags + ['-emit-llvm', '-Xclang', '-disable-llvm-passes'], cc) for s in names]
            run([LLVMLINK] + objs + ['-o', o + '/whole.bc'])
            run([cc] + flags + ['-fPIC', '-w', '-c', o + '/whole.bc', '-o', o + '/whole.o'])
        else:
            objs = [self.compile(impl, s, '%s/%s.lto.o' % (o, s.replace('/', '_')), flags + ['-flto']) for s in names]
            run([cc] + flags + ['-fPIC', '-w', '-flto', '-flto-partition=none', '-r', '-nostdlib', '-flinker-output=nolto-rel'] + objs + ['-o', 'whole.o'], cwd=o)
        return o + '/whole.o'

    def trace_libs(self, flavors=('trace', 'traceos', 'traceo0', 'traceclangs', 'traceclang1', 'traceclang3', 'tracewhole', 'traceclangwholes', 'traceclangwhole2'), extra_wrap=TRACEWRAP):
        """the optimised code with trace recording inserted into the compiler's own assembly output"""
        def one(impl, K, i, s, flags, o, clang):
            d = REPO + '/' + impl
            base = '%s/%s' % (o, s.replace('/', '_'))
            if s.endswith('.S'):
                run([CC] + flags + ['-E', '-P', s, '-o', base + '.s'], cwd=d)
            else:
                run([CLANG, '-fno-addrsig'] + flags + ['-fPIC', '-w', '-S', s, '-o', base + '.s'] if clang else [CC] + flags + ['-fPIC', '-w', '-S', s, '-o', base + '.s'], cwd=d)
            run([sys.executable, '-S', VERIF + '/tools/traceasm.py', base + '.s', base + '.t.s', str((i + 1) * 1000000), s, d, os.path.dirname(d + '/' + s)])
            run([CC, '-c', base + '.t.s', '-o', base + '.o'], cwd=d)
            for n in open(base + '.t.s.notes'):
                if n.strip() not in self.notes:
                    self.notes.append(n.strip())
            return base + '.o'
        def whole(impl, names, i, flags, o, clang):
            """several sources optimised as one program (link-time optimisation)"""
            d = REPO + '/' + impl
            base = o + '/whole.c'
            if clang:
                bc = []
                for s in names:
                    bc.append('%s/%s.bc' % (o, s.replace('/', '_')))
                    run([CLANG] + flags + ['-fPIC', '-w', '-emit-llvm', '-Xclang', '-disable-llvm-passes', '-c', s, '-o', bc[-1]], cwd=d)
                run([LLVMLINK] + bc + ['-o', o + '/whole.bc'])
                run([CLANG, '-fno-addrsig'] + flags + ['-fPIC', '-w', '-S', o + '/whole.bc', '-o', base + '.s'], cwd=d)
            else:
                ob = []
                for s in names:
                    ob.append('%s/%s.lto.o' % (o, s.replace('/', '_')))
                    run([CC] + flags + ['-fPIC', '-w', '-flto', '-c', s, '-o', ob[-1]], cwd=d)
                run([CC] + flags + ['-fPIC', '-w', '-flto', '-flto-partition=none', '-r', '-nostdlib', '-flinker-output=nolto-rel', '-save-temps'] + ob + ['-o', 'whole.lto'], cwd=o)
                c = [f for f in os.listdir(o) if f.endswith('.s') and 'lto' in f]
                if len(c) != 1:
                    raise BuildError('link-time optimisation left ' + repr(c))
                os.rename(o + '/' + c[0], base + '.s')
            run([sys.executable, '-S', VERIF + '/tools/traceasm.py', base + '.s', base + '.t.s', str((i + 1) * 1000000), 'whole.c', d])
            run([CC, '-c', base + '.t.s', '-o', base + '.o'], cwd=d)
            for n in open(base + '.t.s.notes'):
                if n.strip() not in self.notes:
                    self.notes.append(n.strip())
            return base + '.o'
        links = {}
        for fl_, impl in [(f, i) for f in flavors for i in ('ref', 'avx2')]:
            for K in (2, 3, 4):
                src, fl, _ = self.vars[impl]
                if fl_ == 'traceo0':
                    fl = [f for f in fl if not f.startswith('-O')] + ['-O0']
                elif 'clang' in fl_:
                    fl = [f for f in fl if not f.startswith('-O')] + ['-O' + fl_[-1]]
                elif fl_ == 'traceos':
                    fl = [f for f in fl if not f.startswith('-O')] + ['-Os']
                o = '%s/obj/%s_%s_%d' % (self.out, fl_, impl, K)
                os.makedirs(o, exist_ok=True)
                flags = fl + ['-DKYBER_K=%d' % K]
                together = [s for s in src if s.endswith('.c') and 'fips202' not in s and '/' not in s] if 'whole' in fl_ else []
                jobs = [POOL.submit(one, impl, K, i, s, flags, o, 'clang' in fl_) for i, s in enumerate(src) if s not in together]
                if together:
                    jobs.append(POOL.submit(whole, impl, together, len(src), flags, o, 'clang' in fl_))
                jobs.append(POOL.submit(self.compile, impl, SIM + '/glue_trace.c', o + '/glue_trace.o', ['-O2']))
                g = flags + (['-DSIM_AVX2'] if impl == 'avx2' else []) + ['-I', REPO + '/' + impl]
                jobs.append(POOL.submit(self.compile, impl, SIM + '/glue.c', o + '/glue.o', g))
                jobs.append(self.rb_object('trace', impl, 'linux'))
                links[fl_, impl, K] = jobs
        done = []
        for (fl_, impl, K), jobs in links.items():
            so = '%s/%s_%s_%d_linux.so' % (self.out, fl_, impl, K)
            try:
                objs = [j.result() for j in jobs]
            except (BuildError, OSError) as e:
                if fl_ in ('trace', 'traceos'):
                    raise
                self.notes.append('not built: %s %s %d: %s' % (fl_, impl, K, str(e)[-200:]))
                continue
            wrap = WRAP + WRAP_MEM + ['bcmp', 'strcmp', 'strncmp'] + list(extra_wrap)
            done.append(POOL.submit(run, [CC, '-shared', '-nostartfiles', '-o', so] + objs + ['-Wl,-z,now', '-Wl,-z,noexecstack', '-Wl,-Bsymbolic'] + ['-Wl,--wrap=' + w for w in wrap]))
            with open(so + '.sites', 'w') as f:
                for o in objs:
                    t = o[:-2] + '.t.s.sites'
                    if os.path.exists(t):
                        f.write(open(t).read())
        for j in done:
            j.result()

    def checked_asm(self, impl, s, base, flags):
        d = REPO + '/' + impl
        run([CC] + flags + ['-E', '-P', s, '-o', base + '.s'], cwd=d)
        run([sys.executable, '-S', VERIF + '/tools/traceasm.py', '--check', base + '.s', base + '.c.s', '0', s, d, os.path.dirname(d + '/' + s)])
        run([CC, '-c', base + '.c.s', '-o', base + '.o'], cwd=d)
        return base + '.o'

    def rb_object(self, flavor, impl, backend):
        src, fl, _ = self.vars[impl]
        o = '%s/obj/rb_%s_%s_%s.o' % (self.out, flavor, impl, backend)
        os.makedirs(self.out + '/obj', exist_ok=True)
        flags = fl + {'linux': [], 'dev': ['-U__linux__', '-Ulinux', '-U__linux'], 'netbsd': ['-include', SIM + '/netbsd_shim.h'], 'win': ['-D_WIN32', '-I', SIM + '/win']}[backend]
        if flavor == 'tsan':
            flags = flags + ['-fsanitize=thread']
        if flavor == 'asan':
            flags = flags + ASAN
        return POOL.submit(self.compile, impl, 'randombytes.c', o, flags)

    def libs(self, flavors, Ks=(2, 3, 4), impls=('ref', 'avx2'), backends=('linux',), extra_wrap=(), tag=None):
        objs, rbs = {}, {}
        for f in flavors:
            for i in impls:
                for k in Ks:
                    objs[f, i, k] = self.objects(f, i, k)
                for b in backends:       # one object of the random source for all builds
                    f1 = f if f not in OTHER_BUILDS else 'ship'
                    rbs[f, i, b] = rbs.get((f1, i, b)) or self.rb_object(f1, i, b)
        links = []
        for (f, i, k), jobs in objs.items():
            try:
                os_ = [j.result() for j in jobs]
            except (BuildError, OSError) as e:
                if f not in OTHER_BUILDS:
                    raise
                self.notes.append('not built: %s %s %d: %s' % (f, i, k, str(e)[-200:]))
                continue
            for b in backends:
                try:
                    rb = rbs[f, i, b].result()
                except BuildError as e:
                    if b == 'linux':
                        raise
                    note = 'back end %s does not build here; not simulated' % b
                    if note not in self.notes:
                        self.notes.append(note)
                    continue
                wrap = WRAP + WRAP_OUT + (WRAP_MEM if f in ('tsan', 'asan') else []) + list(extra_wrap)
                so = '%s/%s_%s_%d_%s.so' % (self.out, tag or f, i, k, b)
                links.append(POOL.submit(run, [CC, '-shared', '-nostartfiles', '-o', so] + os_ + [rb, '-Wl,-z,now', '-Wl,-z,noexecstack', '-Wl,-Bsymbolic'] + ['-Wl,--wrap=' + w for w in wrap]))
        for l in links:
            l.result()

    def rig(self, Ks=(2, 3, 4), drbg=True):
        """the KAT rig: generator main program and AES-based generators, against the real cipher library"""
        src, _, fl = self.vars['ref']
        wrap = WRAP + 'EVP_CIPHER_CTX_new EVP_EncryptInit_ex EVP_EncryptInit_ex2 EVP_EncryptUpdate EVP_EncryptFinal_ex ERR_print_errors_fp fileno fsync fdatasync rename remove unlink freopen'.split()
        def link(so, objs):
            run([CC, '-shared', '-nostartfiles', '-o', self.out + '/' + so] + objs + ['-Wl,-z,now', '-Wl,-z,noexecstack', '-Wl,-Bsymbolic', '-lcrypto'] + ['-Wl,--wrap=' + w for w in wrap])
        os.makedirs(self.out + '/obj', exist_ok=True)
        rng = POOL.submit(self.compile, 'ref', 'nistkat/rng.c', self.out + '/obj/rng.o', fl)
        glue = POOL.submit(self.compile, 'ref', SIM + '/glue_rig.c', self.out + '/obj/glue_rig.o', fl + ['-I', REPO + '/ref/nistkat'])
        jobs = {}
        for k in Ks:
            o = '%s/obj/rig_%d' % (self.out, k)
            os.makedirs(o, exist_ok=True)
            jobs[k] = [POOL.submit(self.compile, 'ref', s, o + '/' + s.replace('/', '_') + '.o', fl + ['-DKYBER_K=%d' % k]) for s in src]
            jobs[k].append(POOL.submit(self.compile, 'ref', 'nistkat/PQCgenKAT_kem.c', o + '/kat.o', fl + ['-DKYBER_K=%d' % k, '-Dmain=sim_kat_main']))
        for k in Ks:
            link('rig_%d.so' % k, [j.result() for j in jobs[k]] + [rng.result()])
        if drbg:
            link('drbg.so', [rng.result(), glue.result()])

    def shared(self):
        """the shared libraries exactly as "make shared" lists them (through a compiler stand-in that can instrument), a second copy
        of each, four programs linked against all of them in different orders, and all objects linked into one program"""
        top = self.out + '/shared'
        os.makedirs(top)
        cc = top + '/cc'
        with open(cc, 'w') as f:
            f.write('#!/bin/sh\nexec python3 -S %s/tools/ccwrap.py "$@"\n' % VERIF)
        os.chmod(cc, 0o755)
        def make(fl, impl):
            d = '%s/%s/%s' % (top, fl, impl)
            os.makedirs(os.path.dirname(d), exist_ok=True)
            src = '%s/src-%s' % (top, fl)
            run(['make', '-j8', '-C', '%s/%s' % (src, impl), 'shared', 'CC=' + cc], env=dict(ENV, SIM_FLAVOR=fl, SIM_WRAP=' '.join(WRAP + WRAP_MEM)))
            os.makedirs(d)
            for root, dirs, files in os.walk('%s/%s' % (src, impl)):
                for f in files:
                    if f.endswith('.so'):
                        shutil.copy(root + '/' + f, d + '/' + f)
            shutil.copytree(d, '%s/%s2/%s' % (top, fl, impl))
        for fl in ('ship', 'tsan'):
            shutil.copytree(REPO, '%s/src-%s' % (top, fl), symlinks=True, ignore=lambda d, fs: [f for f in fs if f.endswith(('.so', '.o')) or f in ('.git', '_build')])
        for j in [POOL.submit(make, fl, i) for fl in ('ship', 'tsan') for i in ('ref', 'avx2')]:
            j.result()
        import random
        rnd = random.Random(1)
        for fl in ('ship', 'tsan'):
            shutil.rmtree('%s/src-%s' % (top, fl))
            libs = ['%s/%s/%s/%s' % (top, fl, i, f) for i in ('ref', 'avx2') for f in sorted(os.listdir('%s/%s/%s' % (top, fl, i)))]
            for k in range(4):
                order = libs[:]
                if k:
                    rnd.shuffle(order)
                run([CC, '-shared', '-nostartfiles', '-o', '%s/%s/app%d.so' % (top, fl, k), '-Wl,--no-as-needed'] + (['-Wl,-z,lazy'] if k % 2 else []) + order)
            objs = []
            for impl in ('ref', 'avx2'):
                src, flags, _ = self.vars[impl]
                base = [s[:-2] + '.c' if s.endswith('.o') else s for s in self.kemsrc[impl]]
                o = '%s/obj/st_%s_%s' % (self.out, fl, impl)
                os.makedirs(o, exist_ok=True)
                extra = ['-fsanitize=thread'] if fl == 'tsan' else []
                for s in src:
                    for k in ((2, 3, 4) if s in base else (0,)):
                        objs.append(POOL.submit(self.compile, impl, s, '%s/%s-%d.o' % (o, s.replace('/', '_'), k), flags + extra + (['-DKYBER_K=%d' % k] if k else [])))
            p = run([CC, '-shared', '-nostartfiles', '-o', '%s/%s/static.so' % (top, fl)] + [j.result() for j in objs] + ['-Wl,-z,noexecstack', '-Wl,-Bsymbolic'] + ['-Wl,--wrap=' + w for w in WRAP + (WRAP_MEM if fl == 'tsan' else [])], ok=False)
            if p.returncode:
                if 'multiple definition' not in p.stdout:
                    raise BuildError('static link\n' + p.stdout[-3000:])
                with open('%s/%s/static.err' % (top, fl), 'w') as f:
                    f.write('\n'.join(re.sub(r'^.*/obj/', '', l) for l in p.stdout.splitlines() if 'multiple definition' in l))
        # the published headers
        err, sizes = '', []
        for impl in ('ref', 'avx2'):
            for k in (2, 3, 4):
                tag = '%s%d' % (impl, k)
                o = '%s/obj/api_%s.o' % (self.out, tag)
                os.makedirs(self.out + '/obj', exist_ok=True)
                p = run([CC] + self.vars[impl][1] + ['-DKYBER_K=%d' % k, '-DSIM_BASE=pqcrystals_kyber%d_' % (256 * k), '-DSIM_IMPL=' + impl, '-DSIM_TAG=sim_api_', '-w', '-Werror=incompatible-pointer-types', '-I', REPO + '/' + impl, '-c', SIM + '/glue_api.c', '-o', o], cwd=REPO + '/' + impl, ok=False)
                if p.returncode:
                    if 'conflicting types' in p.stdout or 'incompatible' in p.stdout or ('undeclared' in p.stdout and 'pqcrystals' in p.stdout):
                        err += p.stdout[-1500:]
                    else:
                        self.notes.append('published headers not checked: ' + p.stdout[-200:])
                    continue
                t = o + '.bin'
                run(['objcopy', '-O', 'binary', '-j', '.rodata', o, t])
                import struct
                sym = [l.split() for l in run(['nm', o]).stdout.splitlines() if l.endswith('sim_api_sizes')]
                data = open(t, 'rb').read()
                sizes.append(tag + ' ' + ' '.join(map(str, struct.unpack_from('<11I', data, int(sym[0][0], 16)))))
        if err:
            open(top + '/api.err', 'w').write(err)
        open(top + '/api.sizes', 'w').write('\n'.join(sizes) + '\n')

    def instructions(self, files):
        """instruction start addresses per function, for breakpoints; one line: function addr addr ..."""
        def one(so):
            rw = []
            for line in run(['objdump', '-h', so]).stdout.splitlines():
                m = re.match(r'^ +\d+ (\.data|\.bss|\.tdata|\.tbss)\S* +([0-9a-f]+) +([0-9a-f]+)', line)
                if m:
                    rw.append((int(m.group(3), 16), int(m.group(3), 16) + int(m.group(2), 16)))
            out = run(['objdump', '-d', '--no-show-raw-insn', so]).stdout
            res, fn, hot = [], None, []
            for line in out.splitlines():
                m = re.match(r'^[0-9a-f]+ <(.*)>:$', line)
                if m:
                    fn = m.group(1); res.append((fn, [])); continue
                m = re.match(r'^ +([0-9a-f]+):\t(\S+)', line)
                if m and res and m.group(2) not in ('nop', 'nopw', 'nopl', 'data16', 'xchg', 'ud2', '(bad)'):
                    res[-1][1].append(m.group(1))
                    h = re.search(r'# ([0-9a-f]+) <', line)
                    if h and any(a <= int(h.group(1), 16) < b for a, b in rw) and 'plt' not in fn and fn not in ('deregister_tm_clones', 'register_tm_clones', '__do_global_dtors_aux', 'frame_dummy'):
                        hot.append(m.group(1))
            with open(so + '.ins', 'w') as f:
                if hot:
                    f.write('@hot ' + ' '.join(hot) + '\n')
                for fn, a in res:
                    if a and 'plt' not in fn and fn not in ('_init', '_fini'):
                        f.write(fn.split('@')[0] + ' ' + ' '.join(a) + '\n')
        for j in [POOL.submit(one, self.out + '/' + so) for so in files]:
            j.result()

    def simulator(self):
        """one executable; compiled objects are kept per content hash under .build/simcache"""
        cache = VERIF + '/.build/simcache'
        os.makedirs(cache, exist_ok=True)
        hdr = hashlib.sha256()
        for h in sorted(os.listdir(SIM)):
            if h.endswith('.h'):
                hdr.update(open(SIM + '/' + h, 'rb').read())
        srcs = [s for s in sorted(os.listdir(SIM)) if s.endswith('.cc') and s != 'selftest.cc']
        flags = ['-O1', '-std=c++17', '-w', '-U_FORTIFY_SOURCE', '-fcf-protection=none']
        def one(s):
            h = hashlib.sha256(hdr.digest() + open(SIM + '/' + s, 'rb').read() + ' '.join(flags).encode()).hexdigest()[:20]
            o = '%s/%s-%s.o' % (cache, s, h)
            if not os.path.exists(o):
                t = '%s.%d.tmp' % (o, os.getpid())
                fl = ['-O2' if f == '-O1' and s in ('model.cc', 'core.cc', 'tsanrt.cc') else f for f in flags]
                run(['g++'] + fl + ['-c', SIM + '/' + s, '-o', t])
                os.rename(t, o)
            return o
        objs = [POOL.submit(one, s) for s in srcs]
        def link():
            exe = self.out + '/simrun'
            run(['g++', '-o', exe] + [o.result() for o in objs] + ['-rdynamic', '-ldl', '-lpthread'] + self.extra_link)
            return exe
        return link
    extra_link = []
