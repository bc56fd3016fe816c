#!/usr/bin/env python3
"""Builds the harness from /repo's working tree and runs the check of one property.

  run.py check ID        (VERIF_SEED, VERIF_TIER=quick|thorough)
  run.py replay FILE     re-runs one recorded counterexample on the current tree
  run.py setup           nothing to install; reports the tools that are used
"""
import hashlib, json, os, re, shutil, subprocess, sys, time, fcntl, threading
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'tools'))

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
HARN = os.path.join(VERIF, 'harness')
BUILD = os.path.join(VERIF, 'build')
EVID = os.path.join(VERIF, 'evidence')
REPLAY = os.path.join(VERIF, 'replay')
LIB = os.path.join(REPO, 'include/pandaresampler/pandaresampler.cc')
PYTHON = shutil.which('python3-vt') or '/opt/veriftools/pyvenv/bin/python'
JOBS = 8
DEADLINE = 840.0            # a check must end within 900 s
T0 = time.time()
TIER = 'thorough' if os.environ.get('VERIF_TIER') == 'thorough' else 'quick'

class CheckError(Exception):
    pass

def log(*a):
    print(*a, flush=True)

# ---------------------------------------------------------------- building

def tree_hash():
    """Everything the builds depend on: sources of the library and of the harness."""
    h = hashlib.sha256()
    for root in (os.path.join(REPO, 'include'), os.path.join(REPO, 'filter-design'), HARN):
        for d, dirs, files in sorted(os.walk(root)):
            dirs.sort()
            for f in sorted(files):
                p = os.path.join(d, f)
                h.update(os.path.relpath(p, root).encode() + b'\0')
                with open(p, 'rb') as fh:
                    h.update(hashlib.sha256(fh.read()).digest())
    with open(os.path.join(VERIF, 'tools/octave.py'), 'rb') as fh:
        h.update(fh.read())
    return h.hexdigest()[:20]

# variant: compiler, flags for code under test and harness, allocation hook, environment, library source
VARIANTS = {
  'plain':  dict(cxx='g++',     flags=['-O2']),
  'o3':     dict(cxx='g++',     flags=['-O3']),
  'nosimd': dict(cxx='g++',     flags=['-O2', '-U__SSE__', '-DNO_SIMD_BUILD']),
  'clang':  dict(cxx='clang++', flags=['-O2']),
  'asan':   dict(cxx='clang++', flags=['-O1', '-g1', '-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-fno-omit-frame-pointer'], san=True),
  'tsan':   dict(cxx='clang++', flags=['-O1', '-g1', '-fsanitize=thread'], san=True),
  'fault':  dict(cxx='g++',     flags=['-O2', '-include', os.path.join(HARN, 'faulty_sse.h')]),
  # counts executed basic blocks, and bytes moved by library functions
  'cov':    dict(cxx='clang++', flags=['-O1', '-fsanitize-coverage=trace-pc', '-Wl,--wrap=memcpy,--wrap=memmove,--wrap=memset'], san=True),
  # coverage guided fuzzing (libFuzzer): the code under test and the property are instrumented, the engine and the model are not
  'fuzz':   dict(cxx='clang++', flags=['-O1'], san=True, fuzz=['-fsanitize=fuzzer-no-link']),
  'fuzzasan': dict(cxx='clang++', flags=['-O1', '-g1', '-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-fno-omit-frame-pointer'], san=True, fuzz=['-fsanitize=fuzzer-no-link']),
  'dbg':    dict(cxx='g++',     flags=['-O1', '-D_GLIBCXX_ASSERTIONS']),
}
ENV = {
  'ASAN_OPTIONS': 'detect_leaks=0:allocator_may_return_null=1:handle_abort=1:detect_stack_use_after_return=1',
  'UBSAN_OPTIONS': 'print_stacktrace=1',
  'TSAN_OPTIONS': 'halt_on_error=1:exitcode=66:report_signal_unsafe=0',
}
CORE = ['pbt.cc', 'model.cc', 'gen.cc', 'util.cc']
# sources of the harness executables: 'lib' links the library; the others are self contained
EXES = {
  'rs':    ['props_rs.cc'],
  'freq':  ['props_freq.cc'],
  'mem':   ['props_mem.cc'],
  'life':  ['props_life.cc'],
  'multi': ['props_multi.cc'],
  'misc':  ['props_misc.cc'],
  'rt':    ['props_rt.cc'],
  'arr':   ['props_arr.cc'],
  'oom':   ['props_oom.cc'],
  'des':   ['props_des.cc'],
  'hiir':  ['props_hiir.cc'],
  'stage': ['props_stage.cc'],
  'tool':  ['props_tool.cc'],
  'var':   ['props_var.cc'],
  'firtool': ['props_firtool.cc'],
}
# builds of the library that are compared with each other (C11): name, compiler, flags, (simd, modes, thorough only)
# modes: l library, h header-only in two translation units
LIB_VARIANTS = [
  ('gcc-O2',        'g++',     ['-std=c++17', '-O2'], 'sse', 'lh', False),
  ('gcc-O3-c++11',  'g++',     ['-std=c++11', '-O3'], 'sse', 'l', False),
  ('gcc-O0',        'g++',     ['-std=c++17', '-O0'], 'sse', 'l', False),
  ('gcc-fma',       'g++',     ['-std=c++17', '-O3', '-mavx2', '-mfma'], 'sse', 'l', False),
  ('gcc-nosimd',    'g++',     ['-std=c++17', '-O2', '-U__SSE__'], 'none', 'l', False),
  ('gcc-neon',      'g++',     ['-std=c++17', '-O2', '-U__SSE__', '-D__ARM_NEON', '-I' + os.path.join(HARN, 'neon')], 'neon', 'l', False),
  ('gcc-debug',     'g++',     ['-std=c++20', '-O1', '-D_GLIBCXX_DEBUG', '-D_GLIBCXX_DEBUG_PEDANTIC'], 'sse', 'l', False),
  ('gcc-ndebug',    'g++',     ['-std=c++14', '-O2', '-DNDEBUG'], 'sse', 'l', False),
  ('clang-O2',      'clang++', ['-std=c++17', '-O2'], 'sse', 'lh', False),
  ('clang-nosimd',  'clang++', ['-std=c++11', '-O1', '-U__SSE__'], 'none', 'h', False),
  ('gcc-Os',        'g++',     ['-std=c++23', '-Os'], 'sse', 'l', True),
  ('gcc-O3-h',      'g++',     ['-std=c++11', '-O3'], 'sse', 'h', True),
  ('gcc-neon-h',    'g++',     ['-std=c++11', '-O3', '-U__SSE__', '-D__ARM_NEON', '-I' + os.path.join(HARN, 'neon')], 'neon', 'h', True),
  ('gcc-nosimd-h',  'g++',     ['-std=c++20', '-O3', '-U__SSE__'], 'none', 'lh', True),
  ('gcc-avx',       'g++',     ['-std=c++17', '-O3', '-mavx'], 'sse', 'lh', True),
  ('gcc-unroll',    'g++',     ['-std=c++17', '-O3', '-funroll-all-loops', '-funsigned-char'], 'sse', 'l', True),
  ('clang-O0',      'clang++', ['-std=c++14', '-O0'], 'sse', 'l', True),
  ('clang-O3-fma',  'clang++', ['-std=c++20', '-O3', '-mavx2', '-mfma'], 'sse', 'lh', True),
  ('clang-neon',    'clang++', ['-std=c++17', '-O2', '-U__SSE__', '-D__ARM_NEON', '-I' + os.path.join(HARN, 'neon')], 'neon', 'lh', True),
  ('clang-ndebug',  'clang++', ['-std=c++23', '-Os', '-DNDEBUG'], 'sse', 'l', True),
]

def exe_objects(exe, variant):
    v = VARIANTS[variant]
    srcs = [os.path.join(HARN, f) for f in CORE + EXES[exe]]
    srcs.append(os.path.join(HARN, 'alloc_stub.cc' if v.get('san') else 'alloc_hook.cc'))
    srcs.append(os.path.join(HARN, 'api.cc'))
    srcs.append(LIB)
    return srcs

def run_cmd(cmd, what):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')
    if r.returncode != 0:
        raise CheckError('%s failed:\n%s\n%s' % (what, ' '.join(cmd), r.stdout[-6000:]))

class Builder:
    def __init__(self):
        self.dir = os.path.join(BUILD, tree_hash())
        os.makedirs(self.dir, exist_ok=True)
        self.lock = open(os.path.join(BUILD, 'lock'), 'w')
        fcntl.flock(self.lock, fcntl.LOCK_EX)
        # keep the newest builds only
        ds = sorted((os.path.join(BUILD, d) for d in os.listdir(BUILD) if os.path.isdir(os.path.join(BUILD, d))), key=os.path.getmtime)
        for d in ds[:-6]:
            if d != self.dir:
                shutil.rmtree(d, ignore_errors=True)
        os.utime(self.dir)
        self.pool = ThreadPoolExecutor(JOBS)
        self.futures = {}
        self.mutex = threading.Lock()

    def compile(self, src, cxx, flags):
        std = [] if any(f.startswith('-std=') for f in flags) else ['-std=c++17']
        cmd = [cxx] + std + ['-w', '-I' + os.path.join(REPO, 'include'), '-I' + HARN] + flags
        key = hashlib.sha256(' '.join(cmd + [src]).encode()).hexdigest()[:12]
        obj = os.path.join(self.dir, os.path.basename(src) + '.' + key + '.o')
        with self.mutex:
            if obj not in self.futures:
                def job():
                    if not os.path.exists(obj):
                        tmp = obj + '.tmp%d' % os.getpid()
                        run_cmd(cmd + ['-c', src, '-o', tmp], 'compiling ' + src)
                        os.rename(tmp, obj)
                    return obj
                self.futures[obj] = self.pool.submit(job)
            return self.futures[obj]

    def exe(self, exe, variant):
        """Returns a function that waits for the executable and gives its path."""
        v = VARIANTS[variant]
        extra = []
        if exe == 'py':
            def wrapper():
                path = os.path.join(self.dir, 'h_py')
                with open(path + '.tmp%d' % os.getpid(), 'w') as f:
                    f.write('#!/bin/sh\nexec %s %s "$@"\n' % (PYTHON, os.path.join(VERIF, 'tools/pyprops.py')))
                os.chmod(path + '.tmp%d' % os.getpid(), 0o755)
                os.rename(path + '.tmp%d' % os.getpid(), path)
                return path
            return wrapper
        inc = []
        if exe == 'firtool':
            inc = ['-I' + self.fir_section()]
        if exe == 'tool':
            tool = self.compile(os.path.join(REPO, 'filter-design/mkiir.cc'), v['cxx'], v['flags'])
            def link_tool(path):
                run_cmd([v['cxx']] + v['flags'] + [tool.result(), '-o', path + '.mkiir.tmp'], 'linking mkiir')
                os.rename(path + '.mkiir.tmp', path + '.mkiir')
            extra.append(link_tool)
        if exe == 'var':
            extra.append(self.lib_variants())
        # longest first
        def flags(s):
            f = v['flags'] + ['-DVARIANT="%s"' % variant] + (inc if s.endswith('props_firtool.cc') else [])
            if 'fuzz' in v:
                f = f + (['-DPBT_FUZZER'] if os.path.basename(s) in CORE else v['fuzz'])
            return f
        objs = [self.compile(s, v['cxx'], flags(s)) for s in reversed(exe_objects(exe, variant))]
        path = os.path.join(self.dir, 'h_%s_%s%s' % (exe, variant, '_thorough' if exe == 'var' and TIER == 'thorough' else ''))
        def link():
            os_ = [f.result() for f in objs]
            if not os.path.exists(path):
                for e in extra:
                    e(path)
                run_cmd([v['cxx']] + v['flags'] + (['-fsanitize=fuzzer'] if 'fuzz' in v else []) + os_ + ['-o', path + '.tmp', '-lpthread', '-ldl'], 'linking ' + path)
                os.rename(path + '.tmp', path)
            return path
        return link

    def fir_section(self):
        """Runs filter-design/mkfir.sh (with the stand-in for octave) in a scratch directory and prepares its output for props_firtool.cc."""
        dest = os.path.join(self.dir, 'mkfir')
        if os.path.exists(os.path.join(dest, 'mkfir_status.h')):
            return dest
        import tempfile
        tmp = tempfile.mkdtemp(prefix='mkfir.')
        status, section = '', ''
        try:
            work = os.path.join(tmp, 'work')
            shutil.copytree(os.path.join(REPO, 'filter-design'), work)
            os.mkdir(os.path.join(tmp, 'bin'))
            for n in ('octave', 'octave-cli'):
                p = os.path.join(tmp, 'bin', n)
                with open(p, 'w') as f:
                    f.write('#!/bin/sh\nexec %s %s "$@"\n' % (PYTHON, os.path.join(VERIF, 'tools/octave.py')))
                os.chmod(p, 0o755)
            mark = os.path.join(tmp, 'unsupported')
            env = dict(os.environ, PATH=os.path.join(tmp, 'bin') + ':' + os.environ.get('PATH', ''), OCTAVE_UNSUPPORTED=mark, HOME=tmp)
            try:
                r = subprocess.run(['bash', './mkfir.sh'], cwd=work, env=env, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', timeout=200)
                if os.path.exists(mark):
                    raise CheckError('the stand-in for octave cannot run the design script: ' + open(mark).read().strip())
                out = os.path.join(work, 'mkfir.gen.cc')
                if not os.path.exists(out):
                    status = 'mkfir.sh did not write mkfir.gen.cc: ' + r.stdout[-300:]
                else:
                    section = open(out, errors='replace').read()
            except subprocess.TimeoutExpired:
                status = 'mkfir.sh did not end'
            os.makedirs(dest, exist_ok=True)
            def write(status, section):
                with open(os.path.join(dest, 'mkfir_section.h'), 'w') as f:
                    f.write(section)
                with open(os.path.join(dest, 'mkfir_status.h.tmp'), 'w') as f:
                    f.write('#define MKFIR_STATUS %s\n' % json.dumps(''.join(c if ' ' <= c < '\x7f' else ' ' for c in status)))
                os.rename(os.path.join(dest, 'mkfir_status.h.tmp'), os.path.join(dest, 'mkfir_status.h'))
            write(status, section)
            if not status:
                r = subprocess.run(['g++', '-std=c++17', '-w', '-fsyntax-only', '-I' + os.path.join(REPO, 'include'), '-I' + HARN, '-I' + dest, os.path.join(HARN, 'props_firtool.cc')],
                                   stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')
                if r.returncode:
                    os.unlink(os.path.join(dest, 'mkfir_status.h'))
                    write('the section printed by mkfir.sh does not compile: ' + r.stdout[:600], '')
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
        return dest

    def lib_variants(self):
        """Shared objects with differently built copies of the library."""
        cpu = open('/proc/cpuinfo').read()
        shared = ['-fPIC', '-fvisibility=hidden', '-DAPI_EXPORT=__attribute__((visibility("default")))']
        api = os.path.join(HARN, 'api.cc')
        todo = []
        for name, cxx, flags, simd, modes, thorough in LIB_VARIANTS:
            if thorough and TIER != 'thorough':
                continue
            if ('-mfma' in flags and ' fma ' not in cpu) or ('-mavx2' in flags and ' avx2' not in cpu) or ('-mavx' in flags and ' avx' not in cpu):
                continue
            fl = flags + shared + (['-fno-gnu-unique'] if cxx == 'g++' else [])
            if 'l' in modes:
                todo.append((name + '-lib', cxx, simd, name, ['rs_get_api'], [self.compile(LIB, cxx, fl), self.compile(api, cxx, fl + ['-DVARIANT="%s-lib"' % name])]))
            if 'h' in modes:
                ho = fl + ['-DPANDA_RESAMPLER_HEADER_ONLY']
                todo.append((name + '-ho', cxx, simd, name, ['rs_get_api', 'rs_get_api2'], [self.compile(api, cxx, ho + ['-DVARIANT="%s-ho1"' % name]),
                             self.compile(api, cxx, ho + ['-DVARIANT="%s-ho2"' % name, '-DAPI_FN=rs_get_api2'])]))
        def link(path):
            lines = []
            for name, cxx, simd, group, fns, objs in todo:
                so = os.path.join(self.dir, 'v_%s.so' % name)
                try:
                    os_ = [o.result() for o in objs]
                    if not os.path.exists(so):
                        run_cmd([cxx, '-shared', '-Wl,-Bsymbolic', '-Wl,--no-undefined'] + os_ + ['-o', so + '.tmp', '-lm'], 'linking ' + so)
                        os.rename(so + '.tmp', so)
                except CheckError as e:
                    # the reference build is fine, or else the harness is not built: this variant is broken
                    with open(so + '.log', 'w') as f:
                        f.write(str(e))
                    lines.append('%s broken - - %s\n' % (name, so + '.log'))
                    continue
                for i, fn in enumerate(fns):
                    lines.append('%s%s %s %s %s %s\n' % (name, '' if len(fns) == 1 else i + 1, simd, group, fn, so))
            with open(path + '.txt', 'w') as f:
                f.write(''.join(lines))
        return link

    def close(self):
        self.pool.shutdown()
        fcntl.flock(self.lock, fcntl.LOCK_UN)

# ---------------------------------------------------------------- checks

# step: (executable, variant, property function, cases quick, cases thorough, options)
def S(exe, variant, prop, quick, thorough, **opt):
    return dict(exe=exe, variant=variant, prop=prop, cases=(quick, thorough), **opt)

from checks import CHECKS, ASSUMPTIONS      # noqa: E402

def known_findings(pid):
    """Entries 'finding: property=<id> match=<regex> <what fails>'; lines starting with 'fixed:' suppress nothing."""
    res = []
    path = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(path):
        for l in open(path):
            m = re.match(r'finding: property=(\S+) match=(\S+) (.*)', l.strip())
            if m and m.group(1) == pid:
                res.append((m.group(2), m.group(3)))
    return res

def run_step(path, step, seed, tier, outdir, idx, cap):
    n = step['cases'][tier == 'thorough']
    out = os.path.join(outdir, 's%d.json' % idx)
    fail = os.path.join(outdir, 's%d.fail' % idx)
    cmd = [path, 'run', step['prop'], '--seed', str(seed), '--cases', str(n), '--workers', str(step.get('workers', JOBS)), '--cap', '%g' % cap,
           '--effort', '2' if tier == 'thorough' else '1', '--out', out, '--fail', fail, '--shrink', str(step.get('shrink', 40))]
    env = dict(os.environ, **ENV, **step.get('env', {}))
    if step.get('setarch'):
        cmd = ['setarch', '-R'] + cmd
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors='replace', env=env, cwd=outdir)
    if r.returncode not in (0, 1, 4):
        raise CheckError('harness error in %s (%d):\n%s' % (step['prop'], r.returncode, r.stderr[-3000:]))
    st = json.load(open(out))
    st['rc'] = r.returncode
    st['stderr'] = r.stderr
    st['fail'] = fail
    return st

def run_fuzz(path, plain, step, seed, tier, outdir, idx, cap):
    """Coverage guided search with libFuzzer in independent processes, each with its own seed and corpus; what it finds is confirmed and
    minimized by the ordinary executable."""
    n = step['cases'][tier == 'thorough'] // JOBS
    env = dict(os.environ, PBT_PROP=step['prop'], **ENV)
    t0 = time.time()
    jobs = []
    pre = ['setarch', '-R'] if step.get('setarch') else []
    for k in range(JOBS):
        d = os.path.join(outdir, 'fuzz%d.%d' % (idx, k))
        os.makedirs(os.path.join(d, 'corpus'))
        with open(os.path.join(d, 'log'), 'w') as lf:
            jobs.append((d, subprocess.Popen(pre + [path, '-seed=%d' % (seed * 64 + k + 1), '-runs=%d' % n, '-max_total_time=%d' % cap, '-max_len=%d' % step.get('max_len', 2048), '-use_value_profile=%d' % (k & 1),
                                                    '-len_control=%d' % (20 if k & 2 else 100), '-timeout=60', '-rss_limit_mb=3000', '-artifact_prefix=' + d + '/', '-print_final_stats=1', os.path.join(d, 'corpus')],
                                             cwd=d, env=dict(env, PBT_CHOICES=os.path.join(d, 'choices')), stdin=subprocess.DEVNULL, stdout=lf, stderr=lf)))
    st = dict(prop=step['prop'], evaluations=0, nontrivial=0, distinct_nontrivial=0, choices=0, capped=False, labels={}, samples=[], verdict='pass', rc=0, stderr='',
              rule='coverage guided search (libFuzzer) for the cases of this property; distinct ones are those which reached new code or values')
    fail = os.path.join(outdir, 's%d.fail' % idx)
    for d, p in jobs:
        rc = p.wait()
        text = open(os.path.join(d, 'log'), errors='replace').read()
        r = subprocess.run([plain, 'fuzzchoices', os.path.join(d, 'choices'), step['prop']], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
        m = re.match(r'executions (\d+) nontrivial (\d+)', r.stdout)
        if not m:
            raise CheckError('fuzzer of %s (%d):\n%s' % (step['prop'], rc, text[-3000:]))
        corpus = len(os.listdir(os.path.join(d, 'corpus')))
        st['evaluations'] += int(m.group(1))
        st['nontrivial'] += int(m.group(2))
        st['distinct_nontrivial'] += min(corpus, int(m.group(2)))
        if rc == 0 and int(m.group(1)) < n:
            st['capped'] = True
        cov = re.findall(r'cov: (\d+) ft: (\d+)', text)
        if cov:
            st['samples'].append('process %d: %s executions, %s code edges, %s features, %d inputs in the corpus' % (jobs.index((d, p)), m.group(1), cov[-1][0], cov[-1][1], corpus))
        if rc != 0 and st['rc'] == 0:
            slow = 'libFuzzer: timeout' in text or 'libFuzzer: out-of-memory' in text
            r = subprocess.run([plain, 'fuzzchoices', os.path.join(d, 'choices'), step['prop'], fail], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=env, cwd=d)
            if r.returncode == 1:
                st.update(rc=1, verdict='fail', stderr=text[-2500:], fail=fail, replay_variant='asan' if step['variant'] == 'fuzzasan' else 'plain')
            elif not slow:
                # fails in the fuzzer only (for instance, a sanitizer report): keep its input
                with open(fail, 'w') as f:
                    f.write('kind fuzzer\nmessage %s\n' % ' '.join(re.findall(r'^(?:PBT-FAIL.*|SUMMARY.*|.*runtime error.*)$', text, re.M) or [text[-300:].replace('\n', ' ')]))
                    f.write('prop %s\n' % step['prop'])
                    for a in os.listdir(d):
                        if a.startswith('crash-'):
                            f.write('input %s\n' % open(os.path.join(d, a), 'rb').read().hex())
                st.update(rc=4, verdict='fail', stderr=text[-2500:], fail=fail)
    st['wall_s'] = round(time.time() - t0, 3)
    return st

def starts(path, fuzz=False):
    """Can this executable run here (thread sanitizer needs a certain address space layout)?"""
    env = dict(os.environ, **ENV)
    for pre in ([], ['setarch', '-R']):
        r = subprocess.run(pre + [path, '-help=1' if fuzz else 'list'], stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env)
        if r.returncode == 0:
            return True, bool(pre)
    return False, False

def check(pid):
    spec = CHECKS[pid]
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    tier = TIER
    os.makedirs(EVID, exist_ok=True)
    os.makedirs(REPLAY, exist_ok=True)
    evpath = os.path.join(EVID, pid + '.json')
    if os.path.exists(evpath):
        os.unlink(evpath)
    steps = [s for s in spec['steps'] if s['cases'][tier == 'thorough'] > 0]
    b = Builder()
    outdir = os.path.join(b.dir, 'run_%s_%s_%d' % (pid, tier, os.getpid()))
    os.makedirs(outdir, exist_ok=True)
    links = {}
    for s in steps:
        k = (s['exe'], s['variant'])
        if k not in links:
            links[k] = b.exe(*k)
        if 'fuzz' in VARIANTS[s['variant']]: # confirms what the fuzzer finds
            k = (s['exe'], 'asan' if s['variant'] == 'fuzzasan' else 'plain')
            if k not in links:
                links[k] = b.exe(*k)
    # link in parallel too
    lp = ThreadPoolExecutor(JOBS)
    try:
        done = {k: lp.submit(l) for k, l in links.items()}
        paths, missing = [], {}
        for s in steps:
            try:
                paths.append(done[(s['exe'], s['variant'])].result())
            except CheckError as e:
                # 'optional' steps look at internal interfaces, which may legitimately change
                if not s.get('optional'):
                    raise
                paths.append(None)
                missing[s['prop']] = str(e)
    finally:
        lp.shutdown()
        b.close()
    t_build = time.time() - T0
    log('%s: built in %.1f s (%s)' % (pid, t_build, b.dir))
    stats, violation, skipped = [], None, []
    known = known_findings(pid)
    known_seen = {}
    for i, (s, path) in enumerate(zip(steps, paths)):
        if path is None:
            skipped.append('%s: does not compile with the current interfaces' % s['prop'])
            log('skipped:', skipped[-1], '\n', missing[s['prop']][-1500:])
            continue
        if VARIANTS[s['variant']].get('san') and s['exe'] in EXES:
            ok, arch = starts(path, 'fuzz' in VARIANTS[s['variant']])
            if not ok:
                skipped.append('%s/%s: executable does not start in this environment' % (s['variant'], s['prop']))
                log('skipped:', skipped[-1])
                continue
            s = dict(s, setarch=arch)
        left = DEADLINE - (time.time() - T0)
        cap = max(10.0, min(s.get('cap', 400.0), left - 100.0))
        if 'fuzz' in VARIANTS[s['variant']]:
            st = run_fuzz(path, done[(s['exe'], 'asan' if s['variant'] == 'fuzzasan' else 'plain')].result(), s, seed, tier, outdir, i, cap)
        else:
            st = run_step(path, s, seed, tier, outdir, i, cap)
        st['variant'] = s['variant']
        stats.append(st)
        log('  %-18s %-7s %9d cases, %9d non-trivial and distinct, %6.1f s%s  %s' % (
            s['prop'], s['variant'], st['evaluations'], st['distinct_nontrivial'], st['wall_s'], ' (stopped by the time limit)' if st['capped'] else '', st['verdict']))
        if st['rc'] in (1, 4):
            text = open(st['fail']).read()
            msg = ' '.join(l.split(' ', 1)[1] for l in text.splitlines() if l.startswith('message '))
            kind = ' '.join(l.split(' ', 1)[1] for l in text.splitlines() if l.startswith('kind '))
            if st['rc'] == 4 and kind == 'hang':
                log('  a case hung once and not again: machine too slow, ignored')
                skipped.append('%s: stopped early by a slow case' % s['prop'])
                continue
            k = next((w for m, w in known if re.search(m, kind + ' ' + msg)), None)
            if k:
                known_seen[k] = 1
                continue
            rp = os.path.join(REPLAY, '%s-%s-%s.replay' % (pid, s['prop'], s['variant']))
            with open(rp, 'w') as f:
                f.write('# %s: re-run with: python3 %s replay %s\ncheck %s\nexe %s\nvariant %s\ntier %s\n' % (pid, os.path.join(VERIF, 'run.py'), rp, pid, s['exe'], st.get('replay_variant', s['variant']), tier))
                f.write(text)
            violation = rp
            log(st['stderr'][-2500:])
            log('  ' + '\n  '.join(l for l in text.splitlines() if not l.startswith('choices'))[:6000])
            break
    shutil.rmtree(outdir, ignore_errors=True)
    if not stats:
        raise CheckError('no step could run: ' + '; '.join(skipped))
    for k in known_seen:
        log('KNOWN-FINDING: property=%s %s' % (pid, k))
    coverage = {
        'evaluations': sum(s['evaluations'] for s in stats),
        'distinct_nontrivial': sum(s['distinct_nontrivial'] for s in stats),
        'rule': ' || '.join('%s: %s' % (s['prop'], s['rule']) for s in stats if s is next(t for t in stats if t['prop'] == s['prop'])),
        'samples': [{'step': s['prop'] + '/' + s['variant'], 'case': x} for s in stats for x in s['samples'][:6]],
        'steps': [{'property_function': s['prop'], 'build': s['variant'], 'evaluations': s['evaluations'], 'nontrivial': s['nontrivial'],
                   'distinct_nontrivial': s['distinct_nontrivial'], 'choices_drawn': s['choices'], 'stopped_by_time_limit': s['capped'],
                   'wall_s': s['wall_s'], 'verdict': s['verdict'], 'classes': s['labels']} for s in stats],
        'skipped': skipped,
        'build_s': round(t_build, 2),
    }
    if spec.get('exhaustive') and not violation:
        coverage['exhaustive_parts'] = spec['exhaustive']
    if not coverage['samples'] and violation:
        coverage['samples'] = [{'step': 'failing case', 'case': open(violation).read()[:3000]}]
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': 'exploration', 'coverage': coverage,
          'assumptions': ASSUMPTIONS + spec.get('assumptions', []), 'wall_s': round(time.time() - T0, 2), 'violations': 1 if violation else 0}
    with open(evpath + '.tmp', 'w') as f:
        json.dump(ev, f, indent=1)
    os.rename(evpath + '.tmp', evpath)
    if violation:
        log('VIOLATION property=%s replay=%s' % (pid, violation))
        return 1
    log('%s: held on %d cases, %.1f s' % (pid, coverage['evaluations'], time.time() - T0))
    return 0

def replay(path):
    text = open(path).read()
    get = lambda k: re.search(r'^%s (\S+)$' % k, text, re.M).group(1)
    global TIER
    TIER = get('tier')
    b = Builder()
    exe = b.exe(get('exe'), get('variant'))()
    b.close()
    pre = []
    fuzz = 'fuzz' in VARIANTS[get('variant')]
    if VARIANTS[get('variant')].get('san'):
        ok, arch = starts(exe, fuzz)
        pre = ['setarch', '-R'] if arch else []
    if fuzz:
        import tempfile
        with tempfile.NamedTemporaryFile() as f:
            f.write(bytes.fromhex(get('input')))
            f.flush()
            return 1 if subprocess.run(pre + [exe, f.name], env=dict(os.environ, PBT_PROP=get('prop'), **ENV)).returncode else 0
    r = subprocess.run(pre + [exe, 'replay', path], env=dict(os.environ, PBT_SLOW='6', **ENV))
    return r.returncode

def main():
    if len(sys.argv) > 2 and sys.argv[1] == 'check':
        return check(sys.argv[2])
    if len(sys.argv) > 2 and sys.argv[1] == 'replay':
        return replay(sys.argv[2])
    if len(sys.argv) > 1 and sys.argv[1] == 'setup':
        for t in ('g++', 'clang++', 'setarch'):
            log(t, shutil.which(t))
        return 0
    print(__doc__)
    return 2

if __name__ == '__main__':
    try:
        sys.exit(main())
    except CheckError as e:
        print('ERROR:', e, flush=True)
        sys.exit(2)
