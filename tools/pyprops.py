#!/opt/veriftools/pyvenv/bin/python
"""Property functions in Python with the command line of the C++ harness (run PROP .. | replay FILE | list).

c26_design: filter-design/us_sinc.m and mkfir.sh, run by the stand-in for octave with generated parameters.
c28_package: see pkgprops.py.
"""
import sys, os, re, json, math, random, subprocess, tempfile, shutil, time, argparse
from multiprocessing import Pool
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import numpy as np
import mpmath as mp
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
SRC = os.path.join(REPO, 'filter-design')

from pycommon import Fail, CannotRun
import pkgprops

def scratch():
    """a private copy of the design scripts and an 'octave' command"""
    d = tempfile.mkdtemp(prefix='mkfir.')
    for f in os.listdir(SRC):
        if os.path.isfile(os.path.join(SRC, f)):
            shutil.copy(os.path.join(SRC, f), d)
    os.mkdir(d + '/bin')
    for n in ('octave', 'octave-cli'):
        with open(d + '/bin/' + n, 'w') as f:
            f.write('#!/bin/sh\nexec %s %s/octave.py "$@"\n' % (sys.executable, HERE))
        os.chmod(d + '/bin/' + n, 0o755)
    return d

def run(d, cmd, timeout=120):
    env = dict(os.environ, PATH=d + '/bin:' + os.environ.get('PATH', ''), OCTAVE_UNSUPPORTED=d + '/unsupported', HOME=d, OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1')
    r = subprocess.run(cmd, cwd=d, env=env, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', timeout=timeout)
    if os.path.exists(d + '/unsupported'):
        raise CannotRun('the stand-in for octave does not support: ' + open(d + '/unsupported').read().strip())
    return r.returncode, r.stdout

# ------------------------------------------------------------------ the oracle

def geg(n, mu, x):
    a, b = mp.mpf(1), 2 * mu * x
    for k in range(2, n + 1):
        a, b = b, (2 * x * (k + mu - 1) * b - (k + 2 * mu - 2) * a) / k
    return b if n else a

def ideal(n, mu, latt):
    """windowed sinc of 2n+1 points: half-band sinc times ultraspherical window (attenuation of the last side lobe)"""
    with mp.workdps(30):
        mu, N = mp.mpf(mu), 2 * n
        M = N + 1
        g = lambda x: geg(N - 1, mu + 1, x)
        step = mp.pi / N / 20
        x = step
        s0 = mp.sign(g(x))
        while mp.sign(g(x + step)) == s0:
            x += step
        x = mp.findroot(g, (x, x + step), solver='anderson', tol=1e-45, verify=False)
        ref = abs(geg(N, mu, x))
        r = mp.mpf(10) ** (mp.mpf(latt) / 20)
        lo, hi = mp.mpf(1), mp.mpf(2)
        while geg(N, mu, hi) / ref < r:
            hi *= 2
        for _ in range(100):
            m = (lo + hi) / 2
            if geg(N, mu, m) / ref < r: lo = m
            else: hi = m
        W = [geg(N, mu, lo * mp.cos(mp.pi * k / M)) for k in range(n + 1)]
        cosines = [mp.cos(2 * mp.pi * k / M) for k in range(M)]
        w = [W[0] + 2 * sum(W[k] * cosines[k * m % M] for k in range(1, n + 1)) for m in range(n + 1)]
        c = [mp.sin(mp.pi * k / 2) / (mp.pi * k / 2) / 2 if k % 2 else mp.mpf(0 if k else '0.5') for k in range(n + 1)]
        half = [c[k] * w[k] / w[0] for k in range(n + 1)]
        return np.array([float(half[abs(k)]) for k in range(-n, n + 1)])

def read_octave(path):
    v, rows = {}, []
    name = None
    for l in open(path):
        if l.startswith('# name:'):
            name = l.split(':')[1].strip()
            v[name] = []
        elif not l.startswith('#') and l.strip() and name:
            v[name].append([float(x) for x in l.split()])
    return {k: np.array(x) for k, x in v.items()}

def gain(c, freq, rate):
    """|response| of taps c at sampling rate 2*rate"""
    w = np.pi * freq / rate
    return np.abs(np.exp(-1j * np.outer(w, np.arange(len(c)))) @ c)

def close(got, want, what):
    # the stand-in works in double precision: cancellation in the window limits the small coefficients
    tol = 1e-8 * np.abs(want) + 1e-11
    bad = np.nonzero(~(np.abs(got - want) <= tol))[0]
    if len(bad):
        k = bad[0]
        raise Fail('coefficient', '%s: coefficient %d is %.17g instead of %.17g' % (what, k, got[k], want[k]))

# ------------------------------------------------------------------ c26_design

RULE = ('a case is a set of parameters (number of coefficients 2..60, mu 0.1..2, attenuation 20..150 dB, stage and bits); us_sinc() has to return the '
        'half-band windowed sinc for them and save its frequency response, and a copy of mkfir.sh with a table of such parameters has to print the '
        'coefficients, select them for their stage and precision in both modes, and write the plot; compared with a design in 30 digits; '
        'non-trivial: at least one coefficient below 1% of the largest one')

def gen_params(rng):
    n = 2 * rng.randint(1, 30)
    p = dict(n=n, xmu=rng.choice([0.75, 0.75, round(rng.uniform(0.1, 2), 3)]), latt=rng.choice([float(rng.randint(20, 150)), rng.randint(80, 600) / 4]),
             stage=rng.choice([2, 4, 8]), bits=rng.choice([8, 12, 16, 20, 24]), script=rng.random() < 0.5)
    p['latt'] = min(p['latt'], 2.6 * n + 40 if n > 4 else 45)
    if p['script']:
        p['xmu'] = 0.75
    return in_domain(p)

def in_domain(p):
    p['latt'] = max(p['latt'], math.ceil(min_latt(p['n'], p['xmu'])) + 10.0)
    return p

def min_latt(n, mu):
    """below this attenuation the window has no main lobe"""
    t = np.cos(np.linspace(math.pi / 2 - 1e-3 / n, 0, 400 * n))
    a, b = np.ones_like(t), 2 * mu * t
    for k in range(2, 2 * n + 1):
        a, b = b, (2 * t * (k + mu - 1) * b - (k + 2 * mu - 2) * a) / k
    v = np.abs(b)
    peaks = np.nonzero((v[1:-1] > v[:-2]) & (v[1:-1] >= v[2:]))[0] + 1
    ref = v[peaks[0]] if len(peaks) else v[0]
    return max(20 * math.log10(v[-1] / ref), 20 * math.log10(max(v[peaks]) / ref) if len(peaks) else 0)

def check_us_sinc(d, k, p, want):
    f = '%s/case%d' % (d, k)
    try:
        v, dump = read_octave(f + '.c'), read_octave(f + '.dump')
    except OSError as e:
        raise Fail('us_sinc', '%s: no result: %s' % (p, e))
    c = v['c']
    if c.shape != (1, 2 * p['n'] + 1):
        raise Fail('us_sinc', '%s: result has %d rows and %d columns' % (p, c.shape[0], c.shape[1]))
    close(c[0], want, 'us_sinc %s' % p)
    check_dump(dump, want, p, 'us_sinc.dump')

def check_dump(dump, want, p, what):
    if list(dump) != ['OUT'] or dump['OUT'].ndim != 2 or dump['OUT'].shape[1] != 2 or len(dump['OUT']) < 100:
        raise Fail('dump', '%s %s: not a table of two columns' % (what, p))
    o = dump['OUT']
    rate = p['stage'] / 2 * 44100
    n = len(o)
    f = np.arange(n) / n * rate
    if not np.all(np.abs(o[:, 0] - f) <= 1e-6 * rate):
        raise Fail('dump', '%s %s: wrong frequencies' % (what, p))
    g = gain(want, f, rate)
    bad = np.nonzero(~(np.abs(o[:, 1] - g) <= 1e-9))[0]
    if len(bad):
        raise Fail('dump', '%s %s: response at %g Hz is %g instead of %g' % (what, p, f[bad[0]], o[bad[0], 1], g[bad[0]]))

ROW = re.compile(r'^(\s*)mkfir[ \t]+\d+[ \t]+\d+[ \t]+\d+[ \t]+[\d.]+[ \t]*$', re.M)

SHIM = r"""
#include <cmath>
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <memory>
#include <vector>
#include <algorithm>
typedef unsigned int uint;
enum Precision { PREC_LINEAR = 1, PREC_48DB = 8, PREC_72DB = 12, PREC_96DB = 16, PREC_120DB = 20, PREC_144DB = 24 };
enum Mode { UP = 1, DOWN };
static Mode mode_; static Precision precision_; static uint stage;
struct Impl {};
template<uint ORDER, bool SSE> struct Upsampler2 { static constexpr const char *name = "up"; static constexpr uint order = ORDER; };
template<uint ORDER, bool SSE> struct Downsampler2 { static constexpr const char *name = "down"; static constexpr uint order = ORDER; };
template<class F> static std::unique_ptr<Impl> create_impl_with_coeffs (const double *d, uint n, double scale)
{
  printf ("%u %d %s %s %u %u %.17g", stage, int (precision_), mode_ == UP ? "UP" : "DOWN", F::name, F::order, n, scale);
  for (uint i = 0; i < n; i++) printf (" %.17g", d[i]);
  printf ("\n");
  return std::make_unique<Impl>();
}
template<bool USE_SSE> static std::unique_ptr<Impl> create_impl (uint stage_ratio)
{
#include "generated.inc"
  return nullptr;
}
int main()
{
  for (Mode m : { UP, DOWN }) for (uint s : { 2, 4, 8 }) for (Precision p : { PREC_48DB, PREC_72DB, PREC_96DB, PREC_120DB, PREC_144DB })
    { mode_ = m; stage = s; precision_ = p; create_impl<true> (s); }
}
"""

def compile_generated(d, gen):
    """what the generated C++ selects: (stage, bits, mode) -> (kind, order, n, scale, coefficients); None: written for other declarations"""
    open(d + '/generated.inc', 'w').write(gen)
    open(d + '/shim.cc', 'w').write(SHIM)
    r = subprocess.run(['g++', '-std=c++17', '-w', '-O0', '-o', d + '/shim', d + '/shim.cc'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', timeout=100)
    if r.returncode:
        known = all(w in gen for w in ('create_impl_with_coeffs', 'stage_ratio', 'precision_', 'mode_', 'Upsampler2', 'Downsampler2', 'USE_SSE'))
        if known and not re.search(r'was not declared|has not been declared|does not name', r.stdout):
            raise Fail('script', 'the generated code does not compile: ' + ' | '.join(l for l in r.stdout.splitlines() if 'error' in l)[:400])
        return None
    res = {}
    for l in subprocess.run([d + '/shim'], stdout=subprocess.PIPE, text=True, timeout=20).stdout.splitlines():
        w = l.split()
        k = (int(w[0]), int(w[1]), w[2])
        if k in res:
            raise Fail('script', 'selected twice: %s' % (k,))
        res[k] = (w[3], int(w[4]), int(w[5]), float(w[6]), np.array([float(x) for x in w[7:]]))
    return res

def check_script(d, ps, wants):
    text = open(d + '/mkfir.sh').read()
    rows = list(ROW.finditer(text))
    if not rows:
        return False                    # the table has another form: only us_sinc can be driven
    out, pos = '', 0
    for i, m in enumerate(rows):
        out += text[pos:m.start()]
        if i == 0:
            out += '\n'.join('%smkfir %d %d %d %g' % (m.group(1), p['stage'], p['bits'], p['n'], p['latt']) for p in ps)
        else:
            out += m.group(1) + ':'
        pos = m.end()
    out += text[pos:]
    open(d + '/mkfir_gen.sh', 'w').write(out)
    rc, log = run(d, ['bash', './mkfir_gen.sh'])
    try:
        gen = open(d + '/mkfir.gen.cc').read()
    except OSError:
        raise Fail('script', 'mkfir.sh with other parameters wrote nothing (%d): %s' % (rc, log[-500:]))
    selected = compile_generated(d, gen)
    for p, want in zip(ps, wants):
        if selected is not None:
            for mode, cls, scale in ('UP', 'up', 2), ('DOWN', 'down', 1):
                got = selected.get((p['stage'], p['bits'], mode))
                if not got:
                    raise Fail('script', '%s: no selection for mode %s' % (p, mode))
                if got[:4] != (cls, p['n'], p['n'], scale):
                    raise Fail('script', '%s, mode %s: %ssampler of order %d created with %d coefficients scaled by %g' % ((p, mode) + got[:4]))
                close(got[4], want[1::2], 'mkfir.sh %s' % p)
        base = '%s/mkfir_%d_%d' % (d, p['stage'], p['bits'])
        if os.path.exists(base + '.dump'):
            check_dump(read_octave(base + '.dump'), want, p, 'mkfir dump')
        gp = np.array([[float(x) for x in l.split()] for l in open(base + '.gp')])
        f = np.arange(len(gp)) / len(gp) * p['stage'] / 2 * 44100
        if gp.shape[1] != 3 or len(gp) < 100 or not np.all(np.abs(gp[:, 0] - f) <= 1e-5 * f[-1]):
            raise Fail('plot', '%s: wrong frequencies' % p)
        g = gain(want, f, p['stage'] / 2 * 44100)
        ok = (np.abs(10 ** (gp[:, 1] / 20) - g) <= 1e-8 + 1e-4 * g)
        if not ok.all():
            raise Fail('plot', '%s: %g dB at %g Hz, response is %g' % (p, gp[~ok][0][1], gp[~ok][0][0], g[~ok][0]))
        lim = np.where(gp[:, 0] < p['stage'] / 2 * 44100 - 18000, 0, -p['bits'] * 6)
        if not np.all((gp[:, 2] == lim) | (np.abs(gp[:, 0] - (p['stage'] / 2 * 44100 - 18000)) < 1)):
            raise Fail('plot', '%s: wrong limit line' % p)
    return True

def batch(ps):
    """-> None or (kind, message, the parameters that failed)"""
    d = scratch()
    try:
        wants = [ideal(p['n'], p['xmu'], p['latt']) for p in ps]
        s = ''
        for k, p in enumerate(ps):
            s += 'pkg load signal;\nc=us_sinc(%d,%g,%g,%g);\nsave case%d.c c;\n' % (p['n'], p['xmu'], p['latt'], p['stage'] / 2 * 44100, k)
            s += 'printf("%%d\\n", %d);\n' % k
        # the response is saved under one name: a separate process for each would be slow, so move it from the shell
        parts = s.split('pkg load signal;\n')[1:]
        for k, part in enumerate(parts):
            open('%s/case%d.m' % (d, k), 'w').write('pkg load signal;\n' + part)
        sh = ''.join('octave case%d.m || exit 1; mv us_sinc.dump case%d.dump\n' % (k, k) for k in range(len(ps)))
        rc, log = run(d, ['bash', '-c', sh])
        if rc:
            raise Fail('us_sinc', 'octave failed: ' + log[-500:])
        for k, p in enumerate(ps):
            check_us_sinc(d, k, p, wants[k])
        # the tables of one script have different names
        table, names = [], set()
        for p, w in zip(ps, wants):
            if p['script'] and (p['stage'], p['bits']) not in names:
                names.add((p['stage'], p['bits']))
                table.append((p, w))
        if table:
            check_script(d, [p for p, w in table], [w for p, w in table])
        nt = [bool(np.min(np.abs(w[1::2])) < 0.01 * np.max(np.abs(w))) for w in wants]
        return None, nt
    except Fail as e:
        return (e.kind, e.msg), []
    except CannotRun as e:
        return ('cannot run', str(e)), []
    except (OSError, ValueError, IndexError, KeyError, subprocess.TimeoutExpired) as e:
        return ('script', 'output cannot be read: %r' % (e,)), []
    finally:
        shutil.rmtree(d, ignore_errors=True)

def simpler(p):
    for k, vs in dict(n=[2, 4, 6, 8, 16], xmu=[0.75, 1.0], latt=[40.0, 60.0], stage=[2], bits=[8], script=[False]).items():
        for v in vs:
            if p[k] == v:
                break
            yield in_domain(dict(p, **{k: v}))

def describe(p):
    return 'us_sinc (%d, %g, %g), stage %d, %d bits%s' % (p['n'], p['xmu'], p['latt'], p['stage'], p['bits'], ', also by mkfir.sh' if p['script'] else '')

def labels_of(p):
    return ['stage %d' % p['stage'], '%d bits' % p['bits'], 'script' if p['script'] else 'us_sinc only', 'n %s' % ('< 8' if p['n'] < 8 else '< 32' if p['n'] < 32 else '>= 32')]

PROPS = {
  'c26_design': dict(gen=gen_params, batch=batch, simpler=simpler, describe=describe, labels=labels_of, size=8, rule=RULE, choices=6),
  'c28_package': dict(gen=pkgprops.gen, batch=pkgprops.batch, simpler=pkgprops.simpler, describe=pkgprops.describe, labels=pkgprops.labels, size=1, rule=pkgprops.RULE, choices=40),
}

def seeded_batch(args):
    prop, seed, i, size = args
    rng = random.Random('%d/%d' % (seed, i))
    ps = [PROPS[prop]['gen'](rng) for _ in range(size)]
    return ps, PROPS[prop]['batch'](ps)

def shrink(prop, ps, res, limit):
    t0 = time.time()
    evals = 0
    def fails(q):
        nonlocal evals
        evals += 1
        r = PROPS[prop]['batch'](q)[0]
        return r if r and r[0] == res[0] else None
    # one case, then simpler values
    for p in list(ps):
        if time.time() - t0 > limit or len(ps) == 1:
            break
        r = fails([p])
        if r:
            ps, res = [p], r
            break
    again = len(ps) == 1
    while again and time.time() - t0 < limit:
        again = False
        for q in PROPS[prop]['simpler'](ps[0]):
            if time.time() - t0 > limit:
                break
            r = fails([q])
            if r:
                ps, res, again = [q], r, True
                break
    return ps, res, evals

def main():
    tmp = None
    try:
        if len(sys.argv) > 2 and ('c28_package' in sys.argv[2] or sys.argv[1] == 'replay'):
            tmp = pkgprops.prepare()
        return main2()
    except CannotRun as e:
        sys.stderr.write(str(e) + '\n')
        return 2
    finally:
        if tmp:
            shutil.rmtree(tmp, ignore_errors=True)

def main2():
    if len(sys.argv) < 2 or sys.argv[1] == 'list':
        print('\n'.join(PROPS))
        return 0
    if sys.argv[1] == 'replay':
        text = open(sys.argv[2]).read()
        ps = json.loads(re.search(r'^choices (.*)$', text, re.M).group(1))
        r = PROPS[re.search(r'^prop (\S+)$', text, re.M).group(1)]['batch'](ps)[0]
        print('FAILED %s: %s' % r if r else 'passed')
        return 1 if r else 0
    ap = argparse.ArgumentParser()
    ap.add_argument('mode'); ap.add_argument('prop')
    for o, t in ('seed', int), ('cases', int), ('workers', int), ('cap', float), ('effort', int), ('out', str), ('fail', str), ('shrink', float):
        ap.add_argument('--' + o, type=t)
    a = ap.parse_args()
    t0 = time.time()
    P = PROPS[a.prop]
    size = P['size']
    jobs = [(a.prop, a.seed, i, size) for i in range((a.cases + size - 1) // size)]
    ev = nt = choices = 0
    distinct, labels, samples, failed, capped = set(), {}, [], None, False
    with Pool(a.workers) as pool:
        for ps, (res, flags) in pool.imap_unordered(seeded_batch, jobs):
            if res:
                failed = (ps, res)
                pool.terminate()
                break
            ev += len(ps)
            choices += P['choices'] * len(ps)
            for p, f in zip(ps, flags):
                nt += f
                if f:
                    distinct.add(json.dumps(p, sort_keys=True))
                    if len(samples) < 6:
                        samples.append(P['describe'](p))
                for l in P['labels'](p):
                    labels[l] = labels.get(l, 0) + 1
            if time.time() - t0 > a.cap:
                capped = True
                pool.terminate()
                break
    rc = 0
    if failed:
        ps, res = failed
        if res[0] == 'cannot run':
            sys.stderr.write(res[1] + '\n')
            return 2
        ps, res, evals = shrink(a.prop, ps, res, a.shrink or 30)
        with open(a.fail, 'w') as f:
            f.write('prop %s\neffort 1\nkind %s\nchoices %s\nmessage %s\n' % (a.prop, res[0], json.dumps(ps), res[1].replace('\n', '\nmessage ')))
        rc = 1
    json.dump(dict(prop=a.prop, verdict='FAIL' if rc else 'pass', evaluations=ev, nontrivial=nt, distinct_nontrivial=len(distinct), choices=choices, capped=capped, shrink_evals=0,
                   wall_s=round(time.time() - t0, 3), rule=P['rule'], labels=labels, samples=samples), open(a.out, 'w'))
    return rc

if __name__ == '__main__':
    sys.exit(main())
