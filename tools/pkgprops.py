"""c28_package: the package that meson installs, the header-only mode and a copied include directory, used by generated programs."""
import os, re, json, random, shutil, struct, subprocess, tempfile
from pycommon import Fail, CannotRun, REPO, run_env

RULE = ('a case is a set of build options (compiler, build type, library type, language standard, directories, ...) with which the project is built and installed '
        'in a scratch directory, and 1..3 programs (1..3 translation units each, with instances in functions and global ones which work before main(), in most of them all configurations; most define 60 drawn names of their own before or after the #include), built against the '
        'installed package with the flags of pkg-config, against its headers in header-only mode, or with a copy of include/; their output has to agree with '
        'a plain build; non-trivial: at least one program with two configurations')

CXX = ['g++', 'clang++']
PREC = {24: 'PREC_144DB', 20: 'PREC_120DB', 16: 'PREC_96DB', 12: 'PREC_72DB', 8: 'PREC_48DB', 1: 'PREC_LINEAR'}

# names which a program may define itself: none of them is in the headers of C and C++
NAMES = '''
ABS ALWAYS_INLINE Accumulator AlignedArray Aux BLOCKSIZE Block Buffer CArray CHECK CLAMP CUR DEBUG DOWN DT DataType Downsampler2 Downsampler2xFpu
Downsampler2xFpuTpl Downsampler2xSse F4Vector FILTER_FIR FILTER_IIR Filter Float4 History IIRDownsampler2 IIRDownsampler2SSE IIRUpsampler2
IIRUpsampler2SSE INLINE Impl LIKELY Mode NBR_COEFS NC NEON NoElements ODD_STEPPING ORDER PI PREC_120DB PREC_144DB PREC_48DB PREC_72DB PREC_96DB
PREC_LINEAR PolyphaseIir2Designer Precision REMAINING RESTRICT Rate Recursive ResCode ResCode_FAIL_ATTEN ResCode_FAIL_CONV ResCode_FAIL_GD_TBW
ResCode_OK Resampler SIMD SSE Sample Stage StageDataFpu StageDataSse StageProcFpu StageProcSseV2 TEST TWO_PI Taps UNLIKELY UP USE_SSE Undefined
Upsampler2 Upsampler2xFpu Upsampler2xFpuTpl Upsampler2xSse Vector a2 acc align aligned aligned_mem alignsize allocate_aligned_data always_inline
arm_neon array atten_lb atten_ub attenuation attenuation_ptr attn_p2 avg_diff begin bits block block_size cache_line_size carray cassert ceil_int
check clear_buffers cmath cnt code coef coef_arr coeffs coeffs2_12 coeffs2_16 coeffs2_20 coeffs2_24 coeffs2_8 coeffs4_12 coeffs4_16 coeffs4_20
coeffs4_24 coeffs4_8 coeffs8_12 coeffs8_16 coeffs8_20 coeffs8_24 coeffs8_8 coeffs_linear compiler compute_acc_den compute_acc_num compute_atten
compute_atten_from_order_tbw compute_coef compute_coefs compute_coefs_spec_order_gdly compute_coefs_spec_order_tbw compute_group_delay
compute_nbr_coefs_from_proto compute_order compute_phase_delay compute_transition_param conv conv_flag copy create_impl create_impl_iir
create_impl_iir_with_coeffs create_impl_with_coeffs cstdio cstdlib data define deinterleave2 delay delay_ den diff dly dly_total dot downs dsttype e2
e4 elements end error errors even expr f_fs f_rel file fill filter filter_ find_precision_for_bits fir_compute_sse_taps fir_process_4samples_sse
fir_process_one_sample fir_test_filter_sse float32x4_t fnc func get group_delay half header high history history_even history_odd history_todo impl
impl_x2 impl_x4 impl_x8 in_ptr inclusion init_stage init_taps inline_depth input input_even input_odd input_v ipowp is_error kernel kksqrt_m1
lb_coef_arr lb_gdly lb_tbw limit load_pair low math max max_elements max_it max_order memory min mode mode_ n_coeffs n_data_values n_elements
n_input_samples n_input_todo n_output_samples n_output_todo n_todo_samples nbr_coefs nbr_it nbr_spl num odd of order other out out0_v out1_v out2_v
out3_v out_0 out_1 out_h_ptr out_l_ptr out_ptr output padding ph ph_flag pos prec precision precision_ precision_name process_4samples_aligned
process_block process_block_aligned process_block_split process_block_unaligned process_sample process_sample_neg process_sample_neg_rec
process_sample_pos process_sample_pos_rec process_sample_split process_sample_unaligned process_stages q_i2 q_ii1 random_mem ratio ratio_ reset
ret_val round_int rs_attn rs_gdly rs_tbw scaling set_coefs sig size spl_0 spl_1 sqr srctype sse_available sse_enabled sse_taps sse_taps_v stage
stage_arr stage_ratio string swap taps test_filter_impl tmp tmp2 tmp_0 tmp_1 trans_lb trans_ub transition transition_ptr tuple_size ub_coef_arr
ub_gdly ub_tbw unaligned_mem unique_ptr ups use_sse_if_available use_sse_if_available_ vaddq_f32 value vector verbose vmulq_f32 what ww wwsq xmmintrin
xr
'''.split()

def gen_config(rng):
    filt = rng.choice(['FIR', 'IIR'])
    return dict(mode=rng.choice(['UP', 'DOWN']), ratio=rng.choice([1, 2, 2, 4, 8]), prec=rng.choice([24, 20, 16, 12, 8] + ([1] if filt == 'FIR' else [])),
                sse=rng.choice([None, True, False]), filter=filt, where=rng.choice(['local', 'local', 'static', 'global']), seed=rng.randrange(1000), block=rng.randint(1, 300))

def gen_program(rng):
    return dict(cxx=rng.choice(CXX), std=rng.choice(['c++11', 'c++14', 'c++17', 'c++20', 'c++23', 'gnu++11', 'gnu++17', 'gnu++20']), opt=rng.choice(['-O0', '-O0', '-O0', '-O0', '-O1', '-O2', '-Os']),
                how=rng.choice(['lib', 'lib', 'header-only', 'header-only', 'copy-header-only', 'copy-source']),
                extra=rng.choice(['', '', '-Wall -Wextra', '-DNDEBUG', '-funsigned-char', '-D_GLIBCXX_ASSERTIONS', '-fPIC', '-ffunction-sections']),
                order=rng.choice(['first', 'last', 'twice', 'both']), own=rng.choice(['', 'before', 'after', 'after', 'macro']), names=rng.sample(NAMES, 60),
                units=[[gen_config(rng) for _ in range(rng.randint(1, 4))] for _ in range(rng.choice([1, 1, 2, 2, 2, 3]))], sweep=rng.choice(['global', 'global', 'local', 'none']))

def gen(rng):
    return dict(cxx=rng.choice(CXX), buildtype=rng.choice(['plain', 'debug', 'debugoptimized', 'release', 'minsize']), default_library=rng.choice(['shared', 'static', 'both']),
                cpp_std=rng.choice([None, None, 'c++11', 'c++14', 'c++17', 'c++20', 'c++23', 'gnu++17']), unity=rng.choice(['off', 'on']), b_ndebug=rng.choice(['true', 'false', 'if-release']),
                prefix=rng.choice(['inst', 'opt/panda resampler', 'usr']), libdir=rng.choice(['lib', 'lib64', 'lib/x86_64-linux-gnu']),
                includedir=rng.choice(['include', 'include/panda']), strip=rng.random() < 0.3, warning_level=rng.choice(['0', '1', '3']), b_staticpic=rng.choice(['true', 'false']),
                programs=[gen_program(rng) for _ in range(rng.choice([1, 1, 2, 2, 3]))])

def ctor(c):
    a = ['Resampler2::' + c['mode'], '%d' % c['ratio'], 'Resampler2::' + PREC[c['prec']]]
    if c['sse'] is not None or c['filter'] == 'IIR':
        a.append('false' if c['sse'] is False else 'true')
        if c['filter'] == 'IIR':
            a.append('Resampler2::FILTER_IIR')
    return ', '.join(a)

SWEEP = '''
struct Sweep
{
  std::vector<std::string> names;
  std::vector<std::vector<float> > outs;
  Sweep()
  {
    const Resampler2::Precision precs[] = { Resampler2::PREC_LINEAR, Resampler2::PREC_48DB, Resampler2::PREC_72DB, Resampler2::PREC_96DB, Resampler2::PREC_120DB, Resampler2::PREC_144DB };
    for (int mode = 0; mode < 2; mode++)
      for (unsigned ratio = 1; ratio <= 8; ratio *= 2)
        for (int prec = 0; prec < 6; prec++)
          for (int sse = 0; sse < 2; sse++)
            for (int iir = prec == 0; iir < 2; iir++)
              {
                char name[100];
                sprintf (name, "sweep-%d-%u-%d-%d-%d", mode, ratio, prec, sse, iir);
                const bool fir = prec == 0 || iir == 0;
                Resampler2 rs (mode ? Resampler2::UP : Resampler2::DOWN, ratio, precs[prec], sse, fir ? Resampler2::FILTER_FIR : Resampler2::FILTER_IIR);
                std::vector<float> in (96), out (mode ? in.size() * ratio : in.size() / ratio);
                for (size_t i = 0; i < in.size(); i++)
                  in[i] = ((i * 37 + 11) % 64) / 32.0f - 1;
                rs.process_block (&in[0], in.size(), &out[0]);
                char info[100];
                sprintf (info, " order %u delay %.17g sse %d", rs.order(), rs.delay(), rs.sse_enabled());
                names.push_back (std::string (name) + info);
                outs.push_back (out);
              }
  }
  void
  show()
  {
    for (size_t k = 0; k < names.size(); k++)
      {
        printf ("%s :", names[k].c_str());
        for (size_t i = 0; i < outs[k].size(); i++)
          printf (" %a", outs[k][i]);
        printf ("\\n");
      }
  }
};
'''

def unit(k, prog, plain):
    """source of one translation unit: void unit_K()"""
    std = '#include <cstdio>\n#include <vector>\n#include <string>\n#include <cmath>\n'
    own = '#include "pandaresampler.hh"\n'
    order = 'first' if plain else prog['order']
    s = {'first': own + std, 'last': std + own, 'twice': own + own + std, 'both': own + std + own}[order]
    own_names = [n for n in prog.get('names', []) if not plain]
    decl = ''.join('struct %s { int own; };\n' % n for n in own_names)
    if prog.get('own') == 'before':
        s = std + decl + s
    elif prog.get('own') == 'after':
        s += decl
    elif prog.get('own') == 'macro': # of the program; one of the library would be replaced by it
        s += ''.join('#ifdef %s\n#error %s is a macro of the library\n#endif\n' % (n, n) for n in own_names)
    s += '''
using PandaResampler::Resampler2;
static std::vector<float>
play (Resampler2& rs, bool up, unsigned ratio, unsigned seed, unsigned block)
{
  std::vector<float> in (960), out;
  unsigned v = seed * 7919u + 1;
  for (size_t i = 0; i < in.size(); i++)
    {
      v = v * 1664525u + 1013904223u;
      in[i] = (v >> 8) / 8388608.0f - 1;
    }
  out.resize (up ? in.size() * ratio : in.size() / ratio);
  size_t pos = 0;
  while (pos < in.size())
    {
      size_t n = block * (up ? 1 : ratio);
      if (n > in.size() - pos)
        n = in.size() - pos;
      rs.process_block (&in[pos], n, &out[up ? pos * ratio : pos / ratio]);
      pos += n;
    }
  return out;
}
static void
show (const char *name, Resampler2& rs, const std::vector<float>& out)
{
  printf ("%s order %u delay %.17g sse %d :", name, rs.order(), rs.delay(), rs.sse_enabled());
  for (size_t i = 0; i < out.size(); i++)
    printf (" %a", out[i]);
  printf ("\\n");
}
'''
    body = ''
    for i, c in enumerate(prog['units'][k]):
        where = 'local' if plain else c['where']
        args = 'rs%d, %s, %d, %d, %d' % (i, 'true' if c['mode'] == 'UP' else 'false', c['ratio'], c['seed'], c['block'])
        if where == 'global':
            s += 'static Resampler2 rs%d (%s);\nstatic std::vector<float> out%d = play (%s);\n' % (i, ctor(c), i, args)
        else:
            body += '  %sResampler2 rs%d (%s);\n  std::vector<float> out%d = play (%s);\n' % ('static ' if where == 'static' else '', i, ctor(c), i, args)
        body += '  show ("unit%d-%d", rs%d, out%d);\n' % (k, i, i, i)
    where = prog.get('sweep', 'none')
    if where != 'none' and k == 0:
        s += SWEEP
        if where == 'global' and not plain:
            s += 'static Sweep sweep;\n'
        else:
            body += '  Sweep sweep;\n'
        body += '  sweep.show();\n'
    body += '  printf ("unit%d precision %%d %%s self-test %%d array %%d\\n", int (Resampler2::find_precision_for_bits (%d)), Resampler2::precision_name (Resampler2::PREC_96DB), Resampler2::test_filter_impl (false), int (PandaResampler::AlignedArray<float> (%d).size()));\n' % (k, k * 9 + 3, k + 5)
    return s + 'void unit_%d()\n{\n%s}\n' % (k, body)

def sources(d, prog, plain):
    os.makedirs(d)
    fs = []
    for k in range(len(prog['units'])):
        fs.append('%s/unit%d.cc' % (d, k))
        open(fs[-1], 'w').write(unit(k, prog, plain))
    fs.append(d + '/main.cc')
    n = len(prog['units'])
    open(fs[-1], 'w').write(''.join('void unit_%d();\n' % k for k in range(n)) + 'int main()\n{\n' + ''.join('  unit_%d();\n' % k for k in range(n)) + '}\n')
    return fs

def sh(cmd, cwd, env=None, timeout=300):
    e = run_env()
    e.update(CCACHE_DISABLE='1', **(env or {}))
    for k in ('CXXFLAGS', 'CPPFLAGS', 'LDFLAGS', 'CFLAGS', 'DESTDIR', 'PKG_CONFIG_PATH', 'LD_LIBRARY_PATH'):
        if k not in (env or {}):
            e.pop(k, None)
    r = subprocess.run(cmd, cwd=cwd, env=e, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', timeout=timeout)
    return r.returncode, r.stdout

def parse(text, what):
    res = {}
    for l in text.splitlines():
        if ' : ' in l:
            head, vals = l.split(' : ')
            res[head.split()[0]] = (head, [float.fromhex(x) for x in vals.split()])
        elif l.startswith('unit'):
            res[l.split()[0] + '-info'] = (l, [])
        else:
            raise Fail('output', '%s printed: %s' % (what, l[:300]))
    return res

def tree(d):
    return {os.path.relpath(os.path.join(r, f), d): open(os.path.join(r, f), 'rb').read() for r, _, fs in os.walk(d) for f in fs}

def one(d, p):
    rc, out = sh(['meson', 'setup', d + '/build', REPO, '--wrap-mode=nodownload', '-Dwerror=false', '--prefix=%s/%s' % (d, p['prefix']), '--libdir=' + p['libdir'], '--includedir=' + p['includedir'],
                  '-Dbuildtype=' + p['buildtype'], '-Ddefault_library=' + p['default_library'], '-Dunity=' + p['unity'], '-Db_ndebug=' + p['b_ndebug'], '-Dstrip=' + ('true' if p['strip'] else 'false'),
                  '-Dwarning_level=' + p['warning_level'], '-Db_staticpic=' + p['b_staticpic']] + (['-Dcpp_std=' + p['cpp_std']] if p['cpp_std'] else []), d, dict(CXX=p['cxx']))
    if rc:
        raise CannotRun('meson setup failed: ' + out[-1500:])
    rc, out = sh(['ninja', '-j', '2', '-C', d + '/build'], d)
    if rc:
        raise Fail('build', 'the project does not build with these options: ' + out[-1500:])
    rc, out = sh(['meson', 'install', '--no-rebuild', '-C', d + '/build'], d)
    if rc:
        raise Fail('install', 'cannot be installed: ' + out[-800:])
    inst = d + '/' + p['prefix']
    inc, lib = inst + '/' + p['includedir'], inst + '/' + p['libdir']
    src = tree(REPO + '/include')
    got = tree(inc) if os.path.isdir(inc) else {}
    for f in src:
        if got.get(f) != src[f]:
            raise Fail('install', 'include/%s is not installed as it is' % f)
    pc = dict(PKG_CONFIG_PATH=lib + '/pkgconfig')
    flags = {}
    for k in ('--cflags', '--libs', '--modversion'):
        rc, out = sh(['pkg-config', k, 'pandaresampler'], d, pc)
        if rc:
            raise Fail('pkg-config', 'pkg-config %s pandaresampler: %s' % (k, out))
        flags[k] = out.strip()
    info = json.load(open(d + '/build/meson-info/intro-projectinfo.json'))
    if flags['--modversion'] != info['version']:
        raise Fail('pkg-config', 'version %s instead of %s' % (flags['--modversion'], info['version']))
    for i, prog in enumerate(p['programs']):
        w = '%s/prog%d' % (d, i)
        q = lambda l: ' '.join("'%s'" % x for x in l)
        # the reference: local instances only, compiled together with the source of the library
        rsrc = sources(w + '.ref', prog, True)
        rc, out = sh(['g++', '-std=c++17', '-O0', '-w', '-I' + REPO + '/include', '-o', w + '.ref/prog', REFERENCE] + rsrc, d)
        if rc:
            raise Fail('reference', 'a program which uses the public API does not compile (g++ -std=c++17): ' + out[-1500:])
        psrc = sources(w, prog, False)
        opts = '%s -std=%s %s -w %s' % (prog['cxx'], prog['std'], prog['opt'], prog['extra'].replace('-Wall -Wextra', ''))
        if prog['how'] == 'lib':
            cmd = '%s %s %s -o prog %s' % (opts, flags['--cflags'], q(psrc), flags['--libs'])
        elif prog['how'] == 'header-only':
            cmd = '%s -DPANDA_RESAMPLER_HEADER_ONLY %s %s -o prog' % (opts, flags['--cflags'], q(psrc))
        else:
            shutil.copytree(REPO + '/include', w + '/third party/panda')
            cmd = '%s -I "third party/panda" %s -o prog %s' % (opts, q(psrc), '-DPANDA_RESAMPLER_HEADER_ONLY' if prog['how'] == 'copy-header-only' else "'third party/panda/pandaresampler/pandaresampler.cc'")
        rc, out = sh(['sh', '-c', cmd], w)
        if rc:
            raise Fail('program', 'a program does not compile or link: %s: %s' % (cmd, out[-2500:]))
        rc, want = sh([w + '.ref/prog'], w)
        rc2, res = sh([w + '/prog'], w, dict(LD_LIBRARY_PATH=lib) if prog['how'] == 'lib' else None)
        if rc or rc2:
            raise Fail('program', '%s: exit status %d, reference %d: %s' % (cmd, rc2, rc, res[-500:]))
        want, res = parse(want, 'reference'), parse(res, cmd)
        if sorted(want) != sorted(res):
            raise Fail('output', '%s: lines %s, reference has %s' % (cmd, sorted(res), sorted(want)))
        for k in want:
            if want[k][0] != res[k][0] or len(want[k][1]) != len(res[k][1]):
                raise Fail('output', '%s: "%s" (%d samples) instead of "%s" (%d samples)' % (cmd, res[k][0], len(res[k][1]), want[k][0], len(want[k][1])))
            for j, (a, b) in enumerate(zip(want[k][1], res[k][1])):
                if not abs(a - b) <= 2e-5:
                    raise Fail('output', '%s: %s: output[%d] is %g instead of %g' % (cmd, res[k][0], j, b, a))

REFERENCE = None
def prepare():
    """compiles the library for the reference programs; returns the directory to remove afterwards"""
    global REFERENCE
    d = tempfile.mkdtemp(prefix='panda.')
    REFERENCE = d + '/lib.o'
    rc, out = sh(['g++', '-std=c++11', '-O1', '-w', '-I' + REPO + '/include', '-c', REPO + '/include/pandaresampler/pandaresampler.cc', '-o', REFERENCE], d)
    if rc:
        shutil.rmtree(d)
        raise CannotRun('the library does not compile (g++ -std=c++11): ' + out[-2000:])
    return d

def batch(ps):
    flags = []
    for p in ps:
        d = tempfile.mkdtemp(prefix='panda.')
        try:
            one(d, p)
        except Fail as e:
            return (e.kind, e.msg), []
        except CannotRun as e:
            return ('cannot run', str(e)), []
        except (OSError, ValueError, KeyError, subprocess.TimeoutExpired) as e:
            return ('cannot run', repr(e)), []
        finally:
            shutil.rmtree(d, ignore_errors=True)
        flags.append(any(sum(map(len, g['units'])) > 1 or g.get('sweep', 'none') != 'none' for g in p['programs']))
    return None, flags

def simpler(p):
    """simpler cases to try"""
    for g in p['programs']:
        if len(p['programs']) > 1:
            yield dict(p, programs=[g])
    for k, v in dict(cxx='g++', buildtype='release', default_library='shared', cpp_std=None, unity='off', b_ndebug='false', prefix='inst', libdir='lib', includedir='include', strip=False, warning_level='3', b_staticpic='true').items():
        if p[k] != v:
            yield dict(p, **{k: v})
    if len(p['programs']) == 1:
        g = p['programs'][0]
        for u in g['units']:
            if len(g['units']) > 1:
                yield dict(p, programs=[dict(g, units=[u])])
            if g.get('own') and len(g['names']) > 1:
                h = len(g['names']) // 2
                yield dict(p, programs=[dict(g, names=g['names'][:h])])
                yield dict(p, programs=[dict(g, names=g['names'][h:])])
            for c in u:
                if len(u) > 1:
                    yield dict(p, programs=[dict(g, units=[[c] if x is u else x for x in g['units']])])
        for k, v in dict(cxx='g++', std='c++17', opt='-O0', extra='', order='first', how='lib', sweep='none', own='').items():
            if g.get(k, v) != v:
                yield dict(p, programs=[dict(g, **{k: v})])

def describe(p):
    return '%s %s %s %s; %s' % (p['cxx'], p['buildtype'], p['default_library'], p['cpp_std'] or 'default standard', ', '.join('%s %s %s %s %s, %d units' % (g['how'], g['cxx'], g['std'], g['opt'], g['extra'], len(g['units'])) for g in p['programs']))

def labels(p):
    yield 'built by ' + p['cxx']
    yield p['buildtype']
    yield p['default_library']
    for g in p['programs']:
        yield 'program ' + g['how']
        yield 'program %s %s' % (g['cxx'], g['std'])
        yield 'program with %d units' % len(g['units'])
        yield 'own names: ' + (g.get('own') or 'none')
        for u in g['units']:
            for c in u:
                yield c['where'] + ' instance'
        yield 'all configurations: ' + g.get('sweep', 'none')
