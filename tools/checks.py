"""Which property functions decide which property, in which builds, with how many cases (quick, thorough)."""

def S(exe, variant, prop, quick, thorough, **opt):
    return dict(exe=exe, variant=variant, prop=prop, cases=(quick, thorough), **opt)

ASSUMPTIONS = [
  'x86-64; the NEON code path is only run through an emulation of its two intrinsics (C11)',
  'the reference coefficients (harness/ref_tables.h) are the float values shipped at the pinned commit, which tools/design.py re-derives from the design formulas',
]

CHECKS = {
 'C01': dict(steps=[S('rs', 'plain', 'c01_model', 800000, 6000000), S('rs', 'plain', 'c01_long', 2000, 8000), S('life', 'plain', 'c01_life', 500, 12000), S('rs', 'nosimd', 'c01_model', 60000, 1000000), S('rs', 'clang', 'c01_model', 0, 2000000), S('rs', 'fuzz', 'c01_model', 160000, 5000000)]),
 'C02': dict(steps=[S('rs', 'plain', 'c02_model', 600000, 5000000), S('rs', 'plain', 'c02_long', 1200, 12000), S('life', 'plain', 'c02_life', 500, 12000), S('rs', 'nosimd', 'c02_model', 60000, 1000000), S('rs', 'clang', 'c02_model', 0, 2000000), S('rs', 'fuzz', 'c02_model', 160000, 5000000)]),
 'C03': dict(steps=[S('rs', 'plain', 'c03_partition', 300000, 5000000), S('rs', 'plain', 'c03_empty', 200000, 2000000), S('rs', 'plain', 'c03_big', 1500, 20000), S('mem', 'plain', 'c03_giant', 8, 64, shrink=1, env=dict(PBT_SLOW='6')), S('rs', 'fuzz', 'c03_partition', 100000, 4000000)]),
 'C04': dict(steps=[S('mem', 'plain', 'c04_guard', 1500000, 5000000), S('mem', 'asan', 'c04_heap', 600000, 2500000), S('mem', 'plain', 'c04_any_length', 150000, 4000000), S('mem', 'asan', 'c04_any_length', 100000, 2000000), S('mem', 'fuzzasan', 'c04_heap', 100000, 2000000)]),
 'C05': dict(steps=[S('rs', 'plain', 'c05_reset', 1000000, 5000000), S('rs', 'plain', 'c05_every_point', 150000, 400000), S('life', 'plain', 'c05_life', 500, 12000), S('life', 'plain', 'c05_calls', 72, 1000, shrink=5), S('rs', 'fuzz', 'c05_reset', 160000, 4000000)]),
 'C06': dict(steps=[S('rs', 'plain', 'c06_sse_scalar', 500000, 5000000), S('rs', 'nosimd', 'c06_sse_scalar', 60000, 1000000), S('rs', 'nosimd', 'c01_model', 60000, 1000000), S('rs', 'nosimd', 'c02_model', 60000, 1000000), S('rs', 'fuzz', 'c06_sse_scalar', 0, 4000000)]),
 'C07': dict(steps=[S('freq', 'plain', 'c07_delay', 150000, 2000000), S('freq', 'plain', 'c07_position', 800000, 2000000)]),
 'C08': dict(steps=[S('freq', 'plain', 'c08_response', 100000, 2000000), S('freq', 'plain', 'c08_sine', 50000, 1000000)]),
 'C09': dict(steps=[S('freq', 'plain', 'c09_round_trip', 200000, 1000000)]),
 'C10': dict(steps=[S('multi', 'plain', 'c10_instances', 150000, 2000000), S('life', 'plain', 'c10_generations', 300, 12000), S('multi', 'plain', 'c10_crowd', 20000, 400000), S('multi', 'asan', 'c10_crowd', 1000, 20000), S('multi', 'plain', 'c10_threads', 40000, 100000), S('multi', 'tsan', 'c10_threads', 10000, 30000, workers=4), S('multi', 'asan', 'c10_instances', 20000, 400000), S('multi', 'fuzz', 'c10_instances', 50000, 1500000)]),
 'C12': dict(steps=[S('rs', 'plain', 'c12_scale', 200000, 4000000), S('rs', 'plain', 'c12_sum', 200000, 4000000), S('rs', 'plain', 'c12_shift', 200000, 4000000), S('life', 'plain', 'c12_life', 400, 8000), S('life', 'plain', 'c12_marathon', 8, 64, shrink=1, env=dict(PBT_SLOW='6')), S('life', 'plain', 'c12_calls', 144, 1500, shrink=5), S('life', 'plain', 'c12_calls32', 0, 8, shrink=1, env=dict(PBT_SLOW='40')), S('rs', 'fuzz', 'c12_sum', 0, 2000000)]),
 'C13': dict(steps=[S('rs', 'plain', 'c13_bounded', 300000, 3000000), S('rs', 'plain', 'c13_fir_memory', 400000, 3000000), S('rs', 'plain', 'c13_iir_decay', 80000, 1500000), S('rs', 'fuzz', 'c13_bounded', 0, 2000000)]),
 'C14': dict(steps=[S('arr', 'plain', 'c14_model', 200000, 4000000), S('arr', 'plain', 'c14_leak', 300000, 2000000), S('arr', 'plain', 'c14_large', 2000, 40000), S('arr', 'plain', 'c14_giant', 4, 24, workers=1, shrink=1, env=dict(PBT_SLOW='6')), S('arr', 'asan', 'c14_model', 100000, 2000000), S('arr', 'fuzzasan', 'c14_model', 32000, 2000000)]),
 'C15': dict(steps=[S('misc', 'plain', 'c15_lookup', 4096, 4096), S('misc', 'plain', 'c15_names', 200000, 400000)], exhaustive=['c15_lookup: all 2^32 arguments of find_precision_for_bits()']),
 'C16': dict(steps=[S('misc', 'plain', 'c16_macro', 200000, 1000000), S('misc', 'plain', 'c16_construct', 800000, 800000), S('misc', 'plain', 'c16_silent', 400000, 800000), S('misc', 'plain', 'c16_odd', 60000, 1000000), S('misc', 'asan', 'c16_construct', 100000, 200000), S('misc', 'asan', 'c16_odd', 10000, 200000)]),
 'C17': dict(steps=[S('rs', 'plain', 'c17_introspection', 1500000, 4000000), S('life', 'plain', 'c17_life', 400, 8000), S('rs', 'fuzz', 'c17_introspection', 160000, 4000000)]),
 'C18': dict(steps=[S('rs', 'plain', 'c18_identity', 1500000, 4000000), S('mem', 'plain', 'c18_giant', 8, 80, shrink=1, env=dict(PBT_SLOW='6')), S('rs', 'fuzz', 'c18_identity', 0, 8000000)]),
 'C19': dict(steps=[S('rt', 'plain', 'c19_repeat', 60000, 1500000)]),
 'C20': dict(steps=[S('rt', 'plain', 'c20_alloc', 1500000, 1500000), S('life', 'plain', 'c20_life', 400, 8000), S('rt', 'plain', 'c20_syscall', 150000, 400000), S('rt', 'plain', 'c20_stack', 8000, 30000), S('rt', 'cov', 'c20_work', 4000, 100000)]),
 'C11': dict(steps=[S('var', 'plain', 'c11_variants', 150000, 1500000), S('var', 'plain', 'c11_interface', 100000, 2000000), S('var', 'fuzz', 'c11_variants', 0, 300000)]),
 'C21': dict(steps=[S('des', 'plain', 'c21_spec', 600000, 12000000), S('des', 'plain', 'c21_order', 400000, 8000000), S('des', 'plain', 'c21_pure', 200000, 4000000), S('des', 'tsan', 'c21_pure', 20000, 200000), S('des', 'asan', 'c21_spec', 20000, 400000), S('des', 'fuzz', 'c21_spec', 0, 4000000)]),
 'C22': dict(steps=[S('des', 'plain', 'c22_group_delay', 3000000, 60000000), S('des', 'plain', 'c22_phase_delay', 3000000, 60000000), S('des', 'plain', 'c22_search', 700000, 14000000), S('des', 'asan', 'c22_search', 40000, 800000), S('des', 'fuzz', 'c22_search', 0, 4000000)]),
 'C23': dict(steps=[S('hiir', 'plain', 'c23_kernels', 150000, 3000000), S('hiir', 'plain', 'c23_long', 3000, 40000), S('stage', 'plain', 'c23_stages', 40000, 2000000, optional=True), S('hiir', 'asan', 'c23_kernels', 20000, 400000), S('hiir', 'fuzz', 'c23_kernels', 50000, 2000000)]),
 'C26': dict(steps=[S('firtool', 'plain', 'c26_response', 300000, 5000000), S('py', 'plain', 'c26_design', 480, 12000)], assumptions=['GNU octave is replaced by an interpreter (tools/octave.py) for the part of the language the scripts use; ultrwin() and freqz() follow their mathematical definitions']),
 'C27': dict(steps=[S('oom', 'plain', 'c27_resampler', 100000, 2000000), S('oom', 'plain', 'c27_array', 1000000, 20000000), S('oom', 'asan', 'c27_array', 100000, 2000000)]),
 'C28': dict(steps=[S('py', 'plain', 'c28_package', 36, 400)], assumptions=['compilers and standards: g++ and clang++ of this machine, C++11 to C++23']),
 'C24': dict(steps=[S('tool', 'plain', 'c24_response', 400000, 6000000)]),
 'C25': dict(steps=[S('misc', 'plain', 'c25_selftest', 60000, 100000), S('misc', 'fault', 'c25_faults', 60000, 1000000), S('misc', 'asan', 'c25_selftest', 10000, 10000)]),
}

# technique, level_note
NOTES = {
 'C01': ('generated configurations, streams and block histories against a double precision reference model', 'Random search over configurations (enumerated evenly), signals, partitions, alignments and resets; every output sample is compared with a reference model within a rigorous rounding error bound. Trusts the model, its coefficient tables and the bound.'),
 'C02': ('generated configurations, streams and block histories against a double precision reference model', 'As C01, with all-pass sections and long streams; the bound covers direct evaluation of the sections in float, in any order of operations, not accumulating implementations.'),
 'C03': ('metamorphic relation between generated partitions of one stream', 'Two partitions of each generated stream are compared sample by sample; empty blocks must be bit-exact no-ops. Sampling, not proof.'),
 'C04': ('generated histories with guard pages, canaries and address/undefined behaviour sanitizers', 'Blocks lie against inaccessible pages in read-only memory (release build) and in exactly sized heap blocks (sanitizer build). Detects what the generated histories reach.'),
 'C05': ('generated histories; differential against a new object', 'Output after reset() is compared bit by bit with a fresh object after dirty histories, including non-finite samples, reset at every point of a stream, up to 65537 resets in a row and long lives.'),
 'C06': ('differential testing of SSE, scalar and no-SIMD builds on generated histories', 'Outputs are compared within twice the rounding bound of the model, introspection exactly; a build without SIMD is also compared with the model.'),
 'C07': ('generated configurations and signals; delay measured from impulses, sines and band-limited noise', 'Delay is measured from impulse responses (symmetry, centroid, phase) and by finding input samples in the output.'),
 'C08': ('generated frequencies, phases and amplitudes; gain measured by single bin DFT', 'Gains are measured at generated frequencies on the real float output, so limits include a float noise floor.'),
 'C09': ('round trip on generated band-limited signals', 'Round trip error against the delayed input (FIR) or in magnitude (IIR) for random multi-tone signals.'),
 'C10': ('stateful generation of instances, calls, moves and threads; differential against running alone; thread sanitizer', 'Interleavings in one thread are owned by the generator and deterministic; threads run freely, with the thread sanitizer as additional oracle.'),
 'C12': ('metamorphic relations: scaling, superposition, time shift', 'Scaling by powers of two is bit-exact, sums within the rounding bound, shifts by any number of samples (up to more than 2^32) within the bound.'),
 'C13': ('generated signals with silent tails; gain bound and decay invariants', 'Checks peak gain against the absolute sum of the impulse response of the model, exact zeros after the FIR memory and decay of IIR tails.'),
 'C14': ('model-based stateful testing with an element life cycle log; address sanitizer', 'Random operation sequences over AlignedArray of several element types against std::vector, with construction and destruction log and allocation balance.'),
 'C15': ('exhaustive enumeration of the integer domain and generated enum values', 'find_precision_for_bits() is checked for all 2^32 arguments; names and constructions are sampled.'),
 'C16': ('generated valid and invalid configurations and calls; captured diagnostics', 'Counts diagnostic lines captured from file descriptors 1 and 2 for generated configurations, odd blocks and valid histories.'),
 'C17': ('generated histories with interleaved queries against the specified table', 'Queries at random points must give the specified constants and leave the output bit-identical.'),
 'C18': ('round trip of random bit patterns', 'Any bit pattern, block length and alignment is passed through and compared bit by bit.'),
 'C19': ('differential repetition with dirtied stack, heap and output memory', 'Each history runs several times with different garbage in new heap blocks, stack and output; outputs must agree in every bit.'),
 'C20': ('generated histories under allocation counters, seccomp, guarded stacks and work counters', 'malloc is replaced by a counting one, system calls are fatal (seccomp strict filter), stacks are 256 KB with a guard page, floating point state and errno are compared, and an instrumented build counts the steps of every call.'),
 'C11': ('differential testing of generated histories across build variants', 'Builds of several compilers, standards, optimization levels and instruction sets are loaded side by side; NEON intrinsics are emulated with vector extensions. Variants not built are not covered.'),
 'C21': ('generated specifications; independent elliptic design and measured response as oracles', 'Coefficients are compared with a long double design by Jacobi elliptic functions, the response is measured on a grid.'),
 'C22': ('generated coefficients, frequencies and search problems against closed-form phase derivatives', 'Delays are compared with the logarithmic derivative and the continuous phase of the response in long double; searches are checked for soundness and for success on reachable targets.'),
 'C23': ('stateful generation of kernel operations against the all-pass reference model', 'Kernels with 1..13 and 15..17 coefficients, random coefficients, operations and overlapping buffers; bounds as in C02.'),
 'C24': ('differential between the printed filters of the tool, the reference tables and generated resampler runs', 'The tool is built from the working tree and its output parsed; the printed filters drive a reference model that every IIR configuration is compared with.'),
 'C25': ('generated random generator states and histories; injected faults of the SSE arithmetic', 'Runs the self-test from random srand() states in normal and sanitizer builds with capture of output and memory balance, and in a build with switchable faults of SSE multiplication and addition, where it has to fail whenever a fault changes the output of a resampler.'),
 'C26': ('differential between the output of the design script, an independent design and generated resampler runs', 'The script runs in an Octave stand-in written for this check; its generated section is compiled and drives a reference model, and it is run with generated parameters against a 30 digit design.'),
 'C27': ('fault injection: every allocation and element operation of generated histories fails in turn', 'Allocations of the library are made to fail one by one in a release build; balance of memory, life cycles and output of other objects are compared. One fault at a time.'),
 'C28': ('generated build options and generated programs; differential against a plain build', 'Builds and installs the project in scratch directories with generated options and compiles generated programs against it; a build failure of the project or a program is a violation.'),
}
