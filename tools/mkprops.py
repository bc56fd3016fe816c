#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the text stays editable)."""
import json, os
H = 'include/pandaresampler.hh'
C = 'include/pandaresampler/pandaresampler.cc'
D = 'include/pandaresampler/hiir/'
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=()):
    assert len(title) <= 80, (id, len(title))
    P.append({'id': id, 'title': title, 'statement': statement,
      'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why,
      'anchors': {'files': files,
        'state': [dict(zip(('name', 'meaning', 'where'), s)) for s in state],
        'mechanism': [dict(zip(('name', 'where'), m)) for m in mech],
        'observe_at': observe, 'hook_needed': None}})

CFG = 'all supported configurations (up/down, ratio 2/4/8, every precision level of the filter type, SSE on/off)'

prop('C01', 'FIR resampling computes the specified half-band filter cascade',
 'For every supported FIR configuration (mode up or down, ratio 2, 4 or 8, precision linear, 8, 12, 16, 20 or 24 bit, SSE on or off) the output stream equals, within float rounding error, the output of the specified chain of factor 2 stages computed in double precision: zero-stuffing or decimation by 2 with the half-band FIR filter of that stage and precision (ultraspherical-windowed sinc, interpolation gain 2). This holds for every sequence of block sizes (down: multiples of the ratio) and buffer alignments, with all state before the first sample, or before the first sample after reset(), being silence.',
 ['inputs', 'histories', 'configurations'],
 'For all input streams, ' + CFG + ', all partitions into blocks, all alignments, all positions of reset().',
 'testresampler compares factor 2 output with a sine by a coarse error measure for two block layouts; no test looks at output values of ratio 4 or 8, at block lengths other than a few, or at individual filter taps, and the quantifier over streams and partitions is unbounded.',
 [C, H, 'filter-design/mkfir.sh', 'filter-design/us_sinc.m'],
 [('stage coefficient tables and selection', C + ':create_impl'), ('SSE and scalar convolution', C + ':fir_process_4samples_sse / fir_process_one_sample'), ('history handling of the factor 2 stages', C + ':Upsampler2 / Downsampler2'), ('stage chaining', H + ':Resampler2::process_block')],
 ['output of Resampler2::process_block'],
 [('history', 'the last ORDER-1 input samples', C + ':Upsampler2::history, Downsampler2::history_even/odd')])

prop('C02', 'IIR resampling computes the specified polyphase all-pass cascade',
 'For every supported IIR configuration (mode up or down, ratio 2, 4 or 8, precision 8, 12, 16, 20 or 24 bit, SSE on or off) the output stream equals, within float rounding error, the output of the specified chain of factor 2 stages computed in double precision: two all-pass paths with the elliptic half-band coefficients designed for that stage and precision, interleaved for upsampling and averaged for downsampling. The error stays bounded by rounding of the recent signal, however long the stream is, and the relation holds for every sequence of block sizes (down: multiples of the ratio) and buffer alignments, starting from silence after construction and after reset().',
 ['inputs', 'histories', 'configurations'],
 'For all input streams (any length), ' + CFG + ', all partitions into blocks, all alignments, all positions of reset().',
 'No existing test checks any output value of an IIR resampler.',
 [C, D + 'StageProcSseV2.hpp', D + 'StageProcFpu.hpp', D + 'Upsampler2xSse.hpp', D + 'Downsampler2xSse.hpp', D + 'Upsampler2xFpuTpl.hpp', D + 'Downsampler2xFpuTpl.hpp', 'filter-design/mkiir.cc'],
 [('coefficient tables and selection', C + ':create_impl_iir'), ('all-pass sections', D + 'StageProc*.hpp'), ('stage chaining', H + ':Resampler2::process_block')],
 ['output of Resampler2::process_block'],
 [('_filter', 'coefficients and memories of the all-pass sections', D + '*.h')])

prop('C03', 'Output does not depend on how the stream is cut into blocks',
 'Feeding the same input stream to two equally configured resamplers in two different sequences of process_block() calls (any lengths including zero, down: multiples of the ratio; any float alignment of the buffers) produces the same output stream, within float rounding error, with exactly n*ratio (up) or n/ratio (down) samples from each call of n samples. Empty blocks change nothing.',
 ['inputs', 'histories', 'configurations'],
 'For all streams, all pairs of partitions and alignments, all configurations including ratio 1.',
 'testaddr only runs block sizes up to 99 without looking at values; testresampler uses fixed block sizes. Interactions of block length with the filter length and with the internal block sizes are never compared.',
 [H, C], [('history and internal block loops', C + ':Upsampler2::process_block, Downsampler2::process_block'), ('1024 sample chunks of the multi stage path', H + ':Resampler2::process_block')],
 ['output of process_block for two partitions of one stream'])

prop('C04', 'process_block stays inside the caller\'s buffers',
 'A process_block() call reads nothing outside its n input samples, writes exactly its n*ratio (up) or n/ratio (down) output samples and nothing else, never modifies the input, and performs no invalid memory access or undefined behaviour; for any block length (down: multiples of the ratio), any float-aligned buffers, any sample values and any call history. Downsampling blocks whose length is not a multiple of the ratio, which break the contract, touch no other memory either (at most floor(n/ratio) output samples), and reset() makes the resampler like new after them.',
 ['inputs', 'histories', 'configurations'],
 'For all configurations, block lengths, buffer placements (up against unmapped memory), sample values including NaN, infinities and denormals, and histories of calls.',
 'The sanitizer builds run testaddr with FIR only, block sizes up to 99 in over-sized buffers; the IIR kernels, long blocks and exact-size buffers are never exercised.',
 [H, C, D + 'Downsampler2xSse.hpp', D + 'Upsampler2xSse.hpp'],
 [('look-ahead margins of the SSE loops', C + ':process_block_aligned'), ('internal block size limits', C), ('pair loads of the IIR downsampler', D + 'Downsampler2xSse.hpp:load_pair')],
 ['memory faults, sanitizer reports, canaries around the buffers'])

prop('C05', 'reset() is equivalent to a freshly constructed resampler',
 'After reset(), a resampler behaves bit for bit like a newly constructed one of the same configuration, whatever it processed before (including NaN and infinite samples, any block lengths, earlier resets). Calling reset() repeatedly or on a new object changes nothing.',
 ['inputs', 'histories', 'configurations'],
 'For all configurations, all histories before the reset and all streams after it.',
 'No existing test compares a reset resampler with a new one for more than one configuration; IIR and multi-stage resets are untested.',
 [H, C], [('reset of every stage', H + ':Resampler2::reset'), ('clearing of histories', C + ':reset'), ('clear_buffers', D + '*.hpp')],
 ['output of process_block after reset()'])

prop('C06', 'SSE and non-SSE implementations are interchangeable',
 'Two resamplers that differ only in the use_sse_if_available argument produce the same output stream within float rounding error for every history of blocks, and report equal delay() and order(). sse_enabled() is true exactly if SSE was requested (the default) and the build has SSE code for the filter: in builds with SSE for all filters and sse_available() is true, in builds without SIMD for none and sse_available() is false (in NEON builds sse_available() is true, and FIR filters have it). Without SIMD every configuration works with scalar code.',
 ['inputs', 'histories', 'configurations'],
 'For all configurations, streams of any length, partitions, alignments and builds with or without SSE.',
 'Existing tests never compare the two for ratio 4/8 or IIR, nor over long streams.',
 [C, D + 'StageProcSseV2.hpp', D + 'StageProcFpu.hpp'], [('selection of the implementation', C + ':init_stage, create_impl_iir_with_coeffs'), ('SSE tap layout', C + ':fir_compute_sse_taps')],
 ['outputs of both implementations', 'sse_enabled(), sse_available()'])

prop('C07', 'delay() tells where the input is found in the output',
 'For FIR filters the resampler delays every frequency by exactly delay() output samples: when upsampling, input sample i is output sample i*ratio+delay() (an integer), and the impulse response is symmetric about it; for ratio 2, delay() is a multiple of 0.5 (down) or 1.0 (up). For IIR filters delay() is the group delay at low frequencies (1 kHz at 44.1 kHz), and for all configurations delay() is finite and >= 0.',
 ['inputs', 'configurations'],
 'For all configurations, input signals and signal frequencies.',
 'testmultidelay prints delays and never fails; testresampler checks the factor 2 FIR delay only.',
 [H, C], [('combination of stage delays', H + ':Resampler2::delay'), ('delays of the stages', C + ':delay'), ('IIR group delay constants', C + ':create_impl_iir')],
 ['delay()', 'position of the input in the output stream'])

prop('C08', 'Frequency response meets the requested precision',
 'At a base rate of 44.1 kHz, a resampler with N bit precision passes every frequency up to 18 kHz with unit gain within 1.5 * 2^-N per stage, and suppresses images (up) and aliasing (down) of the bands that mirror 0..18 kHz by 6 dB per bit, less at most 1.5 dB, up to the limit of float arithmetic. This holds for FIR and IIR filters, all ratios and both directions, and scales with the sample rate.',
 ['inputs', 'configurations'],
 'For all frequencies in the pass and stop bands, all configurations with N = 8, 12, 16, 20, 24, all phases and amplitudes.',
 'testresampler measures a handful of frequencies for factor 2 FIR only; response for ratio 4/8 and for IIR is never measured.',
 [C, 'filter-design/mkfir.sh', 'filter-design/mkiir.cc'], [('coefficient tables', C + ':create_impl, create_impl_iir'), ('stage/table selection by precision and ratio', C)],
 ['gain at generated frequencies measured from process_block'])

prop('C09', 'Upsampling followed by downsampling restores the signal',
 'For every ratio 2, 4 or 8, precision of N bits and filter type, upsampling a signal band-limited to 18 kHz (at 44.1 kHz) and downsampling it again gives the original signal: delayed by up.delay()/ratio + down.delay() samples for FIR, with unchanged spectral magnitudes for IIR, with an error that is a small multiple of 2^-N of the signal (plus float rounding).',
 ['inputs', 'histories', 'configurations'],
 'For all band-limited signals, configurations and block partitions of both directions.',
 'testresampler checks round trips for factor 2 FIR sines only.',
 [H, C], [('matching up/down filters and delays', C), ('multi stage order', H + ':Resampler2::process_block, delay')],
 ['output of the down/up chain'])

prop('C10', 'Resampler instances are independent and movable',
 'Any number of resamplers used alternately, or concurrently from different threads (one thread per instance, including construction and destruction), each produce exactly the output they produce alone. Moving (construction, assignment, swap) carries the complete stream state to the target (also to another thread), leaves other instances unaffected, and destruction releases all memory.',
 ['inputs', 'histories', 'schedules', 'configurations'],
 'For all sets of instances of any configurations, interleavings of calls, moves and threads.',
 'Existing tests use one instance at a time in one thread.',
 [H, C], [('per-instance state, no shared mutable data', C), ('unique_ptr ownership of the stages', H)],
 ['outputs under interleaving versus alone; thread sanitizer; allocation balance'])

prop('C11', 'All ways of building the library behave the same',
 'Compiled as a library or in header-only mode (also in several translation units of one program), with g++ or clang++, with different language standards, optimization levels and instruction sets, with or without assertions, with SSE, with the NEON code path or with neither, the public API gives the same results: equal introspection values and output streams equal within float rounding error, and bit-identical between library and header-only mode with the same compiler and flags.',
 ['inputs', 'histories', 'configurations', 'programs'],
 'For all build variants of the stated kinds times all resampler configurations and histories.',
 'Existing tests build four variants but compare nothing between them, and never build without SSE or with NEON.',
 [H, C], [('PANDA_RESAMPLER_HEADER_ONLY, PANDA_RESAMPLER_FN', C), ('conditional compilation for SSE/NEON', C)],
 ['outputs and introspection of dynamically loaded builds'])

prop('C12', 'The resampler is a linear (time-invariant) system',
 'Scaling the input by a power of two scales the output exactly and negating it negates the output (as long as nothing overflows or underflows), the response to a sum of signals is the sum of the responses within float rounding error, and delaying the input by k samples (down: k*ratio) delays the output by k*ratio (down: k) samples. This holds for all configurations and histories, and at any age of the instance.',
 ['inputs', 'histories', 'configurations'],
 'For all signals, scale factors 2^k, shifts, configurations and partitions.',
 'No existing test relates two runs with different input.',
 [C, H], [('pure multiply-add processing without level dependent behaviour', C)],
 ['outputs for related inputs'])

prop('C13', 'Bounded memory, stability and decay',
 'Bounded input always gives bounded output (at most the absolute sum of the impulse response, about 3 times the peak per stage), for any stream length. FIR resamplers have finite memory: once the input was silent for the filter length the output is exactly zero, and even NaN or infinite samples leave no trace a few samples later; IIR resamplers decay to silence (below 1e-30 of the signal level within a bounded number of samples) after any finite input.',
 ['inputs', 'histories', 'configurations'],
 'For all finite streams of any length and level, followed by silence; FIR also with non-finite samples.',
 'No existing test feeds long streams, loud signals followed by silence, or non-finite samples.',
 [C, D + 'StageProcSseV2.hpp', D + 'StageProcFpu.hpp', D + 'Upsampler2xSse.hpp', D + 'Downsampler2xSse.hpp'], [('stable all-pass sections', D), ('finite history', C)],
 ['output during and after generated signals'])

prop('C14', 'AlignedArray is a correct aligned container',
 'An AlignedArray<T> of n elements (n >= 0) starts at a 16-byte (in fact 64-byte) aligned address, shares no cache line of its elements with other allocations, value-initializes n elements (or copies a given vector), constructs and destroys every element exactly once and destroys in reverse order. Size, indexing and iteration agree, copies and assignments are deep, and no memory is leaked or accessed out of bounds.',
 ['inputs', 'histories'],
 'For all element types, sizes and sequences of create, write, copy, assign and destroy operations.',
 'Existing tests only use AlignedArray<float> as a buffer.',
 [H], [('over-allocation and rounding up', H + ':AlignedArray::allocate_aligned_data'), ('placement construction, reverse destruction', H + ':AlignedArray')],
 ['addresses, contents, constructor/destructor log, sanitizer reports'])

prop('C15', 'Precision lookup is total, monotone and sufficient',
 'find_precision_for_bits() returns, for every unsigned int, the smallest precision level with at least that many bits (linear for 0 and 1, 24 bit for more than 24), so it is monotone, and a FIR resampler can be constructed with every result without diagnostics. precision_name() returns a distinct, constant, non-empty string for every level and "unknown precision enum value" for any other value.',
 ['inputs'],
 'For all unsigned int values and all enum values.',
 'Existing tests pass a few literal values.',
 [C, H], [('threshold chain', C + ':find_precision_for_bits'), ('switch', C + ':precision_name')],
 ['return values'])

prop('C16', 'Diagnostics appear exactly for contract violations',
 'Constructing a resampler writes a PANDA_RESAMPLER_CHECK FAILED line to stderr exactly if the configuration is unsupported (ratio other than 1, 2, 4, 8, unknown precision, or IIR with linear precision, where ratio 1 needs no filter), and does not crash in either case. process_block() of an odd number of samples with a ratio 2 FIR downsampler is rejected with such a line, leaving output and state untouched; all valid calls are silent on stdout and stderr. A diagnostic is one line with file, line, function and expression, and PANDA_RESAMPLER_CHECK() evaluates its argument once and returns its value.',
 ['inputs', 'histories', 'configurations'],
 'For all ratios, precision values, modes, filters and SSE settings; all odd block lengths at any point of a history; all valid histories.',
 'No existing test constructs an unsupported configuration or passes an odd block to a downsampler.',
 [C, H], [('PANDA_RESAMPLER_CHECK', H + ':check'), ('constructor checks', C + ':Resampler2, init_stage'), ('even length check', C + ':Downsampler2::process_block')],
 ['text written to file descriptors 1 and 2'])

prop('C17', 'Introspection is truthful and constant',
 'order(), delay() and sse_enabled() are const queries which return the same values from construction to destruction whatever is processed, reset or moved: order() is the length of the first stage\'s filter (FIR: 52, 42, 32, 24, 16, 2 for 24, 20, 16, 12, 8 bit and linear; IIR: number of coefficients 9, 8, 6, 5, 3; 0 for ratio 1), delay() is 0 for ratio 1 and does not depend on the SSE setting, and calling them never changes the output stream. Omitted constructor arguments mean SSE enabled and the FIR filter.',
 ['inputs', 'histories', 'configurations'],
 'For all configurations including ratio 1 and all histories with interleaved queries.',
 'Existing tests print order() for some configurations, never for ratio 1 (where it crashed) and never after processing.',
 [H, C], [('order/delay/sse_enabled', H), ('virtual stage queries', C)],
 ['return values interleaved with processing'])

prop('C18', 'Ratio 1 passes samples through unchanged',
 'For ratio 1 process_block() copies the input to the output bit by bit (also NaN payloads, signed zeros and denormals), for every mode, precision, filter and SSE setting, any block length and alignment, with no delay and no state: delay() is 0 and reset() has no effect.',
 ['inputs', 'histories', 'configurations'],
 'For all bit patterns, block lengths, alignments, configurations with ratio 1.',
 'No existing test checks the values for ratio 1.',
 [H], [('copy', H + ':Resampler2::process_block'), ('no stages', C + ':init_stage')],
 ['output bits'])

prop('C19', 'Processing is deterministic',
 'The output and state of a resampler are a pure function of its configuration and of the calls made on it: repeating a history with the same data and alignments gives bit-identical output, whatever the previous contents of stack, heap and output buffers, whatever other code ran before, and whether the object is on the stack, on the heap or in reused memory.',
 ['inputs', 'histories', 'configurations'],
 'For all configurations and histories, and all contents of uninitialized memory.',
 'Existing tests run once with whatever memory contents happen to be there; sanitizers in use do not detect uninitialized reads.',
 [H, C, D], [('initialization of histories, filter memories and coefficients', C + ' constructors; ' + D + ' constructors')],
 ['outputs of repeated runs in differently dirtied memory'])

prop('C20', 'Processing is real-time safe',
 'process_block(), reset(), delay(), order() and sse_enabled() allocate and free no memory, make no system calls, need only a bounded amount of stack that does not grow with the block length, do an amount of work that is limited by a small multiple of the block length whatever the samples and however old the instance is, and leave the floating point environment (rounding mode, denormal handling, exception masks) and errno unchanged.',
 ['inputs', 'histories', 'configurations'],
 'For all configurations and valid histories, including very long blocks.',
 'No existing test observes allocations, system calls, stack use or the floating point environment.',
 [H, C], [('fixed size stack buffers and internal block loops', C + ', ' + H + ':process_block')],
 ['allocation counters, seccomp, guard pages below a small stack, MXCSR, number of executed basic blocks'])

prop('C21', 'The IIR designer delivers the specified filter with fewest coefficients',
 'For an attenuation of 0.1..200 dB and a transition bandwidth of 0.001..0.499, the number of coefficients is >= 1 and the smallest one whose predicted attenuation reaches the requested one; the coefficients lie strictly between 0 and 1 in ascending order and are those of the elliptic half-band filter of that order and transition band, whose measured stop band attenuation is at least the requested and the predicted one (the prediction is a lower bound, exact except for a fraction of a dB for filters with very little attenuation), with a pass band that is flat accordingly. compute_coefs(), compute_nbr_coefs_from_proto(), compute_coefs_spec_order_tbw() and compute_atten_from_order_tbw() are mutually consistent. The results of all designer functions depend on the arguments of the call only, not on previous calls or on calls in other threads.',
 ['inputs'],
 'For all attenuations, transition bandwidths and numbers of coefficients in the domain.',
 'The designer is used to generate the tables and not executed by any test.',
 [D + 'PolyphaseIir2Designer.cpp', D + 'fnc.hpp'], [('elliptic design by theta series', D + 'PolyphaseIir2Designer.cpp')],
 ['returned coefficients and values'])

prop('C22', 'The IIR designer predicts and meets group and phase delays',
 'compute_group_delay() and compute_phase_delay() equal the derivative of the phase, and the phase divided by the frequency, of the cell (or filter) response at every frequency in [0, 0.5), for normal and phaser mode as documented, and are >= 0. When compute_coefs_spec_order_gdly() returns success, the filter has the requested group delay within prec and attenuation and bandwidth within the requested bounds, and the returned values describe it; it reports failure otherwise, and it succeeds if the group delay lies strictly between those of the two transition bounds and the attenuation bounds do not exclude it.',
 ['inputs'],
 'For all coefficients in [0, 1), frequencies, filter orders, delays and precision bounds.',
 'Not executed by any test.',
 [D + 'PolyphaseIir2Designer.cpp'], [('closed forms', D + 'PolyphaseIir2Designer.cpp:compute_group_delay, compute_phase_delay'), ('bisection', D + 'PolyphaseIir2Designer.cpp:compute_coefs_spec_order_gdly')],
 ['returned values'])

prop('C23', 'The hiir kernels implement the all-pass filters for any coefficients',
 'For any number of coefficients and any coefficients in (0, 1), the FPU (float and double) and SSE up- and downsampler kernels compute the two-path all-pass filters of the reference model within rounding error; sample-wise and block processing (also in place where their contract permits overlap) are equivalent, the split functions return the low band and its complement, and clear_buffers() restores the silent state. All of this holds for any interleaving of these operations; the rows of sections below them (normal and phaser mode) compute the corresponding cascades.',
 ['inputs', 'histories', 'configurations'],
 'For 1..18, 20, 25, 32 and 33 coefficients, random coefficients and signals, any sequence of sample/block/split/clear operations.',
 'The kernels are only used with the 15 shipped coefficient sets and no test checks a value.',
 [D + 'Upsampler2xFpuTpl.hpp', D + 'Downsampler2xFpuTpl.hpp', D + 'Upsampler2xSse.hpp', D + 'Downsampler2xSse.hpp', D + 'StageProcFpu.hpp', D + 'StageProcSseV2.hpp'], [('recursive stage templates', D + 'StageProc*.hpp')],
 ['outputs of the kernels'])

prop('C24', 'The filter design tool reproduces the shipped IIR filters',
 'The filters printed by the mkiir tool are those in the library: for every precision and stage, a kernel run with the printed coefficients and the resampler with the shipped tables respond identically (within rounding) to every signal, and the printed group delay matches delay().',
 ['inputs', 'configurations'],
 'For all 15 filters and all signals.',
 'The tool is built but never run by the tests.',
 ['filter-design/mkiir.cc', C, D + 'PolyphaseIir2Designer.cpp'], [('generation of tables', 'filter-design/mkiir.cc:main'), ('generated section', C + ':create_impl_iir')],
 ['tool output, process_block output'])

prop('C25', 'The built-in filter self-test succeeds exactly if the SSE arithmetic is correct',
 'Resampler2::test_filter_impl() returns true for every state of the C library random generator and any number of repetitions, does not disturb existing resamplers, prints nothing unless verbose is set and does not leak or corrupt memory. If the SSE arithmetic is faulty such that it changes the output of the SSE FIR filters (wrong, missing, exchanged, NaN or infinite results in one or all lanes), it returns false.',
 ['inputs', 'histories'],
 'For all srand() seeds, interleavings with other use and faults of the arithmetic.',
 'The test suite calls it with the default seed only.',
 [C], [('comparison of SSE and scalar convolution with random data', C + ':fir_test_filter_sse')],
 ['return value, output on fd 1 and 2'])

prop('C26', 'The FIR design script reproduces the shipped FIR filters',
 'Running filter-design/mkfir.sh (with Octave) produces the FIR tables of the library: for each of the 15 combinations of stage and precision the generated section selects, for both modes, a filter with the same number of coefficients and the same values (within rounding), so that a cascade of the generated filters and the resampler respond identically to every signal. For any even number of coefficients, mu and attenuation, us_sinc() returns the half-band sinc times the ultraspherical window for these parameters (2n+1 points, middle 0.5) and saves its frequency response, and mkfir.sh prints the corresponding coefficients, selection code and plot data.',
 ['inputs', 'configurations'],
 'For all 15 filters and all signals; for all design parameters in 2..60 coefficients, mu 0.1..2, 20..150 dB.',
 'The script is not run by any test.',
 ['filter-design/mkfir.sh', 'filter-design/us_sinc.m', C], [('window design', 'filter-design/us_sinc.m'), ('parameter table, generation of the section', 'filter-design/mkfir.sh'), ('generated section', C + ':create_impl')],
 ['mkfir.gen.cc, *.gp and *.dump written by the script, process_block output'])

prop('C27', 'Failing allocations and throwing elements fail cleanly',
 'If memory runs out during construction, copying or assignment of a Resampler2 or AlignedArray, or during the self-test, or if the constructor or copy assignment of an AlignedArray element throws, the operation ends with that exception (std::bad_alloc if memory ran out): it neither crashes nor yields a partially built object, it destroys exactly the elements it had constructed and frees all memory it had allocated, and other objects as well as the target of a failed assignment are unaffected, bit for bit. An AlignedArray of more elements than memory or size_t can hold fails in the same way.',
 ['inputs', 'fault_sequences', 'configurations'],
 'For all configurations, every single allocation and every single element operation that can fail, all interleavings with resamplers in use.',
 'No existing test lets an allocation fail.',
 [H, C], [('allocation and element construction', H + ':AlignedArray'), ('construction of stages', C + ':init_stage, create_impl, create_impl_iir')],
 ['exceptions, allocation balance, element life cycle log, output of other resamplers'])

prop('C28', 'The library works in every documented way of using it',
 'With any supported compiler, C++ standard from C++11 on, build type and library type, the project builds and installs all headers, the library and a pkg-config file, and a program written against the public API compiles and links against the installed package with the flags of pkg-config, in header-only mode (any number of translation units, no library needed), or with a copy of include/. All these programs behave the same: introspection is equal and outputs agree within float rounding error with a plain build, also for static and for global instances which are constructed and used before main(). The headers introduce only names of namespace PandaResampler and macros with the prefixes PANDA_RESAMPLER and hiir_, so programs may use any other name themselves.',
 ['configurations', 'inputs'],
 'For all combinations of build options and all programs with 1..3 translation units, any include order and mixture of local, static and global instances.',
 'The tests build four fixed configurations and never use an installed package; header-only mode is tested by two constructions.',
 ['meson.build', H, C], [('installation and pkg-config file', 'meson.build'), ('header-only mode', H + ':PANDA_RESAMPLER_HEADER_ONLY, PANDA_RESAMPLER_SOURCE'), ('inline and static functions', C + ':PANDA_RESAMPLER_FN')],
 ['installed files, exit status of compilers and programs, output of programs'])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl')
with open(out, 'w') as f:
    for p in P:
        f.write(json.dumps(p) + '\n')
print(len(P), 'properties')
