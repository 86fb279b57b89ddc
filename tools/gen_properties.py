#!/usr/bin/env python3
"""Single source of /verif/properties.jsonl (run it after editing)."""
import json
import os

P = []


def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
        "anchors": {"files": files, "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                    "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
                    "observe_at": list(observe), "hook_needed": hook}})


I, S, H, C, F, PR = "inputs", "schedules", "histories", "configurations", "fault_sequences", "programs"

prop("C01", "Complex DFT plans compute the discrete Fourier transform for every size",
     "For every transform size of at least 1, both precisions, both directions, and in-place as well as out-of-place execution, a complex DFT plan writes the mathematically defined unnormalised (inverse) discrete Fourier transform of its input to within a rounding error that grows at most logarithmically with the size. "
     "It does so with a temporary buffer of exactly the advertised size, without touching memory outside the input, output and temporary buffers, and leaves the input unchanged when executed out of place. "
     "The forward transform followed by the inverse one multiplies every element by the size.",
     [I, C], "all sizes 1..2^21 (smooth, prime, mixed), all inputs, both directions, in/out of place, every instruction-set variant",
     "tests sample a few dozen sizes with one random signal and mostly one direction; each size selects another chain of butterflies, twiddle tables and reorderings",
     ["src/dft/dft.cpp", "src/dft/fft-impl.hpp", "src/dft/dft-impl.hpp", "src/dft/ft.hpp", "src/dft/bitrev.hpp", "include/kfr/dft/fft.hpp"],
     [("stage selection and radix butterflies", "src/dft/fft-impl.hpp"), ("generic radix, Bluestein and order-reversal stages", "src/dft/dft-impl.hpp")],
     [("temp_size", "bytes of scratch a plan may use", "include/kfr/dft/fft.hpp dft_plan"), ("stages", "chain of passes for the size", "include/kfr/dft/fft.hpp dft_plan")],
     ["dft_plan<T>::execute output, input and scratch buffers"])

prop("C02", "Real DFT plans agree with the complex DFT in both packing formats",
     "For every even size of at least 2 and both precisions, the real-to-complex transform yields exactly the non-redundant half of the discrete Fourier transform of the real input, laid out as the chosen packing format prescribes (the Nyquist term as an own last element, or packed in the imaginary part of the first). "
     "The complex-to-real transform is its inverse up to multiplication by the size, in place or out of place.",
     [I, C], "all even sizes, both packing formats, both directions, in/out of place, every instruction-set variant",
     "tests check a handful of sizes, mostly powers of two, and one packing format",
     ["include/kfr/dft/fft.hpp", "src/dft/dft.cpp", "src/dft/fft-impl.hpp", "src/dft/dft-impl.hpp"],
     [("split/merge of the half-size complex transform", "src/dft/fft-impl.hpp to_fmt/from_fmt"), ("dft_plan_real::execute", "include/kfr/dft/fft.hpp")],
     [("dft_pack_format", "where the Nyquist term is stored", "include/kfr/dft/fft.hpp")], ["dft_plan_real<T>::execute output"])

prop("C03", "Multidimensional DFT plans equal the transform along every axis",
     "For every number of dimensions and every shape, whether fixed at compile time or given at run time, the multidimensional complex transform equals the one-dimensional transform applied along each axis in turn, and the real one equals it restricted to the non-redundant half of the last axis. "
     "The inverse restores the input multiplied by the number of elements.",
     [I, C], "1 to 5 dimensions, all extents including 1, primes and non-square ones, both directions, in/out of place",
     "tests use a few small shapes with fixed data",
     ["include/kfr/dft/fft.hpp", "include/kfr/base/transpose.hpp"],
     [("row transforms alternating with transposition", "include/kfr/dft/fft.hpp dft_plan_md"), ("matrix_transpose", "include/kfr/base/transpose.hpp")],
     [], ["dft_plan_md / dft_plan_md_real execute output"])

prop("C04", "The DCT plan computes DCT-II and its inverse",
     "For every size, the forward discrete cosine transform plan yields the type-II cosine transform of its input and the inverse one yields the type-III transform, so that the one undoes the other up to multiplication by half the size, for any input and for either precision.",
     [I, C], "all sizes up to 2048, larger samples, both precisions",
     "tests check one or two sizes against a stored table",
     ["include/kfr/dft/fft.hpp"], [("dct_plan::execute", "include/kfr/dft/fft.hpp")], [], ["dct_plan<T>::execute output"])

prop("C05", "Transform plans and the plan cache can be shared by threads",
     "Any number of threads may execute the same transform plan, or obtain plans of any size and kind from the shared plan cache, at the same time with their own data and temporary buffers, and each gets exactly the result it would get alone. "
     "No execution modifies shared plan state: there is no data race under any schedule.",
     [S], "all interleavings of plan lookup, creation and execution by several threads, for every class of size",
     "no existing test runs two threads; races need a particular overlap and no single-threaded test can see them",
     ["include/kfr/dft/cache.hpp", "include/kfr/dft/fft.hpp", "src/dft/dft-impl.hpp", "src/dft/convolution-impl.cpp"],
     [("mutex around the cache map", "include/kfr/dft/cache.hpp"), ("plans are const during execution, scratch lives in temp", "src/dft/dft-impl.hpp")],
     [("cache", "map from size to shared plan", "include/kfr/dft/cache.hpp dft_cache_impl")],
     ["ThreadSanitizer reports, and each thread's output"])

prop("C06", "All instruction-set variants of the library give the same results",
     "On a given machine every instruction-set variant of the transforms, filters, resampler and convolution that the run-time dispatcher may choose yields the same result as every other variant, within rounding, for the same call. "
     "The dispatcher never selects a variant above what the processor supports or above what the caller asked for.",
     [C, I], "all compiled-in instruction sets up to the processor's, all entry points with dispatch",
     "the test suite runs the dispatched library on the best instruction set of one machine and one fixed alternative",
     ["include/kfr/multiarch.h", "include/kfr/runtime/cpuid.hpp", "include/kfr/runtime/cpuid_auto.hpp", "src/dft/dft.cpp", "src/dsp/fir.cpp", "src/dsp/biquad.cpp", "src/dsp/sample_rate_conversion.cpp"],
     [("CMT_MULTI_GATE dispatch on get_cpu()", "include/kfr/multiarch.h")], [("cpu_t", "requested or detected instruction set", "include/kfr/simd/platform.hpp")],
     ["results of the same call under each cpu_t"])

prop("C07", "Convolution and correlation equal their defining sums",
     "For all lengths, real and complex data and both precisions, convolve, correlate and autocorrelate return the full linear (auto)correlation or convolution given by the direct sum, to within rounding. "
     "The block convolution filter produces, for any split of a signal into calls of any sizes and any partition size, the same output as one direct convolution with its impulse response, and applies from a fresh state again after a reset.",
     [I, H], "all pairs of lengths, all chunkings of a stream, all block sizes, real and complex",
     "tests use one or two lengths and a single chunk pattern",
     ["include/kfr/dft/convolution.hpp", "src/dft/convolution-impl.cpp"],
     [("zero-padded FFT multiplication", "src/dft/convolution-impl.cpp"), ("partitioned overlap-add", "src/dft/convolution-impl.cpp convolve_filter::process_buffer")],
     [("ring of block spectra, saved overlap, input position", "state carried between calls", "include/kfr/dft/convolution.hpp convolve_filter")],
     ["outputs of convolve/correlate/autocorrelate, convolve_filter::apply"])

prop("C08", "FIR filters equal the defining sum for any chunking",
     "An FIR filter or short FIR expression outputs, for every number of taps, type combination and input, the sum of its taps times the current and previous samples, with zeros (or, where documented, nothing) before the first one; the moving sum outputs the sum of the last N samples. "
     "The output is the same however the signal is split into successive calls or vectors, in place or not.",
     [I, H], "all tap counts, all chunkings, all element types, every instruction-set variant",
     "tests check one tap count with one block size",
     ["include/kfr/dsp/fir.hpp", "src/dsp/fir.cpp"], [("delay line ring buffer", "include/kfr/dsp/fir.hpp fir_state"), ("register shift for short FIR", "include/kfr/dsp/fir.hpp short_fir")],
     [("delayline, delayline_cursor", "last N samples and write position", "include/kfr/dsp/fir.hpp fir_state")], ["filter output streams"])

prop("C09", "IIR/biquad cascades follow the difference equation for any chunking",
     "For every number of sections and any coefficients, a biquad cascade outputs the sections' difference equations applied one after another from a zero state, to within rounding, whatever the length of the signal. "
     "The stateful filter gives the same stream however it is split into calls, in place or not, and for every supported number of sections.",
     [I, H], "1..64 sections, stable coefficients, all chunkings, both precisions",
     "tests compare one response with stored samples; the cascade pipeline (skew between sections, block boundaries, vector width) depends on section count and length",
     ["include/kfr/dsp/biquad.hpp", "src/dsp/biquad.cpp", "include/kfr/dsp/iir.hpp"],
     [("skewed SIMD pipeline over sections and its drain", "include/kfr/dsp/biquad.hpp expression_iir")],
     [("s1, s2, out, block_end", "section states and pipeline position", "include/kfr/dsp/biquad.hpp iir_state")], ["filter output streams"])

prop("C10", "The sample rate converter is chunk-invariant and position-exact",
     "For every pair of rates and every quality, the converter produces the same output stream however the input is split into calls, consumes exactly the number of input samples and reports exactly the output sizes, input sizes and fractional delay that its size functions predict, and skipping output is the same as producing and discarding it. "
     "A band-limited tone comes out as the same tone at the new rate, delayed by the reported delay, with the stop-band attenuation of the quality.",
     [I, H], "all reduced ratios, all qualities, all chunkings, both precisions",
     "tests convert a few fixed rates in a single call and look at a plot",
     ["include/kfr/dsp/sample_rate_conversion.hpp", "src/dsp/sample_rate_conversion.cpp"],
     [("polyphase position arithmetic", "src/dsp/sample_rate_conversion.cpp"), ("saved input tail", "samplerate_converter::delay")],
     [("input_position, output_position", "stream positions", "include/kfr/dsp/sample_rate_conversion.hpp")], ["output stream and position functions"])

prop("C11", "IIR filter design meets its specification",
     "For every family (Butterworth, Chebyshev I and II, Bessel), type (low-pass, high-pass, band-pass, band-stop), order, ripple and cut-off inside the valid range, the designed second-order sections form a stable filter with real coefficients whose magnitude response equals the analytic prototype's response, pre-warped by the bilinear transform, at every frequency.",
     [I, C], "orders 1..~20, cut-offs and ripples across the valid range, all families and types",
     "tests compare a few designs with stored coefficients",
     ["include/kfr/dsp/iir_design.hpp"], [("zpk prototype, frequency transform, bilinear transform, pairing into sections", "include/kfr/dsp/iir_design.hpp")],
     [], ["iir sections returned by to_sos / iir_* functions"])

prop("C12", "A reset filter behaves like a new one",
     "After any history of processed samples, resetting a stateful filter (FIR, IIR, block convolution, generic expression filter) makes its following output identical to that of a newly created filter with the same parameters.",
     [H], "all histories of apply/reset calls with any chunk sizes for every filter class",
     "no test calls reset in the middle of a stream",
     ["include/kfr/base/filter.hpp", "include/kfr/dsp/fir.hpp", "include/kfr/dsp/biquad.hpp", "src/dft/convolution-impl.cpp", "src/capi/capi.cpp"],
     [("filter::reset overrides", "include/kfr/base/filter.hpp")], [("filter state", "delay lines, section states, overlap buffers", "")], ["output after reset compared with a fresh instance"])

prop("C13", "Delay lines delay by exactly the requested amount",
     "The integer delay expression outputs its input delayed by exactly the requested number of samples with zeros before, for every delay length, vector width and way of reading the stream in pieces; with an external state the stream continues across calls. "
     "The fractional delay outputs the linear interpolation between the two neighbouring delayed samples.",
     [I, H], "all delay lengths 1..several hundred, all chunkings and element types",
     "tests check two or three delays on a short ramp",
     ["include/kfr/dsp/delay.hpp"], [("ring buffer with cursor", "include/kfr/dsp/delay.hpp")], [("data, cursor", "last samples and write position", "delay_state")], ["expression output"])

prop("C14", "EBU R128 loudness matches the standard's formula",
     "For every channel layout, sample rate and signal, the momentary, short-term, integrated and range values reported equal those computed from the K-weighted, channel-weighted mean squares with the absolute and relative gates of EBU R128 / ITU-R BS.1770, independently of how the audio is split into packets of the analyser's size, and resetting the analyser forgets the past.",
     [I, H], "all speaker layouts, common sample rates, signals with gated parts",
     "tests cover a couple of stationary sine signals",
     ["include/kfr/dsp/ebu.hpp", "include/kfr/dsp/weighting.hpp", "include/kfr/dsp/speaker.hpp"],
     [("K-filter, 100 ms packets, 400 ms and 3 s windows, gating", "include/kfr/dsp/ebu.hpp")], [("momentary/short-term history, gate statistics", "running energy sums", "ebu_r128")], ["ebu_r128 getters"])

prop("C15", "Window functions follow their formulas",
     "Every window function returns, for every length of at least 2, symmetric or periodic form, parameter value and precision, the values of its defining formula to within rounding, and the same values however it is evaluated: in one vector, element by element, or through the run-time selected form.",
     [I, C], "all window types, lengths 1..1000, symmetries, parameters, both precisions",
     "tests compare each window at one length with stored values",
     ["include/kfr/dsp/window.hpp"], [("per-window expressions over a linear ramp", "include/kfr/dsp/window.hpp")], [], ["window expression values"])

prop("C16", "Windowed-sinc FIR design gives the defined taps",
     "Low-pass, high-pass, band-pass and band-stop FIR design returns, for every number of taps, cut-off, window and normalisation flag, the windowed sinc taps of the definition, symmetric for symmetric windows, and, with normalisation, exactly unit gain at the reference frequency.",
     [I], "tap counts 1..513, cut-offs across (0, 0.5), all windows",
     "tests compare one design per type with stored taps",
     ["include/kfr/dsp/fir_design.hpp"], [("sinc times window, spectral inversion", "include/kfr/dsp/fir_design.hpp")], [], ["taps written by fir_lowpass / highpass / bandpass / bandstop"])

prop("C17", "SIMD vector operators act element-wise for every type and width",
     "For every element type, vector width (including those that are not powers of two or exceed a register) and every input, the arithmetic, bitwise, shift, comparison, logical, select, mask and cast operations on vectors give in every lane exactly what the same scalar operation on that lane's elements gives. "
     "Partial loads, stores, gathers and scatters touch exactly the addressed elements.",
     [I, C], "all element types x widths 1..64 x operators x instruction sets, boundary and random values",
     "tests sweep a sample of widths and values for the instruction set they are compiled for",
     ["include/kfr/simd/vec.hpp", "include/kfr/simd/operators.hpp", "include/kfr/simd/comparison.hpp", "include/kfr/simd/logical.hpp", "include/kfr/simd/select.hpp", "include/kfr/simd/read_write.hpp", "include/kfr/simd/impl/"],
     [("clang vector back end and intrinsics", "include/kfr/simd/impl"), ("splitting/merging of wide vectors", "include/kfr/simd/operators.hpp")], [], ["lanes of result vectors"])

prop("C18", "Vector shuffles are the permutations they are named after",
     "Every rearrangement (slice, low/high, concat, reverse, rotate, shift-in, even/odd, interleave, duplicate, blend, swap, transpose, scale, digit reversal, broadcast, resize, gather from a table) of a vector of any element type and width places in every output lane exactly the input lane its definition names, and nothing else.",
     [I, C], "all shuffle functions x element types x widths 1..64 x group sizes",
     "tests check a few fixed widths",
     ["include/kfr/simd/shuffle.hpp", "include/kfr/simd/digitreverse.hpp", "include/kfr/simd/vec.hpp", "include/kfr/simd/horizontal.hpp"],
     [("index generators fed to shufflevector", "include/kfr/simd/shuffle.hpp")], [], ["lanes of result vectors"])

prop("C19", "Rounding, clamping, min/max, abs and saturating functions are exact",
     "For every type, width and input including the largest and smallest values, ties and negative zero, the functions abs, min, max, absmin, absmax, clamp, floor, ceil, round, trunc, fract and their integer-returning forms, and the saturating add and subtract equal their scalar mathematical definitions exactly.",
     [I, C], "8-, 16-, 32- and 64-bit signed/unsigned integers (exhaustive for 8 bit), f32 and f64 edge values, all instruction sets",
     "tests use a handful of values per type; SIMD emulations differ per instruction set and type",
     ["include/kfr/simd/abs.hpp", "include/kfr/simd/min_max.hpp", "include/kfr/simd/clamp.hpp", "include/kfr/simd/round.hpp", "include/kfr/simd/saturation.hpp", "include/kfr/simd/impl/"],
     [("per-ISA intrinsics and emulations", "include/kfr/simd/impl")], [], ["lanes of result vectors"])

prop("C20", "Elementary functions are accurate over their whole domain",
     "The vectorised elementary functions (sin, cos, tan, asin, acos, atan, atan2, exp, exp2, exp10, log, log2, log10, pow, root, sqrt, cbrt, sinh, cosh, tanh, coth, gamma, sinc, fast variants, degree variants, dB and note conversions) return a value within a small documented-size error of the exact one for every finite argument in their domain. "
     "The result for a lane does not depend on the vector width or on the neighbouring lanes.",
     [I], "dense and random arguments over the whole domain, special points, both precisions, all widths and instruction sets",
     "tests sample ranges with a coarse step on one instruction set",
     ["include/kfr/math/", "include/kfr/math/impl/", "include/kfr/dsp/units.hpp"], [("range reduction and polynomials", "include/kfr/math/impl")], [], ["lanes of result vectors against long double references"])

prop("C21", "Expressions give the same values however they are evaluated",
     "Every expression built from the library's expression functions yields at index i the value its definition gives for i, independently of the vector width used, of the start and size of the evaluated range and of the block it falls in; assigning it to a container writes exactly the elements of the range and nothing else. "
     "Evaluating lazily in pieces is the same as evaluating at once.",
     [PR, I, H], "all expression functions and nestings, vector widths 1..64, all (start, size) ranges, element types",
     "tests evaluate whole expressions from index 0 with the default vector width",
     ["include/kfr/base/basic_expressions.hpp", "include/kfr/base/expression.hpp", "include/kfr/base/simd_expressions.hpp", "include/kfr/base/math_expressions.hpp"],
     [("get_elements / set_elements per width, process() main loop and tail", "include/kfr/base/expression.hpp")], [], ["elements written by process() and get_elements"])

prop("C22", "Tensor views address the elements their slices name",
     "For every shape, layout and chain of slicing, range, integer and step selections (negative ones included), transposition, reshaping and flattening, reading or writing a tensor view accesses exactly the elements of the original that plain index arithmetic names, and keeps the shared storage alive exactly as long as some view uses it. "
     "Copies share or duplicate storage as documented, whichever order views are created, copied, moved and destroyed in.",
     [PR, H, I], "random shapes of 1..5 dimensions and random chains of view operations",
     "tests check selected slices of small matrices",
     ["include/kfr/base/tensor.hpp", "include/kfr/base/shape.hpp"],
     [("strides, offsets and finalizer of tensor", "include/kfr/base/tensor.hpp")], [("m_strides, m_shape, m_finalizer", "view geometry and ownership", "tensor")], ["element values and addresses, finalizer invocations"])

prop("C23", "Shapes broadcast and convert indices consistently",
     "For all shapes, flattening an index and unflattening it again are mutually inverse bijections, two shapes combine exactly when every extent is equal, one or infinite with the element-wise result, and an expression over operands of different shapes takes in each dimension the operand's only element or the corresponding one.",
     [I, PR], "all combinations of shapes up to 4 dimensions with extents 0..5 and infinite",
     "tests check a dozen fixed shapes",
     ["include/kfr/base/shape.hpp", "include/kfr/base/expression.hpp"], [("common_shape, internal_shapes_match, to_flat/from_flat", "include/kfr/base/shape.hpp")], [], ["shape functions; values of multi-dimensional expressions"])

prop("C24", "Reductions equal their sequential definitions",
     "Sum, product, mean, minimum, maximum, minimum and maximum magnitude, dot product, sum of squares, root mean square, horizontal vector reductions and histograms of any expression of any length and element type equal the sequential definition: exactly for integers and selections, within rounding for floating point. "
     "Every element is counted exactly once whatever the length and vector width.",
     [I], "all lengths 1..1000 and types, all reductions, multi-dimensional inputs",
     "tests reduce one or two short arrays",
     ["include/kfr/base/reduce.hpp", "include/kfr/simd/horizontal.hpp"], [("vector accumulator, tail and horizontal step", "include/kfr/base/reduce.hpp")], [], ["reduction results"])

prop("C25", "Sample format conversion, interleaving and dithering keep the samples",
     "Converting samples between integer and floating formats maps full scale to full scale with correct rounding and saturates instead of wrapping, for every value; integer to float to integer is the identity where the float format can represent it. "
     "Interleaving followed by deinterleaving returns the channels unchanged for any number of channels and frames.",
     [I], "all sample type pairs, exhaustive 8/16-bit values, boundary and random others, 1..16 channels, all lengths",
     "tests convert a few constants",
     ["include/kfr/base/conversion.hpp"], [("convert_sample, interleave, deinterleave", "include/kfr/base/conversion.hpp")], [], ["converted buffers"])

prop("C26", "Matrix transposition is exact for every shape, in place and out of place",
     "Transposing a matrix or a multidimensional array of any shape and element type, in place or into another buffer, moves every element to the position with reversed indices, loses or duplicates none, and touches nothing outside the two buffers.",
     [I], "all row and column counts up to 200 plus large ones, 3-5 dimensions, element sizes 1..16 bytes",
     "tests check selected small shapes",
     ["include/kfr/base/transpose.hpp"], [("square blocks, cycle following, block swaps", "include/kfr/base/transpose.hpp")], [("visited bitmap", "cycles already moved", "matrix_cycles")], ["output buffer"])

prop("C27", "NPY files round-trip and malformed ones are rejected",
     "Writing any tensor to the NumPy format and reading it back gives the same type, shape and elements, and the written bytes are a valid NumPy file for every shape and element type. "
     "Decoding arbitrary or truncated bytes terminates, reports an error unless the file is complete and consistent with the requested type and shape, and never reads or writes outside its buffers or returns uninitialised elements.",
     [I, F], "all element types and shapes; mutated, truncated and random byte strings",
     "tests decode three stored files",
     ["include/kfr/base/npy.hpp"], [("header parser and reader", "include/kfr/base/npy.hpp")], [], ["npy_decode_result and decoded tensor"])

prop("C28", "Audio files round-trip through writer and reader",
     "For every number of channels, sample format, sample rate and length, writing samples with the audio writer in calls of any sizes and reading them back in calls of any sizes returns the same samples to within the quantisation of the file's format, the same format description and the same length, and seeking to a position continues from exactly that frame.",
     [I, H], "WAV/W64 in all sample formats, FLAC reading, 1..8 channels, chunked writes and reads, seeks",
     "tests write and read one stereo file",
     ["include/kfr/io/audiofile.hpp", "src/io/audiofile-impl.cpp", "include/kfr/io/file.hpp"],
     [("audio_writer_wav, audio_reader_wav/flac/mp3", "src/io/audiofile-impl.cpp")], [("position, header sizes", "read/write cursor", "")], ["samples read back; bytes of the file"])

prop("C29", "Random generators are reproducible, in range and well distributed",
     "A random generator with a given seed yields the same sequence on every run and for every instruction set, uniform values always lie in the half-open range asked for and reach all of it, normal values have the requested mean and deviation, and consecutive outputs are uncorrelated; the shared-state form advances the caller's generator.",
     [I, H], "all types and widths, many seeds, ranges including negative, tiny and huge ones",
     "tests compare a few outputs with stored values",
     ["include/kfr/base/random.hpp", "include/kfr/base/random_bits.hpp"], [("random_next and mantissa mapping", "include/kfr/base/random_bits.hpp")], [("random_state", "generator state", "")], ["generated values"])

prop("C30", "Aligned memory management neither leaks nor overlaps nor misaligns",
     "Every block obtained from the aligned allocator, for any size and power-of-two alignment, is aligned as asked, does not overlap any live block, keeps its contents until released or reallocated, preserves them across reallocation up to the smaller size, and is released exactly when its last owner goes, also when owners live on different threads.",
     [H, S], "all sequences of allocate, add-reference, reallocate and release by one or several threads",
     "tests allocate through containers only, in one thread",
     ["include/kfr/cometa/memory.hpp", "include/kfr/base/memory.hpp"], [("header before the block with offset, size and atomic reference count", "include/kfr/cometa/memory.hpp")],
     [("mem_header", "offset, alignment, refcount, size", "include/kfr/cometa/memory.hpp")], ["pointers, contents, ASan/TSan reports, leak check"])

prop("C31", "No public operation accesses memory outside its buffers",
     "For every size, including zero, one, sizes just below and above a vector width and odd sizes, every public processing entry point given buffers of exactly the documented sizes accesses nothing beyond them, uses no uninitialised or freed memory, leaks nothing and executes no undefined arithmetic.",
     [I, H], "all entry points x all sizes 0..~200 and around powers of two",
     "the test suite is built without sanitizers and rounds its buffers up",
     ["include/kfr/", "src/"], [("tail handling in vector loops", "include/kfr/base/expression.hpp process, include/kfr/simd/read_write.hpp")], [], ["AddressSanitizer, UBSan and LeakSanitizer reports"])

prop("C32", "The C API behaves as the C++ API it wraps",
     "Every function of the C interface gives the same result as the corresponding C++ object for the same arguments, reports sizes that are sufficient for its buffers, accepts the null arguments its header allows, never lets an exception escape, and releases everything it creates.",
     [I, H], "all C functions, sizes, filter kinds, chunkings and lifecycles",
     "the single C test calls a few functions once",
     ["include/kfr/capi.h", "src/capi/capi.cpp"], [("extern C wrappers with exception barrier", "src/capi/capi.cpp")], [], ["outputs of both APIs, leak check"])

prop("C33", "Ring buffers and the lock-free queue keep every element in order",
     "Reading from a ring buffer returns what was written at the corresponding positions for every buffer size, cursor, transfer size and wrap-around. "
     "The lock-free single-producer single-consumer queue delivers under every schedule each enqueued element exactly once, in order, untorn, and reports exactly how many were transferred.",
     [S, H], "all sizes and cursors; all interleavings of one producer and one consumer",
     "tests run the queue in one thread and one ring buffer size",
     ["include/kfr/base/univector.hpp"], [("ringbuf_read/ringbuf_write/ringbuf_step", "include/kfr/base/univector.hpp"), ("head/tail with fences", "include/kfr/base/univector.hpp lockfree_ring_buffer")],
     [("head, tail", "next write and read index", "lockfree_ring_buffer")], ["recorded enqueue/dequeue histories"])

prop("C34", "Vector sort orders every input",
     "Sorting a vector in ascending or descending order, of any element type and any supported width, returns a monotonically ordered permutation of the input.",
     [I], "all widths 1..64, element types, random, sorted, reversed and constant inputs; exhaustive 0-1 inputs for small widths",
     "tests sort a few random vectors",
     ["include/kfr/simd/sort.hpp"], [("bitonic and odd-even sorting networks", "include/kfr/simd/sort.hpp")], [], ["sorted lanes"])

prop("C35", "Small containers and fractions behave like their reference models",
     "Any sequence of operations on the small buffer, the inline vector, the univector (all storage variants) and the memory-mapped-free helper containers has the effect it has on the standard vector model, with no leak or invalid access; rational arithmetic yields the exact reduced result with a positive denominator.",
     [H, I], "random operation histories; all pairs of small fractions",
     "tests check single operations",
     ["include/kfr/base/small_buffer.hpp", "include/kfr/base/inline_vector.hpp", "include/kfr/base/fraction.hpp", "include/kfr/base/univector.hpp"],
     [("small-size storage switch", "include/kfr/base/small_buffer.hpp"), ("gcd normalisation", "include/kfr/base/fraction.hpp")], [("m_size, m_data", "element count and storage", "small_buffer")], ["container contents after every operation"])

prop("C36", "Biquad design functions give the documented filter",
     "Each biquad design function (low-pass, high-pass, band-pass, notch, peak, low-shelf, high-shelf, all-pass and the first-order ones) returns for all valid frequency, Q and gain parameters coefficients of a stable filter with the documented response: unity gain at the pass-band reference, the requested gain at the centre or shelf, zero at the stop frequency, and flat magnitude for the all-pass.",
     [I], "frequencies across (0, 0.5), Q from 0.05 to 100, gains -60..60 dB",
     "tests check coefficients for one parameter set",
     ["include/kfr/dsp/biquad_design.hpp"], [("closed-form coefficient formulas", "include/kfr/dsp/biquad_design.hpp")], [], ["biquad_section coefficients"])

prop("C37", "Oscillators, generators and the Goertzel algorithm follow their formulas",
     "Oscillator functions and phase-driven oscillator expressions, the linear, exponential and sinusoidal generators, jaehne signals, sweeps and dirac impulses equal their formulas at every index, however they are read, and the Goertzel expression returns the DFT coefficient of its input at the requested frequency for any length.",
     [I, H], "all phases including negative and large ones, all read patterns, all lengths and frequencies",
     "tests check a few samples",
     ["include/kfr/dsp/oscillators.hpp", "include/kfr/dsp/goertzel.hpp", "include/kfr/base/generators.hpp", "include/kfr/dsp/special.hpp"],
     [("phase wrap by fract, generator recurrences", "include/kfr/dsp/oscillators.hpp"), ("second-order recurrence", "include/kfr/dsp/goertzel.hpp")], [], ["generated samples"])

prop("C38", "Type-erased expressions and placeholders behave as the wrapped expression",
     "An expression handle yields for every index, vector width and axis the values, the shape and the pass notifications of the expression it wraps, whether it holds it by reference or by value; substituting a placeholder makes every later evaluation use the substituted expression, and copies of a handle keep the wrapped expression alive.",
     [PR, H], "random expressions wrapped, copied, moved, substituted and evaluated in pieces",
     "tests wrap two expressions",
     ["include/kfr/base/handle.hpp", "include/kfr/base/filter.hpp"], [("function table per expression type, shared ownership", "include/kfr/base/handle.hpp")], [("instance, resource", "wrapped object and its owner", "expression_handle")], ["values through the handle"])

prop("C39", "Text formatting shows the stored values",
     "Formatting numbers, complex numbers, vectors, shapes and tensors (views included) as text shows exactly the stored elements in order with the documented precision and layout, never truncates the last one, and numbers parsed back from the text equal the originals to the printed precision.",
     [I], "all element types, shapes, strides and value magnitudes",
     "tests print a few constants",
     ["include/kfr/io/tostring.hpp", "include/kfr/cometa/string.hpp", "include/kfr/base/tensor.hpp"], [("representation<> specialisations", "include/kfr/cometa/string.hpp")], [], ["strings returned by to_string/as_string"])

prop("C40", "Mixing, unit conversion, waveshaping and weighting helpers follow their formulas",
     "Mix-down and stereo matrix expressions output the stated linear combination of their channels, level and pitch unit conversions are mutually inverse and equal their formulas, interpolation helpers hit their end points, waveshapers are odd, bounded and continuous where documented, and the A/B/C weightings match the standard's curves at every frequency.",
     [I], "all arguments across the domain, both precisions",
     "tests check isolated values",
     ["include/kfr/dsp/mixdown.hpp", "include/kfr/dsp/units.hpp", "include/kfr/dsp/waveshaper.hpp", "include/kfr/dsp/weighting.hpp", "include/kfr/math/interpolation.hpp"], [("closed formulas", "include/kfr/dsp")], [], ["returned values"])

prop("C41", "Malformed audio files cannot corrupt memory or hang the reader",
     "Opening and reading arbitrary, truncated or mutated bytes as WAV, FLAC or MP3 terminates, delivers no more samples than were decoded, and never accesses memory outside the reader's buffers or releases it twice.",
     [F, I], "mutations and truncations of valid files, random bytes, short reads",
     "tests read no malformed file",
     ["src/io/audiofile-impl.cpp", "include/kfr/io/audiofile.hpp"], [("reader constructors and read()", "src/io/audiofile-impl.cpp")], [], ["AddressSanitizer reports, returned sample counts"])

prop("C42", "Binary file readers and writers transfer exactly the given elements",
     "Writing elements through a sequential or file writer and reading them back in calls of any sizes yields the same elements in the same order, read calls return the number of elements really transferred at the end of the data, and seeking and telling agree with the number of elements passed.",
     [H, F], "all chunkings of writes and reads, seeks of all origins, element sizes 1..8 and complex",
     "tests do not exercise the file classes directly",
     ["include/kfr/io/file.hpp"], [("file_reader, file_writer, abstract_reader/writer", "include/kfr/io/file.hpp")], [], ["bytes in the file, elements read"])

prop("C43", "Complex arithmetic matches its definition in every form",
     "Arithmetic, conjugation, magnitude, argument, polar conversion and elementary functions of complex vectors give in every lane the value of the complex definition, for all quadrants and widths, both precisions and every instruction set, and the real and imaginary parts, interleaved views and packing functions are mutually inverse.",
     [I, C], "all quadrants, magnitudes and widths",
     "tests check a few points",
     ["include/kfr/simd/complex.hpp", "include/kfr/simd/complex_type.hpp", "include/kfr/math/complex_math.hpp"], [("cmul, cdiv, interleaved shuffles", "include/kfr/simd/complex.hpp")], [], ["lanes of complex vectors"])

with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
