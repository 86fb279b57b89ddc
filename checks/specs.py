"""The registered checks."""
from driver import Bin, Run, Check

import os

CHECKS = {}
THOROUGH = os.environ.get("VERIF_TIER") == "thorough"


def add(*a, **k):
    c = Check(*a, **k)
    CHECKS[c.id] = c


TRUST = "trusted: clang and its sanitizer runtimes, glibc long double mathematics, the monitor's reference code in /verif/src"


def dft_bins():
    return [Bin("dft-multi", ["dft_main.cpp"], libs=("dft",), arch="multi", opt="-O1"),
            Bin("dft-asan", ["dft_main.cpp"], libs=("dft",), arch="avx2", san="asan", lib_san="aonly", opt="-O1")]


for _id, _mode, _rule in (
        ("C01", "c2c", "every size 1..1100 (thorough 2100) with all bins compared with a long double O(N^2) reference, large sizes with "
                       "random bins and with impulse inputs whose every bin has a closed form; each under every ISA, both precisions, "
                       "both directions, in and out of place, with and without scratch"),
        ("C02", "real", "every even size 2..2200 and larger ones; both packing formats, both directions, in and out of place, every ISA"),
        ("C04", "dct", "every size 1..700 and larger ones against O(N^2) DCT-II and DCT-III sums; in and out of place, with and without "
                       "scratch, every ISA")):
    add(_id, dft_bins(),
        [Run("dft-multi", ["--mode", _mode]), Run("dft-asan", ["--mode", _mode, "--light", "1"])],
        rule=_rule + "; a case is distinct by size, input pattern, ISA, precision and execution variant",
        technique="run-time monitor: value oracle over recorded executions, red zones and AddressSanitizer/UBSan",
        level_note="compares every observed output with the definition; covers the sizes run, not all sizes; " + TRUST,
        assumptions=["inputs are finite and of magnitude about 1"], min_evals=5000)

add("C03", [Bin("dftmd-multi", ["dftmd_main.cpp"], libs=("dft",), arch="multi", opt="-O1"),
            Bin("dftmd-asan", ["dftmd_main.cpp"], libs=("dft",), arch="avx2", san="asan", lib_san="aonly", opt="-O1")],
    [Run("dftmd-multi", []), Run("dftmd-asan", ["--light", "1"])],
    rule="every shape up to 12, 12x12 and 6x6x6, and random shapes of 1 to 5 (one of 9) dimensions with up to 300 000 elements; a case is "
         "distinct by shape, ISA, precision, direction, placement and form of the plan",
    technique="run-time monitor: value oracle over recorded executions, red zones and AddressSanitizer/UBSan",
    level_note="compares every output element with the transform along each axis in long double; covers the shapes run; " + TRUST,
    assumptions=["inputs are finite and of magnitude about 1", "the last extent of a real transform is even"], min_evals=5000)

add("C05", [Bin("dftthr-tsan", ["dft_threads.cpp"], libs=("dft",), arch="avx2", san="tsan", opt="-O1"),
            Bin("dftthr-multi", ["dft_threads.cpp"], libs=("dft",), arch="multi", opt="-O1")],
    [Run("dftthr-tsan", [], shards=4), Run("dftthr-multi", [], shards=4)],
    rule="one plan of every kind and many sizes executed by four threads at once with own data, plan cache hammered by four threads with "
         "mixed requests, convolution through the cache, plans created in parallel; one evaluation is one concurrent execution, a case is "
         "distinct by kind, size and precision",
    technique="ThreadSanitizer on the real library plus bit-exact comparison of concurrent with lone executions",
    level_note="ThreadSanitizer reports any unsynchronised pair of accesses in the observed executions whatever the schedule; executions not "
               "driven are not judged; " + TRUST, min_evals=3000)

add("C06", [Bin("isa-multi", ["isa_main.cpp"], libs=("dft", "dsp"), arch="multi", opt="-O1", link=["-rdynamic"],
                lib_flags=["-finstrument-functions-after-inlining"])],
    [Run("isa-multi", [])],
    rule="random calls of every dispatched operation (complex, real, multidimensional DFT, DCT, convolution, correlation, block "
         "convolution, FIR, IIR, resampler, both precisions) repeated under every variant; emulated processors made by trapping CPUID; a "
         "case is distinct by call parameters and variant, or by the feature bits removed",
    technique="differential run-time monitor across variants, function-entry trace of the variants executed, CPUID fault injection",
    level_note="judges the calls made and the processors emulated; XCR0 cannot be emulated; " + TRUST,
    assumptions=["the AVX2 and AVX512 variants need FMA, as the build scripts compile them with -mfma"], min_evals=3000)

add("C07", [Bin("conv-asan", ["conv_main.cpp"], libs=("dft",), arch="avx2", san="asan", lib_san="aonly"),
            Bin("conv-sse", ["conv_main.cpp"], libs=("dft",), arch="sse41")],
    [Run("conv-asan"), Run("conv-sse")],
    rule="every pair of lengths up to 12 and random ones up to 3000, all four element types; block filters with random partition sizes, "
         "impulse responses of up to five partitions, random splits into calls (empty and single-sample calls included), in place, as "
         "expression, after reset and after a change of the impulse response; a case is distinct by operation, type, lengths, signal, split",
    technique="run-time monitor: value oracle (direct sum in long double) over recorded streams, red zones and AddressSanitizer/UBSan",
    level_note="compares every output sample with the direct sum; covers the lengths and splits run; " + TRUST,
    assumptions=["lengths are at least 1", "complex correlation may be defined with or without conjugation, but consistently"],
    min_evals=3000)

def parts(name, src, count, libs, only=None, **k):
    """Binaries of one source compiled in parts."""
    return [Bin("%s-%d" % (name, i), [(src, ["-DPART=%d" % i])], libs=libs, **k) for i in (only if only is not None and not THOROUGH else range(count))]


def runs_of(bins, args=(), shards=4):
    return [Run(b.name, args, shards=shards) for b in bins]


_b = (parts("fir-asan", "fir_main.cpp", 3, ("dsp",), arch="avx2", san="asan") + parts("fir-sse", "fir_main.cpp", 3, ("dsp",), arch="sse2"))
add("C08", _b, runs_of(_b),
    rule="tap counts 1 to 48 and random ones up to 600, all six type combinations; short FIR with 2 to 33 taps; moving sums of 1 to 500 "
         "samples; each as filter object, as expression read in pieces of any width, with external state across random calls, in place; a "
         "case is distinct by form, types, taps, length, signal and split",
    technique="run-time monitor: value oracle (defining sum) over recorded streams, red zones and AddressSanitizer/UBSan",
    level_note="compares every output sample with the defining sum; covers the lengths and splits run; " + TRUST,
    assumptions=["a filter has at least one tap"], min_evals=5000)

_b = (parts("delay-asan", "delay_main.cpp", 2, (), arch="avx2", san="asan") + parts("delay-sse", "delay_main.cpp", 2, (), arch="sse2"))
add("C13", _b, runs_of(_b),
    rule="delays of 1 to 100 samples, real, complex and integer streams of random lengths, read at once, in pieces of any width, with "
         "external fixed and dynamic state across random calls, in place and nested; fractional delays; distinct by form, delay, length, split",
    technique="run-time monitor: exact value oracle over recorded streams, red zones and AddressSanitizer/UBSan",
    level_note="compares every output sample exactly (fractional: within rounding); covers the delays and splits run; " + TRUST,
    min_evals=3000)

_b = (parts("iir-asan", "iir_main.cpp", 2, ("dsp",), arch="avx2", san="asan") + parts("iir-sse", "iir_main.cpp", 2, ("dsp",), arch="sse2"))
add("C09", _b, runs_of(_b),
    rule="1 to 64 sections (stable, first-order, FIR, identity and unstable ones), random lengths including those below the number of "
         "sections, random splits into calls, in place, from expressions, nested, parts of a stream, external state, variant with latency, "
         "DC removal; distinct by form, sections, length, kind, signal, split",
    technique="run-time monitor: value oracle (difference equations in long double) over recorded streams, red zones and AddressSanitizer/UBSan",
    level_note="compares every output sample with the difference equations; the tolerance follows the rounding sensitivity of the cascade; " + TRUST,
    assumptions=["sections are normalised: a0 = 1", "at most 64 sections, the documented maximum"], min_evals=3000)

add("C12", [Bin("reset-asan", ["reset_main.cpp"], libs=("dft", "dsp"), arch="avx2", san="asan", lib_san="aonly"),
            Bin("reset-sse", ["reset_main.cpp"], libs=("dft", "dsp"), arch="sse41")],
    [Run("reset-asan"), Run("reset-sse")],
    rule="random histories (with NaN, infinities and huge values), one to three resets, then a random stream in random calls, through FIR "
         "filters of all type combinations, IIR filters, block convolution filters and filters made of expressions; distinct by filter, "
         "history and reset",
    technique="differential run-time monitor: bit-exact comparison of a reset filter with a new one on recorded streams, AddressSanitizer/UBSan",
    level_note="compares every output sample after every reset; covers the histories run; " + TRUST, min_evals=2000)

add("C10", [Bin("src-asan", ["src_main.cpp"], libs=("dsp",), arch="avx2", san="asan", lib_san="aonly"),
            Bin("src-sse", ["src_main.cpp"], libs=("dsp",), arch="sse2")],
    [Run("src-asan"), Run("src-sse")],
    rule="22 fixed and 150 random pairs of rates up to 96000:44100, qualities draft to perfect, all four types; pull, push, pull from a longer "
         "buffer with skips, seven ways of splitting; tones in the pass band and in the stop band; distinct by ratio, quality, type, split",
    technique="run-time monitor: position model of consumed and produced samples, stream comparison across chunkings, tone oracle, AddressSanitizer/UBSan",
    level_note="judges every call's bookkeeping and every output sample of the streams run; " + TRUST,
    assumptions=["the stop band begins half a Kaiser transition width of the real filter length above the cut-off"], min_evals=3000)

add("C11", [Bin("iirdes-asan", ["iirdesign_main.cpp"], libs=("dsp",), arch="avx2", san="asan", lib_san="aonly"),
            Bin("iirdes-sse", ["iirdesign_main.cpp"], libs=("dsp",), arch="sse2")],
    [Run("iirdes-asan"), Run("iirdes-sse")],
    rule="four families, four types, orders 1 to 24, random cut-offs, ripples and sampling rates (quick: four of each), 40 frequencies each; "
         "distinct by family, type, order, precision, variant",
    technique="run-time monitor: closed-form response oracle and stability test on every designed section, AddressSanitizer/UBSan",
    level_note="compares the magnitude at 40 frequencies per design with the analytic prototype; points where rounding of a coefficient alone "
               "moves the response by 20% are not judged and counted; " + TRUST,
    assumptions=["orders up to 24 (the tables' end) and cut-offs between 0.2% and 98% of the Nyquist frequency"], min_evals=1000)

add("C36", [Bin("biquad-asan", ["biquad_main.cpp"], arch="avx2", san="asan")],
    [Run("biquad-asan")],
    rule="eight design functions, random frequencies (log-spaced, uniform, near Nyquist), Q from 0.05 to 100, gains within 60 dB, both "
         "precisions; 12 frequencies each; distinct by function, precision and variant",
    technique="run-time monitor: closed-form complex response oracle and stability test on every designed section, AddressSanitizer/UBSan",
    level_note="compares the complex response with the bilinear image of the analogue prototype; covers the parameters run; " + TRUST,
    min_evals=20000)

add("C14", [Bin("ebu-asan", ["ebu_main.cpp"], libs=("dsp",), arch="avx2", san="asan", lib_san="aonly")],
    [Run("ebu-asan")],
    rule="six channel layouts, six sampling rates, packet factors 1 to 6, random programmes of noise, tones, clicks and silence around the "
         "gates with stops, starts and resets; all five values read along the way; K filter at 40 frequencies and six rates; distinct by "
         "rate, layout, factor, programme and packet",
    technique="run-time monitor: model of BS.1770 / Tech 3342 in long double run beside the analyser, AddressSanitizer/UBSan",
    level_note="compares every value read with the model to 0.03 LU; readings with a block within 0.06 LU of a gate are not judged and counted; " + TRUST,
    assumptions=["the time before the start of the programme counts as silence, as the analyser's windows start filled with zeros"],
    min_evals=1500)

_b = parts("window-asan", "window_main.cpp", 2, (), arch="avx2", san="asan")
_b2 = parts("window-sse2", "window_main.cpp", 2, (), arch="sse2")
add("C15", _b + _b2, runs_of(_b) + runs_of(_b2),
    rule="17 window types x symmetric / periodic x every length from 2 to 70 and random ones up to 20000 x parameters across their range, both "
         "precisions; read whole, in pieces of any width from any index, selected at run time, sliced and by the named function; distinct by "
         "type, precision, length and parameter",
    technique="run-time monitor: defining formula in long double checked on every window value read, AddressSanitizer/UBSan and an SSE2 build",
    level_note="compares every value with the formula to a few ulp of the largest value, scaled by the slope of the window; " + TRUST,
    min_evals=100000)

_b = [Bin("firdes-asan", ["firdes_main.cpp"], libs=(), arch="avx2", san="asan"), Bin("firdes-sse2", ["firdes_main.cpp"], libs=(), arch="sse2")]
add("C16", _b, runs_of(_b),
    rule="four responses, every tap count from 1 to 66 and random ones to 4000, eight windows (library, random data, periodic, without unit "
         "centre), random and extreme cut-offs, normalised and not, both precisions; distinct by response, taps, precision, window and flag",
    technique="run-time monitor: defining windowed sinc in long double checked on every tap, symmetry and zero-frequency gain, AddressSanitizer/UBSan",
    level_note="compares every tap with the definition within a rounding bound; " + TRUST,
    assumptions=["normalised designs whose divisor vanishes (high-pass and band-stop with an even number of taps have no centre tap to invert) are counted, not judged"],
    min_evals=100000)

_allw = ["-DVK_ALLW=1"] if THOROUGH else []
_b = (parts("simd-sse2", "simd_main.cpp", 6, (), arch="sse2", defs=_allw) + parts("simd-avx512", "simd_main.cpp", 6, (), arch="avx512", defs=_allw) +
      parts("simd-gcc", "simd_main.cpp", 6, (), arch="avx2", cxx="g++") +
      parts("simd-avx", "simd_main.cpp", 6, (), arch="avx", defs=["-DVK_MASKS=1"]))
add("C17", _b, runs_of(_b, shards=1),
    rule="every operator, comparison, mask, select, cast, shift, rotation, element access, load, store, gather, scatter and partial mask x ten "
         "element types x widths 1 to 64 (odd ones included) on edge and random values; clang with SSE2 and AVX512 (masks also with AVX) and "
         "the generic backend with g++; distinct by operation, type, width and operands",
    technique="run-time monitor: scalar oracle compared bit by bit with every lane, red zones around every buffer, three backends",
    level_note="compares every lane with the C++ operation on the lane's elements; covers the values run (8-bit types come close to all pairs only in the thorough tier); " + TRUST,
    assumptions=["shift counts are below the width, divisors are not zero, conversions are in range", "the AVX512 build runs only on processors with AVX512"],
    min_evals=1000000)

_b = (parts("shuf-sse2", "shuffle_main.cpp", 8, (), only=(0, 2, 3, 5), arch="sse2", defs=_allw) +
      parts("shuf-avx512", "shuffle_main.cpp", 8, (), only=(1, 3, 4, 6), arch="avx512", defs=_allw) +
      parts("shuf-gcc", "shuffle_main.cpp", 8, (), only=(1, 3, 4, 5, 7), arch="avx2", cxx="g++"))
add("C18", _b, runs_of(_b, shards=1),
    rule="every shuffle of shuffle.hpp and digitreverse.hpp x element types (8- to 64-bit integers, floats, complex, vectors of vectors) x "
         "widths 1 to 16 (32 for bytes; odd widths included), and 60 pseudo-random index maps per width and type (local to halves and "
         "quarters, crossing, xor, with undefined lanes; one and two operands); clang with SSE2 and AVX512, generic backend with g++; a case "
         "is distinct by operation, width, element size and operands",
    technique="run-time monitor: index-map oracle compared byte by byte with every lane on random bit patterns, red zones, three backends",
    level_note="compares the bytes of every lane with the element the definition names; covers the widths, groups and index maps instantiated; " + TRUST,
    assumptions=["reverse of a vector of vectors reverses every inner vector, as the repository's tests specify",
                 "rotatetwo<k>(lo, hi) is the last k elements of hi followed by the first of lo"], min_evals=100000)

_b = []
for _a in ("sse2", "sse41", "avx", "avx512"):
    _b += parts("round-" + _a, "round_main.cpp", 6, (), arch=_a)
_b += parts("round-gcc", "round_main.cpp", 6, (), arch="avx2", cxx="g++")
add("C19", _b, runs_of(_b, shards=2),
    rule="min, max, absmin, absmax, abs, clamp, floor, ceil, trunc, round, fract and the integer-returning forms, satadd and satsub x ten "
         "element types x widths 1 to 64 and scalars; all pairs of 8-bit operands, all values of 8- and 16-bit types, a strided walk over all "
         "f32 bit patterns (thorough: every pattern), values beside integers and halves of every magnitude; SSE2, SSE4.1, AVX, AVX512 and the "
         "generic backend with g++; distinct by operation, type, width and operands",
    technique="run-time monitor: exact scalar oracle compared with every lane, red zones, five backends",
    level_note="compares every lane exactly; covers the values run (8-bit binary and 16-bit unary operations completely); " + TRUST,
    assumptions=["zeros of either sign are equal", "min, max and clamp of NaN may return any of the operands", "abs of the lowest integer wraps",
                 "ties of round go to even", "integer-returning forms are judged where the result is representable"], min_evals=1000000)

_b = []
for _a in ("sse2", "avx", "avx512"):
    _b += parts("sort-" + _a, "sort_main.cpp", 6, (), arch=_a)
_b += parts("sort-gcc", "sort_main.cpp", 6, (), arch="avx2", cxx="g++", only=(0, 2, 3, 4))
add("C34", _b, runs_of(_b, shards=1),
    rule="sort and sortdesc x ten element types x widths 4, 8, 16, 32, 64: every 0-1 input up to width 16 (thorough 20; a comparator network "
         "that sorts those sorts everything), runs of ones and random 0-1 inputs above, permutations, rotations, duplicates, extreme values and "
         "infinities; SSE2, AVX, AVX512 and the generic backend with g++; distinct by type, width and input",
    technique="run-time monitor: output compared with the sorted multiset of the input, red zones, four backends",
    level_note="complete for widths up to 16 as far as the operation is a comparator network, sampled above; " + TRUST,
    assumptions=["widths 4 to 64: 2 does not compile", "zeros of either sign are equal", "NaN is not ordered and not given"], min_evals=1000000)

_b = []
for _a, _o in (("sse2", (0, 3, 4)), ("avx", (1, 2, 5)), ("avx512", (0, 2, 3, 5))):
    _b += parts("reduce-" + _a, "reduce_main.cpp", 6, (), arch=_a, only=_o)
_b += parts("reduce-gcc", "reduce_main.cpp", 6, (), arch="avx2", cxx="g++", only=(1, 4, 5))
add("C24", _b, runs_of(_b, shards=1),
    rule="sum, mean, minof, maxof, absminof, absmaxof, dotproduct, rms, sumsqr, product x ten element types (and complex) x lengths 0 to 150 "
         "(thorough 700) and random ones to 5200 x unaligned view, univector, computed expression, slice, 2D and 3D tensors and windows of "
         "tensors; hadd, hsum, hmul, hproduct, hmin, hmax, havg, hrms, hdot, hbitwise* at 13 widths; histograms with 1 to 120 bins given at run "
         "and compile time, in the flow and one by one; SSE2, AVX, AVX512 and the generic backend with g++; distinct by operation and data",
    technique="run-time monitor: sequential definition in wide arithmetic, exact for integers and selections, error bound for floats; conservation of counts in histograms",
    level_note="the lengths, shapes and values run; " + TRUST,
    assumptions=["signed sums and products stay representable", "integer means have a count representable in the type",
                 "selections are given no NaN and not the lowest signed integer where magnitudes are taken",
                 "a value within rounding of a bin boundary may fall on either side; NaN may be counted in any bin"], min_evals=1000000)

_b = []
for _a, _o in (("sse2", (0, 1, 2, 3)), ("avx512", (0, 1, 2, 3)), ("avx", (1, 2))):
    _b += parts("elem-" + _a, "elem_main.cpp", 4, (), arch=_a, only=_o)
_b += parts("elem-gcc", "elem_main.cpp", 4, (), arch="avx2", cxx="g++", only=(0, 3))
add("C20", _b, runs_of(_b, shards=2),
    rule="43 elementary functions (trigonometric, inverse, degree and fast variants, exponentials, logarithms, powers, roots, hyperbolic, gamma, "
         "sinc, dB and note conversions) x f32, f64 x scalar and vectors of 2, 3, 4 and 8; arguments uniform, of every magnitude (random bit patterns), at "
         "grid points and their neighbours and at the ends of the domain; neighbouring lanes replaced by NaN, infinities and extremes; SSE2, AVX, "
         "AVX512 and the generic backend with g++; distinct by function and arguments",
    technique="run-time monitor: 80-bit reference, error bound per function about 1.5 times the observed; lane results compared across widths (within the bound) and, bit for bit, with other neighbours",
    level_note="the arguments run; bounds are calibrated on this tree; " + TRUST,
    assumptions=["sin, cos and tan up to 6000 (f32) and 1e8 (f64), the range of the argument reduction; beyond are listed findings", "sinh and cosh where exp does not overflow; beyond is a listed finding",
                 "sinh, tanh and degree variants near zero: absolute error", "gamma on (0.01, 20) in f32 and (0.01, 100) in f64", "pow(0, y), atan2(0, -0) and functions of NaN are not judged"],
    min_evals=1000000)

_b = []
for _a, _o in (("sse2", (0, 1, 2, 3, 4, 5)), ("avx512", (0, 3, 4, 5)), ("avx", (1, 2))):
    _b += parts("expr-" + _a, "expr_main.cpp", 6, (), arch=_a, only=_o)
_b += parts("expr-gcc", "expr_main.cpp", 6, (), arch="avx2", cxx="g++", only=(0, 2))
_b += parts("expr-asan", "expr_main.cpp", 6, (), arch="sse41", san="asan", only=(4,))
add("C21", _b, runs_of(_b, shards=2),
    rule="every expression factory (operators, functions, slice, shift, reverse, truncate, padded, concatenate, rebind, reshape, pack, unpack, counter, "
         "linspace, lambda, symmlinspace, sequence, ramps, fixed and iterator containers ...) and random nestings, f32/f64/i16/i32/complex, 1 to 6 dimensions, "
         "over operands that check each index they are asked for: read with handles of width 1 to 64 from any start, in pieces, assigned whole, by "
         "ranges starting and ending anywhere and along every axis into outputs that record each write; distinct by expression, shape, range and operation",
    technique="run-time monitor: index-checking inputs and write-recording outputs compared with the element definition; each index of the range written exactly once",
    level_note="the programs, shapes and ranges run; " + TRUST,
    assumptions=["operands are finite", "a size-1 operand assigned to a longer output writes what the common shape says", "negative ranges and slices of containers used as outputs are not judged"],
    min_evals=100000)

_b = []
for _a, _o in (("sse2", (0, 1, 2)), ("avx512", (1, 2))):
    _b += parts("tensor-" + _a, "tensor_main.cpp", 3, (), arch=_a, only=_o)
_b += parts("tensor-gcc", "tensor_main.cpp", 3, (), arch="avx2", cxx="g++", only=(0,))
_b += parts("tensor-asan", "tensor_main.cpp", 3, (), arch="sse41", san="asan", only=(1,))
add("C22", _b, runs_of(_b, shards=2),
    rule="random histories of 5 to 40 steps over tensors of 1 to 4 dimensions and i32, f64, complex elements on allocated storage, storage with strides, "
         "external storage with a finalizer and containers: slices with every mix of integers and ranges (negative starts, stops and steps, out of range, "
         "huge), repeats, windows, transpose, reshape, flatten, copies, moves, assignments (to itself too), element, fill, expression and in-place writes, "
         "map, reduce, binary, iteration, destruction in any order; distinct by the steps taken",
    technique="run-time monitor: after every step the address of every element of every view, the whole storage, allocation and release counts are compared with a model of plain index arithmetic; red zones and AddressSanitizer",
    level_note="the histories run; " + TRUST,
    assumptions=["elements are trivially copyable", "integer indices are in range", "sources and destinations of element copies do not overlap unless they coincide",
                 "tensors with zero dimensions are not judged", "a repeat (step 0) has a start in range and a stop not below it"],
    min_evals=100000)

_b = parts("shape", "shape_main.cpp", 2, (), arch="sse2")
_b += parts("shape-avx512", "shape_main.cpp", 2, (), arch="avx512", only=(1,))
_b += parts("shape-gcc", "shape_main.cpp", 2, (), arch="avx2", cxx="g++", only=(0, 1))
_b += parts("shape-ubsan", "shape_main.cpp", 2, (), arch="sse41", san="asan", only=(1,))
add("C23", _b, runs_of(_b, shards=2),
    rule="all shapes of up to 4 dimensions with extents 0 to 5 and infinite, all pairs of shapes up to 3 dimensions and of a 4- and a 1-dimensional one, all triples up to "
         "2 dimensions, random ones up to 6: index conversions over every index, increments, strides, arithmetic, broadcasting, layout, operand indices; functions of "
         "three operands of 1 to 6 dimensions assigned along either end axis, incompatible ones too; distinct by shapes",
    technique="run-time monitor: element-wise definitions; index-checking operands and write-recording outputs for expressions",
    level_note="exhaustive for the small shapes named, random beyond; " + TRUST,
    assumptions=["an empty extent combines with any other to an empty one; together with two incompatible extents either answer is accepted",
                 "ge and le are used with one dimension"],
    min_evals=1000000)

_b = parts("convert-sse2", "convert_main.cpp", 3, (), arch="sse2")
_b += parts("convert-avx512", "convert_main.cpp", 3, (), arch="avx512", only=(0, 2))
_b += parts("convert-gcc", "convert_main.cpp", 3, (), arch="avx2", cxx="g++", only=(1, 2))
_b += parts("convert-asan", "convert_main.cpp", 3, (), arch="sse41", san="aonly", only=(0, 1, 2))
add("C25", _b, runs_of(_b, shards=2),
    rule="49 pairs of the seven sample formats: every i8, i16 and i24 value there and back through every format that represents it, random, boundary, half-way, "
         "infinite and huge values; blocks of 0 to 700 samples at sample-aligned positions with the format known at compile time or given at run time; interleaving and "
         "deinterleaving of 1 to 16 channels by pointer and by vector, with conversion; distinct by data",
    technique="run-time monitor: exact scaling in 80-bit arithmetic, nearest value and saturation; identity there and back; red zones; AddressSanitizer",
    level_note="exhaustive for 8, 16 and 24 bits, random beyond; " + TRUST,
    assumptions=["NaN is not judged", "full scale of a signed format is its largest value; -128 and the like are clipped as documented by the scale constants",
                 "values beyond full scale are clipped also between floating formats", "the intermediate product is rounded once in its type"],
    min_evals=1000000)

_b = parts("trans-sse2", "trans_main.cpp", 5, (), arch="sse2")
_b += parts("trans-avx512", "trans_main.cpp", 5, (), arch="avx512", only=(0, 1, 3))
_b += parts("trans-gcc", "trans_main.cpp", 5, (), arch="avx2", cxx="g++", only=(1, 4))
_b += parts("trans-asan", "trans_main.cpp", 5, (), arch="avx", san="asan", only=(0, 2, 4))
add("C26", _b, runs_of(_b, shards=2),
    rule="every matrix with 0 to 66 rows and columns (to 140 in the thorough tier), random ones to 3000 columns and 70000 for the heap bitmap, random arrays of 1, 3, 4 and 5 "
         "dimensions with empty and unit extents; 17 element types of 1 to 40 bytes, random contents, in place and to another buffer; distinct by shape",
    technique="run-time monitor: every element compared with the one at the reversed index; guard zones around both buffers; sanitizers",
    level_note="exhaustive for the small shapes named, random beyond; " + TRUST,
    min_evals=100000)

_b = parts("gen-sse2", "gen_main.cpp", 3, (), arch="sse2")
_b += parts("gen-avx512", "gen_main.cpp", 3, (), arch="avx512", only=(0, 1))
_b += parts("gen-gcc", "gen_main.cpp", 3, (), arch="avx2", cxx="g++", only=(0, 2))
_b += parts("gen-asan", "gen_main.cpp", 3, (), arch="avx", san="asan", only=(1, 2))
add("C37", _b, runs_of(_b, shards=2),
    rule="linear, exponential, sine, cosine-sine and complex exponential generators with random starts and steps, read in pieces of random widths up to 32 and restarted; 14 "
         "oscillator functions as scalars, vectors and expressions over several periods and at their breakpoints; phasors; jaehne, swept and unit impulse signals of random "
         "lengths; Goertzel of one and of 1 to 16 frequencies for every length to 40 and random ones to 600; f32 and f64; distinct by parameters or input",
    technique="run-time monitor: formulas in long double at every index",
    level_note="random parameters; error bounds grow with the index as rounding of the recurrences does; " + TRUST,
    assumptions=["gen_cossin yields cos, sin pairs of consecutive angles", "the phase of goertzel is referred to the last sample",
                 "at a jump of a wave, either side is accepted if the phase itself is rounded"],
    min_evals=300000)

_b = parts("level-sse2", "level_main.cpp", 3, (), arch="sse2")
_b += parts("level-avx512", "level_main.cpp", 3, (), arch="avx512", only=(0, 1))
_b += parts("level-gcc", "level_main.cpp", 3, (), arch="avx2", cxx="g++", only=(1, 2))
_b += parts("level-asan", "level_main.cpp", 3, (), arch="avx", san="asan", only=(0, 2))
add("C40", _b, runs_of(_b, shards=2),
    rule="mixdown of 1 to 5 channels and stereo matrices over random lengths; level, power and pitch conversions, weightings and saturation as scalars, vectors and expressions "
         "over their ranges and at their special values, both ways; interpolation between random points and at the end points; waveshapers made from temporaries and read "
         "later; DC removal; f32 and f64; distinct by input",
    technique="run-time monitor: formulas in long double, inverse, odd and monotone properties; sanitizers for expressions that outlive their operands",
    level_note="random arguments; " + TRUST,
    assumptions=["weightings use 12200 Hz as upper pole frequency (older rounding of the standard)", "waveshaper_hardclip of float input does not compile"],
    min_evals=300000)

_b = [Bin("capi", ["capi_main.cpp"], ("dft", "dsp", "capi")), Bin("capi-asan", ["capi_main.cpp"], ("dft", "dsp", "capi"), arch="avx2", san="asan"), Bin("capi-avx512", ["capi_main.cpp"], ("dft", "dsp", "capi"), arch="avx512")]
add("C32", _b, runs_of(_b, shards=3),
    rule="complex, real and cosine transforms of sizes 1 to 70 (300 thorough) and 22 larger ones, of random shapes of 1 to 4 dimensions, both precisions, every instruction set: "
         "out of place, in place, without scratch; FIR, convolution and IIR filters in calls of random sizes, in place and reset; errors and their messages, null plans; "
         "random histories of allocation, reallocation and shared ownership, impossible sizes; distinct by size, shape or history",
    technique="run-time monitor: bits compared with the C++ objects; guard zones around buffers of the reported sizes; allocation counters; sanitizers",
    level_note="random histories; " + TRUST,
    assumptions=["sections of IIR filters are a0, a1, a2, b0, b1, b2 as in biquad_section"],
    min_evals=5000)

_b = [Bin("mem", ["mem_main.cpp"], arch="sse2"), Bin("mem-gcc", ["mem_main.cpp"], arch="avx2", cxx="g++"), Bin("mem-asan", ["mem_main.cpp"], arch="avx2", san="asan"),
      Bin("mem-tsan", ["mem_main.cpp"], arch="avx2", san="tsan")]
add("C30", _b, runs_of(_b[:3], shards=2) + [Run(b.name, ["--part", "threads"], tag=b.name + "-threads", shards=2) for b in _b],
    rule="random histories of allocation, reallocation, shared ownership and release with sizes 0 to 200000 and alignments 1 to 32768; 14 element types of 1 to 1024 bytes "
         "aligned to up to 512 through every owner type; temporaries around the stack limit, left by exceptions; sizes that can not exist; 2 to 8 threads that pass "
         "references on, write to shared blocks and release the last reference at the same moment; distinct by history",
    technique="run-time monitor: interval map, contents and allocation counters after every operation; ThreadSanitizer, AddressSanitizer and leak check under several owners per block",
    level_note="random histories and schedules; " + TRUST,
    assumptions=["call_with_temp of element types aligned to more than 64 bytes does not compile"],
    min_evals=100000)

_b = [Bin("ring", ["ring_main.cpp"], arch="sse2", opt="-O2"), Bin("ring-gcc", ["ring_main.cpp"], arch="avx2", cxx="g++", opt="-O2"),
      Bin("ring-asan", ["ring_main.cpp"], arch="avx2", san="asan"), Bin("ring-tsan", ["ring_main.cpp"], arch="avx2", san="tsan", defs=["-DVK_SHIM=1"])]
add("C33", _b, runs_of(_b[:3], shards=2) + [Run(b.name, ["--part", "threads"], tag=b.name + "-threads", shards=3) for b in _b],
    rule="rings of 1 to 300 elements in every storage, random cursors, transfers of 0 to three times the size by pointer, vector and element; queues of 0 to 200 elements "
         "against a model in one thread; one producer and one consumer over queues of 1 to 1000 elements, calls of random sizes, partial or not, with yields, sleeps and "
         "jitter at every atomic operation; distinct by history",
    technique="run-time monitor: one-by-one model of every transfer; sequence checker (exactly once, in order, untorn) over the values passed; ThreadSanitizer with an "
              "atomic type that models fences, so that missing ordering is reported whatever the hardware does",
    level_note="random histories and schedules; ordering is judged by happens-before, not by luck; " + TRUST,
    assumptions=["one producer and one consumer; size() as seen by either of them"],
    min_evals=100000)

_b = (parts("rand-sse2", "rand_main.cpp", 3, (), arch="sse2") + parts("rand-avx512", "rand_main.cpp", 3, (), arch="avx512", only=(0, 2)) +
      parts("rand-gcc", "rand_main.cpp", 3, (), arch="avx2", cxx="g++", only=(1, 2)) + parts("rand-asan", "rand_main.cpp", 3, (), arch="avx", san="asan"))
add("C29", _b, runs_of(_b, shards=2),
    rule="seeds random, structured and zero; every width 1 to 33 and some larger of seven element types; ranges random, minimal, maximal and where rounding matters; states made so "
         "that the next values are at the ends of the range; streams of 30000 to 60000 values (400000 thorough); forms by copied and shared state read by 1 to 16; distinct by seed or range",
    technique="run-time monitor: scalar reference generator bit by bit; range, moments, chi square of values and of pairs, serial correlation of values and squares at "
              "fixed seeds; states computed backwards to reach the extremes",
    level_note="statistics decide at 7 to 9 standard deviations on fixed seeds; " + TRUST,
    assumptions=["a sequence depends on the widths in which it is read, as documented", "ranges whose width is representable"],
    min_evals=100000)

_b = (parts("cplx-sse2", "cplx_main.cpp", 2, (), arch="sse2") + parts("cplx-avx512", "cplx_main.cpp", 2, (), arch="avx512", only=(0,)) +
      parts("cplx-gcc", "cplx_main.cpp", 2, (), arch="avx2", cxx="g++") + parts("cplx-asan", "cplx_main.cpp", 2, (), arch="avx", san="asan", only=(1,)))
add("C43", _b, runs_of(_b, shards=2),
    rule="random numbers of every quadrant, on the axes, of zeros of both signs and of magnitudes from 1e-4 to the limit of each function, in vectors of 1 to 16 elements, scalars and "
         "expressions of 1 to 70 elements, both precisions; distinct by operands",
    technique="run-time monitor: long double definitions within 16 epsilons of the scale of each function, exact bits for sums and parts, inverse relations; ASan+UBSan",
    level_note="moderate magnitudes; on the negative real axis either side of the branch cut is accepted; " + TRUST,
    assumptions=["magnitudes whose square neither overflows nor underflows", "functions of complex vectors that compile"],
    min_evals=50000)

# ------------------------------------------------------------------------------------------------- C38
_b = (parts("handle-sse2", "handle_main.cpp", 12, (), arch="sse2", only=(0, 2, 5, 8))
      + parts("handle-avx512", "handle_main.cpp", 12, (), arch="avx512", only=(1, 3, 4, 10))
      + parts("handle-gcc", "handle_main.cpp", 12, (), arch="avx2", cxx="g++", only=(0, 6, 9))
      + parts("handle-asan", "handle_main.cpp", 12, (), arch="avx", san="asan", only=(0, 2, 7, 11)))
add("C38", _b, runs_of(_b, shards=2),
    "cases of (element type x random expression trees of handles around sums, products, slices, truncations, paddings, joins, references, "
    "values and placeholders | compile-time expressions with placeholders, stateful filters | 1- to 3-dimensional sources) read in random "
    "pieces of every vector width and axis, copied, moved and substituted; distinct = (case kind, hash of the delivered values)",
    "run-time monitor: model trees of random expressions; instrumented sources that check announced passes, ranges, order of reads and their own lifetimes; filter twins; ASan+UBSan",
    "random expression trees against a model and sources that observe every pass and read",
    ["an expression read as one element of a broadcast may be read repeatedly", "sources shared by several places of one expression have no order of reads"], 20000)

# ------------------------------------------------------------------------------------------------- C27
_b = (parts("npy-asan", "npy_main.cpp", 4, (), arch="avx", san="asan")
      + parts("npy-sse2", "npy_main.cpp", 4, (), arch="sse2", only=(0, 3))
      + parts("npy-gcc", "npy_main.cpp", 4, (), arch="avx2", cxx="g++", only=(1, 2)))
add("C27", _b, runs_of(_b, shards=2),
    "cases of (13 element types x 1, 2, 3 or 5 dimensions x saving tensors of any layout | loading files of an independent writer: versions "
    "1 to 3, both byte orders, both element orders, any key order and spacing, every kind of truncation, wrong types and dimensions | mutated "
    "headers, lengths and shapes, noise); distinct = hash of the file and the outcome",
    "run-time monitor: independent npy reader and writer judge the bytes and elements; fault injection (truncation, mutation, limited memory); ASan+UBSan",
    "generated and mutated files against an independent implementation of the format",
    ["bytes of a boolean file other than 0 and 1 are delivered as they are", "headers that NumPy would not write may be accepted if all elements come from the file"], 20000)
# ------------------------------------------------------------------------------------------------- C42
_b = [Bin("filerw-asan", ["filerw_main.cpp"], (), "avx", "asan"), Bin("filerw-sse2", ["filerw_main.cpp"], (), "sse2"),
      Bin("filerw-gcc", ["filerw_main.cpp"], (), "avx2", cxx="g++")]
add("C42", _b, runs_of(_b, shards=2),
    "cases of (element type x random histories of opening for writing, appending and reading, transfers of any size in every form, seeks of "
    "every origin | files below that transfer in pieces or run out of space | adapters between element types); distinct = (position, size of the transfer)",
    "run-time monitor: byte and position model of the file, real files and fault-injecting streams; ASan+UBSan",
    "random histories against a byte model, with injected short transfers and errors",
    ["positions of files are bytes", "adapters transfer whole elements of both types"], 20000)

DATA = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "data")
_b = (parts("audio-asan", "audio_main.cpp", 5, ("io",), arch="avx2", san="asan", lib_san="aonly", opt="-O1") +
      parts("audio-sse2", "audio_main.cpp", 5, ("io",), only=(0, 3), arch="sse2", opt="-O1") +
      parts("audio-gcc", "audio_main.cpp", 5, ("io",), only=(1,), arch="avx2", cxx="g++"))
add("C28", _b, runs_of(_b, ["--data", DATA], shards=2),
    "cases of (sample type read and written x WAV or W64 in every sample format written in pieces of any size | WAV assembled field by field "
    "| FLAC of every subframe type made by the monitor's encoder | recorded FLAC and MP3) followed by random reads, seeks of every origin and "
    "reads after the end; distinct = (position, size of the read)",
    "run-time monitor: model of the file's frames, an encoder and writer of its own for foreign files, a medium that runs full; ASan+UBSan",
    "random histories against the samples of the file, within the quantisation of its format",
    ["samples lie in [-1, 1]", "MP3 is compared with its own sequential decoding", "samples of type i24 are transferred through pointers only"], 20000)

_b = [Bin("audiobad-asan", ["audiobad_main.cpp"], ("io",), arch="avx2", san="asan", lib_san="aonly", opt="-O1"),
      Bin("audiobad-sse41", ["audiobad_main.cpp"], ("io",), arch="sse41", opt="-O1", defs=("-g",), lib_flags=("-g",)),
      Bin("audiobad-avx512", ["audiobad_main.cpp"], ("io",), arch="avx512", opt="-O2")]
add("C41", _b, runs_of(_b, ["--data", DATA], shards=4) +
    [Run("audiobad-sse41", ["--data", DATA], 8, timeout=800, tag="audiobad-memcheck", wrap=["valgrind", "-q", "--error-limit=no", "--leak-check=no"])],
    "cases of (sample type x WAV or W64 with any format and chunks | FLAC and Ogg FLAC of the monitor's encoder | recorded FLAC and MP3, "
    "truncated, overwritten, spliced, with extreme sizes or random, checksums repaired or not, from media that transfer in pieces or fail) read "
    "twice by the same history of reads and seeks; distinct = everything delivered",
    "sanitizers and memcheck with run-time monitors: ASan+UBSan, leaks, valgrind memcheck with the destination marked undefined, red zones, position model",
    "mutation of valid files with repaired checksums; two readers of the same bytes with different buffers deliver the same",
    ["the length is the one that the header claims", "formats other than PCM and float are refused"], 20000)

_b = (parts("small-asan", "small_main.cpp", 3, (), arch="avx2", san="asan") + parts("small-sse2", "small_main.cpp", 3, (), arch="sse2")
      + parts("small-gcc", "small_main.cpp", 3, (), arch="avx2", cxx="g++") + parts("small-avx512", "small_main.cpp", 3, (), arch="avx512", only=(1,)))
add("C35", _b, runs_of(_b, shards=2),
    "cases of (random histories on small_buffer and inline_vector of any capacity and element type | on dynamic, fixed and referencing univectors, "
    "alone and assigned to each other | arithmetic, comparison and conversion of fractions); distinct = contents after the history",
    "run-time monitor: std::vector and exact-rational models compared after every operation; ASan+UBSan with leak detection",
    "random histories against the model; all element types and storages",
    ["elements are trivially copyable", "results of rational arithmetic are representable and denominators are not zero", "contents of moved-from and newly grown buffers are not judged"], 20000)

NOT_APPLICABLE = {}
