"""Writes properties.jsonl (the single source of the property texts)."""
import json, os
P = []
I = "include/kfr/"


def prop(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech]))
    if state:
        d["anchors"]["state"] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    if observe:
        d["anchors"]["observe_at"] = list(observe)
    P.append(d)


prop("P01", "FIR filtering is convolution, however the input is cut into blocks",
     "Feeding a FIR filter any sequence of blocks (any lengths including zero, in place or to another buffer, from memory or from an expression, real or complex samples) yields exactly the causal convolution of everything fed since creation, the last reset or the last change of taps with the taps. "
     "Reset and new taps restore the behaviour of a newly made filter, a copied filter continues independently of the original, and nothing outside the destination block is written.",
     ["histories", "inputs"], "all tap vectors of length >= 1, all sample sequences, all splittings into process calls, all interleavings with reset/set_taps/copy, all sample types offered, every vector width",
     "The delay line is a circular buffer whose wrap position depends on the number of taps and on every earlier block length, and short filters keep it in vector registers of several widths; unit tests run a handful of lengths from a fresh state.",
     ["src/dsp/fir.cpp", I + "dsp/fir.hpp", I + "base/filter.hpp", I + "base/state_holder.hpp"],
     [("circular delay line and two-part dot product", I + "dsp/fir.hpp expression_fir::get_elements"),
      ("register delay line of the short form", I + "dsp/fir.hpp expression_short_fir::get_elements"),
      ("filter entry points", I + "base/filter.hpp filter<T>::apply")],
     [("delayline, delayline_cursor", "last taps samples and the write position", I + "dsp/fir.hpp fir_state")],
     ["fir_filter::apply", "fir(expr, std::ref(state))", "short_fir"])

prop("P02", "Partitioned FFT convolution equals direct convolution for every block history",
     "For any impulse response, any internal block size and any sequence of input block lengths, the block convolution filter outputs the causal convolution of everything fed since creation, reset or the last change of impulse response (up to rounding), starting with the very first sample and without extra latency. "
     "One-shot convolution, correlation and autocorrelation of any two non-empty sequences return the full-length textbook result, for real and complex samples.",
     ["histories", "inputs"], "all impulse-response lengths relative to the block size, all block sizes, all input splits, reset/set_data between calls, all pairs of sequence lengths",
     "The filter carries partially filled blocks, a rotating list of spectra, a premultiplied sum and an overlap tail from call to call; which of them is stale depends on the exact history of block lengths, and tests feed one or two fixed patterns.",
     ["src/dft/convolution-impl.cpp", I + "dft/convolution.hpp"],
     [("overlap-add state machine", "src/dft/convolution-impl.cpp convolve_filter::process_buffer_impl"),
      ("impulse response partitioning and reset", "src/dft/convolution-impl.cpp set_data/reset"),
      ("one-shot convolution", "src/dft/convolution-impl.cpp impl::convolve")],
     [("segments/position/saved_input/input_position/premul/overlap", "carried block state", I + "dft/convolution.hpp convolve_filter")],
     ["convolve_filter::apply", "convolve", "correlate", "autocorrelate"])

prop("P03", "IIR cascades obey their difference equations across any block split",
     "A cascade of second-order sections produces, for every input and every way of cutting it into blocks (including blocks shorter than the number of sections and zero-length ones), exactly the output of applying the sections' difference equations one after another to the whole signal from zero state. "
     "Reset and replacing the coefficients behave as a fresh filter with those coefficients, for any number of sections.",
     ["histories", "inputs"], "all section counts 1..N, all coefficients, all inputs, all splits into calls, interleaved resets and copies",
     "Sections are evaluated in a software pipeline, one vector lane per section, with a warm-up at the start and a drain at the end of every call and saved lane states in between; errors appear only for particular combinations of section count and block length.",
     ["src/dsp/biquad.cpp", I + "dsp/biquad.hpp", I + "dsp/iir.hpp"],
     [("pipelined cascade with begin/end pass", I + "dsp/biquad.hpp expression_iir"),
      ("filter object", I + "dsp/biquad.hpp iir_filter / src/dsp/biquad.cpp")],
     [("iir_state s1,s2,out,saved", "lane states of the pipeline", I + "dsp/biquad.hpp")],
     ["iir_filter::apply", "iir(expr, ...)"])

prop("P04", "Delay lines, moving sums and feedback-style operators keep exact sample history",
     "A delay of N samples outputs exactly the input N samples earlier (zeros before the start), a moving sum of length N outputs exactly the sum of the last N inputs, and the other history-carrying signal operators (fractional delay, DC removal, generators advanced block by block) continue seamlessly: evaluating a signal in one pass or in any sequence of pieces gives the same samples. "
     "This holds for every length of history, including one.",
     ["histories", "inputs"], "all delay/window lengths >= 1, all inputs, all chunkings, every vector width",
     "History is held in rings read and written in vector-sized pieces, with different code for windows shorter or longer than a vector; tests use one size from a fresh state.",
     [I + "dsp/delay.hpp", I + "dsp/fir.hpp", I + "base/univector.hpp", I + "base/generators.hpp"],
     [("delay expression", I + "dsp/delay.hpp expression_delay"), ("moving sum", I + "dsp/fir.hpp expression_moving_sum"),
      ("generators", I + "base/generators.hpp")],
     [("delay_state, moving_sum_state", "ring and cursors", I + "dsp/delay.hpp, fir.hpp")], ["delay", "moving_sum", "fracdelay", "gen_linear"])

prop("P05", "Sample-rate conversion is a time-consistent stream",
     "For any pair of rates, quality and sequence of block sizes, a converter fed the same input produces the same output samples as one fed in a single call, the lengths it consumes and produces follow exactly the rate ratio (no drift, lost or repeated samples), and the position/size queries agree with what processing then does. "
     "Shifting the input by whole periods of the rate ratio shifts the output by the corresponding number of samples, and constant input comes out constant.",
     ["histories", "inputs"], "all integer rate pairs and qualities, all input block lengths, all call sequences of process/skip/size queries",
     "The output index is mapped to input positions with integer arithmetic and a saved history of taps; off-by-one errors at block borders or after long runs show only for particular ratios and splits.",
     ["src/dsp/sample_rate_conversion.cpp", I + "dsp/sample_rate_conversion.hpp"],
     [("position bookkeeping", I + "dsp/sample_rate_conversion.hpp output_position_to_*, input_size_for_output"),
      ("polyphase processing", "src/dsp/sample_rate_conversion.cpp process_impl")],
     [("input_position, output_position, delay", "stream positions and history", I + "dsp/sample_rate_conversion.hpp")],
     ["samplerate_converter::process", "samplerate_converter::skip", "output_size_for_input", "input_size_for_output"])

prop("P06", "The lock-free ring buffer is a correct bounded FIFO under concurrency",
     "With one producer thread and one consumer thread, items leave the lock-free ring buffer in the order they entered, each exactly once and intact, never before they were enqueued and never more than the capacity outstanding. "
     "A transfer request is honoured with exactly the number of items reported, under every interleaving of the two threads and every sequence of request sizes including ones that wrap or exceed the buffer.",
     ["schedules", "histories"], "all interleavings of one producer and one consumer at the level of index loads, stores and data copies; all request sizes and buffer sizes",
     "Correctness depends on the order in which indices are published relative to the data copies; a test on one machine sees almost none of the schedules.",
     [I + "base/univector.hpp"],
     [("enqueue/dequeue index protocol", I + "base/univector.hpp lockfree_ring_buffer")],
     [("front, tail, size", "published positions", I + "base/univector.hpp lockfree_ring_buffer")], ["lockfree_ring_buffer::try_enqueue", "lockfree_ring_buffer::try_dequeue"])

prop("P07", "Ring access on vectors is a faithful circular history",
     "Writing any number of samples through a cursor into a vector used as a ring leaves exactly the most recent samples in place with the cursor after them, and reading any number through a cursor returns consecutive samples modulo the size; the cursor always stays inside the vector. "
     "Transfers longer than the vector behave as the same transfer done one sample at a time.",
     ["histories", "inputs"], "all vector sizes, cursors and transfer lengths (shorter, equal, longer, multiples of the size), single, vector and block forms, static and dynamic storage",
     "Wrap handling has separate one-fragment, two-fragment and over-long cases whose boundary conditions involve three numbers; tests never hit most of them.",
     [I + "base/univector.hpp"], [("ringbuf_write/ringbuf_read/ringbuf_step", I + "base/univector.hpp univector_base")],
     [("cursor", "next position", I + "base/univector.hpp")], ["univector::ringbuf_write", "univector::ringbuf_read", "univector::ringbuf_step"])

prop("P08", "Complex DFT plans compute the DFT of every size",
     "For every transform length of at least one and both precisions, the forward plan maps a unit impulse at any position to the corresponding roots of unity, is linear, and the inverse composed with the forward transform returns the input scaled by the length - in place or out of place, with ordinary or aligned buffers. "
     "Execution touches only the output and the advertised amount of temporary memory, and leaves a separate input unchanged.",
     ["inputs", "configurations"], "all sizes (powers of two, mixed radices, primes, products of large primes), all impulse positions, in-place and out-of-place, forward and inverse, all instruction sets",
     "Each size selects its own sequence of butterfly, generic-radix, reordering and arbitrary-length stages with a plan of which buffer each stage uses; tests sample some sizes with random data and a tolerance.",
     ["src/dft/dft-impl.hpp", "src/dft/fft-impl.hpp", "src/dft/ft.hpp", "src/dft/bitrev.hpp", I + "dft/fft.hpp"],
     [("factorisation and stage selection", "src/dft/dft-impl.hpp init_dft / init_fft"), ("stage execution and buffer disposition", I + "dft/fft.hpp dft_plan::execute_dft, precompute_disposition"),
      ("power-of-two kernels", "src/dft/fft-impl.hpp"), ("arbitrary length stage", "src/dft/dft-impl.hpp dft_arblen_stage_impl")],
     [("stages, disposition, temp_size, data", "plan contents", I + "dft/fft.hpp dft_plan")], ["dft_plan::execute", "dft", "idft"])

prop("P09", "Real DFT and DCT agree with the complex DFT and round-trip",
     "For every supported even length, the real transform returns exactly the non-redundant half of the complex spectrum of the same data in each packing format, the inverse real transform of that spectrum returns the data scaled by the length, and converting through either format is equivalent. "
     "The cosine transform and its inverse follow their defining sums and are mutually inverse up to the documented scale, for every supported length.",
     ["inputs", "configurations"], "all supported sizes, both packing formats, both precisions, in and out of place, impulses at each position and arbitrary integer data",
     "Packing places the middle bin in different slots, the half-size trick mixes mirrored bins, and sizes divisible by different factors use different code; tests cover few sizes.",
     ["src/dft/dft-impl.hpp", "src/dft/fft-impl.hpp", I + "dft/fft.hpp"], [("real repacking stage", "src/dft/fft-impl.hpp to_fmt/from_fmt"), ("dct", I + "dft/fft.hpp dct_plan")],
     [("fmt", "packing format", I + "dft/fft.hpp dft_plan_real")], ["dft_plan_real::execute", "dct_plan::execute", "realdft", "irealdft"])

prop("P10", "Multidimensional DFT is the separable transform along every axis",
     "For every shape of up to four or more dimensions, the multidimensional complex transform equals applying the one-dimensional transform along each axis, its inverse restores the data scaled by the number of elements, and the real multidimensional transform equals the corresponding half spectrum with its inverse restoring the data. "
     "Input is left unchanged when the output is a different buffer, and only the advertised amounts of output and temporary memory are written.",
     ["inputs", "configurations"], "all shapes including axes of length one, two, odd, even, prime and repeated lengths; statically and dynamically dimensioned plans; complex and real; in and out of place",
     "The implementation interleaves transposes with row transforms and reuses plans for equal axes; index errors show only for particular shapes.",
     [I + "dft/fft.hpp", I + "base/transpose.hpp", "src/dft/dft.cpp"], [("axis order and transposes", I + "dft/fft.hpp dft_plan_md::execute_dft"), ("real md expand/contract", I + "dft/fft.hpp dft_plan_md_real")],
     [("dfts, size, temp_size", "per-axis plans", I + "dft/fft.hpp dft_plan_md")], ["dft_plan_md::execute", "dft_plan_md_real::execute"])

prop("P11", "Transform plans are immutable: sharing and caching never change results",
     "Executing a plan does not modify it: any number of threads may execute one plan at the same time with their own data and temporary buffers, in any interleaving and direction, and each obtains the result it would obtain alone. "
     "The plan cache returns a plan for exactly the requested kind and size, the same object on repeated requests, and stays correct under concurrent lookups, insertions and clearing while plans are in use.",
     ["schedules", "histories"], "all interleavings of executions and cache operations by several threads; all sizes, kinds and clear points",
     "Hidden mutable scratch in a plan only corrupts results when two executions overlap in time; tests are single threaded.",
     [I + "dft/cache.hpp", "src/dft/dft.cpp", "src/dft/dft-impl.hpp", I + "dft/fft.hpp"], [("cache lookup/insert/clear under lock", I + "dft/cache.hpp dft_cache_impl"), ("const execution with scratch", "src/dft/dft-impl.hpp stages")],
     [("cache vectors", "plans by kind and size", I + "dft/cache.hpp")], ["dft_plan::execute", "dft_cache::get", "dft_cache::getreal", "dft_cache::clear"])

prop("P12", "Tensor views alias exactly the elements they name and keep storage alive",
     "Every indexing, slicing (any start, stop, step and sign, omitted bounds, newly inserted or dropped axes), transposition and reshape of a tensor yields a view whose shape and elements are those of the documented array semantics, reading and writing the original storage and nothing else. "
     "Storage lives as long as any tensor or view that refers to it and no longer, through any history of copies, moves, assignments and destructions.",
     ["histories", "inputs"], "all compositions of view operations over all shapes of several dimensions; all lifetimes of handles",
     "Views compose offsets and strides, with negative strides and clipped bounds; tests check a few fixed slices.",
     [I + "base/tensor.hpp", I + "base/shape.hpp"], [("slice arithmetic", I + "base/tensor.hpp get_subtensor / internal::tensor_subscript"), ("finalizer reference counting", I + "base/tensor.hpp, base/memory.hpp")],
     [("data, shape, strides, finalizer", "view", I + "base/tensor.hpp tensor")], ["tensor::operator()", "tensor::reshape_may_copy", "tensor::copy", "transpose"])

prop("P13", "Shape algebra: flat and multidimensional indices, broadcasting and strides agree",
     "For every shape, conversion between multidimensional and flat indices is a bijection onto the valid range in storage order, products and strides agree with it, and iterating over a shape visits each index exactly once. "
     "Combining shapes follows the broadcasting rules symmetrically and independently of grouping, a shape is assignable to another exactly when broadcasting reaches it, and an expression over broadcast arguments equals the element-by-element result.",
     ["inputs"], "all shapes up to several dimensions including unit, zero-length and infinite extents; all pairs and triples of them",
     "The rules cover missing leading axes, unit axes, undefined and infinite extents in combination; tests list a few examples.",
     [I + "base/shape.hpp", I + "base/expression.hpp"], [("flat/multi index", I + "base/shape.hpp shape::to_flat/from_flat"), ("broadcast rules", I + "base/shape.hpp common_shape, can_assign_from, internal_generic::const_shapes_compatible")],
     [], ["shape::to_flat", "shape::from_flat", "common_shape", "can_assign_from", "increment_indices"])

prop("P14", "Expression evaluation does not depend on vector width, alignment or chunking",
     "Evaluating any expression tree into a destination writes exactly the elements of the requested range, each with the value obtained by evaluating the tree one element at a time, whatever the destination's length, the start offset, the vector width used, and whether subexpressions are held by value, by reference or behind type-erased handles. "
     "Elements outside the requested range are never written.",
     ["programs", "inputs"], "all expression trees over the element-wise, indexing, concatenating, padding, slicing, reversing, interleaving and scalar-producing operators; all lengths, offsets and widths; one and two dimensions",
     "Every operator has to support every vector width at every offset; interactions between operators (a reversed slice of a concatenation across a vector boundary) are never enumerated by tests.",
     [I + "base/expression.hpp", I + "base/basic_expressions.hpp", I + "base/simd_expressions.hpp", I + "base/handle.hpp"],
     [("evaluation loop", I + "base/expression.hpp internal::tprocess_body"), ("structural expressions", I + "base/basic_expressions.hpp"), ("type erasure", I + "base/handle.hpp")],
     [], ["process", "univector::operator=", "expression_handle"])

prop("P15", "Reductions and histograms count every element exactly once",
     "Every reduction (sum, dot product, extrema, products, means and their variants) over an input of any length equals the reduction of its elements taken one by one, independent of vector width and alignment. "
     "A histogram's counters add up to the number of samples given, each sample counted in exactly the bin (or below/above counter) its value belongs to, however the samples were split over calls.",
     ["inputs", "histories"], "all lengths from one upwards, all value patterns (all negative, mixed, extreme positions), all element types, all splits",
     "Initial values and remainder lanes of vectorised reductions are wrong only for particular lengths and signs.",
     [I + "base/reduce.hpp", I + "base/basic_expressions.hpp", I + "simd/horizontal.hpp"], [("reduction", I + "base/reduce.hpp expression_reduce"), ("histogram", I + "base/reduce.hpp histogram_data / expression histogram")],
     [("histogram counters", "bins, below, above", I + "base/reduce.hpp")], ["sum", "mean", "minof", "maxof", "absminof", "dotproduct", "product", "sumsqr", "rms", "histogram"])

prop("P16", "Matrix transposition is the exact index permutation",
     "Transposing a matrix or a multidimensional array of any dimensions and element type, out of place or in place, moves every element to its transposed position and to no other, and transposing back restores the original. "
     "Nothing outside the destination is written.",
     ["inputs"], "all row and column counts (square, tall, wide, odd, prime, above and below blocking sizes), all element sizes including complex, all axis lists",
     "Blocked kernels, remainder strips, in-place cycle following with a visited set and run-time dispatch on size make the result depend on the exact dimensions.",
     [I + "base/transpose.hpp"], [("blocked and cycle-following transposition", I + "base/transpose.hpp matrix_transpose")], [], ["matrix_transpose", "matrix_transpose_b"])

prop("P17", "Random generators are reproducible and in range",
     "Two generators with equal seed state that are asked for the same draws produce equal streams, whether directly or through expressions and on every instruction set, and different seeds give different streams; each draw takes whole 16-byte blocks of the stream, so a long draw is the concatenation of block-sized ones. Uniform values always lie inside the documented half-open range. "
     "Drawing from one generator never affects another.",
     ["inputs", "histories"], "all seeds, draw patterns, types and ranges, on every instruction set",
     "Range violations happen for isolated bit patterns and stream differences only for particular mixes of draw sizes; tests use fixed seeds and few draws.",
     [I + "base/random.hpp", I + "base/random_bits.hpp"], [("state step", I + "base/random_bits.hpp random_state / random_next"), ("bit to range mapping", I + "base/random.hpp randommantissa, random_uniform")],
     [("random_state", "generator state", I + "base/random_bits.hpp")], ["random_bits", "random_uniform", "random_range", "gen_random_range"])

prop("P18", "Aligned memory blocks are disjoint, aligned, counted and freed exactly once",
     "Every successful aligned allocation returns a block of at least the requested size at the requested alignment, disjoint from all other live blocks; reallocation keeps the common prefix of the contents; a block stays valid until its last reference is released and is then freed exactly once. "
     "The recorded size is what was requested, allocation statistics match the history, and invalid requests fail without side effects.",
     ["histories"], "all histories of allocate, reallocate, add-reference, release, container growth and handle copies with all sizes and alignments, from one or several threads",
     "Header bookkeeping errors show only for particular alignment/size sequences or reference interleavings.",
     [I + "cometa/memory.hpp", I + "base/memory.hpp", I + "base/univector.hpp", "src/capi/capi.cpp"], [("header and reference counting", I + "cometa/memory.hpp aligned_malloc/aligned_free/aligned_reallocate")],
     [("mem_header", "offset, alignment, refs, size", I + "cometa/memory.hpp"), ("memory statistics", "allocation counters", I + "cometa/memory.hpp")], ["aligned_allocate", "aligned_deallocate", "aligned_reallocate", "aligned_force_deallocate", "kfr_allocate", "kfr_reallocate"])

prop("P19", "The C interface behaves as the C++ library and reports every error",
     "Each C function for plans, filters and memory gives results identical to the C++ object it stands for with the same parameters, over any history of create, execute, reset and delete calls; size queries report the true transform and buffer sizes. "
     "Invalid arguments are refused by a null result with an error message naming the cause, and never crash or leak a half-made object.",
     ["histories", "inputs"], "all call histories over all plan kinds, sizes, packings, filter kinds and parameter values, valid and invalid",
     "The C test exercises each function once with valid arguments.",
     ["src/capi/capi.cpp", I + "capi.h"], [("C wrappers", "src/capi/capi.cpp")], [("last error string", "thread-local error message", "src/capi/capi.cpp")], ["kfr_dft_*", "kfr_filter_*", "kfr_allocate", "kfr_last_error"])

prop("P20", "WAV files hold exactly what was written, for every write/read/seek history",
     "Audio written to a WAV file in any sequence of block sizes, in any supported sample format and channel count, is read back with the same format, frame count and sample values (within one quantisation step when the format converts), however the reads are split. "
     "Seeking from any origin moves to exactly the requested frame, the reported position always equals the frame that the next read returns, and requests outside the file are refused or truncated without corrupting later reads.",
     ["histories", "inputs"], "all formats, channel counts, in-memory types, write splits, read/seek histories, and abnormal endings of the writer",
     "Position tracking and chunked interleaving depend on the whole history of calls; tests write and read once.",
     ["src/io/audiofile-impl.cpp", I + "io/audiofile.hpp", I + "io/file.hpp", I + "base/conversion.hpp"], [("writer", I + "io/audiofile.hpp audio_writer_wav"), ("reader and seek", I + "io/audiofile.hpp audio_reader_wav")],
     [("position, fd, closed", "stream state", I + "io/audiofile.hpp")], ["audio_writer_wav::write", "audio_reader_wav::read", "seek", "tell"])

prop("P21", "NPY arrays round-trip and malformed files are rejected cleanly",
     "Saving any array and loading it back yields the same shape, element type and values, including arrays written in the other byte or axis order where supported. "
     "For any byte sequence offered as a file - truncated at any point or with any altered header - loading terminates with either a correct array or an error, never reading or writing out of bounds and never reporting success for missing data.",
     ["inputs", "crash_points"], "all shapes, element types and storage orders; all truncation points and header mutations",
     "The header is a hand-written parser of a Python dictionary; tests load a few well-formed files.",
     [I + "base/npy.hpp"], [("header parser and writer", I + "base/npy.hpp npy_parse_header, npy_decode, save_to_npy")], [], ["load_from_npy", "save_to_npy", "npy_reader"])

prop("P22", "Sample conversion saturates and inverts; interleaving is a bijection",
     "Converting samples between any two formats maps full scale to full scale, preserves order, saturates values outside the range instead of wrapping, and returns the identical integer after a round trip through a format that can hold it. "
     "Interleaving and deinterleaving any number of channels and frames are inverse permutations that touch only the given buffers.",
     ["inputs"], "all pairs of sample formats, all values including the extremes and beyond, all channel counts and lengths including misaligned ones",
     "Wrap-around occurs only at extreme values and vector remainders only at particular lengths.",
     [I + "base/conversion.hpp", I + "simd/read_write.hpp"], [("convert_sample", I + "base/conversion.hpp"), ("interleave/deinterleave", I + "base/conversion.hpp")], [], ["convert", "interleave", "deinterleave"])

prop("P23", "Loudness metering follows the gated block model for every packet history",
     "Momentary, short-term and integrated loudness and loudness range after any sequence of packets equal the values defined by the gating-block model over the packets received since the last reset, start or stop, whatever the packet values; gated-out blocks never contribute, and channel weights depend only on the declared speaker. "
     "Silence, reset in mid-stream and pausing never corrupt later readings.",
     ["histories", "inputs"], "all packet sequences over loud, quiet and silent material, all start/stop/reset points, channel layouts and overlap factors",
     "Gating depends on running lists and windows over the whole history; the test meters two files once.",
     [I + "dsp/ebu.hpp"], [("gating, windows and histogram of blocks", I + "dsp/ebu.hpp integrated_vec, lra_vec, ebu_r128")], [("windows, running flag, need_reset", "meter state", I + "dsp/ebu.hpp")], ["ebu_r128::process_packet", "get_values", "start", "stop", "reset"])

prop("P24", "Vector operations act lane by lane exactly as their scalar definition",
     "For every vector length and element type, loading, storing, shuffling, slicing, concatenating, permuting, reversing, rotating, sorting, comparing, selecting, saturating, shifting and horizontal operations give in each lane what their definition on a plain array gives, and partial loads and stores touch only the named elements. "
     "The result does not depend on the instruction set the code was compiled for.",
     ["inputs", "configurations"], "all vector lengths (including non-powers of two), element types, index patterns and extreme values, on every instruction set available",
     "Each operation has several intrinsic specialisations selected by type, length and instruction set; tests sample values on one or two of them.",
     [I + "simd/vec.hpp", I + "simd/shuffle.hpp", I + "simd/horizontal.hpp", I + "simd/sort.hpp", I + "simd/saturation.hpp", I + "simd/read_write.hpp", I + "simd/select.hpp", I + "simd/min_max.hpp", I + "simd/abs.hpp", I + "simd/digitreverse.hpp"],
     [("lane permutations", I + "simd/shuffle.hpp"), ("specialised kernels", I + "simd/impl/*.hpp")], [], ["vec", "shufflevector family", "bitonic sort", "horizontal reductions"])

prop("P25", "Small containers behave as bounded sequences through every history",
     "The small-buffer and inline vectors hold exactly the sequence of elements that the history of insertions, removals, resizes, copies, moves and swaps implies, with equality meaning equal sequences, elements constructed and destroyed exactly once, and copies independent. "
     "Exact fractions stay in lowest terms with a positive denominator and obey rational arithmetic and ordering.",
     ["histories", "inputs"], "all operation histories across the switch from inline to heap storage; all pairs of fractions",
     "The transition between inline and heap storage is crossed in few ways by tests.",
     [I + "base/small_buffer.hpp", I + "base/inline_vector.hpp", I + "base/fraction.hpp"], [("storage switch", I + "base/small_buffer.hpp"), ("inline vector", I + "base/inline_vector.hpp"), ("normalisation", I + "base/fraction.hpp")],
     [("size, storage", "container state", I + "base/small_buffer.hpp")], ["small_buffer", "inline_vector", "fraction"])

prop("P26", "Runtime dispatch is transparent: every instruction set gives the same behaviour",
     "In a build holding several instruction sets, results of every dispatched operation (filters, convolution, transforms, rate conversion) do not depend on which instruction set is selected, an object created under one selection keeps working under it, and the selected set never exceeds what the processor supports. "
     "Limiting the selection is honoured by every operation.",
     ["configurations", "histories"], "all selectable instruction sets, all dispatched operations, all histories across a change of selection",
     "The test programs run with one selection only.",
     [I + "multiarch.h", I + "runtime/cpuid.hpp", I + "runtime/cpuid_auto.hpp", "src/dsp/biquad.cpp", "src/dsp/fir.cpp", "src/dsp/sample_rate_conversion.cpp", "src/dft/dft.cpp"],
     [("dispatch gate", I + "multiarch.h CMT_MULTI_GATE"), ("cpu detection and override", I + "runtime/cpuid.hpp get_cpu, override_cpu")], [("cpu_t", "selected set", I + "runtime/cpuid.hpp")], ["override_cpu", "get_cpu", "dft_plan", "iir_filter"])

prop("P27", "Filter design realises the requested transfer function",
     "For every prototype, order, transformation and frequency, the designed filter has the transfer function that was asked for: analog prototypes have the magnitude response that defines them, the low-pass, high-pass, band-pass and band-stop transformations and the bilinear transform map it to the requested edges, second order sections realise exactly the given zeros, poles and gain in as few stable sections as needed, and the second order designs and windowed sinc designs equal their definitions. "
     "Designs come out with a leading denominator coefficient of one and in the precision asked for.",
     ["inputs", "configurations"], "all prototypes and orders, sets of zeros, poles and gains (repeated, real, several conjugate pairs on one line), transformations, edges, qualities and gains",
     "No test of the repository covers recursive filter design; the second order and windowed designs are used with single parameter sets.",
     [I + "dsp/iir_design.hpp", I + "dsp/biquad_design.hpp", I + "dsp/fir_design.hpp", I + "math/complex_math.hpp"],
     [("analog prototypes", I + "dsp/iir_design.hpp butterworth, chebyshev1, chebyshev2, bessel"), ("transformations", I + "dsp/iir_design.hpp lp2lp_zpk, lp2hp_zpk, lp2bp_zpk, lp2bs_zpk, bilinear"), ("pairing into sections", I + "dsp/iir_design.hpp to_sos, cplxreal"), ("second order formulas", I + "dsp/biquad_design.hpp"), ("windowed sinc", I + "dsp/fir_design.hpp")],
     [("zpk", "zeros, poles, gain", I + "dsp/iir_design.hpp")], ["to_sos", "iir_bandpass", "chebyshev2", "biquad_allpass", "fir_lowpass"])

prop("P28", "Windows, tone detectors, mixers and shapers equal their definitions at every length and block split",
     "Every window has, at every length, the samples of its published formula for the parameter given: symmetric ones are mirror images of themselves, periodic ones are the symmetric window of one more sample without its last, and handles, typed expressions, both precisions and reading from the middle give the same samples. "
     "The tone detector holds the Fourier sum of everything fed to it in any blocks, one or several frequencies at a time; mixers return the sums and matrix products of their channels, wave shapers and unit conversions (decibels, notes) their defining function, for single values, vectors and expressions alike, and oscillators and test signals have the phase and the shape that were asked for, over any number of periods.",
     ["inputs", "configurations", "histories"], "all window kinds, lengths, parameters and symmetries; all sample sequences, frequencies and splits; all channel counts, matrices, shapers and amounts",
     "The tests compare windows of one or two lengths with stored tables, use one detector frequency on one block, and do not touch the shapers; formulas are evaluated by vector approximations whose indexing depends on length and offset.",
     [I + "dsp/window.hpp", I + "dsp/goertzel.hpp", I + "dsp/mixdown.hpp", I + "dsp/waveshaper.hpp", I + "dsp/units.hpp", I + "dsp/special.hpp", I + "dsp/oscillators.hpp", I + "math/modzerobessel.hpp"],
     [("positions of samples", I + "dsp/window.hpp window_linspace"), ("formulas", I + "dsp/window.hpp expression_hann ... expression_tukey"), ("recurrence of the detector", I + "dsp/goertzel.hpp set_elements"), ("matrix mixing", I + "dsp/mixdown.hpp stereo_matrix")],
     [("q0, q1, q2", "words of the detector", I + "dsp/goertzel.hpp expression_goertzel")], ["window(size, type, param, symmetry)", "window_kaiser", "goertzel", "mixdown_stereo", "waveshaper_saturate_I", "amp_to_dB"])

prop("P29", "Elementary functions satisfy their defining identities, for real and complex numbers, in every form",
     "Sine, cosine, tangent and their variants in degrees and pairs point where the angle points after any number of turns; arc functions return the angle, in its principal range and quadrant; logarithms, powers and roots of every base undo each other, negative bases and odd roots included; hyperbolic functions of logarithms are the fractions they stand for. "
     "Complex exponentials, logarithms, roots, sines, cosines and polar forms follow from these by their definitions, on the principal branch. Zero, infinity, NaN and arguments far out of range give the limit or NaN, never something else, interpolations pass through their points, and single values, vectors of any width, expressions and both precisions agree.",
     ["inputs", "configurations"], "all angles, fractions, bases, exponents, branches and special values; all scalar, vector and expression forms of both precisions",
     "The tests compare tables of moderate real arguments; complex functions have a handful of values, interpolation, polar forms, fast variants, degrees and special values none, and each function is a separate vector approximation with its own range reduction.",
     [I + "math/sin_cos.hpp", I + "math/tan.hpp", I + "math/atan.hpp", I + "math/asin_acos.hpp", I + "math/log_exp.hpp", I + "math/hyperbolic.hpp", I + "math/gamma.hpp", I + "math/complex_math.hpp", I + "math/interpolation.hpp"],
     [("range reduction and signs", I + "math/impl/sin_cos.hpp trig_fold, sincos_mask"), ("exponent arithmetic", I + "math/impl/log_exp.hpp vilogbp1, vldexpk"), ("signs and zero of powers", I + "math/impl/log_exp.hpp pow, root"), ("quadrants", I + "math/impl/atan.hpp atan2"), ("complex functions", I + "math/complex_math.hpp csin ... csqrt")],
     [], ["sin", "cosdeg", "sincos", "atan2", "exp", "log", "pow", "root", "tanh", "csqrt", "clog", "cartesian", "catmullrom", "gamma"])

with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as f:
    for d in P:
        f.write(json.dumps(d) + "\n")
