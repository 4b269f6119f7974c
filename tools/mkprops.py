#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
H = "include/pandaresampler.hh"; S = "include/pandaresampler/pandaresampler.cc"; HI = "include/pandaresampler/hiir/"
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
      anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                   mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=list(observe), hook_needed=None)))

p("C01", "How a stream is cut into blocks, and where they lie, never matters",
  "For every supported configuration (up/down, ratio 1/2/4/8, every precision, FIR/IIR, vector code on or off), feeding a signal as any sequence of blocks - any lengths including empty ones (multiples of the ratio when downsampling), at any float-aligned addresses - yields the same concatenated output. "
  "The outputs are bit-identical for IIR filters, for ratio 1 and when vector code is off; for vectorised FIR they agree up to the float rounding of each convolution sum.",
  ["histories", "inputs", "configurations"], "all sequences of process_block calls with all block lengths and buffer alignments, all finite signals, all configurations the constructor accepts",
  "The tests use a handful of block sizes on aligned buffers, only compare factor-2 FIR against a tolerance, and never run IIR; history hand-over bugs need particular (length, length, alignment) sequences.",
  [H, S, HI + "Downsampler2xSse.hpp", HI + "Upsampler2xSse.hpp", HI + "Downsampler2xFpuTpl.hpp", HI + "Upsampler2xFpuTpl.hpp"],
  [("history rebuild at the end of each block", S), ("unaligned prologue / aligned main loop / scalar tail", S), ("1024 sample chunking for ratio 4 and 8", H)],
  [("history", "last ORDER-1 input samples", S), ("_filter/_x/_y/_mem", "IIR allpass memories", HI)], ["output buffers of process_block"])
p("C02", "FIR upsampling by 2 computes the documented interpolation for every input",
  "For every precision and every input signal (zero before its start), the odd output samples of a factor-2 FIR upsampler are bit-exact copies of the input delayed by (order()/2 - 1) input samples, and the even output samples are, up to the float rounding of the sum, the convolution of the input with a fixed kernel of order() taps. "
  "The kernel is symmetric, does not depend on the signal, position in the stream, block structure or vector code, and a constant signal passes with gain 1 within the precision of the filter.",
  ["inputs", "histories", "configurations"], "all input signals and all stream positions, all FIR precisions, scalar and vector code",
  "Tests feed sine waves at a few block sizes and bound the error; they cannot show that every sample of every signal is the convolution.",
  [S], [("convolution of the last ORDER samples", S), ("pass-through of the centre tap", S), ("coefficient tables scaled by 2", S)], [("taps / sse_taps", "filter kernel", S)], ["process_block output"])
p("C03", "FIR downsampling by 2 computes the documented decimation for every input",
  "For every precision and every input signal (zero before its start), each output sample of a factor-2 FIR downsampler is, up to the float rounding of the sum, a fixed kernel of order() symmetric taps applied to the even-indexed input samples plus exactly 0.5 times the odd-indexed input sample at the centre of that kernel. "
  "The kernel does not depend on the signal, position in the stream, block structure or vector code, and the total DC gain is 1 within the precision of the filter.",
  ["inputs", "histories", "configurations"], "all input signals and all stream positions, all FIR precisions, scalar and vector code",
  "Tests feed sine waves at a few block sizes and bound the error; they cannot show that every sample of every signal is the decimated convolution.",
  [S], [("deinterleaving into even and odd history", S), ("convolution plus half of the centre sample", S)], [("history_even / history_odd", "last ORDER-1 sample pairs", S)], ["process_block output"])
p("C04", "IIR resampling by 2 is a pair of allpass chains for every input",
  "For every IIR precision the factor-2 upsampler and downsampler realise, for every input and stream position and up to float rounding, the polyphase half-band filter built from two chains of first-order allpass sections with one fixed coefficient each (even-numbered coefficients in one chain, odd-numbered in the other); starting from silence. "
  "Upsampling emits the two chain outputs alternately, downsampling emits half their sum, so DC gain is exactly 1 and no frequency is ever amplified.",
  ["inputs", "histories", "configurations"], "all input signals and stream positions, all IIR precisions and stages, scalar and vector code",
  "No existing test runs an IIR filter at all (the only test that mentions IIR exits before using it).",
  [S, HI + "StageProcFpu.hpp", HI + "StageProcSseV2.hpp", HI + "Downsampler2xSse.hpp", HI + "Upsampler2xSse.hpp", HI + "Downsampler2xFpuTpl.hpp", HI + "Upsampler2xFpuTpl.hpp"],
  [("allpass recursion", HI + "StageProcFpu.hpp"), ("two-lane allpass recursion", HI + "StageProcSseV2.hpp")], [("_x,_y / _mem", "allpass memories", HI)], ["process_block output"])
p("C05", "Vector (SSE) code and plain code give the same result",
  "For every configuration and every sequence of blocks, a resampler created with SSE allowed produces the same output as one created without it: bit-identical for IIR filters and for ratio 1, and equal up to the float rounding of each convolution sum for FIR filters. "
  "order() and delay() are equal for both.",
  ["inputs", "histories", "configurations"], "all signals, block sequences and alignments, all configuration pairs that differ only in the SSE flag",
  "Only factor-2 FIR is compared, on aligned buffers with few block sizes; the ratio 4/8 filters and all IIR filters are never compared.",
  [S, HI + "StageProcSseV2.hpp", HI + "StageProcFpu.hpp"], [("fir_compute_sse_taps / fir_process_4samples_sse", S), ("StageProcSseV2 against StageProcFpu", HI)], [("sse_taps", "reordered kernel", S)], ["process_block output"])
p("C06", "Processing touches exactly the caller's buffers and never out of bounds",
  "For every configuration, block length up to the 32-bit limit and float-aligned buffers, processing a block of n samples reads only the n input samples, writes every one of the ratio*n (up) or n/ratio (down) output samples and nothing beyond them, and performs no out-of-bounds, misaligned, uninitialised or use-after-free access and no wrapped index anywhere in its own state. "
  "The same holds for construction, reset, queries and destruction.",
  ["inputs", "configurations", "histories"], "all block lengths 0..2^32-1, all buffer alignments, all configurations and all call histories",
  "AddressSanitizer runs cover FIR blocks below 100 samples; IIR, large blocks, exact-size unaligned buffers and index wrap-around are not reached.",
  [H, S, HI + "Downsampler2xSse.hpp", HI + "Upsampler2xSse.hpp"], [("(i + 6 < n) guard of the 4-sample code", S), ("history of 2*ORDER floats", S), ("aligned loads", S), ("tmp[4096] chunk buffers", H)], [("history buffers", "fixed size scratch", S)], ["memory accesses"])
p("C07", "Resamplers are isolated from each other, from their input and from globals",
  "Processing never modifies the input buffer, and calls on one resampler object change only that object and the given output buffer: no call reads or writes mutable global state or the state of another resampler. "
  "The query functions (order, delay, sse_enabled, precision helpers) change nothing, so interleaving calls on several objects, even from different threads, cannot change any result.",
  ["histories", "schedules", "configurations"], "all interleavings of calls on any number of objects, all inputs",
  "Tests never interleave objects nor check that inputs stay unmodified; sharing shows only in particular interleavings.",
  [H, S], [("per-object buffers owned by value", S), ("unique_ptr stage ownership", H)], [("taps, sse_taps, history", "per object storage", S)], ["memory writes"])
p("C08", "reset() makes a used resampler indistinguishable from a new one",
  "After any history of process_block calls on any configuration, reset() followed by any sequence of blocks produces bit-for-bit the output that a freshly constructed resampler of the same configuration produces for that sequence. "
  "reset() changes neither the configuration, order() nor delay().",
  ["histories", "inputs", "configurations"], "all call histories before and after reset, all configurations and ratios",
  "No test calls reset() on a resampler and looks at the following output.",
  [H, S, HI + "Upsampler2xFpuTpl.hpp", HI + "Downsampler2xFpuTpl.hpp"], [("reset() fans out to every stage", H), ("std::fill of history / clear_buffers", S)], [("history / allpass memories", "everything reset must clear", S)], ["process_block output after reset"])
p("C09", "Ratios 4 and 8 are exactly the cascade of their factor-2 steps; ratio 1 copies",
  "For every block length, a ratio 4 (8) resampler outputs bit-for-bit what two (three) independent factor-2 steps chained on the whole stream output - low rate step first when upsampling, high rate step first when downsampling - with every input sample processed exactly once and in order however long the block is. "
  "With ratio 1 the output is a bit-exact copy of the input.",
  ["inputs", "histories", "configurations"], "all block lengths (also across the internal chunk size) and histories, both directions, FIR and IIR",
  "Ratio 4 and 8 output is never compared to anything by the tests; chunk-boundary errors need blocks longer than the internal chunk.",
  [H], [("chunk loop of Resampler2::process_block", H)], [("impl_x2/impl_x4/impl_x8", "the three steps", H)], ["process_block output"])
p("C10", "delay() tells the truth",
  "For every FIR configuration, including ratio 4 and 8, delay() is exactly the position of the centre of symmetry of the impulse response on the output time axis (fractional where it falls between output samples), so that output index delay() corresponds to input sample 0; it is >= 0 and, for ratio 2, a multiple of 0.5 (1.0 when upsampling). "
  "For IIR configurations delay() is >= 0 and within 0.1 output samples of the low-frequency group delay of the filter; it is 0 for ratio 1 and never changes over the life of the object.",
  ["configurations", "inputs", "histories"], "all configurations; the impulse response is fixed for all positions and signals by C01-C04 and C09",
  "The delay is only used by the factor-2 FIR tests to align signals; ratio 4/8 and IIR delays are never compared with the actual output.",
  [H, S], [("stage delays", S), ("combination of stage delays", H), ("group delay table of the IIR coefficients", S)], [("delay_", "tabulated delay", S)], ["delay()", "process_block output"])
p("C11", "FIR filters reach their nominal quality at every frequency",
  "With the base (low) rate taken as 44.1 kHz, every FIR precision of nominal D dB (48/72/96/120/144) passes each frequency from 0 to 18 kHz with a gain within k*10^(-(D-1)/20) of 1 for ratio 2^k, and attenuates every image (upsampling) or alias (downsampling) of that band by at least D-1 dB. "
  "This holds at every frequency in these bands, for the kernels actually used (in single precision), scalar and vector code, and for every ratio.",
  ["inputs", "configurations"], "all real frequencies in the pass and stop bands, all FIR configurations",
  "Tests measure sine sweeps at sampled frequencies, and only for ratio 2; the ratio 4 and 8 tables are never measured.",
  [S], [("coefficient tables", S), ("selection of table by stage and precision", S)], [("coeffs*", "half-band tables", S)], ["frequency response of process_block"])
p("C12", "IIR filters reach their nominal quality at every frequency",
  "With the base (low) rate taken as 44.1 kHz, every IIR precision of nominal D dB (48/72/96/120/144) passes each frequency from 0 to 18 kHz with a magnitude within k*10^(-(D-1)/20) of 1 for ratio 2^k, and attenuates every image (upsampling) or alias (downsampling) of that band by at least D-1 dB. "
  "This holds at every frequency in these bands, for the single-precision coefficients actually used, scalar and vector code, and for every ratio.",
  ["inputs", "configurations"], "all real frequencies in the pass and stop bands, all IIR configurations",
  "No existing test runs an IIR filter.",
  [S, HI + "StageProcFpu.hpp", HI + "StageProcSseV2.hpp"], [("coefficient tables", S), ("assignment of coefficients to the two chains", HI)], [("coeffs*", "allpass coefficients", S)], ["frequency response of process_block"])
p("C13", "Every resampler is stable and forgets its past",
  "For every configuration bounded input gives bounded output, and once the input becomes silent a FIR resampler outputs exact zeros after order() further input samples (pairs when downsampling) per stage, while an IIR resampler decays geometrically until nothing above denormal magnitude is left: neither earlier input nor accumulated rounding error survives.",
  ["inputs", "histories", "configurations"], "all signals and histories, all configurations, including rounding effects of the recursion",
  "No test drives a resampler with silence after a signal, and none runs IIR.",
  [S, HI + "StageProcFpu.hpp", HI + "StageProcSseV2.hpp"], [("finite history", S), ("allpass coefficients in (0,1)", S), ("structure of the recursion", HI)], [("allpass memories", "the only IIR state", HI)], ["process_block output", "state after silence"])
p("C14", "Precision helpers choose a sufficient precision for every request",
  "For every 32-bit value, find_precision_for_bits returns the cheapest declared precision that offers at least the requested number of bits, or the best one when none does (and linear interpolation for at most 1 bit); the result never decreases as the request grows. "
  "precision_name returns a distinct non-empty text for each declared precision (naming its bits and dB, or linear interpolation), and a text that is none of these for every other value.",
  ["inputs"], "all 2^32 requests and all enum values",
  "Tests call these with a few constants.",
  [S], [("find_precision_for_bits", S), ("precision_name", S)], [], ["return values"])
p("C15", "AlignedArray is a correct aligned container",
  "For every element count and element type an AlignedArray starts at a 64-byte aligned address, holds exactly the requested number of constructed elements (or copies of the given vector's elements) inside one allocation it owns, and gives access to precisely these through indexing, begin(), end() and size(). "
  "Destroying it destroys every element exactly once and releases the memory exactly once, and ownership can never end up duplicated.",
  ["inputs", "histories"], "all element counts, all addresses malloc may return, trivial and non-trivial element types",
  "Tests only use a few float arrays whose malloc addresses happen to be what they are.",
  [H], [("allocate_aligned_data", H), ("constructor/destructor loops", H)], [("unaligned_mem, data, n_elements", "the allocation", H)], ["addresses, constructor and destructor calls, malloc/free"])
p("C16", "The query functions report the actual configuration, always",
  "For every configuration - including ratio 1 - order(), sse_enabled(), delay() and sse_available() can be called at any time without failing; sse_available() is true exactly on builds with vector code; sse_enabled() is true exactly if SSE is available, was allowed and a filter exists, and order() is the number of coefficients of the factor-2 step at the low rate, 0 for ratio 1. "
  "Their results are the same before and after any processing or reset.",
  ["configurations", "histories"], "all configurations, all call histories",
  "Tests print order and SSE state for a few ratio-2 FIR configurations and never call them with ratio 1 or IIR.",
  [H, S], [("forwarding to the first step", H), ("template parameters of the step classes", S)], [("use_sse_if_available_", "request", H)], ["return values"])
p("C17", "Every supported configuration constructs completely and is destroyed cleanly",
  "Constructing any supported configuration succeeds without diagnostics, creates exactly the steps the ratio needs with the kind (direction, FIR/IIR, precision) that was asked for, and leaves every part of the state initialised, identical for repeated constructions; the unspecified arguments default to SSE allowed and FIR. "
  "Destroying it, after any history, releases every allocation exactly once.",
  ["configurations", "histories"], "all supported configurations and all lifetimes",
  "Tests construct a few ratio-2 FIR configurations; leaks and double frees are only looked at for those.",
  [H, S], [("init_stage / create_impl / create_impl_iir", S), ("unique_ptr ownership, virtual destructor", H)], [("impl_x2/impl_x4/impl_x8", "owned steps", H)], ["allocations", "stderr diagnostics", "state after construction"])
p("C18", "Processing is real-time safe: no allocation, no I/O, always terminates",
  "For every configuration, block length and history, process_block, reset and the query functions never allocate or free memory, never perform I/O, locking or system calls, never throw, use stack space bounded independently of the block length, and always terminate. ",
  ["inputs", "histories", "configurations"], "all block lengths and call histories, all configurations",
  "No test observes allocations; a call made only for particular block lengths or ratios would go unnoticed.",
  [H, S, HI + "Downsampler2xSse.hpp"], [("all buffers allocated in the constructors", S), ("fixed-size chunk buffers on the stack", H)], [], ["calls made by the processing functions"])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for q in P: f.write(json.dumps(q) + "\n")
