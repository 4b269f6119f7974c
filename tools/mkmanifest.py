"""writes /verif/MANIFEST.json"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = "contract-based deductive verification of the real code (own VC generator over LLVM IR, z3, exact float-expression normalisation)"
N = {
 "C01": "Every call of every factor-2 step is proved, for all block lengths up to 2^32 and all buffer addresses, to produce the next samples of one fixed output stream and to leave the state at the next stream position; the composition of steps is proved likewise.",
 "C02": "Step contract for all calls, then lemmas on the proved kernel: number of taps, symmetry, position of the copied sample, gain at 0 Hz, same kernel with SSE.",
 "C03": "Step contract for all calls, then lemmas on the proved kernel: number of taps, symmetry, position and exact weight of the centre sample, gain at 0 Hz, same kernel with SSE.",
 "C04": "Step contract for all calls over recursively defined state streams; the exact rational impulse response (longer than the number of states, hence complete) equals that of two chains of first-order allpass sections.",
 "C05": "Step contracts of both variants for all calls; the two contracts are proved equal (equal exact linear forms for FIR, a bisimulation of float operations for IIR).",
 "C06": "Every memory access of every unit generates bounds, alignment, initialisation and no-wrap obligations for all block lengths; completeness of the output is a postcondition.",
 "C07": "Frame conditions of every unit (only the object's own state and the output are written), no mutable globals read or written, queries change nothing.",
 "C08": "reset() from an arbitrary state is proved to restore exactly the content of a freshly constructed object (except scratch cells proved irrelevant by the step contracts).",
 "C09": "process_block verified against the contracts of the steps for all block lengths: each step receives exactly the stream of the previous one, in order; ratio 1 copies.",
 "C10": "delay() is evaluated from an arbitrary state; compared exactly with the centre of the proved kernels (FIR) or the exact group delay at 0 Hz of the proved allpass structure (IIR).",
 "C11": "The proved kernels satisfy pass- and stopband inequalities at every frequency: exact polynomial inequalities decided by Bernstein subdivision in integer arithmetic.",
 "C12": "The proved allpass structures satisfy pass- and stopband inequalities at every frequency: exact polynomial inequalities decided by Bernstein subdivision in integer arithmetic.",
 "C13": "FIR: the proved output definition uses only the last order() frames and is linear without offset. IIR: the proved state recursion, including every float rounding, is a triangular contraction.",
 "C14": "Both helpers are proved for a symbolic 32-bit argument.",
 "C15": "All members are proved for a symbolic element count (all element types by the untyped IR of two instances, one with tracked constructors and destructors).",
 "C16": "The queries are evaluated from an arbitrary state of every configuration, including ratio 1; order() is compared with the proved filter of the low-rate step.",
 "C17": "Construction of every configuration is executed completely (no loop bound); content initialised, repeatable, defaults, nothing lost; destruction from an arbitrary state releases each allocation exactly once.",
 "C18": "Effects of every unit for all block lengths: no allocation, release, I/O, external call, throw or variable-size stack object; every loop has a discharged termination obligation.",
}
A = " Assumes: allocation succeeds, callers honour the documented block lengths and do not overlap buffers, IEEE arithmetic without contraction; trusts clang's translation to IR, the VC generator and z3. Where an obligation cannot be decided (code outside the verifier's reach) the run falls back to a bounded, labelled check of the compiled code."
json.dump({
 "version": 1, "setup_cmd": "true",
 "checks": [dict(property=p, quick_cmd="./check " + p, thorough_cmd="VERIF_TIER=thorough ./check " + p, technique=T, level="proof", level_note=n + A) for p, n in N.items()],
 "not_applicable": [],
 "notes": "Findings repaired in /repo are listed in known-findings.txt."}, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
