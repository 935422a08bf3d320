#!/usr/bin/env python3
"""Writes MANIFEST.json. PENDING holds properties whose check is not built yet."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = "exhaustive bounded enumeration of executions of the real code against a reference model"
N = {
 "C01": (T, "Every message length in the listed ranges (and message-end positions round every block boundary up to large lengths, >32-bit bit and byte lengths through the streaming interface) with position-revealing contents, both builds; contents outside the pattern alphabet are not enumerated."),
 "C02": ("explicit-state enumeration of all update sequences of the real hash objects against one-shot digests", "Every composition of short messages and every sequence over a boundary-piece alphabet to the stated depth; the reference is the digest of the concatenation computed by the independent SHA-2."),
 "C03": (T, "All key lengths round 0..2 blocks+, message lengths and splits within bounds, four hashes."),
 "C04": (T, "Every single- and double-bit tag change, every byte value at every position, every tag length in range; key and message changes; four hashes."),
 "C05": (T, "Every output length 0..=255 digests for four hashes, salt/input/info lengths across block boundaries."),
 "C06": (T + "; per-round state alphabet", "Every byte value at every position of key and block, every S-box input at every position of every round (steered), weight-1/2 keys and blocks; full 2^128 inputs are not enumerable."),
 "C07": (T, "All (data length, message length) pairs in a grid, all three key sizes, steered GHASH states and counters; against an independent SP 800-38D."),
 "C08": ("explicit-state exploration of all operation sequences of the real stream object to a depth, against the RFC 8439 keystream", "Every sequence of reads, skips, encrypts and decrypts over a boundary alphabet to the stated depth plus long positions; states merged on keystream position."),
 "C09": (T, "All length pairs in a grid, and messages solved so that the Poly1305 accumulator takes every listed extreme value (steered states), against an independent RFC 8439."),
 "C10": (T, "Encrypt then decrypt over all length pairs in a grid, multi-megabyte lengths, all AEADs."),
 "C11": ("exhaustive enumeration of an attacker's alterations of sealed messages on the real code", "Every 1- and 2-bit tag change, every tag length, every bit of short ciphertexts/data/nonce/key, every boundary move, with output-buffer frame condition."),
 "C12": (T + "; result-steered inputs", "Every byte/bit of scalar and u, all low-order and non-canonical u, inputs solved so that the result hits extreme field values; against an independent big-integer ladder."),
 "C13": (T, "All pairs over an alphabet of edge scalars and clamping variants; agreement needs no expected value."),
 "C14": (T, "Secret and message alphabets chosen so that every reachable digit of the scalar recoding is used; against an independent RFC 8032."),
 "C15": (T + "; signatures constructed from the equation", "Valid signatures with extreme S, k and points built without the signing function; against the equation in the reference."),
 "C16": ("exhaustive enumeration of alterations of valid signatures and keys on the real code", "Every bit of signature, message, key; all lengths 0..; S+kL; every non-canonical and small-order encoding."),
 "C17": ("exhaustive enumeration of lengths round each documented precondition on the real code, both builds", "Every listed operation x every length in range: panics exactly when the precondition is violated, buffers untouched."),
 "C18": ("stateless exploration of all operation histories to a depth over several live objects of the real library", "Every sequence over the listed alphabets to the stated depth; each step compared with its result from the reference state."),
 "C19": ("exhaustive enumeration of executions in four builds of the real code, observations compared between builds", "The executions of all other properties' quick tiers (the long ones in the thorough tier only), in every combination of the std feature and overflow checks; what each case observed (bytes, verdicts, panics) is compared between builds."),
 "C20": ("exhaustive enumeration of executions of the instrumented real code, self-composition: traces of basic blocks and addresses compared within a class of equal public lengths", "Every class (operation x lengths) over content alphabets (every single bit, edge bytes, every tag difference of one or two bits, steered extreme internal values) in two optimised instrumented builds, a selection in an unoptimised one (where every source-level branch is still there), and a selection on the uninstrumented release build at machine level (valgrind lackey); contents outside the alphabets are not covered."),
 "C21": ("exhaustive enumeration of the counter blocks of real executions over an instrumented cipher (up to the full 2^32-2), limits probed in child processes", "One full-length run sees every counter; logs for all short lengths; limits refused/accepted exactly."),
 "C22": (T + ", over mock ciphers and hashes of every shape", "Every block size/digest size in range, several mock ciphers; all key, message and output lengths in a grid."),
 "C23": (T, "All 1- and 2-bit differences, all byte pairs at all positions, cancelling differences, all lengths in range and lengths congruent to 16 modulo powers of two."),
 "C24": ("stateless exploration of thread schedules of the real code under a controlled scheduler (preemption-bounded DFS over conflicting accesses, partial-order reduction from recorded access sets)", "Every pair of calls on shared and separate objects, and triples; access sets recorded in the unoptimised build; where no access conflicts one schedule class remains (plus fixed preemptions), otherwise all schedules to 2 (thorough 3) preemptions up to a reported cap."),
 "C25": ("exhaustive enumeration of (operation, length) pairs on the real code under a monitor of heap allocations and stack depth", "58 operations (accepting and rejecting paths) x every length to 600 and 2^k-1, 2^k, 2^k+1, 2^k+13 up to 2^20 (thorough 2^24) of the argument that varies, both builds; every call is monitored by a counting allocator and a painted stack. Stack use in unoptimised builds is not judged."),
 "C26": ("exhaustive enumeration of (operation, length) and (operation, contents) pairs on the instrumented real code, steps counted and compared with the work for short and ordinary arguments", "81 operations (accepting and refusing, in one piece and in many) x every length to 700 and 2^k-1, 2^k, 2^k+1, 2^k+13 up to 2^17 (thorough 2^20); every pair of 44 extreme or ordinary 32-byte strings as the arguments of X25519, Ed25519 signing and verification and AEAD encryption; two instrumented builds. Work is counted in basic blocks, memory accesses and bytes moved, not in time."),
 "C27": ("exhaustive enumeration of executions of the real code on a 32-bit machine (WebAssembly) and a big-endian machine (Miri), each compared with the native execution", "261 000 cases (thorough 2 million) of every operation in two 32-bit no_std builds (overflow checks on and off), long ones with byte and bit counts past 2^32, and 2 650 cases on a 32-bit big-endian machine (thorough: more, and 64-bit big-endian too). Other differences between machines are not covered."),
}
PENDING = {}
def main():
    m = {"version": 1, "setup_cmd": "python3 setup.py", "checks": [], "not_applicable": [{"property": k, "reason": v} for k, v in PENDING.items()]}
    for k, (t, n) in sorted(N.items()):
        m["checks"].append({"property": k, "quick_cmd": f"python3 check.py {k} quick", "thorough_cmd": f"python3 check.py {k} thorough", "evidence_file": f"evidence/{k}.json", "technique": t, "level": "model_checking", "level_note": n})
    m["notes"] = "No hooks in /repo: everything is driven through the public interface. See DESIGN.md; repaired defects are listed in known_findings.txt."
    json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
    open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
main()
