#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (kept in one place so that they stay in step)."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "src/btc_validation/"
HS = S + "header_step.rs"
BN = "src/mp/bignat.rs"
P = []


def prop(id, title, statement, over, quant, why, files, mech, state=(), observe=(), hook=None):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=quant), why_tests_cant=why,
             anchors=dict(files=files, state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                          mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=list(observe), hook_needed=hook))
    P.append(d)


STEP_WHY = ("No test of the repository runs the folding step at all; the only use is an example that proves one recorded chain segment. "
            "The claim quantifies over every header, every previous state and every witness a prover may choose.")
STATE = [
    ("z[0]", "hash of the last block", HS), ("z[1..11]", "times of the last 11 blocks, oldest first", HS),
    ("z[12]", "target of the current epoch", HS), ("z[13]", "time of the first block of the epoch", HS),
    ("z[14]", "height modulo 2016 of the next block", HS), ("z[15]", "cumulative work", HS)]
OBS = ["public inputs and outputs of the step circuit, honest and adversarial witnesses"]

prop("C01", "Every accepted header extends the current tip",
     "A step is satisfiable only if the header's previous-block-hash field equals the tip hash in the incoming state. "
     "The outgoing tip hash is exactly the double SHA-256 of the 80 header bytes, and nothing else can be output.",
     ["inputs", "histories"], "every 80-byte header, every incoming state, every witness chosen by the prover, every field the step is used with",
     STEP_WHY, [HS, S + "prev_block_hash.rs"],
     [("comparison of the packed header bytes with z[0], enforced", HS), ("double SHA-256 of the hashed bits, packed into z_out[0]", HS)], STATE[:1], OBS)
prop("C02", "Every accepted header carries its proof of work",
     "A step is satisfiable only if the double SHA-256 of the header, read as a little-endian number, is at most the target encoded by the header's compact difficulty bits. "
     "Encodings that are negative, that do not denote a whole number or that exceed the exponent range are rejected.",
     ["inputs"], "every header (all mantissas, exponents, nonces), every incoming state, every witness", STEP_WHY,
     [HS, S + "hash_target.rs"], [("target = mantissa * 256^(exponent-3) from the hashed bits", HS), ("hash <= target, enforced", HS)], STATE[4:5], OBS)
prop("C03", "Block time exceeds the median of the last 11 block times",
     "A step is satisfiable only if the header's time is strictly greater than the median of the 11 block times in the incoming state. "
     "The outgoing window is the incoming one without its oldest time and with the header's time appended, in order.",
     ["inputs", "histories"], "every multiset and order of 11 previous times (ties included), every header time, every witness", STEP_WHY,
     [HS, S + "median.rs"], [("median of z[1..11] constrained, less-than enforced", HS), ("window shift z_out[1..11]", HS)], STATE[1:2], OBS)
prop("C04", "The target follows the retarget schedule exactly",
     "Inside an epoch a step is satisfiable only if the header's target equals the current target. "
     "At the first block of an epoch it must equal the old target times the last epoch's time span (limited to between a quarter and four times two weeks) divided by two weeks, capped at the maximum target and truncated to the compact encoding's precision; "
     "every accepted target is at most the maximum target, and the outgoing target is the header's.",
     ["inputs", "histories"], "every old target, epoch start and end time (including end before start), counter, header difficulty bits and witness", STEP_WHY,
     [HS, S + "difficulty_update.rs"], [("constraints on the target and the counter, calculated target", HS), ("time span limits", HS)], STATE[2:5], OBS)
prop("C05", "Epoch counter and epoch start time advance correctly",
     "The outgoing counter is the incoming one plus one, and zero after 2015. "
     "The outgoing epoch start time is the header's own time at a step whose incoming counter is zero, and otherwise the incoming epoch start time.",
     ["inputs", "histories"], "every counter value 0..2015, every header and state, every witness", STEP_WHY, [HS],
     [("counter update and its wrap", HS), ("selection of the epoch start time", HS)], STATE[3:5], OBS)
prop("C06", "Cumulative work is the exact sum of block work",
     "The outgoing work is the incoming work plus the whole-number quotient of the maximum target and the header's target, and no witness makes any other value acceptable. "
     "Over any sequence of steps the work output is the initial work plus the sum of those quotients.",
     ["inputs", "histories"], "every target up to the maximum, every incoming work, every witness", STEP_WHY, [HS, BN],
     [("max target = target * work + remainder with remainder < target", HS)], STATE[5:6], OBS)
prop("C07", "Every valid header can be proved",
     "For every header that satisfies the consensus rules relative to a well-formed incoming state, the honest prover completes without error and its witness satisfies every constraint. "
     "This holds along whole chains, across epoch boundaries and for times that go backwards between blocks.",
     ["inputs", "histories"], "every valid header and state: all difficulty encodings, hash sizes, window orders, counters, time spans; every field the step is used with",
     STEP_WHY, [HS, S + "median.rs", S + "difficulty_update.rs", BN], [("witness generation of the step", HS)], STATE, OBS)
prop("C08", "The step circuit does not depend on the header or the state",
     "The constraints, the wires and the public layout of the step are the same for every header and every incoming state, with or without a witness, and the step has 16 inputs and 16 outputs. "
     "A circuit set up once therefore serves every step of every chain.",
     ["inputs"], "every header and incoming state, setup and proving mode, every field", STEP_WHY, [HS], [("synthesize", HS)], (), OBS)
prop("C09", "No witness makes an invalid step or a wrong output acceptable",
     "For a fixed header and incoming state the constraints have a solution only if the step is valid under the consensus rules, and then the 16 outputs are uniquely determined. "
     "In particular no choice of auxiliary values changes which bytes are hashed, compared or decoded.",
     ["inputs"], "every header, every incoming state, every assignment of the auxiliary wires", STEP_WHY + " Tests only ever run the honest prover.",
     [HS, S + "median.rs", S + "difficulty_update.rs", BN, "src/util/num.rs"], [("every constraint of the step", HS)], STATE, OBS)
GW = "The tests try a few hand-picked values over one field with the honest witness only; "
prop("C10", "Comparison gadgets decide < and <= exactly",
     "The strict and non-strict comparison gadgets return a bit that is true exactly when the first number is less than (respectively at most) the second, for all operands that fit the declared bit width. "
     "No assignment of auxiliary wires makes the other answer acceptable, and the honest prover always succeeds.",
     ["inputs"], "all operands below 2^n, all widths n the field has room for, every field, every witness",
     GW + "off-by-one errors at the width, at equality or at the field boundary, and unconstrained wires, need other values or a dishonest witness.",
     [S + "median.rs"], [("less_than, leq", S + "median.rs")], (), ["result bit under honest and adversarial witnesses"])
prop("C11", "Median verification accepts exactly the median",
     "Checking a claimed median of a list of times answers true exactly when the claim is the middle element of the sorted list, whatever the order and the ties, and computing the median returns that element. "
     "The verdict is forced: no witness makes a wrong median acceptable.",
     ["inputs"], "every list of 32-bit times (every order and tie pattern), every claimed value, every witness",
     GW + "ties, claims next to the median and claims that are not in the list are not covered.",
     [S + "median.rs"], [("compute_median_timestamp, verify_median_timestamp, verify_median_allocated", S + "median.rs")], (), ["result bit", "returned median"])
prop("C12", "Difficulty gadgets compute the exact retargeted value",
     "The difficulty calculation returns the whole-number quotient of old target times time span by two weeks and refuses time spans outside a quarter to four times two weeks, the limits included in the allowed range. "
     "The verification variant accepts exactly the correct new value; no witness makes another quotient acceptable.",
     ["inputs"], "every target below 2^253, every 32-bit time span, every claimed result, every witness",
     GW + "three recorded epochs are tried; limits, inexact divisions and wrong claims that differ by one are not.",
     [S + "difficulty_update.rs", BN], [("verify_difficulty_update, calculate_difficulty_update", S + "difficulty_update.rs")], (), ["returned number, acceptance"])
prop("C13", "Equality gadgets report and enforce equality exactly",
     "The gadgets that return an equality bit return true exactly for equal operands, and the one that asserts equality is satisfiable exactly when the operands are equal, also when they have different numbers of limbs. "
     "No witness changes either outcome. Comparing two big numbers on the host agrees with the integers they denote.",
     ["inputs"], "all operands, limb counts and limb widths, every field, every witness",
     GW + "the inverse-based zero test is exactly the place where a missing constraint is invisible to an honest prover.",
     [BN], [("equals, is_equal, equal, ==", BN)], (), ["result bit, satisfiability"])
prop("C14", "Range checks and bit decompositions are exact",
     "Range checks are satisfiable exactly for values within the range, and decompositions return exactly the binary digits of the value. "
     "Converting a field element to limbs yields its canonical representation and no other, and assertions on the minimal or full number of bits hold exactly when the number has that many bits.",
     ["inputs"], "all values, widths from zero to the field capacity, limb counts, every field, every witness",
     GW + "aliases modulo the field, zero width and values one past the range are not covered.",
     ["src/util/num.rs", BN], [("fits_in_bits, decompose", "src/util/num.rs"), ("from_num, assert_well_formed, decompose, enforce_full_bits, enforce_min_bits", BN)], (),
     ["satisfiability, returned bits and limbs"])
prop("C15", "Equality after carrying holds exactly for equal integers",
     "Asserting that two unreduced limb vectors denote the same integer is satisfiable exactly when they do, for all limb values up to the declared maximum, with and without regrouping of limbs and for different numbers of limbs. "
     "Carries can neither wrap around the field nor be chosen to hide a difference.",
     ["inputs"], "all limb vectors within the declared maxima, all limb widths, counts and maxima the field has room for, every witness",
     GW + "the carry bound, group size and top limb are decided by extreme limb values and parameter combinations.",
     [BN], [("equal_when_carried, equal_when_carried_regroup, group_limbs", BN)], (), ["satisfiability"])
prop("C16", "Addition, subtraction, minimum, shift and scale are exact",
     "Sums, shifts by a constant and scalings by a constant equal the integer result limb by limb, subtraction is satisfiable exactly when the result is not negative and then returns the difference, and the minimum returns the smaller operand. "
     "Declared bounds cover every result, and no witness makes another result acceptable.",
     ["inputs"], "all operands within their declared bounds, all limb widths and counts (different ones included), every witness",
     GW + "borrows across limbs, equal operands, unequal limb counts and results at the declared maximum are not covered.",
     [BN], [("add, sub, min, shift, scale", BN)], (), ["returned limbs and declared bounds, satisfiability"])
prop("C17", "Multiplication and divisibility are exact",
     "The product of two big numbers equals the integer product and has limbs within range, and the divisibility assertion is satisfiable exactly when the divisor divides the number. No witness makes another product acceptable.",
     ["inputs"], "all operands, limb widths and counts (different ones included), every witness",
     GW + "extreme limbs, zero operands, unequal sizes and forged products are not covered.",
     [BN, "src/mp/poly.rs"], [("mult, divides", BN)], (), ["returned limbs, satisfiability"])
prop("C18", "Modular reduction returns the true quotient and remainder",
     "Modular multiplication returns a quotient and a remainder with product = quotient * modulus + remainder and remainder below the modulus, and reduction returns the remainder; they succeed for every nonzero modulus. "
     "No witness makes an unreduced remainder or another quotient acceptable.",
     ["inputs"], "all operands and moduli within the limb layout, all limb widths and counts, every declared modulus size, every witness",
     GW + "small moduli (long quotients), zero remainders and unreduced remainders are not covered.",
     [BN], [("mult_mod, red_mod, assert_product_mod", BN)], (), ["returned limbs, satisfiability"])
prop("C19", "Selection, switching and exposure gadgets route values exactly",
     "A multiplexer returns the operand its selector names, a selection tree the leaf whose index the selector bits spell most significant first, and a switch swaps its operands exactly when its bit is set. "
     "Equality assertions on composite values hold exactly for equal values, and exposing a value as public input exposes exactly its limbs.",
     ["inputs"], "all values, selectors, tree depths, limb counts (different ones included), every witness",
     GW + "index order in deeper trees, equal operands, and unconstrained outputs are not covered.",
     ["src/util/gadget.rs", BN], [("mux, mux_tree, switch, assert_equal, inputize, as_allocated...", "src/util/gadget.rs")], (), ["output wires, public inputs"])
prop("C20", "Every view of a big number denotes the same integer",
     "Allocation, limb access, concatenation, truncation, padding, regrouping, recomposition from bits and conversion from polynomials yield numbers whose wires, declared value, limb count and declared bounds agree with each other and with the integer they should denote. "
     "Conversions between integers and limb lists are inverse to each other.",
     ["inputs"], "all values, limb widths, limb counts and sequences of these conversions the layout admits",
     GW + "declared bounds and sizes after a conversion are never compared with the wires.",
     [BN], [("alloc_from_nat, from_limbs, concat, truncate_limbs, group_limbs, with_n_limbs, recompose, from_poly, nat_to_limbs, limbs_to_nat", BN)], (),
     ["limb wires against declared value, bounds and sizes"])
prop("C21", "Polynomial sum, product and evaluation are exact",
     "The product of two polynomials has exactly the convolution of their coefficients, the sum the coefficient-wise sums for any pair of lengths, and evaluation the value at the point. No witness makes another product acceptable.",
     ["inputs"], "all coefficient vectors and lengths smaller than the field, every evaluation point, every witness",
     GW + "unequal lengths and forged coefficients are not covered.",
     ["src/mp/poly.rs"], [("alloc_product, sum, evaluate_at", "src/mp/poly.rs")], (), ["coefficient wires and values"],
     "cfg(verif_hooks) makes the polynomial module reachable from outside the crate")
prop("C22", "Bit and bit-vector operations keep wires and values in step",
     "Shifting, truncating, reversing, appending, inserting, popping and converting bit vectors act on the represented bits as their names say, and afterwards every wire and declared value agree. "
     "Allocated bits can only be 0 or 1, constants and negations have their exact values, and comparing a number with a bit vector holds exactly when the bits spell the number.",
     ["inputs", "histories"], "all bit vectors and all sequences of edits on them, all numbers, every witness",
     GW + "sequences of edits are not covered.",
     ["src/util/bit.rs", "src/util/num.rs"], [("Bitvector and Bit", "src/util/bit.rs"), ("Num::is_equal and conversions", "src/util/num.rs")], (), ["wires and declared values"])
prop("C23", "Field, integer and machine-word conversions are faithful",
     "Converting a field element to an integer and back is the identity, integers outside the field's range or below zero are refused, and machine words convert to the field element of the same value and back without loss.",
     ["inputs"], "every field element, every integer (negative and oversized ones included), every machine word, every field",
     GW + "oversized and negative integers and words near the top of their range are not covered.",
     ["src/util/convert.rs"], [("f_to_nat, nat_to_f, usize_to_f, f_to_usize", "src/util/convert.rs")], (), ["returned values"])

prop("C24", "Folding starts from the chain state before block 123456",
     "The published initial state has 16 entries and is, over every field, the main chain's state when the next block is number 123456: the hash of block 123455, the times of blocks 123445 to 123455 oldest first, the target of that epoch, the time of the epoch's first block 122976, the counter 480 (123456 modulo 2016) and no work; the header of block 123456 is a legal step from it. "
     "Turning a list of headers into step circuits gives exactly one circuit per header, in the order of the list, each for its own header.",
     ["inputs"], "every field; every list of headers, whatever its length, order and repetitions",
     "No test reads the published state or builds circuits from a list; one wrong digit or a swapped pair still compiles, folds and verifies, for another chain than the one claimed.",
     [HS], [("initial_z_i_scalars", HS), ("new_blocks", HS)], STATE, ["the published vector", "outputs of the circuits made from a list"])
prop("C25", "A folded proof verifies exactly for the chain it folds",
     "Folding a chain of headers from a state gives, step by step, a proof that verifies exactly if the rules admit the whole chain up to there, and what the verifier learns is the state the rules give. "
     "The same proof does not verify for another starting state or another number of steps.",
     ["inputs", "histories"], "every chain of headers and every starting state, across epoch boundaries",
     "The repository never runs the prover in a test; whether the circuit set up from the default header serves every later step is only decided by folding several different headers.",
     [HS, "examples/validate_header.rs"], [("synthesize", HS), ("new_blocks, default", HS)], STATE, ["RecursiveSNARK::prove_step and verify"])
prop("C26", "A lazy value is computed once and shared by all its handles",
     "The computation behind a lazy value runs at most once, never before the value is first looked at, and never if the value was given. "
     "Every handle, however it was cloned, sees the same value, and looks can be kept while others are taken.",
     ["histories"], "every history of cloning and dropping handles, taking, keeping and ending looks, for cells made from a computation, from a value and from a computation that fails",
     "The type has no tests; whether a clone shares the value, or a kept look blocks another, shows only in particular histories.",
     ["src/util/lazy.rs"], [("LazyCell: new, from, clone, force, borrow", "src/util/lazy.rs")], [("cell", "computation, value or neither, shared by all handles", "src/util/lazy.rs")],
     ["values seen, number of runs of the computation"])

CLAIMED = json.load(open(os.path.join(ROOT, "tools", "claimed.json")))
LEVEL_NOTE_G = ("TLC checks every recorded call (honest and adversarial) of the real code against the relation in GadgetSpec; exhaustive over all inputs for "
                "small fields and widths, sampled with boundary values elsewhere. Assumes the recorder and TLC; the adversarial search is incomplete.")
LEVEL_NOTE_H = ("TLC model-checks the chain specification within small constants and validates every recorded step (honest and adversarial) of the real circuit "
                "against its actions with the real constants and an explicit SHA-256. The cases are generated from the specification over a fixed set of mined and "
                "historical headers; the adversarial search is incomplete.")
LEVEL_NOTES = {
    "C26": "TLC enumerates every history of the lazy cell up to the depth, each is replayed into the real type and the observations are validated as behaviours of Lazy.",
    "C24": "TLC generates the lists of headers and validates the published state and every recorded circuit against HeaderStart. Two of the six parts of the state are tied to a header with real work, the times are constants of the specification.",
    "C25": "TLC validates every proof of every folded chain as a behaviour of HeaderChain with the real constants; a fixed family of chains over headers with real work. Nova itself is trusted.",
}
TECHNIQUES = {
    "C24": "TLA+ specification of the starting state; TLC-generated lists of headers replayed into the real code, recorded circuits and the published state validated against it",
    "C25": "TLA+ chain specification; TLC-generated chains folded with Nova, every proof and every false claim validated as a behaviour of it",
    "C26": "TLA+ specification of the lazy cell checked with TLC; every history up to the depth replayed into the real type, recorded histories validated",
}
checks = []
for p in P:
    i = p["id"]
    if i in CLAIMED:
        g = 10 <= int(i[1:]) <= 23
        checks.append(dict(property=i, quick_cmd=f"python3 run_check.py {i}", thorough_cmd=f"VERIF_TIER=thorough python3 run_check.py {i}",
                           evidence_file=f"evidence/{i}.json", level="model_checking",
                           technique=("TLA+ specification checked with TLC; trace validation of recorded honest and adversarial circuit runs against it" if g else
                                      TECHNIQUES.get(i, "TLA+ chain specification checked with TLC; specification-generated cases replayed into the real step circuit, recorded traces validated")),
                           level_note=LEVEL_NOTE_G if g else LEVEL_NOTES.get(i, LEVEL_NOTE_H)))
na = [dict(property=p["id"], reason="check under construction") for p in P if p["id"] not in CLAIMED]
man = dict(version=1, setup_cmd="python3 run_check.py setup",
           hooks=dict(guard="cfg(verif_hooks)", enable='RUSTFLAGS="--cfg verif_hooks"', source_commits=["f850ae3"]),
           checks=checks, not_applicable=na)
with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1)
    f.write("\n")
