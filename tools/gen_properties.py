#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text is reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, hook=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
         "observe_at": observe, "hook_needed": hook}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})

TP = "src/turbo_plonk.rs"
prop("C01", "Honest proofs are always accepted",
 "For every circuit the library can index (any mix of gates with rotations, copy constraints, lookups, public inputs, blinding rows and custom vanishing sets, naming each queried point of a column by one rotation) and every assignment that satisfies it, proving succeeds and the resulting proof, delivered unchanged, is accepted by a verifier holding the same circuit and public inputs. This holds whatever randomness the prover draws, whichever earlier proofs either side has handled, and with any universal setup that supports the polynomials of the domain.",
 ["inputs", "configurations", "histories"],
 "all satisfiable circuits and assignments, all prover randomness, all setup sizes of at least the domain size, all earlier session histories of the same prover and verifier objects",
 "The 18 stable tests fix about a dozen circuits with one domain size, a handful of columns and no negative rotations, rotated lookups, multi-column label orders, custom vanishing sets or repeated use of the same objects.",
 [TP, "src/indexer.rs", "src/piop/prover.rs", "src/lookup/mod.rs", "src/permutation/mod.rs", "src/multiproof/piop/mod.rs", "src/oracles/traits.rs", "src/vo/precompiled"],
 [("prover and verifier build the same combined constraint and the same opening sets", "PIL::prove / PIL::verify in src/turbo_plonk.rs"),
  ("degree bookkeeping", "Indexer::index in src/indexer.rs"),
  ("rotation and coset indexing", "Instantiable::query_in_coset in src/oracles/traits.rs")],
 ["result of prove", "result of verify"])
prop("C02", "A proof altered in transit is never accepted",
 "If the content of a valid proof is changed in any way between prover and verifier - bits flipped, parts dropped, duplicated, reordered, or spliced in from other valid proofs - the verifier does not accept it. Only an encoding that decodes to the identical proof may be accepted.",
 ["fault_sequences", "inputs"],
 "all honest proofs of all circuits and all alterations of their decoded content",
 "No test ever alters a proof; every test verifies only the untouched output of the prover.",
 [TP, "src/multiproof/piop/mod.rs", "src/rng.rs"],
 [("all proof parts feed the transcript, the combined check or the opening check", "PIL::verify in src/turbo_plonk.rs"),
  ("opening check", "Multiopen::verify in src/multiproof/piop/mod.rs")],
 ["result of verify on the altered bytes"])
prop("C03", "No accepted proof for an assignment violating a gate",
 "If the committed assignment violates any gate constraint at any row on which the gate is required to hold, the verifier does not accept, even when the prover deviates from its algorithm after the violation and even when violations of different constraints are chosen so that they would cancel each other. The same holds for each of the ready-made gates with respect to the relation it documents.",
 ["inputs", "programs", "fault_sequences"],
 "all circuits, all gates, all rows and all violating assignments; provers that corrupt intermediate values at any point",
 "Existing tests prove satisfying assignments only; no test hands the prover a violating one or a prover that cheats.",
 [TP, "src/piop/prover.rs", "src/vo/generic_vo.rs", "src/vo/precompiled", "src/indexer.rs"],
 [("random linear combination of gates vanishing on the required rows", "prover_quotient_round in src/piop/prover.rs and the final identity in PIL::verify"),
  ("quotient shape", "PIL::verify")],
 ["result of verify"], "value taps inside the prover so that a simulated Byzantine prover can replace intermediate values")
prop("C04", "No accepted proof for an assignment violating a copy constraint",
 "If two cells that the circuit's wiring declares equal hold different values in the committed assignment, the verifier does not accept, whatever the prover does with the accumulator columns that argue for the wiring. This holds for any number of wired columns, any split of them into chunks and any number of blinding rows.",
 ["inputs", "programs", "fault_sequences"],
 "all wirings, all violating assignments, all ways of cheating in the accumulators (start value, any product row, hand-over between chunks, final value)",
 "Existing tests only run the copy argument on satisfying assignments, with one fixed wiring; a missing accumulator check is invisible to them.",
 ["src/permutation/mod.rs", "src/permutation/grand_product.rs", "src/piop/prover.rs", TP],
 [("start, product, hand-over and end checks of the accumulators", "PermutationArgument in src/permutation/mod.rs"),
  ("row masking", "GrandProductArgument in src/permutation/grand_product.rs")],
 ["result of verify"], "value taps at the accumulator columns")
prop("C05", "No accepted proof for a lookup outside its table",
 "If on any usable row a looked-up tuple is not a row of its table, the verifier does not accept, whatever the prover does with the helper columns that argue for membership. This holds for tuples of any width, for several lookups sharing columns or tables, and for lookups whose inputs read shifted rows.",
 ["inputs", "programs", "fault_sequences"],
 "all tables, all lookups, all violating assignments, all ways of cheating in the sorted columns and accumulators",
 "Existing tests run lookups on satisfying inputs only, one lookup per circuit, and one of them indexes the lookup with a placeholder row count.",
 ["src/lookup/mod.rs", "src/lookup/subset_equality.rs", "src/lookup/permute.rs", "src/piop/prover.rs", TP],
 [("compression of tuples by a challenge", "construct_a_and_s_* in src/lookup/mod.rs"),
  ("sorted-column checks", "LookupArgument in src/lookup/mod.rs"),
  ("accumulator checks", "SubsetEqualityArgument in src/lookup/subset_equality.rs")],
 ["result of verify"], "value taps at the sorted columns and accumulators")
prop("C06", "Accepted evaluations are the evaluations of the committed columns",
 "If any value that a proof claims for a committed or preprocessed column at a queried point differs from the true value of that column there, the verifier does not accept. This includes claims chosen together so that the combined constraint balances, claims chosen after looking at the challenges, and proofs with missing or surplus opening data.",
 ["inputs", "fault_sequences", "histories"],
 "all circuits, all queried columns and points, all false claims incl. adaptively chosen ones, all numbers of opening values",
 "Tests open only true values; nothing checks that a false value is refused or that the number of opening values is right.",
 ["src/multiproof/piop/mod.rs", "src/multiproof/piop/prover.rs", "src/multiproof/poly.rs", "src/util.rs", TP],
 [("batch opening by rotation set", "Multiopen in src/multiproof/piop/mod.rs"),
  ("matching of claimed values with columns", "PIL::verify in src/turbo_plonk.rs")],
 ["result of verify"])
prop("C07", "A verifier's verdict does not depend on what it handled before",
 "A long-lived verifier gives each proof the verdict that a freshly built verifier would give it, whatever sequence of valid, invalid, truncated, replayed or aborted verifications came before, whichever other sessions run interleaved with it, and whether or not it crashed and restarted. Once faults stop, the next undamaged proof is accepted.",
 ["histories", "schedules", "crash_points", "fault_sequences"],
 "all sequences of deliveries and aborts on one verifier object, all interleavings of sessions, all crash points inside a verification",
 "Every test builds its verifier objects, verifies one proof and exits, while the verification call mutates those objects.",
 [TP, "src/oracles/witness.rs", "src/oracles/fixed.rs", "src/data_structures.rs"],
 [("verification overwrites the per-proof state kept in caller-owned columns", "PIL::verify in src/turbo_plonk.rs"),
  ("lookup of claimed values by point", "query in src/oracles/witness.rs and src/oracles/fixed.rs")],
 ["result of verify on reused objects compared with fresh objects"],
 None,
 [("claimed values and commitments", "kept inside the verifier's column objects between verifications", "src/oracles/witness.rs, src/oracles/fixed.rs")])
prop("C08", "Proving is repeatable",
 "With the same circuit, assignment, keys and randomness the prover produces byte-identical proofs, no matter how often its column objects were used before, whether an earlier attempt was aborted by a crash or an error at any point, or which other proving or verifying sessions run interleaved with it.",
 ["histories", "schedules", "crash_points"],
 "all earlier uses and aborted uses of the same prover objects, all interleavings with other sessions, all crash points",
 "Tests prove once per process object and never compare two proofs.",
 [TP, "src/piop/prover.rs", "src/oracles/witness.rs", "src/oracles/instance.rs"],
 [("extended evaluations are recomputed, no other state is kept", "PIL::prove in src/turbo_plonk.rs")],
 ["bytes of the proof"])
prop("C09", "Malformed proofs are refused with an error, not a crash",
 "Whatever bytes arrive as a proof, decoding and verifying them ends with acceptance or an error value in bounded time; the verifier never panics or hangs. Proofs with too few, too many or misplaced parts are refused with an error.",
 ["inputs", "fault_sequences"],
 "all byte strings and all structurally damaged proofs (any list shortened, lengthened, emptied or exchanged)",
 "No test feeds a malformed proof; the suite contains no negative verification test.",
 [TP, "src/multiproof/piop/mod.rs", "src/error.rs"],
 [("shape checks before use", "PIL::verify in src/turbo_plonk.rs")],
 ["result of decoding and of verify; panics; run time"])
prop("C10", "A proof is accepted only for the statement it was made for",
 "A valid proof is not accepted by a verifier whose public inputs, selectors, tables, wiring, gate definitions, number of usable rows, domain or setup differ from those it was made for. In particular nobody can pick public inputs after seeing a proof so that the proof is accepted for them. A verifier whose list of columns lacks one that the circuit reads, or knows it by another name, answers with an error.",
 ["inputs", "configurations", "fault_sequences"],
 "all pairs of different statements and all ways messages can be misrouted between their verifiers; adaptively chosen public inputs",
 "Tests verify a proof only against the statement it was created for.",
 [TP, "src/data_structures.rs", "src/indexer.rs", "src/oracles/instance.rs"],
 [("preprocessed columns enter the opening check through their commitments", "PIL::verify"),
  ("public inputs enter the transcript and the combined constraint", "PIL::verify")],
 ["result of verify"])
prop("C11", "Commitment-backend failures surface as errors",
 "If the commitment backend reports an error at any point of setup, key derivation, proving or verification, the call in progress returns an error: it does not panic, return a proof, or accept. A negative answer of the backend's opening check is a rejection, a setup too small for the circuit is an error, and after a failure the same objects can be used again successfully.",
 ["fault_sequences", "crash_points"],
 "every backend call index of every run, every circuit, single and repeated failures, undersized setups",
 "Tests use a backend that never fails; the error paths are never executed.",
 [TP, "src/multiproof/piop/mod.rs", "src/error.rs", "src/multiproof/error.rs"],
 [("error conversion at every backend call", "PIL::prove / PIL::verify / Multiopen")],
 ["results of setup, prove, verify under injected failures"])
prop("C12", "Every proof is freshly blinded from the caller's randomness",
 "Every commitment in a proof to data derived from the secret assignment is made hiding with randomness drawn from the caller's generator for that proof, and the unused rows of all helper columns are filled with such randomness. Hence two proofs of the same statement with independent randomness have no such commitment in common, and no proof repeats randomness of an earlier one.",
 ["inputs", "histories"],
 "all circuits and assignments, all pairs of runs with different generators, all earlier aborted runs",
 "Tests never look at blinding; removing it leaves every proof valid.",
 [TP, "src/piop/prover.rs", "src/permutation/grand_product.rs", "src/lookup/mod.rs", "src/lookup/subset_equality.rs", "src/oracles/witness.rs", "src/multiproof/piop/prover.rs"],
 [("hiding bound on secret columns", "to_labeled in src/oracles/witness.rs"),
  ("random tail rows", "construct_agg_poly and construct_a_and_s_polys_prover")],
 ["backend commit calls of the prover, commitments in the proof, draws from the caller's generator"])
prop("C13", "Every challenge depends on everything sent before it",
 "Each random challenge the verifier derives changes whenever any earlier prover message - any commitment or claimed value - or any public input changes, and prover and verifier derive the same challenges from the same messages. No two challenges of a proof are equal by construction.",
 ["inputs", "histories"],
 "every message slot of every round of every proof, every public input value, every circuit",
 "Tests only see that an honest pair agrees; a message missing from the transcript on both sides leaves every test green.",
 [TP, "src/multiproof/piop/mod.rs", "src/piop/verifier.rs", "src/multiproof/piop/verifier.rs", "src/rng.rs"],
 [("absorb before squeeze", "PIL::prove / PIL::verify / Multiopen"),
  ("chained hashing", "SimpleHashFiatShamirRng in src/rng.rs")],
 ["draws from the transcript generator"])
prop("C14", "The mock prover flags exactly the violated gates",
 "The mock prover accepts an assignment if and only if every gate holds on every row, and otherwise names a gate and a row at which it is really violated. On circuits without wiring and lookups it agrees with the real prover and verifier.",
 ["inputs", "fault_sequences"],
 "all circuits and assignments, all corruptions of single cells or sets of cells",
 "The mock prover is run on one passing and at most one failing example.",
 ["src/mock_prover.rs", "src/vo/expression.rs", "src/oracles/rotation.rs"],
 [("row-by-row evaluation", "MockProver::prove in src/mock_prover.rs")],
 ["panic message or success of the mock prover"])
prop("C15", "Proofs survive storage and transport byte for byte",
 "Writing a proof through a stream that accepts few bytes at a time, is interrupted, fails or fills up either stores exactly the canonical encoding or reports an error, and reading back through an equally bad stream either yields the original proof or reports an error. The announced size equals the number of bytes written, and decoding what was encoded gives a proof with the same verdict, with a size report (info, cumulative_info) that counts exactly the parts it holds.",
 ["fault_sequences", "inputs"],
 "all proofs of all circuits and all sequences of short, interrupted, failing or torn reads and writes",
 "Tests never serialise a proof.",
 [TP, "src/multiproof/mod.rs"],
 [("derived canonical encoding of the proof", "TPProof in src/turbo_plonk.rs, Proof in src/multiproof/mod.rs")],
 ["bytes written, value read, error results"])
prop("C16", "Commitment helper operations are group homomorphisms",
 "Linear combination, negation, scaling, addition, zero and comparison of KZG commitments, and the corresponding operations on their randomness, agree with the same operations on the committed polynomials. In particular an aggregate folded from commitments that arrive in any order, grouping, repetition pattern or by any of the equivalent helper calls is the same group element, is zero exactly when the combination is zero, compares equal exactly to equal commitments, and together with the folded randomness opens to the combined value and to no other. This includes equal and opposite commitments, zero polynomials, zero weights, empty lists and long lists.",
 ["inputs", "fault_sequences", "histories"], "all polynomials, hiding or not, scalars, list lengths, and orders and groupings of folding",
 "Tests use two helper calls on a few fixed sizes; equal, opposite and zero operands, long lists and the remaining helpers are never exercised.",
 ["src/commitment.rs"], [("KZG helper operations", "impl HomomorphicCommitment for KZG10 in src/commitment.rs")],
 ["returned commitments and randomness", "result of open and check on the aggregate"])
prop("C17", "Expression construction preserves meaning and degree",
 "A formula written with the arithmetic operators over virtual queries and then substituted with concrete columns, the same formula written directly over concrete columns, and clones of either, all evaluate - over field elements and over polynomials - to the value of the written formula; none reads a column or rotation that was not written; and the reported degree is at least the degree of the resulting polynomial. Prover, verifier and mock prover that build the formula independently, each for itself and again after a restart, therefore agree with each other and with what was written.",
 ["inputs", "programs", "histories"], "all expression trees over witness, instance and fixed queries with constants, negation, sums, differences, products, repeated factors and scaling",
 "Tests build a few formulas; most operator combinations (nested scaling, negated sums, subtraction of constants, repeated factors) never occur in them.",
 ["src/vo/expression.rs", "src/vo/virtual_expression.rs", "src/vo/generic_vo.rs", "src/lookup/mod.rs"], [("recursive evaluation and degree", "Expression::evaluate / degree in src/vo/expression.rs"), ("substitution", "VirtualExpression::to_expression in src/vo/virtual_expression.rs"), ("operators", "impl Add/Sub/Mul/Neg for Expression and VirtualExpression")],
 ["value and degree of the expression", "result of prove, verify and mock prove"])
prop("C18", "Unsatisfied statements are refused and leave no trace",
 "For every assignment that violates a gate, copy constraint or lookup, the prover as shipped either refuses (by an error or by one of its sanity assertions) or returns a proof that every verifier of that statement rejects without panicking. Afterwards the same prover and verifier objects, in the same process, prove and accept satisfied statements as if the attempt had not been made.",
 ["inputs", "histories", "fault_sequences"],
 "all circuits, all violations, all mixtures of refused, aborted, failed and successful sessions on the same objects",
 "Tests try one or two failing examples, each with objects made for it and dropped afterwards.",
 ["src/turbo_plonk.rs", "src/piop/prover.rs", "src/lookup/permute.rs", "src/lookup/subset_equality.rs", "src/permutation/mod.rs"],
 [("sanity assertions of the prover", "permute_for_lookup in src/lookup/permute.rs, src/lookup/subset_equality.rs, src/permutation/mod.rs"),
  ("rejection", "PIL::verify in src/turbo_plonk.rs")],
 ["result of prove and verify, also of later satisfied statements"])
prop("C19", "Multi-point openings hold exactly for true values",
 "For any list of committed polynomials (any degree the key admits, hiding or not, any number, each with any set of rotations of the opening point, empty and shared sets included) the multi-point opening proof made over a transcript is accepted by every verifier that holds the same commitments, the true values and an equal transcript, whatever proofs it has checked before. It is never accepted for a claimed value other than the committed polynomial's, even if the prover made its transcript over the false value and adapted every later message to it; nor after any part of it was changed, swapped or spliced; nor without a needed value or commitment. Errors of the commitment scheme surface as errors, and nothing panics.",
 ["inputs", "histories", "fault_sequences"],
 "all lists of polynomials, degrees, rotation sets and hiding bounds; all provers deviating in claims and later messages; all histories of a verifier; every backend call failing",
 "The one test of this module opens one fixed list of polynomials and checks acceptance; soundness speaks about every false claim and every adaptive prover.",
 ["src/multiproof/piop/mod.rs", "src/multiproof/piop/prover.rs", "src/multiproof/piop/verifier.rs", "src/multiproof/poly.rs", "src/oracles/rotation.rs"],
 [("opening by sets of points", "Multiopen::prove in src/multiproof/piop/mod.rs"),
  ("verification", "Multiopen::verify in src/multiproof/piop/mod.rs, src/multiproof/piop/verifier.rs")],
 ["result of Multiopen::prove and Multiopen::verify"])
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
