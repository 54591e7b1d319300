p("C09", "Honest transactions are accepted by the on-chain verifier",
  "For every program and input on which the machine completes having read all its input, the prover produces a transaction whose program and input witnesses are the compiled program and the input, and the on-chain verifier accepts it. "
  "For a program that faults the prover produces no transaction.",
  ["programs", "inputs", "configurations"], "every balanced program and input whose witnesses fit the verifier's buffers, every circuit size the prover picks for the run's length",
  "The repository never runs the prover and the on-chain verifier together in a test; run lengths next to a power of two are never tried.",
  ["ckb_bf_prover/src/main.rs", "ckb_bf_prover/src/ckb_tx.rs", "ckb_bf_verifier/src/main.rs", "ckb_bf_base/src/utils.rs"],
  [("choice of the circuit size and proof creation", "ckb_bf_prover/src/main.rs"), ("witness layout", "ckb_bf_prover/src/ckb_tx.rs"), ("witness loading and verification", "ckb_bf_verifier/src/main.rs")],
  observe=["res/tx.json written by the prover", "exit code of the verifier entry point"])
p("C10", "The on-chain verifier rejects every tampered transaction",
  "With authentic parameters and verifying key, the verifier returns success only for the program and input bytes the proof was made for. "
  "A missing, truncated, oversized, swapped or foreign witness, any changed byte of the proof, and any changed, added or removed program cell or input byte (zeros included) never yields success.",
  ["inputs", "fault_sequences"], "every honest transaction and every edit of its witness list or witness bytes",
  "No test feeds tampered witnesses to the verifier entry point.",
  ["ckb_bf_verifier/src/main.rs", "ckb_bf_base/src/utils.rs", "halo2_proofs/src/plonk/verifier.rs", "halo2_proofs/src/transcript.rs"],
  [("witness loading with length checks", "ckb_bf_verifier/src/main.rs"), ("proof verification", "halo2_proofs/src/plonk/verifier.rs")],
  observe=["return value of the verifier entry point (an abort counts as rejection)"])
HP = "halo2_proofs/src/"
p("C11", "A proof verifies exactly when the circuit is satisfied",
  "For every circuit, witness and public values, the proof made by the prover verifies if and only if the witness satisfies every gate, lookup and equality of the circuit. "
  "This holds for each commitment and opening scheme, for both floor planners, for circuits with several phases and challenges, for any table size, and for several witnesses proven together (which verify only if all of them are satisfied).",
  ["programs", "inputs", "configurations"], "every circuit shape (columns, phases, rotations, selectors, lookups, equalities, constants), every assignment, every table size, one or several witnesses",
  "The tests prove one or two fixed circuits with satisfying witnesses; unsatisfied witnesses and other circuit shapes are hardly proven at all.",
  [HP + "plonk/keygen.rs", HP + "plonk/prover.rs", HP + "plonk/verifier.rs", HP + "plonk/evaluation.rs", HP + "plonk/lookup/", HP + "plonk/permutation/", HP + "plonk/vanishing/", HP + "plonk/circuit/compress_selectors.rs", HP + "poly/"],
  [("proof creation and quotient evaluation", HP + "plonk/prover.rs"), ("proof verification", HP + "plonk/verifier.rs"), ("selector compression", HP + "plonk/circuit/compress_selectors.rs")],
  observe=["result of verify_proof on the output of create_proof"])
p("C12", "The mock prover reports a failure exactly when the circuit is not satisfied",
  "For every circuit and assignment, MockProver::verify succeeds if and only if every gate holds on every row, every lookup input is in its table, and every equality, constant and public value matches, provided every cell a switched-on gate reads was assigned. "
  "The sequential and the parallel check agree, with either floor planner.",
  ["programs", "inputs"], "every circuit shape and assignment whose gates read assigned cells only",
  "The tests look at a handful of failing circuits; a failure that is missed on some other shape goes unnoticed.",
  [HP + "dev.rs", HP + "dev/", HP + "circuit/floor_planner/"], [("constraint checking", HP + "dev.rs"), ("region placement", HP + "circuit/floor_planner/")],
  observe=["result of MockProver::verify and verify_par"])
p("C13", "The verifier accepts only proofs that follow the whole protocol",
  "Whoever made the proof, the verifier accepts only if every identity of the circuit (each gate, lookup and permutation constraint, of every witness) holds at the evaluation point and every evaluation the proof claims is opened against its commitment. "
  "Every message, public value and verifying key is bound by each challenge drawn after it, so no message can be chosen knowing a challenge that should depend on it; two different claims for one commitment at one point are refused.",
  ["inputs", "histories"], "every constraint system, every number of witnesses, every sequence of prover messages (honest or not), for the GWC, SHPLONK and IPA openings",
  "Tests only run the honest prover against the verifier; a check the verifier forgets or a message it forgets to bind is invisible to them.",
  [HP + "plonk/verifier.rs", HP + "plonk/lookup/verifier.rs", HP + "plonk/permutation/verifier.rs", HP + "plonk/vanishing/verifier.rs", HP + "poly/kzg/multiopen/", HP + "poly/ipa/", HP + "transcript.rs"],
  [("proof verification", HP + "plonk/verifier.rs"), ("openings", HP + "poly/kzg/multiopen/shplonk/verifier.rs"), ("challenges", HP + "transcript.rs")],
  observe=["result of verify_proof on constructed proofs", "order of transcript operations of prover and verifier"])
p("C14", "Polynomial and evaluation-domain arithmetic is exact",
  "For every domain size, quotient degree and polynomial, converting between coefficients, values over the domain and values over the extended domain is lossless and agrees with evaluating the polynomial. "
  "Sums, products, scalings, rotations (any sign), division by the vanishing polynomial, division by a linear factor, interpolation through any points, evaluation and the Lagrange values at a point outside the domain are the mathematical results.",
  ["inputs", "configurations"], "every field, domain size, extension degree, polynomial, point and rotation",
  "The tests look at random polynomials of one size; other sizes, extension degrees, rotations and degenerate polynomials are not tried.",
  [HP + "poly/domain.rs", HP + "poly.rs", HP + "arithmetic.rs"], [("evaluation domain", HP + "poly/domain.rs"), ("FFT, interpolation, division", HP + "arithmetic.rs")],
  observe=["results of the public polynomial operations"])
p("C15", "The Poseidon hash follows its published definition for every message",
  "For every width, round numbers and field, the round constants and matrix are those the published generator produces, the optimised permutation equals the plain one, and the hash of a message is the sponge of the definition, for messages of any length. "
  "Feeding a message in any chunks gives the same digest, and successive squeezes never repeat or skip absorbed data.",
  ["inputs", "histories", "configurations"], "every field, width, round number, message and sequence of update and squeeze calls",
  "The tests compare a few fixed digests at one width; other widths, message lengths and call sequences are not covered.",
  ["poseidon/src/", "halo2_gadgets/src/poseidon/primitives.rs", "halo2_gadgets/src/poseidon/primitives/"],
  [("sponge and optimised permutation", "poseidon/src/"), ("constant generation", "halo2_gadgets/src/poseidon/primitives/grain.rs")],
  observe=["digests", "generated constants"])
p("C16", "Deferred division and unknown values compute exactly",
  "Every expression of sums, products, negations, squares and inversions over deferred fractions evaluates to the value of the same expression over field elements in which dividing by zero gives zero, and equality, zero tests and batch evaluation agree with it. "
  "An operation with an unknown value is unknown, with known values it is the operation on them, and errors are reported exactly when a known value violates the condition.",
  ["inputs"], "every pair of fractions including zero numerators and denominators, every combination of known and unknown values",
  "The tests sample random fractions; unusual combinations with a zero denominator are reached only by luck.",
  [HP + "plonk/assigned.rs", HP + "circuit/value.rs", HP + "poly.rs"], [("fraction arithmetic", HP + "plonk/assigned.rs"), ("unknown values", HP + "circuit/value.rs"), ("batch evaluation", HP + "poly.rs")],
  observe=["value of the expressions"])
p("C17", "A challenge is the hash of everything said before it, and proofs are read back as written",
  "For every sequence of transcript operations, a challenge is the documented hash of all values absorbed before it (common and written, points and scalars, and earlier challenges), distinguishing their kind and order, and prover and verifier derive the same. "
  "Reading a proof yields exactly the values written, in order. A truncated item, a coordinate or scalar that is not reduced, a point off the curve, and the identity on curves whose transcript has no encoding for it are refused; replacing a written value changes every later challenge.",
  ["histories", "inputs", "fault_sequences"], "every sequence of operations and values, for the BLAKE2b, Keccak and Poseidon transcripts and every curve",
  "The tests compare the challenges of two fixed transcripts; order, kind, boundary values and malformed encodings are not tried.",
  [HP + "transcript.rs", HP + "transcript/", "halo2curves/src/derive/curve.rs"], [("BLAKE2b and Keccak transcripts", HP + "transcript.rs"), ("point decoding", "halo2curves/src/derive/curve.rs")],
  observe=["challenges", "proof bytes", "values read", "errors"])
p("C18", "Batch verification accepts exactly when every proof in the batch is valid",
  "A batch checked with an accumulating strategy is accepted if and only if each proof in it would be accepted on its own. "
  "In particular errors in several proofs cannot be chosen to cancel, whatever the maker of the proofs knows before the batch is verified.",
  ["inputs", "histories"], "every batch size and every combination of valid and (cooperatively) invalid proofs, for the GWC, SHPLONK and IPA openings",
  "The tests accumulate one valid proof; batches with errors that cancel each other are never tried.",
  [HP + "poly/strategy.rs", HP + "poly/kzg/strategy.rs", HP + "poly/kzg/msm.rs", HP + "poly/ipa/strategy.rs", HP + "poly/ipa/msm.rs"], [("accumulation", HP + "poly/kzg/strategy.rs"), ("IPA accumulation", HP + "poly/ipa/strategy.rs")],
  observe=["verdict of AccumulatorStrategy"])
HC = "halo2curves/src/"
p("C20", "Curve points form the group of the published curve, and multi-scalar multiplication is exact",
  "For every curve and every pair of points in any representation (affine, or projective with any scaling, the identity included), addition, subtraction, negation, doubling, scalar multiplication, conversion, equality and conditional selection give the point of the published group law; generators lie on the curve and have the stated order. "
  "Every multi-scalar multiplication gives the sum of the products, for any number of terms and for any scalars and points, zeros, repetitions, inverses and the identity included.",
  ["inputs", "histories"], "every pair of points in every representation, every scalar, sums of any length, every number of threads",
  "The tests use random points and scalars; equal, opposite and identity points, boundary scalars and the different representations of one point are met hardly ever.",
  [HC + "derive/curve.rs", HC + "bn256/curve.rs", HC + "secp256k1/curve.rs", HP + "arithmetic.rs"], [("group law", HC + "derive/curve.rs"), ("multi-scalar multiplication", HP + "arithmetic.rs")],
  observe=["coordinates of the results", "equality"])
p("C21", "Prime-field arithmetic is exact",
  "For every prime field of the repository's curves and all elements, addition, subtraction, negation, multiplication, squaring, doubling, cubing, powers, inversion, square roots and comparison give the integers modulo the prime, reduced to the unique representative, and conversions from and to integers and byte strings agree with it. "
  "The published constants (roots of unity, generator, inverse of two, modulus) are consistent.",
  ["inputs"], "all elements of each of the four fields, in particular those whose limbs are at the limits of carries and of the final reduction",
  "The tests use random elements, for which a lost carry at a limit has negligible probability.",
  [HC + "derive/field.rs", HC + "arithmetic.rs", HC + "bn256/fq.rs", HC + "bn256/fr.rs", HC + "secp256k1/fp.rs", HC + "secp256k1/fq.rs"],
  [("Montgomery arithmetic", HC + "derive/field.rs"), ("inversion, square roots, constants", HC + "bn256/fr.rs")],
  observe=["canonical byte representation of the results", "comparison", "errors"])
p("C19", "Encodings are exact: what is written is read back as the same object, and what encodes nothing is refused",
  "Field elements, curve points, commitment parameters, verifying keys and proving keys, written in a format, are read back in that format as an equal object that behaves the same (the same proofs, the same verdicts), and writing that again gives the same bytes. "
  "A checked format never yields an object that is not valid: numbers that are not reduced, points that are not on the curve, stray bits and encodings that end early are refused with an error, not a panic. No object has two encodings in a format (beyond the scaling of projective coordinates).",
  ["inputs"], "every object and every alteration of its encoding, for each of the formats",
  "The tests write random objects and read them back; altered and shortened encodings are never read.",
  [HC + "derive/curve.rs", HC + "derive/field.rs", HC + "bn256/fq2.rs", HC + "serde.rs", HP + "helpers.rs", HP + "plonk.rs", HP + "plonk/permutation.rs", HP + "plonk/circuit/compress_selectors.rs", HP + "poly/kzg/commitment.rs", HP + "poly/ipa/commitment.rs"],
  [("points", HC + "derive/curve.rs"), ("keys", HP + "plonk.rs"), ("parameters", HP + "poly/kzg/commitment.rs")],
  observe=["objects read", "bytes written again", "errors"])
p("C22", "The extension fields and the pairing of BN256 are what they are defined to be",
  "In each of the three extension fields, every operation (including the specialised ones: products with sparse elements, products with the non-residue, squaring in the cyclotomic subgroup, conjugation and Frobenius maps of every power, inversion, square roots, equality and the test for zero) gives the result of the definition by polynomials. "
  "The pairing is bilinear in both arguments and non-degenerate, a product of several pairings is the product of them whatever identities it includes, and the target group is a group with the exponents as scalars.",
  ["inputs", "histories"], "every element of each extension field, sparse ones included; every pair of points; products of any number of pairings",
  "The tests use random elements, for which every coefficient is non-zero and different.",
  [HC + "bn256/fq2.rs", HC + "bn256/fq6.rs", HC + "bn256/fq12.rs", HC + "bn256/engine.rs"], [("tower", HC + "bn256/fq12.rs"), ("pairing", HC + "bn256/engine.rs")],
  observe=["coefficients of the results", "equality of target group elements"])
p("C23", "A commitment determines the polynomial's value at the secret point, whatever form and size are used",
  "For every polynomial, committing to its coefficients or to its values on the domain gives the same point: for KZG the value at the secret point times the generator, for IPA the sum of the generators with the coefficients and the blinding factor. "
  "Parameters cut down to a smaller size, in any number of steps, are those generated at that size.",
  ["inputs", "histories"], "every polynomial and every sequence of sizes, for both commitment schemes",
  "The tests compare one random polynomial at one size, and never cut parameters down and use them.",
  [HP + "poly/kzg/commitment.rs", HP + "poly/ipa/commitment.rs", HP + "poly/commitment.rs"], [("KZG", HP + "poly/kzg/commitment.rs"), ("IPA", HP + "poly/ipa/commitment.rs")],
  observe=["commitments", "parameters"])
HG = "halo2_gadgets/src/"
p("C24", "The utility gadgets admit exactly the values they promise",
  "Whatever a prover writes into the table, the values a caller sees of a gadget (conditional swap, decomposition by a running sum, range check by lookup and its short variant, Boolean, ternary and range checks) are in the relation the gadget stands for, "
  "and every input that has such values is provable, with the values the gadget returns. A strict decomposition exists only for elements that fit the windows and is unique. The helpers on bits give the bits of the canonical integer.",
  ["inputs", "histories"], "every input and every choice of all cells of the table by a dishonest prover; every window size and count; both floor planners",
  "The tests prove a few honest inputs and a few hand-made wrong ones; they cannot tell whether some other assignment of the hidden cells would pass.",
  [HG + "utilities.rs", HG + "utilities/"], [("conditional swap", HG + "utilities/cond_swap.rs"), ("running sum", HG + "utilities/decompose_running_sum.rs"), ("lookup range check", HG + "utilities/lookup_range_check.rs"), ("helpers", HG + "utilities.rs")],
  observe=["values of the returned cells", "satisfiability of the constraint system built by the gadget"])
p("C25", "The Poseidon chip proves the Poseidon hash and nothing else",
  "For every input, the permutation, sponge and hash gadgets give the value of the published permutation and sponge, the constraint system they build is satisfied by it, and no other output cell values satisfy it for the same inputs, whatever a prover writes into the remaining cells.",
  ["inputs", "histories"], "every input word, message length and domain; every assignment of the cells by a dishonest prover; widths 2 and 3, several numbers of rounds",
  "The tests hash one or two random messages with an honest prover.",
  [HG + "poseidon.rs", HG + "poseidon/pow5.rs", HG + "poseidon/primitives.rs"], [("chip", HG + "poseidon/pow5.rs"), ("sponge gadget", HG + "poseidon.rs")],
  observe=["values of the output cells", "satisfiability of the constraint system built by the chip"])
p("C26", "The curve gadgets prove the group operation and nothing else",
  "Witnessing a point, complete and incomplete addition, equality, coordinate extraction, and multiplication of a variable or fixed base (full-width, short signed and base-field scalars) through the elliptic curve chip give, for every operand its contract allows, the point of the group law on Pallas, and the constraint system they build is satisfied by it; coordinates off the curve, the identity where a non-identity point is asked for, operands of incomplete addition with opposite values, magnitudes of 64 bits or more and signs other than 1 and -1 cannot be proved; and for the given inputs no other value of the result satisfies the constraints, whatever a dishonest prover writes into the remaining cells (in particular not the multiple by another integer congruent to the scalar, nor the multiple of another base).",
  ["inputs", "histories"], "every pair of points with all coincidences (identity, equal, opposite); every scalar incl. the ends of the field; every assignment of the cells by a dishonest prover",
  "The tests use a handful of points and scalars with an honest prover, so a missing constraint or copy is invisible.",
  [HG + "ecc.rs", HG + "ecc/chip.rs", HG + "ecc/chip/"], [("addition", HG + "ecc/chip/add.rs"), ("incomplete addition", HG + "ecc/chip/add_incomplete.rs"), ("variable base", HG + "ecc/chip/mul.rs"), ("canonicity of the scalar", HG + "ecc/chip/mul/overflow.rs"), ("fixed base", HG + "ecc/chip/mul_fixed.rs"), ("canonicity of a base-field scalar", HG + "ecc/chip/mul_fixed/base_field_elem.rs")],
  observe=["values of the returned cells", "satisfiability of the constraint system built by the chip"])
p("C27", "The Sinsemilla hash, commitment and Merkle path prove what they compute",
  "For every message, the Sinsemilla hash outside the circuit is the defined combination of the domain's starting point and the generators of the ten-bit words of the zero-padded message, and the commitment adds the blinding multiple of the domain's blinding base. "
  "The gadgets give the same results for messages cut into pieces in any way, and the constraint system they build is satisfied by them; a piece whose value does not fit into the words announced for it cannot be proved. "
  "A Merkle layer hashes the level, the left and the right node in that order, and a Merkle path goes up on the side given by each bit of the position, with any number of chips. "
  "For given inputs no other result satisfies the constraints, whatever a dishonest prover writes into the remaining cells (except that a Merkle layer may encode a node by any 255-bit number congruent to it), and no other input gives the same result.",
  ["inputs", "histories"], "every message and way of cutting it into pieces; every level, pair of nodes and position; every assignment of the cells by a dishonest prover",
  "The tests hash a few messages with an honest prover, so a missing constraint or copy is invisible.",
  [HG + "sinsemilla.rs", HG + "sinsemilla/"], [("hash outside the circuit", HG + "sinsemilla/primitives.rs"), ("hash gadget", HG + "sinsemilla/chip/hash_to_point.rs"), ("generator table", HG + "sinsemilla/chip/generator_table.rs"), ("gates", HG + "sinsemilla/chip.rs"), ("Merkle layer", HG + "sinsemilla/merkle/chip.rs"), ("Merkle path", HG + "sinsemilla/merkle.rs")],
  observe=["points and field elements returned", "satisfiability of the constraint system built by the chips"])
