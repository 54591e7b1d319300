N.update({
 "C11": ("bodies of circuits enumerated by the specification, proven and verified for real", "Exhaustive enumeration of bodies per shape, a balanced sample of them proven with each scheme; honest prover code only (dishonest ones: C13)."),
 "C12": ("bodies of circuits enumerated by the specification, checked by the real MockProver with both planners", "Exhaustive within the bounds of each shape up to a cap."),
 "C13": ("adversary model of the prover: every dishonest message of the protocol model replayed as a forged proof (made with the trapdoor of the test parameters) into the real verifier; real transcripts checked against the model's script", "Ten constraint systems, one and two witnesses, three opening schemes; forged proofs for the two KZG schemes, tampered proofs for IPA."),
})
N.update({
 "C14": ("operations over small fields enumerated and evaluated by the specification, replayed into the generic code", "Exhaustive for domains of up to 4 points over 13 elements (thorough: all polynomials), structured and seeded polynomials for larger domains and fields."),
 "C15": ("sponge histories enumerated by the specification (constants, plain permutation and sponge written out), replayed into both Poseidon implementations", "All chunkings within the bounds, widths 2 to 9, the field of 12289 elements."),
 "C16": ("all pairs of fractions enumerated by the specification, replayed into the real code", "Exhaustive over the field of 13 elements (thorough), representatives over 97."),
})
N.update({
 "C17": ("histories of transcript operations and tampered encodings enumerated by the specification, replayed into the real transcripts; challenges recomputed from the specified strings", "All histories of up to 3 (4) operations over boundary values, four curves, three hashes."),
 "C18": ("batches of proofs with errors, including cooperative ones, enumerated by the specification and replayed through the accumulating strategies", "Batches of up to 3 (4) proofs on real keys, larger ones on the specification."),
})
N.update({
 "C20": ("sequences of group operations on multiples of the generator, in every representation, and multi-scalar sums enumerated by the specification and replayed into the real curves", "All pairs of multiples -3..3 in four representations, sequences of 4 operations, sums of up to 130 terms, five curves."),
 "C21": ("operands enumerated limb by limb by the specification, operations recorded from the real code, and every recorded step checked by TLC against exact integer arithmetic", "Operands whose limbs are combinations of boundary values plus random ones, four fields."),
})
N.update({
 "C19": ("a reader over encodings with faults (tampered slots, early ends) enumerated by the specification; each altered encoding built and read by the real code; keys of enumerated circuits written, read and used", "All single faults (pairs of faults where there are few slots) for field elements, points, parameters and keys in each format."),
 "C22": ("elements and operations of small instances and of the real tower enumerated by the specification with exact integers, replayed into the real fields; pairings of multiples of the generators replayed", "Sparse elements of every pattern, small coefficients, seeded dense ones; multiples -1..5 of the generators."),
 "C23": ("polynomials and cut-down sizes enumerated by the specification, committed to by the real code with a known secret point", "Sizes 2^0..2^6 (2^7), polynomials of small coefficients and seeded dense ones."),
})
N.update({
 "C24": ("the relation of each gadget enumerated in full over a small field by the specification; the constraint system the real gadget builds is recorded and all its solutions are enumerated and compared", "Exhaustive: all inputs and all assignments over 13 elements (97 for the larger windows), all window sizes and counts that fit."),
 "C25": ("permutations and sponges evaluated by the specification (unoptimised rounds) over a small field; the constraint system the real chip builds is recorded and all its solutions are enumerated and compared", "All words of small states and messages to length 3 for the chip, length 5 for the host sponge; five choices of field, width and rounds."),
})
N.update({
 "C26": ("the group law on small curves gives the exact relation of each gadget, compared with all solutions of the recorded constraint system over that field; on the real curve multiples and scalars enumerated by the specification are replayed into the chip, its witness compared, the result tested for freedom (linearised constraints), and a dishonest prover tries to solve the constraints for a different result", "Additions, witnessing, equality: exhaustive over 7 elements, sampled over 37. Multiplications: scalars at all powers of two and the ends of the field plus dense ones; forged tables are searched for in the vicinity of other scalars, congruent integers and other bases, not exhaustively."),
 "C27": ("Sinsemilla step by step over formal sums of generators, with the closed form and injectivity checked by TLC; every result the specification names is compared with the real hash, commitment, Merkle layer and path outside and inside the circuit; the recorded constraints are tested for freedom and a dishonest prover tries to solve them for another result or another input", "All 1024 words, message lengths around the word boundaries, pieces of 1 to 25 words, levels up to 1023, all positions of a tree of depth 3. Forged tables are searched for, not excluded."),
})
