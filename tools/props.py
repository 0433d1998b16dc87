#!/usr/bin/env python3
"""The property list; writes properties.jsonl and MANIFEST.json.
usage: props.py            (a property without an entry in specs.SPECS goes to
                            not_applicable with the reason in NA)"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/tools")
from specs import SPECS

P = []


def prop(id, title, statement, over, text, why, files, mechanism, observe=(), state=(), hook=None):
    a = dict(files=["tachyon/" + f for f in files],
             mechanism=[dict(name=n, where="tachyon/" + w) for n, w in mechanism])
    if observe:
        a["observe_at"] = list(observe)
    if state:
        a["state"] = [dict(name=n, meaning=m, where="tachyon/" + w) for n, m, w in state]
    a["hook_needed"] = hook
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why, anchors=a))


FF = "math/finite_fields/"
EC = "math/elliptic_curves/"
PU = "math/polynomials/univariate/"
PM = "math/polynomials/multivariate/"

prop("P01", "Prime-field arithmetic is exact and canonical",
     "For every prime field the library ships (256/381/384-bit, Goldilocks, BabyBear, KoalaBear, Mersenne31 and small test fields), addition, subtraction, negation, doubling, multiplication, squaring, division and inversion, in value, in-place and self-aliased form, equal arithmetic modulo the prime, including operands at 0, 1, p-1 and carry or Montgomery boundaries. Every result is the unique canonical representative, so equality, ordering, hashing and conversions to and from integers, decimal and hex strings agree with the integer value, and inverting or dividing by zero is reported rather than returning a value.",
     ["inputs", "configurations"],
     "all operand pairs of every shipped prime field and every operator form (value, in-place, aliased)",
     "Unit tests check a few constants and random values of a couple of fields; carries, conditional subtraction and Montgomery reduction fail only on boundary operands of probability about 2^-64.",
     [FF + "prime_field_fallback.h", FF + "small_prime_field.h", FF + "small_prime_field_mont.h", FF + "prime_field_base.h",
      "math/base/byinverter.h", "math/base/arithmetics.h", FF + "generator/prime_field_generator/prime_field_generator.cc",
      FF + "mersenne31", FF + "goldilocks", FF + "baby_bear", FF + "koala_bear", EC],
     [("Montgomery multiplication and conditional subtraction", FF + "prime_field_fallback.h"),
      ("Bernstein-Yang inversion", "math/base/byinverter.h"),
      ("generated constants of each field", FF + "generator/prime_field_generator/prime_field_generator.cc")],
     ["every operator's result against GMP", "the raw stored value against the modulus"])

prop("P02", "Derived field operations match their definitions",
     "For every prime field, powers (with any exponent size and with precomputed tables), lists of successive powers, batch inversion with and without a coefficient, square roots and Legendre symbols, roots of unity, sums of products, powers-of-two scaling and linear combinations equal the value their definition gives from single multiplications and additions, for every length including zero and one and every position of a zero element. An operation with no answer (a non-residue, a root of unity of an unsupported order) says so instead of returning a value, and optional parallel execution changes nothing.",
     ["inputs", "configurations"],
     "all fields, exponents, vector lengths 0..n, zero placements, thread counts 1..8",
     "Tests use one vector length and a few exponents; the chunk boundaries, zero elements inside batches and length 0/1 edge cases are not sampled.",
     ["math/base/semigroups.h", "math/base/groups.h", "math/base/ring.h", "math/base/field.h", FF + "finite_field.h", FF + "square_root_algorithms", FF + "prime_field_base.h"],
     [("Pow / successive powers", "math/base/semigroups.h"), ("Montgomery batch inversion", "math/base/groups.h"),
      ("Tonelli-Shanks and Shanks square root", FF + "square_root_algorithms")],
     ["results of each helper against a loop over multiplications"])

prop("P03", "Fixed-width big integers compute exactly",
     "For every limb count, addition, subtraction, doubling, multiplication (truncating and extending), division, remainder, shifts, bitwise operations, comparison, bit and byte extraction and carry or borrow reporting on big integers equal integer arithmetic modulo 2^(64N). Conversions to and from decimal and hex strings, bytes, bits, GMP integers and native integers round-trip, and text that is malformed or does not fit is rejected.",
     ["inputs"], "all pairs of N-limb integers, N = 1..9, all shift amounts and bit ranges",
     "Unit tests check two or three fixed values per operator; carry chains, shift amounts at limb boundaries and quotient corner cases are unreached.",
     ["math/base/big_int.h", "math/base/big_int.cc", "math/base/arithmetics.h", "math/base/bit_iterator.h", "math/base/bit_traits_forward.h", "math/base/gmp"],
     [("carry/borrow primitives", "math/base/arithmetics.h"), ("long division, shifts", "math/base/big_int.h")])

prop("P04", "Extension fields are the stated algebras",
     "For every quadratic, cubic, quartic, sextic and twelfth-degree extension field and tower the library ships, multiplication, squaring, inversion, Frobenius maps, conjugation, norm, cyclotomic squaring and exponentiation, base-field mixing and conversion to and from base-field coefficients equal polynomial arithmetic modulo the tower's irreducible polynomials. Results are identical in value, in-place and self-aliased form; inverting zero is reported.",
     ["inputs", "configurations"], "all element pairs of each shipped extension, all Frobenius powers",
     "Tests compare a handful of random elements on small test fields; each shipped tower has its own formulas and constants.",
     [FF + "quadratic_extension_field.h", FF + "cubic_extension_field.h", FF + "quartic_extension_field.h", FF + "fp2.h", FF + "fp3.h", FF + "fp4.h", FF + "fp6.h", FF + "fp12.h", FF + "extension_field_base.h", FF + "cyclotomic_multiplicative_subgroup.h", FF + "generator/ext_field_generator"],
     [("Karatsuba/Toom formulas", FF + "cubic_extension_field.h"), ("Frobenius coefficients", FF + "generator/ext_field_generator")])

prop("P05", "Binary tower fields are exact",
     "For binary tower fields of 1 to 128 bits, addition, multiplication, squaring, inversion, multiplication by the tower generator and by subfield elements equal the recursive tower definition, in value, in-place and self-aliased form. Subfields embed consistently, powers, batch inversion and text or integer conversions agree with it, and the inverse of zero is reported.",
     ["inputs"], "all pairs for 1..8-bit fields, boundary and random pairs for 16..128-bit fields",
     "Tests use random samples; tables and carry-less recursion are exhaustible only for the small fields.",
     [FF + "binary_fields"], [("tower multiplication", FF + "binary_fields/binary_tower_operations.h")])

prop("P06", "Vectorised field arithmetic equals scalar arithmetic",
     "Every packed (AVX2, AVX-512) prime-field or extension-field operation produces in each lane exactly the canonical value that the scalar field produces for that lane's operands, for all lane values including 0, 1, p-1 and mixed lanes, and never lets one lane influence another.",
     ["inputs", "configurations"], "all lane contents, all packed fields available on the machine (AVX2 and AVX-512 code paths)",
     "Tests check random lanes; reduction corner cases (p-1 times p-1, borrow wrap) are of negligible probability.",
     [FF + "baby_bear/internal", FF + "koala_bear/internal", FF + "mersenne31/internal", FF + "packed_prime_field32_avx2.h", FF + "packed_prime_field32_avx512.h", FF + "packed_field_traits_forward.h"],
     [("SIMD Montgomery reduction", FF + "packed_prime_field32_avx2.h")])

prop("P07", "Elliptic-curve group laws hold in every representation",
     "For every shipped curve and twist, points in affine, Jacobian, homogeneous-projective and XYZZ coordinates form one group: addition, mixed addition, subtraction, doubling and negation agree across representations and with the chord-and-tangent formulas, including identity operands, equal and opposite operands, and operands with different scalings. Equality, hashing-free comparison, conversion (single and batch), curve membership and subgroup checks depend only on the mathematical point, and results stay on the curve.",
     ["inputs", "configurations"], "all pairs of points incl. P+P, P-P, P+0, every curve and coordinate system, every aliasing form",
     "Tests use one small-field curve with a few points; special-case branches per representation and per real curve are not crossed.",
     [EC + "short_weierstrass", "math/geometry/point_conversions.h", "math/geometry"],
     [("addition/doubling formulas", EC + "short_weierstrass"), ("conversion between coordinates", "math/geometry/point_conversions.h")])

prop("P08", "Scalar and multi-scalar multiplication equal repeated addition",
     "Single scalar multiplication (double-and-add, endomorphism-accelerated and fixed-base with any window) and multi-scalar multiplication (every bucket algorithm, window strategy and parallel split) equal the sum of scalar times base computed by repeated addition. This holds for every input length including zero and one, duplicate and opposite bases, identity bases, and scalars 0, 1, r-1, small or all equal.",
     ["inputs", "configurations", "schedules"], "all curves, lengths, scalar distributions, window sizes and thread counts",
     "Tests use uniformly random scalars and bases, so zero/duplicate buckets, carry out of the top window and collisions inside batched additions do not occur.",
     [EC + "msm", EC + "semigroups.h", EC + "msm/glv.h", "math/base/semigroups.h", "math/base/bit_iterator.h"],
     [("Pippenger buckets", EC + "msm/algorithms/pippenger"), ("fixed-base window tables", EC + "msm/fixed_base_msm.h")])

prop("P09", "Pairings are bilinear and non-degenerate",
     "For each pairing-friendly curve shipped, the pairing of scaled points equals the pairing raised to the product of the scalars, multi-pairings equal the product of single pairings, pairing with the identity gives one, the pairing of generators is not one, and every value lies in the r-th roots of unity.",
     ["inputs", "configurations"], "all pairs of points in both groups and all list lengths",
     "A test checks one random bilinearity instance per curve.",
     [EC + "pairing", EC + "bn", EC + "bls12"], [("Miller loop, final exponentiation", EC + "pairing")])

prop("P10", "FFTs evaluate and interpolate exactly",
     "For every domain kind (radix-2, mixed-radix, small), size and coset, the FFT of a polynomial equals its evaluations at the domain points in order, the inverse FFT interpolates and is its exact inverse, and domain elements, vanishing polynomial, Lagrange coefficients, filters and coset derivations satisfy their definitions, for inputs shorter than, equal to, or as degree-aware as the domain. Two-adic batch FFTs over matrices equal the naive evaluation column by column, and results do not depend on the number of threads.",
     ["inputs", "configurations"], "all domain sizes and kinds, input degrees 0..size-1, cosets, thread counts",
     "Tests cover one or two sizes with dense random polynomials; degree-aware shortcuts, in-place/out-of-place variants and chunk boundaries vary with size.",
     [PU + "univariate_evaluation_domain.h", PU + "radix2_evaluation_domain.h", PU + "mixed_radix_evaluation_domain.h", PU + "naive_batch_fft.h", PU + "radix2_twiddle_cache.h", PU + "two_adic_subgroup.h"],
     [("butterflies and bit reversal", PU + "radix2_evaluation_domain.h"), ("mixed radix split", PU + "mixed_radix_evaluation_domain.h")])

prop("P11", "Univariate polynomial algebra is exact",
     "Dense, sparse and evaluation-form univariate polynomials behave as one polynomial ring: addition, subtraction, multiplication, scaling, division with remainder, evaluation, conversion between forms, folding, construction from roots, linear combination, and Lagrange interpolation agree with evaluation at points and the schoolbook definition. Degrees and equality ignore representation, and operations in value, in-place and mixed-form variants give the same result.",
     ["inputs"], "all pairs of polynomials incl. zero, constants, sparse gaps and cancelling leading terms",
     "Tests use fixed small polynomials; cancellation of leading coefficients, zero operands and mixed dense/sparse pairs are barely sampled.",
     [PU + "univariate_polynomial.h", PU + "univariate_polynomial_ops.h", PU + "univariate_dense_coefficients.h", PU + "univariate_sparse_coefficients.h", PU + "univariate_evaluations.h", PU + "univariate_evaluations_ops.h", PU + "lagrange_interpolation.h"],
     [("operator implementations", PU + "univariate_polynomial_ops.h")])

prop("P12", "Multivariate and multilinear polynomials are exact",
     "Sparse multivariate polynomials and dense multilinear extensions evaluate, add, subtract, scale, multiply and partially evaluate according to their mathematical definition at every point. A multilinear extension agrees with its table on the Boolean hypercube, and combinations of multilinear products equal the sum of the products of their evaluations. The multilinear sumcheck protocol over such a combination sends exactly the round polynomials, accepts the true sum with a subclaim that holds, and rejects a wrong sum or inconsistent round messages.",
     ["inputs"], "all numbers of variables, monomials and points",
     "Tests contain fixed examples with two or three variables.",
     [PM + "multilinear_extension.h", PM + "multilinear_extension_ops.h", PM + "multilinear_dense_evaluations.h", PM + "multivariate_polynomial.h", PM + "multivariate_polynomial_ops.h", PM + "multivariate_sparse_coefficients.h", PM + "linear_combination.h", "crypto/sumcheck/multilinear"],
     [("multilinear folding", PM + "multilinear_dense_evaluations.h")])

prop("P13", "Matrix, sparse-matrix, circle-group and rational-field operations are exact",
     "Parallel dense products, vector products and transposition, conversions between the sparse matrix formats, packed row/column views and bit-reversal of rows equal their definitions for every shape. Rational field elements behave as the fraction they denote (including denominators of one or zero and batch evaluation), and circle-group points add, double and negate as points of the circle.",
     ["inputs"], "all shapes incl. empty and single row/column, all fractions",
     "Tests use one or two fixed matrices.",
     ["math/matrix", "math/base/rational_field.h", "math/circle"],
     [("sparse matrix layouts", "math/matrix/sparse/sparse_matrix.h"), ("rational arithmetic", "math/base/rational_field.h")])

prop("P14", "Hash primitives are deterministic and match their specification",
     "Poseidon and Poseidon2 permutations equal the round function given by their parameters for every width and field shipped; sponges absorb and squeeze the same regardless of how the input is split into calls, and padding-free sponges and compression functions equal the permutation applied to the stated state. Parameter generation (round constants from the Grain LFSR, MDS matrices) is reproducible and yields canonical field elements.",
     ["inputs", "histories"], "all inputs, all ways of splitting absorbs/squeezes, all shipped parameter sets",
     "Tests hold a few known-answer vectors, one split each.",
     ["crypto/hashes"], [("permutation rounds", "crypto/hashes/sponge"), ("round constants", "crypto/hashes/sponge/poseidon/poseidon_config_base.h")])

prop("P15", "Prover and verifier transcripts stay in lockstep",
     "For every transcript and challenger, a reader that consumes what a writer produced obtains the same values and squeezes the same challenges at every point of any interleaving of writes and challenges. Changing, dropping, or reordering any absorbed value changes later challenges, and reading past the end or malformed data is reported as failure.",
     ["histories", "inputs"], "all interleavings of absorb, write and challenge operations",
     "Tests do one write and one challenge.",
     ["crypto/challenger", "crypto/transcripts", "zk/plonk/halo2/blake2b_transcript.h", "zk/plonk/halo2/poseidon_transcript.h", "zk/plonk/halo2/sha256_transcript.h", "zk/plonk/halo2/snark_verifier_poseidon_transcript.h"],
     [("duplex buffering", "crypto/challenger/duplex_challenger.h"), ("simple transcript", "crypto/transcripts")])

prop("P16", "Merkle commitments open only to what was committed",
     "For binary Merkle trees and mixed-height field-matrix Merkle trees (base and extension field, packed and scalar hashing), the root equals the recursive hash of the leaves, every index opens to exactly the committed rows with a proof the verifier accepts. Any change to an opened value, the index, a sibling, the dimensions (heights up to their padding to a power of two) or the root makes verification fail.",
     ["inputs", "configurations"], "all leaf counts, matrix heights/widths and mixtures, all indices and single-element tamperings",
     "Tests open one index of one shape; heights that are not powers of two or mixtures of heights follow different paths.",
     ["crypto/commitments/merkle_tree"],
     [("digest layers and injection of shorter matrices", "crypto/commitments/merkle_tree/field_merkle_tree/field_merkle_tree.h"),
      ("verification path", "crypto/commitments/merkle_tree/field_merkle_tree/field_merkle_tree_mmcs.h")])

prop("P17", "Polynomial and vector commitments are binding to their openings",
     "KZG-based single and multi-point multi-polynomial openings (both batching schemes) produced honestly verify for every grouping of polynomials and points, and a commitment from coefficients equals one from evaluations and the one given by the trusted setup. An opening claimed for a different value, point, polynomial or commitment, or with a modified proof, is rejected; Pedersen commitments equal their defining sum.",
     ["inputs", "fault_sequences"], "all groupings of polynomials and points, all single modifications of claims and proofs",
     "Tests verify one fixed grouping and never tamper.",
     ["crypto/commitments/kzg", "crypto/commitments/polynomial_openings.h", "crypto/commitments/pedersen", "crypto/commitments/vector_commitment_scheme.h"],
     [("grouping of openings", "crypto/commitments/polynomial_openings.h"), ("batch opening", "crypto/commitments/kzg/shplonk.h")])

prop("P18", "FRI accepts honest and rejects dishonest low-degree claims",
     "The FRI-based polynomial commitment accepts honestly produced openings for every mix of trace heights, widths, batches and opening points and every blowup/query setting. It rejects when an opened value, an opening point, a commitment, a Merkle sibling, a folded sibling value, the final polynomial or the proof-of-work witness is altered.",
     ["inputs", "configurations", "fault_sequences"], "all batch shapes and configurations, all single modifications of proof and claims",
     "Tests run a few honest proofs and never alter a proof.",
     ["crypto/commitments/fri"], [("fold and query phases", "crypto/commitments/fri/prove.h"), ("verification", "crypto/commitments/fri/verify.h"), ("opening reduction", "crypto/commitments/fri/two_adic_fri.h")])

prop("P19", "Honest PLONK proofs verify",
     "For every circuit, lookup scheme, transcript, commitment scheme, and number of circuit instances, the proof created from a satisfying assignment is accepted by the verifier built from the matching verifying key and public inputs. With the random generator fixed, proof bytes are a function of the inputs only.",
     ["inputs", "configurations"], "all example circuits with random witnesses, domain sizes, lookup schemes, transcripts, commitment schemes and instance counts",
     "Tests replay one recorded proof per circuit.",
     ["zk/plonk/halo2", "zk/plonk/keys", "zk/plonk/vanishing", "zk/plonk/permutation", "zk/lookup", "zk/shuffle", "zk/base"],
     [("proof creation", "zk/plonk/halo2/prover.h"), ("verification", "zk/plonk/halo2/verifier.h")])

prop("P20", "PLONK verification rejects everything else",
     "The verifier rejects a proof whose bytes were altered or truncated anywhere, a proof checked against different public inputs, a different number of instances or another circuit's key, and any proof the prover creates from an assignment violating a gate, copy, lookup or shuffle constraint. Rejection is an ordinary negative answer, not a crash.",
     ["inputs", "fault_sequences"], "all single-position proof mutations, public input changes and constraint-violating witnesses of the example circuits",
     "Existing tests only verify valid proofs.",
     ["zk/plonk/halo2/verifier.h", "zk/plonk/halo2/proof_reader.h", "zk/lookup/halo2/verifier.h", "zk/lookup/log_derivative_halo2/verifier.h", "zk/shuffle/verifier.h", "zk/plonk/permutation/permutation_verifier.h", "zk/plonk/vanishing/vanishing_verifier.h"],
     [("identity check at the challenge point", "zk/plonk/vanishing/vanishing_verifier.h"), ("opening verification", "crypto/commitments/kzg")])

prop("P21", "Constraint expressions mean the same thing everywhere",
     "Symbolic constraint expressions evaluate to the value of the polynomial they denote under every evaluator (row-wise during proving, at a point during verifying, and through the compiled calculation graph used for quotient computation). Reported degree, complexity and query sets match the expression, selector compression preserves which rows each gate is enforced on, and the degree never exceeds the stated maximum.",
     ["inputs", "programs"], "all expression trees, rotations, selector activation patterns and maximum degrees",
     "Tests build a few fixed expressions with mocked columns.",
     ["zk/expressions", "zk/plonk/expressions", "zk/plonk/constraint_system", "zk/plonk/vanishing/graph_evaluator.h", "zk/plonk/vanishing/calculation.h", "zk/air"],
     [("graph compilation", "zk/plonk/vanishing/graph_evaluator.h"), ("selector compressor", "zk/plonk/constraint_system/selector_compressor.h")])

prop("P22", "Copy-constraint permutations encode exactly the requested equalities",
     "After any sequence of copy requests, two cells are in the same cycle exactly when they are connected by requests, the permutation table is a bijection mapping each cell to the next of its cycle, and the resulting permutation polynomials are the labels of that mapping. Permuted lookup columns are a permutation of the input and table such that each input value equals its table value or the previous input value, and a lookup of a value not in the table is refused.",
     ["histories", "inputs"], "all sequences of copies over all columns/rows; all input/table multisets",
     "Tests do a few copies on small grids.",
     ["zk/plonk/permutation", "zk/lookup/halo2/permute_expression_pair.h", "zk/lookup/log_derivative_halo2"],
     [("cycle merging", "zk/plonk/permutation/cycle_store.h"), ("label construction", "zk/plonk/permutation/permutation_assembly.h"), ("sorting inputs against table", "zk/lookup/halo2/permute_expression_pair.h")])

prop("P23", "Floor planners never let regions collide",
     "For any sequence of regions with any columns, offsets and lengths, every floor planner assigns each region a start row so that no two regions occupy the same column and row, assigned cells land exactly at region start plus offset, constants and copies connect the cells the circuit named, and lookup tables are filled completely. Synthesis does not exceed the usable rows without reporting failure.",
     ["programs", "inputs"], "all region shapes and orders, both planners",
     "Tests use fixed example circuits.",
     ["zk/plonk/layout"], [("slot allocation", "zk/plonk/layout/floor_planner/v1/v1_strategy.h"), ("single-chip layouter", "zk/plonk/layout/floor_planner/single_chip_layouter.h")])

prop("P24", "R1CS and Groth16 are complete and sound",
     "For any rank-1 constraint system, satisfaction as reported, the exported matrices and the quadratic program agree with evaluating the constraints on the assignment, under every optimisation goal. Groth16 proofs from a satisfying assignment verify (with and without zero-knowledge randomisation, before and after re-randomisation or preparation of the key), and proofs for wrong public inputs or with changed elements are rejected.",
     ["programs", "inputs", "fault_sequences"], "random constraint systems and assignments, all tamperings of proof elements and inputs",
     "Tests use one tiny circuit.",
     ["zk/r1cs"], [("constraint system and inlining", "zk/r1cs/constraint_system/constraint_system.h"), ("QAP", "zk/r1cs/constraint_system/quadratic_arithmetic_program.h"), ("prove/verify", "zk/r1cs/groth16")])

prop("P25", "Serialization round-trips",
     "Writing any serializable value (integers of either endianness, strings, containers, field and extension elements, points in every coordinate system, polynomials, proofs, keys) to a buffer and reading it back yields an equal value, consumes exactly the bytes written, and those equal the estimated size. JSON conversion of field elements, points and containers round-trips likewise.",
     ["inputs"], "all values of all serializable types and any concatenation of them",
     "Tests cover one value per type.",
     ["base/buffer", "base/json", "math/base/big_int.h", "math/geometry", PU + "univariate_polynomial.h", "crypto/commitments", "zk/r1cs/groth16", "zk/plonk/halo2/proof.h"],
     [("Copyable traits", "base/buffer/copyable.h"), ("buffers", "base/buffer/read_only_buffer.h")])

prop("P26", "Hostile bytes and text are rejected without undefined behaviour",
     "Deserializers, transcript readers, number/JSON/command-line/hex parsers and proof verifiers given arbitrary, truncated, mutated or oversized input either succeed or report failure. They never read or write out of bounds, allocate without bound relative to the input, loop forever, or terminate the process.",
     ["inputs"], "all byte strings up to the sizes explored, including mutations of valid encodings",
     "Tests feed well-formed input and two or three malformed samples.",
     ["base/buffer", "base/strings", "base/json", "base/flag", "math/base/big_int.cc", "crypto/transcripts", "zk/plonk/halo2/proof_reader.h", "c/zk/plonk/halo2/buffer_reader.h"],
     [("bounds checks", "base/buffer/read_only_buffer.h"), ("parsers", "base/strings/string_number_conversions.cc")])

prop("P27", "Checked, saturating and wrapping numerics are exact",
     "Checked arithmetic is valid exactly when the mathematical result fits the destination type and then equals it; saturating arithmetic and casts equal the mathematical result clamped to the destination range; range predicates agree with the mathematics, for all integer and floating operand type mixes. Bit utilities (log2, power-of-two, alignment, counting zeros, bit reversal, endian swaps) equal their definitions.",
     ["inputs"], "all operand type pairs, exhaustive 8-bit operands and boundary values of wider types",
     "Tests sample boundary constants of some type pairs.",
     ["base/numerics", "base/bits.h", "base/bits.cc", "base/endian.h", "base/endian_utils.h"],
     [("checked math", "base/numerics/checked_math_impl.h"), ("clamped math", "base/numerics/clamped_math_impl.h")])

prop("P28", "Containers and range utilities behave like their models",
     "The circular deque, vector buffer, adapters (reversed, zipped, chunked), container utilities (map, shuffle, permutations, find-index, flatten), ranges, erase helpers, callbacks, owning/borrowing wrappers and generic scoped owners behave as their standard-library or mathematical model under any sequence of operations: same contents and order, no element leaked, duplicated, or destroyed twice, correct iterators.",
     ["histories", "inputs"], "all operation sequences up to the lengths explored, incl. growth, wrap-around and exceptional sizes",
     "Tests run fixed short scripts; wrap-around plus reallocation combinations depend on history.",
     ["base/containers", "base/range.h", "base/ranges", "base/functional", "base/maybe_owned.h", "base/scoped_generic.h", "base/no_destructor.h", "base/auto_reset.h"],
     [("ring buffer index arithmetic", "base/containers/circular_deque.h")],)

prop("P29", "String and text utilities are exact",
     "Number-to-string and string-to-number conversions are exact inverses over their whole range and reject overflow, empty, padded or trailing text; case conversion, prefix/suffix tests, integer/hex formatting, hex encoding, debug stringification, console table layout and colour conversions equal their definition for every input.",
     ["inputs"], "all strings and numbers incl. extremes of each width",
     "Tests check a list of samples.",
     ["base/strings", "base/console", "base/color"],
     [("number conversion", "base/strings/string_number_conversions.cc"), ("string helpers", "base/strings/string_util.cc")])

prop("P30", "Time, command-line flags and environment helpers are exact",
     "Time deltas, time points and intervals do saturating arithmetic and unit conversion without overflow or drift, and their textual flags parse to the value written. Command-line parsing assigns exactly the flags given, in any order and mixture of long/short/positional/sub-command forms, reports missing, duplicated or malformed ones, and leaves unspecified flags at their defaults.",
     ["inputs", "configurations"], "all deltas incl. the infinite ones; all argument vectors for randomly composed parsers",
     "Tests use fixed argument lists.",
     ["base/time", "base/flag", "base/environment.h"],
     [("saturating time arithmetic", "base/time/time.h"), ("parser", "base/flag/flag_parser.cc")])

prop("P31", "File helpers do exactly what they say",
     "Reading, writing, appending, copying, moving, truncating, deleting, enumerating and memory-mapping files, and file-path manipulation, have exactly the effect stated on the named files and no others, for all contents and sizes, report failure through their result when the operation is impossible, and leak no file descriptors.",
     ["inputs", "fault_sequences"], "all contents/sizes, path shapes, missing or unwritable targets, inside a scratch directory",
     "Tests cover few sizes and no fault.",
     ["base/files"], [("posix file operations", "base/files/file_util_posix.cc"), ("paths", "base/files/file_path.cc")])

prop("P32", "Results do not depend on the number of threads",
     "The parallel loop helpers visit every element exactly once in chunks of the requested shape, and every parallelised algorithm (FFT, polynomial arithmetic, batch inversion, multi-scalar multiplication, matrix products, Merkle trees, proving) returns the same result for every thread count and input size, including sizes smaller than the thread count, equal to the result of the build without threads.",
     ["schedules", "inputs", "configurations"], "thread counts 1..16 and sizes around multiples of the thread count",
     "The test suite is built without threads, so parallel code paths are never executed.",
     ["base/parallelize.h", "base/openmp_util.h", "base/containers/chunked_iterator.h", "math", "crypto", "zk"],
     [("chunking", "base/parallelize.h")])

prop("P33", "Parallel algorithms and concurrent use are free of data races",
     "Running any parallelised algorithm, and calling const operations and independent objects from several threads at once (including first use of lazily initialised constants, caches and random number generation), never performs conflicting unsynchronised accesses to the same memory.",
     ["schedules"], "thread schedules produced by stress, over all parallelised algorithms",
     "The tests run single-threaded builds and race detection needs instrumentation.",
     ["base/parallelize.h", "base/random.cc", "math/base", EC + "msm", PU, "crypto", "zk"],
     [("disjoint chunks", "base/parallelize.h"), ("once-initialised field constants", FF + "prime_field_fallback.h")])

prop("P34", "Seeded random generators are deterministic and uniform in range",
     "Seeded generators produce the sequence their specification defines from any seed, resume identically from a saved state or copied object, and values drawn into a range or a field always lie inside it and depend only on the generator's state. Shuffling with them is a permutation.",
     ["inputs", "histories"], "all seeds, state save/restore points and ranges",
     "Tests hold one known sequence.",
     ["crypto/random", "base/random.h", "c/crypto/random"],
     [("XorShift", "crypto/random/xor_shift"), ("ChaCha20", "crypto/random/cha_cha20")])

prop("P35", "The C interface computes what the C++ library computes",
     "Every C function for field elements, extension elements, points in each coordinate system, multi-scalar multiplication, polynomials, evaluation domains, matrices, random generators and hash-based commitments returns the same value the C++ operation returns on the same input, and creating and destroying handles neither leaks nor frees twice.",
     ["inputs"], "all inputs of each exported function",
     "Tests call each exported function on one random input, for some functions only.",
     ["c"], [("generated wrappers", "c/math/elliptic_curves/generator/generator.cc"), ("native pointer casts", "c/base/type_traits_forward.h")])

NA = {}


def main():
    with open(V + "/properties.jsonl", "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["id"]
            f.write(json.dumps(p) + "\n")
    checks = []
    for p in P:
        if p["id"] not in SPECS:
            continue
        s = SPECS[p["id"]]
        checks.append(dict(
            property=p["id"],
            quick_cmd="python3 tools/check.py %s quick" % p["id"],
            thorough_cmd="python3 tools/check.py %s thorough" % p["id"],
            evidence_file="evidence/%s.json" % p["id"],
            technique=s["technique"], level="exploration",
            level_note=s["note"]))
    na = [dict(property=p["id"], reason=NA.get(p["id"], "check not built yet"))
          for p in P if p["id"] not in SPECS]
    m = dict(version=1, setup_cmd="python3 tools/check.py --build-all",
             checks=checks, not_applicable=na,
             notes="All checks: runtime monitors over seeded workloads, run under "
             "sanitizer builds of the current /repo tree. No hooks in /repo.")
    with open(V + "/MANIFEST.json", "w") as f:
        json.dump(m, f, indent=1)
    import re
    for p in P:
        n = len(re.findall(r"[.!?](?:\s|$)", p["statement"]))
        if n > 3:
            print("statement too long", p["id"], n)
    print(len(P), "properties,", len(checks), "checks,", len(na), "not claimed")
    for p in P:
        for f in p["anchors"]["files"]:
            if not os.path.exists("/repo/" + f):
                print("no such anchor", p["id"], f)


if __name__ == "__main__":
    main()
