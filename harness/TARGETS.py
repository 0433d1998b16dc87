# harness targets: vh_binary(name, srcs, deps, flavours, copts)
M = "//tachyon/math/"
C = "//tachyon/crypto/"
Z = "//tachyon/zk/"
B = "//tachyon/base/"
EC = M + "elliptic_curves/"
FF = M + "finite_fields/"
BN = EC + "bn/bn254:"
BLS = EC + "bls12/bls12_381:"
B384 = EC + "bn/bn384_small_two_adicity:"
SECP = EC + "secp/secp256k1:"
PAL = EC + "pasta/pallas:"
VES = EC + "pasta/vesta:"

FIELD_SETS = {
    1: [BN + "fq", BN + "fr"],
    2: [BLS + "fq", BLS + "fr"],
    3: [B384 + "fq", B384 + "fr"],
    4: [SECP + "fq", SECP + "fr"],
    5: [PAL + "fq", PAL + "fr", VES + "fq", VES + "fr"],
    6: [FF + "goldilocks", FF + "baby_bear", FF + "koala_bear",
        FF + "mersenne31", FF + "test:gf7"],
}
for k, d in FIELD_SETS.items():
    vh_binary("h_field%d" % k, ["h_field.cc"], d, ["asan", "rel", "dbg", "omp"],
              copts=["-DVH_SET=%d" % k])
vh_binary("h_bigint", ["h_bigint.cc"], [M + "base:big_int", M + "base:bit_iterator", M + "base:egcd", M + "base/gmp:bit_traits", M + "base/gmp:signed_value"], ["asan", "rel", "dbg"])
for k, d in {1: [BN + "fq12"], 2: [BLS + "fq12"],
             3: [M + "circle/m31:fq4", FF + "baby_bear:baby_bear4", FF + "koala_bear:koala_bear4",
                 FF + "goldilocks/internal:goldilocks2", FF + "test:gf7_2", FF + "test:gf7_3"]}.items():
    vh_binary("h_ext%d" % k, ["h_ext.cc"], d, ["asan", "rel", "dbg"], copts=["-DVH_SET=%d" % k])
vh_binary("h_binary", ["h_binary.cc"], [FF + "binary_fields:binary_fields"], ["asan", "rel", "dbg"])
PACKED = [FF + "baby_bear:baby_bear4", FF + "baby_bear:packed_baby_bear4", FF + "koala_bear:koala_bear4", FF + "koala_bear:packed_koala_bear4", FF + "mersenne31", M + "matrix:matrix_utils"]
vh_binary("h_packed", ["h_packed.cc"], PACKED, ["asan", "rel", "dbg"])
vh_binary("h_packed512", ["h_packed.cc"], PACKED + [FF + "%s/internal:packed_%s_avx512" % (n, n) for n in ("baby_bear", "koala_bear", "mersenne31")], ["avx512"])
for k, d in {1: [BN + "g1", BN + "g2"], 2: [BLS + "g1", BLS + "g2"],
             3: [SECP + "curve", PAL + "curve", VES + "curve"],
             4: [EC + "short_weierstrass/test:sw_curve_config", FF + "baby_bear"]}.items():
    vh_binary("h_curve%d" % k, ["h_curve.cc"], d + [M + "geometry:point_conversions", EC + "short_weierstrass:points"], ["asan", "rel", "omp"], copts=["-DVH_SET=%d" % k])
MSM = [EC + "msm:fixed_base_msm", EC + "msm:variable_base_msm", EC + "msm:glv", M + "geometry:point_conversions", EC + "short_weierstrass:points"]
for k, d in {1: [BN + "g1", BN + "g2"], 2: [BLS + "g1", BLS + "g2"],
             3: [SECP + "curve", PAL + "curve", EC + "short_weierstrass/test:sw_curve_config"]}.items():
    vh_binary("h_msm%d" % k, ["h_msm.cc"], d + MSM, ["asan", "rel", "omp"], copts=["-DVH_SET=%d" % k])
for k, d in {1: [BN + "bn254"], 2: [BLS + "bls12_381"]}.items():
    vh_binary("h_pairing%d" % k, ["h_pairing.cc"], d + [EC + "pairing", EC + "short_weierstrass:points"], ["asan", "rel", "omp"], copts=["-DVH_SET=%d" % k])
UNI = M + "polynomials/univariate:"
DOM = [UNI + "univariate_evaluation_domain_factory", UNI + "naive_batch_fft", UNI + "univariate_polynomial"]
for k, d in {1: [FF + "baby_bear", FF + "koala_bear"], 2: [BN + "fr", BLS + "fr", FF + "goldilocks"],
             3: [B384 + "fq", B384 + "fr"]}.items():
    vh_binary("h_fft%d" % k, ["h_fft.cc"], d + DOM, ["asan", "rel", "omp"], copts=["-DVH_SET=%d" % k])
POLY = [UNI + "univariate_polynomial", UNI + "univariate_evaluations", UNI + "lagrange_interpolation"]
vh_binary("h_poly", ["h_poly.cc"], [FF + "baby_bear", FF + "goldilocks", FF + "test:gf7", BN + "fr"] + POLY, ["asan", "rel", "dbg", "omp"])
MV = M + "polynomials/multivariate:"
vh_binary("h_multi", ["h_multi.cc"], [FF + "baby_bear", FF + "goldilocks", FF + "test:gf7", BN + "fr", MV + "linear_combination", MV + "multilinear_extension", MV + "multivariate_polynomial", C + "sumcheck/multilinear:multilinear_sumcheck", C + "sumcheck/multilinear:sumcheck_proving_key"], ["asan", "rel", "dbg", "omp"])
MAT = M + "matrix:"
vh_binary("h_matrix", ["h_matrix.cc"], PACKED[:4] + [FF + "koala_bear:packed_koala_bear4", FF + "test:gf7", BN + "fr", MAT + "matrix_operations", MAT + "matrix_types", MAT + "matrix_utils", M + "matrix/sparse:sparse_matrix", M + "base:rational_field", M + "circle/m31:g1", M + "circle/m31:g4"], ["asan", "rel", "dbg", "omp"])
HASH = C + "hashes/sponge/"
P2T = HASH + "poseidon2/param_traits:poseidon2_"
HDEPS = [C + "hashes:prime_field_serializable", C + "hashes/sponge:padding_free_sponge", C + "hashes/sponge:truncated_permutation", HASH + "poseidon:poseidon", HASH + "poseidon:poseidon_params", HASH + "poseidon2:poseidon2", HASH + "poseidon2:poseidon2_params"]
for k, d in {1: [FF + "baby_bear", FF + "koala_bear", FF + "mersenne31", P2T + "baby_bear", P2T + "koala_bear", P2T + "mersenne31"],
             2: [FF + "goldilocks", FF + "test:gf7", BN + "fr", BLS + "fr", PAL + "fr", VES + "fr", P2T + "goldilocks", P2T + "bn254", P2T + "bls12_381", P2T + "pallas", P2T + "vesta"]}.items():
    vh_binary("h_hash%d" % k, ["h_hash.cc"], d + HDEPS, ["asan", "rel"], copts=["-DVH_SET=%d" % k])
H2 = Z + "plonk/halo2:"
vh_binary("h_transcript", ["h_transcript.cc"], [C + "challenger:duplex_challenger", C + "challenger:hash_challenger", C + "challenger:multi_field32_challenger", C + "transcripts:simple_transcript", FF + "baby_bear:baby_bear4", FF + "koala_bear", FF + "mersenne31", BN + "g1", PAL + "curve", VES + "curve", P2T + "baby_bear", P2T + "bn254", H2 + "blake2b_transcript", H2 + "poseidon_transcript", H2 + "sha256_transcript", H2 + "snark_verifier_poseidon_transcript"] + HDEPS, ["asan", "rel", "omp"])
MERK = [C + "commitments/merkle_tree/binary_merkle_tree:binary_merkle_tree", C + "commitments/merkle_tree/binary_merkle_tree:simple_binary_merkle_tree_storage", C + "commitments/merkle_tree/field_merkle_tree:extension_field_merkle_tree_mmcs", C + "commitments/merkle_tree/field_merkle_tree:field_merkle_tree_mmcs", P2T + "baby_bear", P2T + "koala_bear"] + PACKED[:4] + HDEPS
vh_binary("h_merkle", ["h_merkle.cc"], MERK, ["asan", "rel", "omp"])
FRI = C + "commitments/fri:"
vh_binary("h_fri", ["h_fri.cc"], [FRI + "simple_fri", FRI + "two_adic_fri", UNI + "univariate_evaluation_domain_factory", C + "challenger:duplex_challenger", C + "transcripts:simple_transcript", FF + "goldilocks"] + MERK, ["asan", "rel", "dbg", "omp"])
PLK = [Z + "plonk/halo2:" + x for x in ("blake2b_transcript", "constants", "pinned_constraint_system", "pinned_verifying_key", "prover", "proving_scheme", "verifier")] + [Z + "plonk/constraint_system:circuit", Z + "plonk/constraint_system", Z + "plonk/keys:proving_key", Z + "plonk/layout/floor_planner:simple_floor_planner", Z + "plonk/layout/floor_planner/v1:v1_floor_planner", Z + "base/commitments:gwc_extension", Z + "base/commitments:shplonk_extension", BN + "bn254", EC + "bn/bn254/halo2:bn254", C + "random/xor_shift:xor_shift_rng"]
for k in (1, 2, 3, 4):
    vh_binary("h_plonk%d" % k, ["h_plonk.cc"], PLK, ["asan", "rel", "dbg", "omp"], copts=["-DVH_SET=%d" % k])
vh_binary("h_layout", ["h_layout.cc"], PLK[:0] + [Z + "plonk/constraint_system:circuit", Z + "plonk/constraint_system", Z + "plonk/keys:assembly", Z + "plonk/halo2:witness_collection", Z + "plonk/layout/floor_planner:simple_floor_planner", Z + "plonk/layout/floor_planner/v1:v1_floor_planner", UNI + "radix2_evaluation_domain", FF + "baby_bear"], ["asan", "rel", "dbg"])
for k, d in {1: [BN + "bn254", FF + "baby_bear"], 2: [BLS + "bls12_381", FF + "goldilocks"]}.items():
    vh_binary("h_kzg%d" % k, ["h_kzg.cc"], d + [C + "commitments/kzg:gwc", C + "commitments/kzg:shplonk", C + "commitments/pedersen:pedersen", C + "transcripts:transcript", UNI + "univariate_evaluation_domain_factory"], ["asan", "rel", "dbg", "omp"], copts=["-DVH_SET=%d" % k])
vh_binary("h_expr", ["h_expr.cc"], [Z + "plonk/constraint_system", Z + "plonk/vanishing:graph_evaluator", Z + "plonk/expressions:compress_expression", Z + "plonk/expressions:verifying_evaluator", Z + "base:value", UNI + "radix2_evaluation_domain", FF + "baby_bear"], ["asan", "rel", "dbg", "omp"])
vh_binary("h_perm", ["h_perm.cc"], [Z + "base/entities:prover_base", Z + "plonk/constraint_system", Z + "plonk/permutation:permutation_assembly", Z + "plonk/permutation:permutation_prover", Z + "plonk/permutation:permutation_table_store", Z + "plonk/permutation:permutation_verifier", Z + "lookup/halo2:prover", Z + "lookup/halo2:verifier", Z + "lookup/halo2:permute_expression_pair", Z + "lookup/log_derivative_halo2:prover", Z + "lookup/log_derivative_halo2:verifier", Z + "shuffle:prover", Z + "shuffle:verifier", Z + "plonk/halo2:proof", UNI + "radix2_evaluation_domain", BN + "fr", PAL + "fr"], ["asan", "rel", "dbg", "omp"])
R1 = Z + "r1cs/"
vh_binary("h_r1cs", ["h_r1cs.cc"], [BN + "bn254", BLS + "bls12_381", UNI + "univariate_evaluation_domain_factory", R1 + "constraint_system:quadratic_arithmetic_program", R1 + "groth16:prove", R1 + "groth16:verify"], ["asan", "dbg", "omp", "rel"])
vh_binary("h_serial", ["h_serial.cc"], [BN + "bn254", BLS + "g1", FF + "baby_bear:baby_bear4", FF + "goldilocks", FF + "koala_bear", FF + "mersenne31", FF + "test:gf7", EC + "short_weierstrass:points", M + "geometry:point_conversions", MAT + "matrix_types", MV + "linear_combination", MV + "multilinear_extension", UNI + "univariate_polynomial", UNI + "univariate_evaluations", B + "buffer:endian_auto_reset", B + "buffer:string_buffer", B + "buffer:vector_buffer", B + "json"], ["asan", "rel", "dbg"])
