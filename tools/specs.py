"""What each property's check runs."""
SPECS = {}


def run(target, flavour, scale=1.0, **kw):
    return dict(target=target, flavour=flavour, scale=scale, **kw)


SAN = "runtime oracle monitors on an ASan+UBSan build"
NOTE = ("Every observed execution is judged by an independent oracle; inputs not "
        "generated are not covered. Trusts ")

SPECS["P01"] = dict(
    technique=SAN + " (GMP reference)",
    note=NOTE + "GMP and the compiler.",
    rule="distinct operand pairs (boundary values of the integer and of the stored "
         "representation, carry/reduction-targeted pairs, random) by content hash",
    runs=[run("h_field%d" % k, "asan", mode="arith") for k in range(1, 7)] +
         [run("h_field%d" % k, "rel", 3.0, mode="arith", tier="thorough") for k in range(1, 7)] +
         [run("h_field%d" % k, "dbg", 1.0, mode="arith", tier="thorough") for k in range(1, 7)])

SPECS["P02"] = dict(
    technique=SAN + ", plus an OpenMP build",
    note=NOTE + "GMP and the compiler.",
    rule="distinct operands / vectors / orders by content hash",
    runs=[run("h_field%d" % k, "asan", mode="derived") for k in range(1, 7)] +
         [run("h_field%d" % k, "omp", mode="derived", threads=t) for k, t in ((1, 4), (6, 7))] +
         [run("h_field%d" % k, "omp", 3.0, mode="derived", threads=t, tier="thorough")
          for k in range(1, 7) for t in (2, 8)])

SPECS["P03"] = dict(
    technique=SAN + " (GMP reference)",
    note=NOTE + "GMP and the compiler.",
    rule="distinct operands / operand pairs (limb patterns, powers of two, complements, "
         "random) by content hash",
    runs=[run("h_bigint", "asan"),
          run("h_bigint", "rel", 30.0, tier="thorough"),
          run("h_bigint", "dbg", 10.0, tier="thorough")])

SPECS["P04"] = dict(
    technique=SAN + " (schoolbook tower arithmetic over GMP)",
    note=NOTE + "GMP, the compiler and the written-down tower non-residues.",
    rule="distinct operand pairs (sparse, base-field, boundary-coefficient, random, and "
         "all elements of the tiny fields) by content hash",
    runs=[run("h_ext%d" % k, "asan") for k in (1, 2, 3)] +
         [run("h_ext%d" % k, "rel", 20.0, tier="thorough") for k in (1, 2, 3)] +
         [run("h_ext%d" % k, "dbg", 5.0, tier="thorough") for k in (1, 2, 3)])

SPECS["P05"] = dict(
    technique=SAN + " (recursive tower definition)",
    note=NOTE + "the written-down tower relation and the compiler.",
    rule="distinct elements / pairs by value (all pairs up to 8 bits, all products of two "
         "monomials above)",
    runs=[run("h_binary", "asan", 4.0), run("h_binary", "dbg", 0.3),
          run("h_binary", "rel", 40.0, tier="thorough"),
          run("h_binary", "dbg", 10.0, tier="thorough")])

SPECS["P06"] = dict(
    technique=SAN + " and on an AVX-512 build (integer arithmetic lane by lane)",
    note=NOTE + "the compiler and, for the quartic extensions, the scalar field judged by P04; "
         "NEON code paths cannot run on this machine.",
    rule="distinct pairs of lane vectors (boundary values of the integer and of the stored "
         "form in every lane, mixed with random lanes) by content hash",
    runs=[run("h_packed", "asan", 8.0), run("h_packed512", "avx512", 20.0, cpu="avx512f"),
          run("h_packed", "rel", 30.0, tier="thorough"),
          run("h_packed512", "avx512", 30.0, tier="thorough", cpu="avx512f"),
          run("h_packed", "dbg", 5.0, tier="thorough")])

SPECS["P07"] = dict(
    technique=SAN + " (affine chord-and-tangent law over GMP), plus an OpenMP build",
    note=NOTE + "GMP and the compiler.",
    rule="distinct ordered point pairs (all pairs on every curve over GF(7); identity, equal, "
         "opposite, doubled, y-sharing, off-subgroup and random points on the shipped curves)",
    runs=[run("h_curve%d" % k, "asan") for k in (1, 2, 3, 4)] +
         [run("h_curve1", "omp", 0.3, threads=3)] +
         [run("h_curve%d" % k, "omp", 10.0, tier="thorough", threads=8) for k in (1, 2, 3, 4)] +
         [run("h_curve%d" % k, "rel", 20.0, tier="thorough") for k in (1, 2, 3, 4)])

SPECS["P08"] = dict(
    technique=SAN + " (sums of known multiples of the generator by affine addition over GMP), "
              "plus OpenMP builds",
    note=NOTE + "GMP, the affine addition law of P07's oracle and the compiler.",
    rule="distinct (base, scalar) inputs and distinct whole multi-scalar inputs",
    runs=[run("h_msm%d" % k, "asan") for k in (1, 2, 3)] +
         [run("h_msm1", "omp", 1.0, threads=3), run("h_msm3", "omp", 1.0, threads=8)] +
         [run("h_msm%d" % k, "omp", 2.0, tier="thorough", threads=t)
          for k in (1, 2, 3) for t in (2, 8)] +
         [run("h_msm%d" % k, "rel", 3.0, tier="thorough") for k in (1, 2, 3)])

SPECS["P09"] = dict(
    technique=SAN + " (powers of one pairing value over GMP), plus OpenMP builds",
    note=NOTE + "GMP, the tower relations of P04 and the compiler; the relation is checked "
         "against the library's own e(G1, G2), so a change to another bilinear non-degenerate "
         "pairing would stay unseen, except in the final exponentiation, which is recomputed.",
    rule="distinct (a, b) pairs, whole multi-pairing inputs and final-exponentiation inputs",
    runs=[run("h_pairing%d" % k, "asan") for k in (1, 2)] +
         [run("h_pairing%d" % k, "omp", 1.0, threads=3) for k in (1, 2)] +
         [run("h_pairing%d" % k, "omp", 3.0, tier="thorough", threads=8) for k in (1, 2)] +
         [run("h_pairing%d" % k, "rel", 3.0, tier="thorough") for k in (1, 2)])

SPECS["P10"] = dict(
    technique=SAN + " (direct evaluation of the coefficients over GMP), plus OpenMP builds",
    note=NOTE + "GMP and the compiler; above 512 points the evaluations are sampled.",
    rule="distinct (domain, coset, coefficient vector) inputs",
    runs=[run("h_fft%d" % k, "asan") for k in (1, 2, 3)] +
         [run("h_fft%d" % k, "omp", 1.0, threads=t) for k, t in ((1, 8), (2, 3), (3, 3), (3, 8))] +
         [run("h_fft%d" % k, "omp", 3.0, tier="thorough", threads=t) for k in (1, 2, 3) for t in (2, 5, 8)] +
         [run("h_fft%d" % k, "rel", 3.0, tier="thorough") for k in (1, 2, 3)])

SPECS["P11"] = dict(
    technique=SAN + " (schoolbook polynomial arithmetic over GMP), plus OpenMP and debug-assertion builds",
    note=NOTE + "GMP and the compiler.",
    rule="distinct operand pairs / point sets (all pairs of polynomials of degree <= 1 over "
         "GF(7), plus zero, one, equal, opposite, degree-dropping, exactly dividing and random pairs)",
    runs=[run("h_poly", "asan"), run("h_poly", "dbg", 0.5), run("h_poly", "omp", 1.0, threads=3),
          run("h_poly", "omp", 5.0, tier="thorough", threads=8),
          run("h_poly", "rel", 10.0, tier="thorough")])

SPECS["P12"] = dict(
    technique=SAN + " (definitions over GMP; a full replay of the sumcheck verifier), plus OpenMP and debug-assertion builds",
    note=NOTE + "GMP and the compiler.",
    rule="distinct (table pair / sum of products / polynomial pair), by content; tampered sumcheck "
         "messages included",
    runs=[run("h_multi", "asan"), run("h_multi", "dbg", 0.5), run("h_multi", "omp", 1.0, threads=3),
          run("h_multi", "omp", 5.0, tier="thorough", threads=8),
          run("h_multi", "rel", 10.0, tier="thorough")])

SPECS["P13"] = dict(
    technique=SAN + " (definitions over GMP), plus OpenMP and debug-assertion builds",
    note=NOTE + "GMP and the compiler.",
    rule="distinct operand shapes and contents (1..40 rows and columns, empty rows, singular "
         "matrices), fractions of every special form, scalar pairs on the circle",
    runs=[run("h_matrix", "asan", 4.0), run("h_matrix", "dbg", 2.0), run("h_matrix", "omp", 3.0, threads=3),
          run("h_matrix", "omp", 5.0, tier="thorough", threads=8),
          run("h_matrix", "rel", 10.0, tier="thorough")])
SPECS["P14"] = dict(
    technique=SAN + " (textbook permutations over GMP)",
    note=NOTE + "GMP, the round constants and internal matrices the repository lists (checked for "
         "invertibility, and against the authors' test vector for BN254), and the compiler.",
    rule="distinct permutation inputs, absorb/squeeze histories, message lengths and integers",
    runs=[run("h_hash1", "asan"), run("h_hash2", "asan"),
          run("h_hash1", "rel", 10.0, tier="thorough"), run("h_hash2", "rel", 10.0, tier="thorough")])
SPECS["P15"] = dict(
    technique=SAN + " (reference transcripts and challengers over GMP), OpenMP grinding",
    note=NOTE + "GMP, the BLAKE2b and SHA-256 implementations (stand-ins for boringssl, which the "
         "sandbox lacks), and the compiler.",
    rule="distinct transcript/challenger histories, and distinct hostile proof bytes",
    runs=[run("h_transcript", "asan"), run("h_transcript", "omp", threads=4),
          run("h_transcript", "omp", 10.0, tier="thorough", threads=8),
          run("h_transcript", "rel", 20.0, tier="thorough")])
SPECS["P16"] = dict(
    technique=SAN + " (recursive reference trees, altered openings), OpenMP builds",
    note=NOTE + "the scalar sponge hasher and compressor (decided by P14), and the compiler.",
    rule="distinct committed leaf/matrix sets",
    runs=[run("h_merkle", "asan", 4.0), run("h_merkle", "omp", 4.0, threads=3),
          run("h_merkle", "omp", 10.0, tier="thorough", threads=8),
          run("h_merkle", "rel", 20.0, tier="thorough")])
SPECS["P18"] = dict(
    technique=SAN + " (polynomials evaluated by Horner's rule, altered proofs), OpenMP and debug-assertion builds",
    note=NOTE + "the Poseidon2 sponge (decided by P14), the Merkle trees (P16), and the compiler.",
    rule="distinct cosets, folds and committed polynomial batches",
    runs=[run("h_fri", "asan", 3.0), run("h_fri", "dbg", 1.0), run("h_fri", "omp", 3.0, threads=3),
          run("h_fri", "omp", 10.0, tier="thorough", threads=8),
          run("h_fri", "rel", 20.0, tier="thorough")])
SPECS["P19"] = dict(
    technique=SAN + " (random circuits with gates, copies, lookups and shuffles; row-by-row constraint check as oracle), debug-assertion builds",
    note=NOTE + "the constraint-by-constraint check of the harness, the pairing (P09), and the compiler.",
    rule="distinct random circuits proved and verified",
    runs=[run("h_plonk%d" % k, "asan", 3.0, mode="p19") for k in (1, 2, 3, 4)] +
         [run("h_plonk%d" % k, "omp", 2.0, mode="p19", threads=3) for k in (1, 3)] +
         [run("h_plonk%d" % k, "dbg", 4.0, mode="p19", tier="thorough") for k in (1, 2, 3, 4)] +
         [run("h_plonk%d" % k, "omp", 10.0, mode="p19", tier="thorough", threads=8) for k in (1, 2, 3, 4)])
SPECS["P20"] = dict(
    technique=SAN + " (every kind of violated constraint, every proof item altered), OpenMP builds",
    note=NOTE + "the constraint-by-constraint check of the harness, the pairing (P09), and the compiler.",
    rule="distinct random circuits and altered proofs",
    runs=[run("h_plonk%d" % k, "asan", 1.0, mode="p20") for k in (1, 2, 3, 4)] +
         [run("h_plonk%d" % k, "omp", 6.0, mode="p20", tier="thorough", threads=8) for k in (1, 2, 3, 4)] +
         [run("h_plonk%d" % k, "dbg", 3.0, mode="p20", tier="thorough") for k in (1, 2, 3, 4)])
SPECS["P21"] = dict(
    technique=SAN + " (random expression trees under every evaluator compared with the harness' own polynomial arithmetic; selector combinations replayed row by row)",
    note=NOTE + "the harness' interpreter of the expression trees, and the compiler.",
    rule="distinct expressions, query sets and activation patterns",
    runs=[run("h_expr", "asan", 8.0), run("h_expr", "dbg", 3.0), run("h_expr", "omp", 2.0, threads=3),
          run("h_expr", "asan", 100.0, tier="thorough")])
SPECS["P22"] = dict(
    technique=SAN + " (cycles compared with a union-find, prover columns and verifier identities judged on every row of the domain; refused copies in child processes)",
    note=NOTE + "the harness' definitions of the arguments, and the compiler.",
    rule="distinct copy histories, lookup pairs and tables",
    runs=[run("h_perm", "asan", 3.0), run("h_perm", "dbg", 1.0), run("h_perm", "omp", 2.0, threads=4),
          run("h_perm", "asan", 60.0, tier="thorough")])
SPECS["P23"] = dict(
    technique=SAN + " (recording Assignment compared with the script of regions; refused rows in child processes)",
    note=NOTE + "the recording Assignment, and the compiler.",
    rule="distinct layouts planned",
    runs=[run("h_layout", "asan", 4.0), run("h_layout", "dbg", 4.0), run("h_layout", "asan", 60.0, tier="thorough")])
SPECS["P17"] = dict(
    technique=SAN + " (commitments against p(tau)G for a known tau, claims and proofs altered one by one), debug-assertion and OpenMP builds",
    note=NOTE + "scalar multiplication (decided by P06), the pairing (P09), and the compiler.",
    rule="distinct polynomials, groupings and openings",
    runs=[run("h_kzg1", "asan", 0.7), run("h_kzg2", "asan", 0.4), run("h_kzg1", "omp", 1.0, threads=3),
          run("h_kzg2", "dbg", 0.5), run("h_kzg1", "dbg", 5.0, tier="thorough"),
          run("h_kzg1", "omp", 10.0, tier="thorough", threads=8), run("h_kzg2", "omp", 10.0, tier="thorough", threads=8)])
SPECS["P24"] = dict(
    technique=SAN + " (random circuits judged constraint by constraint; keys and proofs recomputed in the exponent from the toxic waste), memcheck and OpenMP builds",
    note=NOTE + "scalar multiplication (P06), the pairing (P09), and the compiler.",
    rule="distinct circuits and linear combinations",
    runs=[run("h_r1cs", "asan", 2.0), run("h_r1cs", "dbg", 0.25), run("h_r1cs", "omp", 4.0, threads=4),
          run("h_r1cs", "asan", 40.0, tier="thorough"), run("h_r1cs", "omp", 100.0, threads=8, tier="thorough")])

SPECS["P25"] = dict(
    technique=SAN + " (write/read round trips against the byte layout, in exactly sized heap buffers), memcheck",
    note=NOTE + "the text forms of the numbers involved (P02, P27) and rapidjson.",
    rule="distinct encodings",
    runs=[run("h_serial", "asan", 1.0, mode="p25"), run("h_serial", "dbg", 0.3, mode="p25"),
          run("h_serial", "asan", 30.0, mode="p25", tier="thorough")])

SPECS["P26"] = dict(
    technique=SAN + " (mutation fuzzing of encodings and documents in exactly sized heap buffers under an allocation limit), memcheck",
    note=NOTE + "that an input accepted is also a sensible value is not judged, only that using it is safe.",
    rule="distinct inputs",
    runs=[run("h_serial", "asan", 3.0, mode="p26"), run("h_serial", "dbg", 1.0, mode="p26"),
          run("h_serial", "asan", 100.0, mode="p26", tier="thorough")])

# Every harness also runs as an optimised gcc build (undefined behaviour that
# only shows when optimised) and under valgrind memcheck (uninitialised reads,
# which no compiler sanitizer here sees). Scale of the memcheck run; None:
# thorough tier only.
MEMCHECK = {
    "h_field": 0.2, "h_bigint": 0.2, "h_ext": None, "h_binary": 0.05, "h_packed": 0.3,
    "h_curve": 0.05, "h_msm": None, "h_pairing": None, "h_fft": None, "h_poly": 0.05,
    "h_multi": 0.05, "h_matrix": 0.2, "h_hash": 0.03, "h_transcript": 0.1, "h_merkle": 0.4,
    "h_fri": 0.3, "h_layout": 0.5, "h_kzg": 0.15, "h_expr": 0.4, "h_perm": 0.3,
    "h_plonk": 0.05, "h_r1cs": 0.15, "h_serial": 0.1,
}


def add_optimised_and_memcheck():
    for pid, s in SPECS.items():
        seen = []
        for r in list(s["runs"]):
            key = (r["target"], r.get("mode", ""))
            if r["flavour"] != "asan" or key in seen or r.get("tier", "quick") != "quick":
                continue
            seen.append(key)
            kw = dict(mode=r["mode"]) if r.get("mode") else {}
            if not any(x["flavour"] == "rel" and (x["target"], x.get("mode", "")) == key and
                       x.get("tier", "quick") == "quick" for x in s["runs"]):
                s["runs"].append(run(r["target"], "rel", r["scale"], **kw))
            base = r["target"].rstrip("0123456789")
            if base not in MEMCHECK:
                continue
            m = MEMCHECK[base]
            s["runs"].append(run(r["target"], "rel", 0.05 if m is None else m, tool="memcheck",
                                 threads=1, tier="thorough" if m is None else "quick",
                                 reps=1, timeout=300, **kw))


add_optimised_and_memcheck()
