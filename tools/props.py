#!/usr/bin/env python3
"""Writes /verif/properties.jsonl and /verif/MANIFEST.json from one table."""
import json, os
D = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
F = "src/festa.rs"; C = "src/eccore.rs"; I = "src/isogeny.rs"; T = "src/theta.rs"; S = "src/supersingular.rs"
G = "src/discrete_log.rs"; W = "src/pairing.rs"; FP = "src/finitefield/fp_gen.rs"; F2 = "src/finitefield/fp2_gen.rs"; PAR = "src/fields.rs"; U = "src/finitefield/utils64.rs"
P = []
def prop(id, title, statement, over, qtext, why, mech, note, technique="runtime monitoring: independent reference oracle over generated workloads", files=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files or sorted(set(w.split(":")[0] for _, w in mech)), mechanism=[dict(name=n, where=w) for n, w in mech], hook_needed=None),
        _note=note, _tech=technique))

prop("P01", "Trapdoor inversion recovers every valid input",
 "For every key pair produced by key generation and every valid trapdoor input (s1 below d1, s2 below d2, odd b11 below 2^633 with b22 its inverse modulo 2^634), inverting the trapdoor output with the secret key returns exactly the input's four integers. This also holds when the output and the secret key have been encoded to bytes and decoded in between.",
 ["inputs", "histories"], "All key pairs, all inputs in the domain, edge values of each component included, with and without serialisation in between.",
 "The one end-to-end test samples a single key and a single random input, and never goes through bytes.",
 [("trapdoor_eval", F+":399"), ("trapdoor_inverse", F+":503"), ("recover_diagB", F+":422"), ("recover_si_and_B", F+":450"), ("keygen", F+":292")],
 "Full-size round trips only (a few keys, edge-case and random inputs); exhaustive over nothing. Debug assertions and overflow checks are on.",
 "runtime monitoring: round-trip oracle on full-size keys, edge-biased inputs")
prop("P02", "Trapdoor evaluation computes the two masked isogenies",
 "For every supersingular public curve in the isogeny class with a basis of its 2^634-torsion and every valid input, trapdoor evaluation returns the Montgomery codomain of the isogeny with kernel P+[s]Q (canonical d1-basis of the starting curve, respectively canonical d2-basis of the public curve) and the images of the starting 2^634-basis, respectively the public basis, scaled by b11 and b22. Each pair of image points is correct up to one common sign, the fixed bases are genuine bases, and evaluation is deterministic and draws no randomness.",
 ["inputs"], "All public keys (generated or constructed, any projective representation of the points) and all inputs in the domain.",
 "Tests only see that a random output inverts; a wrong but invertible image, a common factor, or a wrong sign relation between the two points needs an independent evaluation of the isogeny.",
 [("trapdoor_eval", F+":399"), ("isogeny_from_scalar_x_only", S+":404"), ("evaluate_isogeny_chain_for_basis", I+":165")],
 "Oracle: separately written field, curve and Velu code evaluating every prime step in (x,y); trusts that code (self-tested on each run) and the repository's torsion_basis for which basis is canonical (its validity is checked).",
 "runtime monitoring: differential against an independent Velu evaluation; entropy-draw monitor")
prop("P03", "Generated keys are well formed and fresh",
 "Every generated key pair has supersingular public and secret curves; its public points form a basis of the full 2^634-torsion, and the secret point pairs form bases of the 2^634*d1 and d2 torsion of the secret curve, with pairings that fit secret isogenies of degrees dA1 and dA2 and the masking scalars. The two masking scalars are odd, below 2^634, distinct and drawn independently; keys draw on the system's randomness, and distinct key generations never share a curve, a basis mask or a secret.",
 ["inputs", "histories"], "All random choices of key generation, single calls and successive calls in one thread or in many.",
 "A test can only sample a key and run a round trip; it does not check torsion orders, pairings, freshness or the entropy consumed.",
 [("keygen", F+":292"), ("random_isogeny_x_only", S+":373"), ("evaluate_isogeny_chain_for_basis", I+":165"), ("torsion_basis", S+":220")],
 "About ten keys per quick run. Freshness is judged on observed keys and entropy draws, not by a statistical proof of uniformity.",
 "runtime monitoring: key invariants by oracle pairings and orders; entropy-draw and freshness monitors")
prop("P04", "Serialisation is lossless with a fixed layout",
 "Encoding a secret key yields the curve coefficient, the affine x and y of its four points, and its two scalars (82 bytes each), all little-endian and of fixed length whatever the values; encoding a trapdoor output yields the two curves each followed by its two points. Decoding returns the same curve, points and scalars, encoding again gives the same bytes, and key/input containers return exactly what was put in, with input equality meaning equality of all four integers.",
 ["inputs"], "All field values (zero, small, high, leading zero bytes), all projective representations of points, all scalars up to 82 bytes including 0 and short ones.",
 "Tests encode one random key; short scalars, zero coordinates and non-normalised points are rare at random.",
 [("SecretKey::encode/decode", F+":75"), ("TrapdoorOutput::encode/decode", F+":156"), ("TrapdoorInput", F+":201"), ("PublicKey", F+":23")],
 "Edge-biased and random values compared byte for byte against the documented layout. Points at infinity are outside the domain.")
prop("P05", "Base field ring operations are exact modulo p",
 "For all base-field elements, addition, subtraction, negation, multiplication, squaring, halving, doubling, small multiples (every signed 32-bit constant), sums and differences of products, integer conversions and powers return the exact result modulo p, in canonical form. All operator forms (by value, by reference, assigning) and the published constants agree with it.",
 ["inputs"], "All operands, in particular those near 0, p, p/2, powers of two and limb boundaries, where a carry or final subtraction is decided.",
 "The field tests use pseudo-random operands, for which a wrong final correction or a lost carry occurs with probability about 2^-64 or less.",
 [("set_add/set_sub/set_neg", FP+":178"), ("set_mul/set_square/set_montyred", FP+":252"), ("set_mul_small", FP+":492"), ("sum_of_products", FP+":1430"), ("set_pow", FP+":1079")],
 "Edge-biased operands in Montgomery and plain representation, compared with big-integer arithmetic.")
prop("P06", "Base field division, Legendre symbol and roots are correct",
 "For all base-field x and y, x/y times y equals x when y is nonzero and the result is 0 when y is zero, and inversion agrees. The Legendre symbol is that of Euler's criterion; square and fourth roots report success exactly when a root exists, return an even (least-residue-parity) root of the stated power then, and zero with failure otherwise.",
 ["inputs"], "All operands, including those that drive the binary-GCD division and Legendre loops through extreme quotient sequences.",
 "Random operands follow typical GCD trajectories only.",
 [("set_div", FP+":768"), ("legendre", FP+":1132"), ("set_sqrt", FP+":958"), ("set_fourth_root", FP+":1020")],
 "Edge-biased operands against big-integer extended gcd and Euler's criterion.")
prop("P07", "Quadratic extension arithmetic is exact",
 "For all elements of the quadratic extension with i^2=-1, every ring operation, conjugation, small multiple, division and inversion (zero when dividing by zero), every power function and the published constants return the exact result. Batch inversion of a list of any length equals element-wise inversion, with the documented convention for zeros.",
 ["inputs"], "All operands (zero, real, imaginary, edge limbs), all exponents and bit lengths, all list lengths.",
 "Tests draw generic elements and one exponent size; batch sizes and operands with zero parts are not covered.",
 [("set_mul/set_square", F2+":154"), ("set_div/set_invert", F2+":308"), ("batch_invert", F2+":778"), ("set_pow_ext/set_pow_u64_vartime", F2+":575")],
 "Edge-biased operands against separately written arithmetic.")
prop("P08", "Square and fourth roots in the extension field are correct",
 "For every element of the quadratic extension, the square and fourth root functions report success exactly when a root exists and then return a root under the documented sign convention, and zero otherwise; the Legendre symbol agrees. The published non-residue and generated non-squares are genuinely non-square.",
 ["inputs"], "All elements, including zero, elements of the base field (residue or not), purely imaginary ones and their products.",
 "Random elements never lie in the base field or on the imaginary axis, where the algorithm takes its special paths.",
 [("set_sqrt", F2+":356"), ("set_fourth_root", F2+":442"), ("legendre", F2+":343"), ("set_rand_nonsquare", F2+":662")],
 "All special sub-cases by construction, plus random ones; existence by Euler's criterion in the oracle.")
prop("P09", "Field encodings are canonical and decoding is strict",
 "Every field element encodes to the fixed-length little-endian form of its unique representative, and decoding accepts exactly those byte strings: wrong length or a value of p or more yields zero and a failure status. Reducing decoding maps a byte string of any length to its integer value modulo p, and random sampling uses fresh random bytes and covers the field.",
 ["inputs"], "All byte strings of all lengths, values around p and around powers of two included; both field levels.",
 "The values between p and 2^1296, and lengths that are not a multiple of the limb size, are not reached by random tests.",
 [("encode/decode", FP+":1297"), ("set_decode_reduce", FP+":1362"), ("encode/decode", F2+":626"), ("set_rand", FP+":1405")],
 "Boundary-biased byte strings against big-integer decoding.")
prop("P10", "Conditional operations and comparisons act on the whole value",
 "Selection, conditional copy, conditional negation and conditional swap of field elements and points do nothing for a zero mask and take full effect for the all-ones mask. Equality and zero tests return all-ones or zero according to the represented value alone, so that equal points in different projective scalings compare equal and values differing in any single bit or coordinate compare different; equal field elements hash alike.",
 ["inputs"], "All values, differing in one limb, one bit or one coordinate; all projective representations.",
 "Tests compare random values, which differ everywhere.",
 [("set_select/condswap", FP+":592"), ("equals/iszero", FP+":157"), ("Point::equals/set_cond", C+":88")],
 "Single-limb and single-coordinate perturbations, both masks.")
prop("P11", "Point addition, subtraction and doubling are complete",
 "On every Montgomery curve over the extension field and for all pairs of points on it, in any projective scaling, addition, subtraction, negation, doubling and repeated doubling return the point of the group law, with no exceptional pair: equal points, opposite points, points of order two and the neutral element included. Product-curve operations act component-wise.",
 ["inputs"], "All ordered pairs of points including equal, opposite, 2-torsion, 4-torsion and neutral ones; all scalings.",
 "Random points never hit the exceptional pairs of an addition formula.",
 [("add_into", C+":341"), ("double_from_coords/double_iter", C+":454"), ("CouplePoint/EllipticProduct", C+":842")],
 "Special points by construction on several curves, compared with affine chord-and-tangent.")
prop("P12", "Scalar multiplication is exact for every scalar",
 "For all points and all scalars (zero, one, multiples of the point's order, longer than the group order, truncated bit lengths) multiplication by a byte-string scalar, a big integer or a 64-bit integer returns the group-law multiple, sign included. Points of small order, the order-two point and the neutral element are included.",
 ["inputs"], "All scalars and bit lengths, all points including those of order dividing 8 and small odd order.",
 "A ladder with recovery of y has exceptional cases only at special points and scalars that random tests do not draw.",
 [("mul_into", C+":532"), ("mul_big", C+":661"), ("mul_small_into", C+":668")],
 "Edge-biased scalars and special points, compared with double-and-add in affine coordinates.")
prop("P13", "Curve membership, lifting and point sampling are sound",
 "Constructors that check membership accept exactly coordinates on the curve and report failure (with the neutral point or none) otherwise; completing an x-coordinate yields a point with that x exactly when one exists. The point iterator and the random sampler only yield points on the curve, the iterator being reproducible and never repeating, the sampler depending on fresh randomness and reaching both signs of y.",
 ["inputs"], "All coordinate pairs/triples on and off the curve, projective scalings, all x-coordinates, all curves.",
 "Tests never offer off-curve or degenerate coordinates.",
 [("set_xy/set_xyz/on_curve", C+":253"), ("complete_pointX", C+":750"), ("CurveIter::next", C+":780"), ("set_rand_point", C+":697")],
 "Perturbed coordinates, twist x-coordinates, degenerate triples.")
prop("P14", "Curve isomorphisms map the group and j-invariant is exact",
 "The j-invariant of a Montgomery curve equals its textbook value and is equal for isomorphic models. For any two isomorphic Montgomery models (equal ones, those with A2=-A1, and those of j = 0 and 1728 included), the isomorphism sends points on the first curve to points on the second, is a group homomorphism and injective, and maps the neutral element to the neutral element.",
 ["inputs"], "All pairs among the isomorphic models of a curve, all points including 2-torsion and neutral.",
 "Only one fixed pair of coefficients is tested.",
 [("CurveIsomorphism", C+":806"), ("j_invariant", C+":219")],
 "Every model pair of sampled supersingular and ordinary-coefficient curves, of j = 1728 and of j = 0.")
prop("P15", "Isogeny steps and chains match Velu's formulas",
 "For every curve and every rational kernel point of odd prime order (3 included) the x-only isogeny has the codomain of the quotient curve in Montgomery form and maps x-coordinates as the quotient isogeny does, kernel points going to the neutral element. A chain computed from a kernel of any smooth odd order, with any factor order, with or without extra evaluation points, gives the quotient by the whole kernel.",
 ["inputs"], "All kernels for all supported prime degrees and composite orders, repeated prime powers included; all evaluated points (generic, 2-torsion, kernel, neutral) and scalings.",
 "Tests run a few fixed degrees and compare only that a point's order or a degree-specific relation survives.",
 [("KummerLineIsogeny", I+":17"), ("evaluate_isogeny_chain", I+":147"), ("factored_kummer_isogeny", I+":192")],
 "Degrees up to 3779 sampled; codomain and images against affine Velu sums.")
prop("P16", "Basis images under an isogeny share one sign",
 "Pushing a basis of torsion of order coprime to the degree through an isogeny chain returns points that are both the true images or both their negatives, never a mixture, so that every linear combination of the images is the image of that combination up to one common sign. The codomain and the independence of the images are exact.",
 ["inputs"], "All curves, kernels and bases (2-power, odd and mixed order), both relative signs.",
 "A wrong relative sign appears with probability one half per choice of square roots and needs the true images to be noticed.",
 [("evaluate_isogeny_chain_for_basis", I+":165")],
 "True images by the oracle.")
prop("P17", "Pairings are exact, bilinear and alternating",
 "For all points of order dividing n (dependent, equal, of smaller order or neutral included) the Weil pairing equals the textbook value, so it is bilinear, alternating and of exact order for a basis, and an isogeny raises it to its degree. The Tate pairing of independent points agrees with its reduced textbook value where defined.",
 ["inputs"], "All orders n supported (2-power, odd smooth, mixed), all pairs of n-torsion points, all scalings.",
 "The pairing tests use independent points of one exact order.",
 [("miller_loop/eval_line", W+":9"), ("weil_pairing", W+":96"), ("tate_pairing", W+":81")],
 "Separately written Miller loop with random auxiliary points, plus algebraic laws.")
prop("P18", "Discrete logarithms and modular solvers return the unique answer",
 "Modular inverses, Chinese remaindering and integer square roots return the exact value in range for all arguments. Baby-step giant-step and Pohlig-Hellman return the unique exponent for every group element of every supported order, and the two-dimensional logarithm on a torsion basis returns the unique coefficient pair, zero coefficients and points of smaller order included, with or without a precomputed pairing.",
 ["inputs"], "All arguments; all exponents including 0, order-1 and multiples of prime factors; all factored orders.",
 "Tests draw single random exponents; zero, boundary and 32-bit-overflow cases are missing.",
 [("xgcd_big", G+":11"), ("compute_crt", G+":38"), ("sqrt_floor", G+":61"), ("bsgs", G+":87"), ("ph_dlp_power", G+":110"), ("bidlp", G+":169")],
 "Exponents chosen first, answer compared; boundary-biased.")
prop("P19", "Torsion points and bases have the exact orders requested",
 "For every curve in the class and every supported factored order, the deterministic and random torsion-point generators return points of exactly that order, torsion bases are independent and deterministic for a given curve and order, and cofactor clearing multiplies by exactly the stated cofactor. The 2^634-basis (entangled) generator returns a basis of exact order whenever it returns.",
 ["inputs"], "All curves in the isogeny class except A=0, all factored orders made of primes dividing p+1.",
 "Tests check a few orders on the starting curve; a basis dependent modulo one small prime occurs on some curves only.",
 [("clear_cofactor", S+":151"), ("generate_point_order_factored_D", S+":190"), ("torsion_basis", S+":220"), ("entangled_torsion_basis", S+":252")],
 "Independence modulo every prime checked by oracle pairings.")
prop("P20", "Order predicates accept exactly elements of that order",
 "The predicate on points, and the one on field elements, is true exactly when the element's order equals the factored integer given: not for proper divisors, proper multiples, the neutral element (unless the order is 1) or unrelated orders.",
 ["inputs"], "All elements of order dividing the group order, all factored orders, any number and order of prime factors.",
 "Tests only use elements that pass.",
 [("point_has_factored_order", S+":17"), ("has_factored_order", S+":85")],
 "Elements of exact, smaller, larger and unrelated order by construction.")
prop("P21", "Canonical kernels and sampled isogenies are correct",
 "For any kernel generated by P+[s]Q of a torsion basis, the canonical-kernel computation returns s for every scaling of the generator pair, and the isogeny built from a scalar is the quotient by P+[s]Q. A randomly sampled isogeny of a factored degree has a cyclic kernel of exactly that degree with matching codomain, fresh randomness each time, and every neighbour of a prime degree is reachable.",
 ["inputs", "histories"], "All scalars (0, boundary, sharing factors with the degree), all unit scalings, all bases, all degrees.",
 "Tests check only that a random isogeny runs.",
 [("compute_canonical_kernel", S+":332"), ("random_isogeny_x_only", S+":373"), ("isogeny_from_scalar_x_only", S+":404")],
 "Codomains and images against the oracle; reachability by repeated sampling at degrees 3, 5, 7.")
prop("P22", "Product (2^n,2^n)-isogenies agree with Kani's lemma",
 "For kernels on a product of two curves built from isogenies of odd coprime degrees a and b with a+b=2^n (n at least 3), the product isogeny's codomain is the product of the two curves predicted by Kani's lemma, and every evaluated point pair maps to the predicted pair up to one automorphism per component common to all points. The result does not depend on the strategy used or on the number or order of evaluated points.",
 ["inputs"], "All such kernels and lengths, all valid strategies, swapped factors, evaluation points with a neutral component.",
 "One fixed test vector of one length exists; its images are compared with constants.",
 [("product_isogeny", T+":1142"), ("product_isogeny_no_strategy", T+":1079"), ("gluing_isogeny", T+":532"), ("split_to_product", T+":1002")],
 "n from 3 to 26 with smooth splittings; n=632 is exercised by P01. n=2 is outside the algorithm's domain (gluing, penultimate and splitting steps must be distinct).",
 "runtime monitoring: oracle from Kani's lemma on constructed instances, strategy differential")
prop("P23", "Constant-time operations do not branch or index on secrets",
 "The field operations (both fields: ring operations, small multiples, division, square and fourth roots, Legendre symbol, powers, comparison, selection, encoding and strict decoding, batch inversion) and the point operations documented as constant-time (addition, doubling, scalar multiplication, comparison, conditional assignment, completion, affine conversion) execute the same control flow and touch the same addresses whatever the values of their operands, masks, exponents and scalars; only lengths and values documented as public (small scalars, vartime exponents, decode lengths) may influence them.",
 ["inputs"], "All operand values, zero, equal, opposite and neutral ones included; all secret exponent and scalar bits; for each public length.",
 "Unit tests compare results only: a branch or early exit on a secret leaves every result unchanged.",
 [("iszero/equals/select/condneg", FP+":540"), ("set_div/legendre/sqrt/pow", FP+":768"), ("decode", FP+":1290"), ("Fp2 operations", F2+":154"), ("add/double/mul", C+":300")],
 "Deterministic replay of each operation with tainted operands; a silent run shows the control flow is the same for all values at that public length. Judged on an unoptimised build, so code the optimiser may turn into a branch is out of scope. Caches and instruction timing are not observed.",
 "runtime monitoring: valgrind memcheck taint tracking of secret operands (ctgrind), with live controls")
prop("P24", "Public parameters are mutually consistent",
 "The modulus is prime and the published forms of it and of p+1 agree; every degree is the product (or square of the product) of its listed distinct primes, the degrees are pairwise coprime and their torsion is rational together with the 2^634-torsion of the starting curve. The degrees satisfy m1^2 d1 dA1 + m2^2 d2 dA2 = 2^632, and the stored strategy drives a chain of exactly 632 steps.",
 ["configurations"], "The parameter set, all constants together.",
 "No test relates the constants to each other.",
 [("constants", PAR+":385"), ("THETA_STRATEGY", PAR+":497"), ("FESTACrypto::new", F+":256")],
 "Complete check of the single parameter set; primality by 40 strong-pseudoprime bases.",
 "runtime monitoring: executable invariant on the linked constants")
prop("P25", "Results do not depend on history, sharing or schedule",
 "Key generation (for given randomness), trapdoor evaluation, inversion, torsion bases and product isogenies give the same result on a new instance alone as on an instance shared by concurrent threads after any other calls, calls that fail included.",
 ["schedules", "histories"], "All interleavings of calls from several threads on one shared instance, all preceding calls.",
 "Tests call each operation once in a thread of its own.",
 [("FESTACrypto (shared by reference)", F+":240"), ("thread_rng use", F+":292")],
 "Sampled histories (calls outside their contract included), sequences of calls that share all but one argument, concurrent calls with delays injected at arbitrary instructions, and shared trapdoor jobs; each result is compared with that of the same call in a process of its own.",
 "runtime monitoring: history and schedule workloads with injected delays against isolated processes")
prop("P26", "Theta structures double points correctly",
 "A level-two theta structure keeps its null point and derives from it exactly the ratios of its coordinates and dual coordinates; the Hadamard and squared transforms are exact; doubling, single or repeated, is multiplication by two on the Kummer surface: on a product of two Kummer lines it doubles both components, it sends the null point and its translates by two-torsion to the null point, and it does not change under translation by two-torsion.",
 ["inputs"], "All null points without vanishing (dual) coordinates, all points, vanishing coordinates and points of order two and four included, all projective scalings.",
 "No test calls the theta arithmetic apart from one fixed chain.",
 [("ThetaPoint", T+":66"), ("ThetaStructure::precomputation", T+":170"), ("set_double_self/double_iter", T+":197")],
 "Random and boundary null points and points; product structures over both fields of definition give an elliptic-curve meaning to the result.",
 "runtime monitoring: exact oracle and elliptic-curve differential on every call")
prop("P27", "No call has undefined behaviour, a memory error or a data race",
 "Every call of the public (safe) interface has defined behaviour: no memory is read or written outside or after its object, unaligned or uninitialised, no processor instruction is used that the build target does not guarantee, and no two threads race on memory, for valid arguments and for byte strings of any length given to the decoding functions, and with any number of threads using the same values, keys and instance.",
 ["inputs", "schedules"], "All public functions, all arguments, all interleavings.",
 "Tests run ordinary compiled code, in which undefined behaviour usually goes unnoticed on the machine at hand.",
 [("addcarry_u64/subborrow_u64/umull (unsafe intrinsics)", U+":6"), ("set_decode_reduce", FP+":1240"), ("batch_invert", F2+":778"), ("FESTACrypto (shared by reference)", F+":240"), ("product_isogeny", T+":1149")],
 "Miri runs the field, point, codec and number-theoretic code (a few operations each, since interpretation is slow); AddressSanitizer and ThreadSanitizer builds run every kind of operation, product isogenies and the trapdoor included.",
 "runtime monitoring: undefined-behaviour interpreter (Miri), AddressSanitizer and ThreadSanitizer over generated workloads", files=[U, FP, F2, C, T, F])
prop("P28", "Results do not depend on the build or the platform",
 "Every operation gives the same result in a build with assertions and overflow checks, in an optimised build without them, with the extensions of the processor enabled (BMI2, LZCNT), and on targets with other word sizes, byte orders and arithmetic primitives (the portable code paths): no overflow, debug assertion, pointer width or byte order influences a result, and the library compiles for all of them.",
 ["inputs"], "All operations and arguments, all build profiles and targets.",
 "Tests run in one build on one machine; code selected for other targets and behaviour that depends on debug assertions is never executed.",
 [("addcarry_u64/subborrow_u64/umull/lzcnt, one variant per target", U+":1"), ("set_div/legendre (lzcnt)", FP+":768"), ("debug assertions in keygen and trapdoor_inverse", F+":377"), ("debug assertions in bsgs/ph_dlp", G+":119")],
 "Native builds: checked, optimised without assertions, and for the processor at hand, on every kind of operation including the trapdoor. Other targets (64-bit ARM, 32-bit x86, big-endian s390x) are interpreted by Miri on the field, point, codec and number-theoretic code.",
 "runtime monitoring: differential execution of the same calls in several builds and, interpreted, for several targets", files=[U, FP, F2, C, G, F])
def main():
    with open(D+"/properties.jsonl", "w") as f:
        for p in P:
            f.write(json.dumps({k: v for k, v in p.items() if k[0] != "_"})+"\n")
    checks = [dict(property=p["id"], quick_cmd="./check.sh "+p["id"], thorough_cmd="./check.sh "+p["id"]+" thorough", evidence_file="evidence/%s.json" % p["id"],
        technique=p["_tech"], level="exploration", level_note=p["_note"]) for p in P]
    json.dump(dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=NA, notes="No hooks in /repo: everything the monitors observe is public API. See DESIGN.md."), open(D+"/MANIFEST.json", "w"), indent=1)
NA = []
for p in P:
    assert len(p["title"]) <= 80, p["title"]
main()
