#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source for ids, titles and statements)."""
import json
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), obs=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=list(obs), hook_needed=None)))
NT = "The ten existing tests touch only the generator's encoding round trip and version(); "
pf, qf = "src/primefield/mod.rs", "src/quadraticfield/mod.rs"
W, M, E = "src/weierstrass", "src/montgomery", "src/edwards"
RM = "src/instances/rational_maps.rs"

prop("C01", "Prime-field ring operations are exact arithmetic modulo p",
 "For every odd prime p and all elements, addition, subtraction, multiplication, negation and squaring return the canonical representative in [0,p) of the integer result modulo p, and is_zero/is_one/equality agree with that representative. Every owned/borrowed form of an operator returns the same element, and no operand is changed.",
 ["inputs"], "all odd primes p (toy to 521 bits), all pairs of elements, all operator forms",
 NT+"no test performs a field operation and checks its value.",
 [pf, "src/ops.rs", "src/field.rs"], [("red / elt reduce with mod_floor", pf), ("impl_op_ex operator forms and the two hand-written Add impls", pf)],
 obs=["Display of FpElt", "operator results"])
prop("C02", "Prime-field inversion, division and powers obey field laws",
 "For every odd prime p, 1/x and x^-1 are the inverse of every nonzero x, the inverse of zero is zero, and a/b equals a times the inverse of b. Raising x to a non-negative integer e of any size (through either big-integer type) is the e-fold product with x^0 = 1 and 0^e = 0 for e > 0, and raising to a negative integer is the same power of the inverse.",
 ["inputs"], "all odd primes, all elements including 0, all integer exponents including 0, negative, multiples of p-1 and beyond p",
 NT+"exponent and inverse corner cases (0, p-1, negative) are never evaluated.",
 [pf], [("inv_mod via exponent p-2", pf), ("BitXor with BigUint/BigInt, i32 and u32", pf)], obs=["Display of FpElt"])
prop("C03", "Prime-field square roots and residue test are correct",
 "For every prime p congruent to 3 mod 4 or 5 mod 8 and every element x, the residue test is true exactly when some element squares to x (zero included), and whenever it is true the returned root squares to x. The answer does not depend on how many roots were taken from that field before, or through which copy of the field.",
 ["inputs", "histories"], "all supported primes, all elements, any order of root computations on one field or on its copies",
 NT+"one compressed decoding per curve is the only root ever taken.",
 [pf], [("SqrtPrecmp cache and its two formulas", pf), ("Euler criterion in is_square", pf)],
 state=[("sqrt_precmp", "lazily computed constants shared by all copies of a field", pf)], obs=["Sqrt::sqrt", "Sqrt::is_square"])
prop("C04", "Sign and conditional selection of field elements are well defined",
 "In a prime field the sign is +1 for even canonical representatives and -1 for odd ones; in the quadratic extension it is the sign of the first nonzero coordinate (+1 for zero), so for every nonzero x exactly one of x and -x is positive. Conditional selection returns the second element when the condition holds and the first otherwise.",
 ["inputs"], "all odd primes, all elements of Fp and of Fp2 (including elements with zero coordinates)",
 NT+"sign is exercised only on two generators.",
 [pf, qf, "src/field.rs"], [("Sgn0 for FpElt", pf), ("Sgn0 for Fp2Elt", qf), ("CMov::cmov", "src/field.rs")], obs=["Sgn0::sgn0", "CMov::cmov"])
prop("C05", "Field elements are built from and serialized to integers, text, bytes",
 "Building an element of Fp or Fp2 from any machine integer, any big integer, or any decimal/0x/0o/0b text with optional minus sign (two comma-separated texts for Fp2) yields that integer reduced modulo p. Serialization always has the field's fixed byte length, little endian is the byte reversal of big endian in each coordinate, and reading back a serialized element returns it; bytes of any value are reduced modulo p, and Fp2 refuses input of the wrong length with an error.",
 ["inputs"], "all integers of every accepted type, all numeric strings, all byte strings, all field sizes including non multiples of 8 bits",
 NT+"leading zeros, negative inputs, radix prefixes and endianness are not tested.",
 [pf, qf, "src/ops.rs"], [("FromFactory impls", pf), ("to_bytes_be padding", pf), ("from_bytes_*", qf)], obs=["Display", "to_bytes_be/le", "from_bytes_be/le"])
prop("C06", "Quadratic-extension arithmetic is exact arithmetic in Fp[i]/(i^2+1)",
 "For every prime p congruent to 3 mod 4 and all elements of Fp2, the ring operations, squaring, negation, inversion, division and raising to any integer power return the value of that operation in Fp[i]/(i^2+1), with the inverse of zero being zero, x^0 = 1 and negative powers being powers of the inverse. Every owned/borrowed form of an operator returns the same element, and is_zero/is_one/equality agree with the value.",
 ["inputs"], "all primes 3 mod 4, all pairs of elements, all integer exponents",
 NT+"no test touches Fp2 beyond constructing the field in a doc example.",
 [qf], [("operator impls on coordinate vectors", qf), ("inv_mod by the norm", qf), ("square-and-multiply BitXor", qf)], obs=["Display of Fp2Elt"])
prop("C07", "Quadratic-extension square roots and residue test are correct",
 "For every prime p congruent to 3 mod 4 and every element x of Fp2, the residue test is true exactly when some element of Fp2 squares to x (zero included), and whenever it is true the returned root squares to x. The answer is the same on first and later use of the field and through any copy of it.",
 ["inputs", "histories"], "all primes 3 mod 4, all elements of Fp2, any order of root computations",
 NT+"Fp2 roots are never computed.",
 [qf], [("Sqrt for Fp2Elt", qf), ("SqrtPrecmp", qf)], state=[("sqrt_precmp", "lazily computed exponents shared by copies", qf)], obs=["Sqrt::sqrt", "Sqrt::is_square"])
prop("C08", "Scalars are exact integers modulo the group order",
 "On every curve, a scalar built from any integer (negative, or larger than the order r) is that integer modulo r, and +, -, *, negation, 1/k and division (1/0 being 0) are exact modulo prime r in every owned/borrowed form. Its bit iterators yield exactly the binary digits of the value, most or least significant first and none for zero, and its serialization has the byte length of r and is the fixed-length big- or little-endian value.",
 ["inputs"], "all three curve models, all integers, all orders including those whose bit length is not a multiple of 8 or 32",
 NT+"no test creates a scalar.",
 [W+"/scalar.rs", M+"/scalar.rs", E+"/scalar.rs"], [("Scalar::new/red/inv_mod", W+"/scalar.rs"), ("Iterino", W+"/scalar.rs")], obs=["Display of Scalar", "iter_lr/iter_rl", "to_bytes_*"])
prop("C09", "Weierstrass point operations are the chord-and-tangent group law",
 "On every short Weierstrass curve of odd order, for all points in all internal representations, addition, doubling, negation and subtraction return exactly the chord-and-tangent result, including P+P, P+(-P), the identity on either side and points reached by any sequence of operations. Every owned/borrowed operator form returns the same point.",
 ["inputs", "histories"], "all curves of odd order, all pairs of points including exceptional pairs, all operation histories that produce a representation",
 NT+"no test adds two points and checks the sum.",
 [W+"/point.rs", W+"/curve.rs"], [("core_add / core_doubling complete formulas", W+"/point.rs"), ("core_neg", W+"/point.rs")],
 state=[("projective coordinates", "representation (X:Y:Z) hidden behind the point", W+"/point.rs")], obs=["Display of Point", "encode(false)"])
prop("C10", "Montgomery point operations are the curve's group law",
 "On every Montgomery curve by^2=x^3+ax^2+x whose auxiliary constant s is admissible (no curve point has y = s or y = -s), for all points in all representations, addition, doubling, negation and subtraction return exactly the group-law result, including doubling, inverses, the identity, and 2-torsion and other low-order points. This holds for every nonzero b, and in every owned/borrowed operator form.",
 ["inputs", "histories"], "all Montgomery curves with admissible s, all pairs of points, all histories",
 NT+"no test adds Montgomery points.",
 [M+"/point.rs", M+"/curve.rs"], [("core_add with constant s", M+"/point.rs"), ("core_neg", M+"/point.rs")],
 state=[("projective coordinates", "representation (X:Y:Z)", M+"/point.rs")], obs=["Display of Point"])
prop("C11", "Twisted Edwards point operations are the Edwards group law",
 "On every twisted Edwards curve with a square and d non-square, for all points in all extended representations, addition, doubling, negation and subtraction return exactly the Edwards addition law, including the identity, inverses and points of order 2 and 4. The auxiliary coordinate always remains consistent (T*Z = X*Y), and every owned/borrowed operator form returns the same point.",
 ["inputs", "histories"], "all complete twisted Edwards curves, all pairs of points, all histories",
 NT+"no test adds Edwards points.",
 [E+"/point.rs", E+"/curve.rs"], [("core_add unified formula", E+"/point.rs"), ("core_neg", E+"/point.rs")],
 state=[("extended coordinates", "representation (X:Y:T:Z)", E+"/point.rs")], obs=["Display of Point"])
prop("C12", "Scalar multiplication is repeated addition",
 "In all three curve models, for every scalar k in [0,r) and every point P of the curve (of any order, in any representation), k*P is P added to itself k times; 0*P and k*O are the identity. Point-times-scalar and scalar-times-point agree in every owned/borrowed form, and therefore (j+k)P = jP+kP and (jk)P = j(kP) on points of order dividing r.",
 ["inputs", "histories"], "all curves, all scalars including 0, 1, r-1, values with long runs of zero bits or whole zero words, all points including low order",
 NT+"no test multiplies a point; zero scalars and word boundaries are never reached.",
 [W+"/point.rs", M+"/point.rs", E+"/point.rs", W+"/scalar.rs", M+"/scalar.rs", E+"/scalar.rs"],
 [("core_mul double-and-add over iter_lr", W+"/point.rs"), ("Mul impls", W+"/scalar.rs")], obs=["Display of Point"])
prop("C13", "Points stay valid; identity test, equality, normalization are exact",
 "Every point the API hands out satisfies its curve's equation; creating a point from coordinates succeeds exactly when they satisfy it and otherwise panics; the membership test accepts every point of the curve. is_zero is true for the group identity only, equality holds exactly for the same group element whatever the internal representation, and normalization leaves z = 1 (identity excepted) and never changes the point.",
 ["inputs", "histories"], "all coordinate pairs, all points of all three models in all reachable representations",
 NT+"only generators are compared, always in the same representation.",
 [W+"/curve.rs", W+"/point.rs", M+"/curve.rs", M+"/point.rs", E+"/curve.rs", E+"/point.rs"],
 [("is_on_curve / new_point / new_proy_point", W+"/curve.rs"), ("PartialEq cross multiplication", M+"/point.rs"), ("is_zero", E+"/point.rs"), ("normalize", W+"/point.rs")], obs=["is_zero", "==", "is_on_curve", "normalize + Display"])
prop("C14", "Encoding a point is canonical and decoding it returns the point",
 "For every point of every curve, in any representation, the encoding is the standard one: one zero byte for the identity, 04||x||y or 02/03||x by parity of y for Weierstrass and Montgomery points, and little-endian y with the parity of x in the top bit for Edwards points, with fixed field lengths. Equal points have equal encodings, distinct points distinct ones, and decoding an encoding always succeeds and returns the same point.",
 ["inputs", "histories"], "all points of all curves (identity, low order, coordinates with leading zero bytes), both compression settings, any representation",
 "The existing tests round-trip only the generator of seven curves in its initial representation.",
 [W+"/point.rs", W+"/curve.rs", M+"/point.rs", M+"/curve.rs", E+"/point.rs", E+"/curve.rs", pf],
 [("Encode::encode after normalize", W+"/point.rs"), ("Decode::decode", W+"/curve.rs")], obs=["encode", "decode"])
prop("C15", "Decoding any byte string is total and accepts only canonical encodings",
 "For every curve and every byte string, decode returns without panicking: a point when the string is exactly one of the standard encodings of a point of that curve, and an error otherwise. In particular wrong lengths, unknown tags, coordinates not below the modulus, coordinates with no point on the curve and a sign bit on a zero coordinate are refused with an error.",
 ["inputs"], "all byte strings of every length (exhaustive on toy curves)",
 NT+"no invalid input is ever decoded.",
 [W+"/curve.rs", M+"/curve.rs", E+"/curve.rs"], [("length, tag and range checks; root recovery", W+"/curve.rs")], obs=["decode result"])
prop("C16", "Values of different fields, groups or curves never mix",
 "Combining elements of different fields, scalars of different orders, points of different curves, or a point with a scalar of another order, with any arithmetic operator in any operand form, panics instead of returning a value; a curve refuses coordinates of another field, a map refuses an element of another field, and a morphism a point over another field; comparing such values for equality returns false without panicking. Separately constructed but identical fields and curves are interchangeable.",
 ["inputs", "configurations"], "all pairs of distinct/identical fields, orders and curves, all operators and operand forms",
 NT+"no test uses two different fields or curves together.",
 [pf, qf, W+"/point.rs", M+"/point.rs", E+"/point.rs", W+"/scalar.rs", M+"/scalar.rs", E+"/scalar.rs", "src/macros/mod.rs"],
 [("do_if_eq guards", "src/macros/mod.rs"), ("PartialEq on Params, Curve, Point", pf)], obs=["panic or value", "=="])
prop("C17", "SSWU maps every field element to the standard curve point",
 "For every Weierstrass curve and constant Z the SSWU constructor accepts, and every field element u (exceptional ones included), the map terminates without panicking and returns the point of RFC 9380 simplified SWU: on the curve, with y of the same sign as u and x chosen by the residue test. The result depends on u alone.",
 ["inputs"], "all valid (A,B,Z) on supported fields, all u including 0 and the exceptional values",
 NT+"there are no tests for the map.",
 [W+"/sswu.rs"], [("SSWU::map straight-line program", W+"/sswu.rs"), ("SSWU::new constants", W+"/sswu.rs")], obs=["map result"])
prop("C18", "SVDW maps every field element to the standard curve point",
 "For every Weierstrass curve and constant Z the SVDW constructor accepts, and every field element u (exceptional ones included), the map terminates without panicking and returns the point of RFC 9380 Shallue-van de Woestijne: on the curve, the first of three candidate abscissas with a point, and y of the same sign as u. The result depends on u alone.",
 ["inputs"], "all valid (A,B,Z) on supported fields, all u including 0 and the exceptional values",
 NT+"there are no tests for the map.",
 [W+"/svdw.rs"], [("SVDW::map straight-line program", W+"/svdw.rs"), ("SVDW::new constants", W+"/svdw.rs")], obs=["map result"])
prop("C19", "Elligator 2 maps every field element to the standard curve point",
 "For every Montgomery curve (any nonzero b) and non-square Z, and every field element u (exceptional ones included), the Montgomery map terminates without panicking and returns the RFC 9380 Elligator 2 point with its sign rule. The Edwards map returns the image of that point under the given rational map, and thus always a point of the Edwards curve.",
 ["inputs"], "all Montgomery curves on supported fields, all u including 0 and Z*u^2 = -1; both standard Edwards curves",
 NT+"there are no tests for the map.",
 [M+"/elligator2.rs", E+"/elligator2.rs"], [("Ell2::map", M+"/elligator2.rs"), ("pull of the rational map", E+"/elligator2.rs")], obs=["map result"])
prop("C20", "SSWU for curves with AB=0 is the isogeny image of SSWU",
 "For every isogeny onto a curve with exactly one zero coefficient, the AB=0 map of every field element u terminates without panicking and equals the isogeny applied to the SSWU image of u on the isogenous curve; on secp256k1 and BLS12-381 G1 it is the RFC 9380 map. The result is always a point of the target curve, also when the SSWU image lies in the kernel of the isogeny (then it is the identity).",
 ["inputs"], "all u on secp256k1, BLS12-381 G1 and toy isogenies, including u whose image is a kernel point",
 NT+"there are no tests for the map.",
 [W+"/sswuab0.rs", W+"/sswu.rs", RM], [("SSWUAB0::map composes iso.push and sswu.map", W+"/sswuab0.rs")], obs=["map result"])
prop("C21", "Edwards/Montgomery rational maps are total group homomorphisms",
 "For both Edwards/Montgomery pairs and every point in any representation, push and pull return without panicking a valid point depending only on the group element, send identity to identity and respect addition. For 25519 they are mutually inverse bijections given by the RFC 7748 birational map; for 448 they are the RFC 7748 4-isogeny and its dual, so pull after push and push after pull multiply by 4; the standard generators correspond.",
 ["inputs", "histories"], "all points of both curves of each pair, in particular all low-order points and non-normalized representations",
 NT+"there are no tests for rational maps.",
 [RM, E+"/point.rs", M+"/point.rs"], [("push / pull with special cases", RM), ("is_zero, is_two_torsion", M+"/point.rs")], obs=["push/pull result"])
prop("C22", "The secp256k1 and BLS12-381 isogenies are group homomorphisms",
 "For the 3-isogeny onto secp256k1 and the 11-isogeny onto BLS12-381 G1 and every point of the domain in any representation, push returns without panicking the RFC 9380 image, a point of the codomain depending only on the group element. It respects addition, and sends the identity and exactly the kernel points to the identity.",
 ["inputs", "histories"], "all domain points: identity, kernel points, normalized and non-normalized representations",
 NT+"there are no tests for isogenies.",
 [RM], [("coefficient tables and Horner evaluation in push", RM)], obs=["push result"])
prop("C23", "Named curves carry the standard constants and consistent group data",
 "Each named curve has the published field, coefficients, generator and order; its generator lies on the curve and has exactly the stated prime order. Multiplying any point of the curve by the stated cofactor yields a point of the prime-order subgroup, and every way of obtaining the curve yields equal curves whose reported field, order, cofactor, generator and identity agree.",
 ["inputs", "configurations"], "all eleven named curves, arbitrary curve points outside the subgroup",
 NT+"constants are never compared with anything; only generators' membership is implied for seven curves.",
 ["src/instances/weier.rs", "src/instances/mont.rs", "src/instances/edw.rs"], [("PARAMS tables and From<&Params>", "src/instances/weier.rs")], obs=["get_order/get_cofactor/get_generator/get_field/Display"])
prop("C24", "Map constructors accept exactly the parameters their maps need",
 "The SSWU constructor succeeds exactly when A and B are nonzero, Z is a non-square other than -1 and g(B/(ZA)) is a square; SVDW exactly when its three stated conditions on g(Z) hold; Elligator 2 exactly when a and b are nonzero and Z is a non-square; the AB=0 construction exactly when the isogeny ends on the given curve, exactly one of its coefficients is zero and SSWU accepts its domain; the Edwards map only when the rational map starts at the given curve; Z is always an element of the field of the curve. In every other case construction panics, so an accepted map never fails on any field element.",
 ["inputs", "configurations"], "all curve coefficients and constants Z over small fields exhaustively, sampled on the named curves",
 NT+"there are no tests of the constructors.",
 [W+"/sswu.rs", W+"/svdw.rs", W+"/sswuab0.rs", M+"/elligator2.rs", E+"/elligator2.rs"], [("verify functions", W+"/sswu.rs")], obs=["constructor panics or returns"])
prop("C25", "Fields and curves shared between threads behave as in one thread",
 "Any number of threads may compute square roots, decode points and evaluate maps at the same time through copies of one field or curve, including its very first use. Every call returns (no panic, no deadlock) with the same result it has when run alone.",
 ["schedules"], "all interleavings of any number of threads over shared fields, first use included",
 NT+"no test uses a field from more than one thread.",
 [pf, qf], [("shared Params behind Arc with a lazily filled cache", pf)], state=[("sqrt_precmp", "cache cell shared by all copies of a field", pf)], obs=["results and panics per thread"])
prop("C26", "Dropping the last copy of a field or curve releases its memory",
 "Once every element, point, scalar, map and field value created from a field or curve has been dropped, all memory they used is released, whatever operations were performed on them. Repeating any create-use-drop cycle therefore does not increase memory use.",
 ["histories"], "all create/clone/use/drop histories, all supported residue classes of p",
 NT+"no test observes memory.",
 [pf, qf], [("Arc<Params> reference counting", pf), ("contents of the square-root cache", pf)], state=[("Arc<Params>", "shared, reference-counted field parameters", pf)], obs=["allocator live-byte count"])
prop("C27", "Any sequence of calls behaves like the abstract group model",
 "For any sequence of public operations that carries values from one operation to the next (construct, add, subtract, negate, multiply, normalize, encode, decode, map, push, pull, convert), every intermediate result equals the result of the same sequence in the abstract model of fields and groups. Operations never modify values other than the one they are documented to update in place, and repeating a sequence gives the same results.",
 ["histories", "inputs"], "all finite sequences of API calls over shared values, on toy and standard curves",
 NT+"no test chains operations.",
 ["src/lib.rs", pf, W+"/point.rs", M+"/point.rs", E+"/point.rs", RM], [("value semantics; Clone; in-place normalize, set_zero, set_one", pf)], obs=["all public results", "final re-read of every live value"])
prop("C28", "The text shown for a value states the value",
 "However a value came about, the text displayed for it is determined by it: an element or scalar shows the decimal digits of its residue in 0..p-1 (a quadratic one as a+i*b), a field shows GF(p) or GF(p)^2, a curve its equation and reduced coefficients, a point the coordinates of a valid representation of that point, a curve identifier its name. Different elements of one field never show the same text, equal ones always do, and the text of a prime-field element reads back as that element in its field.",
 ["inputs", "histories"], "all values of the public types, results of every operation",
 NT+"tests never look at the text of a value.",
 [pf, qf, W+"/point.rs", M+"/point.rs", E+"/point.rs", W+"/scalar.rs", W+"/curve.rs", M+"/curve.rs", E+"/curve.rs", "src/instances/weier.rs"],
 [("Display implementations", pf)], obs=["to_string of any value", "FromFactory<&str> of a displayed element"])
with open("/verif/properties.jsonl", "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P))
