"""Writes /verif/properties.jsonl (kept as a generator so that the text stays reviewable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": hook}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

p("C01", "Homomorphic gates compute their boolean function",
  "For every parameter set whose noise budget fits, and both shipped sets, every boolean gate (not, and, nand, or, nor, xor, xnor, majority, mux), applied to ciphertexts whose combined error is inside the gate's margin (below an eighth of the modulus in total; a quarter for the doubled difference of xor and xnor), decrypts to the gate's truth-table value. This holds for fresh inputs and for the outputs of earlier gates, so any circuit of any depth decrypts to what the plain circuit computes. Bootstrapping with any lookup table returns the entry that the input's phase selects.",
  ["inputs", "histories", "configurations"],
  "all bit assignments, all gate sequences (outputs fed back as inputs), all parameter sets: both shipped sets and custom ones over binary/ternary keys, the three switching pipelines, first moduli below/equal to/above twice the ring dimension",
  "The bool and fhe_core crates have no tests at all; the example runs one random circuit on one parameter set and depends on sampled keys and noise.",
  ["bool/src/bfhe/evaluate.rs", "bool/src/bfhe/parameters.rs", "fhe_core/src/blind_rotation/mod.rs", "fhe_core/src/utils.rs"],
  [("gate linear combination + sign lookup table + bootstrap", "bool/src/bfhe/evaluate.rs"), ("pipelines BrMsKs / BrKsMs / BrMs", "bool/src/bfhe/evaluate.rs"), ("blind rotation", "fhe_core/src/blind_rotation/*.rs")],
  ["Encryptor::encrypt", "Evaluator gate methods", "Decryptor::decrypt"])
p("C02", "A gate's output noise is refreshed to the designed level",
  "The noise in a gate's output ciphertext is independent of how many gates came before it and of the noise of its inputs as long as they are inside the gate's margin, its mean is zero and its spread stays at the level the parameters predict, so for parameters with a noise budget it stays inside the gates' input margin. Negation flips the sign of the noise exactly. Decrypting with noise reports exactly the distance of the phase from the decoded message.",
  ["inputs", "histories", "configurations"],
  "all gate histories and keys; noise spread compared with the variance predicted from the parameters",
  "No test looks at noise; an error that doubles the noise still decrypts nearly always, so sampling plain decryption cannot see it.",
  ["bool/src/bfhe/evaluate.rs", "fhe_core/src/secret_key.rs", "fhe_core/src/key_switch/lwe.rs", "fhe_core/src/key_switch/rlwe.rs", "lattice/src/rgsw.rs"],
  [("bootstrap resets noise", "bool/src/bfhe/evaluate.rs"), ("decrypt_with_noise", "fhe_core/src/secret_key.rs")],
  ["Decryptor::decrypt_with_noise", "SecretKeyPack::decrypt_with_noise"])
p("C03", "Gate evaluation is pure and safe to share between threads",
  "Evaluating a gate never changes its inputs, its evaluation key or any hidden state: the same key and inputs give bit-identical output ciphertexts in every call, whatever was evaluated before, from any number of threads sharing one evaluator or holding clones of it, and whatever the size of the thread pool. Distinct evaluators and keys used side by side do not influence each other.",
  ["schedules", "histories"],
  "all interleavings of gate evaluations over shared evaluators, all prior histories",
  "No test evaluates a gate, let alone concurrently; the internal parallel branches of mux and the per-call scratch space are never exercised.",
  ["bool/src/bfhe/evaluate.rs", "fhe_core/src/blind_rotation/mod.rs", "lattice/src/utils/space.rs", "algebra_derive/src/ntt.rs"],
  [("scratch spaces created per call", "fhe_core/src/blind_rotation/*.rs"), ("rayon::join in mux", "bool/src/bfhe/evaluate.rs")],
  ["Evaluator gate methods, returned ciphertexts"])
p("C04", "The shared transform-table cache is safe and correct under concurrency",
  "Any number of threads may request, initialise and use the number-theoretic-transform tables of any field and any sizes at the same time: there is no data race, every successful request for the same size returns one and the same correct table, and tables handed out stay valid for as long as they are held. A request for an unsupported size returns an error, and neither that nor a failed request in another thread affects any later request.",
  ["schedules", "histories", "fault_sequences"],
  "all interleavings of requests for all sizes on all fields, including failing requests",
  "Existing tests only touch the cache from the test harness threads with one size per field; the racy window is a few instructions wide.",
  ["algebra_derive/src/ntt.rs", "algebra/src/field/mod.rs", "algebra/src/transformation/ntt_table.rs"],
  [("process-wide table map guarded by a mutex", "algebra_derive/src/ntt.rs")],
  ["NTTField::get_ntt_table", "NTTField::init_ntt_table", "NTTField::generate_ntt_table", "race detector reports"],
  state=[("table cache", "map from log2 size to shared table, one per field", "algebra_derive/src/ntt.rs")])
p("C05", "Encryption round trip and noise-tolerant encoding",
  "For every plaintext modulus t and ciphertext modulus q the library accepts (powers of two, t at most q), decoding an encoded message perturbed by any noise of magnitude below q/(2t) returns the message, for every message. Every message encrypted under a generated secret key decrypts to itself when its noise is within that margin, and decrypting with noise reports the message together with the magnitude of the noise.",
  ["inputs", "configurations"],
  "all messages, all noise values within the margin including its boundary, all moduli, message integer types, key types and dimensions",
  "fhe_core has no tests; rounding errors show up only at the edges of the noise margin or for particular t and q.",
  ["fhe_core/src/plaintext.rs", "fhe_core/src/secret_key.rs", "bool/src/encrypt.rs", "bool/src/decrypt.rs"],
  [("encode/decode rounding", "fhe_core/src/plaintext.rs"), ("LWE encrypt/decrypt", "fhe_core/src/secret_key.rs")],
  ["encode", "decode", "SecretKeyPack::encrypt/decrypt/decrypt_with_noise"])
p("C06", "LWE ciphertext arithmetic is exactly linear",
  "For every key, the phase of the result of adding, subtracting, negating or scaling LWE ciphertexts (with or without assignment, on plain moduli and on fields, and componentwise or scalar-constant variants) equals the same operation on the phases modulo q, with every output coefficient reduced. Freshly generated samples of zero have phase zero up to their noise, and trivial samples have the constant they were given as phase.",
  ["inputs", "histories"],
  "all moduli and coefficient types, all vectors and scalars including extremal ones, sequences of operations",
  "The tests check one modulus with random vectors and only addition/subtraction; wrap-around at extremal coefficients and the scalar variants are unsampled.",
  ["lattice/src/lwe.rs", "fhe_core/src/ciphertext.rs"],
  [("componentwise modular arithmetic", "lattice/src/lwe.rs")], ["LWE methods"])
p("C07", "RLWE arithmetic, rotation and extraction follow the ring",
  "For every RLWE ciphertext and key, addition, subtraction, scaling, multiplication by polynomials and by monomials of any degree from 0 to 2N act on the phase exactly as in the negacyclic ring, in coefficient form and in transform form alike, and conversion between the two forms loses nothing. Extracting coefficients yields LWE ciphertexts whose phase is exactly that coefficient of the ring phase, at full and at truncated dimensions. Freshly generated samples of zero or of a value have that phase up to their noise.",
  ["inputs", "configurations"],
  "all ring dimensions, all fields, all polynomials, all monomial degrees and extraction indices and variants",
  "lattice tests use one field, one dimension and random polynomials; rotation boundaries, partial extraction and workspace variants are not reached.",
  ["lattice/src/rlwe.rs", "algebra/src/polynomial/native_polynomial.rs"],
  [("negacyclic arithmetic on both components", "lattice/src/rlwe.rs"), ("sample extraction", "lattice/src/rlwe.rs")], ["RLWE/NTTRLWE methods"])
p("C08", "Gadget and RGSW products multiply phases up to the predicted noise",
  "The product of a polynomial with a gadget encryption, and the external product of an RLWE ciphertext with an RGSW ciphertext (and of two RGSW ciphertexts), has as phase the ring product of the two plaintexts, with an error no larger than the decomposition and the noise of the factors predict. With noiseless factors and exact decomposition the result is exact, and coefficient-form, transform-form and workspace variants return the same values.",
  ["inputs", "configurations"],
  "all bases, moduli, ring dimensions, messages (constants, monomials, arbitrary polynomials) and noise",
  "Tests use one basis and one field with random inputs and only check decryption of a coarse message, so extra noise or boundary digits go unseen.",
  ["lattice/src/gadget/rlwe.rs", "lattice/src/rgsw.rs", "lattice/src/utils/decompose_basis.rs"],
  [("digit decomposition times transform-form samples", "lattice/src/gadget/rlwe.rs")], ["GadgetRLWE/NTTGadgetRLWE/RGSW/NTTRGSW methods"])
p("C09", "Key switching preserves the message across keys",
  "Switching an LWE or RLWE ciphertext from one secret key to another with the matching switching key yields a ciphertext under the target key whose phase equals the original phase up to an error within what the decomposition basis, the dimensions and the key noise predict, and exactly when the keys carry no noise and the basis divides the modulus range evenly. This holds for every key distribution, basis and pair of dimensions, including dimensions that are not powers of two and, for keys kept as LWE samples, target dimensions above the ring's.",
  ["inputs", "configurations"],
  "all keys, ciphertexts (including extremal digits), bases and dimension pairs",
  "There is no test of key switching at all.",
  ["fhe_core/src/key_switch/lwe.rs", "fhe_core/src/key_switch/rlwe.rs"],
  [("LWE key switching key", "fhe_core/src/key_switch/lwe.rs"), ("RLWE key switching key with LWE packing", "fhe_core/src/key_switch/rlwe.rs")],
  ["KeySwitchingLWEKey", "KeySwitchingRLWEKey"])
p("C10", "Modulus switching rounds to nearest",
  "Switching a ciphertext from modulus q1 to q2 maps every coefficient x to the integer nearest to x*q2/q1, reduced modulo q2, for every x. The in-place and out-of-place forms agree, the result is always reduced, and the phase error is therefore at most (1 + the key's l1 norm)/2.",
  ["inputs", "configurations"],
  "all coefficients (every x for small moduli), all modulus pairs, power-of-two or not, shrinking or growing, of any supported integer type",
  "There is no test of modulus switching; off-by-one rounding only shows at half-way points and at the wrap to zero.",
  ["fhe_core/src/modulus_switch.rs"],
  [("scale and round", "fhe_core/src/modulus_switch.rs")], ["lwe_modulus_switch", "lwe_modulus_switch_inplace", "lwe_modulus_switch_assign variants"])
p("C11", "Blind rotation rotates the table by the encrypted phase",
  "Blind rotation of a lookup polynomial by an LWE ciphertext returns an RLWE ciphertext of that polynomial multiplied by X to the power minus the ciphertext's phase modulo 2N, up to noise within the predicted spread, for every polynomial and every phase. It holds for binary and ternary keys and for every key bit pattern.",
  ["inputs", "configurations"],
  "all phases modulo 2N, all lookup polynomials, binary and ternary keys, ring dimensions and bases",
  "There is no test of blind rotation; errors confined to one key value or to one rotation boundary are invisible to sampling gates on one key.",
  ["fhe_core/src/blind_rotation/mod.rs", "fhe_core/src/blind_rotation/binary.rs", "fhe_core/src/blind_rotation/ternary.rs"],
  [("CMux accumulation", "fhe_core/src/blind_rotation/*.rs")], ["BlindRotationKey::generate", "BlindRotationKey::blind_rotate"])
p("C12", "Modular arithmetic agrees with integer arithmetic",
  "For every modulus the library accepts (Barrett, power-of-two, native wrap-around, plain integer moduli, and precomputed constant multipliers) and all reduced operands, addition, subtraction, negation, multiplication, multiply-add, dot product, exponentiation, inversion, division and reduction of single and double words equal the same operation on integers modulo m, and the result is reduced. Lazy variants return a value below 2m congruent to the true result, and inversion fails exactly when the operand is not coprime to the modulus.",
  ["inputs", "configurations"],
  "all moduli of all widths (8-bit exhaustively), all operands including extremal ones, all slice lengths",
  "Tests cover a handful of moduli with random operands; quotient-estimate errors occur for a sparse set of operand/modulus pairs.",
  ["algebra/src/modulus/barrett/ops.rs", "algebra/src/modulus/barrett/internal_macros.rs", "algebra/src/modulus/powof2/internal_macros.rs", "algebra/src/modulus/shoup/internal_macros.rs", "algebra/src/reduce/macros.rs"],
  [("Barrett reduction", "algebra/src/modulus/barrett"), ("Shoup multiplication", "algebra/src/modulus/shoup"), ("power-of-two masks", "algebra/src/modulus/powof2")],
  ["Reduce* trait methods"])
p("C13", "The two special-prime moduli implement their prime field",
  "Arithmetic modulo 2^31-2^27+1 (BabyBear) and 2^64-2^32+1 (Goldilocks) - addition, subtraction, negation, doubling, multiplication, multiply-add, squaring, powers, inverses, division, dot products and conversion to and from integers - is congruent to integer arithmetic for every operand that the operations themselves can produce, including words above the modulus where the representation allows them. Reduction returns the canonical representative, and inversion fails exactly for zero.",
  ["inputs", "histories"],
  "all operands reachable through any sequence of operations, concentrating on residues next to 0, p, 2^32 and 2^64 and on non-canonical representatives",
  "The existing tests sample random operands; carry and borrow corrections trigger with probability about 2^-32.",
  ["algebra/src/modulus/baby_bear/mod.rs", "algebra/src/modulus/baby_bear/ops.rs", "algebra/src/modulus/goldilocks/mod.rs", "algebra/src/modulus/goldilocks/ops.rs"],
  [("Montgomery reduction", "algebra/src/modulus/baby_bear/mod.rs"), ("2^64-2^32+1 folding with carry fixes", "algebra/src/modulus/goldilocks/mod.rs")],
  ["modulus trait methods (Reduce*, TryInv*, conversion)"])
p("C14", "Derived prime fields satisfy the field laws with canonical values",
  "Every prime field obtained through the derive macros, over any supported integer width, computes addition, subtraction, negation, multiplication, division, powers, inverses and in-place and by-reference forms equal to integer arithmetic modulo its prime, keeps its values reduced, and reports its constants (zero, one, minus one, modulus) correctly. Lazy and slice operations used by the encryption layers agree with them modulo p within their documented ranges.",
  ["inputs", "configurations"],
  "all fields and widths (small primes exhaustively), all operands, all operator forms",
  "derive_test checks a few operations on a handful of fields with random operands, not each operator form, width, or lazy range.",
  ["algebra_derive/src/basic.rs", "algebra_derive/src/ops.rs", "algebra_derive/src/field.rs", "algebra_derive/src/fhe_field.rs", "algebra_derive/src/prime.rs", "algebra/src/field/mod.rs"],
  [("derive macros", "algebra_derive/src/*.rs")], ["Field, FheField, PrimeField methods and operators"])
p("C15", "Digit decomposition recomposes to the original value",
  "For every value below the modulus and every basis, decomposing yields exactly the stated number of digits, each below the basis, whose weighted sum is the value; this does not depend on what the destination held before. Element-wise, whole-polynomial, in-place and indexed forms return the same digits, and the basis reports lengths, masks and scalars consistent with them.",
  ["inputs", "configurations"],
  "all moduli, basis sizes and values (small moduli exhaustively), destinations holding arbitrary earlier contents",
  "Tests decompose random polynomials into fresh destinations for one basis; stale destinations, top digits and carries at the boundary are not reached.",
  ["algebra/src/decompose_basis.rs", "algebra_derive/src/decomposable_field.rs", "algebra/src/field/mod.rs", "lattice/src/utils/decompose_basis.rs", "algebra/src/polynomial/native_polynomial.rs"],
  [("digit masks and shifts", "algebra_derive/src/decomposable_field.rs"), ("signed digits with carry", "lattice/src/utils/decompose_basis.rs")],
  ["decompose*, Basis accessors"])
p("C16", "The number-theoretic transform is an exact ring isomorphism",
  "For every transform-friendly field and every size it supports, the forward transform of a polynomial gives its evaluations at the odd powers of a primitive 2N-th root of unity in the table's order, the inverse undoes the forward transform exactly, and pointwise multiplication corresponds to negacyclic multiplication. The specialised transforms of monomials agree with the general one for every coefficient and every degree below 2^32, and lazy entry points accept their documented input range.",
  ["inputs", "configurations"],
  "all fields, all sizes from the smallest up, all coefficient vectors including extremal ones, all monomials",
  "Tests check a few sizes with random coefficients, which practically never drive the lazy reductions to the ends of their ranges.",
  ["algebra/src/transformation/ntt_table.rs", "algebra/src/transformation/mod.rs", "algebra/src/field/ntt_fields.rs", "algebra_derive/src/ntt.rs"],
  [("butterflies with lazy reduction", "algebra/src/transformation/ntt_table.rs"), ("root tables", "algebra/src/transformation/ntt_table.rs")],
  ["AbstractNTT / MonomialNTT methods, polynomial conversions"])
p("C17", "Polynomial arithmetic agrees with the ring definition in every form",
  "Addition, subtraction, negation, scalar multiplication, multiplication, multiply-accumulate, evaluation, products with digit vectors and iteration over polynomials in coefficient and in transform form equal the coefficientwise or negacyclic definition, for every length and field. By-value, by-reference, in-place, workspace and lazy forms of one operation give the same result modulo p and never alter an operand they only read.",
  ["inputs"],
  "all fields, lengths, coefficient vectors and operator forms",
  "polynomial_test samples a few operator forms on one field and size.",
  ["algebra/src/polynomial/native_polynomial.rs", "algebra/src/polynomial/ntt_polynomial.rs"],
  [("operator implementations", "algebra/src/polynomial/*.rs")], ["Polynomial / NTTPolynomial methods and operators"])
p("C18", "Samplers draw from the distribution they name",
  "Uniform, binary, ternary, centered-binomial and discrete Gaussian samplers, on fields and on plain moduli, single and bulk, return only reduced values in the support they promise, with the mean, spread and frequencies of their distribution. They are functions of the supplied random generator alone. Negative, infinite or undefined standard deviations are rejected with an error, and every accepted one (with a finite mean and a spread below half the modulus), zero included, can be sampled.",
  ["inputs", "configurations"],
  "all generator outputs including extremal words, all parameters (modulus, mean, standard deviation), all output lengths",
  "Tests draw from samplers as input generators but never check what was drawn.",
  ["algebra/src/random.rs", "algebra/src/utils/sample.rs", "lattice/src/utils/sample.rs"],
  [("rejection sampling and tail cut", "algebra/src/random.rs"), ("bit-sliced centered binomial", "algebra/src/utils/sample.rs")],
  ["FieldUniformSampler and friends, sample_* functions, DiscreteGaussian"])
p("C19", "The generator is AES-128 in counter mode and blocks behave as 128-bit words",
  "The AES implementation encrypts every block under every key as FIPS-197 prescribes, in single, array and slice forms of every length, and the pseudo-random generator's output stream is determined by seed alone, does not depend on how reads are split into sizes or forms, and never repeats counters. Block values behave as 128-bit words under conversion, comparison, logic operators and byte order.",
  ["inputs", "histories"],
  "all keys, blocks and slice lengths; all sequences of read sizes and reseeds",
  "Tests use one key and fixed small reads; batching boundaries and mixed reads are not explored.",
  ["algebra/src/utils/aes.rs", "algebra/src/utils/prg.rs", "algebra/src/utils/block.rs"],
  [("AES-NI rounds", "algebra/src/utils/aes.rs"), ("counter blocks", "algebra/src/utils/prg.rs")],
  ["AES, Prg, Block methods"])
p("C20", "Values survive serialisation unchanged",
  "Serialising and deserialising any field element, of any derived field, alone or inside standard containers, returns an equal value in text and binary formats, and equal values serialise to equal bytes. Decoding never yields an element outside the field's range without reporting an error: a word above the modulus is either rejected or decoded to its reduced residue.",
  ["inputs"],
  "all values of all derived fields, alone and nested, all byte strings offered to decoding",
  "One test round-trips one random element.",
  ["algebra_derive/src/basic.rs", "algebra_derive/src/ast.rs"],
  [("serde derives of the field macros", "algebra_derive/src/basic.rs")], ["serde Serialize / Deserialize"])
p("C21", "Number-theory helpers are correct for every integer",
  "The primality test never rejects a prime and accepts a composite only with the error probability of its rounds; the extended gcd returns the gcd with a valid Bezout identity; bit reversal is the involution on the stated number of low bits; and roots of unity produced for a field have exactly the order asked for, with an error when none exists.",
  ["inputs"],
  "all integers of all widths, in particular pseudoprimes, prime powers and extremal values; all orders",
  "Tests try a few primes and random composites, which are almost never pseudoprimes.",
  ["algebra/src/utils/prime.rs", "algebra/src/utils/gcd.rs", "algebra/src/utils/reverse.rs", "algebra_derive/src/ntt.rs", "algebra_derive/src/prime.rs"],
  [("Miller-Rabin", "algebra/src/utils/prime.rs"), ("extended Euclid", "algebra/src/utils/gcd.rs"), ("primitive root search", "algebra_derive/src/ntt.rs")],
  ["Prime, ExtendedGCD, ReverseLsbs, NTTField::try_primitive_root / try_minimal_primitive_root"])
p("C22", "Library code is free of undefined behaviour and arithmetic faults",
  "No sequence of calls to the safe public interface with valid arguments reads or writes outside its buffers, uses uninitialised or freed memory, races on data, or otherwise has undefined behaviour; none overflows or fails an internal assertion, and results are the same in every build mode. Calls that violate length or range preconditions return or stop with a panic, but never touch memory they do not own.",
  ["inputs", "histories", "schedules"],
  "all call sequences over the public interface, including unusual sizes and mismatched lengths",
  "Tests run without sanitizers and in one build mode; unchecked indexing, transmutes and target-feature intrinsics are never observed by a checker.",
  ["algebra/src/transformation/ntt_table.rs", "algebra_derive/src/ntt.rs", "algebra/src/utils/aes.rs", "algebra/src/utils/block.rs", "algebra/src/utils/prg.rs", "algebra/src/modulus/goldilocks/mod.rs", "algebra/src/polynomial/native_polynomial.rs"],
  [("unsafe blocks and lazy arithmetic", "algebra, algebra_derive")], ["Miri, AddressSanitizer, ThreadSanitizer, overflow checks over the public API"])
p("C23", "Parameter validation accepts exactly the supported configurations",
  "Building parameters succeeds for every combination the library supports, and the result then reports back every value it was given and every value derived from them consistently. Combinations that cannot work - a ring dimension that is not a power of two, a ring modulus without a 2N-th root of unity, plaintext or ciphertext modulus not a power of two or the former above the latter, dimensions or key types that the pipeline cannot process, or a first modulus the LWE type cannot hold - are rejected while building, never silently.",
  ["inputs", "configurations"],
  "all parameter combinations including extremal ones",
  "There is no test of parameter construction; only the two shipped sets are ever built.",
  ["fhe_core/src/parameter.rs", "fhe_core/src/error.rs", "bool/src/bfhe/parameters.rs"],
  [("validation in the constructor", "fhe_core/src/parameter.rs")], ["Parameters::new and accessors"])
p("C24", "Keys and fresh ciphertexts are random as the scheme requires",
  "Secret keys follow the declared distribution and dimension, in coefficient and transform form consistently. Every fresh ciphertext and every component of every evaluation key that is ever used has a fresh uniform mask and an independent error of exactly the configured distribution, so no two samples repeat and no mask or error is missing, reused or truncated.",
  ["inputs", "histories", "configurations"],
  "all keys and generator states; statistics over masks and phases obtained with the secret key",
  "No test looks at masks or error terms; dropping or shrinking an error term makes every functional test pass more easily.",
  ["fhe_core/src/secret_key.rs", "fhe_core/src/blind_rotation/binary.rs", "fhe_core/src/blind_rotation/ternary.rs", "fhe_core/src/key_switch/lwe.rs", "fhe_core/src/key_switch/rlwe.rs", "lattice/src/rlwe.rs", "lattice/src/rgsw.rs", "lattice/src/gadget/rlwe.rs"],
  [("mask and error sampling", "lattice/src/rlwe.rs, fhe_core/src/secret_key.rs")], ["SecretKeyPack, evaluation keys, generate_random_* samples"])
p("C25", "Multi-word integer helpers equal exact integer arithmetic",
  "Widening and carrying multiplication, carrying addition, borrowing subtraction, wrapping operations, shifts, bit counts and casts on every supported integer width equal exact integer arithmetic split into low word, high word and carry, for all operands and carry values.",
  ["inputs"],
  "all operands of all widths (8-bit exhaustively), both carry-in values",
  "Tests compare a few random operands; double-carry cases are rare.",
  ["algebra/src/primitive/widening/borrowing_sub.rs", "algebra/src/primitive/widening/carrying_add.rs", "algebra/src/primitive/widening/carrying_mul.rs", "algebra/src/primitive/widening/widening_mul.rs", "algebra/src/primitive/wrapping.rs", "algebra/src/primitive/cast.rs", "algebra/src/primitive/bits.rs"],
  [("primitive traits", "algebra/src/primitive")], ["Widening*, Carrying*, Borrowing*, Wrapping*, Bits, casts"])
p("C26", "Scratch space never leaks between operations",
  "Operations that take a caller-supplied workspace or destination overwrite or ignore whatever it held: results are identical for a fresh workspace, one left over from any earlier operation, and one filled with arbitrary reduced values. Reusing one workspace across any sequence of operations is therefore equivalent to allocating a new one each time.",
  ["histories", "inputs"],
  "all sequences of operations sharing workspaces, all earlier contents",
  "Tests always pass freshly allocated workspaces.",
  ["lattice/src/utils/space.rs", "lattice/src/rlwe.rs", "lattice/src/gadget/rlwe.rs", "lattice/src/rgsw.rs", "algebra/src/polynomial/native_polynomial.rs", "fhe_core/src/key_switch/lwe.rs"],
  [("workspace structs", "lattice/src/utils/space.rs")], ["*_inplace and workspace-taking methods"])
p("C27", "Every supported build computes the same values",
  "The same sequence of library calls on the same inputs and generator states produces the same values, and stops at none of its valid calls, in every supported build: debug and release profiles, with and without overflow checks, assertions and link-time optimisation, with and without the processor's instruction extensions, and with the optional features (nightly, count_ntt) on or off. Nothing a build flag selects changes a result.",
  ["configurations", "inputs", "histories"],
  "all build configurations times all call sequences; seven builds are run on the same sequences",
  "The tests run in one profile, on one instruction set, with the default features; code behind a feature or target flag is not even compiled by them.",
  ["algebra/src/primitive/widening/widening_mul.rs", "algebra/src/primitive/widening/carrying_mul.rs", "algebra/src/primitive/widening/carrying_add.rs", "algebra/src/primitive/widening/borrowing_sub.rs", "algebra/src/utils/aes/mod.rs", "algebra/src/utils/block.rs", "algebra/src/transformation/ntt_table.rs"],
  [("feature- and target-dependent branches", "algebra/src/primitive/widening, algebra/src/utils/aes, algebra/src/transformation/ntt_table.rs")], ["the public interface of all crates"])
p("C28", "Transform counters count every transform exactly once",
  "With the count_ntt feature, while counting is enabled every forward (inverse) transform of a polynomial adds exactly one to the forward (inverse) counter, whichever interface function asks for it and on however many threads; while disabled neither counter moves. Clearing one counter sets it to zero and leaves the other; reading changes nothing. Counts of concurrent work add up, the same work always counts the same, and counting never changes a result.",
  ["inputs", "schedules", "histories"],
  "all sequences and interleavings of enable, disable, clear, read and transform calls over all fields and sizes",
  "No test enables the feature; lost updates and missed entry points show only in sums over concurrent or unusual calls.",
  ["algebra/src/transformation/ntt_table.rs", "algebra/src/transformation/mod.rs"],
  [("atomic counters", "algebra/src/transformation/ntt_table.rs")], ["transformation::count, transform and conversion functions, gates"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
