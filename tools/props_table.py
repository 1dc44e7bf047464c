ARMED = ['P01', 'P02', 'P03', 'P04', 'P05', 'P06', 'P07', 'P08', 'P09', 'P10', 'P11', 'P14', 'P16', 'P17', 'P19', 'P20']

prop("P01", "Read-only operands are never modified",
 "Every public operation leaves each argument that is documented as an input (polynomials, ciphertexts, plaintexts, keys, CRPs, coefficient and value slices, byte slices, big integers) bit-for-bit unchanged; only the designated receiver arguments and the private working memory of the object the method is called on are written. Ring contexts, parameter sets, precomputed tables and keys are never written by an operation that uses them.",
 ["inputs", "configurations", "histories"], "For every exported operation of the library, every argument value, level, representation flag and parameter set, when arguments are not the same object as the receiver.",
 "Tests compare results and throw the operands away; an operand clobbered only at one level, flag or degree combination is invisible to them.",
 ["ring/ring_operations.go", "ring/ring_poly.go", "ring/ring_scaling.go", "ring/ring_basis_extension.go", "rlwe/keyswitch.go", "rlwe/elements.go", "rlwe/encryptor.go", "rlwe/decryptor.go", "rlwe/keygen.go", "ckks/evaluator.go", "ckks/encoder.go", "frlwe/keyswitch.go", "fckks/evaluator.go"],
 [("receiver-argument convention (last pointer arguments are receivers)", "ring/ring_operations.go"), ("scratch pools owned by evaluators", "rlwe/keyswitch.go"), ("flag/pointer selection between input and scratch polynomial", "rlwe/keyswitch.go")],
 "interprocedural effect analysis (abstract interpretation over go/ssa with symbolic access paths)",
 "Decides for every exported function, on every path, which argument storage may be written; the permitted receiver positions are a reviewed table. Aliased arguments are out of scope here (P04); a write to the right object but the wrong row is P05/P08.")

prop("P02", "Copies and fresh results own their storage",
 "An object produced by a copy operation, an allocating constructor or a result-returning variant of an operation shares no mutable coefficient, key or metadata storage with its inputs or with the working memory of the object that produced it. Later changes to either side therefore never show through the other.",
 ["inputs", "histories"], "For every copy operation, allocating constructor and result-returning variant, and every later sequence of operations on the result or on its sources.",
 "Aliasing only shows when one of the two objects is modified later; the tests never mutate the source after copying.",
 ["ring/ring_poly.go", "rlwe/elements.go", "rlwe/ring_qp.go", "rlwe/keys.go", "rlwe/keygen.go", "ckks/ciphertext.go", "ckks/evaluator.go", "ckks/encoder.go"],
 [("CopyNew / New-suffixed variants allocate", "ring/ring_poly.go"), ("key constructors allocate every component", "rlwe/keys.go")],
 "interprocedural ownership / escape analysis (abstract interpretation over go/ssa)",
 "Decides which argument storage results reference after every exported function returns, against a reviewed table of permitted references (accessors, immutable infrastructure).")

prop("P03", "Concurrent copies share only memory nobody writes",
 "A shallow copy, or a copy re-keyed for other key material, of an encryptor, decryptor, encoder, evaluator, key switcher, sampler or basis extender shares with its origin no memory that any operation of either may write, including random-source state. Parameters, rings, precomputed tables and package-level variables are written only while being constructed or initialised.",
 ["schedules", "histories"], "Every interleaving of operations on an object and on any number of its concurrent-use copies.",
 "No test runs copies concurrently, and a race detector only sees the accesses and schedules a run produces.",
 ["rlwe/encryptor.go", "rlwe/decryptor.go", "rlwe/keyswitch.go", "ring/ring_basis_extension.go", "ckks/evaluator.go", "ckks/encoder.go", "ring/ring_sampler_gaussian.go", "ring/ring_sampler_uniform.go"],
 [("ShallowCopy / WithKey reallocate buffers", "rlwe/keyswitch.go"), ("tables written only in constructors", "ring/ring.go")],
 "sharing-versus-write-effect analysis over access paths (abstract interpretation over go/ssa)",
 "Sound for the may-share and may-write sets up to the access-path abstraction; user arguments of concurrent calls are assumed distinct.")

prop("P04", "In-place evaluation gives the same result as out-of-place",
 "When the receiver of an arithmetic operation is the same object as one of its inputs, the receiver ends up with exactly the value the operation would have produced in a distinct receiver. No part of an input is read for its original value after the operation has already overwritten it.",
 ["inputs", "configurations"], "For every arithmetic, automorphism, rescaling, key-switching and encryption operation of the library that accepts a receiver, and every way its receiver can coincide with an input.",
 "Tests exercise only a few receiver/input coincidences per operation, and the CKKS layer's tests are not part of the reliable set.",
 ["ring/ring_operations.go", "ring/ring_scaling.go", "rlwe/elements.go", "rlwe/encryptor.go", "ckks/evaluator.go", "frlwe/keyswitch.go", "fckks/evaluator.go"],
 [("temporaries used before overwriting the receiver", "ckks/evaluator.go"), ("pointer-equality guards", "ring/ring_poly.go")],
 "read-after-overwrite (kill) analysis under enumerated alias configurations, abstract interpretation over go/ssa", 'Every configuration in which operand and receiver may be one object is interpreted next to the distinct-object run; every read of operand content after the receiver was written through the shared object is an obligation. Calls documented as needing separate outputs, and the accumulating operand of accumulating operations, are excluded.')

prop("P05", "Every coefficient is processed, each residue with its own modulus",
 "A coefficient-wise operation applies the same formula to every one of the ring's coefficients and to every residue row up to the requested level, and every residue row is combined only with rows and precomputed constants belonging to the same modulus. No coefficient position or row is skipped, processed twice, or processed with another modulus' constants.",
 ["inputs", "configurations"], "For every coefficient-wise operation, ring degree, level and number of moduli.",
 "Unrolled kernels treat coefficient positions by hand; tests sample few sizes and random data and cannot enumerate degrees, levels and modulus chains.",
 ["ring/ring_vector_ops.go", "ring/ring_operations.go", "ring/ring_scaling.go", "ring/ring_ntt.go", "ring/ring_ntt_interface.go", "rlwe/ring_qp.go"],
 [("8-way unrolled kernels", "ring/ring_vector_ops.go"), ("per-modulus loops", "ring/ring_operations.go")],
 "lane-uniformity and index-homogeneity dataflow over go/ssa", 'Every modulus/constant/row pairing and every kernel lane of the current source is judged symbolically, for all levels; block loops of unrecognised form are counted as not judged.')

prop("P06", "Representation (domain, Montgomery form) is always tracked correctly",
 "Operations combine polynomials only in matching representations: coefficient-wise products and key products are taken on evaluation-domain values with exactly one Montgomery factor, basis conversion and decomposition on coefficient-domain values, and sums only of values in the same domain and form. On return, the representation flag carried by every result agrees with the representation the data is really in, for both input representations the operation accepts.",
 ["inputs", "configurations"], "For every public operation of the encryption, key-switching, evaluation and encoding layers, for every combination of input representation flags, degrees, relinearisation choice and auxiliary-modulus presence.",
 "Representation branches multiply; tests run almost always with evaluation-domain ciphertexts and one parameter family.",
 ["rlwe/encryptor.go", "rlwe/decryptor.go", "rlwe/keyswitch.go", "rlwe/keygen.go", "frlwe/keyswitch.go", "frlwe/keygen.go", "ckks/evaluator.go", "ckks/encoder.go", "fckks/evaluator.go"],
 [("IsNTT flag on polynomials", "ring/ring_poly.go"), ("keys stored in NTT and Montgomery form", "rlwe/keygen.go")],
 "representation (typestate) abstract interpretation over go/ssa with flag case splits", 'Representation (domain, Montgomery factor count, flag) of every polynomial at every ring call and at every exit, over 2 200 configurations with symbolic levels; values of unknown representation are not judged.')

prop("P07", "Lazy reduction never overflows and results are fully reduced",
 "At every point of an arithmetic pipeline that defers modular reduction, the accumulated values stay below the 64-bit word size for every admissible parameter set. Every polynomial returned to the caller by an operation that is not explicitly lazy has all residues below their modulus.",
 ["inputs", "configurations"], "For every non-lazy public operation, every input with canonical residues, every level and every admissible modulus chain.",
 "Overflow needs extreme moduli and worst-case coefficients at a specific accumulation length; random tests stay orders of magnitude below the limit.",
 ["ring/ring_operations.go", "ring/ring_vector_ops.go", "rlwe/keyswitch.go", "frlwe/keyswitch.go", "ckks/evaluator.go", "rlwe/params.go"],
 [("overflow margin driven reductions", "rlwe/keyswitch.go"), ("constant/lazy kernel variants with documented ranges", "ring/ring_vector_ops.go")],
 "interval (multiple-of-modulus) abstract interpretation over go/ssa", 'Upper bounds as rational multiples of the modulus through every operation to every exit and every kernel precondition; the bounds of the leaf reductions themselves are modelled.')

prop("P08", "Levels: results and accesses respect the operands' levels",
 "A result's level is the minimum of the levels the operation is defined over, no operation reads or writes residue rows above the level of any operand or receiver it touches, and no residue row up to the level of a result is left unwritten.",
 ["inputs", "configurations"], "For every public operation and every combination of operand and receiver levels within the operation's documented preconditions.",
 "Level combinations are quadratic to cubic in the chain length; tests use equal or maximal levels.",
 ["ckks/evaluator.go", "ckks/ciphertext.go", "rlwe/elements.go", "rlwe/encryptor.go", "rlwe/decryptor.go", "fckks/evaluator.go", "frlwe/keyswitch.go"],
 [("level computed as minimum over operands", "ckks/evaluator.go"), ("Coeffs re-sliced to the result level", "rlwe/encryptor.go")],
 "symbolic linear level analysis (abstract interpretation over go/ssa)", 'Rows written, rows kept and reported level of every output, as linear terms over symbolic operand levels; values of unknown rows are not judged.')

prop("P09", "Scale bookkeeping of approximate-arithmetic results",
 "The scale recorded on every evaluation result is determined by the operand scales as documented: products multiply scales, sums and linear unary operations keep them, division by a modulus divides the scale by that modulus, and a copied or converted ciphertext or plaintext carries its source's scale. A constant is encoded with the factor the recorded scale of the result says. No operation that writes a receiver's data leaves the receiver's previous scale in place.",
 ["inputs", "configurations"], "For every evaluator, encoder, encryptor and decryptor operation producing a scaled ciphertext or plaintext, for all operand scales, levels and degrees.",
 "A wrong recorded scale decodes correctly whenever all operands share the default scale, which is what examples use.",
 ["ckks/evaluator.go", "ckks/ciphertext.go", "ckks/plaintext.go", "ckks/encryptor.go", "ckks/decryptor.go", "ckks/encoder.go", "fckks/evaluator.go", "fckks/encryptor.go", "fckks/decryptor.go"],
 [("SetScale on every result", "ckks/evaluator.go")],
 "symbolic scale-term analysis (abstract interpretation over go/ssa)", 'Exponents of scale monomials and choice of rescaling modulus in every configuration; the floating-point value is not computed.')

prop("P10", "Every encryption and key uses fresh, correctly drawn randomness",
 "Every encryption and every generated public, relinearisation, rotation or switching key component adds an error drawn anew from the error distribution, and masks drawn anew, from a cryptographically seeded generator; no drawn mask or error is used in two ciphertexts or two key components, skipped on some path, or drawn from a fixed or non-cryptographic source. Only the caller-supplied common reference string may replace a drawn mask.",
 ["inputs", "histories", "configurations"], "For every encryption and key generation call, on every parameter set (with and without auxiliary modulus, evaluation- or coefficient-domain receivers).",
 "A missing or reused error does not break decryption: it makes results more accurate, so functional tests pass.",
 ["rlwe/encryptor.go", "rlwe/keygen.go", "frlwe/keygen.go", "ring/ring_sampler_gaussian.go", "ring/ring_sampler_ternary.go", "ring/ring_sampler_uniform.go", "utils/prng.go"],
 [("sampler Read calls before use", "rlwe/encryptor.go"), ("keyed PRNG seeded from the OS", "utils/prng.go")],
 "randomness provenance (taint) abstract interpretation over go/ssa", "Every component with key material of every encryption and key generation call: which draw instances it contains on every path, where their sampler's generator is seeded, and byte-level freshness of the samplers' loops. The shape of the distributions is not judged.")

prop("P11", "Secret key material never reaches public outputs unmasked",
 "Secret key values, and values computed from them, flow into ciphertexts, public keys and evaluation keys only in combination with a fresh error and mask; they never flow into public-output objects, shared scratch handed to callers, error messages or logs otherwise.",
 ["inputs", "configurations"], "For every operation taking secret key material as input, on every path.",
 "Leaking a secret does not change any functional result a test observes.",
 ["rlwe/keygen.go", "rlwe/encryptor.go", "rlwe/decryptor.go", "frlwe/keygen.go"],
 [("error added before key product leaves the generator", "rlwe/keygen.go")],
 "information-flow (taint) abstract interpretation over go/ssa", 'Every polynomial output reachable from every operation is judged for key material without draw of error and mask on all paths; every formatting and logging call for arguments derived from keys. Timing is not judged.')

prop("P12", "Serialised layouts of writers and readers agree",
 "For every serialisable type, the reader consumes exactly the fields, in the order, width and position the writer produces, every stored field of the object is both written and restored, and the announced encoded size equals the number of bytes written. Decoding into a non-empty object leaves nothing of its previous value.",
 ["inputs", "configurations", "histories"], "For every serialisable object (polynomials, ciphertexts, keys, key sets, parameter sets), any degree, level, representation flag combination and previous content of the receiver.",
 "Round-trip tests cover single parameter sets, fresh receivers and default flags only.",
 ["ring/ring_poly.go", "ring/ring.go", "rlwe/marshaler.go", "rlwe/params.go", "rlwe/ring_qp.go", "ckks/params.go", "ckks/ciphertext.go"],
 [("hand-written binary encoders/decoders", "rlwe/marshaler.go")],
 "writer/reader event-sequence agreement by symbolic byte-offset analysis over go/ssa", "")

prop("P13", "Malformed serialised input is rejected with an error, not a crash",
 "Decoding any byte string, of any length and content, into any serialisable object either succeeds or returns an error. It never reads outside the given bytes, never panics, and never allocates based on an unchecked attacker-controlled length.",
 ["inputs"], "For every byte string given to every decoding entry point.",
 "Tests decode only what the encoder just produced.",
 ["ring/ring_poly.go", "ring/ring.go", "rlwe/marshaler.go", "rlwe/params.go", "ckks/params.go", "utils/buffer.go"],
 [("length checks before indexing", "rlwe/params.go")],
 "bounds-check dominance analysis with symbolic offsets over go/ssa", "")

prop("P14", "Failures are reported, never swallowed",
 "Whenever a step an operation depends on reports an error, the operation reports an error (or stops with a panic) instead of continuing with the failed step's result. Unsupported argument types are reported as well, not silently treated as zero.",
 ["inputs", "fault_sequences"], "For every call site of an error-returning function and every failure it can report.",
 "Failure paths are hardly executed by the tests.",
 ["ring/ring.go", "rlwe/params.go", "rlwe/marshaler.go", "rlwe/encryptor.go", "frlwe/keygen.go", "frlwe/keyswitch.go", "ckks/evaluator.go", "ckks/params.go", "utils/prng.go"],
 [("error return values", "rlwe/params.go")],
 "error-path analysis over go/ssa (may-fail summaries to a fixpoint, path walk from every error source)",
 "Decides for every call of a function that may report an error, and every path on which it does, that the caller reports an error or panics; boolean failure results and defaultless type switches over operands are covered the same way. Which condition makes a callee fail is not judged.")

prop("P15", "Invalid parameters are rejected on every construction path",
 "Every way of building a parameter set or a ring (literal, explicit moduli, default constructor, binary or JSON decoding) applies the same validity checks: supported degree range, number and size of moduli, primality and NTT-friendliness, distinctness, and error-distribution and slot-count ranges. An invalid choice is reported as an error and no usable object is returned.",
 ["inputs", "configurations"], "For every candidate parameter description given to any construction path.",
 "Tests construct only valid parameter sets.",
 ["ring/ring.go", "rlwe/params.go", "ckks/params.go", "frlwe/params.go", "fckks/params.go"],
 [("checkSizeParams / CheckModuli", "rlwe/params.go")],
 "must-pass-through (dominance) analysis over go/ssa with validator summaries", "")

prop("P16", "Evaluation, encoding and serialisation are deterministic",
 "Apart from key generation, encryption and explicit sampling, no operation depends on randomness, the clock, map iteration order, addresses or goroutine scheduling: equal inputs give equal outputs and equal bytes. A seeded generator yields a stream that depends on its seed only.",
 ["inputs", "histories", "schedules"], "For every non-sampling public operation and every pair of runs with equal inputs.",
 "Map iteration order and entropy differ between runs; a test compares a run with itself.",
 ["rlwe/marshaler.go", "rlwe/params.go", "ckks/params.go", "ckks/evaluator.go", "ckks/encoder.go", "utils/prng.go", "utils/utils.go"],
 [("keyed PRNG", "utils/prng.go"), ("sorted iteration", "utils/utils.go")],
 "effect analysis (entropy, clock, map-order sources) over the call graph and go/ssa",
 "Decides absence of nondeterminism sources (entropy, clock, environment, goroutines, addresses, map order) on all paths of non-sampling operations; floating-point reproducibility across machines is not covered.")

prop("P17", "One integer behind the residues of every coefficient",
 "Wherever integers are put into residue form (a Gaussian or ternary draw, a small polynomial extended from one modulus to others, the lift of a secret key, coefficients set from machine or big integers, real values encoded to fixed point, constants scaled to fixed point), the residues of one coefficient at all moduli are residues of one and the same integer: the draw or the rounding is made once and only its reduction differs between moduli, a negative integer is the modulus of that row minus its magnitude (and the sign is applied at every modulus or at none), a lifted residue is centred with the modulus it is a residue of, both signs of a sampled magnitude occur, every row up to the level is written, samples, lifts and set values lie below the modulus of their row, and the encoding of -x is the negative of the encoding of x.",
 ["inputs", "configurations"], "For every sampler, density, Hamming weight, standard deviation, level and Montgomery option, every machine or big integer, and every real value and scale.",
 "A residue-inconsistent coefficient is a huge integer that shows up only at a particular sign, magnitude, modulus or level; tests sample a few values with moduli of similar size.",
 ["ring/ring_sampler_gaussian.go", "ring/ring_sampler_ternary.go", "ring/ring.go", "rlwe/ring_qp.go", "rlwe/keygen.go", "ckks/utils.go"],
 [("one draw, reduced per modulus", "ring/ring_sampler_gaussian.go"), ("ternary residue table", "ring/ring_sampler_ternary.go"), ("ExtendBasisSmallNormAndCenter", "rlwe/ring_qp.go"), ("fixed-point encoding", "ckks/utils.go")],
 "symbolic residue forms of two successive rows of every loop over moduli (path-wise abstract execution over go/ssa, with case splits on signs and bits)", "Decides the integer each row stands for and its sign and range, on every path of every loop over moduli that stores residues of something other than the rows of another polynomial. Whether the rounding or the distribution is the intended one is not decided here; loops whose values come from other rows (basis conversion, automorphisms) belong to P05-P07.")

prop("P18", "Keys are generated with the layout key switching consumes",
 "The number of gadget rows, the grouping of moduli into digits, the auxiliary-modulus factor and the ring each component lives in are the same functions of the parameters in key generation, key allocation, serialisation and key switching, for the classic and for the fast key-switching scheme. Every row the switching procedure reads at any level was generated, and every generated row uses the gadget factor of its own digit.",
 ["configurations", "inputs"], "For every parameter set and level, for the classic and fast key-switching families.",
 "Tests run a handful of parameter sets whose digit counts divide evenly.",
 ["rlwe/keygen.go", "rlwe/keys.go", "rlwe/keyswitch.go", "frlwe/keygen.go", "frlwe/keys.go", "frlwe/keyswitch.go", "frlwe/params.go", "ring/ring_basis_extension.go"],
 [("beta/alpha computed from levels", "rlwe/keyswitch.go")],
 "symbolic shape-expression agreement over go/ssa", "")

prop("P19", "Results depend only on the operands",
 "The value an operation leaves in its receiver does not depend on what the receiver or the object's internal scratch memory held before, nor on earlier calls, except for operations documented as accumulating into the receiver. Every component of the receiver that is part of the result is written on every path.",
 ["histories", "inputs"], "For every operation, any previous content of receivers and scratch buffers, any previous sequence of calls on the same object.",
 "Tests use fresh, zeroed receivers, in which forgotten initialisation cannot show.",
 ["ring/ring_operations.go", "ring/ring_scaling.go", "rlwe/keyswitch.go", "rlwe/encryptor.go", "ckks/evaluator.go", "ckks/encoder.go", "frlwe/keyswitch.go"],
 [("receiver fully overwritten", "ring/ring_operations.go")],
 "stale-content (uninitialised-use) dataflow over go/ssa", 'Every output of every evaluator, encoder and decoder call is judged for content left by earlier calls (scratch, receiver), over all configurations.')

prop("P20", "Operations compute the documented formula",
 "The content an operation leaves in each component of its result is the formula its documentation states over the contents of its operands, the keys and the randomness it draws: which operand and which component enters with which sign, which half or component of which key multiplies it, which permutation is applied, which of the operands is aligned by a scale ratio, that a complex constant a+bi enters as a+b·psi in the first and a−b·psi in the second half of the values with psi the root that stands for i, and that the remaining components follow the same rule as the first one.",
 ["inputs", "configurations"], "For every operand content, degree, level and scale relation, ring type, key and parameter set the operation accepts.",
 "A swapped operand, a wrong key component or a missing permutation only shows for the degree, level or scale relation that takes that path, and the ckks and fckks packages are hardly exercised by tests that run reliably.",
 ["ckks/evaluator.go", "fckks/evaluator.go", "rlwe/encryptor.go", "rlwe/decryptor.go", "rlwe/keyswitch.go", "rlwe/keygen.go", "frlwe/keyswitch.go", "ring/ring_operations.go"],
 [("component formulas of the evaluators", "ckks/evaluator.go"), ("gadget product and encryption", "rlwe/keyswitch.go")],
 "abstract interpretation over go/ssa with symbolic contents (value numbers over ring operations), compared with the documented formula", 'Symbolic content of every result component of every operation, over all configurations; normalised as polynomials over operand contents, key components, draws and named linear maps, then compared with the specified formula. Contents the normal form does not cover (basis extension, inner products over key digits of unknown shape) are counted as not judged.')

def na(id, title, statement, qtext, why, files, mech, reason, over=["inputs", "configurations"]):
    prop(id, title, statement, over, qtext, why, files, mech, na=reason)

na("P30", "Decryption recovers the encrypted value within the noise bound",
 "Decrypting a ciphertext produced by any sequence of supported operations yields the plaintext result up to the noise bound implied by the parameters.",
 "For every key, message, parameter set and operation sequence within the noise budget.", "Needs a bound over all inputs; tests sample.",
 ["rlwe/encryptor.go", "rlwe/decryptor.go", "ckks/evaluator.go"], [("noise growth", "rlwe/keyswitch.go")],
 "Quantifies over runtime noise magnitudes and exact modular values; no sound static argument in reach bounds them. The structural necessary conditions (representation, levels, scale, masks, layout) are P06, P08, P09, P10, P20.")
na("P31", "Modular reductions compute the exact residue",
 "Barrett and Montgomery reduction return the exact residue of their operand for every modulus and operand in the documented range.",
 "For all 64-bit operands and all odd moduli below 2^61.", "2^128 operand pairs.",
 ["ring/modular_reduction.go"], [("BRed / MRed", "ring/modular_reduction.go")],
 "Exact machine arithmetic over all operands is a bit-precise proof obligation (solver or proof assistant), not decidable by a structural analysis.")
na("P32", "The number-theoretic transform is a ring isomorphism",
 "Forward followed by backward transform is the identity, and the transform turns negacyclic convolution into coefficient-wise multiplication, for both ring types.",
 "For every degree, modulus and polynomial.", "Tests cover a few degrees with random data.",
 ["ring/ring_ntt.go"], [("butterflies and twiddle tables", "ring/ring.go")],
 "Algebraic equality of the butterfly network with the transform quantifies over values and sizes; the structural part in reach (lane uniformity, own-modulus constants) is P05.")
na("P33", "RNS basis conversion and division are exact",
 "Basis extension and division by a modulus or modulus product return the exactly rounded or floored result represented in the target basis.",
 "For every basis, level and polynomial.", "Random tests only.",
 ["ring/ring_basis_extension.go", "ring/ring_scaling.go"], [("modUpExact", "ring/ring_basis_extension.go")],
 "Exactness rests on floating-point and modular arithmetic over runtime values; only representation, level and aliasing facts are structural (P04-P08).")
na("P34", "Encoding and decoding are inverse up to the stated precision",
 "Decoding an encoded vector returns it up to the precision implied by the scale.",
 "For every slot count, vector and scale.", "Sampled inputs only.",
 ["ckks/encoder.go", "ckks/ckks_vector_ops.go"], [("special FFT", "ckks/encoder.go")],
 "Numerical accuracy of floating-point transforms is outside static reach.")
na("P35", "Samplers follow their documented distributions",
 "Each sampler's output follows its documented distribution up to negligible distance.",
 "For every distribution parameter.", "Statistical tests only bound gross errors.",
 ["ring/ring_sampler_gaussian.go", "ring/ring_sampler_ternary.go", "ring/ring_sampler_uniform.go"], [("ziggurat tables, rejection", "ring/ring_sampler_gaussian.go")],
 "A statement about probability distributions of computed values; the structural part (source of randomness, one draw per coefficient) is P10 and P17.")
na("P36", "Fast and classic key switching produce equivalent ciphertexts",
 "Key switching with the fast scheme and with the classic scheme yields ciphertexts decrypting to the same value up to noise.",
 "For every key, ciphertext and parameter set.", "One parameter family is tested.",
 ["frlwe/keyswitch.go", "rlwe/keyswitch.go"], [("two-level gadget decomposition", "frlwe/keyswitch.go")],
 "Equality of two numerical procedures over all inputs; no structural condition decides it.")
na("P37", "Generated moduli are NTT-friendly primes of the requested size",
 "Prime generation returns distinct primes congruent to 1 modulo the requested root order, of the requested bit size.",
 "For every requested size, order and count.", "A few sizes are tested.",
 ["ring/primes.go"], [("NextNTTPrime search", "ring/primes.go")],
 "Primality and congruence of computed values are arithmetic facts about runtime quantities. Passing on the error of a failed test is P14.")
