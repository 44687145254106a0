"""The properties and how each is decided."""
G = 'jaxite/jaxite_cggi/'
L = 'jaxite/jaxite_bool/'
C = 'jaxite/jaxite_ckks/'

BASE = ('Sound for the analysed instances: every value of the symbols (plaintexts, keys, '
        'masks, ciphertext words) is covered at once; the sizes listed in the evidence are '
        'enumerated. Trusts the analyser\'s model of Python, numpy and jax.numpy. '
        'Obligations the analyser cannot decide are listed in the evidence and raise no '
        'alarm. ')

PROPS = [
 dict(id='C01', title='Homomorphic gates compute their truth tables',
  statement='For every Boolean gate, multi-input lookup table and selection offered by the Boolean API, in its single, batched and multi-device form, decrypting the result gives the truth-table value of the plaintext inputs, for every input combination and truth table, as long as the noise stays within the budget. Operands play the roles documented for them, and each batch element is computed only from its own operands.',
  over=['inputs', 'programs', 'configurations'],
  quant='all gates, all 2^k input combinations, all truth tables, any batch composition, any keys',
  why='The Boolean gate tests are left out of the test run (they need minutes per gate) and sample a few inputs when they do run.',
  files=[L + 'jaxite_bool.py', L + 'lut.py', L + 'bool_params.py', L + 'bool_encoding.py'],
  mech='weighted sum of ciphertexts selects a test-polynomial slot; the table is encoded into the test polynomial; pmap wrappers regroup operands by gate',
  note=BASE + 'Bootstrapping is summarised by its specification, which C05 and C06 decide.'),
 dict(id='C02', title='Messages and lookup tables survive encoding',
  statement='Encoding a message or a test polynomial and then removing its error returns the original value for every value in the message space and every error below half a step, values outside the message space are rejected, and a test polynomial or lookup table places each table entry at exactly the slots a ciphertext of that index rotates to. Looking a table up by name, directly or through the cache, always yields the table that name and truth table denote.',
  over=['inputs', 'configurations', 'histories'],
  quant='all messages, errors within half a step, encoding widths, truth tables, and orders of cache use',
  why='Tests encode a handful of messages with one parameter set; the cache is exercised with one table per name.',
  files=[G + 'encoding.py', G + 'test_polynomial.py', L + 'lut.py'],
  mech='padding|message|noise bit fields; round to the nearest multiple; table slots shifted by half a slot; cache keyed by table',
  note=BASE),
 dict(id='C03', title='Plain values convert to bits and back unchanged',
  statement='Converting unsigned integers of any width, lists of bytes, or (optionally padded) ASCII text into vectors of bits and back returns the same value for every value of the type, least significant bit first. Bytes out of range, vectors of the wrong length for the requested width, and empty inputs are rejected.',
  over=['inputs'],
  quant='all values of each supported type and all vector lengths',
  why='The converters have tests for a few values only, none at the sign and byte boundaries.',
  files=[L + 'type_converters.py'],
  mech='bit slicing and recombination',
  note=BASE),
 dict(id='C04', title='Encryption is inverted by decryption under the same key',
  statement='For the LWE, ring-LWE and RGSW schemes, a fresh ciphertext has exactly the message (times its gadget scale) plus a fresh error as its phase under the encrypting key, and decrypting returns the message for every message, key and mask as long as the error is below half a message step. Key generation draws binary coefficients of the requested shape, and flattening a ring key yields the LWE key that opens extracted samples.',
  over=['inputs', 'configurations'],
  quant='all messages, keys, masks and in-budget errors; ring degrees, dimensions and gadget bases as enumerated in the evidence',
  why='Tests decrypt a few random ciphertexts of one parameter set.',
  files=[G + 'lwe.py', G + 'rlwe.py', G + 'rgsw.py'],
  mech='b = <a,s> + m + e over Z/2^32; RGSW rows add m times a power of the base to one block',
  note=BASE),
 dict(id='C05', title='Gadget digits recompose; external product and CMUX select',
  statement='The digits of a word, weighted by the powers of the base, sum to the word (exactly when all levels are kept, otherwise to its leading part), and signed digits lie in [-B/2, B/2), for every word and every base whose bit length divides the word size. Up to the noise budget, the external product multiplies the phase of a ring ciphertext by the encrypted integer, and CMUX returns the second or the first operand according to the encrypted bit and rejects operands with different parameters.',
  over=['inputs', 'configurations'],
  quant='all 2^32 words per base and level count; all ciphertexts, keys and masks',
  why='Tests sample numbers; the digit range and the carry chain fail only on particular digit patterns.',
  files=[G + 'decomposition.py', G + 'bootstrap.py', G + 'rgsw.py', G + 'polymul_kernel.py'],
  mech='carry propagation from the least significant digit; rows of RGSW ciphertext ordered as (block, level)',
  note=BASE + 'Errors are set to zero, so the phase identities are exact; error growth is not bounded.'),
 dict(id='C06', title='Key switching and bootstrapping preserve the phase',
  statement='Key switching re-encrypts a ciphertext under the target key with the same phase; blind rotation multiplies the test polynomial by X to the minus phase of the index ciphertext, whichever bootstrapping-key variant is used; sample extraction yields an LWE ciphertext of the constant coefficient under the flattened ring key. Bootstrapping, compiled or not, with or without a callback, is exactly the composition of modulus switch, blind rotation, extraction and key switch, for every ciphertext, key and test polynomial.',
  over=['inputs', 'configurations', 'programs'],
  quant='all keys, masks, test polynomials; exponents, dimensions and gadget parameters as enumerated',
  why='Tests bootstrap a few ciphertexts under fixed seeds, and errors at particular exponents or odd shapes are invisible to them.',
  files=[G + 'key_switch.py', G + 'bootstrap.py', G + 'rlwe.py'],
  mech='gadget-decomposed inner products; paired-bit loop unrolling; negacyclic rotation; coefficient reversal with sign',
  note=BASE + 'Errors are set to zero, so the phase identities are exact; error growth is not bounded.'),
 dict(id='C07', title='Polynomial and matrix products are exact',
  statement='Every negacyclic polynomial product, vector-matrix product, monomial multiplication, rounding and modulus switch used by the schemes equals the mathematical operation modulo 2^32 for every 32-bit operand, whichever of the interchangeable implementations is called.',
  over=['inputs', 'configurations'],
  quant='all 32-bit operands; degrees and shapes as enumerated',
  why='Tests compare a few random operands of typical magnitude, so overflow in a byte-sliced product or a wrong sign for one exponent can go unseen.',
  files=[G + 'matrix_utils.py', G + 'polymul_kernel.py', G + 'lwe.py', G + 'encoding.py'],
  mech='byte-sliced matmul, Toeplitz products, sign-flipped rolls',
  note=BASE + 'The TPU-only Pallas kernels are not covered.'),
 dict(id='C10', title='Elliptic-curve point operations are the group law',
  statement='Point addition, doubling and negation in every coordinate system and field backend, split, packed and batch-first, return coordinates of exactly the sum, double or negative of the operand points, for every pair of distinct affine points of the BLS12-377 curve (for the twisted Edwards form any points of the prime-order subgroup) and every projective scaling of their coordinates, and each batch element depends only on its own operands. The reference curve classes agree, including the neutral element and repeated doubling, and twisting to the Edwards form and back is an inverse pair of group homomorphisms.',
  over=['inputs', 'configurations'],
  quant='all generic curve points and scale factors; batch sizes as enumerated',
  why='Tests add one or two fixed points; a wrong term that vanishes for z = 1 or for one batch element is invisible.',
  files=['jaxite_ec/elliptic_curve.py', 'jaxite_ec/algorithm/elliptic_curve.py', 'jaxite_ec/algorithm/config_file.py'],
  mech='XYZZ and extended twisted Edwards formulas written over packed field arrays',
  note=BASE + 'Field primitives are summarised by their contracts, which C11 decides. Identities that do not reduce to zero as polynomials are decided at several fixed curve points (identity testing over the 377-bit field).'),
 dict(id='C11', title='Field arithmetic is exact and stays in range',
  statement='Addition, subtraction, multiplication, negation and reduction modulo the BLS12-377 prime in the Barrett, lazy and RNS representations give the right residue for every operand in the range the representation allows (Barrett: below p; lazy: up to 2^16 p; RNS: values whose products stay below 0.61 of the RNS modulus), and the result is in the range the representation promises (Barrett results are canonical). Point routines never call a field operation outside that range. Conversions between integers, limbs, residues and point packs are lossless, and the reference field classes return canonical results.',
  over=['inputs', 'histories'],
  quant='all operands in range (377-bit integers, all 16-bit residues of all moduli); all sequences of point operations, by closure of the ranges',
  why='Carry chains, borrow at the top limb, zero residues and the last reduction step fail only for rare operands, and range overruns only after particular sequences of operations.',
  files=['jaxite_ec/finite_field.py', 'jaxite_ec/util.py', 'jaxite_ec/elliptic_curve.py', 'jaxite_ec/algorithm/finite_field.py'],
  mech='16-bit limbs with carry loops, Barrett quotient, lazy reduction matrix, CRT byte weights with a quotient estimate',
  note=BASE + 'A violation is reported only with operands for which the interpreted code gives a wrong value. A negative RNS product down to -M/8 (the XYZZ addition produces one) is accepted: its correctness depends on the rounding slack of the quotient estimate and is not proved.'),
 dict(id='C12', title='Every Pippenger variant computes the multi-scalar sum',
  statement='For every list of distinct curve points and every list of scalars below the group order, initialize, bucket accumulation, bucket reduction, window summation and window merge of MSMPippenger, MSMPippengerTwisted and MSMPippengerTwistedSigned (lazy and RNS; scan, loop and flat variants) together return exactly the sum of s_i times P_i, for every slice length and point parallelism, whatever windows or buckets are empty, and also when an object is initialised again for a new list. The signed recoding may only refuse scalars whose digits need one more window.',
  over=['inputs', 'histories'],
  quant='all scalars and points, slice lengths, parallelism and reuse of an object',
  why='Empty windows, the largest digits, carries, equal partial sums and reused objects need particular scalars; the existing MSM tests are not part of the runnable suite and use full-size random scalars.',
  files=['jaxite_ec/pippenger.py', 'jaxite_ec/pippenger_rns.py'],
  mech='bucket accumulation by digit index, running sums, Horner merge of windows, blank-point bookkeeping',
  note=BASE + 'Points are symbolic (free abelian group); scalars are chosen so that the windows run through all digit combinations of the points. The packed point routines are summarised by the group law, which C10 decides. Equal points in one XYZZ bucket are outside the property.'),
 dict(id='C08', title='Objects survive flattening',
  statement='Every class registered as a JAX pytree node (ciphertexts, plaintexts, keys, and the CKKS kernels) can be flattened and rebuilt without loss: the rebuilt object carries the same public attributes and computes the same results, leaves replaced by a transformation come back in the same places, and flattening the rebuilt object gives the same structure.',
  over=['inputs', 'programs', 'configurations'],
  quant='all registered classes and all leaf values; the instances listed in the evidence',
  why='Tests jit a few objects; a field lost or swapped in flattening shows only when an object crosses a transformation boundary.',
  files=[G + 'rlwe.py', G + 'rgsw.py', G + 'bootstrap.py', C + 'types.py', C + 'ntt.py', C + 'key_switching.py', C + 'rescale.py', C + 'mul.py'],
  mech='tree_flatten and tree_unflatten pairs of the classes decorated with register_pytree_node_class',
  note=BASE),
 dict(id='C09', title='CKKS modular kernels return exact canonical residues',
  statement='The modular kernels of the CKKS package (Barrett reduction and multiplication, modular addition, byte-decomposed matrix products, RNS basis change, plaintext and ciphertext multiplication, limb slicing) return the mathematically exact residue modulo each modulus, in canonical form where they promise it, for all inputs within their contracts and all supported prime moduli, also when only that module has been imported.',
  over=['inputs', 'configurations'],
  quant='all residues in range; the primes of 14 to 31 bits and shapes listed in the evidence',
  why='Tests draw random residues of a few moduli; an off-by-one quotient shows for a tiny fraction of inputs and particular moduli.',
  files=[C + 'barrett.py', C + 'bat_utils.py', C + 'basis_conversion.py', C + 'mul.py', C + 'add.py', C + 'math.py'],
  mech='Barrett constants, byte splits and recombination, conditional subtractions',
  note=BASE + 'Moduli are those enumerated; matrix sizes small. The statement holds up to the accumulation bound of the byte products (4*255*rows*q below q^2), which the enumerated moduli meet.'),
 dict(id='C13', title='Every encryption and every generated key is freshly randomised',
  statement='Every generated secret key consists of key draws of its own; every ciphertext, of LWE, ring-LWE, RGSW and CKKS encryption and inside switching, bootstrapping, evaluation, rotation and public keys, has a mask (or ephemeral key) and noise drawn for it alone and used nowhere else. The system random sources draw every value independently from the operating system with the stated range and distribution, and CKKS operations that are given no source use the system source.',
  over=['inputs', 'histories', 'configurations'],
  quant='all messages, keys and draws; repeated calls with the same arguments and the same source',
  why='Reused masks or noise decrypt correctly, so round-trip tests cannot see them.',
  files=[G + 'lwe.py', G + 'rlwe.py', G + 'rgsw.py', G + 'key_switch.py', G + 'bootstrap.py', G + 'random_source.py', C + 'key_gen.py', C + 'encrypt.py', C + 'random.py'],
  mech='draw shapes and draw order in key generation and encryption; per-row draws in gadget ciphertexts',
  note=BASE + 'The quality of the operating system generator is not analysed. A CGGI bootstrapping-key row uses one error value for its polynomial, as the code documents; the check asks for one noise draw per row there.'),
 dict(id='C14', title='Secrets stay in secret keys',
  statement='Nothing handed to the server or published (server key set, bootstrapping, key-switching, evaluation, conjugation, rotation and public keys, parameters, ciphertexts) reveals secret-key bits, plaintexts, noise or ephemeral keys other than hidden by a mask and noise, none of these objects holds a secret key, a plaintext or the random source it was drawn from, and generating keys, encrypting and decrypting write no secret-dependent value to any output or log.',
  over=['inputs', 'programs', 'configurations'],
  quant='all keys, messages and draws; every number reachable from the listed objects',
  why='A leaked value changes no result, so no functional test notices it.',
  files=[L + 'jaxite_bool.py', G + 'lwe.py', G + 'rgsw.py', G + 'bootstrap.py', G + 'key_switch.py', C + 'key_gen.py', C + 'encrypt.py', C + 'types.py'],
  mech='attributes of the key objects and ciphertext classes; construction of public components',
  note=BASE + 'Decides direct data flow; timing and memory side channels are outside it.'),
 dict(id='C15', title='The number-theoretic transform evaluates, inverts and multiplies',
  statement='Both the CPU and the accelerator transforms evaluate a polynomial at the odd powers of a primitive 2N-th root of unity in the same order, the inverse transforms return the coefficients, so that pointwise products of transforms are negacyclic products, for all coefficients and every modulus of a tower; RNS polynomials add, subtract, multiply, convert and reconstruct (CRT) as their integer counterparts do, and operations on mismatched towers or domains are rejected.',
  over=['inputs', 'configurations'],
  quant='all coefficients; degrees 2 to 16, row and column splits and moduli listed in the evidence',
  why='Tests compare a few random polynomials; layouts and twiddle factors that differ per split or modulus are sampled.',
  files=[C + 'ntt.py', C + 'ntt_cpu.py', C + 'rns.py', C + 'rns_utils.py', C + 'math.py'],
  mech='twiddle tables, bit reversal, row-column decomposition, CRT weights',
  note=BASE),
 dict(id='C16', title='CKKS evaluation computes the defined ring operation',
  statement='Rescaling divides by the dropped modulus with rounding, key switching, relinearisation, conjugation, automorphisms, muxed rotations, blind rotation and lifting produce, modulo every remaining modulus and for all inputs and keys, exactly the residues their defining formulas give, with the remaining moduli recorded in the result; so decryption after any of them gives the corresponding plaintext operation up to noise.',
  over=['inputs', 'configurations', 'programs'],
  quant='all ciphertext and key residues; degree 4, the tower and decomposition shapes listed in the evidence',
  why='Tests check decrypted approximations within a tolerance that hides small systematic errors and never reach boundary residues.',
  files=[C + 'rescale.py', C + 'key_switching.py', C + 'conjugate.py', C + 'mul.py', C + 'blind_rotate.py', C + 'blind_rotate_utils.py', C + 'basis_conversion.py'],
  mech='centred last limb, digit decomposition into parts, approximate base conversion and division by P, index permutations',
  note=BASE + 'Noise growth and approximation error are not bounded.'),
 dict(id='C17', title='CKKS keys decrypt to their payload',
  statement='Every generated public, evaluation, conjugation, switching and rotation key satisfies b + a s = payload + small noise modulo every modulus, with the payload its operation needs and a uniform a; encryption under the public key adds an ephemeral multiple of it, the plaintext and small noise; decryption returns the coefficients of c0 + c1 s for any prefix of the key moduli; mismatched moduli are rejected.',
  over=['inputs', 'configurations'],
  quant='all draws, keys and plaintexts; degree 4, tower and decomposition shapes, rotation amounts and bits listed in the evidence',
  why='Tests decrypt within tolerances under one tower; a wrong payload limb or noise in one part can stay below them.',
  files=[C + 'key_gen.py', C + 'encrypt.py', C + 'types.py', C + 'random.py'],
  mech='key formulas over NTT evaluations; gadget factor P on the limbs of a part',
  note=BASE),
 dict(id='C18', title='CKKS encoding is the canonical embedding and decoding inverts it',
  statement='Encoding scales the inverse canonical embedding of the (zero-padded) slots, rounds every coefficient to the nearest integer and represents it, negative or larger than a machine word alike, modulo every modulus in evaluation form; decoding recombines the residues, centres them, divides by the scale and returns the values at exp(2 pi i 5^j / 2N), j < num_slots, so that decode(encode(z)) is z up to the rounding.',
  over=['inputs', 'configurations'],
  quant='all slot values and residues; transforms of 1..64 slots; encode/decode of degree 4 and 8 with 1-3 moduli, two scales, fewer slots than N/2, and every sign pattern class of the coefficients',
  why='Tests compare a few vectors within a tolerance at one or two degrees; an index or width error can hide at other sizes, slot counts and magnitudes.',
  files=[C + 'encode.py', C + 'rns_utils.py'],
  mech='special FFT butterflies and bit reversal, rounding and signed reduction, centring by Q/2',
  note=BASE + 'Floating-point arithmetic is taken as exact, except that an integer beyond 2^53 does not survive a conversion to float; the NTT and the CRT are decided by C15.'),
 dict(id='C19', title='Results depend only on the arguments, and operands stay unchanged',
  statement='Whatever was computed before in the same process (other operands, keys, parameters or moduli, other or the same objects prepared again, compiled functions already traced, look-up tables already cached), an operation returns what it would return in a fresh process; and it leaves the keys, ciphertexts, plaintexts, scalars and points passed to it as they were (CKKS rescaling, which works in place, excepted).',
  over=['histories', 'inputs', 'configurations'],
  quant='all operand values; for every evaluator class, key generator, encryption routine, gate family and MSM class the histories: used with other operands, with other keys, with each parameter changed, another instance in between, the same instance prepared for other moduli',
  why='Unit tests build everything afresh; a cache or a compiled function with an incomplete key, state shared between instances or an in-place update shows only in longer histories.',
  files=[C + 'basis_conversion.py', C + 'mul.py', C + 'key_switching.py', C + 'encrypt.py', C + 'key_gen.py', L + 'lut.py', L + 'jaxite_bool.py', G + 'bootstrap.py', G + 'decomposition.py', 'jaxite_ec/pippenger.py'],
  mech='jit static arguments and pytree auxiliary data, lru_cache and cached_property keys, instance constants, numpy aliasing',
  note=BASE + 'jit is modelled by its documented key (static arguments, tree structure, shapes, dtypes); pmap is not staged.'),
]

NA = [
 dict(id='N01', title='Noise stays within budget',
  statement='With the shipped parameter sets, the noise of every gate output and every CKKS operation stays below the decryption threshold except with negligible probability, over circuits of any depth.',
  over=['inputs', 'histories', 'schedules'],
  quant='all circuits and all draws',
  why='Tests run a few gates.',
  files=[G + 'bootstrap.py', L + 'bool_params.py', C + 'key_switching.py'],
  mech='noise variance against the message step',
  reason='A statement about the distribution of runtime noise; no sound static argument in reach bounds it for 2^10-dimensional keys and unbounded Gaussian draws.'),
]
