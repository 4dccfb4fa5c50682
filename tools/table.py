"""One entry per property: the text of properties.jsonl and of MANIFEST.json."""
SRC = "falcon/nistfalcon/src/"
P = []


def prop(id, title, statement, over, text, why, files, mech, observe, technique, note, hook=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, observe=observe,
                  technique=technique, note=note, hook=hook))


# ------------------------------------------------------------------------------------------------ C reference
prop("C01", "What the C reference signs, it opens, within the documented sizes",
     "For every key pair, message (any length, empty included, in place or not) and randomness, signing succeeds within the documented size of the signed message and opening it with the matching public key returns exactly the message. This holds for the compressed, the word-oriented and the key-recovery variant, with SHAKE and with Keccak hashing.",
     ["inputs", "configurations"], "all keys, messages of every length, random streams, six variants, aliasing of input and output buffers",
     "The known-answer programs sign 100 fixed messages with one fixed random stream; sizes, aliasing and rare retries inside signing are not reached.",
     [SRC + "nist.c", SRC + "nist16.c", SRC + "epervier16.c", SRC + "sign.c"],
     [("sign / open pairs", SRC + "nist.c, nist16.c, epervier16.c"), ("norm and size retry loops", SRC + "sign.c, nist.c")],
     ["crypto_sign and crypto_sign_open of each variant"],
     "round-trip monitor with exact-size buffers, ASan+UBSan build alongside", "Held on the executed key/message/stream samples; output bounds are watched by exact-size heap blocks under ASan.")
prop("C02", "C verifiers accept exactly what the Falcon predicate accepts",
     "Opening succeeds exactly when the public key and signature are canonically encoded, the signature fills its declared place, and the squared norm of the pair it defines is within the published bound; on refusal nothing of the message is released. This holds on forged, truncated, extended and adversarially chosen inputs, at the bound exactly.",
     ["inputs"], "all byte strings as signed message and as public key, including signatures forged around chosen short vectors",
     "The tests only open genuine signatures; a verifier that accepts more passes them all.",
     [SRC + "nist.c", SRC + "nist16.c", SRC + "vrfy.c", SRC + "codec.c", SRC + "common.c"],
     [("format checks", SRC + "nist.c, nist16.c"), ("norm bound", SRC + "common.c"), ("equation mod q", SRC + "vrfy.c")],
     ["return code and output buffer of sign_open"],
     "oracle: independent reference verifier on forged and mutated inputs; ASan build", "Every verdict is compared with an independent model; forged keys make every norm and coefficient reachable.")
prop("C03", "Word format and compressed format carry the same keys and signatures",
     "From one seed both interfaces derive the same key pair, and a signature or key of one format, rewritten into the other by the published formats, is accepted exactly when the original is.",
     ["inputs", "configurations"], "all seeds, keys and signatures, both formats",
     "Each test program uses one format only.",
     [SRC + "nist.c", SRC + "nist16.c", SRC + "codec.c"], [("16-bit encoders", SRC + "codec.c"), ("key formats", SRC + "nist16.c")],
     ["key bytes, verdicts of both interfaces"], "differential monitor between the two interfaces, through an independent transcoder",
     "Held on sampled keys and (also forged) signatures.")
prop("C04", "A signature is bound to every byte of the salt and of the message",
     "A signed message whose salt or message was changed in any byte, shortened or extended, at any length up to and beyond the hashing buffer, does not open; what cannot be hashed in full is refused.",
     ["inputs"], "all positions, all lengths around the block and buffer sizes",
     "The tests never change a signed message.",
     [SRC + "nist.c", SRC + "nist16.c", SRC + "keccak_prng.c", SRC + "shake.c"], [("hashing of salt and message", SRC + "nist.c"), ("buffer limit", SRC + "keccak_prng.c")],
     ["verdict of sign_open after each change"], "metamorphic monitor: every changed copy must be refused", "Every byte position is tried for short messages, sampled positions for long ones.")
prop("C05", "Key recovery returns the signer's key, and only for genuine signatures",
     "A key-recovery signature opens under the signer's key and recovers exactly that key; changed, forged, non-canonical or truncated ones are refused; the inverse hint it carries is the product of the inverses of the transform values.",
     ["inputs"], "all signatures, including forged ones with zero transform values, wrong hints and values above q",
     "The recovery test program failed on the base tree and only handles genuine signatures.",
     [SRC + "epervier16.c", SRC + "vrfy.c"], [("recovery", SRC + "vrfy.c"), ("hint", SRC + "vrfy.c"), ("key transform", SRC + "epervier16.c")],
     ["verdict, recovered key, hint bytes"], "oracle: independent recovery model on genuine, mutated and forged signatures", "Compared with the model on each input.")
prop("C06", "Every codec is a bijection onto its canonical byte strings",
     "Encoding then decoding returns the same values; decoding accepts only what encoding produces (no padding bits, no negative zero, nothing out of range or of the wrong length); size queries and too-small buffers are answered without writing.",
     ["inputs"], "all values in and out of range, all byte strings, all buffer sizes, all degrees",
     "Tests only decode what the same code encoded.",
     [SRC + "codec.c"], [("modq, trim, compressed and 16-bit codecs", SRC + "codec.c")], ["returned lengths, bytes, decoded values"],
     "oracle: independent codecs, exact-size buffers, ASan+UBSan", "Exhaustive for small degrees' single words, sampled otherwise.")
prop("C07", "No memory error or undefined behaviour in C on any input",
     "Whatever bytes are given as signed message, key, seed or message, of whatever length, no function of the public C interface reads or writes outside its arguments, executes undefined behaviour, lets uninitialized memory steer it or reach its outputs, or fails to return.",
     ["inputs"], "all argument bytes and lengths in all variants",
     "The tests run without sanitizers and only on genuine inputs.",
     [SRC + "nist.c", SRC + "nist16.c", SRC + "epervier16.c", SRC + "codec.c", SRC + "common.c", SRC + "shake.c"],
     [("length checks before reads", SRC + "nist.c, nist16.c, epervier16.c")], ["sanitizer reports"],
     "ASan+UBSan and MSan builds under hostile inputs in exact-size blocks", "No report in the executions listed in the evidence; MSan with poisoned stack and outputs.")
prop("C08", "Generated keys satisfy the NTRU equation and the published bounds",
     "Every generated key satisfies fG - gF = q over the integers, h f = g modulo q, the coefficient ranges and the Gram-Schmidt bound. It is the specified function of its seed alone: the first drawn pair that meets every criterion and can be completed. No damaged private key is used for signing.",
     ["inputs"], "all seeds, all degrees", "Tests use 100 fixed seeds of degree 512 and look only at bytes.",
     [SRC + "keygen.c", SRC + "nist.c", SRC + "nist16.c"], [("NTRU solver", SRC + "keygen.c"), ("norm tests", SRC + "keygen.c")],
     ["key bytes and decoded polynomials"], "exact integer oracle on each generated key, degrees 2 to 1024; model of the drawn candidates", "Held on the sampled seeds, among them seeds searched for candidates on a limit.")
prop("C09", "The C hash-to-point variants give the specified point",
     "For every input and degree, the variable-time and the constant-time function give the specified rejection-sampled point and consume what the specification consumes; the Keccak variant gives the counter-mode point.",
     ["inputs"], "all inputs, degrees 2 to 1024, streams with many rejections and edge words", "Tests cover one degree and 100 inputs; the constant-time function is not run by them at all.",
     [SRC + "common.c"], [("oversampling and squeezing", SRC + "common.c")], ["output coefficients, generator state afterwards"],
     "oracle: independent hash-to-point; stream patterns searched for edge words", "Held on sampled inputs.")
prop("C10", "C hash functions equal their specification however fed and read",
     "SHAKE256, Keccak-256 and the Keccak counter-mode generator give the specified bytes for every split of input and output, also beyond the internal buffer's capacity where the input must be refused.",
     ["inputs", "histories"], "all inputs and all sequences of inject, flip and extract calls", "Tests feed whole strings.",
     [SRC + "shake.c", SRC + "keccak256.c", SRC + "keccak_prng.c"], [("sponge", SRC + "shake.c"), ("counter mode", SRC + "keccak_prng.c")], ["output bytes, return codes"],
     "oracle: hashlib / pycryptodome on random call histories", "Held on sampled histories.")
prop("C11", "C deterministic generators follow their specification",
     "The AES-256 counter-mode generator, the seed expander and the ChaCha20 generator give the specified streams for every sequence of requests, counter carries and limits included.",
     ["inputs", "histories"], "all seeds and request sequences", "Known answers fix one request pattern.",
     [SRC + "katrng.c", SRC + "rng.c"], [("DRBG update", SRC + "katrng.c"), ("buffered ChaCha20", SRC + "rng.c")], ["output bytes"],
     "oracle: independent models on random request histories", "Held on sampled histories.")
prop("C12", "Salts and signing seeds are drawn anew and nothing else decides the output",
     "Every signature's salt is the freshly drawn randomness in full, the signing seed is drawn anew for each signature, and the output is a function of key, message and that randomness alone.",
     ["inputs", "histories"], "all call sequences and random streams", "Tests never look at where the salt comes from or at repeated calls.",
     [SRC + "nist.c", SRC + "nist16.c", SRC + "epervier16.c"], [("randombytes calls", SRC + "nist.c")], ["log of randomness requests against output bytes"],
     "instrumented randomness source; log checked against outputs and replays", "Held on sampled histories.")
prop("C13", "Emulated floating point is IEEE-754 double arithmetic",
     "Addition, subtraction, multiplication, division, square root, scaling, comparison and the conversions agree with IEEE-754 double precision, rounding to nearest even, on the documented range, and the exponential is within its documented precision.",
     ["inputs"], "all operand pairs in range, with cancellations, ties and large exponent gaps", "Tests see it only through 100 signatures.",
     [SRC + "fpr.h", SRC + "fpr.c"], [("emulation", SRC + "fpr.c, fpr.h")], ["result bit patterns"],
     "differential monitor against the hardware's doubles and exact decimals", "Held on sampled operands, biased to ties and cancellation.")
prop("C14", "FFT-domain algebra is ring arithmetic modulo x^N+1",
     "The transform, its inverse and every polynomial operation in the transformed domain (products, adjoints, divisions, LDL, split, merge) equal the corresponding operation in the polynomial ring, for every degree.",
     ["inputs"], "all operands, degrees 2 to 1024", "Not tested on their own.",
     [SRC + "fft.c"], [("FFT and polynomial operations", SRC + "fft.c")], ["output arrays"],
     "oracle: numpy complex evaluation at the roots the transform itself reveals; ASan build", "Held on sampled operands within 2^-40.")
prop("C15", "The integer sampler draws from the requested discrete Gaussian",
     "For every centre and deviation in its range the sampler returns what the specified table and rejection test give on the random bytes it consumes, and its output distribution is the discrete Gaussian.",
     ["inputs"], "all centres, deviations and random bytes, including each table threshold", "Not tested on its own in C.",
     [SRC + "sign.c"], [("base sampler", SRC + "sign.c"), ("Bernoulli test", SRC + "sign.c")], ["returned integer, bytes consumed"],
     "scripted random bytes against an exact model, chi-square on large samples", "Thresholds are enumerated; distributions are tested statistically at p < 1e-12.")
prop("C16", "Signatures follow one spherical Gaussian whatever the key",
     "Every signature is a valid short preimage, different randomness gives different ones, and over many signatures the vector has the same variance along every direction, the secret basis and its Gram-Schmidt vectors included.",
     ["inputs", "configurations"], "all keys, targets and random streams, both signing algorithms, all degrees", "A signer that leaks its key still verifies.",
     [SRC + "sign.c"], [("fast Fourier sampling", SRC + "sign.c"), ("leaf deviations", SRC + "sign.c")], ["s1 and s2 of each signature"],
     "statistical monitor on thousands of signatures per key along the secret directions", "Statistical: small biases are out of reach of a quick run.")
prop("C17", "The mod-q ring layer is correct for every degree",
     "Transforms, public-key derivation, private-key completion, invertibility, zero counting, the hint, verification and recovery give what ring arithmetic modulo q gives, for every degree and for zero, extreme and non-invertible operands.",
     ["inputs"], "all operands, degrees 2 to 1024", "Tests cover degree 512 and genuine operands.",
     [SRC + "vrfy.c"], [("modular arithmetic and NTT", SRC + "vrfy.c")], ["outputs and return codes"],
     "oracle: schoolbook ring arithmetic; ASan build", "Held on sampled operands with planted zeros and exact bounds.")
prop("C18", "The C interface is thread-safe",
     "Threads that generate keys, sign and verify at the same time get, each, exactly what they get alone, without data races.",
     ["schedules"], "all interleavings of calls from several threads with randomness sources of their own", "The tests are single-threaded.",
     [SRC + "nist.c", SRC + "nist16.c", SRC + "keccak_prng.c"], [("no shared state", SRC + "*.c")], ["per-thread output digests, race reports"],
     "ThreadSanitizer, and digests compared with the sequential run", "Held on the executed interleavings.")
prop("C19", "Documented constant-time code does not branch on secrets",
     "The constant-time hash-to-point, the emulated floating point, the transforms, the half-Gaussian and key recovery take no branch on secret data and form no address from it.",
     ["inputs"], "all secret operands", "Not observable through outputs.",
     [SRC + "common.c", SRC + "fpr.h", SRC + "fft.c", SRC + "sign.c", SRC + "vrfy.c"], [("masking", SRC + "common.c, fpr.h")], ["MemorySanitizer reports with secrets marked uninitialized"],
     "secret taint through MemorySanitizer shadow (branch and address monitor)", "Held on executed paths as clang -O1 compiles them; instruction timing is not watched.")

prop("C20", "The programs that write the answer files write correct vectors",
     "Each of the eight known-answer programs writes, for its generator seed, 100 requests and 100 answers that are a function of each record's own seed: seed and message come from AES-256 CTR_DRBG, the keys are the ones the seed gives, salt and point are the hash of salt and message by the program's hash, and the signed message opens under the program's scheme (recovers the key, for Epervier). For the fixed seed the plain and Keccak files are the published ones. A file that cannot be written is reported.",
     ["inputs", "faults"], "all generator seeds; files that cannot be opened", "No test builds or runs these programs.",
     ["falcon/nistfalcon/KAT/", SRC + "katrng.c", SRC + "nist.c", SRC + "nist16.c", SRC + "epervier16.c"],
     [("request and answer files", "falcon/nistfalcon/KAT/*.c")], ["the request and answer files, exit status, sanitizer reports"],
     "the programs built by the repository's Makefile under ASan/UBSan; offline checker of the recorded files with independent verifiers", "Held on the sampled generator seeds; seeds other than the fixed one are injected.")

# ------------------------------------------------------------------------------------------------ Go
prop("G01", "The Go binding is exact and safe for messages and keys of every size",
     "For every message length, and for empty, missing or wrongly sized arguments, signing and verifying through the Go binding either give what the reference gives or an error; there is no panic, no write outside its buffers, and the caller's slices are untouched.",
     ["inputs"], "all byte slices, nil included", "The one Go test signs a 16-byte message.",
     ["falcon/falcon.go"], [("buffer sizing and length checks", "falcon/falcon.go")], ["results, errors and panics of the three exported functions"],
     "driver under Go's ASan mode; oracle: independent reference verifier", "Held on sampled calls.")
prop("G02", "Keys and salts from the Go binding are fresh in every call and process",
     "No two calls, goroutines or processes obtain the same key or the same salt, and concurrent calls neither race nor produce mixed-up keys.",
     ["schedules", "histories"], "all concurrent call patterns, all processes", "One test makes one key in one process and does not look at it.",
     ["falcon/falcon.go", SRC + "katrng.c"], [("seeding from the system, lock around the generator", "falcon/falcon.go")], ["all drawn keys and salts"],
     "uniqueness monitor across goroutines and processes; ThreadSanitizer on the C side, -race on the Go side", "Held on the executed schedules.")
prop("G03", "The chain precompile answers every input and only accepts valid signatures",
     "For every input the precompile returns an error (undecodable input) or a 32-byte word that is one exactly when the three decoded strings are a valid signature, its message and key; it never panics, leaves its input alone and answers alike when called concurrently. It is active at address 0x13 from the Prague rules on, and its gas, charged before it runs, depends only on the size of the input.",
     ["inputs", "schedules", "configurations"], "all byte strings as call data, all fork rules", "No test runs it.",
     ["geth/contracts.go", "falcon/falcon.go"], [("decoding and verification", "geth/contracts.go")], ["returned words, errors, panics"],
     "extracted precompile and table under Go's race detector and ASan on hostile and concurrent call data; oracle: independent decoder and verifier", "go-ethereum's abi, common, params and tracing packages and the other contracts are stand-ins.")

prop("G04", "Adding the Falcon precompile leaves the chain's other precompiles as they were",
     "At every fork the table holds exactly the precompiles of its EIPs, at their addresses. For every input and gas, each of 0x01-0x0a and 0x0b-0x11 asks the price of its EIP, runs only when it is paid in full and returns exactly the rest, refuses exactly the inputs its EIP refuses and otherwise answers with the specified bytes; it leaves its input alone, shares no memory with it and answers alike when called concurrently.",
     ["inputs", "configurations", "schedules"], "all fork rules, addresses, inputs and amounts of gas", "No test runs the table.",
     ["geth/contracts.go"], [("tables of the forks", "geth/contracts.go"), ("RunPrecompiledContract and the contracts' RequiredGas and Run", "geth/contracts.go")],
     ["returned bytes, errors, remaining gas, tracing calls, panics, the tables"],
     "the whole file driven on hostile and concurrent calls, plain and under Go's race detector; oracle: independent model of the EIPs", "go-ethereum, gnark-crypto and x/crypto are stand-ins: groups, ecrecover and BLAKE2b's F are real, pairings, maps to the curve, RIPEMD-160, Keccak-256, KZG proofs and the discount tables are recognisable substitutes.")

# ------------------------------------------------------------------------------------------------ Python reference
PY = "pythonref/"
STANDIN = " The polyntt package is not installable here; a stand-in with its interface (/verif/stubs) replaces it."
prop("P01", "What the Python reference signs, it verifies or recovers, for its message only",
     "For every degree, key, message up to the documented limit, hash choice and randomness, sign returns a signature of the fixed documented length, in finite time, that verify (or recover) accepts for this message and key and rejects for any other message, key or hash choice; equal randomness gives equal signatures and the randomness of the system gives fresh ones.",
     ["inputs", "configurations"], "all degrees, keys, messages, hash choices, random streams, and the plain, key-recovery and compact variants",
     "The tests sign a few short messages at one or two degrees and never look at the limit, the lengths or reproducibility.",
     [PY + "falcon.py", PY + "falcon_recovery.py", PY + "falcon_epervier.py"], [("signing loop", PY + "falcon.py"), ("recovery variants", PY + "falcon_recovery.py, falcon_epervier.py")],
     ["return values of sign, verify, recover"], "round-trip and replay monitor on the real classes, keys of every degree", "Held on the executed key/message/stream samples." + STANDIN)
prop("P02", "Python verification accepts exactly what the Falcon predicate accepts",
     "For every degree, public key, message, signature bytes and hash choice, verify is True exactly when the header names the degree, the rest, no longer than documented, is the canonical encoding of a vector s1 followed by zero bits only, and the centred c - s1*h together with s1 has squared norm at most the bound; every other byte string gives False, never an exception.",
     ["inputs"], "all byte strings, public keys and messages, each degree, norms on both sides of the bound",
     "The tests feed it genuine signatures only.",
     [PY + "falcon.py", PY + "encoding.py"], [("verify", PY + "falcon.py"), ("decompress", PY + "encoding.py")], ["verdicts and exceptions of verify"],
     "differential monitor against an independent model on mutated signatures and exact-norm forgeries", "Held on the sampled forgeries and mutations; forged public keys reach every norm." + STANDIN)
prop("P03", "Python key recovery names a key only for signatures valid under it",
     "recover returns the address of the key (s0, s1) determine exactly when header, encoding, inverse hint, invertibility and norm are right, and verify accepts exactly when the recovered address is the given one; all other inputs are refused without an exception, whatever address they are checked against.",
     ["inputs"], "all byte strings, messages and addresses, both recovery variants, each degree", "The tests recover genuine signatures only.",
     [PY + "falcon_recovery.py", PY + "falcon_epervier.py"], [("recover", PY + "falcon_recovery.py, falcon_epervier.py")], ["recovered addresses, verdicts and exceptions"],
     "differential monitor against an independent model on mutated and exact-norm forged signatures", "Held on the sampled forgeries and mutations." + STANDIN)
prop("P04", "The Python and the C reference are the same scheme",
     "From the same key and random bytes both produce the same signature; both derive the same key from the same seed (up to the (f, g) on which C's fixed-size solver gives up); each decodes the other's keys; both give the same verdict on every signature and recover the same key; the published vectors are reproduced.",
     ["inputs", "configurations"], "all seeds, keys, messages and random streams, with SHAKE and with Keccak", "Both are tested apart, on fixed vectors.",
     [PY + "falcon.py", PY + "ntrugen.py", PY + "ffsampling.py", PY + "rng.py", SRC + "sign.c", SRC + "keygen.c"],
     [("signing", PY + "falcon.py, ffsampling.py, rng.py"), ("key generation", PY + "ntrugen.py, mkgauss.py")], ["keys, signatures and verdicts of both implementations"],
     "differential monitor between the two real implementations on scripted randomness", "A defect that both share is out of its reach (see P02, C02)." + STANDIN)
prop("P05", "The Python encodings are bijections onto canonical byte strings",
     "Signature compression, the fixed-width encodings of h, f, g, F and the serialised keys map each in-range value to one documented byte string and back; every other byte string (wrong length, header, padding, out-of-range or forbidden value) and every value out of range is refused with the documented answer, and no two byte strings decode to one value, except that the signature decoder takes its input with or without final zero bytes.",
     ["inputs"], "all values and byte strings, at every degree and length, degree 2 and 4 small cases exhaustively", "The tests round-trip a few random values.",
     [PY + "encoding.py", PY + "falcon_codec.py", PY + "falcon.py"], [("compress and decompress", PY + "encoding.py"), ("key codecs", PY + "falcon_codec.py, falcon.py")],
     ["encodings, decodings, refusals"], "differential monitor against bit-string models, with an exhaustive sweep of short strings", "Longer strings are sampled with boundary and one-bit mutations." + STANDIN)
prop("P06", "The Python hashes and generators are the documented functions of all their input",
     "SHAKE256, Keccak-256, the Keccak and BLAKE2s counter generators, KeccaXOF, BLAKE2s and the hash to a point return exactly the documented bytes or residues however input and reads are split into calls, refuse use out of order and never truncate or ignore input.",
     ["inputs", "histories"], "all inputs, all splittings into calls, all sequences of update, flip, read and copy", "The tests compare fixed vectors mostly in one call.",
     [PY + "shake.py", PY + "keccak.py", PY + "keccak_prng.py", PY + "keccaxof.py", PY + "blake2s_prng.py", PY + "blake2s/blake2s.py", PY + "falcon.py"],
     [("sponges and counters", PY + "keccak.py, keccak_prng.py, keccaxof.py, blake2s_prng.py"), ("hash_to_point", PY + "falcon.py")],
     ["streams, points, exceptions along random call histories"], "differential monitor along random call histories against hashlib, pycryptodome and models", "Histories are random and bounded.")
prop("P07", "Python lattice arithmetic is exact enough, signatures nearest-plane samples",
     "At every degree the FFT operations equal ring arithmetic within 1e-11, the signing tree is the Gram-Schmidt decomposition of the key's basis with leaves sigma over their norms, and the signature is the point the specified nearest-plane sampler gives for the same key, target and sampler answers, retried exactly while the norm or encoded length does not fit.",
     ["inputs"], "all keys, targets and sampler answers at each degree from 2 to 1024", "The tests check final signatures verify, which wrong distributions also do.",
     [PY + "fft.py", PY + "ffsampling.py", PY + "falcon.py"], [("fft", PY + "fft.py"), ("tree and sampling", PY + "ffsampling.py"), ("sample_preimage", PY + "falcon.py")],
     ["transforms, tree leaves, targets and answers of the sampler, final signatures"], "sampler calls recorded and replayed through an independent QR nearest-plane model", "Floating-point comparison with tolerances far below the sampler's resolution." + STANDIN)
prop("P08", "The Python samplers are the specified functions of their random bytes",
     "ApproxExp, BerExp, the base sampler, SamplerZ, the key-coefficient sampler, ChaCha20 and the AES-CTR generator return exactly what the specification defines for every centre, deviation, seed, read size and random stream, and the samplers' outputs follow the specified discrete Gaussians.",
     ["inputs", "histories"], "all centres, deviations, seeds, streams and read sequences", "The tests run fixed vectors and a chi-square of one centre.",
     [PY + "samplerz.py", PY + "mkgauss.py", PY + "rng.py", PY + "drbg/aes256_ctr_drbg.py", PY + "ntrugen.py"],
     [("samplers", PY + "samplerz.py, mkgauss.py"), ("generators", PY + "rng.py, drbg/aes256_ctr_drbg.py")],
     ["values, bytes consumed, empirical distributions"], "scripted-randomness differential monitor against exact integer and rational models, and goodness-of-fit monitor", "Statistical thresholds are set at 1e-12 per test.")
prop("P09", "Python keys are valid and well-shaped, and their big-integer steps exact",
     "Every generated key satisfies f*G - g*F = q exactly, has f invertible, Gram-Schmidt norm at most 1.17 sqrt(q) and F, G reduced; unsuitable candidates are passed over and the first suitable one is taken; ring products, norms, gcd and reduction are exact on integers of any size, and coprime norms are always solved.",
     ["inputs"], "all random streams, degrees and candidate polynomials, coefficients of thousands of bits", "The tests generate a key or two and sign with it.",
     [PY + "ntrugen.py", PY + "falcon.py"], [("ntru_gen, ntru_solve, reduce", PY + "ntrugen.py"), ("gen_poly, poly_small_mkgauss", PY + "ntrugen.py, mkgauss.py")],
     ["keys, candidates taken and refused, intermediate products"], "exact-arithmetic monitor (Kronecker products, resultants) on generated keys, scripted candidates and the steps", "Sampled." + STANDIN)
prop("P10", "The Python command line signs, verifies and calls with what it was given",
     "For each version, key files, signatures, verdicts, transaction hashes and the arguments handed to the contracts are those of the given key, message and transaction; verify never says valid for an invalid signature. Derandomised signatures are equal for equal key and message, and otherwise use unrelated randomness that depends on the secret key.",
     ["inputs", "configurations"], "all versions, keys, messages, transactions, signature files", "No test runs it.",
     [PY + "sign_cli.py", PY + "sig_sol.py"], [("commands", PY + "sign_cli.py"), ("derandomised signing", PY + "sign_cli.py"), ("ABI output", PY + "sig_sol.py")],
     ["files, output, recorded arguments of cast, random bytes read"], "end-to-end monitor of the real commands in a scratch directory with a recording stand-in for cast; oracle: independent verifier, ABI and packing models",
     "cast is a stand-in: nothing is sent." + STANDIN)
prop("P11", "The vector generators write correct vectors, the committed ones included",
     "Run as they are, the generators write the literals of the committed Solidity tests; for any messages and salts, every vector they write (key, packed signature, hint, recovered address, hashed point) is correct under the documented scheme, and so is every committed vector. The answer-file generator's records repeat request and key and carry valid signatures, and forgery.py prints one signature that fits two readings of salt and message.",
     ["inputs"], "all messages and salts the generators can be given", "The vectors are the tests: nothing checks them independently.",
     [PY + "generate_falcon_test_vectors.py", PY + "generate_epervier_test_vectors.py", PY + "generate_hashtopoint_test_vectors.py", PY + "generate_falcon_core_test_vectors.py", PY + "common.py", PY + "scripts/generate_kat_rsp.py", PY + "forgery.py"],
     [("generators", PY + "generate_*_test_vectors.py")], ["generated files"], "generators run in scratch directories with varied randomness and messages; output parsed and judged by an independent model",
     "The generators' one key." + STANDIN)

prop("P12", "The parameters in use are those the security targets give",
     "For every degree, the deviations, norm bound and signature length that the Python and the C code use are the specified function of degree, modulus, smoothing target and tail-cut rate. The parameter script derives every value it reports so, for any degree and security target it accepts, and accepts exactly those whose samplers stay below the maximal deviation.",
     ["inputs", "configurations"], "all degrees, all security targets", "No test runs the script; a wrong constant used by signer and verifier alike passes every round trip.",
     [PY + "scripts/parameters.py", PY + "falcon.py", SRC + "common.c"], [("derivation", PY + "scripts/parameters.py"), ("tables", PY + "falcon.py; " + SRC + "common.c")],
     ["attributes of FalconParam, Params, the C verifier's decision at each norm"], "independent derivation in 60-digit decimals; the C bound is found by bisection on its verdict",
     "Block sizes within 1e-9 of a tie are not judged.")
prop("P13", "The sampler test suite tells Gaussian samples from others and reports truly",
     "For every list of integers, centre and deviation the suite reports the true moments, histogram and outliers, the chi-squared statistic of the merged buckets and its p-value, and calls the list valid exactly when the p-value is above the threshold and no sample is an outlier. For every table of samples it reports the normalised covariance, the statistics and p-values of Doornik and Hansen's test and of the diagonals its description names, and the number of Gaussian coordinates; files are read as written. It never fails on samples of the distribution and calls true samples invalid no more often than its threshold says.",
     ["inputs"], "all lists and tables of samples, centres and deviations", "No test runs it; it is the tool that judges the sampler.",
     [PY + "scripts/saga.py"], [("UnivariateSamples, MultivariateSamples, doornik_hansen, diagcov, parse_multivariate_file", PY + "scripts/saga.py")],
     ["attributes, printed reports, exceptions"], "independent statistics in plain Python on true and doctored samples",
     "pandas and matplotlib are stand-ins, numpy and scipy the installed ones; expected bucket sizes may be rounded. test_sig, qqplot and the plots are not judged.")

# ------------------------------------------------------------------------------------------------ Solidity contracts
SOL = "src/"
TRANS = " solc and an EVM are not installable here; the contracts run translated from their source by /verif/vh/sol (checked against every test of the repository)."
prop("S01", "On-chain verify accepts exactly the canonical short solutions",
     "For every salt, message, signature and key words, verify of ZKNOX_falcon and ZKNOX_ethfalcon is true exactly when the salt has 40 bytes, s2 and the key 512 coefficients, every coefficient of s2 is below q, and (H(salt,message) - s2 h, s2) has squared norm at most the published bound; everything else is refused. falcon_core, on an already hashed point, decides the same.",
     ["inputs"], "all salts, messages, s2 words (lanes above q included) and key words, at the bound exactly",
     "The tests verify genuine vectors and a handful of changed ones; the norm loop skipped coefficients on the base tree and every test passed.",
     [SOL + "ZKNOX_falcon.sol", SOL + "ZKNOX_ethfalcon.sol", SOL + "ZKNOX_falcon_core.sol", SOL + "ZKNOX_falcon_utils.sol"],
     [("length checks", SOL + "ZKNOX_falcon.sol, ZKNOX_ethfalcon.sol"), ("range and norm", SOL + "ZKNOX_falcon_core.sol"), ("transform", SOL + "ZKNOX_NTT_falcon.sol")],
     ["return value or revert of verify and falcon_core"], "oracle: independent verifier on forged keys at every norm, coefficient and length, contracts executed by an interpreter of their source",
     "Sampled; every coefficient is made to decide the norm." + TRANS)
prop("S02", "On-chain recover names the one key under which the pair is valid",
     "For every salt, message, s1, s2 and hint, recover of ZKNOX_epervier and ZKNOX_ethepervier returns the address of the transform of (H(salt,message) - s1)/s2 when s2 is invertible, the hint is the inverse of the product of its transform values, all values are canonical and the squared norm of (s1,s2) is within the bound. Anything else reverts or returns zero, never another address.",
     ["inputs"], "all salts, messages, s1, s2, hints, non-invertible and non-canonical ones included",
     "The tests recover from genuine vectors only.",
     [SOL + "ZKNOX_epervier.sol", SOL + "ZKNOX_ethepervier.sol", SOL + "ZKNOX_falcon_utils.sol", SOL + "ZKNOX_NTT_falcon.sol"],
     [("recover", SOL + "ZKNOX_epervier.sol, ZKNOX_ethepervier.sol"), ("HashToAddress", SOL + "ZKNOX_epervier.sol")],
     ["address returned or revert of recover"], "oracle: independent recovery on forged pairs, contracts executed by an interpreter of their source", "Sampled." + TRANS)
prop("S03", "The contracts' hashes are the documented functions of all their input",
     "For every input, output length and split into calls, the contracts' SHAKE256 gives the FIPS 202 stream, its permutation is Keccak-f[1600], and the three hash-to-point functions give the documented rejection-sampled point of salt and message, for every stream value including those at the rejection limit.",
     ["inputs", "histories"], "all inputs, splits and streams", "The tests hash fixed strings; no stream in them has a value at the rejection limit.",
     [SOL + "ZKNOX_shake.sol", SOL + "ZKNOX_HashToPoint.sol"], [("sponge", SOL + "ZKNOX_shake.sol"), ("rejection sampling", SOL + "ZKNOX_HashToPoint.sol")],
     ["digests, streams, points"], "differential monitor against hashlib and an independent model, inputs searched for rejection-limit values; contracts executed by an interpreter of their source", "Sampled." + TRANS)
prop("S04", "On-chain transforms and packing are exact, and frozen tables stay",
     "The transforms, products and vector operations of the NTT contracts and libraries equal arithmetic in Z_q[X]/(X^512+1) for every polynomial, and packing and unpacking are inverse; operands of unequal length are refused. After make_immutable no call changes the tables.",
     ["inputs", "histories"], "all polynomials, and all sequences of update, make_immutable and use", "The tests use one or two polynomials and never update after freezing.",
     [SOL + "ZKNOX_NTT.sol", SOL + "ZKNOX_NTT_falcon.sol", SOL + "ZKNOX_falcon_utils.sol", SOL + "ZKNOX_common.sol"],
     [("NTT", SOL + "ZKNOX_NTT.sol, ZKNOX_NTT_falcon.sol"), ("packing", SOL + "ZKNOX_falcon_utils.sol, ZKNOX_common.sol"), ("is_immutable", SOL + "ZKNOX_NTT.sol")],
     ["values returned, and the tables in force after each call of a history"], "differential monitor on polynomials and monitored random call histories; contracts executed by an interpreter of their source", "Sampled. Who may call update is not restricted by the code and not claimed." + TRANS)
prop("S05", "The contracts' decoders read each value from one string only",
     "_decompress_sig reads exactly the canonical padded encodings of 512 coefficients that lie within the buffer, as coefficients mod q; the public-key decoder reads exactly 14-bit values below q; decompress_KAT returns key, salt, s2 and message of a NIST signed message exactly when all lengths and headers fit. Everything else reverts.",
     ["inputs"], "all byte strings, offsets and lengths", "The tests decode the committed known-answer files.",
     [SOL + "ZKNOX_falcon_encodings.sol", SOL + "ZKNOX_falcon_utils.sol"], [("_decompress_sig, decompress_KAT", SOL + "ZKNOX_falcon_encodings.sol"), ("_ZKNOX_NTT_Decompress", SOL + "ZKNOX_falcon_utils.sol")],
     ["values or revert"], "oracle: independent decoder on encoded, mutated, truncated and non-canonical strings; contracts executed by an interpreter of their source", "Sampled; every bit position of sampled encodings is flipped over the run." + TRANS)
prop("S06", "Stored keys come back as stored, and ERC-7913 accepts only their signatures",
     "setKey and DeployPolynomial store exactly the given words at the address they return, whatever was stored before, and Deploy stores the transform tables. The ERC-7913 entry point answers its selector exactly for signatures (40-byte salt and 32 words) of the hash that are valid under the key stored at the named address, and otherwise refuses.",
     ["inputs", "histories"], "all keys, histories of stores, hashes, signature bytes and key addresses (empty accounts included)", "The tests store one key and verify one signature.",
     [SOL + "ZKNOX_falcon.sol", SOL + "ZKNOX_ethfalcon.sol", SOL + "ZKNOX_falcon_deploy.sol", SOL + "ZKNOX_common.sol"],
     [("setKey, verify(bytes,bytes32,bytes)", SOL + "ZKNOX_falcon.sol, ZKNOX_ethfalcon.sol"), ("Deploy, DeployPolynomial", SOL + "ZKNOX_falcon_deploy.sol")],
     ["addresses, account code, answers"], "monitored histories on one simulated chain, answers compared with an independent verifier; contracts executed by an interpreter of their source",
     "Sampled. lib/InterfaceVerifier is empty here; its interface is a stand-in." + TRANS)
prop("S07", "The recursive fork's verifier and arithmetic are right for every input",
     "verify and verify_nttpub of external/ETHFalcon_Recursive.sol succeed for signatures (40-byte salt, 512 coefficients of absolute value below q) whose squared norm is below the bound and revert when lengths differ or the norm exceeds it; its transforms and vector operations equal ring arithmetic for every supported length. Changing, adding or moving a byte of salt or message makes it revert.",
     ["inputs"], "all salts, messages, coefficients (huge integers included) and keys", "No test covers the fork.",
     ["external/ETHFalcon_Recursive.sol", "external/NTT_Recursive.sol"], [("verify, verify_nttpub", "external/ETHFalcon_Recursive.sol"), ("NTT", "external/NTT_Recursive.sol")],
     ["address or revert"], "oracle: independent verifier on forged pairs; contracts executed by an interpreter of their source", "Sampled. A norm equal to the bound is not judged." + TRANS)

prop("S08", "The storage library gives back every blob as it was written",
     "SSTORE2.write puts any data that fits in a contract behind a new address and reverts with WriteError when it does not fit; read returns exactly those bytes, whole or the requested slice cut at the end of the data, and reverts when a slice within the data ends before it starts. A blob cannot be called or changed; SSTORE2Map does the same by key: a key is written once, and text keys stand for their hash.",
     ["inputs", "histories"], "all data, slices, keys and orders of writes and reads", "The library's own tests need a network to run and sample a few sizes.",
     ["lib/sstore2/contracts/SSTORE2.sol", "lib/sstore2/contracts/SSTORE2Map.sol", "lib/sstore2/contracts/utils/Bytecode.sol"],
     [("write, read", "lib/sstore2/contracts/SSTORE2.sol, SSTORE2Map.sol"), ("creation code, code reading", "lib/sstore2/contracts/utils/Bytecode.sol")],
     ["returned bytes or reverts, code at the pointer"], "monitor of write and read histories against a model in which blobs and keys are plain byte strings; the libraries executed by an interpreter of their source on a memory that is not clean",
     "Sampled. Slices at offset 2^256-1 may be refused. create3 is a stand-in." + TRANS)

prop("S09", "Deployment script and Python signer end well only when what they set up works",
     "The deployment script creates ZKNOX_epervier once, at its salted address, between the start and the end of the broadcast, and ends well exactly if the created contract recovers the key of the built-in vector. PythonSigner.sign runs sig_sol.py with exactly its arguments and returns a key, salt and signature that the contract of the chosen hash accepts and the other one refuses.",
     ["inputs", "faults"], "all messages, seeds and modes; any behaviour of the created contract", "They need forge, a network and a Python environment; no test runs them.",
     ["script/DeployEPERVIER.s.sol", "script/BaseScript.sol", "src/ZKNOX_PythonSigner.sol", "pythonref/sig_sol.py"],
     [("self test of the deployed contract", "script/DeployEPERVIER.s.sol"), ("FFI call and decoding", "src/ZKNOX_PythonSigner.sol")],
     ["contracts created, reverts, commands run, decoded results"], "monitored runs with the created contract replaced by faulty ones; the real sig_sol.py behind the FFI cheat code, verdict by the contracts", "Sampled. forge-std is a stand-in." + TRANS)

prop("X01", "What the off-chain signers sign, the contract of the same hash accepts",
     "A signature made by the Python or C reference, in any of its formats, or by the command line, once brought into the contracts' format by the documented steps, is accepted by the contract of the same hash under the signer's key (for recovery, names the signer's address). It is refused by the contract of the other hash and for any other message, salt or key, and the command line reports the contract's answer.",
     ["inputs", "configurations"], "all keys, messages and random streams, both hashes, all three formats and the command line", "Each test uses vectors generated once by one implementation.",
     [SOL + "ZKNOX_falcon.sol", SOL + "ZKNOX_ethfalcon.sol", SOL + "ZKNOX_epervier.sol", SOL + "ZKNOX_ethepervier.sol", SOL + "ZKNOX_falcon_encodings.sol", PY + "falcon.py", PY + "falcon_epervier.py", PY + "sign_cli.py", SRC + "nist.c", SRC + "nist16.c"],
     [("on-chain formats", SOL + "ZKNOX_falcon_utils.sol, ZKNOX_falcon_encodings.sol"), ("off-chain formats", PY + "sign_cli.py, " + SRC + "codec.c")],
     ["answers of the contracts, output of the command line"], "end-to-end differential monitor: signatures of each implementation handed to the contracts, executed by an interpreter of their source", "Sampled." + TRANS + STANDIN)

# ------------------------------------------------------------------------------------------------ WebAssembly
prop("J01", "falcon.js keeps the promises of the word-oriented interface",
     "For every seed of 32 bytes or more falcon.js makes one sound key pair in which every byte of the seed counts; what it signs it opens, and its verdicts are those of the Falcon predicate. It writes only within the documented sizes, and no two processes make the same unseeded keys or salts.",
     ["inputs", "histories"], "all seeds, messages, signed messages, public keys, and process histories", "The test script signs one message with one seed.",
     ["falcon/falcon.js", SRC + "nist16.c", "falcon/makefile"], [("exported calls", "falcon/falcon.js"), ("their source", SRC + "nist16.c")],
     ["return codes and buffers of the exported calls"], "oracle: independent verifier and exact NTRU equation; canaries around each buffer; several node processes compared",
     "Runs the committed build as it is; four defects of it that need a rebuild are known findings.")

prop("H01", "The Poseidon2 wrappers pass on 24 words and their result, exactly",
     "For every input of 24 words both Rust wrappers and their Python caller hand each word, reduced modulo the BabyBear prime and in order, to the permutation of their documented instance, and return its 24 canonical words. They read and write nothing else, also with several callers at once; the Python caller refuses other lengths with ValueError.",
     ["inputs", "schedules"], "all 24-word inputs, reduced or not, and concurrent calls", "The test program prints one value.",
     ["hash/src/poseidon2_EF/src/lib.rs", "hash/src/poseidon2_Plonky3/src/lib.rs", "hash/src/python/poseidon2.py"],
     [("wrapper", "hash/src/poseidon2_EF/src/lib.rs"), ("wrapper", "hash/src/poseidon2_Plonky3/src/lib.rs"), ("Python caller", "hash/src/python/poseidon2.py")],
     ["the memory around input and output", "the 24 output words"], "the wrappers compiled against stand-in crates whose mixing shows each word and place; oracle: that mixing in Python; unreadable pages around the arrays",
     "The crates cannot be fetched: their permutation itself is not decided (N01).")

# ------------------------------------------------------------------------------------------------ not decided
prop("N01", "The Poseidon2 wrappers compute the named permutation",
     "For every 24-word input the wrapper of each back end returns the BabyBear Poseidon2 permutation of the documented round constants.",
     ["inputs"], "all inputs", "The test program prints one value.", ["hash/src/poseidon2_Plonky3/src/lib.rs", "hash/src/poseidon2_EF/src/lib.rs"],
     [("wrappers", "hash/src")], ["the 24 output words"], "none", "")
NA = {"N01": "the Rust crates it wraps (Plonky3, Horizen/EF poseidon2) are git dependencies that cannot be fetched or built offline, so the permutation cannot be run; what the wrappers themselves do is H01"}
