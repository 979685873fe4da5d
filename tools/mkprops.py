#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that it stays readable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mechanism, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=list(over), text=text),
                  why_tests_cant=why,
                  anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               mechanism=[dict(name=a, where=b) for a, b in mechanism],
                               observe_at=list(observe), hook_needed=hook)))

p('C01', 'Generated keys are entirely OS entropy, whatever the source does',
  'When random key or random field element generation returns, every byte of the result was delivered by the operating system entropy source during that same call, each in its own place, and nothing outside the result was written. '
  'This holds when the source delivers short reads, is interrupted by signals, fails or cannot be opened: the call retries or stops the program, it never returns a buffer that is partly unfilled, stale, repeated or predictable. '
  'The call leaves no descriptor open, closes none it did not open, and completes as soon as the source delivers again.',
  ['fault_sequences', 'histories', 'inputs'],
  'Every sequence of open/read/close outcomes of the entropy source (full, short, zero-length, EINTR, EIO, EAGAIN, EMFILE, ENFILE, ENOENT, descriptor 0), every key kind, every buffer position, every number of successive calls.',
  'The tests call the generators a few times against a healthy /dev/urandom; no test sees a short read, an interruption or a failure, and none looks at which bytes came from the source.',
  ['third_party/prng.c', 'src/bytestring.c', 'src/ladder255.c', 'src/ladder448.c', 'src/sign255.c', 'src/sign448.c', 'src/eltfp25519_1w_fullradix.c', 'src/eltfp25519_1w_redradix.c', 'src/eltfp448_1w_fullradix.c', 'src/eltfp448_1w_redradix.c'],
  [('read loop until the request is complete', 'third_party/prng.c: prgn_random_bytes'), ('randKey / rand dispatch', 'src/bytestring.c: random_bytes')],
  observe=['contents of the key buffer and of its surroundings', 'open descriptors', 'calls made to the operating system'])

p('C02', 'Concurrent calls do not affect each other',
  'Any calls of the library made by different threads at the same time, each with its own output buffers and possibly sharing read-only inputs, return exactly the values and write exactly the bytes they would if made one after the other. '
  'No locking or initialisation by the caller is needed, for any mix of operations and any interleaving.',
  ['schedules', 'inputs', 'histories'],
  'Every interleaving, down to individual memory accesses, of every mix of two or more calls of the public API, including the very first calls of the process.',
  'No test uses threads; the absence of hidden shared state is a convention, and a static scratch buffer, cache or lazily built table passes all sequential tests.',
  ['src/target.c', 'src/sign255.c', 'src/sign448.c', 'src/ladder255.c', 'src/ladder448.c', 'src/hash255.c', 'src/edwards255.c', 'src/edwards448.c', 'third_party/sha512.c', 'third_party/sha3.c', 'third_party/sha512_2way.c'],
  [('all working storage is automatic; tables are const', 'src/*.c, third_party/*.c')],
  observe=['return codes and output buffers of every thread'])

p('C03', 'Interrupted or abandoned calls do not affect any other call',
  'If a call is interrupted at any instant of its own execution, as by a signal handler or a user-level scheduler on the same thread, any other complete calls run to their right result inside the interruption, and the interrupted call then also finishes with its right result. '
  'If a call is abandoned at any such instant and never resumed, every later call still gives its right result. '
  'Services of the host (heap allocation, stream output, system calls) count as one instant.',
  ['schedules', 'crash_points', 'histories'],
  'Every point of every call at which it may be suspended or abandoned; every sequence of calls run inside the suspension or after the abandonment, including calls of the same kind and with the same inputs.',
  'Tests run each call to completion; no test suspends, re-enters or abandons a call.',
  ['src/target.c', 'src/sign255.c', 'src/sign448.c', 'src/ladder255.c', 'src/ladder448.c', 'src/hash255.c', 'third_party/sha512.c', 'third_party/sha3.c'],
  [('all working storage is automatic; nothing is published before it is complete', 'src/*.c, third_party/*.c')],
  observe=['return codes and output buffers of interrupted, nested and later calls'])

p('C04', 'Incremental hashing equals one-shot hashing for every history',
  'For SHA-384, SHA-512, SHA3-256 and SHAKE, feeding a message in any number of pieces of any sizes (including empty ones), with any number of other contexts interleaved, gives the digest of the whole message. '
  'A context can be copied, moved, saved and restored byte by byte, abandoned and initialised again, or used again after closing, at any point, without influencing any digest; the same digests come from the one-shot and two-lane entry points.',
  ['histories', 'inputs', 'crash_points'],
  'Every partition of every message, every interleaving of operations on several contexts, every point at which a context is copied, moved, restored after a crash, reset or reused.',
  'The tests hash a handful of messages in one piece on one context; block-boundary carry-over, cloning, resetting and reuse histories are never exercised.',
  ['third_party/sha512.c', 'third_party/sha512.h', 'third_party/sha3.c', 'third_party/sha3.h', 'third_party/sha512_2way.c'],
  [('buffered block update', 'third_party/sha512.c: sph_sha512'), ('sponge update', 'third_party/sha3.c: Update'), ('re-initialisation on close', 'third_party/sha512.c: sph_sha512_close')],
  state=[('sph_sha512_context', 'partial block, chaining value, byte count', 'third_party/sha512.h'), ('hashState', 'sponge state, position, rate', 'third_party/sha3.h')],
  observe=['digest buffers', 'context contents'])

p('C05', 'A delivered signed message verifies iff it is exactly what was signed',
  'Over a network that corrupts, truncates, extends, splices, duplicates, reorders or replays what it carries, between nodes that crash and restart, verification accepts a delivered (scheme, public key, context, message, signature) exactly when each of them is bit for bit what an honest signer signed and published, and it answers the same every time. '
  'In particular any change of any single bit of the signature, key, context or message, any shift between context and message, any mix-up of schemes or prehash modes, and any other encoding of the same scalar is refused; where the standard itself accepts a signature without a signer, which needs a public key of small order that no honest signer publishes, the answer of the standard is the right one.',
  ['fault_sequences', 'inputs', 'histories'],
  'Every honest signing history of Ed25519 (pure, context, prehash) and Ed448 (context, prehash), every message and context length, and every sequence of network faults applied to what is delivered.',
  'The tests verify a few intact vectors and almost no altered ones; which of the 512 or 912 signature bits, which context lengths or which malleations are ignored cannot be seen from accepting vectors.',
  ['src/sign255.c', 'src/sign448.c', 'src/edwards255.c', 'src/edwards448.c', 'src/ed255.c', 'src/ed448.c', 'third_party/sha512.c', 'third_party/sha3.c'],
  [('domain separation prefix', 'src/sign255.c, src/sign448.c: *_sign_all, *_verify_all'), ('comparison of the recomputed commitment', 'src/sign255.c, src/sign448.c: memcmp in *_verify_all'), ('scalar range check', 'src/sign255.c, src/sign448.c: is_reduced_*')],
  observe=['return code of verify', 'signature bytes produced by sign'])

p('C06', 'Key agreement ends in the same secret iff the public values arrived intact',
  'Two parties that generate keys with any of the engines offered for their curve, exchange public values over a faulty network and crash and restart in between compute the same secret, whichever engine each of them uses at each step, when the values they used arrived intact. '
  'When a value was altered in transit the secrets differ, except for alterations the curve definition says to ignore, and each party gets exactly the secret the curve definition assigns to what it received, also for values that are out of range, of small order or all zero.',
  ['fault_sequences', 'inputs', 'histories'],
  'Every pair of private keys, every choice of engine per step, every sequence of corruption, loss, duplication, reordering, replay and crash-restart from stored keys, every byte string of the right size delivered as a public value.',
  'The tests run fixed vectors and a number of undisturbed exchanges; altered, non-canonical and degenerate public values and mixed engines across restarts are not covered.',
  ['src/ladder255.c', 'src/ladder448.c', 'src/dh255.c', 'src/dh448.c', 'src/eltfp25519_1w_fullradix.c', 'src/eltfp448_1w_fullradix.c'],
  [('clamping and masking of inputs', 'src/ladder255.c, src/ladder448.c'), ('Montgomery ladder', 'src/ladder255.c, src/ladder448.c')],
  observe=['public values and shared secrets', 'private key buffers after the call'])

p('C07', 'Running out of memory is reported or absorbed, never turned into damage',
  'Whenever an allocation made by the library fails, an allocation call returns a null pointer and a computing call still returns its right result; nothing is written through a bad pointer, nothing is freed twice and nothing is leaked. '
  'Buffers that are returned are aligned to 32 bytes, large enough for the object they are meant for, distinct from each other, and may be released in any order; releasing a null pointer does nothing.',
  ['fault_sequences', 'histories'],
  'Every set of failing allocations, every order of allocating, using and releasing keys, signatures and field elements of every kind, with computing calls in between.',
  'No test makes an allocation fail, frees in another order, or checks size, alignment or leaks.',
  ['src/bytestring.c', 'src/hash255.c', 'src/sign255.c', 'src/sign448.c', 'src/ladder255.c', 'src/ladder448.c', 'src/eltfp25519_1w_fullradix.c', 'src/eltfp25519_1w_redradix.c', 'src/eltfp25519_2w_redradix.c', 'src/eltfp25519_4w_redradix.c', 'src/eltfp448_1w_fullradix.c', 'src/eltfp448_1w_redradix.c', 'src/eltfp448_2w_redradix.c', 'src/eltfp448_4w_redradix.c'],
  [('aligned allocation and null-tolerant release', 'src/bytestring.c: allocate_bytes, deallocate_bytes'), ('sequential fallback', 'src/hash255.c: hash_to_field_2w')],
  observe=['returned pointers', 'heap blocks live after each call', 'results of computing calls'])

p('C08', 'The result of a call depends only on its inputs, not on history or residue',
  'The same call with the same inputs gives the same result at any time: whatever calls came before it (with related or equal inputs, failed ones included, in any number), whatever was left on the stack, in registers, on the heap and in the output buffers, wherever its buffers lie and whatever they held before, and before or after a restart of the process. '
  'That result is the one the standard for the operation prescribes.',
  ['histories', 'crash_points', 'inputs'],
  'Every history of calls preceding a call, every prior content of stack, registers, heap and output buffers, every placement of the buffers, every restart point.',
  'Tests make short fixed sequences of calls in a fresh process with clean memory, so caches, counters, reads of uninitialised storage and leftover output bytes go unnoticed.',
  ['src/target.c', 'src/sign255.c', 'src/sign448.c', 'src/edwards255.c', 'src/edwards448.c', 'src/ladder255.c', 'src/ladder448.c', 'src/hash255.c', 'third_party/sha512.c', 'third_party/sha3.c', 'third_party/sha512_2way.c'],
  [('no retained state; every local is written before it is read; every output byte is written', 'src/*.c, third_party/*.c')],
  observe=['return codes and output buffers'])

p('C09', 'A call touches only its own outputs: inputs never change, bounds are kept',
  'No call ever writes to any of its inputs, not even temporarily, nor to any byte outside its output objects, nor leaves changed any register that belongs to its caller, and no call reads beyond the stated length of a message, context, key or signature, whatever lengths (including zero) and positions those have. '
  'This holds when inputs are mapped read-only and when the memory directly before or after any buffer is inaccessible.',
  ['inputs', 'fault_sequences', 'histories'],
  'Every operation, every message and context length and alignment, every placement of each buffer against an inaccessible page on either side, inputs in read-only memory.',
  'Tests use generously placed stack or heap buffers in writable memory, where small overreads, overwrites and restored modifications of inputs have no visible effect.',
  ['src/sign255.c', 'src/sign448.c', 'src/ladder255.c', 'src/ladder448.c', 'src/edwards255.c', 'src/edwards448.c', 'src/hash255.c', 'third_party/sha512.c', 'third_party/sha3.c', 'third_party/sha512_2way.c', 'third_party/prng.c'],
  [('private copies of keys and points before clamping and masking', 'src/ladder255.c, src/ladder448.c, src/edwards255.c, src/edwards448.c'), ('explicit lengths in the hash update functions', 'third_party/sha512.c, third_party/sha3.c')],
  observe=['memory protection faults', 'canaries around outputs', 'contents of inputs'])

p('C10', 'Printing emits exactly the value; stream faults lose output only visibly',
  'Printing a key, signature, field element or point writes to the given stream, and nowhere else, 0x followed by its bytes in hexadecimal from most to least significant and a newline (one such line per lane or, labelled, per coordinate), for every value, any buffering and any sequence of short writes, and leaves the printed object unchanged. '
  'If the stream stops accepting data, for good or for a time, the call returns, nothing but text of the value is written, the stream error indicator is set whenever any of it was lost, and later output to a working stream is complete again.',
  ['fault_sequences', 'inputs', 'histories'],
  'Every printable object and value, every buffering mode and buffer size, every pattern of short writes and every point at which the stream fails for good.',
  'No test prints anything; benches print to a terminal.',
  ['src/bytestring.c', 'src/hash255.c', 'src/eltfp25519_1w_fullradix.c', 'src/eltfp25519_1w_redradix.c', 'src/eltfp25519_2w_redradix.c', 'src/eltfp25519_4w_redradix.c', 'src/eltfp448_1w_redradix.c', 'src/eltfp448_2w_redradix.c', 'src/eltfp448_4w_redradix.c'],
  [('hexadecimal printer', 'src/bytestring.c: print_hex_bytes'), ('lane by lane printers', 'src/eltfp*_*w_*radix.c: print')],
  observe=['bytes accepted by the stream', 'ferror', 'the printed object'])

p('C11', 'Rejected operations report the right code and leave no trace',
  'Signing or verifying with a context longer than 255 bytes reports the context error, verifying under bytes that decode to no public key of the scheme reports the public key error, verifying an invalid signature under a valid key reports the invalid signature, and signing and verifying intact data with contexts of 0 to 255 bytes reports success. '
  'An operation that is refused writes nothing to its outputs or inputs and does not alter the result of any other operation, however refused and accepted operations follow each other.',
  ['histories', 'inputs', 'fault_sequences'],
  'Every sequence of accepted and refused key generation, signing and verification calls of all schemes, every context length from 0 up to far beyond 255, every kind of malformed key and signature.',
  'Tests check one or two error returns at most, in isolation, and never look at buffers or later calls after an error.',
  ['src/sign255.c', 'src/sign448.c', 'src/edwards448.c', 'src/edwards255.c', 'include/faz_eddsa_avx2.h'],
  [('context length checks before any output', 'src/sign255.c, src/sign448.c: *_sign_all, *_verify_all'), ('point decoding', 'src/edwards448.c: point_decoding_ed448')],
  observe=['return codes', 'output buffers after a refused call', 'later results'])

p('C12', 'Replicas running different engines or builds never diverge',
  'Replicas that apply the same log of commands (key generation, signing, agreement, hashing, hashing to the curve, field and point computations) end in the same state whichever of the interchangeable implementations each of them uses for each command: scalar or vector code, one, two or four lanes in any lane position, builds for processors with or without the extended carry instructions. '
  'This holds across lost, duplicated and reordered deliveries, catch-up, and crash and restart with a change of implementation.',
  ['histories', 'configurations', 'fault_sequences', 'crash_points'],
  'Every command log, every assignment of implementations to replicas and commands, every delivery order, crash and catch-up history.',
  'Tests compare engines on a few random inputs within one build and never compare builds or mix engines within one computation.',
  ['src/fp255.c', 'src/fp448.c', 'src/ladder255.c', 'src/ladder448.c', 'src/hash255.c', 'src/edwards255.c', 'src/edwards448.c', 'src/eltfp25519_1w_fullradix.c', 'src/eltfp25519_1w_redradix.c', 'src/eltfp25519_2w_redradix.c', 'src/eltfp25519_4w_redradix.c', 'src/eltfp448_1w_fullradix.c', 'src/eltfp448_1w_redradix.c', 'src/eltfp448_2w_redradix.c', 'src/eltfp448_4w_redradix.c'],
  [('engine tables', 'src/fp255.c, src/fp448.c, src/dh255.c, src/dh448.c'), ('processor selection at compile time', 'src/eltfp25519_1w_fullradix.c, src/eltfp448_1w_fullradix.c')],
  observe=['replica state after every applied command'])

# --- not simulation targets -------------------------------------------------
p('C20', 'Field arithmetic is right for every pair of operands',
  'Addition, subtraction, multiplication, squaring, inversion, square roots, comparison and conversion in both prime fields are right for every operand representable in each engine.',
  ['inputs'], 'All operands of every operation of both fields.',
  'Tests sample random operands; the rare carries of the assembly paths need chosen or symbolic inputs.',
  ['src/eltfp25519_1w_fullradix.c', 'src/eltfp25519_1w_redradix.c', 'src/eltfp25519_2w_redradix.c', 'src/eltfp25519_4w_redradix.c', 'src/eltfp448_1w_fullradix.c', 'src/eltfp448_1w_redradix.c', 'src/eltfp448_2w_redradix.c', 'src/eltfp448_4w_redradix.c'],
  [('assembly and vector arithmetic', 'src/eltfp*.c')])
p('C21', 'Hashing to the curve always lands in the prime-order subgroup',
  'For every message the hash-to-curve functions return a point of the curve whose order divides the prime group order.',
  ['inputs'], 'All messages.', 'Tests sample messages.',
  ['src/hash255.c'], [('cofactor clearing', 'src/hash255.c: clear_cofactor')])
p('C22', 'What a call does is independent of its secrets, for any observer beside it',
  'For key generation, signing and key agreement, the sequence of instructions executed and of addresses accessed, and with it the time in instructions, is the same for any two private keys when the public inputs (public key, message, context, received value) are the same. '
  'This is what a process scheduled beside the call sees, at whatever instants it looks, whatever calls were made before (with the same key or another) and whatever calls it makes in between. '
  'It holds as well for hashing secret data of equal length, to a digest or to the curve, and for arithmetic, inversion and conditional moves of secret field elements.',
  ['inputs', 'schedules', 'histories'], 'Every pair of private keys of every scheme and engine, every choice of public inputs, every history of calls, every instant of observation.',
  'Tests look at results only: a branch on a key bit, a table look-up by a secret digit, an early exit or a cache of the last key gives the same results.',
  ['src/ladder255.c', 'src/ladder448.c', 'src/edwards255.c', 'src/edwards448.c', 'src/sign255.c', 'src/sign448.c', 'third_party/sha512.c', 'third_party/sha3.c', 'src/eltfp25519_1w_fullradix.c', 'src/eltfp448_1w_fullradix.c'],
  [('masked table look-ups', 'src/edwards255.c: query_table_*, src/edwards448.c: query_table_*'), ('conditional swaps without branches', 'src/ladder255.c, src/ladder448.c'), ('signed recoding without branches', 'src/edwards255.c, src/edwards448.c')],
  observe=['instruction addresses and operand addresses while a call runs', 'number of instructions of a call'])
p('C24', 'A private key used in key agreement survives only where its owner keeps it',
  'Once an X25519 or X448 key generation or key agreement has returned, no copy of its private key (twelve or more of its bytes in a row, clamped or not) is left in memory that the library used: not on the abandoned stack, not in blocks given back to the heap, not in static or thread-local memory. '
  'The same holds after the generation of a random private key of any scheme. '
  'A dump of the process taken by a crash at any instant after the call shows the key only in the buffer of its owner, for every key and received value, whatever calls were made before and after.',
  ['inputs', 'crash points', 'histories'], 'Every private key and received value, engine and build, every history of calls, every instant of the dump outside a call.',
  'Tests look at results only; a cleared copy that the optimiser drops, that is cleared in part, or that an added path forgets gives the same results.',
  ['src/ladder255.c', 'src/ladder448.c', 'src/bytestring.c', 'third_party/prng.c'],
  [('clearing that is not optimised away', 'src/bytestring.c: spc_memset'), ('clearing of the clamped copy', 'src/ladder255.c, src/ladder448.c: *_shared_*, *_keygen_*')],
  observe=['memory below the stack of the caller', 'released heap blocks', 'static and thread-local memory'])
p('C23', 'Signatures cannot be produced without the private key',
  'No feasible computation that sees public keys and signed messages produces a signature on another message.',
  ['inputs'], 'All adversaries.', 'A computational hardness claim.',
  ['src/sign255.c', 'src/sign448.c'], [('EdDSA', 'src/sign255.c, src/sign448.c')])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl')
with open(out, 'w') as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=False) + '\n')
