"""What each check runs."""
LIB = 'the whole library (src/*.c, third_party/*.c except cpu_caps.c) compiled from the working tree'
REAL = [LIB + ' with the flags of its CMake build, plus a build without ADX and one without ADX and BMI2']
STUB = ['heap (guarded, failing on order)', 'entropy device (open, read, close, getrandom, getentropy, stdio)', 'abort, exit, stdout and stderr of the library', 'clocks, rand, sleeping, locks of the library (unused by it today)']
REALC = [LIB + ', with a call in front of every memory access (gcc -O1 -fsanitize=thread with a run-time part of our own), inline assembly as it is']
STUBC = STUB + ['thread scheduling (real threads, one runs at a time)', 'interruptions (page traps, access hooks, single-stepping)']
TRUST = ['the reference models in sim/ref.hpp', 'the simulator and the compiler', 'sampling: a clean batch is evidence, not proof']

def part(world, quick, thorough, kind='ship', **k):
    d = dict(world=world, kind=kind, runs=dict(quick=quick, thorough=thorough))
    d.update(k)
    return d

def prop(parts, rule, measure, quick_s=200, thorough_s=3000, **k):
    d = dict(parts=parts, rule=rule, measure=measure, seconds=dict(quick=quick_s, thorough=thorough_s), real=REAL, stub=STUB, assumptions=TRUST)
    d.update(k)
    return d

PROPS = {
    'C01': prop([part('c01', 200000, 8000000)],
                'one run is a history of 1 to 40 random generations of every kind over an entropy source whose open, read and close results are drawn at random (full and short reads, zero, EINTR, EIO, failing opens, descriptor 0), with process restarts; every delivered byte is unique by position; non-trivial: at least one fault fired or two generations ran; distinct by event log',
                'distinct orders of generation kinds with their source faults',
                need=['read_short', 'read_EINTR', 'read_zero', 'read_EIO', 'open_EINTR', 'open_EMFILE', 'close_EINTR', 'descriptor_zero', 'process_restart', 'program_stopped']),
    'C02': prop([part('c02', 16000, 700000, kind='conc')],
                'one run is two to four threads calling the library, of which the simulator lets one run at a time and passes the turn at drawn memory accesses, accesses to memory that calls could share, single instructions and seams; each result is compared with the same call made alone; non-trivial: at least one switch or two calls; distinct by event log',
                'distinct sequences of switches (from, to, why, at which access)',
                need=['switch_any', 'switch_hot', 'switch_step', 'shared_inputs', 'read_short', 'read_EINTR'], quick_s=75, real=REALC, stub=STUBC),
    'C03': prop([part('c03', 32000, 1400000, kind='conc')],
                'one run is a thread whose calls are interrupted at drawn memory accesses, shared accesses and single instructions by other complete calls, up to three deep, or abandoned there; every call that ends is compared with the same call made alone; non-trivial: at least one interruption, abandonment or two calls; distinct by event log',
                'distinct sequences of interruptions and abandonments (which call, why, at which access)',
                need=['interrupt_any', 'interrupt_hot', 'interrupt_step', 'interrupt_nested', 'abandon_any', 'abandon_hot', 'abandon_step', 'abandon_nested', 'interrupted_call_finished', 'call_inside_finished', 'call_after_abandonment_finished', 'shared_inputs'], quick_s=75, real=REALC, stub=STUBC),
    'C04': prop([part('c04', 100000, 4000000), part('c04long', 20, 40)],
                'one run is a random interleaving of 1 to 8 hashing contexts (SHA-384, SHA-512, SHA3-256, SHAKE) with pieces of boundary and random sizes, copies, moves, torn saves, restores after restarts, abandonment, re-initialisation and reuse after closing; every digest is compared with a model fed the whole message, the one-shot and the two-lane entry points; long: messages whose bit or byte count passes 2^32 and outputs of 2^29 and 2^31 bytes; distinct by event log',
                'distinct orders of context operations',
                need=['process_restart', 'restored_from_disk', 'saved_to_disk', 'torn_save', 'context_abandoned', 'context_copied', 'context_moved', 'reset_in_use', 'used_after_close', 'empty_piece', 'message_of_2^32_bits', 'message_of_2^32_bytes', 'output_of_2^29_bytes', 'output_of_2^31_bytes']),
    'C05': prop([part('c05', 20000, 900000), part('c05long', 5, 10)],
                'one run is a network of signers and verifiers of all ten scheme and engine combinations exchanging signed messages, with corruption of every field, splices, replays, loss, duplication, delay, partitions and crashes with restart; each verdict is compared with whether the tuple is what an honest signer published; long: messages of more than 2^32 bytes; non-trivial: at least one delivery was judged; distinct by event log',
                'distinct orders of network events',
                need=['bits_flipped_sig', 'bits_flipped_pk', 'bits_flipped_ctx', 'bits_flipped_msg', 'truncated_ctx', 'truncated_msg', 'extended_ctx', 'extended_msg', 'context_message_shift', 'scheme_mixed_up', 'scalar_reencoded', 'commitment_altered', 'commitment_noncanonical', 'spliced_R', 'spliced_S', 'spliced_pk', 'halves_swapped', 'zeroed', 'replayed', 'message_lost', 'message_duplicated', 'message_delayed', 'partition_drop', 'signer_crash', 'verifier_crash', 'accepted', 'refused', 'checked_again_after_restart', 'replayed_delivery']),
    'C06': prop([part('c06', 11000, 500000)],
                'one run is two to four parties of one curve generating keys, exchanging public values over a faulty network and deriving secrets, each step with an engine drawn at random; secrets are compared with each other and with the reference ladder; non-trivial: at least one derivation; distinct by event log',
                'distinct orders of network events',
                need=['bits_flipped', 'special_value', 'prime_added', 'negated', 'replayed_value', 'party_crash', 'party_restart', 'message_lost', 'message_duplicated', 'message_delayed', 'partition_drop', 'intact', 'altered', 'altered_without_effect', 'derived_again_after_restart', 'duplicate_value_ignored', 'secret_aimed_at', 'value_of_runs']),
    'C07': prop([part('c07', 40000, 1800000)],
                'one run is a random history of computing calls, buffer allocations and releases over a guarded heap in which allocations chosen by ordinal or at random fail; non-trivial: at least one allocation failed or two calls ran; distinct by event log',
                'distinct orders of calls with the allocations that failed',
                need=['alloc_fail', 'null_released', 'null_returned', 'result_despite_failed_allocation']),
    'C08': prop([part('c08', 16000, 500000)],
                'one run is a random history of 6 to 40 calls of all operations over residue of every kind (stack, registers, heap, outputs), with restarts, repeated and related inputs and buffers at random places; every call is compared with the reference models; non-trivial: at least two calls were executed; distinct by event log',
                'distinct orders of operation kinds with their residue faults',
                need=['process_restart', 'stack_and_register_residue', 'output_residue', 'heap_residue', 'repeated_call']),
    'C09': prop([part('c09', 22000, 900000)],
                'one run is a random history of calls whose inputs are read-only pages and whose buffers end or begin at inaccessible pages, with failing allocations; any access outside is a fault of the processor, every output neighbourhood and every input is compared byte for byte; non-trivial: at least one guarded call; distinct by event log',
                'distinct orders of operation kinds with their placements',
                need=['guard_page', 'read_only_input', 'guard_before', 'guard_behind', 'alloc_fail']),
    'C10': prop([part('c10', 160000, 6000000)],
                'one run is a random history of prints of every printable kind to streams of every buffering whose write function accepts few bytes or fails (ENOSPC, EIO, EPIPE, EAGAIN, EINTR) at points drawn at random and recovers later, some of them in the middle of a file or held by their caller; the text is compared with the value; non-trivial: at least one print; distinct by event log',
                'distinct orders of prints with their stream faults',
                need=['write_short', 'write_ENOSPC', 'write_EIO', 'write_EPIPE', 'write_EAGAIN', 'write_EINTR', 'stream_recovered', 'inside_a_file', 'stream_held']),
    'C11': prop([part('c11', 12000, 500000)],
                'one run is a random history of accepted and refused signing and verification calls of all schemes (context of 0 to 300 bytes, undecodable keys, altered signatures), with restarts, in which the memory of refused calls is compared byte for byte and every return code with the reference model; non-trivial: at least one refusal; distinct by event log',
                'distinct orders of accepted and refused calls',
                need=['bad_key', 'bad_signature', 'context_too_long', 'process_restart', 'sign_refused', 'verify_accepted', 'verify_bad_context', 'verify_bad_key', 'verify_bad_signature']),
    'C22': prop([part('c22', 14000, 700000, kind='step')],
                'one run is one call with fixed public inputs and two to four secrets, after a drawn history, watched by an observer that sees every basic block and memory access of an instrumented copy of the library and, in some runs and whenever that copy shows a difference, every instruction and operand address of the shipped code, single-stepped; at drawn instants the observer calls the library itself; non-trivial: at least two secrets were compared; distinct by event log',
                'distinct combinations of call, length of its trace and observer activity',
                need=['block_trace', 'stepped_trace', 'history_before_call', 'observer_called_library'], quick_s=110,
                real=[LIB + ' with the flags of its CMake build (also without ADX, and without ADX and BMI2), and a copy of it with calls in front of basic blocks and memory accesses (gcc -O3 -fsanitize=thread -fsanitize-coverage=trace-pc)'],
                stub=STUB + ['the processor clock (one instruction is one unit of time) and the cache (an observer that sees every address)']),
    'C24': prop([part('c24', 9000, 900000)],
                'one run is a history of key agreement, key generation and random generation of keys, with other calls in between, restarts, interrupted and short entropy reads and failing allocations; after every call the process is dumped as by a crash at that instant, and the dump is searched for every private key used so far; non-trivial: at least one dump was searched; distinct by event log',
                'distinct orders of calls before the dump',
                need=['crash_dump', 'dump_after_later_calls', 'process_restart', 'read_short', 'read_EINTR']),
    'C12': prop([part('c12', 18000, 800000, share=0.8), part('c12long', 1, 8, share=0.2, jobs=1)],
                'one run is three or more replicas applying one log of commands received over a faulty network, with crashes losing unsynced log, restarts with another engine or build and catch-up; states are compared at every index and at the end; long: both engines hash messages of about 2^32 bytes to the curve; non-trivial: at least two replicas applied a command; distinct by event log',
                'distinct orders of network and crash events',
                need=['replica_crash', 'replica_restart', 'unsynced_log_lost', 'message_lost', 'message_duplicated', 'message_delayed', 'partition_drop', 'command_out_of_order', 'duplicate_command_ignored', 'replayed_after_restart', 'message_of_2^32_bytes']),
}

SAMPLING = 'A clean batch is strong sampled evidence, not proof: it holds for the explored runs. Trusted: reference models (sim/ref.hpp), simulator, compiler. '
NOTES = {
    'C01': ('seeded histories of generations over a simulated entropy device with injected read, open and close faults; every result byte traced to a delivery of the same call',
            SAMPLING + 'Generators are real code; the entropy device, descriptors, abort and exit are simulated.'),
    'C02': ('seeded token-passing schedules of real threads, switched at single accesses and instructions; each call against the same call made alone',
            SAMPLING + 'The library is real code built with access hooks (gcc -O1); its heap, locks and entropy device are simulated and switch only at their entry and exit.'),
    'C03': ('seeded interruptions and abandonments at single accesses and instructions, nested; each call against the same call made alone',
            SAMPLING + 'The library is real code built with access hooks (gcc -O1); its heap, locks, streams and entropy device are atomic towards interruptions.'),
    'C04': ('seeded interleavings of hashing contexts with copies, torn saves, restarts and abandonment, against an executable model; messages past the 2^32 boundaries',
            SAMPLING + 'Hashing is real code; the disk that keeps saved contexts is simulated.'),
    'C05': ('seeded network of signers and verifiers with corruption, splices, replays, partitions and crashes; each verdict checked against the record of what was signed',
            SAMPLING + 'Signing and verification are real code; network, clock, disk and entropy are simulated.'),
    'C06': ('seeded network of key-agreement parties with altered values and crashes; secrets checked against each other and a reference ladder',
            SAMPLING + 'Key agreement is real code; network, clock, disk and entropy are simulated.'),
    'C07': ('seeded call histories over a simulated heap with failing allocations; bounds, leaks, double frees, alignment and results checked',
            SAMPLING + 'Calls are real code; the heap is simulated.'),
    'C08': ('seeded call histories over simulated residue, restarts and placements, each result against reference models',
            SAMPLING + 'Every call runs real code on the real processor; stack, registers, heap and output residue, placement and restart are simulated.'),
    'C09': ('seeded call histories over simulated memory with inaccessible neighbours and read-only inputs, failing allocations included',
            SAMPLING + 'Calls are real code on real pages. An access beyond a buffer that stays inside its page is seen only when it writes or changes a result; placements at both page ends are drawn at random.'),
    'C10': ('seeded print histories over simulated streams with short and failing writes, against the text the value prescribes',
            SAMPLING + 'Printing and the C library stream layer are real code; the device under the stream is simulated.'),
    'C11': ('seeded histories of refused and accepted calls with restarts; return codes, memory and later results against reference models',
            SAMPLING + 'Calls are real code; restarts and residue are simulated.'),
    'C22': ('seeded histories with a simulated observer scheduled beside the victim, in simulated time of one instruction; traces of calls compared across secrets',
            SAMPLING + 'The shipped code runs one instruction at a time; the cache and the clock are simulated. Operand-dependent latencies of single instructions are outside it. A difference counts only when the shipped code shows it.'),
    'C24': ('seeded call histories with a simulated crash and memory dump after every call, searched for the private keys of finished calls',
            SAMPLING + 'The shipped code runs; crash, dump, heap and entropy device are simulated. Registers, and pieces shorter than twelve bytes (a word passing through a register), are outside it.'),
    'C12': ('seeded replicated log over a faulty network with crashes, restarts and changes of engine and build; states compared across replicas',
            SAMPLING + 'All engines are real code; the build without ADX and BMI2 runs on a processor that has both. Network, clock and disk are simulated.'),
}
NA = {
    'C20': 'A pure function of its operands: nothing concurrent, timed, faulty or multi-party is involved, so a scheduler or fault injector has nothing to decide. (C12 still compares every lane engine and build on generated operands inside replicated logs.)',
    'C21': 'A pure algebraic statement about all messages: no schedule, time, I/O or fault on which it depends. (C08 and C12 compare hash-to-curve results with a reference model as results of operations.)',
    'C23': 'A computational hardness assumption; no execution decides it.',
}
