"""What each check explores; used for the evidence files and MANIFEST.json."""

CLIENT_REAL = ['the complete gologix package of /repo (client, codecs, keep-alive), compiled from the working tree with its goroutines, locks, channels, select, '
               'timers, clock, map iteration, random numbers and sockets going through the simulator', 'all its dependencies except net, time waiting, sync, math/rand and context time-outs']
NET_STUBS = ['TCP and UDP: simulated byte streams and datagrams with latency, segmentation, windows, loss, resets, stalls and half-open ends',
             'clock: synthetic time (testing/synctest bubble)', 'goroutine scheduler, mutexes, channels and select: simulated, seeded']
PLC_STUB = ['controller: executable reference model of a Logix controller (sessions, forward open/close, tags with complete value history, fragmented and '
            'multi-service replies, templates and listings), strictly validating requests']
SIM_ASSUME = ['The reference controller stands for real controllers as far as the CIP and EtherNet/IP specification and the Logix data access manual determine their behaviour.',
              'Preemption happens at statement boundaries of the package and at every lock, channel, socket and timer operation; data races below statement level are not explored.',
              'Sampling: a clean batch of seeds is evidence, not proof.']


def client(rule, **k):
    d = dict(rule=rule, real=CLIENT_REAL, stubs=NET_STUBS + PLC_STUB, assumptions=SIM_ASSUME)
    d.update(k)
    return d


TECH = 'deterministic simulation with fault injection: '
INFO = {
    'C01': client('Runs: 1 to 4 goroutines share a client and read every kind of tag with every read call against the reference controller, whose tags change between requests.',
                  tech=TECH + 'reads judged against the complete value history of a reference controller'),
    'C02': client('Runs: 1 to 4 goroutines write unique values with every write call; each write the controller applies is traced to the call that asked for it.',
                  tech=TECH + 'write history of a reference controller matched with calls (applied exactly once iff acknowledged)'),
    'C03': client('Runs: 2 to 6 goroutines mix reads, writes, attribute queries and generic messages on one client; every result carries values unique to its request.',
                  tech=TECH + 'per-request unique values on a shared client, value-history and exactly-once oracles, duplicate sequence detection'),
    'C04': client('Runs: all operations with network and controller faults at 90 % of the runs; each call is timed in simulated time against a bound computed from its exchanges.',
                  tech=TECH + 'bounded progress in simulated time under network faults, deadlock and livelock detection'),
    'C05': client('Runs: 1 to 3 goroutines connect, disconnect and operate under faults; sockets, goroutines and controller connections are counted; afterwards faults stop and reads must recover.',
                  tech=TECH + 'life-cycle invariants over sockets, goroutines and controller state; bounded recovery after faults stop'),
    'C06': client('Runs: a client with keep-alive at periods of 2, 5 or 30 s goes through idle times, losses, controller restarts, cancellations and concurrent life-cycle calls; the queries the controller receives are counted per period of simulated time.',
                  tech=TECH + 'keep-alive queries counted over simulated periods, leak and dead-lock detection'),
    'C07': client('Runs: the reference controller, or something between it and the client, damages, truncates, pads, replaces, repeats or rearranges its replies and the contents of '
                  'multi-item replies in any field, at any moment of connecting, listing, reading, writing and attribute queries; memory, time and crashes are watched, complete results '
                  'are judged as usual, and after the hostility stops the client has to recover.',
                  tech=TECH + 'field-aware hostile replies from a reference controller; crash, memory, time, value and recovery oracles'),
    'C08': client('Runs: a controller with a random project (programs, sparse instance numbers, arrays, nested and large structures, system symbols) is listed by 1 to 3 goroutines while others read; pages of 1 to 7 entries or as fits, error statuses, faults; between phases another project is downloaded.',
                  tech=TECH + 'client catalogue compared with the reference controller after every successful discovery, under random paging and faults'),
    'C09': client('Runs: 1 or 2 goroutines read arrays of up to 2500 elements and lists of up to 80 tags; the controller cuts replies at any byte and, in some runs, sends malformed fragments.',
                  tech=TECH + 'arbitrary fragmentation and malformed fragments by a reference controller, byte-level history oracle, request size invariant'),
}
SERVER_REAL = ['the complete gologix package of /repo (server: session loops, connection table, router, MapTagProvider, I/O and channel providers, codecs), compiled from the working tree with its goroutines, '
               'locks, channels, select, timers, clock, map iteration, random numbers and sockets going through the simulator', 'all its dependencies except net, time waiting, sync, math/rand and context time-outs']
ORIG_STUB = ['originators: a raw EtherNet/IP client of our own (sessions, forward open/close, pipelining, segmentation) which matches replies strictly in order',
             'application: simulated tasks using the documented provider interfaces']
SERVER_ASSUME = ['The meaning of a well-formed request and of its reply follows the CIP and EtherNet/IP specification; where that leaves a choice of status the harness accepts every error status.'] + SIM_ASSUME[1:]


def server(rule, **k):
    d = dict(rule=rule, real=SERVER_REAL, stubs=NET_STUBS + ORIG_STUB, assumptions=SERVER_ASSUME)
    d.update(k)
    return d


INFO.update({
    'C10': server('Runs: 1 to 4 originators with any mix of connections send well-formed requests of every supported kind and of kinds the server has to refuse, pipelined and segmented at random; each reply is matched in order and compared with a sequential model of its originator.',
                  tech=TECH + 'strict in-order reply matching against a per-originator sequential model under random pipelining and segmentation'),
    'C11': server('Runs: 2 to 5 originators and application tasks read and write the same few tags (scalars, arrays, elements, strings), also with clients cut off in mid-request; the recorded history is searched for a linearization per tag.',
                  tech=TECH + 'linearizability checking (Wing-Gong-Lowe) of recorded histories of the tag store'),
    'C12': server('Runs: 1 to 4 originators open, use, close, abandon and reopen explicit and I/O connections to several providers with colliding identifiers, serial numbers and vendors; sessions are cut at any byte; closed, foreign and invented identifiers are used; the providers record what reaches them.',
                  tech=TECH + 'connection table model, per-provider request logs and production logs compared after opens, closes, drops and reuse of identifiers'),
    'C13': server('Runs: 1 to 3 hostile peers send damaged, odd, truncated and random frames and datagrams, invalid writes to protected tags, floods whose replies they do not read, half frames followed by silence or resets, and idle sockets, while accept and datagram reads fail now and then; 1 or 2 well-behaved originators are served alongside and judged as strictly as in C10.',
                  tech=TECH + 'hostile peers in the simulator beside strictly judged well-behaved ones; crash, hang, memory and tag integrity oracles'),
    'C14': server('Runs: 1 to 3 originators open I/O connections (intervals 2 to 200 ms) to I/O and channel providers while the application updates its data under the documented lock; every datagram sent is judged when it is sent; one scenario produces more than 65536 packets.',
                  tech=TECH + 'cyclic production judged in simulated time (period, sequence, whole images, end after close) under stalls, loss and send errors'),
    'C15': server('Runs: 1 to 3 originators send numbered output images in well-formed, duplicated, reordered, truncated and misaddressed datagrams; the application reads its data under the documented lock and from channels of different speed.',
                  tech=TECH + 'per-packet unique images: delivery, order, isolation and wholeness of consumed data under datagram faults and slow consumers'),
    'C16': client('Runs: 1 to 2 tasks with up to 4 datatable buffers add, remove, read and close tags by every API (single, batches, references, groups, structures, the low-level calls) while '
                  'connections break, requests and replies get lost, the controller restarts, refuses or forgets buffers; a model of class 0xB2 in the reference controller knows what '
                  'each buffer contains.', tech=TECH + 'datatable buffers compared with a reference model of class 0xB2 after every call, under faults, restarts and refusals'),
    'C17': dict(rule='Runs: 1 to 3 tasks encode and decode random structures (nested, arrays of structures, packed and unpacked booleans, strings, timers, types with own codecs) through writers '
                     'and readers that split, end or fail at any byte, or send them over a simulated connection with segmentation, stalls, resets and deadlines.',
                real=['Pack, Unpack and the codecs of lgxtypes, compiled from the working tree of /repo'],
                stubs=['readers and writers: fault-injecting implementations of io.Reader and io.Writer'] + NET_STUBS, assumptions=[
                    'The layout model of the harness (packed booleans, alignment within structures, padded array elements, no padding at the end of a nested structure) is what the package '
                    'documents and its tests pin.', 'Structure types are drawn from a fixed pool of 3000 generated types plus the built-in ones.'] + SIM_ASSUME[2:],
                tech=TECH + 'encodings compared with a layout model under short, failing and chunked readers and writers and simulated connections'),
    'C18': dict(rule='Runs: 1 to 3 clients of the library with 1 to 3 tasks each read, write, list and query identities, attributes and services of one server of the library, whose '
                     'application reads and writes the same tags and refuses or delays some; clients connect, disconnect and reconnect; the links of some clients break; all '
                     'reads and writes of both ends are checked as one history.',
                real=['the complete gologix package on both ends: client and server in one simulated process, compiled from the working tree of /repo'],
                stubs=NET_STUBS + ['application: simulated tasks using MapTagProvider and a provider that refuses or delays'], assumptions=SIM_ASSUME[1:],
                tech=TECH + 'linearizability and value oracles over the history of several real clients, one real server and its application'),
    'C19': dict(rule='Runs: 1 to 4 tasks of one client query faults, forces, the clock, the properties of the program, parameters and attributes of generic objects, call services with and '
                     'without an effect, and ask for what the device refuses, mixed with reads, writes, identity queries, connects and disconnects, while the fault log, the forces and the '
                     'parameters change and requests, replies and connections get lost; every result is compared with the history of the device.',
                real=['gologix client and package canned, compiled from the working tree of /repo'],
                stubs=['controller: the reference controller with a fault log, forces, a clock, parameters and services with an effect (sim/harness/status.go)'] + NET_STUBS,
                assumptions=SIM_ASSUME, tech=TECH + 'results of attribute queries and services compared with the history of the simulated device, effects counted, kept results compared at the end'),
})
LEVEL_NOTE = ('Seeded search over schedules and faults of the real package against a reference model; evidence by sampling, no exhaustiveness. Trusts the simulator runtime, '
              'the source rewriter that puts nondeterminism behind it and the reference model.')
NA = {'C20': 'The l5x package converts an exported project that is already in memory into maps: one call, no concurrency, time, I/O, randomness or other party, so there is no schedule and '
             'no fault for a simulation to decide; only inputs vary, which is property-based testing and not this technique.'}
NOT_YET = 'machinery not finished yet'
