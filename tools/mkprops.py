#!/usr/bin/env python3
# Writes /verif/properties.jsonl (kept as a script so that wording stays in one reviewed place).
import json,os
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=None))
    if state: d['anchors']['state']=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    P.append(d)

p('C01','A successful read returns values the controller held during the call',
 'Whenever a tag read of any kind (scalar, string, array, structure, bit, list, multi, map) reports success, every value it returns is a value that tag held in the controller at some moment between the start and the end of that call, in the requested type and order. This holds however the TCP stream is segmented, delayed, cut or stalled, whatever time-outs and reconnections happened before, and however many goroutines share the client. In every other case the read reports an error; it never reports success with a value that belongs to another request, another tag or an earlier time.',
 ['schedules','histories','fault_sequences','inputs'],
 'all interleavings of goroutines using one client, all TCP segmentations, delays, stalls, resets and response losses, all mixes of read kinds and tag types, all controller statuses including partial transfers',
 'The tests read from canned byte buffers or a single well-behaved localhost server, one request at a time; none delays a response past the time-out, cuts a stream, or runs two callers against one client.',
 ['read.go','partialread.go','sendreceive.go','connect.go','disconnect.go','taggroup_readmap.go','types.go'],
 [('one request/response exchange at a time under a mutex','sendreceive.go send_recv_data'),('forced disconnect on send/receive error','sendreceive.go send_recv_data'),('continuation of partial transfers','partialread.go'),('multi-request replies located through the offset table','read.go readList')],
 ['return values of Read, Read_single, ReadList, ReadMulti, ReadMap','requests received by the simulated controller'],
 [('tag image','value history of every tag in the simulated controller','simulated controller')])

p('C02','Acknowledged writes are applied exactly once; rejected writes are reported',
 'When a tag write of any kind (scalar, string, array, structure or structure member, multi, map) reports success, the controller has applied exactly that value to exactly that tag exactly once during the call, and no other tag was modified. When it reports an error the value was applied at most once. A write that the controller rejects is always reported to the caller as an error.',
 ['schedules','histories','fault_sequences','inputs'],
 'all interleavings of concurrent writers and readers on one client, all stream faults before, during and after the request and the response, all controller rejections, including single rejections inside a multi-service request',
 'Unit tests only check the bytes of a write request; no test has a controller that rejects, loses, delays or applies-then-disconnects.',
 ['write.go','udt_write.go','sendreceive.go','pack.go','client.go'],
 [('status of every write reply checked','write.go'),('a fresh sequence number for each connected request','client.go sequencer'),('forced disconnect on I/O error','sendreceive.go')],
 ['errors returned by Write, WriteMulti, WriteMap','application log of the simulated controller'])

p('C03','Concurrent callers of one client each get the answer to their own request',
 'Any number of goroutines may share a client and mix reads, writes, attribute queries and generic messages: each call returns the outcome of its own request, as if the calls had been issued one after the other in some order consistent with real time. No call ever receives, consumes or is completed by the response to another call, also after a time-out, a lost response, a dropped connection or an automatic reconnection. No two requests on one connection are mistaken by the controller for a retransmission of each other.',
 ['schedules','histories','fault_sequences'],
 'all interleavings of 2 to 6 callers on one client, preempted at any statement, with responses delayed past the time-out, lost, or cut, and with reconnections in between',
 'No existing test uses a client from two goroutines; races of this kind need a specific preemption between unlock and disconnect or between reconnect and a waiting caller.',
 ['sendreceive.go','connect.go','disconnect.go','getattr.go','read.go','write.go','client.go','ioi.go'],
 [('mutex around one send and one receive','sendreceive.go'),('connection state machine','connect.go, disconnect.go'),('sequence numbers','client.go sequencer, getattr.go')],
 ['per-caller results','recorded history of requests and results','sequence numbers seen by the simulated controller'])

p('C04','Every client call returns within a bounded time whatever the network does',
 'Once called, every client operation (connect, disconnect, read, write, listing, attribute query, generic message) returns within a bounded time that depends only on the configured socket time-out and the number of requests the operation consists of, whatever the peer or the network does: silence, stalls in mid-message, half-open or reset connections, refused dials, blocked sends, byte-at-a-time delivery. No operation deadlocks, spins without progress, or crashes the process.',
 ['schedules','fault_sequences','histories'],
 'all placements of a stall, blackhole, reset, refusal or send-window closure in the byte streams of any operation, with any number of concurrent callers',
 'Deadlines take 10 s of real time each, so tests never exercise them; a deadlock or lost unlock needs a fault at one specific byte.',
 ['sendreceive.go','connect.go','disconnect.go','partialread.go','listalltags.go','listsubtags.go','read.go'],
 [('read and write deadlines on every exchange','sendreceive.go'),('dial time-out','connect.go Connect'),('forced disconnect','sendreceive.go')],
 ['simulated duration of each call','number of requests it sent'])

p('C05','The connection life cycle is consistent and a client always recovers',
 'A client is reported connected only while it owns an established connection, has at most one open socket at any time, and owns none once a disconnect or a failed connect has returned. A graceful disconnect asks the controller to release the connection, a second disconnect or connect reports an error and has no other effect, and any operation on a client that cannot connect reports an error instead of crashing. After any sequence of faults, once the network and the controller behave again, a client with automatic connection succeeds again within a small bounded number of calls, with no help from the caller.',
 ['schedules','histories','fault_sequences','crash_points'],
 'all histories of connect, disconnect, operations and automatic reconnects from several goroutines, with dial failures, rejected session or connection requests, controller crash and restart and connection loss at any byte',
 'The tests connect once to a perfect server; nothing exercises failed handshakes, repeated or concurrent connect/disconnect, or recovery.',
 ['connect.go','disconnect.go','sendreceive.go','client.go','getattr.go','listidentity.go','listservices.go'],
 [('connection status state machine','connect.go startConnect, disconnect.go startDisconnect'),('automatic reconnect before each operation','connect.go checkConnection')],
 ['open sockets of the client','results of Connected, Connect, Disconnect','forward-close requests received by the simulated controller'])

p('C06','Keep-alive polls while connected, detects loss, and stops and restarts cleanly',
 'With keep-alive enabled, a connected idle client queries the controller at the configured period, no more than one keep-alive activity runs per client, and it is active again after every reconnection. If a keep-alive query fails, the client becomes disconnected within one period plus the socket time-out; when the client is disconnected or keep-alive is cancelled, polling stops within one period. With KeepAlivePollTags the tag catalogue is read at the start and again whenever the program changes; otherwise keep-alive lists no tags. A controller that refuses even the first keep-alive query of a connection may switch keep-alive off for that connection. Starting, cancelling and disconnecting in any order and from any goroutine, repeatedly, never crashes, deadlocks or leaks.',
 ['schedules','histories','fault_sequences'],
 'all orders and interleavings of connect, disconnect, cancel, connection loss and user traffic relative to the keep-alive timer, for many periods',
 'Keep-alive is never run by a unit test: its period is 30 s of real time and its failures depend on the order of timer, cancel and connection loss.',
 ['connect.go','disconnect.go','getattr.go'],
 [('keep-alive goroutine with ticker and cancel channel','connect.go KeepAlive'),('cancel on disconnect','disconnect.go')],
 ['attribute queries received by the simulated controller over time','live goroutines of the client'])

p('C07','A corrupt or hostile response never crashes or hangs the client',
 'Whatever bytes arrive in place of a response (flipped, truncated, extended, inconsistent lengths and counts, wrong types, extra or missing items, error statuses with extended status words, garbage), every client operation returns in bounded time with either a result or an error, and the process never crashes and never allocates memory out of proportion to what was received. Results for the items the response does describe are never attributed to items it does not describe. After such a response the same client can still reach a well-behaved controller with at most a bounded number of failing calls in between.',
 ['inputs','fault_sequences','histories'],
 'all corruptions of any response of any operation (session, connection, read, multi read, write, fragment, listing, template, attribute, identity, services, disconnect), alone or several in a row',
 'Tests feed correct captures only; the space of malformed responses is unbounded and each parser has its own length arithmetic.',
 ['sendreceive.go','items.go','connect.go','read.go','partialread.go','getattr.go','listalltags.go','listmembers.go','listsubtags.go','listidentity.go','listservices.go','types.go','datatable.go'],
 [('bounds checks and errors in every response parser','items.go, read.go, getattr.go, list*.go')],
 ['process survival','bounded duration','later calls succeed'])

p('C08','Tag discovery reports every tag once, however the controller pages its replies',
 'When discovery of tags, programs, structure members or program tags succeeds, the resulting catalogue contains every user-visible tag of the controller with its correct name, type, dimensions and instance, and nothing that the controller did not report (also nothing left over from an earlier complete discovery), however the controller splits the listing into pages. If any page of tags cannot be obtained (error status, truncation, time-out, connection loss) the call reports an error instead of presenting a partial catalogue as complete, and a structure whose definition cannot be obtained is reported without one, never with a partial or wrong one. Discovery terminates and works while other goroutines use the same client.',
 ['inputs','fault_sequences','schedules'],
 'all tag populations (counts, names, sparse instance numbers, arrays, nested structures, programs), all page boundaries including pages of one entry, all failures of a single page, concurrent readers',
 'The listing tests need real hardware and are not run; paging boundaries and mid-listing failures are never produced.',
 ['listalltags.go','listsubtags.go','listallprograms.go','listmembers.go'],
 [('repeat from the last instance while the status says partial','listalltags.go ListAllTags'),('template read in fragments','listmembers.go')],
 ['the client catalogue after the call compared with the simulated controller'])

p('C09','Large transfers are reassembled completely and in order',
 'A successful read of an array or structure too large for one message returns every element, in order and without gap, repetition or padding, whatever fragment sizes the controller chooses and however they align with elements, and a large list or multi-tag read is split so that no request exceeds the negotiated connection size. If any fragment fails, is lost, is empty without progress or arrives malformed, the call reports an error and does not run on forever.',
 ['inputs','fault_sequences','configurations'],
 'all element types and counts, all fragment size sequences including one element or zero bytes at a time, all failure positions, both connection sizes, concurrent callers',
 'One canned two-fragment exchange is tested; fragment alignment, failing or empty fragments and splitting by connection size are not.',
 ['partialread.go','read.go'],
 [('fragmented read loop with byte offset','partialread.go'),('splitting a tag list by request and response size','read.go countIOIsThatFit, readList')],
 ['returned slices','fragment offsets and request sizes seen by the simulated controller'])

p('C10','The server answers every well-formed request exactly once and in order',
 'For any stream of well-formed requests from a client, in any TCP segmentation and pipelined or not, the server sends exactly one reply per request that calls for one, in request order, repeating the request\'s session, sender context and (for connected messages) sequence number on the requester\'s own connection identifier. A request it cannot serve (unknown service, class, tag or encapsulation command, wrong type, rejected by the tag store) gets an error status in its reply and neither ends the session nor disturbs the requests after it.',
 ['inputs','histories','schedules','fault_sequences'],
 'all sequences of well-formed requests supported or not, all segmentations and pipelining depths, several simultaneous clients, slow readers',
 'The server tests call single handlers with a canned request; no test has a failing request followed by another, pipelining, or segmentation.',
 ['server.go','server_connected.go','server_unconnected.go','server_listidentity.go','items.go'],
 [('read loop dispatching on the encapsulation command','server.go serve'),('reply builders','server_connected.go, server_unconnected.go')],
 ['reply stream seen by a simulated originator'])

p('C11','The built-in tag store is linearizable across all clients of a server',
 'With any number of clients reading and writing the same tags through the server while the application uses the same store, every read returns for each tag a value written by some client or the application that was current at one moment between the request and its reply, whole and never a mixture of two writes of one request item. A write acknowledged to a client is visible to every read that starts later, and a write that was refused is never visible.',
 ['schedules','histories','fault_sequences'],
 'all interleavings of several TCP clients and application goroutines over scalars, arrays, element writes and strings, with client disconnects in mid-request',
 'The store is only tested sequentially from one goroutine; lost updates and torn values need two sessions interleaved inside one operation.',
 ['server_router.go','server_connected.go','server_unconnected.go','server.go'],
 [('mutex in the map tag provider','server_router.go MapTagProvider')],
 ['history of reads and writes at simulated clients and the application, checked for linearizability'])

p('C12','Server connections are isolated, correctly routed, and released when they end',
 'Every request reaches the tag provider registered for the path its connection was opened with and no other, whatever connection identifiers, serial numbers or vendors other clients choose, and every reply goes to the requesting client only. Closing a connection releases exactly that connection, is confirmed to the client, and leaves all others working; a connection whose TCP session is gone is released as well. Requests naming a connection that was never opened, or was closed, are refused without effect.',
 ['histories','schedules','fault_sequences','inputs'],
 'all histories of open, close, abrupt drop and reopen by several originators, including equal serial numbers from different originators and colliding requested identifiers',
 'No test opens more than one connection or closes any.',
 ['server_connections.go','server.go','server_connected.go','server_router.go'],
 [('connection table','server_connections.go'),('path router','server_router.go PathRouter')],
 ['which provider saw which request','connection table effects visible to simulated originators'])

p('C13','No sequence of bytes or datagrams brings the server down',
 'Whatever bytes a peer sends on a TCP session or in datagrams (garbage, truncated or over-long requests, extreme counts, sizes, offsets and paths), then stalls, resets or floods, the server process does not crash, and goes on serving all other sessions correctly and promptly. Invalid requests never modify a tag.',
 ['inputs','fault_sequences','schedules'],
 'all mutations of all request kinds at any point of a session, random byte streams and datagrams, alongside a well-behaved client whose service is checked',
 'Only correct requests are tested; each handler has its own length arithmetic and a single panic in any session goroutine ends the process.',
 ['server.go','server_connected.go','server_unconnected.go','server_listidentity.go','items.go','path.go','cip_definitions.go','server_router.go'],
 [('errors from handlers end only their session','server.go serve')],
 ['process survival','service of a well-behaved client during and after the attack'])

p('C14','Cyclic I/O production is periodic, sequenced and whole, and ends on close',
 'After an I/O connection is opened the server sends its input data to the originator at the requested packet interval, each packet carrying the originator\'s connection identifier, a sequence number one higher than the previous packet\'s, and an image of the input data that is consistent with the application\'s locking, so never a mixture of two application updates. Production continues while the connection lives, whatever other connections do, and stops within a bounded time after the connection is closed or its session ends. Opening or closing I/O connections never disturbs other clients.',
 ['schedules','histories','configurations','fault_sequences'],
 'all packet intervals, several connections, application updates interleaved at any statement with production, close and drop at any moment, datagram loss',
 'I/O production is not run by any unit test: it is timer driven and needs UDP traffic over time.',
 ['server.go','server_io.go','server_iochannel.go','server_connections.go'],
 [('production goroutine per connection with a ticker','server.go ioConnection'),('mutex around the input image','server_io.go')],
 ['datagrams received by a simulated originator over simulated time'])

p('C15','Cyclic I/O consumption delivers whole, current data to the right application',
 'Each valid output packet for an open I/O connection is delivered to the provider of that connection only, whole: the application never observes a mixture of two packets, and a short or malformed packet changes nothing. Channel consumers each receive the packets in arrival order, and a slow or absent consumer loses only its own packets and never blocks the server or another consumer. Packets for unknown or closed connections have no effect.',
 ['schedules','histories','fault_sequences','inputs'],
 'all interleavings of packet arrival with application reads, loss, duplication, reordering, truncation, several connections and providers, several channel consumers of different speed',
 'No unit test sends an I/O packet to a running server or reads the output image concurrently.',
 ['server.go','server_io.go','server_iochannel.go','pack.go'],
 [('mutex around the output image','server_io.go IOWrite'),('non-blocking channel delivery','server_iochannel.go IOWrite')],
 ['output image under its lock','values received from output channels'])

p('C16','Data-table buffers return each tag\'s value at its own place, across changes',
 'For any history of adding and removing tags, creating, reading and disposing data-table buffers, a successful buffer read returns for every tag in the buffer a value that tag held during the read, and an entry for no other tag. Failures (a rejected tag, a lost connection, a controller restart that forgets buffers) are reported as errors, leave buffer and controller consistent, and never lead to values attributed to the wrong tag.',
 ['histories','inputs','fault_sequences'],
 'all histories of add, remove, read, dispose and reconnect, with rejections, losses and controller restarts at any request',
 'The unit tests cover parsing of single responses; histories with removals, failures and restarts need a stateful controller.',
 ['datatable.go'],
 [('buffer bookkeeping of entries and identifiers','datatable.go')],
 ['results of buffer reads compared with the simulated controller'])

p('C17','Encoding and decoding do not depend on stream chunking, and report failures',
 'Decoding a value from a stream gives the same result however the reader splits its bytes, including one byte at a time or data together with end-of-stream, and encoding to a writer produces the same bytes and reports every write error. A stream that ends or fails early always yields an error, never a silently short or misaligned value.',
 ['inputs','fault_sequences'],
 'all chunkings, early ends and reader or writer failures at any byte, for nested structures, booleans packed in bits, arrays and strings',
 'The unit tests use in-memory buffers that always deliver everything and never fail.',
 ['pack.go','udt_write.go','lgxtypes/string.go','lgxtypes/timer.go','lgxtypes/counter.go','lgxtypes/control.go'],
 [('alignment and bit packing state while streaming','pack.go')],
 ['decoded values and errors under a fault-injecting reader or writer'])

p('C18','The client and the server interoperate for every supported operation',
 'A client of this library connected to a server of this library reads back through it exactly what the server application holds, writes what the application then sees, for every supported type, scalar, array, element and list, and is told about every failure. It can connect, disconnect and reconnect any number of times, each call finishing without waiting for time-outs while the network works, and several such clients do not disturb each other.',
 ['histories','schedules','inputs','fault_sequences'],
 'all histories of operations by several real clients against one real server inside the simulator, with segmentation, delays, drops and reconnects',
 'The end-to-end tests cover one string and one identity exchange on localhost in one order.',
 ['read.go','write.go','connect.go','disconnect.go','server.go','server_connected.go','server_unconnected.go','server_router.go'],
 [('request builders and parsers on both sides','read.go, write.go, server_connected.go')],
 ['values seen by both ends','simulated duration of calls'])

p('C19','Attribute queries and services tell what the device holds and does',
 'When GetAttrSingle, GetAttrList, GenericCIPMessage, GetControllerPropList, canned.GetFaults or canned.GetForces reports success, the result is what the named object, instance and attributes of the device held at one moment during the call, in the order asked for, or the reply of the device to that very service. A service with an effect is carried out exactly once, with exactly the data given, when the call reports success, and at most once otherwise. A service that the device refuses is always reported as an error, which for GenericCIPMessage carries the status of the device. A result stays as it is while further calls are made. A fault event is described under its own type and code, or as unknown when it is not documented, and the fault types say exactly which bits are set.',
 ['schedules','histories','fault_sequences','inputs'],
 'all classes, instances, attributes and services incl. those needing wide identifiers, all histories of faults, forces, parameters and clock in the device, all stream faults and refusals, and all interleavings of goroutines sharing the client',
 'These calls are tested on real controllers only, which do not run without one; no test has a device whose state changes, that refuses, or that loses requests and replies.',
 ['getattr.go','canned/faults.go','canned/forces.go','canned/fault_descriptions.go','path.go','items.go','sendreceive.go'],
 [('status and service of the reply checked','getattr.go'),('paths built of segments of the width needed','path.go'),('a fresh sequence number for each connected request','client.go sequencer')],
 ['return values of the calls','requests received and effects carried out by the simulated device'],
 [('fault log, forces, parameters, clock','history of what the device held','simulated controller')])

p('C20','Tags and comments taken from an exported project are those of the project',
 'LoadTags, LoadTagComments and LoadRungComments of the l5x package return every tag, program tag, member, array element and comment of the exported project they are given, with the value and Go type that belong to its data type, or an error; they never return part of the project without an error.',
 ['inputs'],
 'all projects that can be exported: nested structures, arrays of any number of dimensions, aliases, modules, programs and routines',
 'One exported project is decoded by the tests.',
 ['l5x/load_tags.go','l5x/types.go','l5x/schema.go'],
 [('conversion by data type','l5x/types.go L5xTypeToGoType')],
 ['returned maps'])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl'),'w') as f:
    for d in P: f.write(json.dumps(d)+'\n')
