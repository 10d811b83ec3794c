#!/usr/bin/env python3
"""Writes properties.jsonl (single source for the property texts)."""
import json, os
L='ipmb/src/lib.rs'; BC='ipmb/src/bus_controller.rs'; EM='ipmb/src/platform/linux/encoded_message.rs'
LX='ipmb/src/platform/linux.rs'; IM='ipmb/src/platform/linux/io_mul.rs'; FD='ipmb/src/platform/linux/fd.rs'
PM='ipmb/src/platform/mod.rs'; MR='ipmb/src/memory_registry.rs'; LB='ipmb/src/label.rs'; MS='ipmb/src/message.rs'
FFI='ipmb-ffi/src/lib.rs'; CC='ipmb-ffi/ipmb.cc'; JS='ipmb-js/src/lib.rs'; DV='ipmb-derive/src/lib.rs'; ER='ipmb/src/errors.rs'
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=None)))
T="The existing tests only evaluate label expressions in-process; nothing joins a bus. "
p('C01','Only endpoints with the right token and a compatible version join',
 "An endpoint becomes a routing target of a bus only after its connect request was decoded, its protocol version was found compatible with the controller's (same major version; for major 0, same minor version) and its token was found equal to the controller's token, and only if the positive acknowledgement was delivered to it. A request that fails any of these never adds a routing target.",
 ['inputs','histories','programs'],'every connect request (any version, token, label, attachments) in every controller history',
 T+'The set of requests is unbounded and no test ever connects with a wrong token or version.',
 [BC,L],[('checks in the connect handler before the endpoint list grows','endpoint_connect'),('Version::compatible','lib.rs')],
 ['join() results','messages routed to the joiner'])
p('C02','A refused join reports its reason to the joiner',
 "A joiner whose token differs is answered with a token refusal and its join (or the rejoin inside send/recv) ends with the token-mismatch error; a joiner with an incompatible version, including one whose datagrams carry an incompatible version header, is answered so that its join ends with the version-mismatch error carrying the bus's version. Join succeeds only on a positive acknowledgement, and a refusal is never retried as if it were transient.",
 ['inputs','histories'],'every (joiner version/token, controller version/token) pair and every reply the joiner can receive',
 T+'No test exercises a refused handshake or two protocol versions.',
 [BC,LX,EM,L,ER],[('acknowledgement sent on each refusal branch','endpoint_connect, controller loop'),('acknowledgement decoding','look_up'),('error mapping','Rule::join, From<JoinError>')],
 ['JoinError/SendError/RecvError returned to the refused endpoint'])
p('C03','Label expressions mean what their operators say',
 "For every label expression and every endpoint label: True matches everything, False nothing, a leaf matches exactly the labels containing that element, NOT/AND/OR are the boolean operators over their operands' results. A label behaves as a set of strings: inserting adds the element (once), removing removes exactly it, and the builder helpers combine the operands they are given.",
 ['inputs'],'every expression tree and every label',
 'The 8 unit tests sample eight expressions of depth at most two against fixed labels.',
 [LB],[('evaluation of each expression node','LabelOp::validate'),('set operations','Label::{insert,remove,all}')],['LabelOp::validate'])
p('C04','Messages reach only endpoints whose label matches',
 "A message is handed to an endpoint (remote, the controller's own endpoint, or returned by a client's recv) only if the message's label expression evaluates to true on that very endpoint's label.",
 ['inputs','histories','programs'],'every message, every set of connected endpoints, every delivery path',
 T+'Routing code is not executed by any test.',
 [BC,L],[('label evaluation guarding every delivery','handle_message and recv')],['messages returned by recv on each endpoint'])
p('C05','A unicast message is consumed at most once',
 "During one routing attempt a unicast message is accepted by at most one endpoint: after one endpoint (remote or the controller's own) accepted it, it is not offered to any other, and it is not kept for later delivery either.",
 ['inputs','histories','fault_sequences'],'every number of matching endpoints and every pattern of per-endpoint delivery success/failure',
 T+'No test has two matching endpoints.',
 [BC],[('routed flag in the delivery loop','handle_message')],['number of endpoints whose recv returns the message'])
p('C06','Multicast reaches every matching endpoint',
 "A multicast message is offered to every connected endpoint whose label matches, and to the controller's own endpoint if its label matches, regardless of how many others already accepted it or failed.",
 ['inputs','histories','fault_sequences'],'every set of endpoints, matching pattern and pattern of per-endpoint failures',
 T+'No test sends a multicast message.',
 [BC],[('delivery loop without early exit for multicast','handle_message'),('local delivery condition','handle_message')],['recv on all endpoints'])
p('C07','Failed deliveries fall over; exactly the dead endpoints are removed',
 "When delivery to a matching endpoint fails, the message is not considered delivered: the remaining matching endpoints (and the controller's own) are still tried, and if none accepts it, it stays eligible for time-to-live buffering. Routing removes an endpoint from the bus exactly when delivery to it reported that it is disconnected, and the periodic sweep removes exactly the endpoints that are dead.",
 ['fault_sequences','histories'],'every pattern of endpoint deaths and send outcomes during routing',
 T+'No test kills an endpoint.',
 [BC],[('online/routed bookkeeping','handle_message'),('periodic sweep','detect_reachable')],['who receives later messages','unicast fall-over'])
p('C08','Time-to-live governs unroutable messages',
 "A message no endpoint accepted is kept exactly when its time to live is non-zero; each time an endpoint connects, every kept message that has not expired is offered again, once, in order of arrival, and those still unroutable stay kept with their original deadline. A message whose time to live has expired is never delivered, and expired messages are discarded.",
 ['inputs','histories','schedules'],'every sequence of unroutable messages, connects and time passing',
 T+'No test uses a time to live; the timing space is unbounded.',
 [BC],[('buffering with deadline, replay on connect, expiry','controller loop and maintain')],['messages received by late joiners'])
p('C09','Nothing a peer sends stops the bus controller',
 "The controller keeps serving whatever a connected peer sends or does: receive errors, undecodable or refused connect requests, failed acknowledgements, disconnected peers and any field values of well-formed messages (including the largest representable time to live) never end the controller's loop or panic it.",
 ['inputs','histories','fault_sequences'],'every datagram content and every receive/send error in the controller',
 T+'The controller thread never runs under test.',
 [BC,LX,EM],[('error arms of the controller loop','BusController::run'),('checked arithmetic on peer-provided values','run, from_local')],['bus keeps routing after hostile or odd traffic'])
p('C10','Malformed datagrams are rejected without reading out of bounds',
 "Parsing a received datagram never reads outside the received bytes and never panics, whatever lengths, counts or bytes the datagram claims: inconsistent lengths or attachment counts make the receive fail with an error.",
 ['inputs'],'every byte string and attachment list that can arrive in a datagram',
 T+'No test parses a datagram at all.',
 [EM],[('length checks before use of wire-provided sizes and counts','EncodedMessage::from_local')],['controller/endpoint survives hostile datagrams'])
p('C11','Sender and receiver agree on the datagram layout',
 "The reader finds each field of a datagram (version header, selector length, selector, payload length, payload) at the same position, with the same width and padding rule, and in the same encoding at which the writer placed it, for every selector size and payload size; the buffer the writer allocates covers everything it writes, and every byte it sends is initialised.",
 ['inputs'],'every selector length and payload length',
 T+'No test encodes or decodes a datagram, and padding errors show only for particular sizes.',
 [LX,EM],[('writer','Message::encode_inner'),('reader','EncodedMessage::from_local')],['payload/selector received equals the one sent'])
p('C12','Attachments arrive complete, in order and in the right list',
 "All objects and memory regions attached to a message that is accepted for sending arrive with it, objects as objects and regions as regions, in their original order, whether the message is delivered directly, forwarded by the controller or delivered inside the controller's process. Messages without attachments are forwarded like any other, and the receiver makes room for as many attachments as the kernel can pass in one datagram.",
 ['inputs','histories'],'every number/mix of attachments and every delivery path',
 T+'No test attaches anything.',
 [LX,EM,L],[('descriptor order in the control data','encode_inner'),('split by the region count','from_local, send'),('control buffer size and forwarded length','from_local'),('hand-over to the received message','recv')],['objects/memory_regions of the received message'])
p('C13','Payloads are delivered as the type they were sent as',
 "The type tag on the wire is always the tag of the payload being sent, even if the payload was replaced after the message was created. A receiver decodes a payload only as a type whose tag equals the tag on the wire, silently skips messages of types it does not know and reports undecodable payloads of known types as a decode error; a multi-type enum maps each tag to exactly the variant it was sent from.",
 ['inputs','programs'],'every message type, every multi-type enum and every sequence of received tags',
 T+'No test uses the derive macro or receives a message.',
 [MS,DV,L],[('tag stamping','Message::new, send'),('tag comparison before decoding','MessageBox::decode and the derive macro'),('skip / report arms','recv')],['payload variant returned by recv'])
p('C14','Memory-region reference counts balance across processes',
 "Every memory region's shared count equals the number of live handles plus in-flight copies: creating sets it to one, cloning or opening adds one, dropping a handle subtracts one, transmitting a message adds one per attached region before the message can be seen by the peer, a failed transmission takes exactly those back, and receiving a region takes over the in-flight count. All updates are sequentially consistent.",
 ['histories','fault_sequences','schedules'],'every sequence of create/clone/send/fail/receive/drop over any number of regions and processes',
 T+'No test creates a memory region.',
 [PM,EM],[('count updates','MemoryRegion::{new,from_object,ref_count_inner,drop}'),('in-flight accounting','EncodedMessage::{send,from_local}')],['MemoryRegion::ref_count in all processes'])
p('C15','A mapped view lies inside its region',
 "Mapping a range of a memory region yields exactly the requested bytes of the region's data area (never the bookkeeping header, and with an unbounded end the rest of the region), and a range that is reversed or extends past the region's size is refused with an error instead of yielding memory or panicking. The size a receiver sees for a region is the size it was created with, and a view that goes away gives back exactly the memory it mapped.",
 ['inputs','histories'],'every region size and every requested range, in any order of maps',
 T+'No test maps a region.',
 [PM,'ipmb/src/util/mod.rs'],[('range conversion and bounds','MemoryRegion::map, range_to_offset_size'),('header layout shared by creator and opener','MemoryRegion::{new,from_object}')],['slice returned by map','buffer_size'])
p('C16','The registry reuses only free, matching, large-enough regions',
 "A region handed out by the registry is either new with at least the requested size, or a pooled one that nobody but the registry references at that moment, that was allocated under the same tag and is at least as large as requested (less than twice as large). Two live allocations never share a region.",
 ['histories','inputs','schedules'],'every history of allocations with sizes, tags and releases',
 T+'No test uses the registry.',
 [MR],[('reuse condition','MemoryRegistry::alloc_inner')],['regions returned by alloc'])
p('C17','A free callback runs once, and only when its region is free',
 "A callback given with an allocation is run exactly once, and not while anyone other than the registry still references that allocation's region as long as the registry exists; it runs at the latest when the region is reused or by the first maintenance that finds it unreferenced.",
 ['histories'],'every history of alloc/alloc_with_free/maintain/release over any time span',
 T+'No test uses callbacks; the failure needs seconds of real time.',
 [MR],[('callback guard and retention rule','alloc_inner, maintain_inner')],['callback invocations'])
p('C18','A successful send means the message was handed over',
 "send returns success only after the whole message was accepted by the bus connection (or by the in-process controller); after a lost connection it rejoins and transmits the very same message again rather than dropping it, and every other way out of send is an error value.",
 ['fault_sequences','histories'],'every sequence of connection losses and rejoin outcomes during a send',
 T+'No test sends.',
 [L,EM],[('retry loop','EndpointSender::send'),('transport result','EncodedMessage::send')],['return value of send vs. messages at the controller'])
p('C19','Losing the controller is repaired by exactly one faithful rejoin',
 "When sender and receiver notice the same lost connection, only one of them rejoins; the rejoin uses the endpoint's original options (identifier, label, token, controller affinity), installs the new connection for both halves, and a receiver that was already dropped stays closed after the rejoin so the bus never waits for it. A failed receive-side rejoin is repaired by the next call instead of leaving the endpoint unusable.",
 ['schedules','fault_sequences'],'every interleaving of concurrent send/recv/drop with connection losses',
 T+'Concurrency and controller death are never exercised.',
 [L],[('epoch comparison under the write lock','send/recv rejoin blocks'),('closed-reader propagation','reader_close')],['endpoint keeps working after controller death'])
p('C20','Sending, receiving and dropping never deadlock on internal locks',
 "No operation of an endpoint acquires an internal lock while already holding it in a conflicting mode, locks are always acquired in one global order, and no operation waits without bound for an incoming message while holding a lock that a concurrent send or drop on the same endpoint needs exclusively.",
 ['schedules'],'every interleaving of send, recv and drop on clones of the same endpoint from any number of threads',
 T+'No test is multi-threaded.',
 [L,LX,FD],[('explicit guard drops before the write lock','send/recv'),('lock nesting','rule -> io_hub / bus_sender / remote')],['progress of send/recv/drop'])
p('C21','recv honours its timeout',
 "recv without a timeout never returns a timeout error; recv with a timeout waits in total no longer than that timeout for a message, however many unrelated wake-ups, skipped messages or new connections occur meanwhile, and timeouts too large for the clock or the kernel interface act as long waits instead of wrapping or panicking.",
 ['inputs','schedules','histories'],'every timeout value and every stream of irrelevant events during the wait',
 T+'No test calls recv.',
 [L,LX,IM],[('deadline computed once per call','recv'),('conversion to kernel milliseconds','IoMultiplexing::wait')],['duration and result of recv'])
p('C22','join honours its timeout',
 "Every retry cycle of join re-checks the caller's deadline, so a join with a timeout ends with success or an error rather than retrying past its deadline forever, and no cycle spins without either waiting or checking the deadline; a timeout too large for the clock acts as an unbounded one.",
 ['inputs','histories','fault_sequences'],'every sequence of lookup/registration outcomes and every timeout value',
 T+'No test joins.',
 [L],[('wait step with deadline check on retry paths','Rule::join')],['duration of join'])
p('C23','In-process sends always wake the controller',
 "A message sent by the endpoint that hosts the controller is queued before the controller is woken, and the controller re-examines the queue after every wake-up before it waits again, so such a message is never left unprocessed while the controller sleeps.",
 ['schedules'],'every interleaving of local sends with the controller loop',
 T+'Lost wake-ups are schedule dependent and nothing runs the controller.',
 [L,LX,IM],[('queue then wake','EndpointSender::send'),('drain before wait, clear then re-check','IoHub::recv')],['delivery latency of locally sent messages'])
p('C24','Bus descriptors do not leak into child processes',
 "Every kernel descriptor the library creates or receives (sockets, accepted connections, event queues, wake-up descriptors, shared memory, attachments) is close-on-exec from the moment it exists, so a program started by a bus member never keeps bus connections or attachments alive.",
 ['histories','schedules'],'every descriptor creation in every history, including an exec racing with it',
 T+'No test spawns a child.',
 [LX,EM,IM,FD],[('close-on-exec flags on every creating call','socket/socketpair/accept/epoll/eventfd/memfd/recvmsg')],['/proc/<child>/fd'])
p('C25','Descriptors are owned: none leaks, none is closed twice',
 "Every descriptor obtained from the kernel is put under exactly one owner that closes it, on every path including error paths; borrowed descriptor numbers are never turned into a second owner.",
 ['histories','fault_sequences'],'every path through every operation that obtains a descriptor',
 T+'No test observes descriptors; leaks show only on error paths.',
 [LX,EM,FD,IM,PM],[('wrapping in the owning type right after the call','look_up, register, accept, recvmsg, obj_new, IoMultiplexing::new')],['descriptor count of the process'])
p('C26','Writing to a dead peer yields an error, never a signal',
 "A write to a connection whose peer is gone is reported to the code as an error; it never raises a signal that would kill the host process, whatever signal disposition the host (Rust, C, C++ or Node) has installed.",
 ['fault_sequences','configurations'],'every write to a socket in every host configuration',
 T+'Rust test binaries ignore the signal, which hides the problem.',
 [EM],[('no-signal flag on every socket write','EncodedMessage::send')],['host process survives a peer death'])
p('C27','Buses with different identifiers never mix',
 "The address an endpoint looks up and the address it registers are computed identically from the identifier, they depend on every byte of the identifier, and two different identifiers never yield the same address.",
 ['inputs'],'every pair of identifiers',
 T+'No test joins two buses.',
 [LX],[('identifier to abstract socket address','identifier_to_socket_addr')],['messages crossing buses'])
p('C28','Foreign-interface handles are freed exactly once',
 "In the C interface every handle passed by value is consumed (freed or taken over) exactly once by that call, every handle passed by reference or obtained by a non-owning getter is left alive, and every handle returned or written to an out-parameter is freshly owned by the caller.",
 ['inputs','histories'],'every exported function and every path through it',
 T+'The foreign interface has no tests.',
 [FFI],[('conversion between handles and boxes','opaque_type!'),('by-value drop functions','ipmb_*_drop')],['memory safety of C callers'])
p('C29','Error reports keep their meaning across API layers',
 "Each failure reason (timeout, decode, version mismatch, token mismatch, permission denied) of join, send and recv is reported under the same name by the rejoin conversions, by the C interface's error codes and by the C++ wrapper; distinct reasons never share a code, success is reported exactly on success, and out-parameters are written exactly on success.",
 ['inputs'],'every error value of every operation in every layer',
 T+'No test observes any error.',
 [ER,FFI,CC],[('conversions and match arms','From<JoinError>, ipmb_join/send/recv, ipmb.cc switches')],['error codes seen by C/C++ callers'])
p('C30','Bindings pass parameters through faithfully',
 "The C, C++ and Node bindings hand the caller's routing mode, label expression, time to live (milliseconds), timeouts (milliseconds, with the documented infinite value meaning none), options, payload format and bytes to the core unchanged, and each label operator builds the operator of the same name over its operands in order.",
 ['inputs'],'every argument of every exported function',
 T+'The bindings have no tests.',
 [FFI,JS],[('argument conversions','ipmb_* functions and napi methods')],['behaviour of C/Node endpoints vs Rust endpoints'])
p('C31','Each Node receive promise settles once, with its own message',
 "Every promise returned by the Node receiver is either settled or still queued, never settled twice and never dropped unsettled: messages and errors are handed to waiting promises first-in first-out, buffered in order when none waits, an expired promise is rejected and removed, and closing rejects all waiting promises.",
 ['schedules','histories'],'every interleaving of receive calls, incoming messages, timeouts and close',
 T+'The Node binding has no tests.',
 [JS],[('queueing of deferreds and messages','Receiver::recv, delegate_receiver, LocalBuffer')],['promises in Node'])
p('C32','Closing a Node receiver always terminates',
 "Closing a receiver completes regardless of traffic: the background receive loop notices the close request within bounded time whether or not messages keep arriving, and it leaves its loop only after it stopped the event-loop delegate.",
 ['schedules','histories'],'every traffic pattern concurrent with close',
 T+'The Node binding has no tests.',
 [JS],[('close handshake polled by the receive loop','join background thread, Receiver::close')],['Receiver.close returns'])
p('C33','Signals do not disturb waiting or sending',
 "A signal handled by the host during a blocking wait or socket transfer is invisible to callers: an interrupted wait or transfer is resumed and is never reported as a timeout, a disconnect or an endpoint death.",
 ['schedules','fault_sequences'],'every point at which a blocking kernel call may be interrupted',
 T+'Interruptions cannot be placed deterministically and no test blocks.',
 [IM,EM],[('retry on interruption around blocking calls','IoMultiplexing::wait, EncodedMessage::{send,from_local}')],['results of recv/send under signals'])
p('C34','Only a dead connection is treated as a dead connection',
 "A message the kernel refuses for its own sake (too large, too many attachments) when it is sent over a bus connection is reported to its sender as an error; it neither makes send retry forever, nor makes the controller evict the endpoint it was addressed to.",
 ['inputs','histories'],'every message size and attachment count, from every kind of endpoint',
 T+'No test sends an oversized message.',
 [EM,L,BC],[('classification of send failures','EncodedMessage::send'),('handling of the classes','EndpointSender::send, handle_message')],['send result for oversized messages; endpoints stay reachable'])
p('C35','A process becomes controller only by exclusively owning the name',
 "An endpoint acts as the bus controller only after it successfully and exclusively bound the bus's name and is listening on it, only when no controller was found there before, and only if its options allow it to be a controller; otherwise it stays a client or keeps retrying.",
 ['schedules','histories','configurations'],'every interleaving of processes joining the same name',
 T+'No test joins; the race needs several processes.',
 [L,LX],[('bind/listen before the controller is constructed','register, Rule::join')],['number of controllers per bus'])
p('C36','Messages between two endpoints arrive in sending order',
 "Messages sent by one endpoint and received by another are received in the order in which the sends completed, as long as neither the controller nor the connection changes.",
 ['schedules','histories'],'every history of sends and receives between a pair of endpoints',
 T+'Ordering over histories needs many messages and processes.',
 [BC,LX,L],[('sequenced-packet sockets and FIFO queues','look_up, IoHub::recv')],['order of received messages'])
p('C37','No acknowledged message is lost when the controller dies',
 "A message for which send returned success is delivered to a live matching endpoint even if the controller process dies right after.",
 ['crash_points','fault_sequences'],'every crash point of the controller',
 T+'Crash points cannot be sampled meaningfully by unit tests.',
 [BC,L],[('none today: messages inside a dead controller are gone','-')],['delivery after controller crash'])
p('C38','One slow endpoint does not stall the bus',
 "An endpoint that stops receiving does not delay delivery between other endpoints beyond a bounded time.",
 ['schedules'],'every relative speed of endpoints',
 T+'Needs load and several processes.',
 [BC,EM],[('blocking socket writes','EncodedMessage::send')],['latency seen by unrelated endpoints'])
p('C39','Encoding then decoding a payload returns an equal payload',
 "For every serialisable payload, the payload received equals the payload sent.",
 ['inputs'],'every value of every payload type',
 T+'Round-trip equality over all values of all user types.',
 [L,MS],[('bincode configuration','encode/decode')],['payload equality'])
p('C40','A crashed receiver does not pin shared memory forever',
 "When a process dies holding or being sent memory regions, their reference counts eventually return to what the surviving holders account for.",
 ['crash_points'],'every crash point of every region holder',
 T+'Needs process crashes.',
 [PM,EM],[('none today: counts live in shared memory and are decremented only by live processes','-')],['ref_count after a crash'])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),'properties.jsonl')
for q in P:
    assert len(q['title'])<=80,(q['id'],len(q['title']))
open(out,'w').write(''.join(json.dumps(q)+'\n' for q in P))
print(len(P))
