TRUST = ("Trusted: the exported MIR of rustc, the table of models for std/libc/bincode functions in engine/src/models.rs, "
         "and that only the Linux build is analysed.")
CLAIMS = {
 "C24": ("flag propagation over MIR (abstract interpretation)", "Every call site in the analysed crates that creates a descriptor has its close-on-exec bit set on every path."),
 "C25": ("ownership typestate of descriptor numbers over MIR (abstract interpretation)", "On every path a descriptor number the kernel created is put under one owner, closed or returned; attachments of a received message are adopted one by one to the last."),
 "C26": ("flag propagation and descriptor provenance over MIR", "Every socket transmission carries MSG_NOSIGNAL on every path; plain writes only reach event counters."),
 "C01": ("path-sensitive abstract interpretation of the controller thread (typestate of connect requests)", "On every path of the controller thread, an endpoint enters the routing list only behind the decode, version, token and acknowledgement steps of that very endpoint."),
 "C03": ("decision tables and membership typestate over MIR (abstract interpretation)", "Every operator's result is the boolean function of its operands' results, every label operation decides by comparing the given text with every element, and the builders store the operands they are given."),
 "C04": ("path-sensitive abstract interpretation of the controller thread", "Every hand-over of a message is dominated by a positive evaluation of its selector on that endpoint's own label."),
 "C05": ("path-sensitive abstract interpretation of the controller thread", "After one accepted hand-over of a unicast message no path offers it again or keeps it."),
 "C06": ("path-sensitive abstract interpretation of the controller thread", "Routing a multicast message leaves the endpoint loop only at its end and skips only non-matching endpoints."),
 "C07": ("path-sensitive abstract interpretation of the controller thread", "Removals from the routing list are tied to a disconnect of that endpoint, and failures to fall-over."),
 "C18": ("path-sensitive abstract interpretation of send (hand-over typestate)", "Every successful return of send is dominated by the acceptance of that very message by the connection or the in-process queue; nothing is sent twice and a lost connection is repaired first."),
 "C19": ("path-sensitive abstract interpretation of send and recv (guard and generation typestate)", "Every rejoin happens under the exclusive lock behind a generation check, with the original options, and the new connection is installed with the receiver's open or closed state."),
 "C20": ("lock-order and held-lock analysis over every path of an endpoint's operations", "No lock is acquired while held, the acquisition order is acyclic, and locks held across unbounded waits are reported."),
 "C23": ("path-sensitive abstract interpretation of send and of the controller's hub", "The queue is filled before the controller is woken; the hub finds it empty after every wake-up before it waits again; the wake-up descriptor is registered for good."),
 "C34": ("errno-aware abstract interpretation of the transmission, send and routing code", "Errors the kernel raises for a message's own sake are never mapped to a disconnect, never repeated, never make send rejoin and never evict an endpoint."),
 "C02": ("path-sensitive abstract interpretation of the controller's answers, of join and of the rejoins", "Every refusal is answered with its own reason; join ends with exactly that reason, never retries it, and succeeds only behind a positive acknowledgement of the request it sent."),
 "C27": ("address provenance in join (value numbering over MIR)", "Looking up and registering use the same address function over the endpoint's identifier and the same length; copies of the identifier into the address are checked for completeness."),
 "C35": ("path-sensitive abstract interpretation of join (ownership typestate of the bus name)", "The controller thread starts only behind a look-up that found the name unused, the controller-affinity option, and a successful bind and listen of the descriptor it accepts on."),
 "C21": ("path-sensitive abstract interpretation of recv (deadline typestate over time terms)", "Every wait of recv is bounded by the time that remains of the caller's timeout, and a timeout is reported only when nothing remains."),
 "C22": ("path-sensitive abstract interpretation of join (deadline typestate over time terms)", "Every wait and retry of join is bounded by the caller's timeout, and join does not give up before."),
 "C09": ("path-sensitive abstract interpretation of the controller thread (reachability of panics and of the end of its loop)", "No path of the controller's thread leaves its loop, and no panic (failed unwrap, explicit panic, arithmetic or time overflow, index whose bounds can be decided) is reachable in it, over all outcomes of receiving, decoding, acknowledging and delivering. Panics inside receiving and decoding of datagrams are C10's.."),
 "C10": ("bounds and panic analysis of the datagram reader over MIR (abstract interpretation with linear length facts)", "Every read, slice, split and arithmetic step on a received datagram is inside the received bytes and cannot panic, for any length, count and field value."),
 "C11": ("layout inference of writer and reader by linear normal forms over MIR, compared field by field", "Position, width, padding and encoding of every field written equals what the reader reads; everything sent is inside the buffer and initialised."),
 "C12": ("loop-exact attachment dataflow over MIR (counter induction over descriptor lists)", "Every attached descriptor is placed once, in order, and divided by the region count at the receiver; room in the control data; counts in step with the lists."),
 "C13": ("path-sensitive abstract interpretation of send, recv, the blanket and the derived decoders (tag provenance)", "The tag sent is computed from the payload sent; a payload is decoded only behind a comparison of its whole tag, as that type and into that variant; unknown types are skipped and decode errors reported, on every path."),
 "C33": ("errno-aware abstract interpretation of the transmission and waiting code", "On every path a system call that was interrupted or found its buffer full is retried or waited for; it is never reported, taken for a lost connection, or dropped."),
 "C08": ("path-sensitive abstract interpretation of the controller thread", "Buffering, expiry and re-routing of messages with a time to live are decided on every path of the controller loop."),
 "C14": ("counting over region lives and hand-over paths over MIR (abstract interpretation of the count in the header)", "On every path of creating, cloning, mapping, sending, receiving and dropping regions the shared count changes by exactly the number of handles (and of regions in flight) that come into being or end."),
 "C15": ("symbolic bounds and layout analysis of region mapping over MIR (linear address arithmetic)", "Every view delivered lies inside its mapping, at the place and with the length of the range asked for, for every range form; refusals need a range that is not inside; the header is where writer and reader agree."),
 "C16": ("may/must dataflow over the registry's free list (who can hold a region again, on MIR paths with library summaries)", "Only a region whose counter was read as 1 on this path is handed out again, with a size that fits and the tag asked for; every other way hands out a new region; a handed-out region leaves the list or keeps the counter that says so."),
 "C17": ("typestate of the release callback over MIR paths of the registry (stored with its region, called when the region is dropped or reused)", "The callback of a region is called exactly when its region is found unused, at most once, and never for a region that is still counted."),
 "C28": ("ownership (typestate) analysis of handles over MIR of every exported C function", "Every handle or object passed by value is taken back exactly once on every path, borrowed ones never, and what is handed out (returned or through out-parameters) is freshly made and given once."),
 "C29": ("outcome-to-code table over MIR of every exported C function and of the core's error conversions (every variant of every error is forked and followed to the return); constant propagation over the LLVM IR of the C++ wrapper for the exception each code becomes", "Each failure reason ends in the code of the same name, codes are distinct, success exactly on success, out-parameters written exactly on success; the rejoin conversions keep the names."),
 "C30": ("symbolic argument-to-callee comparison over MIR of the C and Node bindings (taint with exact values); constant propagation over the LLVM IR of the C++ wrapper", "What the core is called with, and what the caller gets back, is the caller's value under the documented conversion, on every path of every exported function."),
 "C31": ("typestate of promises and received messages over MIR of the delegates (abstract interpretation)", "On every path of the delegates and of the promise maker, a promise taken from the queue (or made) is settled exactly once or queued, and a queued one only while open and nothing is buffered; the outcome of a receive goes to the first waiting promise or is buffered last; the clean-up and the closing go through the whole queue. Paths on which a call into the Node runtime itself fails are not judged."),
 "C32": ("path analysis of the background receive loop over MIR (abstract interpretation)", "Every round of the receive loop looks for a close request, every wait in it is bounded, the loop is left only after the delegate was stopped, and the event-loop queue is unbounded so that passing an outcome on never blocks."),
}
NA = {
 "C36": "an ordering of histories across processes and kernel queues; nothing in the code's shape decides it",
 "C37": "not provided by the design; a statement about crash histories of two processes",
 "C38": "quantifies over run-time delays of blocking kernel calls",
 "C39": "value equality through bincode and user Serialize implementations",
 "C40": "quantifies over crash points of other processes",
}
