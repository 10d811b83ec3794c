head = r'''# Static verification of bytedance/ipmb

What is decided, how, against what, and what is not.  `properties.jsonl` states the properties, `MANIFEST.json` lists
the claimed checks, `known_findings` the genuine defects (repaired and recorded).

## Method

* `driver/` is a `rustc_private` compiler driver.  Used as `RUSTC_WRAPPER` under `cargo +nightly check` it compiles the
  *current* `/repo` sources with the real build's flags and writes the resolved program (MIR before optimisation with
  drop elaboration, resolved callees and trait impls, evaluated constants, types, spans) of `ipmb`, `ipmb-ffi`,
  `ipmb-js` and of `fixture/`.
* `fixture/` mentions every public API of `ipmb` once with concrete types (including a derived `MessageBox` enum), so
  that generic and macro-generated code is analysed with concrete instantiations.  It is never executed.
* `engine/` is the analyser: an interprocedural, path-sensitive abstract interpretation over that program.  Calls are
  analysed in context (callee bodies of the workspace are entered, std/libc/bincode/napi are modelled in
  `models.rs`), loops run to a fixpoint, branches fork on what the path already knows.  Values are symbolic terms
  (value numbers); `lin.rs` keeps linear facts between lengths and offsets, `rel.rs` order facts between instants,
  `errno` is tracked after a failed system call.  Each property is a *monitor* (`rules/*.rs`): a typestate automaton, a
  taint rule or a counting rule that sees the calls, assumptions, stores, panics, loop heads and returns of every path
  and keeps its own ghost state, joined like any other state.  A violation is reported with the construct (function,
  file and line) and the path of events to it.
* `cc/` decides the C++ wrapper (`ipmb-ffi/ipmb.cc`): probes are compiled to LLVM IR with the C interface replaced by
  one fact ("it reports code K" / "note what you are given"), and the optimiser's constant propagation and value
  numbering prove what each wrapper function then returns.  Nothing is linked or run.
* `run.py PROPERTY` re-exports the program when any source file changed (content digest; the build-script-generated
  header is put back as committed), runs the monitors, writes `evidence/PROPERTY.json` and prints
  `VIOLATION property=… replay=…` for every violation `known_findings` does not list.

No code of ipmb is run and no path is handed to a solver.

**Soundness and its limits.**  The interpretation explores all paths of the entry points it names in the evidence, over
all outcomes of system calls, decoding, locks and channels, up to: the models of library functions (trusted); code
outside the Linux build; unsafe aliasing other than through the pointers the code itself derives; and a budget (420 s,
12 GB per run; typical runs take 1-60 s).  When the budget ends a run the check says `INCOMPLETE` and the evidence has
`fixpoint_reached: false`: what was explored up to then is judged, the rest is not.  On the unchanged tree every check
reaches its fixpoint.  When the analysis meets something it cannot interpret, the value is unknown; rules
that need a definite bad value stay quiet on unknowns unless the property is an obligation that must be shown (bounds,
ownership, reporting), where a value of a kind the rule knows but cannot relate is reported.

**Judging what the code does.**  Rules are keyed to library calls (`sendmsg`, `epoll_wait`, `Mutex::lock`, `Vec::push`),
to data (the element a value came from) and to public names of the API, not to statement order or local names; helper
functions are entered, so extracting or inlining them is invisible.  `/tmp`-style mutation suites (some 500 edits: about
330 bugs, 150 behaviour-preserving rewrites) were used throughout to strengthen rules and to remove false alarms.

## Properties, one by one

"Oracle" is the statement of the property; bounds: none unless named (loops are taken to a fixpoint).

'''
rows = [
("C01","controller.rs, label.rs","typestate of a connect request through the controller's thread: an endpoint is pushed to the routing list only on paths where this request decoded, `Version::compatible` was true on its version, its token was compared equal (whole strings) and its positive acknowledgement was sent without error; `compatible` is compared with the decision table of its two majors and minors."),
("C02","controller.rs, join.rs, client.rs","each refusal on the controller's side is answered with the acknowledgement of its own reason; the joiner maps every acknowledgement and its own receive errors to exactly that reason, never retries it, and succeeds only behind a positive acknowledgement of the request it sent; a rejoin hands the reason on."),
("C03","label.rs","decision table of `LabelOp::validate` for every operator over its operands' results; membership/insert/remove as typestate over the comparison of the given text with every element; builders keep operands and order."),
("C04","controller.rs, client.rs","every hand-over (connection, own queue, return of recv) is dominated by a positive evaluation of the message's own expression on that endpoint's own label."),
("C05","controller.rs","after an accepted hand-over of a unicast message no path of the routing attempt offers it again or keeps it."),
("C06","controller.rs","the endpoint loop of a multicast is left only at its end; an element is skipped only because its label does not match."),
("C07","controller.rs","an endpoint leaves the list exactly on paths where delivery to *that* endpoint (or the reachability probe) reported a disconnect; a failed delivery never sets the routed state."),
("C08","controller.rs","kept iff not delivered and ttl non-zero; deadline = arrival + ttl, unchanged by re-offering; re-offered once, in order, when an endpoint connected, unless expired; expired ones are removed."),
("C09","controller.rs","reachability of panics and of the end of the loop on the controller's thread, over all receive/decode/acknowledge/deliver outcomes; recursion over peer-supplied types. Exempt: additions of small constants, constant durations, and index bounds whose terms mention a loop variable (not decided)."),
("C10","rx.rs","bounds and panics of the datagram reader with linear length facts for every claimed length and count."),
("C11","rx.rs","layout (position, width, padding, encoding) of writer and reader inferred as linear normal forms and compared; every byte sent is inside the buffer and initialised."),
("C12","rx.rs, msg.rs","loop-exact dataflow of descriptors from the message's lists into the control data and back (counter induction); control buffers large enough; counts in step with lists; forwarding reuses the same control data."),
("C13","msg.rs, client.rs","provenance of the tag sent; decode only behind whole-tag comparison, as that type and into that variant (blanket and derived `MessageBox`); unknown types skipped, decode errors reported, on every path of recv."),
("C14","region.rs","the shared count as a ghost per region: create = 1, clone/open +1, drop -1, send +n before the transmission and -n on every failing way out, receive takes the in-flight count over."),
("C15","region.rs","address arithmetic of map in linear terms: the view lies inside its mapping and is the range asked for; refusal iff the range is not inside; header layout of writer and reader agree."),
("C16","registry.rs","a region handed out again was read as count 1 on this path, with fitting size and same tag, and leaves the list or keeps the count that says so."),
("C17","registry.rs","typestate of the callback: stored with its own region, called exactly once and only when the region was found unused."),
("C18","client.rs","success of send is dominated by acceptance of this very message; nothing is sent twice; a lost connection is repaired before the retry; panics reachable in send are reported (one finding)."),
("C19","client.rs","each rejoin is under the exclusive lock, behind a generation check, with the original options, and installs the connection with the receiver's open/closed state; a failed rejoin is an error value."),
("C20","client.rs","held-lock sets on every path of send/recv/drop/clone: no re-acquisition, acyclic order, locks held over unbounded waits (one finding)."),
("C21","deadline.rs","time terms: every wait of recv is at most what remains of the caller's timeout, Timeout only when nothing remains; conversions to the kernel's interface saturate."),
("C22","deadline.rs","the same for join: each cycle waits or checks, with the deadline computed once."),
("C23","client.rs, wake.rs","message queued before the wake-up; the hub reads the queue after every wake-up and before every wait; waker registered and cleared."),
("C24","flags.rs","flag propagation to every creating call site (close-on-exec at birth)."),
("C25","fds.rs","ownership typestate of descriptor numbers; adoption loops over received descriptors go to the last."),
("C26","flags.rs","MSG_NOSIGNAL at every socket write; plain writes only on event counters."),
("C27","join.rs","same address function, same identifier, same length in look-up and registration; copy completeness (one finding: 106 bytes)."),
("C28","ffi.rs","ownership typestate of handles in every exported C function."),
("C29","ffi.rs, client.rs, cc/probe.cc","outcome-to-code table: every variant of every core error forked and followed to the code returned; out-parameters written exactly on success; rejoin conversions keep the names; C++: for every code the `Error` returned by send/recv/join is that of the same name, the handle is made exactly on success."),
("C30","ffi.rs, node.rs, cc/params.cc","what reaches the core (or comes back) is the caller's value under the documented conversion, for every exported C function, for the C++ wrapper's calls and for the Node binding."),
("C31","js.rs","typestate of promises and results in the delegates; paths on which the Node runtime itself fails are not judged."),
("C32","js.rs","every round of the background loop looks for a close request, all waits bounded, left only after the delegate is stopped."),
("C33","wire.rs, deadline.rs, errno.rs","errno-aware: EINTR/EAGAIN are resumed, never reported, never taken for a lost connection. Exempt: `recvmsg` errors end that connection by design; `connect` is retried by join."),
("C34","wire.rs, client.rs, controller.rs","errors of a message's own (EMSGSIZE, E2BIG, ETOOMANYREFS, EINVAL …) never map to Disconnect, never loop, never evict."),
("C35","join.rs","the controller is started only behind a look-up that found no one, affinity, a successful exclusive bind and listen of the descriptor it accepts on."),
]
tail = r'''
## Not applicable to static analysis

* C36 (end-to-end ordering): an ordering of histories across processes and kernel queues; nothing in the code's shape decides it.
* C37 (durability of acknowledged messages across a controller crash): not provided by the design; a statement about crash histories.
* C38 (a slow endpoint does not stall others): quantifies over run-time delays of blocking kernel calls.
* C39 (payload round trip): value equality through bincode and user Serialize implementations.
* C40 (region counts after a crash): quantifies over crash points of other processes.

## Genuine defects

Repaired (one `fix:` commit each, see `known_findings`): C02 C08 C09 C10 C11 C12 (2) C13 C15 C17 C21 (2) C22 C24 C25 C26
C30 C32 C33 C34.  Recorded, not repaired, because the repair is not small and safe:

* C18: `send` panics when the payload cannot be encoded (`SendError` has no variant for it; public API).
* C20: `recv` holds the endpoint's read lock while it waits without bound; `send` on a lost connection needs the write lock.
* C27: identifiers longer than 106 bytes are cut (the address format would change for existing peers).
* C09: a joined peer can send a label expression nested 100000 deep; decoding and evaluating it recurse and overflow the
  controller's stack (demonstration: `findings/C09-nested-labels/main.rs`).  A limit belongs in the wire format.

No hooks were added to `/repo`; `MANIFEST.json` lists none.

## False alarms met and corrected

* C05/C06 alarmed on index loops and on `retain` rewritten as drain-and-push: element identity is now kept through
  `remove`, `pop`, `swap_remove` and re-insertion (`fresh_beside`, `rekey`).
* C10/C12 alarmed on reads through `ptr.add(i)` in counting loops: `Range::next` fires the assumption `start < end`.
* C25/C12 assumed list lengths that a join forgot: lengths of joined lists are joined.
* C31 (unreleased state of an earlier iteration taken for a second settlement): promises are re-keyed at loop heads.
* C09: additions of small constants and spans of constant durations were reported as overflows; index bounds over loop
  variables cannot be decided by the linear domain and are not judged.
* C33's statement covers waits and transfers of messages; `accept4` and `recvmsg` failing are treated by the code as the
  end of that event, which the property does not forbid.
* C35/C22: a look-up error other than "not in use" may be retried; only the deadline is judged.
* An engine failure (a construct it cannot interpret) is not reported as a violation; the check then exits 2.

Known imprecision: a two-pass rewrite of routing that first collects the indices of dead endpoints and then removes
them by index would be reported by C07, because the analysis does not relate stored indices to elements.  Known
misses (from the mutation suites): C34 `evict-io` in code the linear errno facts do not reach; dead code.

## Observations outside the claims

Interior NUL in an identifier panics in join; the lock of a concurrent `send`'s rejoin can delay `recv(timeout)`; join's
in-use arm spins without a pause; more than five acknowledgement timeouts are reported as VersionMismatch(0,0,0); a peer
that never joined can inject routable messages; `alloc_buffer` frees with a different alignment than it allocated with;
a hostile region descriptor smaller than its header raises SIGBUS when mapped; a hostile header size overflows in map;
`min_size * 2` in the registry can overflow; a failed clone in `alloc_with_free` drops the callback; a user `MessageBox`
that returns other errors from decode hits `unreachable!` in recv; a derived enum with two variants of one type has an
unreachable second variant; a region that fails to map leaks the in-flight counts of the remaining ones; an empty map at
a page boundary is refused; lengths over u32 are truncated by `ipmb_message_bytes_data`; expired Node promises are
cleaned only while the receive loop is idle; a failing napi call leaves its promise unsettled.

## Planted bugs and what catches them

`seeded/` holds one bug per directory (made with `tools/mkseed.py` from the text of a property and the code, then run:
builds, passes the stable tests, its demonstration fails with it and passes without).  Each is caught by the check of
the property it names:

'''
import json,os,glob
out=head
for i,f,t in rows:
    out+=f"* **{i}** (`{f}`): {t}\n"
out+=tail
out+="| planted bug | property | what it breaks | caught by |\n|---|---|---|---|\n"
caught=json.load(open('/verif/tools/caught.json')) if os.path.exists('/verif/tools/caught.json') else {}
for d in sorted(glob.glob('/verif/seeded/*/meta.json')):
    n=d.split('/')[-2]; m=json.load(open(d))
    out+=f"| {n} | {m['property']} | {m['what_it_breaks']} | {caught.get(n,m['property'])} |\n"
open('/verif/DESIGN.md','w').write(out)
