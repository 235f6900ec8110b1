#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so the long texts stay reviewable)."""
import json, os
S='app/roster/src/'
SRV=S+'application/server/'
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":hook}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    assert len(title)<=80,(id,len(title))
    P.append({"id":id,"title":title,"statement":statement,
      "quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

p("C01","SET and GET on shared keys are linearizable across all connections",
 "Every SET and GET, from whatever connection and served by whatever core, appears to take effect atomically at one instant between the arrival of the request and the delivery of its reply, so that a GET returns exactly the value of the latest SET of that key in that order, or null if there is none. An acknowledged SET is never lost, torn, applied twice, applied to another key or overwritten by an older one, and the requests of one connection take effect in the order they were sent.",
 ["schedules","histories","inputs","fault_sequences"],
 "all interleavings of the server's threads (down to single atomic operations) and tasks, all histories of SET/GET by any number of clients over any keys and values, with connections spread over any cores and dropped at any point",
 "The existing tests parse single commands; none runs two connections at once, so no schedule of the shared map is ever sampled.",
 [S+'domain/storage/mod.rs',SRV+'cmd/get.rs',SRV+'cmd/set.rs',SRV+'server_thread.rs'],
 [("one lock-striped concurrent map shared by every core",S+'domain/storage/mod.rs StorageSegment::{set_async,get_async}'),("answers produced in request order per connection",SRV+'handle.rs answer_in_order_handle')],
 ["replies of SET and GET at the clients' sockets"],
 [("db","the keyspace",S+'domain/storage/mod.rs StorageSegment.db')])

p("C02","Expiry: a key lives exactly its EX/PX time, and only the last SET's",
 "After an acknowledged SET with EX s or PX ms, the key is readable until that much time has passed on the monotonic clock and is null afterwards, within one clock tick plus the request latencies, for every s and ms in the 64-bit range and whatever jumps the wall clock makes. A SET always replaces any earlier time to live (a plain SET makes the key permanent), and a concurrent reader that notices that an old value has expired never removes a newer one.",
 ["schedules","histories","inputs","fault_sequences"],
 "all TTLs (0 to 2^64-1), all interleavings of setters and readers around the expiry instant, clock granularities of 1-10 ms, wall-clock jumps, and threads stalled between reading the clock and touching the keyspace",
 "No test sets a TTL or advances a clock; the interesting cases are races at the instant of expiry and clock faults, which wall-clock tests cannot steer.",
 [S+'domain/storage/mod.rs',SRV+'cmd/set.rs',SRV+'context.rs'],
 [("expiry instant computed when the SET is applied",SRV+'cmd/set.rs'),("lazy expiry on read, removal under the entry lock",S+'domain/storage/mod.rs get_async'),("fresh coarse monotonic time per command",SRV+'context.rs now')],
 ["replies of GET against the simulated monotonic clock"])

p("C03","Pipelining: one reply per complete request, in request order",
 "On every connection each complete request yields exactly one reply, and replies are delivered in the order of the requests, each being the reply that request calls for (PING, HELLO, SET, GET, the CLIENT family, ACL and unknown commands). This holds however many requests are pipelined, however they interleave with other connections, and whatever the batch boundaries are.",
 ["schedules","inputs","histories"],
 "all sequences of well-formed requests, all pipeline depths and batchings, all task and thread schedules",
 "Tests parse one command at a time and never open a socket; the queue between the reading and the answering task is untested.",
 [SRV+'handle.rs',SRV+'connection.rs',SRV+'cmd/mod.rs'],
 [("reader task -> unbounded queue -> single answering task",SRV+'handle.rs run_internal'),("dispatch of a frame to its command",SRV+'cmd/mod.rs Command::from_frame')],
 ["the byte stream received by each client"])

p("C04","Replies do not depend on how the request bytes are segmented",
 "For any byte stream of requests, the replies are the same whether it arrives in one piece, one byte at a time, or cut at any offsets with any delays, and whatever the sizes of the requests relative to the server's buffers. Values are binary-safe: a value read back is byte-for-byte the value set, for any bytes and any length.",
 ["schedules","inputs","fault_sequences"],
 "all segmentations of the request stream (including inside a length, a CRLF or a value), request sizes from a few bytes to far above the read buffer, short reads, all timings",
 "Tests hand the parser one complete buffer; a frame split over two reads is never exercised.",
 [SRV+'connection.rs',SRV+'frame/mod.rs'],
 [("incremental parse of the read buffer",SRV+'connection.rs ReadConnection::{read_frame,parse_frame}'),("completeness check before parsing",SRV+'frame/mod.rs Frame::check')],
 ["replies at the client socket, compared with the reference model of the request stream"],
 [("buffer","bytes received but not parsed yet",SRV+'connection.rs ReadConnection.buffer')])

p("C05","Every reply reaches the client whole and well-formed, at any size",
 "Whatever the size of a reply and however slowly or partially the socket accepts it (short writes, full send buffers, a reader that stalls and resumes), the client receives every byte of it exactly once and in order, and the stream parses as a sequence of well-formed protocol values. A reply is never truncated while the connection stays open.",
 ["schedules","inputs","fault_sequences"],
 "all reply sizes (around and above every internal buffer boundary), all sequences of partial writes, slow and stalling readers",
 "Unit tests write frames into a vector that accepts everything at once; short writes and the buffered writer's boundaries never occur.",
 [SRV+'frame/write.rs',SRV+'connection.rs'],
 [("frame encoder",SRV+'frame/write.rs write_frame/write_value'),("buffered writer and flush per frame",SRV+'connection.rs WriteConnection::write_frame')],
 ["the byte stream received by each client"])

p("C06","No client input or disconnection stops the server or disturbs others",
 "Whatever bytes a client sends (malformed, truncated, oversized, hostile or unsupported) and however its connection ends (close, half-close, reset at any point), the server process keeps running, and every other connection, existing or new, keeps getting correct replies. At most the offending connection is terminated.",
 ["inputs","schedules","fault_sequences"],
 "all byte strings, all points of disconnection (including while replies are being written), all schedules of the tasks of a connection and of other connections",
 "Tests only check that some malformed commands give a parse error; nothing checks what the server does with that error while other clients are connected.",
 [SRV+'server_thread.rs',SRV+'handle.rs',SRV+'frame/mod.rs',SRV+'cmd/'],
 [("an error terminates the current connection only",SRV+'connection.rs parse_frame, '+SRV+'server_thread.rs'),("checked parsing of untrusted lengths and nesting",SRV+'frame/mod.rs')],
 ["server process state; replies on bystander connections; ability to open new connections"])

p("C07","A malformed request ends its connection and nothing after it takes effect",
 "When a connection sends something that is not a valid request, the server closes that connection within a bounded time, replies at most to the requests preceding it, correctly and in order, and neither the offending request nor anything sent after it on that connection has any effect on the keyspace or on other connections. Requests that precede it and were answered have taken effect.",
 ["inputs","schedules","histories"],
 "all malformed requests at any position of a pipelined stream, all segmentations, all schedules of the reading and answering tasks",
 "Tests never send a malformed request over a connection, nor look at the state afterwards.",
 [SRV+'handle.rs',SRV+'connection.rs',SRV+'cmd/parse.rs',SRV+'cmd/set.rs'],
 [("error aborts the connection's tasks",SRV+'handle.rs run_internal'),("command parsing completes before the command is applied",SRV+'cmd/mod.rs Command::from_frame')],
 ["closing of the offending socket; keyspace contents read by other connections"])

p("C08","Half-close: requests received before end of stream are all answered",
 "A client may send its requests and then close its sending side: every complete request sent before that is still executed and answered in order, after which the server closes the connection. The connection is listed as connected until then.",
 ["schedules","histories","inputs"],
 "all pipelines followed by end of stream, all schedules in which end of stream is noticed before, while or after the queued requests are answered, slow readers included",
 "It depends on the race between the task that sees end of stream and the one that answers; no test has a socket.",
 [SRV+'handle.rs',SRV+'server_thread.rs'],
 [("answering task drains the queue after the reader stops",SRV+'handle.rs run_internal')],
 ["replies received after half-close; end of stream from the server"])

p("C09","Client ids are unique, stable, and ordered by connection time",
 "The id a connection reports is the same each time it is asked and in every command that reports it, and is never shared by two connections, at the same time or one after the other, on whatever cores they were accepted. If one connection was established and answered before another was opened, its id is smaller.",
 ["schedules","histories"],
 "all interleavings of accepts on all cores, all connect/disconnect/reconnect histories",
 "Uniqueness and order across cores is a property of concurrent accepts; tests never accept a connection.",
 [SRV+'supervisor/mod.rs',SRV+'cmd/client/id.rs',SRV+'cmd/hello.rs'],
 [("atomic counter shared by all cores",SRV+'supervisor/mod.rs assign_new_connection')],
 ["CLIENT ID, CLIENT INFO, CLIENT LIST and HELLO replies"],
 [("current_id","next id",SRV+'supervisor/mod.rs')])

p("C10","CLIENT LIST and CLIENT INFO describe exactly the live connections",
 "An unfiltered CLIENT LIST contains exactly one entry for every connection that was established before it was sent and is still open, no entry for any connection that was over before it was sent (beyond a bounded delay for the server to notice), and no duplicates. Each entry, and CLIENT INFO, gives that connection's own id, peer address, local address and name.",
 ["schedules","histories","fault_sequences"],
 "all histories of connects, disconnects (clean, half-close, reset, protocol error) and listings, on all cores, all schedules",
 "Needs several live connections and their ends to race with a listing; tests only parse the command.",
 [SRV+'supervisor/mod.rs',SRV+'cmd/client/list.rs',SRV+'cmd/client/info.rs',SRV+'server_thread.rs'],
 [("registry of connections shared by all cores",SRV+'supervisor/mod.rs'),("deregistration when a connection's handler ends",SRV+'server_thread.rs')],
 ["CLIENT LIST and CLIENT INFO replies"])

p("C11","A connection's name is its own: set, read, shown and cleared exactly",
 "A connection starts without a name; after CLIENT SETNAME succeeds, CLIENT GETNAME on it returns exactly that name until the next successful SETNAME, an empty name clears it, and no other connection's name changes. Listings from any connection show the name a connection has at that moment.",
 ["schedules","histories","inputs"],
 "all names, all histories of naming, reading, listing and reconnecting on concurrent connections, all schedules",
 "Tests only parse these commands; isolation and visibility between connections on different cores is never observed.",
 [SRV+'supervisor/mod.rs',SRV+'cmd/client/set_name.rs',SRV+'cmd/client/get_name.rs'],
 [("per-connection name behind an async lock",SRV+'supervisor/mod.rs MetadataConnection')],
 ["CLIENT GETNAME, INFO and LIST replies"])

p("C12","No client text can forge protocol: replies keep their framing",
 "Whatever text a client puts in a command name, subcommand name, key, value, message or connection name, every reply on every connection stays exactly one well-formed protocol value of the expected kind, and every listing keeps one parseable entry per connection. In particular no client can inject bytes that another client, or itself, would read as an additional reply, line or field.",
 ["inputs","histories"],
 "all strings, including CR, LF, spaces, NUL and non-ASCII, in every text position of every command, seen by every connection",
 "Tests use friendly ASCII names only and never re-parse what the server emits.",
 [SRV+'cmd/unknown.rs',SRV+'cmd/client/set_name.rs',SRV+'supervisor/mod.rs',SRV+'frame/write.rs'],
 [("error text built from client input",SRV+'cmd/unknown.rs'),("listing text built from client input",SRV+'supervisor/mod.rs format_conn')],
 ["the byte stream received by each client"])

p("C13","Transient accept and socket errors never stop the server accepting",
 "When accepting or setting up a connection fails (descriptor limit, aborted connection, out of memory, peer already gone), the server keeps running, keeps serving the established connections, and accepts new connections again once the condition is over.",
 ["fault_sequences","schedules"],
 "all sequences of accept, socket-option and address-query errors, on any subset of cores, at any moment",
 "Such errors cannot be provoked in unit tests and none tries.",
 [SRV+'server_thread.rs'],
 [("accept loop",SRV+'server_thread.rs initialize')],
 ["success of connections opened after the faults stop; replies on established connections"])

p("C14","Progress: every request is answered in bounded time, whoever else stalls",
 "Once faults stop, every connection whose client keeps reading gets the reply to each complete request within a bounded time. This holds whatever other clients do: not reading their replies, sending half a request and stopping, never sending anything, flooding, or vanishing.",
 ["schedules","fault_sequences","histories"],
 "all behaviours of other clients on the same or other cores, all schedules, slow or stalled server threads that eventually resume",
 "Absence of lost wake-ups, deadlocks and head-of-line blocking is a statement about all schedules; tests have no concurrent clients.",
 [SRV+'handle.rs',SRV+'server_thread.rs',S+'domain/storage/mod.rs',SRV+'supervisor/mod.rs'],
 [("one task pair per connection on a per-core event loop",SRV+'server_thread.rs, '+SRV+'handle.rs'),("no lock held across a socket write",SRV+'cmd/')],
 ["reply latency in simulated time after faults stop"])

p("C15","A finished connection gives everything back, however it ended",
 "When a connection is over (closed by the client, half-closed, reset, or terminated by the server for an error), the server closes its socket exactly once within a bounded time and forgets everything it held for it, so descriptors and memory stay bounded by the live connections and live data under any amount of connection churn. Its tasks do not outlive it.",
 ["histories","fault_sequences","schedules"],
 "all connection histories of any length, all ways of ending, at any point of a request or reply",
 "Leaks show over long histories and on error paths; tests open no connection.",
 [SRV+'supervisor/mod.rs',SRV+'server_thread.rs',SRV+'handle.rs'],
 [("socket closed when the handler's halves are dropped",SRV+'handle.rs'),("registry entry per connection",SRV+'supervisor/mod.rs')],
 ["open simulated descriptors and live heap bytes after churn; end of stream at the client"])

p("C16","The configured connection limit is enforced and recovers",
 "The server never serves more connections at once than the configured maximum. When the maximum is reached, further connections wait until an active one ends, however it ends, and are then served.",
 ["configurations","histories","schedules"],
 "all limits, all histories of connects and disconnects over all cores, all schedules of concurrent accepts",
 "Enforcement across cores is a property of concurrent accept histories; no test configures a limit.",
 [SRV+'mod.rs',SRV+'server_thread.rs',S+'infrastructure/config/mod.rs'],
 [("configured limit shared by all accept loops",SRV+'mod.rs ServerConfig.connections_limit')],
 ["number of connections that get replies at the same time"])

p("C17","Any partition of the key space covers every hash slot exactly once",
 "However many parts the key space is divided into, every hash slot belongs to exactly one part and the parts together are the whole slot range; the slot of a key depends only on the key.",
 ["inputs","configurations"],
 "all numbers of parts and all keys",
 "Tests do not exercise the partition; it is a pure function of its inputs.",
 [S+'domain/storage/mod.rs',S+'infrastructure/hash/mod.rs'],
 [("partition of the slot range",S+'domain/storage/mod.rs Storage::new'),("hash of a key",S+'infrastructure/hash/mod.rs')],
 ["ranges of the parts"])

p("C18","The server starts as configured, or not at all",
 "The address the server listens on and the number of connections it serves at once are exactly those given by the configuration file that CONFIG_FILE_LOCATION names, each overridden by its environment variable (ROSTER_BIND_ADDR, ROSTER_MAX_CONNECTION) when that is set; it listens nowhere else. When the file is not named, missing, unreadable (even part of the way), not well-formed, or when a setting is missing or not valid (an address that does not parse, a limit outside 0-65535 or not a number), the program ends with an error before it listens anywhere. When it cannot listen on the address or cannot be set up, it either serves there all the same or ends with an error; it never ends as if all were well, or stays without serving.",
 ["configurations","inputs","fault_sequences","schedules"],
 "all configuration files, environments and .env files, all read errors, short and interrupted reads of them at any offset, all failures of the system calls that set the server up, all schedules of the start of the threads, all numbers of cores",
 "No test loads a configuration or runs main; the existing tests build the server by hand. What happens when the read fails part of the way, or when file and environment disagree, and whether the limit that was read is the one that is enforced on every core, shows only when the program is started under those conditions.",
 [S+'infrastructure/config/mod.rs',S+'main.rs',SRV+'mod.rs'],
 [("layered configuration",S+'infrastructure/config/mod.rs Cfg::from_env'),("from the configuration to the server",S+'main.rs main'),("one listener per core",SRV+'server_thread.rs')],
 ["addresses of the listening sockets","number of connections that get replies at the same time","exit status"])

p("C19","A server that has nothing to do leaves the processor alone",
 "While no request can be answered and nobody's state changes, the server's threads sleep: the processor time it takes over any longer stretch is a small fraction of that stretch, however many connections are open and in whatever state they are (idle, in the middle of a request, with replies their client does not read, half-closed, waiting for the connection limit, just ended), and while accepting connections fails because of a shortage that lasts. When there is something to do again it is done.",
 ["histories","schedules","fault_sequences"],
 "all sets of open connections and the states they can be left in, all limits, all errors of accept that last, all schedules and completion orders on the way there",
 "A task that polls instead of waiting gives every right answer, so no assertion on replies notices it; it shows only when the server is left alone in one of those states for some time.",
 [SRV+'server_thread.rs',SRV+'handle.rs',SRV+'connection.rs'],
 [("accept loop and what it does when accepting fails or the limit is reached",SRV+'server_thread.rs initialize'),("reading and answering tasks wait on I/O or a channel",SRV+'handle.rs run_internal, '+SRV+'connection.rs read_frame')],
 ["processor time of the server's threads over idle stretches; replies afterwards"])

p("C20","What becomes of its output does not stop the server",
 "Whatever happens to the server's standard output and standard error (closed at the other end, on a full or failing disk, a pipe that nobody drains), from its start on and at any later moment, the server with a valid configuration starts, keeps running, and answers every request of every connection, old or new, on every core.",
 ["fault_sequences","inputs","schedules"],
 "every moment from which output fails or blocks, every error of writing it, every workload next to it, every schedule",
 "Tests run with an output that works; a write to it from a thread that serves connections panics or blocks only where that output fails, and only on the requests, counts and errors that print.",
 [SRV+'mod.rs','app/roster/src/main.rs','app/roster/src/domain/storage/mod.rs'],
 [("the banner, and all else that is printed",'app/roster/src/main.rs main'),("threads that serve",SRV+'server_thread.rs initialize')],
 ["writes to descriptors 1 and 2; the process living on; replies"])

out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'properties.jsonl')
with open(out,'w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
print(len(P),'properties')
