#!/usr/bin/env python3
# Writes /verif/properties.jsonl. The catalogue is kept here so that statements stay reviewable.
import json, os
P=[]
def p(id,title,statement,over,text,why,files,symbols=None):
    a={"files":files}
    if symbols: a["symbols"]=symbols
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,anchors=a))

p("C01","Every record type keeps its protocol identity on the wire",
"Each of the fifteen protocol record types is registered under its own protocol record code (0-14), and every attribute of it travels under its protocol attribute code with its protocol value type, the identity being attribute 1 and required. Every type that the library can decode from the wire is usable as a record and reports the type name flow/v1/<its type name>, so a peer speaking the protocol and this library always read the same bytes as the same record and no valid message is refused because of a record type in it.",
["inputs","configurations"],"all record types, all attributes of each, every peer that speaks the protocol",
"Tests encode and decode a few attributes of a few record types against the same tables they were written from; a swapped or shared code, a changed value type or a type that cannot be used as a record survives a round trip through the same library.",
["records.go","base.go","encoding/encoding.go"],["MustRegisterRecord","GetTypeMeta"])

p("C02","Record encoding and decoding is complete, and failures are reported",
"Encoding a registered record yields its record type plus one entry for every declared attribute that is set, each under that attribute's code, and decoding assigns every declared attribute present in the set to the field that declares it. Only an unset optional attribute is left out silently: a missing required attribute, a record type that is not registered, and an attribute value that its field cannot take are each reported as an error by encode or decode.",
["inputs","programs"],"every registered record type (including embedded structs), every subset of set attributes, every attribute set",
"The tests exercise a handful of struct shapes; the guarantee quantifies over every declared attribute of every registered type and over every error an attribute may report.",
["encoding/encoding.go","encoding/encoder.go","encoding/decoder.go"],["Encode","Decode","MustRegisterRecord"])

p("C03","No received message can crash a consumer",
"Whatever message arrives from the network - any section missing, any subject, any body, any attribute key or value including null - decoding it and the discovery, client and manager loops that consume it never panic: they produce a result or report/skip an error.",
["inputs"],"all AMQP messages a peer can send, all record attribute sets",
"Tests feed well formed messages and a few malformed ones; one unchecked pointer, type assertion or reflective operation on an untested shape takes the whole process down.",
["messages.go","encoding/decoder.go","encoding/encoding.go","base.go","eventsource/discovery.go","eventsource/client.go","eventsource/manager.go"],["Decode","DecodeBeacon","DecodeHeartbeat","DecodeFlush","DecodeRecord","Discovery.Run","Client.Listen","Manager.Run"])

p("C04","Message envelopes mean the same to sender and receiver",
"Every field of a beacon, heartbeat, flush or record message that is written when the message is encoded is read back from the same place and with the same type when it is decoded, into the same field, and encoding sets the protocol subject, destination address and application property names. A received message is decoded as the kind its subject names, any other subject is refused, and a record message carries all its records in order or the failure is reported.",
["inputs"],"all values of all message fields, all subjects",
"Round trip tests use fixed values with the same constants on both sides; a property name, type or subject that drifts on one side for one kind, or a record dropped from a batch, is not visible to them.",
["messages.go"],["Decode","BeaconMessage.Encode","HeartbeatMessage.Encode","FlushMessage.Encode","RecordMessage.Encode"])

p("C05","Timestamps are exact or refused, never wrapped",
"A timestamp attribute is sent as an unsigned count of microseconds since the Unix epoch and read back as the instant that count denotes. A zero time is treated as not set, and a time before the epoch, a received value that is not an unsigned 64-bit count or one too large to represent is reported as an error and never turned into some other time.",
["inputs"],"all time values on encode, all attribute values on decode",
"The tests sample a few instants; unit, sign and overflow mistakes show only at values they do not sample.",
["base.go"],["Time.EncodeRecordAttribute","Time.DecodeRecordAttribute"])

p("C06","A closed receiver or sender stays closed and releases its AMQP links",
"Once a receiver or sender obtained from a container has been closed it never opens another AMQP link and never again becomes usable, whatever operation was in flight: later operations return an error instead of blocking or retrying for ever. Closing it closes the AMQP links it has open on the current session.",
["schedules","histories"],"all interleavings of operations and close on one link, all points of session loss",
"The tests never close a link while another operation on it is pending, and need a real router for most of the container code.",
["session/container.go"],["NewReceiver","NewSender","Receiver.Close","Sender.Close","Receiver.Next"])

p("C07","A session failure ends exactly the session it happened on",
"A failed receive or send is reported to the container together with the session on which it happened, and the link drops its use of that session and waits for a newer one. The container ends its current session only for a failure of that very session, ignores reports about earlier ones, and announces each newly established session exactly once, with a new identity, to everything waiting for it.",
["schedules","histories","fault_sequences"],"all orders in which failures, stale failure reports, session establishments and link operations can interleave",
"Only a real router exercises reconnection; even then the order in which stale reports and new sessions meet is up to the scheduler.",
["session/container.go"],["Container.Start","Receiver.Next","Sender.Send"])

p("C08","Every AMQP connection opened is closed again",
"Every connection a container dials is closed: right away when no session can be established on it, when a newer connection has replaced it, and when the container stops for whatever reason.",
["fault_sequences","histories"],"all sequences of dial failures, session failures, reconnections and cancellation",
"The tests cannot make session establishment fail after a successful dial, and nothing counts connections.",
["session/container.go"],["Container.Start"])

p("C09","Configured connection and link options reach AMQP",
"The container dials the address it was given with the configured container id, maximum frame size, TLS configuration and SASL mechanism, unless unset. Every receiver and sender attaches to the address it was created for, and a receiver with a positive credit setting is opened with exactly that credit.",
["configurations"],"all container configurations, addresses and receiver credits",
"Options are only observable at the AMQP peer, which the test suite does not have; the mock container does not use them.",
["session/container.go","session/factory.go"],["NewContainer","NewContainerFactory","NewReceiver","NewSender"])

p("C10","Every session failure reaches every registered error handler",
"Each time a container's session fails and will be retried, every handler registered at that time is called exactly once, in registration order, with an error that tells the retry delay and describes the cause; when the container gives up for good every handler is called exactly once with an error that is not retryable. Handlers run without the container's internal lock held, so a handler may use the container.",
["fault_sequences","histories","programs"],"all failure sequences, any number of handlers, handlers that call back into the container",
"No test registers several handlers or a handler that calls back, and failures need a router.",
["session/container.go"],["Container.OnSessionError","Container.Start"])

p("C11","A client hands every decodable message to every handler, in order",
"Each listener of a client takes messages one at a time, accepts each, and calls every handler registered for its kind exactly once, in registration order, with the decoded message, without holding the client's lock. A receive error, an accept error or a message that cannot be decoded is skipped and never ends the listener, which ends only when its context does, closing its receiver. A listener receives from the address and with the credit its listener configuration gives; the configurations made for a source are its address with the suffix of their kind (none, .logs, .flows or .heartbeats) and a positive credit.",
["histories","inputs","programs"],"all message sequences, any number of handlers, handlers that call back into the client",
"Tests use one handler of each kind and well formed messages over an in-memory router that never fails.",
["eventsource/client.go"],["Client.Listen","Client.OnRecord","Client.OnHeartbeat"])

p("C12","Closing a client always stops its listeners and returns",
"Closing a client cancels every listener it has started, waits until each has ended, and returns whatever its listeners are doing at that moment; it may be called more than once and from several goroutines without crashing or blocking.",
["schedules"],"all interleavings of close with message delivery, with listen and with another close",
"The tests close a client once, when it is idle; the interleavings that block or crash are not sampled.",
["eventsource/client.go"],["Client.Close","Client.Listen"])

p("C13","Cancelling the context ends all background work started with it",
"After the context given to a container, listener, discovery, watch or manager is cancelled, every goroutine it started and every call that was given that context ends: none keeps looping, and none stays blocked on a channel that nobody will serve.",
["schedules","fault_sequences"],"every point at which the context can be cancelled, including while the peer is unreachable",
"Tests cancel at a few convenient moments and do not notice goroutines left behind.",
["eventsource/manager.go","eventsource/client.go","eventsource/discovery.go","eventsource/flush.go","session/container.go","session/mock.go"],["Manager.Run","Client.Listen","Discovery.Run","Discovery.NewWatchClient","FlushOnFirstMessage","Container.Start"])

p("C14","Discovery announces each source exactly when it becomes known or is forgotten",
"A source becomes known through its first beacon or by being added, and each time that happens discovered is announced exactly once; each time a known source is removed forgotten is announced exactly once with its last known state; repeated beacons, adding a known source or forgetting an unknown one announce nothing. Add and Forget report whether they changed anything. Announcements for the same discovery are delivered in the order in which the changes happened, and no discovery operation blocks on a slow or re-entrant handler.",
["schedules","histories","programs"],"all histories of beacons, adds and forgets from several goroutines, handlers that call back into discovery",
"The tests follow a single source with a fast handler, fewer events than the channels buffer, and cannot choose the order in which two channels are served.",
["eventsource/discovery.go"],["Discovery.Run","Discovery.Add","Discovery.Forget","Discovery.Get","Discovery.List"])

p("C15","What discovery knows about a source is accurate and only moves forward",
"A source is recorded with the identity, version, type, address and direct address its first beacon carried, and get and list return exactly the sources currently known. The last-seen time of a known source never moves backwards, each beacon and each watched activity advances it, and updating it never brings a forgotten source back.",
["schedules","histories"],"all interleavings of beacons, watch updates and forgets",
"Tests compare a few snapshots; moving backwards or resurrecting needs a watch update to meet a forget or a later beacon.",
["eventsource/discovery.go"],["Discovery.Run","Discovery.Get","Discovery.List","Discovery.NewWatchClient"])

p("C16","A watched source is forgotten only after its timeout without activity",
"A watch counts every record and every heartbeat of its client as activity. It forgets the source only when a timeout is configured, the grace period plus timeout (at first) or the timeout (since the activity last noticed) has run out, and no new activity is found at that moment; otherwise it keeps watching. The watch ends only by forgetting the source or when its context ends, and closes the client it watches when it ends.",
["schedules","histories"],"all sequences of activity, timer expiry and cancellation",
"The tests use fixed sleeps; activity arriving exactly at expiry, or no timeout at all, is not sampled.",
["eventsource/discovery.go"],["Discovery.NewWatchClient"])

p("C17","A published update sends exactly the change",
"A published update without a previous record sends the whole current record. One with a previous record sends the identifying attributes plus exactly the attributes whose value is new or different, and nothing at all when nothing differs. Publishing queues the update exactly once. Every update is considered once, in the order published, a batch never exceeds the configured batch size (one update if none is configured), and what a batch contributes is put, in order, into a message that is not changed afterwards, encoded, and sent once, in order, to the source's address.",
["inputs","histories"],"all pairs of previous and current records, all update sequences and batch settings",
"Tests for the manager do not exist; a delta wrong in one attribute is applied silently by peers.",
["eventsource/manager.go"],["Manager.PublishUpdate","Manager.Run"])

p("C18","A flush sends every record of every configured store",
"After a flush request the manager sends all records of all its stores: it follows every store's pages to the end, starts each store from the beginning, and puts every entry of a page into the message it sends for it, with pages no larger than the configured flush batch size. A store that fails to list does not keep the records of the other stores from being sent nor stop the manager.",
["histories","fault_sequences","configurations"],"all numbers of stores, pages and entries, every failing store",
"No test drives a flush; an early end, a continue token carried to the next store or an endless retry shows only with several pages, several stores or a failing one.",
["eventsource/manager.go"],["Manager.Run"])

p("C19","Managers announce their source and answer flush requests",
"A running manager keeps trying until a beacon was sent, then sends a beacon every beacon interval and a heartbeat every heartbeat interval (10 and 2 seconds unless configured) carrying the source's own identity, version, type and addresses and the current time, whatever individual sends return, each send being bounded by these intervals, so that a stalled peer delays neither. Beacons go to the beacon address and heartbeats to the source address, or its heartbeat variant when so configured; every message received on the source's direct address is accepted and requests one flush unless flushes are already queued up, and a receive error requests none.",
["configurations","fault_sequences"],"all manager configurations, every pattern of failing sends and receives",
"Timing dependent loops without tests; a wrong address, a dropped ticker case or an unbounded send shows only with a peer that stalls.",
["eventsource/manager.go"],["Manager.Run","NewManager"])

p("C20","A flush is sent to the source once it is known to be listening",
"Flushing on the first message registers for both records and heartbeats, waits for the first of either, sends exactly one flush to the source's direct address and returns the outcome of sending it, and returns the context's error without sending when the context ends first. Any number of messages, concurrent ones included, is handled without crashing.",
["schedules","inputs"],"all orders and multiplicities of records, heartbeats and cancellation",
"The test delivers one message of each kind in a fixed order.",
["eventsource/flush.go","eventsource/client.go"],["FlushOnFirstMessage","Client.SendFlush"])

p("C21","Conditional store writes are atomic",
"Adding an entry succeeds only if its key is absent, and an update carrying an ETag succeeds only if the stored entry is exactly the version that ETag was issued for - never a later, deleted, re-created or replaced one; the check and the write are one atomic step. An operation whose condition or key fails changes nothing and reports the failure, and an operation that succeeds stores the given entry.",
["schedules","histories"],"all interleavings of store operations and all histories of one key",
"Tests run single operations in sequence; races between check and write and re-use of a version after delete or replace are not sampled.",
["store/cache.go","store/etag.go","store/internal/cache.go","store/internal/conditional.go"],["Interface.Add","Interface.Update","WithIfMatch","Interface.Replace"])

p("C22","Store indexes always agree with the stored entries",
"For every configured index and at every moment another goroutine can observe, a key is listed under an index value exactly if the entry stored under that key has that index value: add, update, accumulate, delete and replace leave no stale key, no missing key and no empty index value behind. Querying an index by an exemplar returns each entry that shares an index value with it exactly once, and an unknown index is reported as an error.",
["histories","schedules","programs"],"all operation histories, all indexer functions including multi-valued ones whose values change on update",
"Tests use a few entries and two built-in indexers; a stale index entry appears only after particular update sequences.",
["store/internal/cache.go","store/internal/index.go","store/cache.go"],["Interface.Index","Interface.IndexValues","Interface.Replace"])

p("C23","Accumulating a partial record merges it and loses nothing",
"Accumulating a record for an unknown key stores it with its source and type; for a known key every attribute present in the partial record overwrites the stored one, every other attribute and the entry's source, annotations and type are kept, and the update time advances. If nothing differs, nothing is stored and no event is raised, and if comparing or merging fails the stored entry is unchanged and the error is returned.",
["inputs","histories"],"all stored records, all partial records, all accumulate sequences",
"Tests merge a couple of records; lost attributes or metadata show only for particular combinations.",
["store/patcher.go","store/cache.go"],["Interface.Accumulate"])

p("C24","Store events report exactly the changes made",
"Each add, update or accumulate that creates an entry raises exactly one add event with the new entry, one that modifies an existing entry raises exactly one change event with the previous and the new entry, and each delete of an existing entry raises exactly one delete event with the deleted entry; failed operations, deletes of unknown keys, accumulates without change and replacing the whole content raise none, and handlers that are not configured are skipped. Events are raised after the change is visible and without the store's lock held, so a handler may use the store.",
["histories","programs"],"all operation outcomes, all subsets of configured handlers, handlers that call back into the store",
"Tests check a few add/change/delete events and never a failing operation with handlers or a re-entrant handler.",
["store/cache.go"],["EventHandlerFuncs","NewDefaultCachingStore"])

p("C25","Listing with a selector never panics and pages without loss",
"Listing or querying with any offset, limit, ordering or continue token never panics: an invalid token is reported as an error, and an offset outside the results yields no entries or starts at the beginning. Results are consistently ordered by key in the requested direction before offset and limit apply, at most limit entries are returned when a limit is set, and a continue token is returned exactly when entries remain and resumes directly after the last returned one.",
["inputs"],"all selectors including negative numbers and forged tokens, all store sizes",
"Tests use valid selectors with a handful of entries; negative offsets, forged tokens and page boundaries are not sampled.",
["store/cache.go","store/continue.go"],["Selector","Interface.List","Interface.Index"])

p("C26","Dispatch routes every record to the store registered for its type",
"A dispatcher hands each record of a message, in order, exactly once to the store registered for the record's type, together with the source it was created for. A record without a registered store or one whose store reports an error is skipped without affecting the others, and registering further stores later does not affect dispatchers already created.",
["inputs","histories"],"all messages, all registries, all store failures",
"Tests dispatch few records to one store that never fails.",
["store/dispatch.go"],["DispatchRegistry.RegisterStore","DispatchRegistry.NewDispatcher","Dispatcher.Dispatch"])

p("C27","State shared between goroutines is accessed under its lock",
"The exported operations of stores, discoveries, clients, containers, receivers, senders and the record registry may be called from any number of goroutines at once: every access to state that may change after construction happens while holding the lock that protects it (exclusively for writes), or through a synchronised type, and no internal map or slice that others modify is handed out to be read without that lock.",
["schedules"],"all interleavings of all exported operations",
"The race detector only sees the interleavings that a test happens to run, and the suite runs almost none in parallel.",
["store/internal/cache.go","session/container.go","session/mock.go","eventsource/client.go","eventsource/discovery.go","encoding/encoding.go","cmd/vanflow-tool/fixture.go"],["store.Interface","eventsource.Discovery","eventsource.Client","session.Container"])

p("C28","Locks are always released and never held across unbounded waits",
"Every lock taken is released on every way out of the operation that took it, no operation takes a lock it already holds, and locks are taken in one global order. While holding a lock of the library (store, session, eventsource and encoding packages) no operation waits on a channel, a wait group or a timer, performs network I/O not bounded by the caller's context, or calls back into handlers supplied by the user.",
["schedules","programs"],"all paths through all operations, all interleavings, all handlers",
"Deadlocks need two particular goroutines or a full channel at a particular moment; tests finish before that.",
["store/internal/cache.go","session/container.go","session/mock.go","eventsource/client.go","eventsource/discovery.go","encoding/encoding.go"],["store.Interface","eventsource.Discovery","eventsource.Client","session.Container"])

p("C29","The server certificate is verified unless verification is switched off",
"When the command line tool connects with TLS, the server certificate is verified against the configured CA unless verification was explicitly disabled, a CA file that cannot be read or a client key pair that is there but cannot be loaded stops the tool instead of weakening the connection, and the resulting TLS configuration with SASL EXTERNAL is what the connection uses.",
["configurations"],"all combinations of flags and connection files",
"The tool has no tests, and a connection without verification looks the same as one with it.",
["cmd/vanflow-tool/main.go"],["main"])

p("C30","The capture tool removes what it created in the cluster",
"Once the capture tool has created its deployment, it deletes that same deployment before it returns, on success, on every error and when interrupted - using a context that is still alive at that point - and nothing it did not create; it stops the port forward and closes the capture file and response it opened, and no wait it performs outlives an interrupt.",
["fault_sequences"],"every step at which a capture can fail or be interrupted",
"There are no tests and every step needs a cluster; a leak shows only when a late step fails.",
["vancap/main.go"],["Vancap.Run"])

p("C31","HTTP requests cannot crash the fixture server",
"No request to the fixture server, whatever its body or the records it carries - unknown types, flows whose counterpart is missing, negative counts - panics the process, neither in the request nor in the work started for it in the background.",
["inputs","histories"],"all request bodies and request sequences",
"The tool has no tests.",
["cmd/vanflow-tool/fixture.go"],["serveFixture"])

# stated, but outside what static analysis can settle here
p("C40","Records published while connected reach a listening client",
"Every record message a manager sends while both sides stay connected is eventually delivered to a client that listens to the source, in the order sent.",
["schedules","fault_sequences"],"all network behaviours without connection loss",
"Needs the router and the network; the mock router is not the transport.",
["eventsource/manager.go","eventsource/client.go","session/container.go"])
p("C41","Paging through a changing store misses no stable entry",
"A client that pages through a store while others modify it sees every entry that existed throughout.",
["schedules","histories"],"all concurrent modifications between two pages",
"The tests never modify a store between pages.",
["store/cache.go","store/continue.go"])
p("C42","Heartbeats and beacons keep their interval under load",
"A running manager never lets more than twice the configured interval pass between two heartbeats or beacons while its peer accepts them.",
["schedules"],"all loads and scheduling delays",
"Timing under load is not sampled.",
["eventsource/manager.go"])
p("C43","Replicas converge after reconnection",
"After any connection loss and recovery, a collector that flushes the source ends up with the same records the source holds.",
["fault_sequences","histories"],"all loss and recovery histories",
"Needs two processes, a router and faults between them.",
["eventsource/manager.go","eventsource/client.go","session/container.go","store/patcher.go"])
p("C44","Retry delays follow the configured back-off",
"The delay before each reconnection follows the configured back-off strategy, restarting from its initial interval after a session has proven to work.",
["fault_sequences"],"all sequences of failures and successes",
"Delays are computed by a third-party strategy at run time.",
["session/container.go"])

MECH={
"C01":[("registration table and struct tags","records.go init, vflow tags"),("type metadata methods","records.go GetTypeMeta")],
"C02":[("field walk on encode","encoding/encoding.go typeEncoding.encode"),("field walk on decode","encoding/encoding.go typeEncoding.decode"),("field discovery","encoding/encoding.go fieldsForType"),("per-kind converters","encoding/encoder.go, encoding/decoder.go")],
"C03":[("nil and type checks on message sections","messages.go"),("reflective assignment guards","encoding/decoder.go rawFieldDecoder"),("subject check before dispatch","eventsource/discovery.go Run")],
"C04":[("paired Encode/Decode functions","messages.go"),("subject dispatch","messages.go Decode")],
"C05":[("custom attribute codec of Time","base.go")],
"C06":[("closed flag under the link lock","session/container.go link")],
"C07":[("generation counters and hasNext broadcast","session/container.go container.Start, awaitNextSession, handleError")],
"C08":[("teardown of the previous session","session/container.go container.Start")],
"C09":[("option translation","session/container.go toAmqp, get, newLink, getReceiver, getSender")],
"C10":[("handler loops in retry notification and terminal path","session/container.go container.Start")],
"C11":[("listener loop","eventsource/client.go Listen")],
"C12":[("cleanup functions and wait group","eventsource/client.go Close, Listen")],
"C13":[("ctx.Done cases in loops, error checks against ctx.Err","eventsource, session")],
"C14":[("announcement together with the state change, delivery loop","eventsource/discovery.go observe, Add, Forget, handleDiscovery")],
"C15":[("state map under the discovery lock","eventsource/discovery.go observe, lastSeen")],
"C16":[("watch loop","eventsource/discovery.go watch.run")],
"C17":[("attribute diff","eventsource/manager.go diffRecord"),("update batching","eventsource/manager.go serve, nextN")],
"C18":[("flush loop over stores and pages","eventsource/manager.go serve")],
"C19":[("ticker loop","eventsource/manager.go sendKeepalives, sendWithTimeout"),("flush listener","eventsource/manager.go listenFlushes")],
"C20":[("once-closed channel","eventsource/flush.go"),("flush sender","eventsource/client.go SendFlush")],
"C21":[("conditions evaluated under the map lock","store/internal/cache.go Update, conditional.go"),("ETag from version","store/etag.go")],
"C22":[("reindex/unindex with every mutation","store/internal/cache.go")],
"C23":[("attribute merge","store/patcher.go Patch"),("patch under the map lock","store/internal/cache.go Patch")],
"C24":[("event dispatch from the returned delta","store/cache.go")],
"C25":[("selector application","store/cache.go applySelector"),("continue token codec","store/continue.go")],
"C26":[("type keyed registry copied per dispatcher","store/dispatch.go")],
"C27":[("one mutex per shared structure","mu/lock fields"),("atomic last-seen pointer","eventsource/discovery.go watch")],
"C28":[("deferred unlocks, short critical sections","mu/lock fields")],
"C29":[("TLS configuration parsing","cmd/vanflow-tool/main.go tlsConfig.Parse, main")],
"C30":[("deferred cleanup","vancap/main.go Vancap.Run")],
"C31":[("request validation","cmd/vanflow-tool/fixture.go ServeFlows, ServeFixture")],
"C40":[("send queue and listener loop","eventsource")],
"C41":[("offset based continue token","store/continue.go")],
"C42":[("tickers","eventsource/manager.go sendKeepalives")],
"C43":[("flush and accumulate","eventsource/manager.go, store/patcher.go")],
"C44":[("backoff.RetryNotify and Reset","session/container.go container.Start")],
}
for x in P:
    x["anchors"]["mechanism"]=[dict(name=n,where=w) for n,w in MECH[x["id"]]]
    x["anchors"]["observe_at"]=x["anchors"].pop("symbols",[]) or x["anchors"]["files"]
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
for x in P:
    assert len(x["title"])<=80,(x["id"],len(x["title"]))
    n=x["statement"].count(". ")+1
    if n>3: print(x["id"],"sentences",n)
print(len(P))
