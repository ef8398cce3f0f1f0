#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table (run by hand; both outputs are committed)."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, technique, note, claimed=True, na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mech=mech, observe=observe, technique=technique, note=note, claimed=claimed, na=na))

ENC = ["ua/binary_encoder.go", "ua/binary_decoder.go", "ua/binary_registry.go", "ua/structs.generated.go"]
TRUST = " Held on the executions produced by the seeded case list; nothing is claimed about inputs or interleavings outside it."

prop("C01", "Binary encoding round-trips and matches the OPC UA specification",
 "Encoding any built-in value, Variant (scalar, array or matrix of any built-in type), DataValue, ExtensionObject or generated OPC UA structure and decoding the bytes yields an equal value and consumes exactly the bytes written (null and empty collections identified, times truncated to 100 ns and clamped to the encodable range). The bytes are the ones the OPC UA binary specification prescribes: an independent implementation decodes them to the same value, and bytes it produces decode here to the same value.",
 ["inputs"], "for every value of every encodable type, including nested, empty, extreme and multi-dimensional ones",
 "The unit tests encode about 40 hand-written values; the claim ranges over every type, nesting and length.",
 ENC, [{"name":"BinaryEncoder/BinaryDecoder","where":"ua/binary_encoder.go, ua/binary_decoder.go"},{"name":"type registry","where":"ua/binary_registry.go"}],
 ["bytes from ua.NewBinaryEncoder(...).Encode", "value and remaining bytes from ua.NewBinaryDecoder(...).Decode"],
 "monitored round trips with a reference codec (gopcua) as differential oracle",
 "Generated values of all built-in and all generated structure types pass through the real encoder and decoder; an equality oracle and an independent codec judge every result."+TRUST)

prop("C02", "Decoding arbitrary bytes is total, bounded and detects truncation",
 "For every byte string, decoding it as any built-in type, Variant, ExtensionObject, structure or service message returns either a value or an error: it never panics, exhausts the stack, runs without end, or allocates memory out of proportion to the number of input bytes. Every proper prefix of a valid encoding is reported as an error.",
 ["inputs"], "for every byte string, including hostile length fields, deep nesting and truncations",
 "No test feeds malformed bytes to the decoder at all.",
 ENC, [{"name":"length and depth checks","where":"ua/binary_decoder.go"}],
 ["outcome, allocated bytes and stack of each decode, in a monitored child process"],
 "fault-injecting decode workload under allocation/panic/progress monitors",
 "Mutated, truncated, length-inflated and deeply nested encodings of every type decoded in a child process whose panics, allocation and progress are monitored."+TRUST)

prop("C03", "Text forms of node ids and qualified names identify exactly one value",
 "Formatting any NodeID, ExpandedNodeID or QualifiedName as text and parsing that text gives back an equal value, and two different values never share a text form. Parsing arbitrary text never panics and never turns malformed text into a valid non-null id; converting between NodeID and ExpandedNodeID through a namespace table keeps the namespace and identifier.",
 ["inputs"], "for every identifier kind, namespace index, URI and identifier value (including separators and escapes inside strings), and every malformed text",
 "Tests parse a few literal ids; no test covers awkward strings, malformed text or conversion through namespace tables.",
 ["ua/nodeid.go","ua/expanded_nodeid.go","ua/qualified_name.go"], [{"name":"String / Parse functions","where":"ua/nodeid.go, ua/expanded_nodeid.go, ua/qualified_name.go"}],
 ["results of String, Parse*, ToNodeID"],
 "monitored format/parse round trips against a reference parser",
 "Generated identifiers and mutated texts; an independent re-implementation of the text grammar is the oracle."+TRUST)

prop("T01", "Requests and responses cross the channel unchanged",
 "For every security policy and mode, every negotiated buffer size, every TCP segmentation and every message size within the negotiated limits, the server handles exactly the request the client sent and the client receives exactly the response the server produced for it. A message beyond the receiver's negotiated message-size or chunk-count limit is refused with an error status and is never delivered truncated or altered, and each chunk on the wire respects the receiver's buffer size.",
 ["inputs","configurations","schedules"], "for all policies and modes, buffer and message limits, payload sizes around every chunk boundary, and segmentations of the byte stream",
 "Tests send a handful of small messages over default limits; chunk boundaries, padding lengths and limits are never swept.",
 ["client/client_secure_channel.go","server/server_secure_channel.go","ua/security_policy.go"],
 [{"name":"chunking, signing, padding","where":"client/client_secure_channel.go sendServiceRequest/readResponse, server/server_secure_channel.go Write/readRequest"}],
 ["request argument seen by a server callback and response seen by the client", "chunk sizes seen by a TCP relay"],
 "end-to-end payload echo monitor through a re-segmenting relay",
 "Payload sizes swept over chunk boundaries for every policy/mode/limit combination; an echo oracle compares payload hashes at both ends and a relay parses every chunk header."+TRUST)

prop("T02", "Secured channels reject altered, forged, replayed and foreign messages",
 "On a channel with mode Sign or SignAndEncrypt, a message that was modified, truncated, replayed, reordered, taken from another channel or built without the channel keys is never acted upon by the receiver, in either direction, and in mode SignAndEncrypt no content of requests or responses appears on the wire. Sequence numbers and tokens on the wire advance as the specification requires, and renewing the channel's keys at any moment loses, corrupts or duplicates no request or response.",
 ["fault_sequences","schedules","inputs"], "for every policy and mode, every message position and kind of alteration, and every interleaving of renewal with traffic",
 "Tests run only well-behaved peers over an unmodified network and never renew a token under load.",
 ["client/client_secure_channel.go","server/server_secure_channel.go","ua/security_policy.go","ua/security_token.go"],
 [{"name":"signature/decryption/sequence/token checks","where":"server/server_secure_channel.go readRequest, client/client_secure_channel.go readResponse"}],
 ["bytes at a man-in-the-middle relay", "server-side effects and client-side results after each injected fault"],
 "man-in-the-middle fault injection with effect monitors",
 "A relay flips, cuts, repeats, swaps and splices chunks; server-side effect counters and client results are the oracle."+TRUST)

prop("T03", "Peers are accepted only with valid, trusted certificates",
 "When verification is enabled, a secure channel is established only if the peer's certificate chains to a configured trust anchor, is within its validity period at the time, is not revoked by any configured revocation list of its issuer (one must be present), allows the required extended use, and (client side) names the host of the endpoint; every other certificate is refused and no session or service becomes available. A certificate meeting all of these is accepted.",
 ["inputs","configurations"], "for every combination of issuer, validity window, key usage, revocation entry, host name and trust configuration",
 "All tests run with verification switched off (InsecureSkipVerify).",
 ["ua/certificate_helpers.go","server/server_secure_channel.go","client/client_secure_channel.go","client/client.go"],
 [{"name":"ValidateCertificate","where":"ua/certificate_helpers.go"}],
 ["ua.ValidateCertificate result", "outcome of a real connection with generated certificates"],
 "generated certificate chains judged by an independent acceptance predicate",
 "A certificate factory enumerates defects; accept/reject of the validation function and of real client and server connections is compared with a hand-written predicate."+TRUST)

prop("T04", "Hostile network peers cannot stop or disturb the server",
 "No sequence of bytes sent by any network peer, at any stage from the first byte to inside an activated session, terminates the server, makes it stop serving, or blocks or corrupts the service given to other well-behaved clients. A peer that violates the protocol gets an error or is disconnected.",
 ["inputs","fault_sequences"], "for every byte sequence, message truncation, bad header, size or chunk field, and malformed service request, from any number of peers, while good clients are active",
 "Tests only use the library's own client, which never misbehaves.",
 ["server/server_secure_channel.go","server/server.go","server/server_service_set.go","server/session.go","server/session_manager.go"],
 [{"name":"message validation in read loops and service handlers","where":"server/server_secure_channel.go, server/server_service_set.go"}],
 ["server process liveness", "answers given to a bystander client during the attack"],
 "protocol fuzzing of a child server process with liveness and bystander monitors",
 "Grammar-based and mutated message streams sent to a real server process; process death, hang or a disturbed bystander is the violation."+TRUST)

prop("S01", "No service without a session activated by an accepted identity on that channel",
 "Except for discovery and session creation, every service request is refused unless it carries the authentication token of a session that was activated on the same secure channel by an identity the server's configured authenticator accepted (with a valid proof of possession of the client key on secured channels). A refused activation changes nothing: the session keeps the identity, rights and channel it had before, and the client in turn refuses a server that cannot prove possession of its certificate's key.",
 ["inputs","histories","fault_sequences"], "for every service, identity type, forged or stale credential, signature, token and order of session calls across channels",
 "Tests activate with valid credentials and one wrong password; forged tokens, foreign channels and failed re-activations are not exercised.",
 ["server/server_service_set.go","server/session_manager.go","server/session.go","client/client.go"],
 [{"name":"session lookup and channel check","where":"server/server_service_set.go (each handler)"},{"name":"identity token validation","where":"server/server_service_set.go handleActivateSession"}],
 ["service results per (session, channel, token)", "calls observed by the configured authenticators"],
 "session state-machine monitor over hostile call sequences",
 "A raw client drives every service under valid, absent, forged and foreign tokens and every kind of bad credential; a session-state model decides accept or refuse."+TRUST)

prop("S02", "Sessions are unique, bounded in number and live exactly as long as they should",
 "Session ids and authentication tokens are never reused or shared, the configured maximum number of concurrent sessions is never exceeded and capacity freed by a close or timeout becomes available again. A session stays usable while requests arrive within its revised timeout, becomes unusable for good once closed or once its timeout has elapsed without requests, and closing it with subscription deletion removes its subscriptions and answers its outstanding publish requests.",
 ["histories","schedules","configurations"], "for all interleavings of creating, using, closing and abandoning sessions from many clients, and all requested timeouts",
 "Tests open a few sessions one after another and never let one time out.",
 ["server/session_manager.go","server/session.go","server/server_service_set.go"],
 [{"name":"session table and expiry sweep","where":"server/session_manager.go"}],
 ["responses of CreateSession/CloseSession/Publish and later use of each token"],
 "history monitor over concurrent session churn",
 "Concurrent create/use/close/abandon workloads; uniqueness, capacity and lifetime oracles over the recorded history."+TRUST)

prop("A01", "Access rights are enforced for every user, node, attribute and operation",
 "A user's browse, read, write, call, history and permission-reading requests succeed on a node only if one of the roles assigned to that user by the configured roles provider holds the required permission on the node (its own permissions, or the server defaults) and the node's access level allows the operation; otherwise the result is a denial and nothing is read or changed. The user-specific attributes reported to a user equal what enforcement grants that user, and users with different roles never influence each other's rights, also when requests run concurrently.",
 ["inputs","configurations","histories","schedules"], "for every combination of roles, role permissions, access levels, attribute and service, and identity changes within a session",
 "Tests use one permission table, few users and a handful of attributes.",
 ["server/roles_provider.go","server/server_service_set.go","server/variable_node.go","server/method_node.go","server/session.go"],
 [{"name":"permission checks","where":"server/server_service_set.go readValue/writeValue/handleBrowse/handleCall"},{"name":"identity to role mapping","where":"server/roles_provider.go"}],
 ["status and value of each operation per user"],
 "access-matrix monitor against an independent permission model",
 "Random permission tables and users; each service result is compared with a model computed from the configured tables."+TRUST)

prop("D01", "Concurrent reads and writes of a variable behave like an atomic register",
 "Reads and writes of variable values by any number of clients and by the hosting application are linearizable per variable: every read returns the value, status and source timestamp of one single most recent write, never a mixture or an older value after a newer one was observed. A write that was answered with a bad status has no effect, a write to part of an array changes exactly that part, and no acknowledged write is lost.",
 ["schedules","histories"], "for all interleavings of reads, writes, partial writes and application updates over any number of connections",
 "Tests perform single-client sequential reads and writes.",
 ["server/variable_node.go","server/server_service_set.go"],
 [{"name":"variable value lock","where":"server/variable_node.go Value/SetValue"},{"name":"write path","where":"server/server_service_set.go writeValue"}],
 ["call/return history at the client boundary"],
 "recorded concurrent histories checked for linearizability (porcupine)",
 "Unique values, partition by variable, porcupine decides; partial writes are modelled as per-element registers."+TRUST)

prop("D02", "Reads and writes of attributes return and store exactly what was asked",
 "A write succeeds only if the value fits the variable's data type, value rank and index range, and then a read returns exactly that value; any other write is refused with a bad status and leaves the value unchanged. A read returns the current attribute value, with an index range exactly the addressed elements, exactly the requested timestamps, a bad status for unknown nodes, invalid attributes and malformed ranges, and results in the order of the request.",
 ["inputs"], "for every data type, rank, index range text, attribute, timestamp selection and value",
 "Tests cover a few scalar writes and a few index ranges.",
 ["server/server_service_set.go","server/variable_node.go"],
 [{"name":"type/rank validation, readRange, writeRange, selectTimestamps","where":"server/server_service_set.go"}],
 ["Write and Read results"],
 "model-based monitor of generated read/write sequences",
 "An independent reference model of attributes, types and index ranges predicts every result."+TRUST)

prop("B01", "Browsing returns each matching reference exactly once",
 "Browsing a node returns exactly the references of that node that match the requested direction, reference type (with subtypes if asked), node-class mask and the user's rights, each once and with the result fields that were requested. When results are split by a limit, following continuation points yields the same set in pieces within the limit without loss or repetition; a continuation point is valid only for its session and until used or released, and an invalid one is refused.",
 ["inputs","histories","schedules"], "for every node graph, browse parameter combination, page size, and interleaving of browse, next and release calls of several sessions",
 "Tests browse one or two nodes with default parameters.",
 ["server/server_service_set.go","server/session.go"],
 [{"name":"handleBrowse/handleBrowseNext","where":"server/server_service_set.go"},{"name":"continuation point store","where":"server/session.go"}],
 ["Browse and BrowseNext results"],
 "browse results compared with a graph model built by the harness",
 "Random graphs known to the harness; every page sequence is compared as a multiset with the model."+TRUST)

prop("B02", "Browse paths resolve to exactly the nodes browsing would reach",
 "Translating a browse path returns exactly the set of nodes reached by following, element by element, references of the requested type, direction and target name from the starting node, and reports no match, an unknown start or a malformed path with the corresponding bad status. Each path in a request is resolved independently of the others.",
 ["inputs"], "for every node graph, starting node and path, including inverse steps, subtypes, several matches and empty or unknown parts",
 "Tests resolve a couple of fixed paths.",
 ["server/server_service_set.go"], [{"name":"follow/target","where":"server/server_service_set.go"}],
 ["TranslateBrowsePathsToNodeIDs results"],
 "path results compared with a graph model",
 "Random graphs and paths; an independent graph walk is the oracle."+TRUST)

prop("N01", "The address space stays consistent while it changes",
 "After any sequence of adding and deleting nodes, also when it runs concurrently with client traffic, a node is found if and only if it was added and not deleted, every forward reference between existing nodes has its inverse and vice versa (type-definition and modelling-rule references are one-way), no other reference leads to a deleted node, and a recursive delete removes exactly the node and its hierarchical children that are not protected. Deleting a standard node (namespace 0) by its id is refused, and every such call terminates for every graph, including cyclic ones.",
 ["histories","schedules","inputs"], "for all sequences and interleavings of add/delete on arbitrary graphs with concurrent browse/read",
 "Tests delete a few nodes of one tree sequentially.",
 ["server/namespace_manager.go"], [{"name":"addNodes, DeleteNodes, GetChildren","where":"server/namespace_manager.go"}],
 ["FindNode, References of every node, Browse by a client"],
 "structural invariant monitor at quiescent points plus concurrent browsing clients",
 "Random add/delete histories compared with a graph model; the invariant walk covers the complete address space."+TRUST)

prop("N02", "Loading a node set yields exactly the nodes it describes",
 "After loading a node-set document, every node described in it exists with the described class, names, attributes, value, references in both directions and namespace, translated through the server's namespace table (namespace indexes inside values too), and nothing else is changed. Values are those of the data types the loader supports: scalars of the built-in types, Duration, the abstract number types, BaseDataType, enumerations, Range and EUInformation; one-dimensional lists of the built-in types, of Argument, of EnumValueType and of variants. Loading is independent of namespace numbering in the document. A document that is not well-formed or has an invalid NodeId, attribute or value is reported as an error and leaves the address space as it was; no document terminates the process.",
 ["inputs","configurations"], "for every well-formed node-set document over the supported elements, any namespace ordering, and malformed documents",
 "Tests load one fixed document and look at few nodes.",
 ["server/namespace_manager.go","ua/ua_node_set.go","server/nodeset_1_04.xml"], [{"name":"LoadNodeSetFromBuffer","where":"server/namespace_manager.go"}],
 ["attributes and references read back through the node API and by a client"],
 "generated node sets compared with their source model",
 "The harness generates documents from a model and reads everything back; the standard node set is compared with an independent XML reading."+TRUST)

prop("M01", "Value changes are delivered in order, without loss, duplication or invention",
 "For a reporting monitored item, the notifications a subscriber receives are values the variable really had, in the order it had them, none delivered twice, starting with the current value, and after changes stop the last delivered value is the current one. When more changes occur between publishes than the queue holds, exactly the oldest (or newest, as requested) are discarded and the loss is marked in the delivered values; disabled items deliver nothing.",
 ["schedules","histories","configurations"], "for every update pattern, queue size, discard policy, sampling and publishing interval, and any number of items, subscriptions and sessions",
 "Tests wait for one or two notifications of one slowly changing variable.",
 ["server/datachange_monitored_item.go","server/subscription.go","server/subscription_manager.go","server/scheduler.go"],
 [{"name":"sampling queue","where":"server/datachange_monitored_item.go"},{"name":"notification assembly","where":"server/subscription.go"}],
 ["publish responses at the client vs. log of values written"],
 "offline delivery checker over producer and subscriber logs",
 "Unique increasing values; order, no-duplication, no-invention, convergence and overflow oracles over the recorded logs."+TRUST)

prop("M02", "Publishing is numbered, acknowledged and republished as the protocol promises",
 "Each subscription numbers its notification messages 1, 2, 3, ... without gaps or reuse, keep-alives repeat the next number without consuming it, and every message stays available for republishing, unchanged, until the owner acknowledges it or the retransmission limit discards it; acknowledging or republishing anything else is answered with the matching bad status. A publish request of one session is answered only with notifications of that session's subscriptions, every publish request is answered exactly once, and no session can see, alter or acknowledge another session's subscriptions.",
 ["schedules","histories","fault_sequences"], "for all interleavings of changes, publishes, acknowledgements, republishes, and subscription operations by several sessions",
 "Tests run one subscription and acknowledge in order.",
 ["server/subscription.go","server/subscription_manager.go","server/session.go","server/server_service_set.go"],
 [{"name":"retransmission queue","where":"server/subscription.go"},{"name":"publish request queue","where":"server/session.go"}],
 ["Publish/Republish/acknowledge results at the client"],
 "online protocol monitor per subscription and session",
 "A monitor tracks sequence numbers, available sets, acknowledgement results and request/answer pairing for several sessions."+TRUST)

prop("M03", "Filters, triggers and monitoring modes select exactly the right notifications",
 "A data-change filter reports a change if and only if its trigger (status, value, timestamp) and absolute deadband say so relative to the last reported value, for every numeric type and for arrays; an item in sampling mode reports only through its triggering links, and then everything it had queued; a disabled item neither samples nor reports; index ranges and timestamp selections apply to notifications as to reads. Changing filter, mode, links or queue takes effect from the next sample on and affects no other item; invalid filters and links are refused.",
 ["inputs","histories","configurations"], "for every numeric type, deadband, trigger, mode switch sequence and trigger-link graph",
 "Tests do not use deadbands, triggers or mode switches.",
 ["server/datachange_monitored_item.go","server/server_service_set.go","server/subscription.go"],
 [{"name":"filter evaluation","where":"server/datachange_monitored_item.go"},{"name":"SetTriggering/SetMonitoringMode","where":"server/server_service_set.go"}],
 ["notifications per item vs. model prediction"],
 "notification streams compared with a reference filter model",
 "Scripted value steps separated by observed sampling; a reference filter predicts each reported step."+TRUST)

prop("M04", "Subscriptions keep their revised timing, keep-alive and lifetime contract",
 "The server revises requested publishing intervals, keep-alive and lifetime counts, sampling intervals and queue sizes into its supported ranges (lifetime at least three keep-alives) and then behaves by the revised values: a silent subscription with publish requests available sends a keep-alive within the keep-alive count, an enabled one publishes at most once per interval, and one without publish requests is deleted, with a status-change notification to a later publish, after the lifetime and not before. A disabled subscription sends only keep-alives, and the configured maximum number of subscriptions is never exceeded.",
 ["configurations","histories","inputs"], "for all requested parameters and all sequences of modify, enable/disable, publish and silence",
 "Tests use one parameter set and never let a subscription expire.",
 ["server/subscription.go","server/subscription_manager.go","server/datachange_monitored_item.go"],
 [{"name":"revision and publishing timer","where":"server/subscription.go"}],
 ["revised parameters and arrival of responses, counted in publishing cycles"],
 "response-stream monitor counting cycles against revised parameters",
 "Parameter sweep plus scripted silent/disabled/abandoned subscriptions with generous one-sided bounds."+TRUST)

prop("E01", "Events reach exactly the subscribers whose filters match",
 "An event raised on a notifier is delivered once, in order of raising, with exactly the selected fields, to every reporting event item on that notifier or on a notifier above it whose where clause evaluates to true for that event, and to no other item. The where clause operators that the server supports (Equals and OfType, over literals, fields and other elements, nested in any way) decide as the specification says; malformed or unsupported clauses may select anything for their own item but never stop or disturb event delivery to others.",
 ["inputs","schedules","histories"], "for every event, supported filter (operand kinds, nesting, depth), notifier hierarchy, and concurrent raising, creating and deleting",
 "Tests receive one event with an almost trivial filter.",
 ["server/event_monitored_item.go","server/object_node.go","server/namespace_manager.go"],
 [{"name":"where clause evaluation","where":"server/event_monitored_item.go"},{"name":"event routing","where":"server/namespace_manager.go OnEvent"}],
 ["event notifications vs. raised-event log"],
 "event delivery monitor with a reference filter evaluator",
 "Raised events carry unique ids; an independent evaluator of where clauses predicts each item's stream."+TRUST)

prop("X01", "Method calls run exactly once with the caller's arguments and session",
 "Each method call in a request invokes the method's handler exactly once, with the arguments and the session of that caller, and returns that invocation's outputs in the position of the call; calls to unknown, non-executable or denied methods are refused with the matching status without invoking anything. Concurrent callers never receive each other's results.",
 ["schedules","inputs","histories"], "for any number of concurrent callers, calls per request, argument lists and invalid targets",
 "Tests call each demo method once from one client.",
 ["server/server_service_set.go","server/method_node.go"], [{"name":"handleCall","where":"server/server_service_set.go"}],
 ["handler invocation log vs. client results"],
 "exactly-once monitor joining invocation and result logs",
 "Unique arguments per call; invocation log and results are joined."+TRUST)

prop("H01", "History reads return what the historian recorded, for this user and request",
 "Every value written to a historizing variable is handed to the configured historian exactly once, in order, and a history read returns, for each requested node in order, what the historian answers to exactly that request with the requested timestamps; without a historian, for unsupported details, or for users without the history permission the read is refused with a bad status. One node's failure does not affect the others.",
 ["inputs","schedules","histories"], "for all read details, node lists, timestamp selections, users and concurrent writers",
 "Tests do not install a historian.",
 ["server/server_service_set.go","server/history_read_writer.go","server/variable_node.go"],
 [{"name":"handleHistoryRead, SetValue history hook","where":"server/server_service_set.go, server/variable_node.go"}],
 ["calls seen by a recording historian vs. client results"],
 "recording historian joined with client history",
 "A historian stand-in records every call; results and calls are compared."+TRUST)

prop("R01", "Client calls get exactly their own response or an error, in bounded time",
 "Every client request returns the response to that very request or an error: never another request's response, never nothing, whatever order the server answers in and whatever happens to the connection. It returns no later than its deadline or cancellation, all outstanding and later requests fail promptly once the connection is lost or closed, and closing or aborting always returns and releases the connection.",
 ["schedules","fault_sequences","histories"], "for any number of concurrent requests, response orders, delays, duplicate or unsolicited responses, cancellations, disconnects and close calls",
 "Tests issue requests one by one against a healthy server.",
 ["client/client_secure_channel.go","client/client.go"],
 [{"name":"request/response correlation","where":"client/client_secure_channel.go"}],
 ["results and goroutines at the client against a scripted server"],
 "scripted hostile server plus request/response correlation monitor",
 "A scripted server reorders, delays, duplicates, drops and disconnects; each call is joined with the response made for it; generous watchdogs bound progress."+TRUST)

prop("R02", "Closing and disconnecting release everything",
 "Closing a server ends its listener, connections, sessions and background work and returns, at any time and with any traffic in flight, and may be repeated; its address can then be used again. A client that disconnects, gracefully or not, leaves nothing behind that grows without bound: after its sessions and subscriptions have ended, the server's goroutines, sessions, subscriptions and monitored items return to their previous level.",
 ["schedules","fault_sequences","histories"], "for every point at which a client vanishes or the server is closed, under arbitrary traffic",
 "Tests close the server once, at the end, and do not look at what remains.",
 ["server/server.go","server/server_secure_channel.go","server/subscription.go","server/session_manager.go","server/scheduler.go"],
 [{"name":"Close and cleanup paths","where":"server/server.go, server/session.go, server/subscription.go"}],
 ["goroutine profiles, manager lengths, rebind of the port"],
 "leak and termination monitor over connect/crash/close churn",
 "Churn rounds with abrupt disconnects; goroutine and table levels compared across rounds; close under load with watchdog."+TRUST)

prop("Z01", "Concurrent use is free of data races and deadlocks",
 "Under any concurrent use of the exported server, client, namespace and node operations by applications and network clients, no two goroutines access shared state without synchronisation where one writes, and no operation blocks for ever. Statistics counters listed as known findings are the only exception.",
 ["schedules"], "for all interleavings of services on many channels, application-side updates, node changes, event raising, session and subscription churn, and shutdown",
 "Tests run with one processor, without the race detector and mostly sequentially.",
 ["server/*.go","client/*.go"], [{"name":"mutexes and channels throughout","where":"server/, client/"}],
 ["race detector reports", "progress of every worker"],
 "Go race detector over a mixed stress workload, with progress watchdogs",
 "The whole library is compiled with the race detector and driven by a mixed workload; reports are classified by the source text of both accesses."+TRUST)

prop("L01", "Operation limits and degenerate requests are answered uniformly",
 "A request with no operations is answered with the nothing-to-do status, one exceeding the server's advertised per-call limit with the too-many-operations status, and both have no effect; otherwise every service returns exactly one result per operation, in order, and a failing operation does not prevent or alter the others. Responses echo the request's handle and requests for services the server does not support are answered with a fault.",
 ["inputs","configurations"], "for every service, operation count around the configured limits, and mix of valid and invalid operations",
 "Tests send one operation per request and never reach a limit.",
 ["server/server_service_set.go","ua/server_capabilites.go","server/option.go"],
 [{"name":"per-service limit checks","where":"server/server_service_set.go"}],
 ["service results and result counts"],
 "limit sweep with result-shape and effect monitors",
 "Every multi-operation service driven at 0, 1, limit, limit+1 with mixed operations."+TRUST)

with open(os.path.join(here,"properties.jsonl"),"w") as f:
    for p in P:
        f.write(json.dumps(dict(id=p["id"],title=p["title"],statement=p["statement"],
          quantifier=dict(over=p["over"],text=p["text"]),why_tests_cant=p["why"],
          anchors=dict(files=p["files"],mechanism=p["mech"],observe_at=p["observe"],hook_needed=None)))+"\n")
built = set(open(os.path.join(here,"tools","built.txt")).read().split())
checks=[]; na=[]
for p in P:
    if p["id"] in built:
        checks.append(dict(property=p["id"],quick_cmd="bash check.sh %s quick"%p["id"],thorough_cmd="bash check.sh %s thorough"%p["id"],
          evidence_file="evidence/%s.json"%p["id"],technique=p["technique"],level="exploration",level_note=p["note"]))
    else:
        na.append(dict(property=p["id"],reason=p["na"] or "check not built yet"))
json.dump(dict(version=1,setup_cmd="bash setup.sh",hooks=dict(guard="none",enable="no hooks: the harness observes the exported API, the wire, the race detector and the process boundary",source_commits=[]),
  checks=checks,not_applicable=na),open(os.path.join(here,"MANIFEST.json"),"w"),indent=1)
print(len(P),"properties",len(checks),"checks")
for p in P:
    assert len(p["title"])<=80,(p["id"],len(p["title"]))
