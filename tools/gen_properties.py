#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run it to regenerate the file)."""
import json, os
I = "interoperability/mqtt/"
B5, B3, BR5, BR3 = I+"brokers/V5/MQTTBrokers.py", I+"brokers/V311/MQTTBrokers.py", I+"brokers/V5/Brokers.py", I+"brokers/V311/Brokers.py"
SE5, SE3 = I+"brokers/V5/SubscriptionEngines.py", I+"brokers/V311/SubscriptionEngines.py"
TCP, UDP, HTTP = I+"brokers/listeners/TCPListeners.py", I+"brokers/listeners/UDPListeners.py", I+"brokers/listeners/HTTPListeners.py"
START = I+"brokers/start.py"
P = []
OVER = {"faults": "fault_sequences", "crash points": "crash_points"}
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
  a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
  if state: a["state"] = [{"name": n} for n in state]
  if observe: a["observe_at"] = observe
  P.append({"id": id, "title": title, "statement": statement,
            "quantifier": {"over": [OVER.get(o,o) for o in over], "text": text}, "why_tests_cant": why, "anchors": a})
WIRE = ["bytes on each simulated client connection"]

prop("P01", "Acknowledged QoS 1/2 messages reach every matching session",
 "Once the broker has acknowledged a publisher's QoS 1 PUBLISH with PUBACK, or its QoS 2 PUBLISH with PUBREC and PUBCOMP, the message is delivered at least once to every session, connected or not, that held a matching subscription of granted QoS 1 or 2 throughout, unless that session ends, the message expires, or it is too large for that client. Connection losses at any byte, disconnections, takeovers and stalls of the subscriber only delay it: once the client is back on its session and keeps acknowledging, everything outstanding arrives within bounded time.",
 ["schedules", "faults", "histories"], "all interleavings of publishers and subscribers, connection losses at any point of the handshakes, reconnections, ack delays",
 "The suite disconnects one subscriber once, with every handshake complete; loss needs a connection cut inside a handshake, or a queue drained across a reconnect with other traffic interleaved.",
 [B5, B3, BR5, BR3], [("MQTTClients.publishArrived", B5), ("MQTTClients.resend/sendQueued", B5), ("MQTTClients.resend", B3)], ["per-session outbound, outmsgs and queued lists"], WIRE)

prop("P02", "QoS 2 messages are forwarded and delivered exactly once",
 "However often a publisher retransmits a QoS 2 PUBLISH or its PUBREL, on the same connection or after reconnecting to its session, the broker forwards the message exactly once to each matching session and answers every retransmission. Towards a QoS 2 subscriber the broker retransmits only on a new connection, with the same packet identifier and content and DUP set; it never sends the PUBLISH again after the subscriber's PUBREC but resumes with PUBREL (a PUBREC which refuses the message ends the exchange, with no PUBREL), and never gives the same message two packet identifiers.",
 ["schedules", "faults", "histories"], "all retransmission histories and connection cuts between the four handshake packets, on both the publisher's and the subscriber's side, publish_on_pubrel on and off",
 "Tests run the handshake once in the good order; duplicates appear only when a cut falls between two particular packets and the peer resumes.",
 [B5, B3], [("MQTTBrokers.publish/pubrel inbound ids", B5), ("MQTTClients.resendPub", B5), ("MQTTClients.resend, pubrec", B3)], ["MQTTClients.inbound, outmsgs, qos2state"], WIRE)

prop("P03", "Per-publisher message order is preserved to every subscriber",
 "Messages that one client publishes to one topic at one QoS are sent for the first time to each matching session in the order in which they were published, whether they go out at once, wait behind the receive maximum, or were queued while the session was disconnected. On a reconnection unacknowledged messages are retransmitted in the order they were first sent, before any message not yet sent.",
 ["schedules", "histories"], "all interleavings of several publishers and subscribers, queueing, reconnects and acknowledgement orders",
 "An order inversion needs a backlog and a particular acknowledgement or reconnect pattern; tests publish a handful of messages to an idle subscriber.",
 [B5, B3], [("MQTTClients.sendQueued/sendFirst", B5), ("MQTTClients.outbound", B3)], ["outbound and queued lists"], WIRE)

prop("P04", "A new subscription gets exactly the current retained messages",
 "For every topic the broker keeps exactly the last message it processed with RETAIN set and a non-empty payload, and an empty RETAIN payload removes it, whichever client, protocol version or will published it. A SUBSCRIBE delivers, for each of its filters, exactly one copy of each matching retained message with RETAIN set, the original payload, QoS the lower of the two, and application properties as published (subject to the v5 retain handling option, none for shared subscriptions); it survives publishers and subscribers disconnecting.",
 ["histories", "schedules"], "all histories of retained publishes, deletions, subscribes and disconnects by v3.1.1 and v5 clients",
 "Tests set three topics once; leaks between subscribers' copies and the stored one, or stale values, need several publishers and subscribers over time.",
 [BR5, BR3, SE5, SE3], [("__doRetained__", BR5), ("setRetained/getRetained", SE5), ("setRetained", SE3)], ["sharedData['retained']"], WIRE)

prop("P05", "Messages go to exactly the sessions with a matching subscription",
 "A PUBLISH is forwarded to exactly the sessions that hold at least one matching topic filter when it is processed: one copy per session carrying the publisher's topic and payload unchanged, at QoS min(published, highest matching granted). A client gets nothing for filters it never had, has unsubscribed (from the UNSUBACK on), or that belonged to a session that ended, and topics starting with $ match no filter starting with a wildcard.",
 ["histories", "schedules"], "all histories of subscribe, resubscribe, unsubscribe, publish and session changes by many clients with overlapping and wildcard filters",
 "Tests check few filter/topic pairs with one subscriber; wrong routing depends on the history of several sessions' subscriptions.",
 [BR5, BR3, SE5, SE3], [("Brokers.publish", BR5), ("Brokers.publish", BR3), ("subscribe/unsubscribe/clearSubscriptions", SE5)], ["sharedData['subscriptions']"], WIRE)

prop("P06", "Sessions resume, expire and are discarded exactly as negotiated",
 "CONNACK reports session present exactly when the client asked to continue, and a session of its client identifier exists and has not expired; a continued session still has its subscriptions, queued messages and unfinished QoS 1/2 exchanges, and a new one has none of them. A session ends at a clean start/clean session connect, at disconnection when its expiry interval is 0 (v5) or it was made with clean session (v3.1.1), and once disconnected for longer than its v5 session expiry interval, counted from the end of its last connection and including an interval changed in DISCONNECT.",
 ["histories", "faults"], "all histories of connects, disconnects, connection losses, takeovers, expiry intervals and elapsed times",
 "Session expiry needs long times and the combination of clean flags, expiry and kind of disconnection across several connections; tests wait for one expiry.",
 [B5, B3, BR5, BR3], [("MQTTBrokers.connect", B5), ("Brokers.disconnect", BR5), ("connect/disconnect", BR3)], ["Brokers.__clients, sessionEndedTime"], WIRE)

prop("P07", "A will is published exactly once iff the connection ends abnormally",
 "When a connection with a will ends other than by a normal DISCONNECT (connection loss at any byte, keep alive timeout, takeover, protocol or malformed-packet error, a v5 DISCONNECT with any reason other than normal), the will message is published exactly once with its topic, payload, QoS, retain flag and properties, after the will delay or when its session ends, whichever is first (a clean start ends it); after a normal DISCONNECT it is never published. The delayed will of a v5 client is not published if the client takes up its session before the delay elapses, and no other client's activity can suppress, delay (by more than about two seconds) or duplicate it.",
 ["schedules", "faults", "histories"], "all ways and instants at which a connection can end, racing reconnects, delays, several clients dying together",
 "Tests provoke one clean and one abrupt termination; double, lost or stale wills come from races between the timer thread, keep alive, takeover and request handling.",
 [B5, B3, BR5, BR3, TCP], [("setupWillMessage/sendWillMessage", BR5), ("cleanupThreads.run", B5), ("terminate", BR3), ("WebSocketTCPHandler.handle", TCP)], ["client.will, delayedWillTime, willMessageClients"], WIRE)

prop("P08", "Keep alive: silent clients are dropped, others never are",
 "A connected client with keep alive K>0 (v5: capped at the server keep alive returned in CONNACK) that sends nothing is disconnected, and its will published, within 1.5 K plus about three seconds, while one that sends a packet at least every K seconds, or has K=0, is never disconnected for inactivity. This holds with any number of clients, whatever traffic the broker sends, and is unaffected by jumps of the wall clock.",
 ["schedules", "faults"], "all timings of packets, keep alive values, traffic patterns and wall clock jumps",
 "The one keep alive test waits for one timeout; false timeouts and missed ones depend on clocks, traffic and timing.",
 [TCP, B5, B3], [("select timeout branch of handle", TCP), ("keepalive", B5), ("keepalive", B3)], ["client.lastPacket, keepalive"], WIRE)

prop("P09", "At most one live connection per client identifier; the newest wins",
 "When a client connects with an identifier already connected with the same protocol version, the older connection is closed (a v5 one after DISCONNECT 'Session taken over'), the newer one gets CONNACK and keeps working, and from that CONNACK on every message for the session goes to the newer connection only. Late bytes, close or timeout events of the old connection never disturb the new connection, its session or its will, even with many clients taking over concurrently.",
 ["schedules", "faults"], "all interleavings of concurrent connects with the same identifier with traffic, timers and socket events of the old connections",
 "Tests do one takeover sequentially; the hazards are the old handler thread's late wake-ups interleaving with the new connection.",
 [B5, B3, TCP], [("connect: already connected branch", B5), ("connect", B3), ("handle", TCP)], ["MQTTBrokers.clients socket map"], WIRE)

prop("P10", "Outbound and inbound flow control windows are respected and drain",
 "Towards a v5 client the broker never has more QoS 1/2 messages unacknowledged on a connection than the client's receive maximum; every acknowledgement (a PUBREC which refuses the message included) frees its slot exactly once, so that waiting messages flow as long as the client acknowledges, whatever mix of QoS, oversized or expired messages is in the queue. A v5 client that exceeds the broker's own advertised receive maximum of unfinished QoS 2 publications is disconnected with reason 'Receive maximum exceeded', and one that does not, retransmissions included, never is.",
 ["histories", "schedules"], "all receive maximum values, acknowledgement orders, reconnects and message mixes",
 "Tests use a receive maximum of 2 in one sequence; slot leaks need several window turnovers, mixes of QoS, oversize, expiry and reconnects.",
 [B5], [("sendQueued/sendFirst/publishArrived", B5), ("publish: receiveMaximum check", B5)], ["outbound, queued, outmsgs, receiveMaximum"], WIRE)

prop("P11", "Packet identifiers in flight to a client are unique and never reused early",
 "At any time no two unfinished QoS 1/2 messages from the broker to one session carry the same packet identifier, also after the identifier counter has wrapped around at 65535 and across reconnections, and identifiers are never 0. An acknowledgement releases only the message that carries its identifier, and unknown, repeated or wrong-type acknowledgements change nothing.",
 ["histories", "faults"], "all acknowledgement histories including withheld, duplicate, stray and out of order ones, and histories longer than the 16-bit identifier space",
 "A wrap needs 65535 messages with an early one still unacknowledged; tests send a few dozen.",
 [B5, B3], [("sendFirst msgid allocation", B5), ("publishArrived msgid allocation", B3), ("puback/pubrec/pubcomp", B5)], ["msgid, outmsgs"], WIRE)

prop("P12", "Packet streams do not depend on TCP or WebSocket segmentation",
 "The broker's behaviour depends only on the byte stream a client sends, not on how TCP segments or WebSocket frames cut it: packets split at any byte or coalesced into one segment or frame are all processed, in order, without waiting for later traffic. Whatever the client's read speed and short writes, the bytes the broker sends on a connection are a sequence of whole valid packets (inside valid WebSocket frames), possibly truncated only by the connection's end.",
 ["inputs", "faults", "schedules"], "all cuts of the byte stream into segments and frames (gaps below the 0.3 s read timeout), short reads and writes, full send buffers",
 "Loopback tests deliver each packet whole; cuts at inconvenient bytes, several packets per frame and partial writes do not occur there.",
 [TCP, I+"formats/MQTTV5/MQTTV5.py", I+"formats/MQTTV311/MQTTV311.py", B5, B3], [("BufferedSockets.recv/send/wsrecv", TCP), ("handle: CONNECT version sniffing", TCP), ("getPacket", I+"formats/MQTTV5/MQTTV5.py")], ["BufferedSockets.buffer"], WIRE)

prop("P13", "A failing or malicious client never disturbs other clients",
 "Whatever bytes one connection sends (malformed, truncated or out-of-protocol packets, packets before CONNECT, invalid topics, garbage) and however it ends, the broker ends that connection without processing its later packets, every other connection stays up, and other clients' requests are still served and answered correctly. Afterwards the offender counts as disconnected: its will has been handled, its identifier can reconnect, and the broker keeps no trace of it as connected.",
 ["inputs", "faults", "schedules"], "all byte strings and packet sequences from one client at any time, with healthy clients' traffic interleaved",
 "Tests send two or three specific bad packets; a leaked lock, dead thread or zombie session needs the bad input in a particular state and shows only in others' later traffic.",
 [TCP, B5, B3], [("handleRequest error paths", B5), ("handleRequest", B3), ("handle except clauses", TCP)], ["shared lock, clients map"], WIRE)

prop("P14", "A slow or stalled client does not stall the others",
 "While some connections are stalled - idle before or inside a packet or handshake, or not reading what they are sent until buffers fill - requests of all other clients are still answered within bounded time. When the stall ends or the stalled peer is gone, all of it resolves: nothing stays blocked.",
 ["faults", "schedules"], "all points at which a peer can stall in sending or receiving, for any time, with others' traffic interleaved",
 "Tests never stall a peer; one lock is shared by all connections and blocking reads and writes occur under it.",
 [TCP, B5, B3, I+"formats/MQTTV311/MQTTV311.py"], [("handleRequest holds the lock while reading", B3), ("respond writes under the lock", B5), ("handle", TCP)], ["shared RLock"], WIRE)

prop("P15", "Message expiry is honoured and counted down correctly",
 "A v5 message whose Message Expiry Interval has passed is not sent for the first time to any v5 client, queued or retained, and one that is sent within it carries the interval less the whole seconds it has waited in the broker, each copy computed independently of other subscribers and earlier transmissions; a message without the property never expires. Discarding an expired message never blocks or reorders later ones.",
 ["histories", "schedules"], "all waiting times, numbers of subscribers, retained and queued copies, reconnects, and retransmissions",
 "Tests wait for one message with one subscriber; errors accumulate over several subscribers and transmissions and block windows only at particular times.",
 [B5, BR5], [("respond expiry", B5), ("publishArrived receivedTime", B5)], ["properties.MessageExpiryInterval, receivedTime"], WIRE)

prop("P16", "Topic aliases always resolve to the right topic",
 "A v5 PUBLISH with an alias is treated as published to the topic last bound to that alias on the same connection, and an alias that is unset, 0 or above the advertised maximum ends the connection with a protocol error without affecting others. Aliases the broker sends are within the client's topic alias maximum, are bound by a PUBLISH with a topic name earlier on that same connection, and resolve to the published topic for every delivery, including queued, retransmitted, retained and will messages, and never outlive the connection.",
 ["histories", "faults"], "all alias histories over several connections, reconnects with other maxima, queued and retransmitted deliveries, several subscribers with different maxima",
 "Tests use one alias on one connection; stale or leaked aliases need queued deliveries, reconnects or several subscribers sharing a message.",
 [B5, BR5], [("publishArrived outgoing aliases", B5), ("getAliasTopic", BR5), ("clearTopicAliases", B5)], ["topicAliasToNames, outgoingTopicNamesToAliases"], WIRE)

prop("P17", "A shared subscription delivers each message to exactly one member",
 "For each shared subscription ($share/name/filter), every matching message is delivered to exactly one of the sessions that hold it when the message is processed, whatever their non-shared subscriptions, while each non-shared subscription gets its own copy as usual; other share names are served independently. No retained messages are sent for it, and a QoS 1/2 message given to a member stays with that session's queue until delivered or the session ends.",
 ["schedules", "histories"], "all memberships, joins, leaves, random member choices and overlapping ordinary subscriptions",
 "The choice is random; the tests look at two members and a few messages.",
 [BR5, SE5], [("Brokers.publish shared branch", BR5), ("subscriptions", SE5)], ["sharedData['subscriptions']"], WIRE)

prop("P18", "v5 subscription options and message properties are per-subscriber exact",
 "Each v5 delivery carries exactly the application properties the publisher sent (user properties in order, content type, response topic, correlation data, payload format), plus exactly the subscription identifiers of that session's matching subscriptions, and nothing that belongs to another subscriber, an earlier message or the will's delay. No Local suppresses precisely the publisher's own messages for that subscription, Retain As Published keeps the RETAIN flag, Retain Handling decides retained delivery, and resubscribing replaces the options.",
 ["histories", "schedules"], "all combinations of subscribers' options and identifiers on overlapping filters, and message properties, over time",
 "Tests check one or two subscribers; the message object is shared among subscribers and the retained store, so errors depend on who else subscribes.",
 [BR5, B5, SE5], [("publishAction", BR5), ("publishArrived properties", B5), ("optionsOf/resubscribe", SE5)], ["Publishes.properties, Subscriptions.options"], WIRE)

prop("P19", "MQTT 3.1.1 and 5 clients of the broker interwork both ways",
 "Messages, retained messages and wills published by a v3.1.1 client reach v5 subscribers and vice versa under the same routing, QoS, ordering and session queueing rules as within one version; each client receives only packets of its own protocol version. Shared state of one version's clients never breaks publishing or subscribing of clients of the other, whatever sessions exist or have ended (client identifiers being distinct across versions).",
 ["histories", "schedules"], "all mixes of v3.1.1 and v5 publishers and subscribers, connected and disconnected sessions",
 "The test files each speak one version only.",
 [BR5, BR3, START], [("publish: MQTT V3 subscription branch", BR5), ("publish: __broker5 branch", BR3), ("run", START)], ["shared sharedData"], WIRE)

prop("P20", "Maximum packet sizes are enforced both ways without side effects",
 "The broker never sends a v5 client a packet larger than the Maximum Packet Size of its current connection; a message too large is skipped for that client only, as if delivered, without blocking its window or later messages. A v5 client that sends a packet larger than the broker's advertised maximum is disconnected and the packet has no effect, and one that does not exceed it is never disconnected for size.",
 ["inputs", "histories"], "all packet sizes around the limits, mixed with queueing, reconnects with different limits, several subscribers",
 "Tests send one packet above the limit; the effect on windows, queues and other subscribers needs later traffic.",
 [B5], [("respond maximumPacketSize", B5), ("handleRequest/unpackPacket size check", B5)], ["client.maximumPacketSize, outbound"], WIRE)

prop("P21", "The client library completes QoS 1/2 exchanges without loss or duplication",
"A Python test client (clients/V311, clients/V5) with a registered callback writes each packet once, whole and in order, whatever the segmentation, delays, short writes and pauses of the connection and whichever of its threads writes; it tells the callback about every message the server sends on a connection, in the order of their (QoS 2: released) packets and about no QoS 2 message twice, and acknowledges it only then. Each QoS 1 or 2 publish reaches the server as the caller gave it, with a packet id no unfinished exchange uses, and published() is called once when it is acknowledged; CONNECT carries what the caller gave, and SUBACK and UNSUBACK reach the callback unchanged. After a connection loss at any point, a connect() which finds the session kept by the server takes up the outstanding exchanges in order (PUBLISH with DUP until the PUBREC has arrived, then PUBREL unless it refused the message), so that each publish is received at least once (QoS 2: exactly once) and all messages of the session are delivered; a connect() which finds no session starts afresh. Calls return, and disconnect() finishes what is outstanding, sends DISCONNECT and leaves no thread behind (terminate() and clients without callback are not covered).",
 ["schedules", "faults"], "all thread schedules of the receiver thread and caller, segmentations, partial writes, connection cuts and resumptions",
 "The tests use it over a loopback connection that never cuts or shortens anything.",
 [I+"clients/V311/main.py", I+"clients/V311/internal.py", I+"clients/V5/main.py", I+"clients/V5/internal.py"], [("Receivers.receive", I+"clients/V5/internal.py"), ("sendtosocket", I+"clients/V5/internal.py")], ["outMsgs, inMsgs"], ["bytes at the simulated server", "client callbacks"])

prop("P22", "The proxies forward both byte streams unchanged and keep connections apart",
 "For every client connection, the proxies (mqtt/proxy/mqttsas.py, mqtt/restart/netproxy.py) deliver to the broker exactly the packets that client sent and to the client exactly the packets the broker sent on a connection of their own, byte for byte and in order, whatever the packets contain and whatever the segmentation, short writes and slow readers; every packet sent in full before an orderly end of its sender arrives. Concurrent connections never exchange bytes or hold each other up. The end of either side ends both within bounded time and leaves nothing behind, and otherwise a proxy ends connections only when it is told to (the trace proxy's TERMINATE message, the restart proxy's control message, which ends all connections).",
 ["schedules", "faults"], "all interleavings of concurrent proxied connections, packets, segmentations, short writes, slow readers, connection losses and control messages",
 "No test runs the proxies; the faults need concurrency or partial writes.",
 [I+"proxy/mqttsas.py", I+"restart/netproxy.py"], [("MyHandler.handle", I+"proxy/mqttsas.py"), ("TCPServer handler", I+"restart/netproxy.py")], ["module-level brokers and clients tables"], ["bytes at the simulated broker and client ends"])

prop("P23", "With persistence, retained messages and subscriptions survive a restart",
 "With 'persistence true', after an orderly shutdown and restart the broker serves exactly the retained messages and the subscriptions it had when it stopped, no more and no less, and after a crash at any point those of the last orderly shutdown. The restarted broker then behaves normally, also for restored subscriptions whose clients have not yet come back.",
 ["crash points", "histories"], "all histories of retained and subscription changes, and crashes or stops at any point",
 "No test restarts the broker.",
 [START, SE5, SE3], [("setup_persistence / commit at shutdown", START), ("SubscriptionEngines.__init__", SE5)], ["ZODB root.mqtt['sharedData']"], WIRE + ["files in the broker's working directory"])

prop("P24", "Every request gets exactly its acknowledgement, in order",
 "The broker answers each CONNECT, SUBSCRIBE, UNSUBSCRIBE, PINGREQ, QoS 1/2 PUBLISH and PUBREL of a client that stays connected with exactly one CONNACK, SUBACK, UNSUBACK, PINGRESP, PUBACK/PUBREC and PUBCOMP carrying the same packet identifier, in the order of the requests, with one correct return code per filter (granted QoS, or failure for the documented test topics; v5 UNSUBACK and publish reason codes telling whether anything matched). It sends nothing else unsolicited, and nothing before CONNACK.",
 ["histories", "schedules"], "all request pipelines from many clients at once, and all states of subscriptions they refer to",
 "Tests issue one request at a time and rarely look at the codes.",
 [B5, B3], [("subscribe/unsubscribe/publish/pubrel/pingreq", B5), ("subscribe...", B3)], None, WIRE)

prop("P25", "MQTT-SN datagrams are bridged once each, and bad ones do no harm",
 "An MQTT-SN PUBLISH datagram with a short (two-byte, valid) topic name and QoS -1, or QoS 0 from an address whose CONNECT is current, is forwarded exactly once per received copy to the MQTT 3.1.1 and 5 clients subscribed to its topic, as QoS 0 with its payload unchanged, and is retained if and only if it asks to be. A CONNECT gets exactly one CONNACK (a second CONNECT from an address ends the session there; a client id moves to the address it last connected from). Datagrams that are truncated, garbage, of a wrong length, of unsupported message or topic types, with invalid topic names, with QoS 1 or 2, or QoS 0 from strangers are not forwarded and, like lost, duplicated and reordered datagrams and receive errors, never stop the UDP listener or disturb TCP clients.",
 ["inputs", "faults", "schedules"], "all datagram contents, losses, duplications and reorderings, with TCP clients' traffic interleaved",
 "No test exercises MQTT-SN through the broker.",
 [UDP, I+"brokers/SN/MQTTSNBrokers.py", I+"brokers/SN/Brokers.py"], [("UDPHandler.handle", UDP), ("handleRequest/publish", I+"brokers/SN/MQTTSNBrokers.py")], None, WIRE)

prop("P26", "An orderly shutdown releases every client and resource",
 "When the broker is told to stop (SIGTERM) at any instant, it stops serving within bounded time: every v5 client connected at that moment which reads what it is sent gets DISCONNECT 'Server shutting down', every connection is closed, no will of a connected client is published because of the stop, and all its threads end. It does so whatever requests, handshakes, timers or stalled peers are in progress.",
 ["schedules", "faults"], "all instants of the stop request relative to requests, timers and stalls",
 "Tests kill the broker process; they never look at how it stops.",
 [START, B5, B3, TCP], [("run shutdown sequence", START), ("shutdown/disconnectAll", B5), ("cleanupThreads.stop", B5)], None, WIRE)

prop("P27", "The HTTP admin listener reports the broker's actual state",
 "GET requests to the HTTP listener for clients, one client, subscriptions and retained messages return well-formed JSON within bounded time, and list exactly the sessions (with whether they are connected), subscriptions and retained messages (other than those on topics starting with $) the 3.1.1 and 5 brokers hold together at some one moment during the request, with any number of MQTT clients changing them concurrently. Requests, however malformed, slow or unfinished, never disturb MQTT traffic or other HTTP requests.",
 ["schedules", "histories"], "all interleavings of HTTP requests with connects, subscribes, publishes and session ends",
 "No test uses the HTTP listener; its failures are races with the broker threads.",
 [HTTP], [("do_GET handlers", HTTP)], ["sharedData, broker client tables"], ["HTTP response bytes"])

prop("P28", "Behaviour on demand: the reserved test names do what they are for",
 "A subscription to test/nosubscribe is refused (0x80) and does not exist; one to 'test/QoS 1 only' or 'test/QoS 0 only' is granted, and used, with at most that QoS. On version 5 every QoS 1 or 2 PUBLISH to test_qos_1_2_errors is answered 'Not authorized', which ends the exchange; every QoS 2 PUBLISH to test_qos_1_2_errors_pubcomp, however many are unfinished, is delivered once and its PUBCOMP says 'Packet identifier not found'; and a PUBLISH to cmd/disconnectWithRC ends that connection, and no other, with a DISCONNECT with the reason code in its payload and the sample properties. User properties of SUBSCRIBE, UNSUBSCRIBE, such a PUBLISH and its PUBREL come back in the acknowledgement (if it fits the client's maximum packet size) and in no other, and for 3.1.1 clients the last three are ordinary topics.",
 ["histories", "schedules"], "all pipelines of such requests mixed with ordinary ones, retransmissions, reconnects and several clients at once",
 "The tests try each of these at most once, on an idle connection; the disconnect command not at all.",
 [B5, B3], [("publish/pubrel/handleBehaviourPublish/subscribe/unsubscribe", B5), ("subscribe", B3)], None, WIRE)

prop("P29", "Malformed packets are refused without effect; every well-formed one is accepted",
 "A packet of a client that its MQTT version does not allow - lengths that do not add up, reserved bits, flags, types or values, missing, repeated or foreign properties and fields, invalid UTF-8, topic names or filters - is never answered or acted on: as a first packet no session and no CONNACK with success comes of it; later the broker ends that connection (as an abnormal end, so its will is due, with an error reason code on version 5), and the session keeps exactly the state it had before that packet, so that a valid prefix of it (the first of two topic filters, the packet identifier of a QoS 2 PUBLISH) has no effect. Every packet which is allowed is accepted and means the same however it is written: optional fields present or not, empty strings, properties in any order, explicit reason codes, minimal or maximal forms.",
 ["inputs", "histories", "schedules"], "every packet of every type, with any small mutation, at any point of any session history, alone or while others publish and subscribe",
 "The tests send a handful of wrong packets on fresh connections, and never look at what the session holds afterwards.",
 [I+"formats/MQTTV5/MQTTV5.py", I+"formats/MQTTV311/MQTTV311.py", B5, B3], [("unpack", I+"formats/MQTTV5/MQTTV5.py"), ("unpack", I+"formats/MQTTV311/MQTTV311.py"), ("publish/subscribe/unsubscribe", B5), ("publish/subscribe/unsubscribe", B3)], None, WIRE)

prop("P30", "Visual mode reports every v5 packet once, in order, and changes nothing else",
 "With 'visual true', every packet that an MQTT 5 client sends and the broker takes, and every packet the broker sends to one, is published exactly once on $SYS/clients-packets, as a QoS 0 message with one JSON document that tells its direction, the connection, the client and the packet's type and fields; the reports themselves are not reported. Every subscriber to that topic, of either protocol version and however many there are, gets all reports, and the same ones, in the order in which the broker handled the packets: what each connection sent and got in order, and a message's publication before its deliveries. A packet of any content is reported. Everything else the broker does is the same as without the option.",
 ["histories", "schedules", "inputs"], "every history and interleaving of any number of clients and of observers of either version, with any packet contents",
 "No test turns the option on.",
 [B5, I+"formats/MQTTV5/MQTTV5.py"], [("respond/handleRequest", B5), ("json", I+"formats/MQTTV5/MQTTV5.py")], None, WIRE)

prop("P31", "A TLS listener serves its clients exactly as a plain listener does",
 "Clients of a listener with a certificate, over WebSockets or not, share the broker with those of plain listeners and get the same behaviour in every respect: requests are answered at once, messages are delivered, sessions and wills are kept, and connections end when they should. It does not matter how the stream of packets is cut into TLS records: several packets in one record are all handled when they arrive, and a packet may come in several records. A connection that stops at any point of the TLS handshake, does it wrongly, or speaks no TLS at all affects no other connection and no listener.",
 ["histories", "schedules", "inputs"], "every history of any number of clients of both kinds of listener, every way of cutting packets into records, every interleaving and every point where a handshake stops",
 "No test uses the TLS listener.",
 [I+"brokers/listeners/TCPListeners.py", I+"brokers/start.py"], [("handle", I+"brokers/listeners/TCPListeners.py"), ("create", I+"brokers/listeners/TCPListeners.py")], None, WIRE)

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
  for p in P: f.write(json.dumps(p) + "\n")
print(len(P), "properties")
