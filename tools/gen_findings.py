#!/usr/bin/env python3
"""Writes known_findings.json: 'fixed' entries suppress nothing; 'findings' are unrepaired defects."""
import json, os, subprocess
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
PROPS = {
 "a refused QoS 2 message is finished with": "P02 P10", "takes a PUBREC with an error": "P21",
 "reports of packets to visual subscribers": "P30", "CONNECT packet with a password can be shown": "P30", "packets with correlation data can be shown": "P30",
 "does not finish the TLS handshake": "P31", "second packet of a TLS record": "P31",
 "lengths which reach beyond their end": "P29 P13", "acknowledgements with bytes after their end": "P29", "empty user name or password may be the last": "P29", "property values which MQTT 5 does not allow": "P29",
 "subscribe options and identifiers which MQTT 5": "P29 P18", "an UNSUBSCRIBE without topic filters": "P29", "MQTT 5 allows a password without": "P29", "must not carry a subscription identifier": "P29 P18",
 "every topic filter of a packet is checked": "P29", "topic aliases are resolved when a PUBLISH arrives": "P16 P29", "refuses an empty topic before it remembers": "P29", "a delayed will is sent when a DISCONNECT ends": "P07", "a clean start ends the delay of a pending will": "P07",
 "cmd/disconnectWithRC disconnects with": "P28", "several unfinished publications to test_qos": "P28",
 "user name and password flags of a packed CONNECT": "P21",
 "lose its place in the stream when a packet arrives with a pause": "P21",
 "disconnect() lets the receiver thread finish": "P21",
 "take up the session again when the server has kept it": "P21",
 "receiver thread of a client ends with its connection": "P21",
 "resend() sends PUBREL only": "P21",
 "answer a PUBREL of a message they have finished with": "P21",
 "threads of a client do not take the same message id": "P21",
 "threads of a client send at the same time are not mixed up": "P21",
 "finish a packet when the socket is full": "P21",
 "send the rest of a packet of which the socket took a part": "P21",
 "adds a queued message to the outbound": "P02 P11", "its own copy of the message properties": "P18", "counts message expiry down": "P15",
 "frees the receive maximum slot": "P10 P16 P20", "receive maximum when it resends": "P10", "disconnects with a reason other than": "P07",
 "whose first packet is not a CONNECT": "P13", "valid reason code when it exceeds": "P10 P13 P07", "V5 broker disconnects a client whose packet cannot": "P13",
 "clean up thread holds the lock": "P06 P07 P13", "hold the lock while they check keep alives": "P08 P26", "server_keep_alive": "P08",
 "hands publications to the V5 broker": "P17 P19", "retained messages are not sent to shared": "P04 P17 P18", "do not reuse a packet identifier": "P11",
 "limits acknowledgements to the client's": "P24 P20", "close a connection when sending": "P12 P14", "does not wait forever for the rest": "P14",
 "V311 broker disconnects a client whose packet": "P13", "test/QoS 1 only": "P24", "all the topics in an unsubscribe": "P05", "passes the client id with a QoS 2": "P05",
 "topic names are checked when a will": "P13", "+ wildcard matches an empty": "P05", "acknowledgements can have properties": "P18 P24", "UTF-8 string lengths": "P05 P12",
 "ends or stalls in its first packet": "P13", "WebSocket listener handles": "P12", "subscriptions overlap, those which are no local": "P18",
 "connection is ending": "P09 P07 P24", "a shared subscription gets one copy": "P17", "a will message can carry": "P07 P13 P18", "slow to send a packet": "P14 P13", "time allowed for sending a packet": "P14", "SIGTERM is not swallowed": "P26", "end when the broker is stopped": "P26",
 "now that time.clock() is gone": "P25", "CONNECTs with an empty client id": "P25", "forwarded as the V5 broker does": "P25", "with a topic which is not a valid topic name": "P25", "length is not the datagram's": "P25", "does not cut datagrams": "P25",
 "has its own connection to the broker": "P22", "passes on all of a packet": "P22", "closes the connection to the broker when": "P22",
 "HTTP requests look at the brokers' data": "P27", "knows the clients of the V5 broker": "P27", "HTTP requests for retained messages work": "P27", "does not keep all the others waiting": "P27", "HTTP listener is stopped with": "P26", "reason for HTTP requests to print": "P27",
}
exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "more_findings.py")).read()) if os.path.exists(os.path.join(os.path.dirname(os.path.abspath(__file__)), "more_findings.py")) else None
fixed, missing = [], []
for l in subprocess.check_output(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], text=True).splitlines():
  h, s = l.split(" ", 1)
  if not s.startswith("fix:"): continue
  ps = [v for k, v in PROPS.items() if k in s]
  if len(ps) != 1: missing.append(l)
  for p in (ps or [""])[0].split(): fixed.append("fixed: property=%s %s %s" % (p, h, s[5:]))
f = os.path.join(V, "known_findings.json")
old = json.load(open(f)) if os.path.exists(f) else {"findings": []}
json.dump({"findings": old["findings"], "fixed": fixed}, open(f, "w"), indent=1)
print(len(fixed), "entries; unmapped:", missing)
