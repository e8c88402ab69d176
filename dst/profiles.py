"""Scenario profiles per property.  Each entry: list of (weight, profile).  'fault' tells a fault-free configuration from one with faults."""

NOFAULT = {"drop": 0, "batch": 4, "partial": 0, "takeover": 0, "dup": 0, "bad": 0, "rawbad": 0, "par": 0}
CALM = {"net": 0.0, "preempt": [(1, 0.0)], "batch_fin": 0.0, "ops": dict(NOFAULT)}
CHURN = {"ops": {"conn": 16, "drop": 10, "batch": 8, "partial": 4, "takeover": 3, "dup": 3}}
HOLD = {"hold": 0.6, "rm": [(1, None), (2, 1), (2, 2), (2, 3)], "qos": [1, 4, 6],
        "ops": {"pub": 34, "pol": 5, "release": 10, "drop": 6, "conn": 12, "dup": 3}}
OFFLINE = {"clean": 0.1, "sei": [(6, 1000), (1, 0xFFFFFFFF)], "qos": [1, 5, 6], "v4": 0.4, "sub": 1,
           "ops": {"pub": 34, "conn": 12, "drop": 10, "disc": 6, "sub": 8}}
PERSIST = {"mode": "persist", "retain": .4, "clean": .15, "sei": [(1, 0), (5, 1000)], "share": .08, "rh": .2, "sid": .3, "rap": .3, "props": .4, "mei": .1, "mei_range": (5, 60),
           "nops": (10, 30), "restarts": [(1, "stop")], "ops": {"sub": 16, "unsub": 8, "dup": 0}}
HTTP = {"mode": "admin", "dollar": .1, "share": .15, "mei": .1, "mei_range": (2, 10), "will_retain": .5, "retain": .3, "ops": {"par": 0}}
SN = {"mode": "sn", "allsub": .9, "nops": (6, 20), "retain": .2, "share": .08, "sid": .2, "nl": .05, "wfilter": .3, "special": 0, "dollar": 0,
      "ops": {"sub": 14, "unsub": 4, "pub": 16, "adv": 1, "partial": 0}}
VISUAL = {"mode": "visual", "max_steps": 1500000, "dollar": 0, "special": 0, "odd": .3, "props": .5, "will": .3, "sid": .3, "tam": [(2, None), (1, 1), (1, 3)], "anon": .1}
BADKINDS = ["wildtopic", "emptytopic", "connect2", "type0", "type15", "pub_qos3", "sub_flags", "rl5", "sub_short", "utf8", "server_pkt", "suback", "topiclen"]
MUTKINDS = ["mut"] * 8 + ["wildtopic", "emptytopic", "alias_0", "alias_big", "alias_unset"]
TLSKINDS = ["tlsnone", "tlshalf", "tlsmid", "tlswrong", "tlsplain", "tlsidle"]
TLS = {"tls": True, "rawkinds": TLSKINDS + ["silent", "halfconn", "garbage", "wshalf"], "badkinds": ["rl5", "sub_short", "server_pkt", "type0"], "ws": .3, "will": .3}
RAWKINDS = ["silent", "garbage", "ping", "pub", "sub", "halfconn", "badproto", "badver", "http", "disc", "rl5", "longconn"]
WILLS = {"will": 0.8, "wdi": [(3, None), (1, 0), (2, 3), (1, 8), (1, 100)], "sei": [(1, 0), (3, 1000), (1, 5)], "disc_rc": 0.4, "disc_sei": .3, "will_retain": 0.3, "allsub": 0.9,
         "filters": ["w/#", "#", "+/+", "w/+", "w/c0", "w/c1", "a/b"],
         "ops": {"pub": 10, "conn": 16, "disc": 8, "drop": 10, "takeover": 4, "partial": 4, "adv": 8, "bad": 2}, "badkinds": BADKINDS,
         "adv": [(3, (0.1, 2.0)), (3, (2.0, 12.0))]}


CONC = {"preempt": [(1, 0.02), (3, 0.2)], "net": .6, "clients": (4, 8), "max_steps": 600000, "nops": (6, 16), "par_max": 8, "hold": .2, "retain": .2, "v4": .4,
        "filters": ["a", "b", "c", "d", "e", "a/b", "+/b", "#"], "topics": ["a", "b", "c", "d", "e", "a/b"],
        "ops": {"par": 40, "batch": 2, "partial": 1, "pub": 4, "sub": 5, "unsub": 1, "conn": 8, "disc": 1, "drop": 3}}
CONCB = dict(CONC, allsub=.8, par_mix=[(5, "batch"), (2, "pub")])
CONCC = dict(CONC, will=.5, par_mix=[(3, "batch"), (2, "pub"), (4, "conn"), (3, "drop"), (1, "disc")])

# topics and filters of the broker's behaviour on demand; what becomes of a message refused on demand is not said, so nobody has a subscription to it
AIDS = {"aid": .4, "echo": .5, "special": .35, "share": 0, "dollar": 0, "qos": [1, 4, 5], "filters": ["test_qos_1_2_errors_pubcomp", "a", "a/b", "a/+", "cmd/#", "b/#"], "topics": ["a", "a/b", "b/x", "test/QoS 1 only", "test/QoS 0 only", "test/nosubscribe"]}


def mk(name, *parts, **kw):
  p = {"name": name}
  ops = {}
  for x in parts + (kw,):
    ops.update(x.get("ops", {}))
    p.update({k: v for k, v in x.items() if k != "ops"})
  p["ops"] = ops
  return p


PROFILES = {
 "P01": [(1, mk("p01-calm", CALM)), (.3, mk("p01-flood", OFFLINE, HOLD, allsub=1.0, nops=(12, 25), mps=[(1, None)], max_steps=600000, ops={"flood": 10})), (2, mk("p01-churn", CHURN, qos=[1, 5, 5])), (2, mk("p01-hold", HOLD)), (2, mk("p01-off", OFFLINE)),
         (1, mk("p01-wills", WILLS)),
         (1, mk("p01-conc", CONC)), (1, mk("p01-concb", CONCB, qos=[0, 1, 1]))],
 "P02": [(1, mk("p02-calm", CALM, qos=[0, 1, 6])), (3, mk("p02-hold", HOLD, CHURN, hold=.8, refuse=.3, qos=[0, 1, 8], opt_choices={"publish_on_pubrel": [(1, False), (1, True)]},
                                                        ops={"dup": 8, "rel": 3, "drop": 8, "conn": 16, "release": 8, "pol": 4})),
         (2, mk("p02-v4", HOLD, v4=1.0, qos=[0, 1, 8], ops={"dup": 6, "drop": 8, "conn": 14})),
         (1, mk("p02-conc", HOLD, CONCB, hold=.6, refuse=.3, qos=[0, 1, 8]))],
 "P03": [(1, mk("p03-calm", CALM)), (3, mk("p03-hold", HOLD, topics=["a", "b"], filters=["a", "b", "#", "+"], nops=(25, 60), ops={"pub": 50, "batch": 10})),
         (2, mk("p03-off", OFFLINE, topics=["a", "b"], filters=["a", "b", "#"], nops=(25, 60), rm=[(1, 1), (1, 2), (1, None)])),
         (1.5, mk("p03-conc", CONCB, rm=[(2, None), (1, 2), (1, 5)]))],
 "P04": [(1, mk("p04-calm", CALM, retain=.7)), (4, mk("p04", retain=.6, will=.4, will_retain=.7, props=.6, rh=.3, sid=.3, delret=.3, ops={"sub": 24, "unsub": 6, "drop": 5})),
         (1, mk("p04-conc", CONC, retain=.7, will=.4, will_retain=.7, par_mix=[(3, "pub"), (3, "sub"), (1, "drop"), (1, "conn")]))],
 "P05": [(1, mk("p05-calm", CALM)), (4, mk("p05", nl=.15, allsub=.9, dollar=.1, ops={"sub": 22, "unsub": 14, "pub": 40, "conn": 8}, filters=
         ["a", "a/b", "a/c", "b", "b/x/y", "a/#", "a/+", "#", "+/b", "b/#", "+", "b/+/y", "a/b/#", "+/+", "+/x/#", "/#", "/+", "a/+/d", "+/+/+", "b/x/#", "a/b/d/#"],
         topics=["a", "a/b", "a/c", "b", "b/x/y", "a/b/d", "ab", "a/b/d/e", "A", "/a", "a/", "b//y", "(.*)", "a.b", "\u00e9/\u4e2d", "x" * 60], dollar_=1)),
         (1.5, mk("p05-conc", CONC, nl=.15, allsub=.9, par_mix=[(6, "pub"), (3, "sub"), (3, "unsub"), (2, "batch"), (1, "drop"), (1, "conn")], filters=["a", "b", "c", "d", "e", "f", "a/b", "b/+", "b/#", "c/+/d"], topics=["a", "b", "c", "d", "e", "f", "a/b", "b/x", "c/x/d"]))],
 "P06": [(1, mk("p06-calm", CALM)), (4, mk("p06", CHURN, anon=.15, clean=.35, sei=[(2, 0), (2, 4), (2, 20), (2, 1000), (1, 0xFFFFFFFF)], disc_sei=.4, disc_rc=.2,
                           adv=[(2, (.1, 2)), (3, (2, 25))], ops={"adv": 12, "disc": 10, "conn": 24, "pub": 24, "wall": 1, "late": 6})),
         (1, mk("p06-conc", CONCC, will=.1, clean=.3, sei=[(2, 0), (2, 4), (2, 1000)], adv=[(2, (.1, 2)), (2, (2, 6))], ops={"adv": 10}))],
 "P07": [(1, mk("p07-calm", CALM, will=.8)), (4, mk("p07", WILLS)), (1, mk("p07-v4", WILLS, v4=1.0)), (1, mk("p07-ka", WILLS, ka=[(1, 0), (2, 3), (1, 6)], silent=.5, ops={"adv": 14})),
         (1, mk("p07-conc", WILLS, CONCC, will=.8, filters=["w/c0", "w/c1", "w/c2", "w/c3", "w/+", "a/b", "#"], topics=["a/b"], ops={"par": 30, "adv": 8}))],
 "P08": [(5, mk("p08", ka=[(1, 0), (1, 1), (2, 3), (2, 7), (1, 90)], silent=.5, will=.3, ops={"adv": 16, "wall": 5, "conn": 14}, adv=[(3, (.2, 3)), (3, (3, 15)), (1, (60, 140))], nops=(10, 30),
           opt_choices={"serverKeepAlive": [(2, 60), (1, 5)]}))],
 "P09": [(4, mk("p09", CHURN, anon=.12, will=.5, hold=.3, wdi=[(2, None), (1, 3)], ops={"takeover": 16, "conn": 8, "batch": 10, "adv": 4})), (2, mk("p09-v4", CHURN, v4=1.0, will=.4, ops={"takeover": 16})),
         (1.5, mk("p09-conc", CONCC, ops={"takeover": 8})), (2, mk("p09-race", mode="race"))],
 "P10": [(4, mk("p10", HOLD, refuse=.3, v4=.1, mps=[(2, None), (1, 80), (1, 120)], mei=.15, mei_range=(1, 6), nops=(20, 60), ops={"adv": 4, "takeover": 2})),
         (2, mk("p10-in", v4=.1, hold=.5, qos=[1, 1, 8], opt_choices={"receiveMaximum": [(2, 2), (1, 5)]}, over_rm=.3, ops={"dup": 6, "pol": 6, "release": 6, "pub": 40})),
         (1, mk("p10-conc", HOLD, CONCB, v4=.1, rm=[(1, 1), (2, 2), (2, 5)], hold=.3))],
 "P11": [(4, mk("p11", HOLD, ops={"ack": 8, "dup": 4, "rel": 2})), (1, mk("p11-v4", HOLD, v4=1.0, ops={"ack": 8, "rel": 2})),
         (0.002, mk("p11-wrap", HOLD, wrap=True, clients=(2, 2), v4=0, ws=0, net=0, will=0, allsub=0, clean=.1, sei=[(1, 1000)], rm=[(1, None)], preempt=[(1, 0.0)], max_steps=40000000, nolines=True, limit=400, nops=(10, 20))),
         (0.002, mk("p11-wrap4", HOLD, wrap=True, clients=(2, 2), v4=1, ws=0, net=0, will=0, allsub=0, clean=.1, preempt=[(1, 0.0)], max_steps=40000000, nolines=True, limit=400, nops=(10, 20))),
         (2, mk("p11-conc", CONCB, hold=.5, qos=[0, 1, 1]))],
 "P12": [(4, mk("p12", net=1.0, ws=.5, pad=[(4, 60), (3, 150), (1, 240)], ops={"batch": 24, "partial": 6}, batchn=(2, 10))),
         (1, mk("p12-conc", CONC, net=1.0, ws=.5, pad=[(4, 60), (3, 150), (1, 240)], allsub=.8, par_mix=[(4, "batch"), (3, "pub"), (1, "sub"), (1, "ping")])),
         (1, mk("p12-big", max_spin=20000000, max_steps=600000, limit=120, net=.7, ws=.5, v4=.3, nops=(8, 20), edge=.6, mps=[(3, None), (1, 134), (2, 16390), (2, 65546)], options={"maximumPacketSize": 1 << 20}, ops={"batch": 16, "partial": 4}))],
 "P13": [(4, mk("p13", ops={"bad": 8, "rawbad": 6, "conn": 14}, badkinds=BADKINDS, rawkinds=RAWKINDS, will=.5, adv=[(3, (.1, 2)), (1, (2, 8))])),
         (2, mk("p13-v4", v4=1.0, ops={"bad": 8, "rawbad": 6, "conn": 14}, badkinds=BADKINDS, rawkinds=RAWKINDS, will=.5)),
         (1.5, mk("p13-conc", CONC, will=.3, badkinds=BADKINDS, rawkinds=RAWKINDS, par_mix=[(4, "pub"), (2, "batch"), (3, "conn"), (2, "drop"), (2, "sub"), (1, "unsub"), (4, "bad")], ops={"bad": 4, "rawbad": 4}))],
 "P14": [(4, mk("p14", clean=.15, sei=[(1, 1000)], will=.05, special=0, pad=[(2, 60), (2, 200)], leaks=True, clients=(3, 6), v4=.4, ws=.15, nops=(15, 40), allsub=1.0,
                 filters=["a/b", "#", "a/#", "+/b", "b/#"], topics=["a/b", "b/x/y", "a"], share=.05, rawkinds=["silent", "halfconn", "wshalf", "wsframe"],
                 ops={"stall": 12, "unstall": 6, "batch": 16, "takeover": 3, "rawbad": 3, "conn": 10})),
         (1, mk("p14-calm", CALM, leaks=True))],
 "P15": [(1, mk("p15-calm", CALM, v4=.1, mei=.6)), (4, mk("p15", HOLD, v4=.2, mei=.6, mei_range=(1, 15), retain=.25, will=.3, ops={"adv": 14, "sub": 14, "drop": 6}, adv=[(2, (.1, 1.5)), (3, (1.5, 12))])),
         (1, mk("p15-conc", HOLD, CONC, v4=.2, mei=.6, mei_range=(1, 4), retain=.25, adv=[(2, (.1, 1.5)), (2, (1.5, 4))], ops={"adv": 10}))],
 "P16": [(1, mk("p16-calm", CALM, v4=.1, tam=[(1, None), (1, 1), (2, 3)], alias=.5)),
         (4, mk("p16", CHURN, v4=.15, tam=[(1, None), (1, 1), (2, 2), (1, 10)], alias=.5, ret_alias=.3, hold=.3, retain=.2, clean=.15, rm=[(2, None), (1, 1), (1, 2)], mps=[(4, None), (1, 60)],
                 badkinds=["alias_unset", "alias_0", "alias_big"], opt_choices={"topicAliasMaximum": [(3, 2), (1, 5)], "publish_on_pubrel": [(3, False), (1, True)]}, ops={"bad": 3}))],
 "P17": [(1, mk("p17-calm", CALM, v4=.1, share=.6)), (4, mk("p17", v4=.15, share=.6, clean=.25, hold=.2, sei=[(1, 0), (2, 6), (4, 1000)], ops={"sub": 18, "unsub": 8, "adv": 5, "drop": 6, "late": 2})),
         (1, mk("p17-conc", CONC, v4=.15, share=.6, clean=.25, sei=[(1, 0), (2, 6), (4, 1000)]))],
 "P18": [(1, mk("p18-calm", CALM, v4=.1, props=.8)), (4, mk("p18", v4=.15, props=.8, sid=.6, nl=.3, rap=.4, rh=.4, retain=.4, will=.3, hold=.2, ops={"sub": 22}, bigup=.2))],
 "P19": [(1, mk("p19-calm", CALM, v4=.5)), (4, mk("p19", CHURN, v4=.5, retain=.25, will=.4, clients=(3, 6), props=.4, sid=.3, rap=.3)),
         (1.5, mk("p19-conc", CONC, v4=.5, will=.3, props=.4, par_mix=[(5, "pub"), (3, "batch"), (2, "conn"), (1, "drop"), (2, "sub"), (1, "unsub")]))],
 "P20": [(4, mk("p20", HOLD, v4=.15, hold=.3, mps=[(1, None), (2, 50), (2, 80), (1, 120)], pad=[(2, 60), (3, 150)], props=.5, retain=.2, will=.2, toobig=.1, edge=.4, opt_choices={"maximumPacketSize": [(1, 256), (1, 1 << 20)]}))],
 "P26": [(4, mk("p26", mode="shutdown", will=.5, hold=.2, nops=(2, 20), sei=[(1, 0), (3, 1000)], wdi=[(2, None), (1, 5)], ops={"par": 0, "stall": 3, "rawbad": 3, "takeover": 3, "conn": 14},
                 rawkinds=["silent", "halfconn", "wshalf", "wsframe"], stalls=[(2, "noread"), (1, "mid")], boot=.1))],
 "P23": [(1, mk("p23-stop", CHURN, PERSIST)),
         (3, mk("p23", CHURN, PERSIST, restarts=[(4, "stop"), (2, "kill"), (1, "power"), (2, "stopkill"), (2, "stoppower"), (1, "diskfull"), (1, "eio")], bootkill=.15))],
 "P25": [(1, mk("p25-calm", CALM, SN)), (4, mk("p25", SN, snbad=.3, snfaults=True, will=.2, hold=.15, preempt=[(2, 0.0), (1, 0.002), (1, 0.01)],
                 ops={"stall": 1, "unstall": 1, "drop": 4, "takeover": 2, "batch": 8}, stalls=[(1, "noread"), (1, "mid")]))],
 "P27": [(1, mk("p27-calm", CALM, HTTP)), (4, mk("p27", CHURN, HTTP, httpbad=.25, httpwith=.6, preempt=[(1, 0.0), (1, 0.01), (2, 0.05)], will=.3, nops=(8, 25)))],
 "P22": [(2, mk("p22-trace", mode="proxy", kind="trace", leave=1)), (1, mk("p22-restart", mode="proxy", kind="restart", leave=1, brk=.5))],
 "P21": [(1, mk("p21-calm", mode="client", calm=True)), (2, mk("p21", mode="client", ver=4)), (2, mk("p21-v5", mode="client", ver=5))],
 "P28": [(1, mk("p28-calm", CALM, AIDS)),
         (4, mk("p28", AIDS, CHURN, v4=.2, will=.2, hold=.4, mps=[(4, None), (1, 60)], opt_choices={"publish_on_pubrel": [(1, False), (1, True)]}, ops={"batch": 16, "sub": 16, "unsub": 10, "rel": 3, "dup": 4, "release": 6, "pol": 3})),
         (1.5, mk("p28-conc", CONC, AIDS, preempt=[(1, 0.02), (3, 0.2)], par_mix=[(4, "pub"), (3, "batch"), (3, "sub"), (2, "unsub"), (1, "conn")]))],
 "P29": [(1, mk("p29-calm", CALM, odd=1.0, props=.6, will=.5)),
         (4, mk("p29", odd=.6, props=.5, will=.8, wfilter=.8, hold=.3, clean=.2, sei=[(1, 0), (4, 1000)], badkinds=MUTKINDS, rawkinds=["mutconn"], ops={"bad": 10, "rawbad": 6, "conn": 16, "sub": 16, "unsub": 8, "dup": 2})),
         (1.5, mk("p29-v4", v4=1.0, odd=.6, will=.8, wfilter=.8, hold=.3, clean=.2, badkinds=MUTKINDS, rawkinds=["mutconn"], ops={"bad": 10, "rawbad": 6, "conn": 16, "sub": 16, "unsub": 8})),
         (1, mk("p29-conc", CONC, odd=.5, will=.3, badkinds=MUTKINDS, rawkinds=["mutconn"], par_mix=[(4, "pub"), (2, "batch"), (3, "conn"), (2, "drop"), (2, "sub"), (1, "unsub"), (4, "bad")], ops={"bad": 4, "rawbad": 4}))],
 "P30": [(1, mk("p30-calm", CALM, VISUAL)), (3, mk("p30", VISUAL, CHURN)), (1.5, mk("p30-hold", VISUAL, HOLD, OFFLINE)),
         (1.5, mk("p30-conc", CONCC, VISUAL))],
 "P31": [(1, mk("p31-calm", CALM, TLS)), (4, mk("p31", TLS, ops={"batch": 16, "conn": 14, "drop": 8, "partial": 5, "rawbad": 6, "stall": 4, "unstall": 3, "takeover": 3, "bad": 2})),
         (1.5, mk("p31-conc", CONC, TLS, par_mix=[(4, "pub"), (3, "batch"), (3, "conn"), (2, "drop"), (2, "sub"), (1, "unsub")], ops={"rawbad": 6}))],
 "P24": [(1, mk("p24-calm", CALM, special=.15)), (4, mk("p24", anon=.12, special=.12, batchn=(2, 10), bigup=.15, ops={"batch": 24, "sub": 16, "unsub": 12, "rel": 4, "ping": 6, "dup": 3})),
         (1.5, mk("p24-conc", CONC, special=.12, par_mix=[(3, "pub"), (3, "batch"), (3, "sub"), (3, "unsub"), (1, "ping"), (1, "conn")]))],
}

BYNAME = {p["name"]: p for l in PROFILES.values() for _, p in l}

RUNS = {"*": 2400, "P22": 1600}
THOROUGH = 12

REAL = ["mqtt.brokers (V311, V5, listeners, start: real broker process with all its threads)", "mqtt.formats (packet encoding on the broker's side)", "socketserver, threading, http (standard library code)"]
STUB = ["kernel sockets and TCP/UDP (dst/net.py)", "OS scheduler, locks, clocks, sleeping, select (dst/kernel.py, dst/seams.py)", "MQTT clients (scripted, dst/world.py, independent codec dst/codec.py)"]
ASSUME = ["sampled schedules, faults and workloads: a clean batch is evidence, not proof", "one core runs at a time: switches happen at intercepted operations and at sampled source lines of mqtt.*",
          "TLS is simulated without cryptography (P31); elsewhere connections are plain"]


def info(prop):
  return dict({"rule": RULES.get(prop, RULES["*"]), "real": REAL, "stub": STUB, "assumptions": ASSUME}, **INFO.get(prop, {}))

INFO = {
 "P21": {"note": "real client objects (V311, V5) with the library's own receiver threads and a user thread each run against a scripted server with sessions; the server and the network cut connections before, inside and after any packet (both directions), stop inside packets, do not read, take few bytes, answer late, refuse or lose sessions; every packet at the server and every callback is compared with what was published and sent; at the end every exchange has to be finished",
         "technique": "real client library and its threads under a seeded scheduler, network and scripted server",
         "real": ["mqtt.clients.V311, mqtt.clients.V5 (Client, Receivers, receiver threads)", "mqtt.formats.MQTTV311, MQTTV5 (packing, unpacking, getPacket)"],
         "stub": ["kernel sockets (dst/net.py)", "OS scheduler, locks, clocks (dst/kernel.py, dst/seams.py)", "the MQTT server (dst/client.py, independent codec dst/codec.py)", "the application: user task and callbacks"]},
 "P22": {"note": "the real proxy process runs between scripted clients and a scripted broker on the simulated network: many connections at once, arbitrary packets (also of MQTT 5, and unknown ones), segmentation, short writes, small buffers, readers that stop, half and reset connections at any point, a broker that is down, the TERMINATE and break-connections messages; every byte at both ends is compared with what the other end sent, and every end has to be for a reason",
         "technique": "real proxies under a seeded scheduler and network, both ends of every connection compared byte for byte",
         "real": ["mqtt.proxy.mqttsas, mqtt.restart.netproxy (real process with a thread per connection)", "mqtt.formats.MQTTV311 (getPacket, unpackPacket)", "socketserver, threading (standard library code)"],
         "stub": ["kernel sockets (dst/net.py)", "OS scheduler, select, clocks (dst/kernel.py, dst/seams.py)", "clients and broker (dst/proxy.py)", "paho.mqtt.client (the restart proxy's control connection; its on_message is called by the simulator)"]},
 "P25": {"note": "MQTT-SN datagrams (valid, duplicated, lost, reordered, truncated, garbage, from strangers; with receive errors at the socket) arrive at the real UDP listener while MQTT clients publish, subscribe, stall and take over; the reference model says what every MQTT client gets, exactly once per datagram received, and which datagrams are answered"},
 "P27": {"note": "HTTP GETs run concurrently with scripted clients that connect, subscribe, publish retained messages and go away, preempted at source lines; every answer has to equal the reference state at some one moment between request and answer (all prefixes of the concurrent requests that respect real-time order are tried); silent, half, malformed, oversized, unread and pipelined requests are open meanwhile"},
 "P23": {"note": "the broker runs with persistence on a simulated disk and is stopped, killed, loses power or meets disk errors (at any write of the orderly stop too), is killed again while it boots, and is started with fresh modules; the reference model keeps the retained messages and subscriptions of the last orderly stop, and every delivery after the restart is checked against them"},
 "P26": {"note": "after a workload, clients send requests, connect, take over, stall or stop inside handshakes, and SIGTERM arrives 0 s to 1.2 s later, or while the broker boots (each of its first steps); within 12 s of virtual time the process has to have ended; what every connection got is checked"},
 "P30": {"note": "the broker runs with 'visual true' while one to three further clients of either version subscribe to the reports and a lockstep workload runs; afterwards the reports are compared with what every connection sent and received, packet by packet and in order, with one another, and publications with their deliveries; all other rules of the reference model hold too",
         "technique": "real broker with visual mode under a seeded scheduler and network, its reports compared with the recorded history of every connection"},
 "P31": {"note": "a listener with a certificate beside a plain one; clients of both, over TLS records whose limits are those of packets or not, with connections that stop anywhere in the handshake or do it wrongly, readers that stall, half packets and WebSockets; the reference model decides everything, as on a plain connection",
         "stub": STUB + ["ssl.SSLContext, ssl.SSLSocket (dst/tls.py: record framing, message flow, blocking, pending(); no cryptography)"]},
 "P29": {"note": "clients write packets in every correct way (optional fields and properties, their order, explicit reason codes), and packets with one small change, which an independent strict decoder says are wrong, are sent at any moment: as first packet and by connected clients with sessions, subscriptions and wills; the reference model says what the session and everyone else sees afterwards"},
 "P14": {"note": "a connection is stalled (it does not read, with a small buffer; stops inside a packet, a handshake or a WebSocket frame; reads slowly) while other clients go on; every request has to be answered within 4 s of virtual time; at the end everything is closed and no thread may be left"},
}
# what makes a run non-trivial for a property: at least one of the probes fired
NONTRIVIAL = {
 "P01": ["resumed_with_inflight", "resumed_with_queue", "retransmit"], "P02": ["qos2_retransmit", "retransmit", "resumed_with_inflight", "unknown_pubrel"],
 "P03": ["resumed_with_inflight", "resumed_with_queue", "retransmit", "window_full"], "P04": ["retained_due", "retained_cleared"], "P05": ["fanout", "overlap"],
 "P06": ["resumed", "timed_expiry"], "P07": ["will_published", "will_suppressed", "will_delayed"], "P08": ["timed_keepalive"], "P09": ["takeover"],
 "P10": ["window_full"], "P11": ["stray_ack", "window_full", "resumed_with_inflight"], "P12": ["op_batch", "op_partial"], "P14": ["op_stall"], "P13": ["op_bad", "op_rawbad"],
 "P15": ["expired", "retained_due", "resumed_with_queue"], "P16": ["alias_out", "die_topic"], "P17": ["shared_msgs"], "P18": ["retained_due", "overlap", "nolocal_suppressed", "retain_not_sent"],
 "P19": ["fanout"], "P20": ["oversize_skipped", "die_packet"], "P24": ["op_batch", "op_sub", "op_unsub"], "P26": ["op_sigterm", "op_boot"], "P23": ["restored_subs", "restored_retained"], "P25": ["sn_publish"], "P22": ["client_packet", "broker_packet"], "P27": ["http_concurrent", "op_hbad"],
 "P30": ["report"], "P31": ["tls_handshake"],
 "P29": ["bad_mut", "bad_raw_mutconn", "odd_packet"],
 "P28": ["aid_error", "aid_pubcomp", "aid_disconnect", "aid_echo"],
 "P21": ["session_resumed", "arrived_qos2", "publish_qos2", "publish_qos1"],
}

def nontrivial(prop, r):
  st = r.get("stats", {})
  return any(st.get(k) for k in NONTRIVIAL.get(prop, ())) or (prop not in NONTRIVIAL and r.get("switches", 0) > 20)

RULES = {"*": "a case is one simulated execution of the broker with scripted clients, generated from (profile, seed): operations, network conditions, schedule and faults; "
              "distinct: different event-log checksum; non-trivial: at least one of the property's probe conditions (see probes) occurred in it"}
for _p, _k in NONTRIVIAL.items():
  RULES[_p] = RULES["*"] + "; here: " + ", ".join(_k)
NOT_CLAIMED = {}
