#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so the long texts stay readable)."""
import json
SRV="cli/receiver/server/server.go"; STO="cli/receiver/storage/store.go"; PKT="cli/receiver/storage/packet.go"
LIB=["libs/egts/egts_pkg.go","libs/egts/service_data_records.go","libs/egts/record_data.go"]
CON=["cli/receiver/storage/store/%s/connector.go"%n for n in ("redis","nats","nsq","rabbitmq","postgresql","tarantool_queue")]
P=[]
def p(id,title,st,over,q,why,files,mech,obs,state=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":obs,"hook_needed":hook}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":st,"quantifier":{"over":over,"text":q},"why_tests_cant":why,"anchors":a})

p("C01","A success acknowledgement means the data is stored",
 "A terminal receives a success response (processing result 0) for a packet with position data only after every active storage has accepted the record made from that packet. If any active storage reports a failure for it, the response to that packet carries a non-zero processing result. The acknowledgement never overtakes the storage, however slow the storage is.",
 ["schedules","fault_sequences","histories"],
 "Every interleaving of connections, every number of storages, every pattern of storage delays and failures, every packet sequence.",
 "The one server test sends one packet to one storage that cannot fail; it never sees an error, a slow storage or a second connection.",
 [SRV,STO],[("save before the response is written",SRV+": handleConn"),("storage fan-out",STO+": Repository.Save")],
 ["bytes the terminal receives","calls into each storage and their results"])
p("C02","Each received data packet is exported exactly once, in order",
 "Every complete valid data packet with position data that arrives on a connection is handed to each active storage exactly once, and packets of one connection are handed over in arrival order. Packets without position data, packets that arrived incompletely and response packets are never exported.",
 ["schedules","fault_sequences","histories","inputs"],
 "Every packet mix and length of session, any number of concurrent connections, connections cut at any byte.",
 "The test sends a single packet on a single connection and only counts one save.",
 [SRV,STO],[("per-connection read loop","%s: handleConn"%SRV),("reset of per-packet state at the top of the loop",SRV+": handleConn"),("export only when a position was seen",SRV+": isPkgSave")],
 ["calls into each storage"],[("isPkgSave","the current packet held a position",SRV)])
p("C03","The stored record says what the terminal sent, and nothing else",
 "The stored record of a packet carries that packet's values: object id, IMEI if present, packet number (the packet id, or the record number sent in counter 110 as low three bytes and counter 111 as the high byte), the UTC time of reception, and every position (signed latitude and longitude to protocol resolution, integer km/h speed, navigation time), analog sensor and liquid level in the order sent. Positions are stored under the object id of their own record. Nothing from another packet or another connection ever appears in it.",
 ["schedules","histories","inputs"],
 "Every interleaving of concurrent connections, every sequence of packets on a connection, every number and order of records and supported subrecords, every field value, a system clock that is set during a session.",
 "Tests decode one sample of each subrecord; no test compares a stored record with what was sent, nor runs two packets or two connections.",
 [SRV,PKT]+LIB+["libs/egts/egts_sr_pos_data.go","libs/egts/egts_sr_liquid_level_sensor.go","libs/egts/egts_sr_abs_cntr_data.go","libs/egts/egts_sr_abs_an_sensors_data.go","libs/egts/egts_sr_ad_sensors_data.go","libs/egts/egts_sr_term_identity.go"],
 [("subrecord decoding","libs/egts/egts_sr_*.go: Decode"),("assembly of the exported record",SRV+": handleConn"),("JSON form",PKT+": ToBytes")],
 ["payload handed to the storage"],[("exported record","fresh per packet",SRV+": exportPacket")])
p("C04","Every data packet gets exactly one correct response",
 "Every complete valid data packet is answered with exactly one well-formed response packet, on its own connection only, in arrival order, which names that packet's id. A success response confirms every record number of the packet, in order, with status OK. A valid packet that no storage refused is answered with success. The answer comes promptly: within ten seconds after the packet is stored and the earlier packets of the connection are answered, whatever the terminal sends or does not send afterwards. Response packets sent by a terminal are never answered.",
 ["schedules","histories","inputs"],
 "Every packet sequence (pipelined or not), every id and record number including wrap-around, any number of records, every interleaving of connections.",
 "The server test compares one response to one packet with one record.",
 [SRV,"libs/egts/egts_pt_response.go","libs/egts/egts_sr_response.go"]+LIB,
 [("confirmation list built per packet",SRV+": handleConn"),("response encoding",SRV+": createPtResponse")],
 ["bytes each terminal receives"])
p("C05","Authorisation requests get a result code, others do not",
 "A valid data packet that carries terminal identity or authorisation data is answered, after its response and before anything about a later packet, with exactly one well-formed data packet holding one authorisation result code OK. No other packet is answered with a result code, and what one connection asked for is never answered on another.",
 ["schedules","histories","inputs"],
 "Every mix and order of authorisation and telemetry packets, pipelined or not, on any number of concurrent connections.",
 "No test sends an authorisation packet to the server.",
 [SRV,"libs/egts/egts_sr_auth_info.go","libs/egts/egts_sr_term_identity.go","libs/egts/egts_sr_result_code.go"],
 [("result code built when the subrecord is seen, cleared per packet",SRV+": handleConn, createSrResultCode")],
 ["bytes each terminal receives"])
p("C06","Behaviour does not depend on how the network cuts the stream",
 "What the receiver stores and answers for a connection is what the sequence of bytes sent on it calls for, for every packet size up to the protocol maximum and for headers with and without routing fields, no matter how the bytes are split, merged or delayed by the network (each delay, and each pause of a terminal in reading its answers, being shorter than the configured connection lifetime) and no matter how slowly the terminal reads.",
 ["schedules","inputs","fault_sequences"],
 "Every segmentation and timing of every stream of packets from 14 bytes up to the protocol maximum of 65535 bytes.",
 "The test writes one packet in a single call over loopback.",
 [SRV,"libs/egts/egts_pkg.go"],[("full reads of header and body",SRV+": io.ReadFull"),("packet length from the header",SRV+": pkgLen")],
 ["calls into storage","bytes each terminal receives"])
p("C07","Corrupted packets are refused and do no harm",
 "A packet damaged in transit so that its header or body checksum is wrong is never exported and never acknowledged as successful. If its length fields survived, it is answered with one response that names its packet id and carries the result code for a bad header checksum (137) or a bad data checksum (138), and the following packets on the connection are handled normally.",
 ["fault_sequences","inputs","histories"],
 "Every burst error the checksums are able to detect, at every place of every packet, in any position of a session, also while other connections are active.",
 "No test sends a damaged packet to the server; the decoder tests use valid packets only.",
 [SRV,"libs/egts/egts_pkg.go","libs/egts/crc.go"],[("checksum tests before use","libs/egts/egts_pkg.go: Package.Decode"),("negative response and resynchronisation by length",SRV+": handleConn")],
 ["calls into storage","bytes each terminal receives"])
p("C08","No input brings the receiver down",
 "No sequence of bytes sent by any terminal, valid checksums included, and no way of cutting a connection makes the receiver process exit, crash or spin. Terminals on other connections keep being served, and new connections are accepted, while and after it happens.",
 ["inputs","fault_sequences","schedules"],
 "Every byte sequence (random, mutated, structurally hostile with recomputed checksums and extreme length fields), cut at every byte, interleaved with honest traffic.",
 "Decoder tests feed only well-formed samples; no test feeds the server anything else.",
 [SRV,"libs/egts/egts_pkg.go"]+["libs/egts/"],[("length arithmetic",SRV+": handleConn"),("bounds in decoding","libs/egts/egts_pkg.go: Package.Decode"),("one goroutine per connection",SRV+": Run")],
 ["process exit","service to other terminals"])
p("C09","A peer that does not speak the protocol is disconnected",
 "When the first byte where a packet must begin is not protocol version 1, the receiver closes that connection promptly, no later than when 10 bytes (a header) have arrived from there on, and nothing from that byte on is exported or answered. Everything before it on that connection, and every other connection, is unaffected.",
 ["inputs","schedules","histories"],
 "Every foreign first byte after every number of valid packets, any segmentation, any concurrent traffic.",
 "Not tested at all.",
 [SRV],[("version check before reading the body",SRV+": handleConn")],["connection close seen by the peer","calls into storage","bytes each terminal receives"])
p("C10","Silent connections are closed, live ones are not",
 "With a positive connection lifetime T configured, a connection on which the receiver has received nothing for longer than T is closed by the receiver, whether the silence starts before the first byte, between packets or inside a packet. A connection on which the gap between arriving bytes always stays below T is never closed for inactivity, however long it lives and however slowly a packet trickles in.",
 ["schedules","histories","configurations"],
 "Every T, every arrival pattern with gaps on either side of T, sessions of any length, any number of connections, a system clock that is set, forward or back, at any time.",
 "No test lets a connection idle; real time would make it slow.",
 [SRV,"cli/receiver/config/config.go"],[("inactivity limit on reads",SRV+": handleConn"),("lifetime from the configuration","cli/receiver/config/config.go: GetEmptyConnTTL")],
 ["connection close seen by the peer"])
p("C11","Every storage gets every record, even when another one fails",
 "Each active storage is offered every exported record exactly once, whether or not another storage fails or is slow for that record. After a storage has failed for some records it is still offered all later ones.",
 ["fault_sequences","configurations","schedules"],
 "Any number and order of storages, every pattern of failures and delays, concurrent connections.",
 "Tests use exactly one storage which never fails.",
 [STO],[("fan-out loop",STO+": Repository.Save"),("registration",STO+": AddStore")],["calls into each storage"])
p("C12","Terminals do not hold each other up",
 "A terminal that stalls in the middle of a packet, stops reading its answers, stays silent or is having its own record stored slowly does not delay other terminals. Their packets are stored and answered in the time their own network and storage take, with every supported backend.",
 ["schedules","fault_sequences"],
 "Every choice of stalled terminals and stalled storage calls, every interleaving; bounded progress of all others.",
 "The test has one connection.",
 [SRV,STO]+CON,[("one goroutine per connection, no shared lock",SRV+": Run, handleConn")],["time of responses at the other terminals"])
p("C13","Finished connections leave nothing behind",
 "Once a terminal has closed, half-closed or reset its connection, or was dropped by the receiver, the receiver closes its side and releases everything it used for it within the connection lifetime plus the time of the storage calls in progress. The number of open connections and of tasks, and the memory held for them, returns to what it was, after any number of connections and any way of ending them. Packets fully sent before a half-close are still stored and answered.",
 ["histories","fault_sequences","schedules"],
 "Every way and moment to end a connection, any number of connections over any time.",
 "The test opens one connection and exits.",
 [SRV],[("deferred close and return on every read error",SRV+": handleConn")],["open connections and tasks in the receiver"])
p("C14","The listener survives accept errors and obeys stop",
 "A failing accept (out of descriptors, aborted handshake) loses no connection that the system still delivers: later connections are served as if nothing happened. Stopping a running server makes its run loop return promptly, without spinning, and the address refuses connections and can be listened on again.",
 ["fault_sequences","schedules","histories"],
 "Every pattern of accept errors, stop at every moment relative to connections and traffic, repeated start and stop.",
 "The test calls Stop only when the process is about to end and never checks that Run returned.",
 [SRV],[("accept loop",SRV+": Run"),("close of the listener",SRV+": Stop")],["return of the run loop","connections accepted or refused"])
p("C15","A success acknowledgement means the backend has the record",
 "With any supported storage backend (Redis, NATS, NSQ, RabbitMQ, PostgreSQL, Tarantool queue), a terminal gets a success response for a packet with position data only if that backend has received, complete, the message for that packet in the configured destination. This holds when the backend refuses, stalls, disconnects at any byte or is unreachable, and when the receiver process dies right after acknowledging.",
 ["fault_sequences","crash_points","schedules","configurations"],
 "All six backends; every refusal, delay, disconnect and partition at every point of the backend conversation; receiver crash at every point.",
 "The only backend test needs a live PostgreSQL, is not run, and injects no fault; the other five backends have no test.",
 CON+[SRV],[("save waits for the backend's confirmation","cli/receiver/storage/store/*/connector.go: Save"),("failed save turns into a failure response",SRV+": handleConn")],
 ["messages that reached the simulated backend","responses the terminal receives"])
p("C16","A backend outage is survived and overcome",
 "While a storage backend is failing or unreachable the receiver process keeps running and answers each affected packet with a failure result or leaves it unanswered, never with success. Once the backend works again, a terminal that sends its packets again when they are refused or not answered gets them stored and acknowledged within three minutes, without restarting the receiver, however long the outage was, and also if its host name did not resolve meanwhile or resolves to another address afterwards, unless the configuration itself limits reconnection attempts. However often it fails, the connections the receiver holds open to it do not pile up beyond what the terminals it is serving need.",
 ["fault_sequences","histories","configurations"],
 "All six backends; outages of every kind, length and number, at any moment of the traffic, with the system clock set meanwhile and names of hosts that fail to resolve or move.",
 "No test has a backend that fails or comes back.",
 CON+[SRV],[("error return instead of termination","cli/receiver/storage/store/*/connector.go: Save"),("reconnection","cli/receiver/storage/store/*/connector.go")],
 ["process exit","responses after recovery","connections to the backend left open"])
p("C17","The configuration decides what runs, not start-up luck",
 "Started with a configuration file, the receiver listens on the configured address, applies the configured connection lifetime, and delivers every record to each configured storage that could be initialised, whatever the order in which they are initialised, whether or not another one is unknown or unreachable, whatever characters its user name, password or database name consist of, and whether hosts are given as names (also of several addresses, some of them useless), IPv4 or IPv6 addresses. An empty host means all addresses. If none could be, records go to the log (at log level INFO or finer), so an accepted record always has a destination.",
 ["configurations","fault_sequences","schedules"],
 "Every combination of configured, unknown and unreachable storages, every initialisation order, every address and lifetime.",
 "The configuration test parses one file; nothing starts the receiver with several storages or a failing one.",
 ["cli/receiver/main.go","cli/receiver/config/config.go",STO,"configs/receiver.yaml","cli/receiver/storage/default.go"],
 [("start-up sequence","cli/receiver/main.go: main"),("storage loading",STO+": LoadStorages")],["listening address","messages at each backend","log output"])
p("C18","The generator tool reports the truth about its packet",
 "The packet generator sends one valid data packet with exactly the packet id, object id, time, position and liquid level given on its command line (values in the protocol's range), and exits with status 0 if and only if the first packet it received, completely and within its waiting time (5 seconds unless configured), is a response that acknowledges this packet and all its records as successful. It always exits within its waiting time, and never crashes on what a server sends, however the network cuts it.",
 ["inputs","fault_sequences","schedules"],
 "Every command line, every server answer (success, failure, foreign, truncated, damaged, none), every segmentation and delay of it.",
 "The tool has no test.",
 ["cli/packet-gen/main.go","libs/egts/egts_pkg.go"],[("packet construction and encoding","cli/packet-gen/main.go: main"),("check of the acknowledgement","cli/packet-gen/main.go: main")],
 ["bytes sent","exit status"])
p("C19","End to end, no acknowledged record is lost and all get through",
 "A terminal that keeps each record until it is acknowledged and resends it otherwise never loses one: across connection losses, storage failures and receiver crashes and restarts at any point, every record it drops as acknowledged is in the storage backend. Once faults stop, all its records are stored and acknowledged within a bounded time.",
 ["crash_points","fault_sequences","schedules","histories"],
 "Every crash point and number of restarts of the receiver, every loss of terminal or backend connections, any number of terminals.",
 "No test restarts the receiver or breaks a connection.",
 [SRV,STO,"cli/receiver/main.go"]+CON,[("store, then acknowledge",SRV+": handleConn"),("start-up without persistent state","cli/receiver/main.go")],
 ["messages at the backend","responses the terminals receive"])
p("C20","Backends receive whole, genuine messages",
 "Every message that reaches a backend in the configured destination is the complete record of one packet that a terminal really sent, encoded as one JSON document; concurrent terminals never cut, mix or alter each other's messages. When nothing fails, each packet with position data arrives in each configured backend exactly once.",
 ["schedules","configurations","histories"],
 "All six backends and combinations of them, any number of terminals storing at the same time, every interleaving.",
 "No test stores concurrently or inspects what a backend received.",
 CON+[STO,PKT],[("encoding and publishing","cli/receiver/storage/store/*/connector.go: Save")],["messages at each simulated backend"])
p("C21","Encoding and decoding a packet are inverse",
 "For every package value the library can represent, decoding its encoding yields the same value, and for every valid packet encoding its decoding yields the same bytes, for all supported subrecord types.",
 ["inputs"],"Every package value and every valid packet.",
 "Tests check a sample of each type.",
 LIB+["libs/egts/"],[("Encode/Decode pairs","libs/egts/egts_sr_*.go")],["library calls"])
p("C22","Checksums follow the standard",
 "The header checksum and the body checksum are the CRC-8 and CRC-16 prescribed by the standard, for every byte string.",
 ["inputs"],"Every byte string.","Two sample values are tested.",
 ["libs/egts/crc.go"],[("crc8, crc16","libs/egts/crc.go")],["library calls"])
p("C23","Configuration values are read faithfully",
 "For every well-formed configuration file the settings read equal those written; a malformed or missing file is reported as an error.",
 ["inputs"],"Every configuration file.","One file is tested.",
 ["cli/receiver/config/config.go"],[("YAML decoding","cli/receiver/config/config.go: New")],["library calls"])
with open("/verif/properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
