#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the text stays readable)."""
import json, os
L = "libs/egts/"
S = "cli/receiver/server/server.go"
ST = "cli/receiver/storage/store.go"
SUBT = [L+f for f in ("egts_sr_pos_data.go","egts_sr_ext_pos_data.go","egts_sr_ad_sensors_data.go","egts_sr_counters_data.go","egts_sr_state_data.go","egts_sr_liquid_level_sensor.go","egts_sr_abs_cntr_data.go","egts_sr_abs_an_sensors_data.go")]
SUBA = [L+f for f in ("egts_sr_term_identity.go","egts_sr_module_data.go","egts_sr_auth_info.go","egts_sr_dispatcher_identity.go","egts_sr_response.go","egts_sr_result_code.go")]
REC = [L+"service_data_records.go", L+"record_data.go", L+"egts_pt_response.go"]
CON = ["cli/receiver/storage/store/%s/connector.go"%d for d in ("mysql","nats","postgresql","rabbitmq","redis","tarantool_queue")]
P=[]
def p(id,title,statement,over,text,why,files,mech,observe):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=None)))
p("C01","No received bytes can crash decoding",
 "For every byte sequence, decoding it as a packet, as a response, as a service-data section, as a subrecord list or as any single subrecord returns a value or an error; it never panics. The same holds for the receiver's handling of anything a client sends.",
 ["inputs"],"every byte string of every length, handed to any decoder or sent on a connection",
 "The two stable tests decode one well-formed packet; a panic in a connection goroutine ends the whole receiver and needs one odd length or flag byte.",
 [L+"egts_pkg.go",S]+REC+SUBT+SUBA,[("length checks before slicing","Package.Decode"),("checked reads","every Decode"),("packet type decides the body's dynamic type","Package.Decode / Server.handleConn")],["return of Decode","process exit"])
p("C02","Decoding always terminates and allocates in proportion",
 "Decoding any finite input terminates: every repeated element consumes at least one byte of input and every nested section is given strictly fewer bytes than the section that contains it. No length field can make the decoder allocate a buffer above 64 KiB.",
 ["inputs"],"every byte string, including zero and maximal length fields and nested confirmations",
 "Tests use finite well-formed lists; non-progress shows only for particular length values.",
 REC+[L+"egts_pkg.go",L+"egts_sr_module_data.go",L+"egts_sr_response.go"],[("loop variant: reader position","loops of the Decode methods"),("16-bit lengths","make calls in Decode")],["return of Decode","memory"])
p("C03","Truncated data is rejected, never padded",
 "A decoder reports success only if every byte of every field it is to fill was present in the input it was given. A field cut short by the end of its section, subrecord or packet makes decoding fail with an error instead of producing a value completed with zero or stale bytes. (One case is defined otherwise by the library's unit tests: a record whose header is the last thing in its section counts as a record without subrecords, whatever length it announces.)",
 ["inputs"],"every prefix of every section, for every combination of optional fields",
 "The tests only pass complete sections; each cut point of each optional-field combination is a separate case.",
 [L+"egts_pkg.go"]+REC+SUBT+SUBA,[("full reads","every Decode"),("section length check","RecordDataSet.Decode, ServiceDataSet.Decode, Package.Decode")],["error of Decode"])
p("C04","Transport header and frame follow the standard's layout",
 "For every packet, encoding and decoding place the protocol version, key id, flag bits, header length, header encoding, frame data length, packet id, packet type, optional routing fields, header checksum, body and body checksum at the positions, widths, bit positions and little-endian order of the EGTS transport standard. Routing fields are present exactly when the route flag is set.",
 ["inputs"],"every header field value and flag combination, both directions",
 "Stable tests exchange one packet with all-zero flags and no routing; a swapped pair of fields or bits agrees with them.",
 [L+"egts_pkg.go"],[("header field order","Package.Decode, Package.Encode")],["Package fields after Decode","bytes returned by Encode"])
p("C05","Service record layer follows the standard's layout",
 "For every service data section, record headers (length, number, flag bits, optional object, event and time fields, service types), subrecord headers (type, length) and response sections (confirmed packet id, result, optional records) are read and written at the positions, widths, bit positions and little-endian order of the EGTS standard. Optional fields are present exactly when their flag is set, record time counts seconds from 2010-01-01 UTC, and each record or subrecord body is exactly the number of bytes its length announces. (A record header that ends its section is a record without subrecords.)",
 ["inputs"],"every number of records and subrecords, every flag combination and field value",
 "The stable tests see one record with the object id present only; time and event fields, and lists of more than one record, are never exercised.",
 REC,[("record loops","ServiceDataSet.Decode/Encode, RecordDataSet.Decode/Encode, PtResponse.Decode/Encode")],["decoded records","encoded bytes"])
p("C06","Telemetry subrecords follow the standard's layout",
 "For position, extended position, additional sensor, counter, state, liquid level, absolute counter and absolute analogue sensor subrecords, decoding takes every field from, and encoding puts every field at, the byte and bit positions, widths, little-endian order and scaling that the standard defines. Optional fields are present exactly when their flag bit is set, in the standard's order, and each numbered sensor or counter field belongs to its own flag bit.",
 ["inputs"],"every field value and every combination of presence flags",
 "Most subrecords are not reached by a stable test, and the library's own unit tests do not compile at this commit.",
 SUBT,[("field order, flag slices and guards","Decode/Encode of each telemetry subrecord")],["decoded fields","encoded bytes"])
p("C07","Authorization and confirmation subrecords follow the standard",
 "For terminal identity, module data, authorization info, dispatcher identity, record confirmation and result code subrecords, decoding takes every field from, and encoding puts every field at, the byte and bit positions, widths and little-endian order that the standard defines. Optional fields are present exactly when their flag bit is set, and text fields end at their zero delimiter or at the end of the subrecord.",
 ["inputs"],"every field value, text content and combination of presence flags",
 "None of these subrecords is decoded by a stable test.",
 SUBA,[("field order, flag slices, delimiters","Decode/Encode of each subrecord")],["decoded fields","encoded bytes"])
p("C08","Encoding and decoding are inverse for every section",
 "For every section type, if a value with well-formed flags and in-range fields is encoded, decoding the bytes yields the same field values: the decoder reads, in the same order and under the same presence conditions, exactly what the encoder wrote. This is a relation between the two directions and holds whatever the layout is. Well-formed means: each flag text is its bits in binary, a packet has a body of at least one byte, the highest direction bit agrees with the direction, and times and coordinates are whole multiples of the format's resolution (coordinates come back to within one unit of it, because of rounding).",
 ["inputs"],"every well-formed value of every section type",
 "Round trips are tested for one sample value per type at best, and most optional fields are off in it.",
 [L+"egts_pkg.go"]+REC+SUBT+SUBA,[("paired Encode and Decode","each section type")],["decoded value of encoded bytes"])
p("C09","Only packets with correct checksums are accepted or produced",
 "A packet is decoded successfully only if its header checksum equals the standard CRC-8 of the header bytes before it and its body checksum equals the standard CRC-16 of exactly the body bytes. Every packet produced carries those two checksums, computed over the bytes actually sent.",
 ["inputs"],"every packet, every corruption of it, every body length",
 "A test samples one valid packet; skipping a check, or covering one byte too few, still accepts it.",
 [L+"egts_pkg.go",L+"crc.go"],[("checksum comparisons","Package.Decode"),("checksum emission","Package.Encode"),("CRC loops","crc8, crc16")],["error and code of Decode","last bytes of header and packet"])
p("C10","A failure is never reported as success",
 "No decoder or encoder reports success when any step of it failed: a failed read, an unparsable flag field, an error of a nested section or of decryption always surfaces as an error. Packet decoding returns the standard's OK code exactly when it returns no error, and a non-OK code that is one of the standard's codes otherwise.",
 ["inputs","fault_sequences"],"every input and every failing step of any section",
 "Tests exercise success paths; an overwritten error variable is invisible to them.",
 [L+"egts_pkg.go",L+"errors.go"]+REC+SUBT+SUBA,[("error returns","every Decode and Encode"),("result codes","Package.Decode")],["error and code results"])
p("C11","Subrecord type codes map one to one onto subrecord kinds",
 "Decoding a subrecord list interprets each subrecord according to the standard's type code, in order, and skips a subrecord of unknown type by its announced length without failing or disturbing its neighbours. Type 20 is state data when it is five bytes long and otherwise a known but unimplemented type, which is an error. Encoding a subrecord without an explicit code writes the code under which decoding gives the same kind back, for every kind the decoder can produce.",
 ["inputs"],"every type code 0-255, every sequence of subrecords",
 "A test contains few of the codes and no unknown one followed by a known one.",
 [L+"record_data.go",L+"const_types.go"],[("dispatch switches","RecordDataSet.Decode, RecordDataSet.Encode")],["decoded list","type byte written"])
p("C12","Encrypted bodies are never handled as plain text",
 "A packet whose encryption flag is set is decoded only from what the supplied key returned for its body, and encoding such a packet emits only what the key returned; without a key, or if the key reports an error, both fail. A packet without the flag never involves the key.",
 ["inputs","configurations"],"every encryption flag value, with and without key, key succeeding or failing",
 "No stable test uses encryption.",
 [L+"egts_pkg.go"],[("encryption branch","Package.Decode, Package.Encode")],["decoded body","emitted body"])
p("C13","Decoding and encoding leave their inputs alone",
 "Decoding never writes to the bytes it is given and the decoded value keeps no reference to them, so the caller may reuse its buffer. Encoding never changes the sections it encodes, except that a packet's own header length and frame length are filled in, and no state is kept between calls.",
 ["inputs","histories"],"every input and every sequence of calls",
 "Tests do not reuse buffers or encode the same value twice.",
 [L+"egts_pkg.go"]+REC+SUBT+SUBA,[("copies on read","every Decode"),("value copies in loops","ServiceDataSet.Encode, RecordDataSet.Encode")],["caller's buffer","sections after Encode"])
p("C14","The receiver cuts the stream into exact frames",
 "From every connection the receiver takes, packet after packet, exactly header length plus, when there is a body, body length plus two bytes, and decodes exactly those bytes; the length is computed without wrap-around for every header. A stream whose next packet does not start with the protocol version byte, or whose header length is below the minimum of 11, is closed without decoding.",
 ["inputs","histories"],"every header and every sequence of packets on a connection",
 "The stable test sends one packet per connection with small lengths.",
 [S],[("frame length computation","Server.handleConn")],["bytes consumed per packet"])
p("C15","Every packet is answered once, with the right ids and statuses",
 "Each application packet the receiver decodes is answered on the same connection with one response that carries its packet id, result OK, and one confirmation per contained record with that record's number, in order; an identification or authorization subrecord additionally gets one OK result-code packet. A packet that fails to decode is answered with its packet id and the failure code, without record confirmations, and the connection stays open; packets that themselves are or contain confirmations are not answered. The order of the response and the result-code packet, and their service types, are left open.",
 ["inputs","histories"],"every sequence of packets on a connection, any number of records each",
 "The stable test has one packet with one record; state carried over between packets or records cannot show.",
 [S],[("reply construction","Server.handleConn, createPtResponse, createSrResultCode")],["bytes written to the connection"])
p("C16","A record is confirmed only after it has been stored",
 "Every received record that carries a position, in a packet that contains no confirmations, is handed to storage exactly once, and before the response to its packet is sent; records without a position are not stored. A record whose storing failed is not confirmed with status OK.",
 ["inputs","fault_sequences","histories"],"every packet, any mix of records with and without positions, storage failing at any record",
 "The stable test stores one record with a store that cannot fail and does not look at what was stored.",
 [S],[("save before reply","Server.handleConn")],["calls of the store","record status in the response"])
p("C17","Stored records carry exactly the decoded values",
 "Each stored record contains, under the documented JSON keys, the client id last announced on this connection (by the object id of this or an earlier record or by a terminal identification, whichever came last), packet id (the packet's own, or that of the record's absolute counter 110, a counter 111 after it giving the highest byte), navigation and receive time, signed coordinates, speed, course, satellite and dilution data, analogue sensors and liquid levels of its own record, each taken from the corresponding decoded field. Nothing of another record, packet or connection appears in it.",
 ["inputs","histories"],"every record content and every sequence of records and packets",
 "The stable test only logs the stored record; no value is compared.",
 [S,"cli/receiver/storage/packet.go"],[("per-record export structure","Server.handleConn"),("JSON tags","NavRecord, AnSensor, LiquidSensor")],["JSON handed to the stores"])
p("C18","Connections do not affect each other",
 "Handling a connection writes no memory that another connection, the accept loop or a later packet of another client can see, and storing from many connections at once changes no shared store state. No connection waits for another client: nothing that connections share is held, or waited for, while one of them waits for its client. Nothing a client sends can end the process or stop the accept loop.",
 ["schedules","inputs"],"every interleaving of any number of connections",
 "The stable test opens one connection; a data race needs two and luck.",
 [S,ST]+CON,[("locals per connection","Server.handleConn"),("read-only shared state","Repository.Save, Connector.Save")],["state shared between goroutines"])
p("C19","Connections are always released, idle ones after the limit",
 "When handling of a connection ends, for whatever reason, the connection is closed. With a positive time limit configured, a client that sends nothing for that long is disconnected, before and between packets and in the middle of one, and waiting for it to take an answer is limited likewise. Without a positive limit no connection is cut for being idle. Stopping the server closes its listener and ends the accept loop.",
 ["inputs","fault_sequences","schedules"],"every way a handler can end, every silence of a client",
 "The stable test neither goes silent nor looks at the closing of connections.",
 [S],[("deferred close","Server.handleConn"),("read deadline","Server.handleConn"),("closed-listener check","Server.Run")],["socket state"])
p("C20","Saving succeeds only if every configured store accepted",
 "Saving a record offers it to every registered store once, in order, until one fails, and reports success only if all accepted it; a store's error is always reported. Loading storages connects each configured name to its own backend with its own parameters, registers it only after successful initialisation, and reports an empty configuration, an unknown name or a failed initialisation as an error.",
 ["configurations","fault_sequences"],"every set of configured stores, any of them failing",
 "The stable test uses one in-process store.",
 [ST,"cli/receiver/main.go"],[("loop with early error return","Repository.Save"),("name switch and Init","Repository.LoadStorages")],["return of Save and LoadStorages","stores called"])
p("C21","A backend reports success only for a delivered message",
 "For every backend, a save that reports success has passed exactly the serialised record to the backend's delivery operation at the configured destination, and that operation reported no error; record content travels as data, never as part of a query text. Initialisation reports success only if the configuration was given and every connection step succeeded.",
 ["inputs","fault_sequences","configurations"],"every record, every backend failure, every configuration",
 "Backends need external services; no stable test calls them.",
 CON+["cli/receiver/storage/default.go"],[("error checks","Connector.Save and Connector.Init of each backend")],["return of Save and Init","calls into the client libraries"])
p("C22","Settings take effect as documented",
 "The listen address, idle limit in seconds, log level and storage sections of the configuration file are the values the receiver uses, with the documented keys, and an unknown or absent log level means informational logging. A missing or malformed file stops the start with an error; a configuration without usable storage leads to printing records, never to running without any store. With a readable file and an address it can listen on, the receiver accepts connections.",
 ["configurations"],"every configuration file",
 "The stable test loads one file and does not run the receiver from it.",
 ["cli/receiver/config/config.go","cli/receiver/main.go"],[("settings accessors","config.Settings"),("startup sequence","main")],["server parameters","process exit"])
p("C23","The packet generator reports exactly what happened",
 "The generator sends one packet carrying the packet id, object id, time, coordinates and liquid level given on its command line. It exits with success if and only if what it read within its timeout is an acknowledgement with that packet id, result OK and record statuses, all of them OK; in every other case it exits with failure. Values on the command line are taken to be in the range of the fields that carry them.",
 ["inputs","fault_sequences"],"every argument set and every server behaviour",
 "No test runs the generator.",
 ["cli/packet-gen/main.go"],[("checks before exit","main")],["exit status","bytes sent"])
p("C24","Length fields equal the bytes that follow",
 "Whenever encoding succeeds, every length it fills in itself - frame data length, and record and subrecord lengths the caller left at zero - equals the number of bytes it writes for that part, and the length a section of at most 64 KiB reports for itself equals the number of bytes its encoding has. A part too long for its length field is an error, not a wrapped length.",
 ["inputs"],"every section content and size",
 "Tests use small samples whose lengths are mostly given explicitly.",
 [L+"egts_pkg.go"]+REC+SUBT+SUBA,[("computed lengths","Package.Encode, ServiceDataSet.Encode, RecordDataSet.Encode, Length methods")],["encoded bytes","Length results"])
p("C25","An acknowledged record survives a crash of the receiver or backend",
 "Once a record has been confirmed with status OK, it can be read back from every configured backend after a crash and restart of the receiver or of the backend.",
 ["crash_points","fault_sequences"],"every crash point after the confirmation",
 "No test crashes anything.",
 [ST]+CON,[("backend durability","external services")],["backend content after restart"])
p("C26","Replies arrive in bounded time under any load",
 "The time from the arrival of a complete packet to its response is bounded for any number of connected clients and any backend latency.",
 ["schedules"],"every load",
 "Timing is not tested.",
 [S],[("goroutine per connection","Server.Run")],["response time"])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for x in P:
        assert len(x["title"])<=80,x["title"]
        f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P))
