"""Writes properties.jsonl (kept as a script so the text stays readable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    assert len(title) <= 80, title
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], hook_needed=None))
    if state: d["anchors"]["state"] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    if observe: d["anchors"]["observe_at"] = observe
    P.append(d)
U="elgas/utils.py"; F="elgas/frames.py"; S="elgas/security.py"; A="elgas/application.py"; C="elgas/connection.py"
K="elgas/client.py"; T="elgas/transport.py"; ST="elgas/state.py"; PA="elgas/parser.py"; PF="elgas/parameters/factory.py"
p("C01","Escaping a telegram is reversible and hides the end character",
  "For every byte string that ends with the end character 0x0D, unescaping its escaped form gives back exactly the original bytes, and in the escaped form 0x0D occurs only as the last byte and 0x8D does not occur at all. Escaping replaces 0x1B, 0x0D and 0x8D by 1B 1B, 1B 0E and 1B 0F everywhere except in the final byte and changes no other byte; data that does not end with 0x0D is refused with ValueError.",
  ["inputs"],"every byte string of every length and content","The tests escape one telegram; the quantifier is over all byte strings, including every run and adjacency of 0x1B, 0x0D, 0x8D, 0x0E and 0x0F.",[U],[("escape_characters",U),("return_characters",U)],observe=["elgas.utils.escape_characters","elgas.utils.return_characters"])
p("C02","Unescaping is one left-to-right pass over any received bytes",
  "For every byte string, unescaping scans once from left to right: 1B 1B becomes 1B, 1B 0E becomes 0D, 1B 0F becomes 8D, 1B followed by any other byte is kept as both bytes, and every other byte is copied; bytes produced by a replacement are never looked at again. The input is not modified, and input that ends inside an escape pair raises IndexError instead of returning data.",
  ["inputs"],"every byte string, well-formed or not","Two telegrams are tested; malformed, truncated and adjacent escape pairs and unbounded lengths are not.",[U],[("return_characters",U)],observe=["elgas.utils.return_characters"])
p("C03","LRC, checksum and DRC equal their mathematical definitions",
  "For every byte string the LRC is the exclusive-or of all bytes, the checksum is their sum modulo 256, and the DRC is obtained from 0 by, for every byte in order, rotating the 8-bit value left by one and exclusive-oring the byte. Each result is in 0..255 and the input is not modified.",
  ["inputs"],"every byte string of every length","Each code is tested on one sample telegram; carries, rotations and lengths beyond it are not.",[U],[("calculate_lrc",U),("calculate_checksum",U),("calculate_drc",U)])
p("C04","The CRC over encrypted data is byte-swapped CRC-16/MODBUS",
  "For every byte string the computed CRC is CRC-16 with reflected polynomial 0xA001 and start value 0xFFFF processed byte by byte, returned with its two bytes swapped, and always lies in 0..65535. The input is not modified.",
  ["inputs"],"every byte string of every length","Only one encrypted message exercises the CRC; a wrong entry among the 256 table entries or a wrong reduction shows only for some inputs.",[U],[("calculate_crc and crc16_table",U)])
p("C05","Encoded frames have the documented layout, length and redundancy",
  "For every service, every address pair in range and every payload that fits, an encoded frame is 02 FE, the type byte of the frame kind (84/85 request, 86/87 response, odd when encrypted), the service byte, a two-byte little-endian length that counts every byte except the first, destination address (two bytes little-endian, then one byte), source address likewise, the payload unchanged, then LRC, checksum and DRC computed over everything between the first byte and the LRC, then 0D. A payload or address that does not fit its field raises an error instead of producing a frame.",
  ["inputs"],"every payload, service and address of each frame kind","Few fixed frames are tested, none with large or asymmetric addresses or long payloads.",[F,U],[("Request.to_bytes, Response.to_bytes",F)])
p("C06","Frame decoding accepts exactly well-formed frames and returns their fields",
  "Decoding a byte string as a given frame kind succeeds if and only if it is a well-formed frame of that kind (start bytes, type, known service number, length field, redundancy bytes and end character all right, at least the fixed 16 bytes), and then yields exactly the service, addresses and payload in it; anything else raises ValueError. Choosing the kind of a received frame by its start bytes gives a plain response for type 86, an encrypted response for type 87 and ValueError for everything else, and decoding an encoded frame gives back an equal frame.",
  ["inputs"],"every byte string, and every frame","The tests decode a few recorded telegrams and one LRC failure.",[F,"elgas/constants.py"],[("Request.from_bytes, Response.from_bytes, ResponseFactory",F)])
p("C07","A frame with any single altered byte is never accepted",
  "For every well-formed frame, changing any one byte (any position, any new value) makes decoding it as that kind, and as a received response, raise ValueError; so single-byte line corruption is never delivered as data. This includes the start, type, service, length, address, payload, redundancy and end bytes.",
  ["inputs","fault_sequences"],"every well-formed frame, every position, every replacement byte","One corrupted LRC is tested; the quantifier is over all frames, positions and byte values.",[F,U],[("redundancy checks in from_bytes",F)])
p("C08","Encrypted payloads have the documented header, padding, CRC and cipher text",
  "For every payload shorter than 65536 bytes, every key id and every valid AES key, the encrypted form is the two-byte little-endian payload length, the key id byte (factory 1, temporary 2, administrator 3, maintenance 4, users 5 to 7), and the AES-CBC encryption (key also used as initialization vector) of payload, padding and CRC; the plain text to be encrypted is the payload, then 0 to 15 padding bytes that make it together with the CRC a multiple of 16, then the big-endian CRC over header, payload and padding. A payload that is too long raises an error.",
  ["inputs"],"every payload, key id and key, every padding","One message with one key is tested; lengths modulo 16 and padding choices are not.",[S,U],[("CipherContext.encrypt, data_padding, encrypt",S)])
p("C09","Decrypting what was encrypted returns the payload",
  "For every payload, key id and valid key, decrypting the encrypted form with the same key and key id returns exactly the original payload, whatever padding was chosen. ",
  ["inputs"],"every payload (in particular every length modulo 16), key, key id and padding choice","One message is tested.",[S],[("CipherContext.encrypt / CipherContext.decrypt",S)])
p("C10","Decryption never returns data that fails its checks",
  "Decryption returns data only if the key id in the header equals the configured one, the CRC over header and decrypted data equals the CRC at its end, and the declared length does not exceed the decrypted data without CRC; it then returns exactly the declared number of leading decrypted bytes, and otherwise raises an error.",
  ["inputs"],"every received byte string and every cipher configuration","Only a valid message is decrypted in tests; forged, truncated and mis-keyed input is not.",[S],[("CipherContext.decrypt",S)])
p("C11","Device times are encoded and decoded without loss",
  "For every date and time from 2000 to 2099, encoding gives the six BCD bytes second, minute, hour, day, month, two-digit year, and decoding these gives back the same date and time. Decoding any six bytes gives the time they denote with bits 7 and 6 of the hour byte reported as the DST and DST-supported flags, and input that is not six bytes, not BCD or not an existing date and time raises ValueError.",
  ["inputs"],"all 3.2 billion representable times and all six-byte strings","Two timestamps are tested.",[U],[("bytes_to_datetime, datetime_to_bytes, to_bdc, from_bcd",U)])
p("C12","Request payloads carry exactly the requested values in protocol layout",
  "For all argument values in range, the payload of each request is: the password field (the password, '!', 0x03 and two arbitrary characters; ten bytes for a six-character password) followed by its parameters in order: archive byte (extreme 0, data 1, binary 2, daily 3, monthly 4, setting 5, fast 6 and 7, status 8, billing 9, gas composition 10), four-byte little-endian record id and two-byte little-endian amount for an archive read; archive byte, amount, six-byte time for an archive read by time; two-byte object count and two-byte buffer length for a parameter read; six-byte time and the sync-time flag 04 for a time write; nothing else for an instantaneous-values read; and the time read has an empty payload. Times are sent as their clock time, whatever time zone they carry, and values that do not fit their field raise an error instead of being truncated.",
  ["inputs"],"all passwords, archives, amounts, record ids, times and counts","Single examples are tested; field widths and byte order are only visible for other values.",[A,U],[("to_bytes of the request classes",A),("pad_password",U)])
p("C13","Response payloads are decoded into exactly the fields they carry",
  "For every payload of a response that holds all fields of its kind, decoding yields: for time reads the device time with DST flags, access result byte, and extra bytes without the trailing two; for instantaneous values the time, the data between time and the last 19 bytes, access byte, two eight-byte status fields and two CRC bytes; for parameter reads object number, object amount, end flag and data; for archive reads by id or time the archive, the four-byte little-endian oldest record id and the record data; for a time write an empty acknowledgement. Payloads without room for the time or for the fixed-width fields at the start of a parameter or archive response, with an invalid time or an unknown archive raise an error.",
  ["inputs"],"every payload byte string of each response kind","One recorded payload per kind is tested.",[A,U],[("from_bytes of the response classes",A)])
p("C14","A call registration message is decoded field by field without loss",
  "For every call (registration) payload of the documented layout, every field - version, GUID, station id, SIM and modem ids (the decimal numbers their BCD digits write, without leading zeros), protocol, addresses, signal, connection, error and reset counters with their times (seconds since 2000-01-01), data counters, serial number, IP address, modem error and battery values, firmware version - is decoded from its own bytes with its own width and little-endian order. A truncated payload, invalid BCD or an unknown protocol raises an error.",
  ["inputs"],"every payload byte string","One recorded registration is tested.",[A,U],[("CallRequest.from_bytes",A)])
p("C15","Every parameter object decodes each field from its own bytes",
  "For every supported parameter object type and every body of documented length (with or without the optional trailing fields), every attribute of the decoded object equals the value at its documented offset, width, byte order and bit; optional trailing fields are absent (None) when not sent. A body too short for the mandatory fields raises an error instead of yielding an object.",
  ["inputs"],"every object type and every body of documented length or shorter","One recorded body per tested type; several types have no test at all, and equal neighbouring values hide swapped fields.",["elgas/parameters/*.py",U],[("from_bytes of every parameter class","elgas/parameters/"),("pop_many, pretty_text",U)])
p("C16","A parameter stream is decoded completely, in order, object by object",
  "For every stream that is a concatenation of any number of well-formed records (two-byte little-endian record length including the three header bytes, object type, body), parsing returns exactly one decoded object per record, in stream order, each decoded from its own body with the decoder of its own type. Empty input raises ValueError, an unknown object type and a stream that ends within the three header bytes of a record raise an error, and nothing after an undecodable record is silently dropped.",
  ["inputs"],"every number, order, type and size of records","One recorded stream is tested.",[PA,PF],[("ScadaParameterParser.parse",PA),("ParameterFactory",PF)])
p("C17","Every enumerated parameter object type can be decoded and serialised",
  "For every object type number the library enumerates there is a decoder, and it produces an object whose class declares that same type number; there is a schema for it, and that schema loads into objects of that same class. No type number is mapped to another type's decoder or schema, and the 36 types keep their documented numbers.",
  ["inputs","configurations"],"every member of the object type enumeration","Tests touch about half of the types directly and never compare the decoder and schema tables.",[PF,"elgas/parameters/enumerations.py"],[("object_map of both factories",PF)])
p("C18","Parameter objects survive serialisation and loading unchanged",
  "For every parameter object a decoder can produce (with finite floating-point values), dumping it with the schema of its type and loading the result with the same schema gives an equal object of the same class with every field preserved, including absent optional fields.",
  ["inputs"],"every decodable object of every type","One test dumps and loads objects from one recorded stream.",["elgas/parameters/*.py"],[("schema field declarations and make_object","elgas/parameters/")])
p("C19","Sending puts exactly one escaped, correctly addressed frame on the wire",
  "For every allowed request, configured address quadruple and cipher configuration, the bytes produced for sending are the escaped form of exactly one request frame with the configured destination and source addresses, the service number of that request (values 64, device time 6C, writing it 71, parameters 70, archives 7C, archives by time 7D) and its payload; with a key and key id configured the frame is of the encrypted kind and its payload is the encryption of the request payload, otherwise it is of the plain kind and carries the payload itself.",
  ["inputs","configurations"],"every request kind, payload, address and cipher configuration","No test drives sending through a connection with non-trivial addresses.",[C,F,U],[("ElgasConnection.send",C)])
p("C20","Received responses are delivered whole however the bytes arrive",
  "However the bytes of a response are split into chunks, the connection asks for more data until the end character has arrived and then delivers the same event as if all bytes had arrived at once; empty chunks and a lone end character on an empty buffer change nothing. A complete telegram that is not an acceptable frame (malformed, failing its check byte or not decryptable) is dropped with a request for more data, without changing the protocol state, and a following intact response is delivered normally.",
  ["inputs","histories","fault_sequences"],"every response, every fragmentation, every corrupt telegram before it","No test feeds a connection in pieces or after corruption.",[C,U,F],[("receive_data, next_event",C)],[("buffer","bytes received and not yet consumed",C)])
p("C21","Device error bytes always surface as the matching exception",
  "For every one-byte response payload that is not zero, whether the response was encrypted or not, the caller gets the exception of the lowest set bit (0 wrong password, 1 settings archive full, 2 switch off, 3 blocked buffer, 4 data error, 5 cipher key, 6 wrong encryption keys, 7 write error) and no event is delivered. After that the connection is idle with the telegram consumed and accepts a new request.",
  ["inputs","histories"],"all 255 error bytes, plain and encrypted, in every protocol state","No test feeds an error response.",[C,"elgas/exceptions.py"],[("raise_error, next_event",C)])
p("C22","Requests and responses alternate, and only the matching response is accepted",
  "In every history, a request is accepted only when no response is outstanding, and a response event is delivered only while the request of the same service is outstanding; everything else raises a local protocol error and leaves the protocol state unchanged. Each request's response is decoded by the decoder of the request's service, and after it the connection is idle again.",
  ["histories","inputs"],"every sequence of requests and received responses, every pair of request and response kinds","No test drives a sequence of events through the state machine.",[ST,C,A],[("ELGAS_STATE_TRANSITIONS, process_event",ST),("service_map",C)],[("current_state","idle, or awaiting the response of one request kind",ST)])
p("C23","A request that cannot be sent leaves the connection as it was",
  "If producing the bytes of a request raises an error (a value that does not fit, an invalid time, an invalid key, or a request not allowed now), the protocol state and receive buffer are as before the call, so a corrected request can be sent afterwards.",
  ["inputs","fault_sequences"],"every request, every failing step of encoding, every state","No test makes sending fail.",[C,ST],[("ElgasConnection.send",C)])
p("C24","Reading all parameters joins all pages and asks for the right next one",
  "For every sequence of parameter pages a device sends, the client requests the first page from the given start number (0 if none is given) and each next page from the start number plus all object amounts received so far, stops exactly after the page marked as last, and parses the concatenation of all page data in order.",
  ["histories","inputs"],"every number of pages, page contents and object amounts","No test runs the client.",[K],[("ElgasClient.read_parameters",K)])
p("C25","Transports read exactly one telegram and make progress",
  "For every byte stream a peer sends and every way it is split, reading until the terminator returns the bytes from the current position through the first terminator and consumes nothing after it, unless the size limit is reached or the time limit expires first, in which case it returns what was read so far; bytes are neither lost, duplicated nor reordered. A peer that has closed the connection (or a silent serial line) makes reading fail with a communication error instead of looping.",
  ["inputs","fault_sequences","schedules"],"every stream, chunking, close point and clock behaviour; TCP and serial","No test opens a transport.",[T],[("recv_until, _recv_bytes",T)])
p("C26","Passwords and keys never appear in the textual form of objects",
  "Whenever the representation of a password or key held by a client, connection, request or cipher context is asked for from within the representation of any other object, at any nesting depth, the result is a fixed placeholder that does not contain the secret; called directly it is the ordinary representation. Password and key keep this protection on their way from the client into its connection, its cipher context and every request the client builds.",
  ["inputs","programs"],"every secret value and every call stack above the representation","No test prints such objects.",[U,K,C],[("SecretStr.__repr__, SecretByte.__repr__, to_secret_*",U)])
p("C27","Text and IP fields are cleaned the same way for every content",
  "For every byte field, its text is everything before the last NUL (or all of it without NUL), remaining NULs read as spaces, without leading and trailing ASCII whitespace, as Latin-1 characters; this never fails. Four bytes give the dotted decimal address in their order, and any other number of bytes raises ValueError.",
  ["inputs"],"every byte string","Few sample texts are tested.",[U],[("pretty_text, parse_ip_address",U)])
p("C28","Transports never misuse their handle and report failures uniformly",
  "Over every sequence of connect, disconnect, send and receive with any of them failing: connecting while connected and sending or receiving while disconnected raise RuntimeError without touching a handle, disconnecting while disconnected does nothing, and after disconnect (successful or not) the handle has been closed and is dropped. Every operating-system level error surfaces as the library's communication error, and the bytes sent are exactly the bytes given.",
  ["histories","fault_sequences"],"every operation sequence and failure position; TCP and serial","No test opens a transport.",[T],[("connect, disconnect, send, recv",T)],[("tcp_socket / serial_port","open handle or None",T)])
p("C29","A timeout expires exactly when its duration has passed",
  "For every duration and every non-decreasing clock: an infinite timeout never expires and has no remaining time, a zero timeout is expired at once with zero remaining, and any other timeout reports the duration minus the elapsed time, never negative and never more than the duration, and counts as expired exactly when nothing remains. Restarting with a new duration behaves like a new timeout started at that moment.",
  ["inputs","schedules"],"every duration and clock reading sequence","No test covers timeouts.",[T],[("Timeout",T)])
p("C30","Client operations send the right request and return its response",
  "Connecting and disconnecting a client does so with its transport. Each client operation sends exactly one request of its kind (parameter reads: one per page) built from the client's password and the caller's arguments, writes the produced bytes to the transport unchanged, feeds every received chunk in order to the connection, and returns the response that the connection delivers (for time reads the time in it, for parameter reads the parameters in its pages; a time write only waits for its acknowledgement). While the connection asks for more data the client keeps reading, it returns nothing else, and failures of the transport or connection reach the caller.",
  ["inputs","histories"],"every argument, every number of chunks","No test runs the client.",[K],[("send, next_event, read_*, write_time",K)])
p("C31","A connection exists only with valid addressing and credentials",
  "Creating a connection succeeds if and only if both first addresses are in 0..65535, both second addresses in 0..255, the password has at most six characters and the password id is in 801..849, and raises ValueError otherwise; a new connection is idle with an empty buffer. It encrypts if and only if both a key and a key id are given, and then with exactly these. The connection a client makes for itself has the client's password, password id, key and key id, and all addresses 0.",
  ["inputs","configurations"],"every combination of configuration values","No test probes the limits.",[C],[("attribute validators, create_cipher_context",C)])
p("C32","An operation on a silent device ends within the configured time",
  "Whenever the device stops answering - before the first byte or after any part of a telegram - reading a telegram over TCP or a serial line waits for further bytes no longer than the timeout the transport was configured with and then fails with a communication error; connecting over TCP is limited by the same timeout; and no client operation reads again after such a failure, so that the operation ends with that error. (The operating system is assumed to end a wait when the timeout given for the handle has passed.)",
  ["schedules","fault_sequences"],"every schedule and every point at which the device falls silent","Needs real time and every silence point.",[T,K],[("socket and serial timeouts",T)])
open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w").write("".join(json.dumps(d) + "\n" for d in P))
print(len(P))
