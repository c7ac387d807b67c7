"""Contracts of the connection (C19 - C23, C31)."""
from datetime import datetime

from elgas import application as app
from elgas import client, connection, constants, exceptions, frames, security, state, utils
from elgas.constants import ServiceNumber

from contracts.app_c import AnyTime, Long, Password, Word, archive_payload, parameters_payload, six_byte_time, time_response
from contracts.codec_c import _time_bytes, device_time
from contracts.escape_c import escaped
from contracts.frames_c import _u8, _u16, frame_bytes, parsed_frame, sample_frame
from contracts.security_c import crc_bytes, decrypted
from dv.vlib import *

KeyIds = Enum(security.EncryptionKeyId)
Keys = Sampled(Bytes(16), lambda rng: rng.randbytes(16))
MaybeKey = Opt(Keys)

# requests, their services and responses
PAIRS = [
    (app.ReadInstantaneousValuesRequest, app.ReadInstantaneousValuesResponse, ServiceNumber.READ_VALUES),
    (app.ReadTimeRequest, app.ReadTimeResponse, ServiceNumber.READ_DEVICE_TIME),
    (app.WriteTimeRequest, app.WriteTimeResponse, ServiceNumber.WRITE_DEVICE_TIME),
    (app.ReadDeviceParametersRequest, app.ReadDeviceParametersResponse, ServiceNumber.READ_SCADA_PARAMETERS),
    (app.ReadArchiveByTimeRequest, app.ReadArchiveByTimeResponse, ServiceNumber.READ_ARCHIVES_BY_DATE),
    (app.ReadArchiveRequest, app.ReadArchiveResponse, ServiceNumber.READ_ARCHIVES),
]
WHEN = datetime(2021, 2, 3, 4, 5, 6)
GOOD = {
    app.ReadInstantaneousValuesRequest: lambda: app.ReadInstantaneousValuesRequest(password="1234"),
    app.ReadTimeRequest: lambda: app.ReadTimeRequest(),
    app.WriteTimeRequest: lambda: app.WriteTimeRequest(password="1234", device_time=WHEN),
    app.ReadDeviceParametersRequest: lambda: app.ReadDeviceParametersRequest(password="1234", object_count=0, buffer_length=1024),
    app.ReadArchiveByTimeRequest: lambda: app.ReadArchiveByTimeRequest(password="1234", archive=constants.Archive.DATA, amount=1, oldest_timestamp=WHEN),
    app.ReadArchiveRequest: lambda: app.ReadArchiveRequest(password="1234", archive=constants.Archive.DATA, amount=1, oldest_record_id=1),
}
SERVICES = [s for _, _, s in PAIRS]
NUMBERS = {
    app.ReadInstantaneousValuesRequest: 0x64, app.ReadTimeRequest: 0x6C, app.WriteTimeRequest: 0x71,
    app.ReadDeviceParametersRequest: 0x70, app.ReadArchiveByTimeRequest: 0x7D, app.ReadArchiveRequest: 0x7C,
}  # fmt: skip


def request_of(service):
    for request, _, s in PAIRS:
        if s == service:
            return GOOD[request]()


def new_connection(d1=1, d2=2, s1=3, s2=4, key=None, key_id=None, outstanding=None, buffer=b""):
    """a connection with the given response outstanding and bytes received"""
    conn = connection.ElgasConnection(destination_address_1=d1, destination_address_2=d2, source_address_1=s1, source_address_2=s2, password="1234", password_id=801, encryption_key=key, encryption_key_id=key_id)
    if outstanding is not None:
        conn.elgas_state.process_event(request_of(outstanding))
    conn.buffer = bytearray(buffer)
    return conn


# ---------------------------------------------------------------- C22: the states
@harness("C22", cases=PAIRS)
def request_and_response_alternate(pair):
    request, response, service = pair
    conn = new_connection()
    idle = conn.elgas_state.current_state
    check(request.service == service and response.service == service, "service number of %s" % request.__name__)
    conn.elgas_state.process_event(GOOD[request]())
    waiting = conn.elgas_state.current_state
    check(waiting is not idle, "a response to %s is outstanding" % request.__name__)
    for other, answer, _ in PAIRS:
        check(outcome(conn.elgas_state.process_event, GOOD[other]()).raised(exceptions.LocalElgasProtocolError), "%s is refused while a response is outstanding" % other.__name__)
        check(conn.elgas_state.current_state is waiting, "refusing %s changes nothing" % other.__name__)
        if answer is not response:
            check(outcome(conn.elgas_state.process_event, object.__new__(answer)).raised(exceptions.LocalElgasProtocolError), "%s is refused as response to %s" % (answer.__name__, request.__name__))
            check(conn.elgas_state.current_state is waiting, "refusing %s changes nothing" % answer.__name__)
    conn.elgas_state.process_event(object.__new__(response))
    check(conn.elgas_state.current_state is idle, "idle after the response")
    for _, answer, _ in PAIRS:
        check(outcome(conn.elgas_state.process_event, object.__new__(answer)).raised(exceptions.LocalElgasProtocolError), "%s is refused while nothing is outstanding" % answer.__name__)
        check(conn.elgas_state.current_state is idle, "refusing %s changes nothing" % answer.__name__)


# ---------------------------------------------------------------- C20: the receive buffer
Outstanding = Opt(OneOf(*SERVICES))
Cipher = OneOf(Const(None), Tup(Keys, KeyIds))
Addresses = Sampled(Tup(U16, Byte, U16, Byte), lambda rng: (_u16(rng) & 65535, _u8(rng) & 255, _u16(rng) & 65535, _u8(rng) & 255) if rng.random() < 0.7 else (0, 0, 0, 0))


def connection_of(cipher, outstanding, buffer, addresses=(1, 2, 3, 4)):
    d1, d2, s1, s2 = addresses
    if cipher is None:
        return new_connection(d1, d2, s1, s2, outstanding=outstanding, buffer=buffer)
    return new_connection(d1, d2, s1, s2, outstanding=outstanding, buffer=buffer, key=cipher[0], key_id=cipher[1])


def lasting(conn, cipher, outstanding, addresses=(1, 2, 3, 4), last=None):
    """A connection is left as a new one with that response outstanding and those bytes
    received: by induction, what is shown of one operation holds after every history.  Where it
    remembers more, native runs go on and compare with new connections."""
    if same(conn, connection_of(cipher, outstanding, bytes(conn.buffer), addresses)):
        return
    beyond_proof("the connection remembers more than bytes and the outstanding response")
    usable = cipher is None or len(cipher[0]) == 16 and 0 <= cipher[1] <= 255
    for i in range(nondet("further operations", Further)):
        fresh = connection_of(cipher, outstanding, bytes(conn.buffer), addresses)
        operation = nondet("further", OneOf("request", "request", "invalid request", "response", "response", "bytes"), i)
        if operation == "request" or operation == "invalid request":
            event = nondet("request", Requests if operation == "request" else InvalidRequests, i)
            if last is not None and nondet("the same object", Bool(), i):
                # the caller changes a request and sends it again
                if type(last) is type(event):
                    last.__dict__.update(event.__dict__)
                event = last
                operation = "request" if valid_request(event) else "invalid request"
            last = event
            copy = snapshot(event)
            r = outcome(conn.send, event)
            expected = outcome(fresh.send, copy)
            if r.ok and expected.ok and usable and operation == "request":
                right_on_the_wire(addresses, cipher, copy, r.value)
        else:
            t = nondet("telegram", Sampled(Bytes(), lambda rng: _telegram(rng, cipher if usable else None, 0.2, outstanding)), i)
            if operation == "bytes":
                t = t[: nondet("part", Byte, i)]
            conn.receive_data(t)
            fresh.receive_data(t)
            r = outcome(conn.next_event)
            expected = outcome(fresh.next_event)
            if r.ok and expected.ok:
                check_eq(r.value, expected.value, "event after earlier operations")
        check(r.ok == expected.ok, "the outcome does not depend on earlier operations")
        if not r.ok:
            check(type(r.exc) is type(expected.exc), "the exception does not depend on earlier operations")
        check_eq(conn.buffer, fresh.buffer, "the buffer does not depend on earlier operations")
        check(conn.elgas_state.current_state is fresh.elgas_state.current_state, "the protocol state does not depend on earlier operations")
        for s in ANY_STATE:
            if connection_of(cipher, s, b"").elgas_state.current_state is fresh.elgas_state.current_state:
                outstanding = s


def no_end(rng):
    return sample_bytes(rng, 0, 30).replace(b"\r", b"\x01")


Unfinished = Sampled(Bytes(), no_end)


@harness("C20", addresses=Addresses, cipher=Cipher, outstanding=Outstanding, received=OneOf(Bytes(), b""), chunk=OneOf(Bytes(), b"", b"\r"))
def chunks_are_collected(addresses, cipher, outstanding, received, chunk):
    conn = connection_of(cipher, outstanding, received, addresses)
    before = conn.elgas_state.current_state
    conn.receive_data(chunk)
    check(conn.elgas_state.current_state is before, "receiving changes no protocol state")
    if len(received) == 0 and chunk == b"\r":
        check(len(conn.buffer) == 0, "a lone end character on an empty buffer is ignored")
    else:
        check_eq(conn.buffer, bytearray(received + chunk), "the bytes are appended to what was received before")
    lasting(conn, cipher, outstanding, addresses)


@harness("C20", addresses=Addresses, cipher=Cipher, outstanding=Outstanding, received=Unfinished)
def asks_for_more_until_the_end_character(addresses, cipher, outstanding, received):
    require(not has_byte(received, 0x0D))
    conn = connection_of(cipher, outstanding, received, addresses)
    before = conn.elgas_state.current_state
    check(conn.next_event() is state.NEED_DATA, "more data is asked for")
    check(conn.elgas_state.current_state is before, "asking for more data changes no protocol state")
    check_eq(conn.buffer, bytearray(received), "asking for more data keeps the received bytes")
    lasting(conn, cipher, outstanding, addresses)


def response_in(cipher, telegram):
    """kind, service and payload of a complete telegram; None if it is malformed or cannot be decrypted"""
    raw = unescape(telegram)
    if len(raw) >= 3 and raw[2] == 0x86:
        r = outcome(parsed_frame, frames.Response, 0x86, raw)
        if not r.ok:
            return None
        return r.value.service, r.value.data
    if len(raw) >= 3 and raw[2] == 0x87 and cipher is not None:
        r = outcome(parsed_frame, frames.EncryptedResponse, 0x87, raw)
        if not r.ok:
            return None
        payload = decrypted(security.CipherContext(key_id=cipher[1], key=cipher[0]), r.value.data)
        if payload is None:
            return None
        return r.value.service, payload
    return None


def _response_payload(rng):
    k = rng.random()
    if k < 0.25:
        return bytes([rng.choice([0, 1, 2, 3, 4, 6, 8, 0x10, 0x18, 0x20, 0x40, 0x80, 0xFF, rng.randrange(256)])])
    if k < 0.5:
        return _time_bytes(rng) + sample_bytes(rng, 0, 40)
    if k < 0.6:
        return bytes([rng.randrange(12)]) + sample_bytes(rng, 0, 10)
    return sample_bytes(rng, 0, 30)


def wire(frame_type, service, payload, rng):
    f = frame_bytes(frame_type, service, _small(rng), rng.randrange(256), _small(rng), rng.randrange(256), payload)
    return escaped(f[:-1])


def _small(rng):
    return rng.choice([0, 1, 13, 27, 255, 256, 3341, 65535])


def encrypted(cipher, payload, rng):
    head = len(payload).to_bytes(2, "little") + bytes([cipher[1]])
    plain = payload + rng.randbytes((14 - len(payload)) % 16)
    return head + aes_cbc(cipher[0], cipher[0], plain + crc_bytes(head + plain))


def _telegram(rng, cipher=None, damage=0.4, service=None, payload=None):
    """a telegram with its end character, more or less intact"""
    if service is None:
        service = rng.choice(SERVICES)
    if payload is None:
        payload = _response_payload(rng)
    if rng.random() < damage * 0.3:
        body = sample_bytes(rng, 0, 30).replace(b"\r", b"\x1b")
        return body + b"\r"
    if cipher is not None and rng.random() < 0.7:
        data = encrypted(cipher, payload, rng)
        if rng.random() < damage * 0.4:
            b = bytearray(data)
            b[rng.randrange(len(b))] ^= 1 << rng.randrange(8)
            data = bytes(b)
        t = wire(0x87, service, data, rng)
    else:
        t = wire(rng.choice([0x86] * 8 + [0x87, 0x84]), service, payload, rng)
    if rng.random() < damage * 0.3:
        b = bytearray(t[:-1])
        b[rng.randrange(len(b))] = rng.choice([0, 1, 0x1B, 0x0E, rng.randrange(14, 256)])
        t = bytes(b) + b"\r"
    return t


def _receiving(damage, **more):
    def gen(rng):
        cipher = (rng.randbytes(16), rng.choice(list(security.EncryptionKeyId))) if rng.random() < 0.5 else None
        service = rng.choice(SERVICES)
        outstanding = service if rng.random() < 0.8 else rng.choice(SERVICES + [None])
        t = _telegram(rng, cipher, damage, service)
        return dict(cipher=cipher, outstanding=outstanding, body=t[:-1], rest=rng.choice([b"", b"", b"\r", t, sample_bytes(rng, 0, 20)]), addresses=Addresses.sample(rng))

    return gen


ANY_STATE = [None] + SERVICES


@harness("C20", cases=ANY_STATE, gen=_receiving(2.0), addresses=Addresses, cipher=Cipher, body=Bytes(), rest=Bytes())
def undecodable_telegrams_are_dropped(outstanding, addresses, cipher, body, rest):
    require(not has_byte(body, 0x0D))
    require(response_in(cipher, body + b"\r") is None)
    conn = connection_of(cipher, outstanding, body + b"\r" + rest, addresses)
    before = conn.elgas_state.current_state
    check(conn.next_event() is state.NEED_DATA, "more data is asked for")
    check(conn.elgas_state.current_state is before, "dropping a telegram changes no protocol state")
    check_eq(conn.buffer, bytearray(rest), "exactly the telegram is dropped")
    lasting(conn, cipher, outstanding, addresses)


def _split(rng):
    d = _receiving(0.3)(rng)
    i = rng.randrange(len(d["body"]) + 1)
    return dict(cipher=d["cipher"], first=d["body"][:i], second=d["body"][i:])


@harness("C20", cases=ANY_STATE, gen=_split, cipher=Cipher, first=Bytes(), second=Bytes())
def splitting_a_response_changes_nothing(outstanding, cipher, first, second):
    require(not has_byte(first, 0x0D))
    require(not has_byte(second, 0x0D))
    whole = connection_of(cipher, outstanding, b"")
    whole.receive_data(first + second + b"\r")
    split = connection_of(cipher, outstanding, b"")
    split.receive_data(first)
    check(split.next_event() is state.NEED_DATA, "more data is asked for before the end character")
    split.receive_data(second + b"\r")
    if same(split, whole):
        # next_event is a function of the connection alone
        return
    a, b = outcome(whole.next_event), outcome(split.next_event)
    check(a.ok == b.ok, "both deliver or both refuse")
    if a.ok:
        check_eq(b.value, a.value, "event delivered in parts")
    else:
        check(type(a.exc) is type(b.exc), "exception raised in parts")
    check(whole.elgas_state.current_state is split.elgas_state.current_state, "protocol state after both")
    check_eq(split.buffer, whole.buffer, "buffer after both")


# ---------------------------------------------------------------- C22: delivery of responses
def decoder_of(service):
    for _, response, s in PAIRS:
        if s == service:
            return response
    return None


@harness("C20 C22", cases=ANY_STATE, gen=_receiving(0.1), addresses=Addresses, cipher=Cipher, body=Bytes(), rest=Bytes())
def only_the_outstanding_response_is_delivered(outstanding, addresses, cipher, body, rest):
    require(not has_byte(body, 0x0D))
    answer = response_in(cipher, body + b"\r")
    require(answer is not None)
    service, payload = answer
    require(len(payload) != 1 or payload[0] == 0)
    response = decoder_of(service)
    conn = connection_of(cipher, outstanding, body + b"\r" + rest, addresses)
    before = conn.elgas_state.current_state
    if response is None:
        r = outcome(conn.next_event)
        check(r.raised(exceptions.LocalElgasProtocolError), "a response without request is refused")
        check(conn.elgas_state.current_state is before, "refusing a response changes no protocol state")
        lasting(conn, cipher, outstanding, addresses)
        return
    expected = outcome(response.from_bytes, payload)
    require(expected.ok)
    r = outcome(conn.next_event)
    if service == outstanding:
        check(r.ok, "the outstanding response is delivered")
        check_eq(r.value, expected.value, "event of the outstanding response")
        check(conn.elgas_state.current_state is connection_of(cipher, None, b"").elgas_state.current_state, "idle after the response")
        if len(rest) == 0:
            check(len(conn.buffer) == 0, "the response is consumed")
        lasting(conn, cipher, None, addresses)
    else:
        check(r.raised(exceptions.LocalElgasProtocolError), "a response that is not outstanding is refused")
        check(conn.elgas_state.current_state is before, "refusing a response changes no protocol state")
        lasting(conn, cipher, outstanding, addresses)


# ---------------------------------------------------------------- C21: errors of the device
ERRORS = [
    exceptions.WrongPasswordError,
    exceptions.SettingArchiveFull,
    exceptions.SwitchOff,
    exceptions.BlockedBuffer,
    exceptions.DataError,
    exceptions.CipherKeyError,
    exceptions.WrongEncryptionKeysError,
    exceptions.WriteError,
]


def _refusal(rng):
    d = _receiving(0)(rng)
    t = _telegram(rng, d["cipher"], 0, rng.choice(list(ServiceNumber)), bytes([rng.choice([1, 2, 4, 8, 16, 32, 64, 128, 3, 6, 0xC0, 0xFF, rng.randrange(256)])]))
    return dict(d, body=t[:-1])


@harness("C21", cases=ANY_STATE, gen=_refusal, addresses=Addresses, cipher=Cipher, body=Bytes(), rest=Bytes())
def error_bytes_raise_the_matching_exception(outstanding, addresses, cipher, body, rest):
    require(not has_byte(body, 0x0D))
    answer = response_in(cipher, body + b"\r")
    require(answer is not None)
    service, payload = answer
    require(len(payload) == 1 and payload[0] != 0)
    conn = connection_of(cipher, outstanding, body + b"\r" + rest, addresses)
    r = outcome(conn.next_event)
    check(not r.ok, "no event is delivered")
    bit = 0
    while (payload[0] >> bit) & 1 == 0:
        bit = bit + 1
    check(type(r.exc) is ERRORS[bit], "exception of the lowest bit that is set")
    check(conn.elgas_state.current_state is connection_of(cipher, None, b"").elgas_state.current_state, "idle after an error")
    if len(rest) == 0:
        check(len(conn.buffer) == 0, "the telegram is consumed")
    lasting(conn, cipher, None, addresses)
    check(outcome(conn.elgas_state.process_event, request_of(ServiceNumber.READ_DEVICE_TIME)).ok, "a new request is accepted")


# ---------------------------------------------------------------- C19: sending
ShortPassword = Sampled(Text(hi=1000), lambda rng: Password.sample(rng))
TwoBytes = U16
FourBytes = U32
ValidTime = DateTime(2000, 2099, micro=True, aware=True)
ArchiveKind = Enum(constants.Archive)

VALID = {
    app.ReadInstantaneousValuesRequest: dict(password=ShortPassword),
    app.ReadTimeRequest: dict(),
    app.WriteTimeRequest: dict(password=ShortPassword, device_time=ValidTime, cryout=Bool()),
    app.ReadDeviceParametersRequest: dict(password=ShortPassword, object_count=TwoBytes, buffer_length=TwoBytes),
    app.ReadArchiveByTimeRequest: dict(password=ShortPassword, archive=ArchiveKind, amount=TwoBytes, oldest_timestamp=ValidTime),
    app.ReadArchiveRequest: dict(password=ShortPassword, archive=ArchiveKind, amount=TwoBytes, oldest_record_id=FourBytes),
}


def after_password(event):
    """what a request carries behind the password field; None if it carries no password"""
    if type(event) is app.ReadInstantaneousValuesRequest:
        return b""
    if type(event) is app.WriteTimeRequest:
        return six_byte_time(event.device_time) + b"\x04"
    if type(event) is app.ReadDeviceParametersRequest:
        return event.object_count.to_bytes(2, "little") + event.buffer_length.to_bytes(2, "little")
    if type(event) is app.ReadArchiveByTimeRequest:
        return bytes([event.archive]) + event.amount.to_bytes(2, "little") + six_byte_time(event.oldest_timestamp)
    if type(event) is app.ReadArchiveRequest:
        return bytes([event.archive]) + event.oldest_record_id.to_bytes(4, "little") + event.amount.to_bytes(2, "little")
    return None


def payload_with(event, filler):
    rest = after_password(event)
    if rest is None:
        return b""
    return event.password.encode("latin-1") + b"!\x03" + filler + rest


def sent_frame(result):
    """the frame within the bytes on the wire"""
    return unescape(result)


def sent_data(result):
    f = sent_frame(result)
    return f[12 : len(f) - 4]


def filler_in(event, payload):
    if after_password(event) is None:
        return b""
    n = len(event.password) + 2
    return payload[n : n + 2]


def right_on_the_wire(addresses, cipher, event, result):
    """result is the telegram of the request"""
    d1, d2, s1, s2 = addresses
    data = sent_data(result)
    if cipher is None:
        kind = 0x84
        payload = data
    else:
        kind = 0x85
        plain = aes_cbc_inv(cipher[0], cipher[0], data[3:])
        payload = plain[: data[0] + 256 * data[1]]
        length = len(payload)
        check(data[2] == cipher[1], "key id of the encryption")
        check_eq(crc_bytes(data[:3] + plain[: len(plain) - 2]), plain[len(plain) - 2 :], "CRC of the encryption")
        check(len(plain) - 2 - length < 16, "no more padding than needed")
    check_eq(payload, payload_with(event, filler_in(event, payload)), "payload of the request")
    frame = sent_frame(result)
    check_eq(result, escaped(frame[: len(frame) - 1]), "what is sent is escaped")
    check_eq(frame, frame_bytes(kind, NUMBERS[type(event)], d1, d2, s1, s2, data), "exactly one frame")


def sending(request):
    @harness("C19", name="%s on the wire" % request.__name__, d1=U16, d2=Byte, s1=U16, s2=Byte, cipher=Cipher, event=Obj(request, **VALID[request]))
    def on_the_wire(d1, d2, s1, s2, cipher, event):
        before = snapshot(event)
        conn = connection_of(cipher, None, b"", (d1, d2, s1, s2))
        result = conn.send(event)
        right_on_the_wire((d1, d2, s1, s2), cipher, before, result)
        check_eq(event, before, "sending leaves the request as it is")
        lasting(conn, cipher, type(before).service, (d1, d2, s1, s2), event)


for _request, _, _ in PAIRS:
    sending(_request)


def _anything(rng):
    return (_receiving(0.3) if rng.random() < 0.6 else _refusal)(rng)


@harness("C19 C31", cases=ANY_STATE, gen=_anything, addresses=Addresses, cipher=Cipher, body=Bytes(), rest=Bytes())
def receiving_leaves_addresses_and_keys(outstanding, addresses, cipher, body, rest):
    """whatever arrives, later requests are sent with the configured addresses, key and key id"""
    require(not has_byte(body, 0x0D))
    conn = connection_of(cipher, outstanding, body + b"\r" + rest, addresses)
    outcome(conn.next_event)
    outstanding = [s for s in ANY_STATE if connection_of(cipher, s, b"").elgas_state.current_state is conn.elgas_state.current_state]
    check(len(outstanding) == 1, "the protocol state is one of those known")
    lasting(conn, cipher, outstanding[0], addresses)


# ---------------------------------------------------------------- C22: requests in the wrong moment
@harness("C22", cases=SERVICES, cipher=Cipher, received=Unfinished, again=OneOf(*SERVICES))
def no_request_while_a_response_is_outstanding(outstanding, cipher, received, again):
    conn = connection_of(cipher, outstanding, received)
    before = conn.elgas_state.current_state
    r = outcome(conn.send, request_of(again))
    check(r.raised(exceptions.LocalElgasProtocolError), "the request is refused")
    check(conn.elgas_state.current_state is before, "refusing a request changes no protocol state")
    lasting(conn, cipher, outstanding)


@harness("C22", cases=SERVICES, cipher=Cipher)
def a_request_awaits_its_response(service, cipher):
    conn = connection_of(cipher, None, b"")
    conn.send(request_of(service))
    check(conn.elgas_state.current_state is connection_of(None, service, b"").elgas_state.current_state, "the response to the request is outstanding")


# ---------------------------------------------------------------- C23: requests that cannot be sent
AnyCipher = OneOf(Const(None), Tup(Sampled(Bytes(), lambda rng: rng.randbytes(rng.choice([16, 16, 16, 0, 5, 24, 32, 33]))), Sampled(Int(), lambda rng: rng.choice([1, 7, 0, 255, 256, -1]))))
ANY_FIELDS = {
    app.ReadInstantaneousValuesRequest: dict(password=Password),
    app.ReadTimeRequest: dict(),
    app.WriteTimeRequest: dict(password=Password, device_time=AnyTime, cryout=Bool()),
    app.ReadDeviceParametersRequest: dict(password=Password, object_count=Word, buffer_length=Word),
    app.ReadArchiveByTimeRequest: dict(password=Password, archive=ArchiveKind, amount=Word, oldest_timestamp=AnyTime),
    app.ReadArchiveRequest: dict(password=Password, archive=ArchiveKind, amount=Word, oldest_record_id=Long),
}


def valid_request(event):
    return all(t.holds(event.__dict__[k]) for k, t in VALID[type(event)].items())


ENCODERS = ["elgas.application.%s.to_bytes" % r.__name__ for r, _, _ in PAIRS] + ["elgas.frames.Request.to_bytes", "elgas.frames.EncryptedRequest.to_bytes", "elgas.security.CipherContext.encrypt"]


def failing_send(request):
    @harness("C23", name="%s that cannot be sent" % request.__name__, cases=ANY_STATE, inline=ENCODERS, cipher=AnyCipher, received=Bytes(), event=Obj(request, **ANY_FIELDS[request]))
    def cannot_be_sent(outstanding, cipher, received, event):
        conn = connection_of(cipher, outstanding, received)
        before = conn.elgas_state.current_state
        r = outcome(conn.send, event)
        if not r.ok:
            check(conn.elgas_state.current_state is before, "a failed request changes no protocol state")
            check_eq(conn.buffer, bytearray(received), "a failed request leaves the receive buffer")
            check_eq(conn, connection_of(cipher, outstanding, received), "a failed request leaves the connection")
            lasting(conn, cipher, outstanding)


for _request, _, _ in PAIRS:
    failing_send(_request)

Further = Sampled(UInt(0, 12), lambda rng: rng.choice([0, 3, 12, 12]))
Requests = OneOf(*[Obj(r, **VALID[r]) for r, _, _ in PAIRS])
InvalidRequests = OneOf(*[Obj(r, **ANY_FIELDS[r]) for r, _, _ in PAIRS])


# ---------------------------------------------------------------- C31: creation
@harness("C31 C20 C22", cipher=Cipher, other=Cipher, chunk=Bytes(), event=Requests)
def connections_share_nothing(cipher, other, chunk, event):
    conn, second = connection_made(cipher), connection_made(other)
    conn.receive_data(chunk)
    conn.send(event)
    check(len(second.buffer) == 0, "bytes of another connection")
    check(second.next_event() is state.NEED_DATA, "events of another connection")
    third = connection_made(other)
    check(len(third.buffer) == 0, "bytes of an earlier connection")
    check(third.next_event() is state.NEED_DATA, "events of an earlier connection")
    check(outcome(second.elgas_state.process_event, request_of(ServiceNumber.READ_DEVICE_TIME)).ok, "a request of another connection is outstanding")
    check(outcome(third.elgas_state.process_event, request_of(ServiceNumber.READ_DEVICE_TIME)).ok, "a request of an earlier connection is outstanding")


def connection_made(cipher):
    key, key_id = (None, None) if cipher is None else cipher
    return connection.ElgasConnection(destination_address_1=1, destination_address_2=2, source_address_1=3, source_address_2=4, password="1234", password_id=801, encryption_key=key, encryption_key_id=key_id)


Address1 = Sampled(Int(), _u16)
Address2 = Sampled(Int(), _u8)
PasswordId = Sampled(Int(), lambda rng: rng.choice([801, 802, 849, 820, 800, 850, 0, -801]))
AnyKey = Opt(OneOf(Sampled(Bytes(16), lambda rng: rng.randbytes(16)), Sampled(Bytes(), lambda rng: rng.randbytes(rng.choice([0, 0, 15, 32])))))
AnyKeyId = Opt(Sampled(Int(), lambda rng: rng.choice([0, 1, 7, 255, 256, -1])))


@harness("C31", d1=Address1, d2=Address2, s1=Address1, s2=Address2, password=Sampled(Text(), lambda rng: Text(hi=9).sample(rng)), password_id=PasswordId, key=AnyKey, key_id=AnyKeyId)
def connections_exist_only_with_valid_settings(d1, d2, s1, s2, password, password_id, key, key_id):
    r = outcome(lambda: connection.ElgasConnection(destination_address_1=d1, destination_address_2=d2, source_address_1=s1, source_address_2=s2, password=password, password_id=password_id, encryption_key=key, encryption_key_id=key_id))
    valid = 0 <= d1 <= 65535 and 0 <= s1 <= 65535 and 0 <= d2 <= 255 and 0 <= s2 <= 255 and len(password) <= 6 and 801 <= password_id <= 849
    if not valid:
        check(r.raised(ValueError), "invalid settings are refused")
        return
    check(r.ok, "valid settings are accepted")
    conn = r.value
    check(len(conn.buffer) == 0, "the buffer of a new connection is empty")
    check(conn.next_event() is state.NEED_DATA, "a new connection has received nothing")
    check(outcome(conn.elgas_state.process_event, request_of(ServiceNumber.READ_DEVICE_TIME)).ok, "a new connection is idle")


@harness("C31", inline=ENCODERS, key=AnyKey, key_id=AnyKeyId)
def connections_encrypt_with_key_and_key_id(key, key_id):
    conn = new_connection(key=key, key_id=key_id)
    r = outcome(conn.send, app.ReadTimeRequest())
    if key is None or key_id is None:
        check(r.ok, "without key and key id the request is sent")
        check(sent_frame(r.value)[2] == 0x84, "without key and key id nothing is encrypted")
        return
    if len(key) != 16 or not 0 <= key_id <= 255:
        check(not r.ok or sent_frame(r.value)[2] == 0x85, "no plain request with a key and key id")
        return
    check(r.ok, "with a key and key id the request is sent")
    data = sent_data(r.value)
    check(sent_frame(r.value)[2] == 0x85, "with key and key id requests are encrypted")
    check(data[2] == key_id, "encryption with the key id given")
    plain = aes_cbc_inv(key, key, data[3:])
    check_eq(crc_bytes(data[:3] + plain[: len(plain) - 2]), plain[len(plain) - 2 :], "encryption with the key given")


@harness("C31", inline=ENCODERS, password=Sampled(Text(hi=6), lambda rng: Text(hi=6).sample(rng)), password_id=UInt(801, 849), key=Opt(Keys), key_id=Opt(KeyIds))
def connection_of_a_client(password, password_id, key, key_id):
    this = client.ElgasClient(transport=None, password=password, password_id=password_id, encryption_key=key, encryption_key_id=key_id)
    conn = this.elgas_connection
    check(conn.password == password and conn.password_id == password_id, "password and password id of the client")
    sent = conn.send(app.ReadTimeRequest())
    frame = sent_frame(sent)
    check_eq(frame[6:12], bytes(6), "all addresses are 0")
    if key is None or key_id is None:
        check(frame[2] == 0x84, "without key and key id nothing is encrypted")
        return
    check(frame[2] == 0x85, "with key and key id requests are encrypted")
    data = sent_data(sent)
    check(data[2] == key_id, "encryption with the key id of the client")
    plain = aes_cbc_inv(key, key, data[3:])
    check_eq(crc_bytes(data[:3] + plain[: len(plain) - 2]), plain[len(plain) - 2 :], "encryption with the key of the client")
