"""Contracts of the application payloads (C12, C13, C14)."""
from datetime import datetime, timedelta

from elgas import application as app
from elgas import constants

from contracts.codec_c import _texty, bcd, bcd_number, clean_text, device_time, dotted, _time_bytes
from dv.vlib import *

Password = Sampled(Text(), lambda rng: rng.choice(["1234\x1b\r", "654321", "", "abc", "\xe9\xff0000", "0123456789ab"]))


# ---------------------------------------------------------------- requests
@contract("elgas.utils.pad_password", "C12", password=Password)
def pad_password(password):
    return password + "!\x03" + choice("filler", Text(2))


@pad_password.witness
def _(result, password):
    return {"filler": result[len(password) + 2 :]}


def password_field(password):
    return password.encode("latin-1") + b"!\x03" + choice("filler", Bytes(2))


def filler_of(result, password):
    return {"filler": result[len(password) + 2 : len(password) + 4]}


def field(value, size):
    if not 0 <= value < 256 ** size:
        raise Reject()
    return value.to_bytes(size, "little")


Word = Sampled(Int(), lambda rng: rng.choice([0, 1, 10, 255, 256, 4660, 65535, rng.randrange(65536)]) if rng.random() < 0.9 else rng.choice([-1, 65536, 70000]))
Long = Sampled(Int(), lambda rng: rng.choice([0, 1, 10, 255, 256, 65536, 0x12345678, 2**31, 2**32 - 1, rng.randrange(2**32)]) if rng.random() < 0.9 else rng.choice([-1, 2**32, 2**40]))
AnyTime = DateTime(1990, 2110, micro=True, aware=True)


def six_byte_time(t):
    if not 2000 <= t.year <= 2099:
        raise Reject()
    return bytes([bcd(t.second), bcd(t.minute), bcd(t.hour), bcd(t.day), bcd(t.month), bcd(t.year - 2000)])


@contract("elgas.application.ReadInstantaneousValuesRequest.to_bytes", "C12", mutable=True, self=Obj(app.ReadInstantaneousValuesRequest, password=Password))
def values_request(self):
    return password_field(self.password)


@values_request.witness
def _(result, self):
    return filler_of(result, self.password)


@contract("elgas.application.ReadTimeRequest.to_bytes", "C12", mutable=True, self=Obj(app.ReadTimeRequest))
def time_request(self):
    return b""


@contract("elgas.application.WriteTimeRequest.to_bytes", "C12", mutable=True, self=Obj(app.WriteTimeRequest, password=Password, device_time=AnyTime, cryout=Bool()))
def write_time_request(self):
    return password_field(self.password) + six_byte_time(self.device_time) + b"\x04"


@write_time_request.witness
def _(result, self):
    return filler_of(result, self.password)


@contract("elgas.application.ReadDeviceParametersRequest.to_bytes", "C12", mutable=True, self=Obj(app.ReadDeviceParametersRequest, password=Password, object_count=Word, buffer_length=Word))
def parameters_request(self):
    return password_field(self.password) + field(self.object_count, 2) + field(self.buffer_length, 2)


@parameters_request.witness
def _(result, self):
    return filler_of(result, self.password)


@contract("elgas.application.ReadArchiveByTimeRequest.to_bytes", "C12", mutable=True, self=Obj(app.ReadArchiveByTimeRequest, password=Password, archive=Enum(constants.Archive), amount=Word, oldest_timestamp=AnyTime))
def archive_by_time_request(self):
    return password_field(self.password) + bytes([self.archive]) + field(self.amount, 2) + six_byte_time(self.oldest_timestamp)


@archive_by_time_request.witness
def _(result, self):
    return filler_of(result, self.password)


@contract("elgas.application.ReadArchiveRequest.to_bytes", "C12", mutable=True, self=Obj(app.ReadArchiveRequest, password=Password, archive=Enum(constants.Archive), amount=Word, oldest_record_id=Long))
def archive_request(self):
    return password_field(self.password) + bytes([self.archive]) + field(self.oldest_record_id, 4) + field(self.amount, 2)


@archive_request.witness
def _(result, self):
    return filler_of(result, self.password)


ARCHIVES = [("EXTREME", 0), ("DATA", 1), ("BINARY", 2), ("DAILY", 3), ("MONTHLY", 4), ("SETTING", 5), ("FAST_1", 6), ("FAST_2", 7), ("STATUS", 8), ("BILLING", 9), ("GAS_COMPOSITION", 10)]
PROTOCOLS = [("ELGAS2", 0), ("QMD", 1), ("RDS", 2), ("MODBUS", 3)]


@harness("C12", cases=ARCHIVES, password=Password, amount=U16, oldest=UInt(0, 2**32 - 1), when=DateTime(2000, 2099))
def archive_byte_of_a_request(archive, password, amount, oldest, when):
    name, number = archive
    kind = getattr(constants.Archive, name)
    r = app.ReadArchiveRequest(password=password, archive=kind, amount=amount, oldest_record_id=oldest)
    check_eq(r.to_bytes()[len(password) + 4 :], bytes([number]) + field(oldest, 4) + field(amount, 2), "archive %s by record" % name)
    r = app.ReadArchiveByTimeRequest(password=password, archive=kind, amount=amount, oldest_timestamp=when)
    check_eq(r.to_bytes()[len(password) + 4 :], bytes([number]) + field(amount, 2) + six_byte_time(when), "archive %s by time" % name)


@harness("C13", cases=ARCHIVES, oldest=Bytes(4), data=Bytes())
def archive_of_a_response(archive, oldest, data):
    name, number = archive
    for response in (app.ReadArchiveResponse, app.ReadArchiveByTimeResponse):
        r = response.from_bytes(bytes([number]) + oldest + data)
        check(r.archive == getattr(constants.Archive, name), "archive %s in %s" % (name, response.__name__))


@harness("C14", cases=PROTOCOLS, inline=["elgas.application.CallRequest.from_bytes"], call=Sampled(Bytes(), lambda rng: _call(rng)))
def protocol_of_a_call(protocol, call):
    name, number = protocol
    check(constants.Protocol(number) == getattr(constants.Protocol, name), "number of protocol %s" % name)
    require(len(call) >= CALL_LENGTH)
    r = outcome(app.CallRequest.from_bytes, call[:54] + bytes([number]) + call[55:])
    require(r.ok)
    check(r.value.protocol == getattr(constants.Protocol, name), "protocol %s" % name)


# ---------------------------------------------------------------- responses
def _after_time(lo, hi):
    def gen(rng):
        return _time_bytes(rng) + sample_bytes(rng, lo, hi)

    return gen


def time_response(in_bytes):
    """payload: time, access result, extra data, two trailing bytes"""
    when, dst, supports = device_time(in_bytes[:6])
    return app.ReadTimeResponse(
        time=when,
        data_access_result=in_bytes[6:7],
        is_dst=dst,
        device_supports_dst=supports,
        extra_data=in_bytes[7 : max(7, len(in_bytes) - 2)],
    )


@contract("elgas.application.ReadTimeResponse.from_bytes", "C13", name="time response", use=False, cls=Const(app.ReadTimeResponse), in_bytes=Sampled(Bytes(), _after_time(0, 12)))
def read_time_response(cls, in_bytes):
    if len(in_bytes) < 6 or not outcome(device_time, in_bytes[:6]).ok:
        raise Reject()
    if len(in_bytes) < 9:
        # access result and the trailing two bytes cannot all be there
        raise Unspecified()
    return time_response(in_bytes)


@contract("elgas.application.ReadTimeResponse.from_bytes", cls=Const(app.ReadTimeResponse), in_bytes=Sampled(Bytes(), _after_time(0, 12)))
def read_time_response_exact(cls, in_bytes):
    return time_response(in_bytes)


@contract("elgas.application.ReadInstantaneousValuesResponse.from_bytes", "C13", name="instantaneous values response", use=False, cls=Const(app.ReadInstantaneousValuesResponse), in_bytes=Sampled(Bytes(), _after_time(0, 60)))
def values_response(cls, in_bytes):
    n = len(in_bytes)
    if n < 6 or not outcome(device_time, in_bytes[:6]).ok:
        raise Reject()
    if n < 7:
        raise Reject()
    if n < 25:
        raise Unspecified()
    when, dst, supports = device_time(in_bytes[:6])
    return app.ReadInstantaneousValuesResponse(
        current_time=when,
        is_dst=dst,
        supports_dst=supports,
        data=in_bytes[6 : n - 19],
        data_access=in_bytes[n - 19],
        status=in_bytes[n - 18 : n - 10],
        summary_status=in_bytes[n - 10 : n - 2],
        parameter_crc=in_bytes[n - 2 :],
    )


def parameters_payload(in_bytes):
    return app.ReadDeviceParametersResponse(
        object_number=in_bytes[0] + 256 * in_bytes[1],
        object_amount=in_bytes[2] + 256 * in_bytes[3],
        is_end=in_bytes[4] != 0,
        data=in_bytes[5:],
    )


@contract("elgas.application.ReadDeviceParametersResponse.from_bytes", "C13", name="parameters response", use=False, cls=Const(app.ReadDeviceParametersResponse), in_bytes=Bytes())
def parameters_response(cls, in_bytes):
    if len(in_bytes) < 5:
        raise Reject()
    return parameters_payload(in_bytes)


@contract("elgas.application.ReadDeviceParametersResponse.from_bytes", cls=Const(app.ReadDeviceParametersResponse), in_bytes=Bytes())
def parameters_response_exact(cls, in_bytes):
    if len(in_bytes) < 5:
        raise IndexError()
    return parameters_payload(in_bytes)


def archive_payload(cls, in_bytes):
    if len(in_bytes) < 5:
        raise ValueError()
    return cls(
        archive=constants.Archive(in_bytes[0]),
        oldest_record_id=in_bytes[1] + 256 * in_bytes[2] + 65536 * in_bytes[3] + 16777216 * in_bytes[4],
        data=in_bytes[5:],
    )


def _archive_bytes(rng):
    return bytes([rng.choice([0, 1, 3, 5, 9, 10, 10, 11, 255])]) + sample_bytes(rng, 0, 30) if rng.random() < 0.95 else b""


def archive_contract(cls):
    @contract("elgas.application.%s.from_bytes" % cls.__name__, "C13", name="%s of a payload" % cls.__name__, use=False, cls=Const(cls), in_bytes=Sampled(Bytes(), _archive_bytes))
    def archive_response(cls, in_bytes):
        r = outcome(archive_payload, cls, in_bytes)
        if not r.ok:
            raise Reject()
        return r.value

    @contract("elgas.application.%s.from_bytes" % cls.__name__, cls=Const(cls), in_bytes=Sampled(Bytes(), _archive_bytes))
    def archive_response_exact(cls, in_bytes):
        return archive_payload(cls, in_bytes)


archive_contract(app.ReadArchiveResponse)
archive_contract(app.ReadArchiveByTimeResponse)


@contract("elgas.application.WriteTimeResponse.from_bytes", "C13", cls=Const(app.WriteTimeResponse), in_bytes=Bytes())
def write_time_response(cls, in_bytes):
    return app.WriteTimeResponse()


# ---------------------------------------------------------------- call registration
CALL_LENGTH = 141


def since_2000(data):
    return datetime(2000, 1, 1) + timedelta(seconds=int.from_bytes(data, "little"))


def call_fields(d):
    return app.CallRequest(
        version=d[2],
        guid=d[3:19],
        station_id=clean_text(d[19:36]),
        sim_card_id=str(bcd_number(d[36:46])),
        modem_id=str(bcd_number(d[46:54])),
        protocol=constants.Protocol(d[54]),
        address_1=d[55] + 256 * d[56],
        address_2=d[57],
        signal_strength=d[58],
        connections=int.from_bytes(d[59:63], "little"),
        last_connection_time=since_2000(d[63:67]),
        connection_errors=int.from_bytes(d[67:71], "little"),
        last_connection_error_time=since_2000(d[71:75]),
        resets=int.from_bytes(d[75:79], "little"),
        last_reset_time=since_2000(d[79:83]),
        tcp_data=int.from_bytes(d[83:87], "little"),
        all_data=int.from_bytes(d[87:91], "little"),
        serial_number=str(int.from_bytes(d[91:95], "little")),
        ip_address=dotted(d[95:99]),
        last_modem_error_time=since_2000(d[99:103]),
        last_modem_error=d[103],
        modem_battery_capacity=d[104] + 256 * d[105],
        modem_battery_voltage=d[106] + 256 * d[107],
        firmware_version=clean_text(d[108:141]),
    )


def _call(rng):
    def digits(n):
        return bytes(bcd(rng.randrange(100)) if rng.random() < 0.8 else 0 for _ in range(n))

    def text(n):
        return (_texty(rng) + _texty(rng) + bytes(n))[:n]

    d = bytearray(sample_bytes(rng, 2, 2) + bytes([2]) + sample_bytes(rng, 16, 16) + text(17) + digits(10) + digits(8) + bytes([rng.choice([0, 0, 1, 2, 3])]) + sample_bytes(rng, 53, 53) + text(33))
    k = rng.random()
    if k < 0.1:
        d[rng.randrange(36, 55)] = rng.randrange(256)
    elif k < 0.25:
        del d[rng.randrange(len(d)) :]
    elif k < 0.4:
        d += sample_bytes(rng, 1, 9)
    return bytes(d)


@contract("elgas.application.CallRequest.from_bytes", "C14", cls=Const(app.CallRequest), in_bytes=Sampled(Bytes(), _call))
def call_request(cls, in_bytes):
    if len(in_bytes) < CALL_LENGTH:
        raise Reject()
    r = outcome(call_fields, in_bytes)
    if not r.ok:
        raise Reject()
    return r.value
