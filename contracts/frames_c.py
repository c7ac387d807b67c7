"""Contracts of the frames (C05, C06, C07)."""
from elgas import frames
from elgas.constants import ServiceNumber

from dv.vlib import *

KINDS = {
    "Request": 0x84,
    "EncryptedRequest": 0x85,
    "Response": 0x86,
    "EncryptedResponse": 0x87,
}


def _u16(rng):
    return rng.choice([0, 1, 10, 255, 256, 4660, 65535, rng.randrange(65536)]) if rng.random() < 0.95 else rng.choice([-1, 65536, 70000])


def _u8(rng):
    return rng.choice([0, 1, 10, 255, rng.randrange(256)]) if rng.random() < 0.95 else rng.choice([-1, 256, 70000])


Wide2 = Sampled(Int(), _u16)
Wide1 = Sampled(Int(), _u8)


def any_frame(cls):
    return Obj(cls, service=Enum(ServiceNumber), destination_address_1=Wide2, destination_address_2=Wide1, source_address_1=Wide2, source_address_2=Wide1, data=Bytes())


def valid_frame(cls):
    return Obj(cls, service=Enum(ServiceNumber), destination_address_1=U16, destination_address_2=Byte, source_address_1=U16, source_address_2=Byte, data=Bytes(hi=65520))


def frame_bytes(type_byte, service, d1, d2, s1, s2, data):
    """the documented layout"""
    if not (0 <= d1 <= 0xFFFF and 0 <= s1 <= 0xFFFF and 0 <= d2 <= 0xFF and 0 <= s2 <= 0xFF):
        raise Reject()
    if len(data) + 15 > 0xFFFF:
        raise Reject()
    covered = bytes([0xFE, type_byte, service])
    covered = covered + (len(data) + 15).to_bytes(2, "little")
    covered = covered + d1.to_bytes(2, "little") + bytes([d2])
    covered = covered + s1.to_bytes(2, "little") + bytes([s2])
    covered = covered + data
    return b"\x02" + covered + bytes([fold_xor(covered), fold_sum(covered), fold_drc(covered)]) + b"\r"


def parsed_frame(cls, type_byte, in_bytes):
    """the fields of a well-formed frame of the kind"""
    n = len(in_bytes)
    if n < 16:
        raise ValueError()
    if in_bytes[0] != 0x02 or in_bytes[1] != 0xFE or in_bytes[2] != type_byte or in_bytes[n - 1] != 0x0D:
        raise ValueError()
    service = ServiceNumber(in_bytes[3])
    if in_bytes[4] + 256 * in_bytes[5] != n - 1:
        raise ValueError()
    covered = in_bytes[1 : n - 4]
    if in_bytes[n - 4] != fold_xor(covered) or in_bytes[n - 3] != fold_sum(covered) or in_bytes[n - 2] != fold_drc(covered):
        raise ValueError()
    return cls(
        service=service,
        destination_address_1=in_bytes[6] + 256 * in_bytes[7],
        destination_address_2=in_bytes[8],
        source_address_1=in_bytes[9] + 256 * in_bytes[10],
        source_address_2=in_bytes[11],
        data=in_bytes[12 : n - 4],
    )


def sample_frame(rng):
    """mostly well-formed frames, damaged in several ways"""
    import random

    kind = rng.choice(list(KINDS))
    f = valid_frame(getattr(frames, kind)).sample(rng)
    if len(f.data) > 2000 and rng.random() < 0.9:
        f.data = f.data[:20]
    t = KINDS[kind]
    b = bytearray(frame_bytes(t, f.service, f.destination_address_1, f.destination_address_2, f.source_address_1, f.source_address_2, f.data))
    for _ in range(rng.choice([0, 0, 0, 0, 1, 1, 2])):
        k = rng.random()
        if k < 0.3:
            b[rng.randrange(len(b))] = rng.randrange(256)
        elif k < 0.5:
            b[rng.choice([0, 1, 2, 3, 4, 5, -1, -2, -3, -4])] = rng.choice(SPECIAL)
        elif k < 0.7:
            del b[rng.randrange(len(b)) :]
        elif k < 0.8:
            b += sample_bytes(rng, 0, 5)
        elif k < 0.9 and len(b) > 16:
            # swap two bytes: LRC and checksum stay right
            i, j = rng.randrange(1, len(b) - 4), rng.randrange(1, len(b) - 4)
            b[i], b[j] = b[j], b[i]
        if not b:
            break
        if rng.random() < 0.6 and len(b) >= 16:
            # make the redundancy bytes right again (or all but one of them)
            c = bytes(b[1:-4])
            r = [fold_xor(c), fold_sum(c), fold_drc(c)]
            keep = rng.randrange(5)
            for j in range(3):
                if j != keep:
                    b[-4 + j] = r[j]
    return bytes(b)


FrameBytes = Sampled(Bytes(), sample_frame)


def to_bytes_contract(kind):
    @contract("elgas.frames.%s.to_bytes" % kind, "C05", mutable=True, self=any_frame(getattr(frames, kind)))
    def to_bytes(self):
        return frame_bytes(KINDS[kind], self.service, self.destination_address_1, self.destination_address_2, self.source_address_1, self.source_address_2, self.data)


def from_bytes_contract(kind):
    @contract("elgas.frames.%s.from_bytes" % kind, "C06", cls=Const(getattr(frames, kind)), in_bytes=FrameBytes)
    def from_bytes(cls, in_bytes):
        return parsed_frame(cls, KINDS[kind], in_bytes)


for _kind in KINDS:
    to_bytes_contract(_kind)
    from_bytes_contract(_kind)


@contract("elgas.frames.ResponseFactory.from_bytes", "C06", in_data=FrameBytes)
def response_factory(in_data):
    if len(in_data) >= 3 and in_data[2] == 0x86:
        return parsed_frame(frames.Response, 0x86, in_data)
    if len(in_data) >= 3 and in_data[2] == 0x87:
        return parsed_frame(frames.EncryptedResponse, 0x87, in_data)
    raise ValueError()


CLASSES = [getattr(frames, k) for k in KINDS]


NUMBERS = [
    ("READ_VALUES", 0x64), ("WRITE_VALUES", 0x65), ("SEARCH_ARCHIVE_POINTERS_OLD", 0x67), ("SEARCH_ARCHIVE_POINTERS", 0x7B),
    ("READ_ARCHIVES_OLD", 0x68), ("READ_ARCHIVES", 0x7C), ("READ_DEVICE_TIME", 0x6C), ("READ_SCADA_PARAMETERS", 0x70),
    ("WRITE_DEVICE_TIME", 0x71), ("GROUP_WRITE_VALUES", 0x77), ("GROUP_READ_VALUES", 0x79), ("CALL", 0x87),
    ("READ_ARCHIVES_BY_DATE_OLD", 0x91), ("READ_ARCHIVES_BY_DATE", 0x7D),
]  # fmt: skip


@harness("C06", cases=NUMBERS, d1=U16, d2=Byte, s1=U16, s2=Byte, data=Bytes(hi=65520))
def service_in_a_frame(service, d1, d2, s1, s2, data):
    name, number = service
    for kind, cls in ((0x84, frames.Request), (0x85, frames.EncryptedRequest), (0x86, frames.Response), (0x87, frames.EncryptedResponse)):
        frame = cls.from_bytes(frame_bytes(kind, number, d1, d2, s1, s2, data))
        check(frame.service == getattr(ServiceNumber, name), "service %s" % name)


def make_frame(cls, service, d1, d2, s1, s2, data):
    return cls(service=service, destination_address_1=d1, destination_address_2=d2, source_address_1=s1, source_address_2=s2, data=data)


@harness("C06", cases=CLASSES, service=Enum(ServiceNumber), d1=U16, d2=Byte, s1=U16, s2=Byte, data=Bytes(hi=65520))
def decoding_reverses_encoding(cls, service, d1, d2, s1, s2, data):
    f = make_frame(cls, service, d1, d2, s1, s2, data)
    check_eq(cls.from_bytes(f.to_bytes()), f, "decoded frame")


@harness("C07", cases=CLASSES, service=Enum(ServiceNumber), d1=U16, d2=Byte, s1=U16, s2=Byte, data=Bytes(hi=65520), position=Sampled(UInt(), lambda rng: rng.choice([rng.randrange(20), rng.randrange(60), rng.randrange(65536)])), value=Byte)
def single_byte_change_is_refused(cls, service, d1, d2, s1, s2, data, position, value):
    b = make_frame(cls, service, d1, d2, s1, s2, data).to_bytes()
    require(position < len(b))
    require(b[position] != value)
    damaged = b[:position] + bytes([value]) + b[position + 1 :]
    check(outcome(cls.from_bytes, damaged).raised(ValueError), "damaged frame is refused as frame of its kind")
    check(outcome(frames.ResponseFactory.from_bytes, damaged).raised(ValueError), "damaged frame is refused as response")
