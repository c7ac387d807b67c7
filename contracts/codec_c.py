"""Contracts of the value codecs (C11, C27) and of pop_many."""
from datetime import datetime

import elgas.utils as utils

from dv.vlib import *


# ---------------------------------------------------------------- BCD and times
def bcd(n):
    return n // 10 * 16 + n % 10


def unbcd(b):
    """value of one BCD byte"""
    if b // 16 > 9 or b % 16 > 9:
        raise ValueError()
    return b // 16 * 10 + b % 16


@contract("elgas.utils.to_bdc", "C11", number=UInt(0, 99))
def to_bdc(number):
    return bytes([bcd(number)])


def bcd_number(data):
    """number of some BCD bytes, most significant first"""
    total = 0
    bad = False
    for b in data:
        bad = bad | (b // 16 > 9) | (b % 16 > 9)
        total = (total * 10 + b // 16) * 10 + b % 16
    if bad:
        raise ValueError()
    return total


@contract("elgas.utils.from_bcd", "C11", data=Bytes(1))
def from_bcd(data):
    return unbcd(data[0])


def _digits(n):
    def gen(rng):
        b = bytearray(bcd(rng.randrange(100)) if rng.random() < 0.8 else 0 for _ in range(n))
        if rng.random() < 0.4:
            b[rng.randrange(n)] = rng.randrange(256)
        return b

    return gen


@contract("elgas.utils.from_bcd", "C14", name="elgas.utils.from_bcd of 8 bytes", data=Sampled(ByteArray(8), _digits(8)))
def from_bcd_8(data):
    return bcd_number(data)


@contract("elgas.utils.from_bcd", "C14", name="elgas.utils.from_bcd of 10 bytes", data=Sampled(ByteArray(10), _digits(10)))
def from_bcd_10(data):
    return bcd_number(data)


@contract("elgas.utils.datetime_to_bytes", "C11 C12", timestamp=DateTime(1, 9999, micro=True, aware=True))
def datetime_to_bytes(timestamp):
    if not 2000 <= timestamp.year <= 2099:
        raise ValueError()
    return bytes([bcd(timestamp.second), bcd(timestamp.minute), bcd(timestamp.hour), bcd(timestamp.day), bcd(timestamp.month), bcd(timestamp.year - 2000)])


def _time_bytes(rng):
    if rng.random() < 0.15:
        return sample_bytes(rng, 0, 9)
    d = DateTime().sample(rng)
    b = bytearray([bcd(d.second), bcd(d.minute), bcd(d.hour) | rng.choice([0, 0x40, 0x80, 0xC0]), bcd(d.day), bcd(d.month), bcd(d.year - 2000)])
    if rng.random() < 0.4:
        b[rng.randrange(6)] = rng.choice([0, 0x10, 0x24, 0x60, 0x29, 0x30, 0x31, 0x32, 0x13, 0x12, 0x99, 0x1A, 0xA1, 0xFF, rng.randrange(256)])
    return bytes(b)


TimeBytes = Sampled(Bytes(), _time_bytes)


def device_time(data):
    """time, DST flag and DST-supported flag of six bytes"""
    if len(data) != 6:
        raise ValueError()
    second, minute, hour = unbcd(data[0]), unbcd(data[1]), unbcd(data[2] & 0x3F)
    day, month, year = unbcd(data[3]), unbcd(data[4]), unbcd(data[5])
    return (datetime(2000 + year, month, day, hour, minute, second), data[2] >= 0x80, data[2] % 0x80 >= 0x40)


@contract("elgas.utils.bytes_to_datetime", "C11", data=TimeBytes)
def bytes_to_datetime(data):
    return device_time(data)


@harness("C11", when=DateTime(2000, 2099))
def time_survives_encoding(when):
    check_eq(utils.bytes_to_datetime(utils.datetime_to_bytes(when)), (when, False, False), "decoded time")


# ---------------------------------------------------------------- popping bytes
@contract("elgas.utils.pop_many", "C14 C16", array=ByteArray(), amount=Sampled(Int(), lambda rng: rng.choice([0, 1, 2, 2, 3, 4, 8, 10, 16, 17, 33, 200])))
def pop_many(array, amount):
    if amount < 2:
        raise ValueError()
    data = bytes(array)
    i = 0
    while i < amount:
        loopvar(i=UInt())
        invariant(i <= amount and i <= len(data))
        ghosts(rest=data[i:], done=data[:i], left=amount - i)
        decreases(amount - i)
        if i >= len(data):
            raise IndexError()
        i = i + 1
    array[:] = data[amount:]
    return bytearray(data[:amount])


@pop_many.summary
def _(array, amount):
    if amount < 2:
        raise ValueError()
    if len(array) < amount:
        raise IndexError()
    out = bytearray(array[:amount])
    del array[:amount]
    return out


# ---------------------------------------------------------------- texts and addresses
@opaque(str)
def clean_text(data):
    """text before the last NUL, other NULs as spaces, stripped, Latin-1"""
    end = last_index(data, 0)
    if end < 0:
        end = len(data)
    return bytemap(data[:end], "nul_to_space").strip(b" \t\n\r\x0b\x0c").decode("latin-1")


def _texty(rng):
    n = rng.randrange(20)
    return bytes(rng.choice([0, 0x20, 0x09, 0x0A, 0x0B, 0x1C, 0x1F, 0x85, 0xA0, 0x41, 0x42, 0xE9, 0xFF, rng.randrange(256)]) for _ in range(n))


@contract("elgas.utils.pretty_text", "C27", in_data=Sampled(Bytes(), _texty))
def pretty_text(in_data):
    return clean_text(in_data)


def dotted(data):
    if len(data) != 4:
        raise ValueError()
    return str(data[0]) + "." + str(data[1]) + "." + str(data[2]) + "." + str(data[3])


@contract("elgas.utils.parse_ip_address", "C27", data=Sampled(Bytes(), lambda rng: sample_bytes(rng, *rng.choice([(4, 4), (4, 4), (0, 6)]))))
def parse_ip_address(data):
    return dotted(data)
