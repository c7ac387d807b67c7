"""Contracts of elgas.utils."""
import elgas.utils as utils

from dv.vlib import *


# ---------------------------------------------------------------- C03 / C04 redundancy
@contract("elgas.utils.calculate_lrc", "C03", data=ByteArray())
def calculate_lrc(data):
    lrc = 0
    i = 0
    while i < len(data):
        loopvar(i=UInt(), lrc=Byte)
        invariant(i <= len(data))
        invariant(lrc == fold_xor(data[:i]))
        ghosts(rest=data[i:], done=data[:i], left=len(data) - i)
        decreases(len(data) - i)
        lrc = lrc ^ data[i]
        i = i + 1
    return lrc


@calculate_lrc.summary
def _(data):
    return fold_xor(data)


@contract("elgas.utils.calculate_checksum", "C03", data=ByteArray())
def calculate_checksum(data):
    total = 0
    i = 0
    while i < len(data):
        loopvar(i=UInt(), total=Byte)
        invariant(i <= len(data))
        invariant(total == fold_sum(data[:i]))
        ghosts(rest=data[i:], done=data[:i], left=len(data) - i)
        decreases(len(data) - i)
        total = (total + data[i]) % 256
        i = i + 1
    return total


@calculate_checksum.summary
def _(data):
    return fold_sum(data)


@contract("elgas.utils.calculate_drc", "C03", fold_defs=True, data=ByteArray())
def calculate_drc(data):
    drc = 0
    i = 0
    while i < len(data):
        loopvar(i=UInt(), drc=Byte)
        invariant(i <= len(data))
        invariant(drc == fold_drc(data[:i]))
        ghosts(rest=data[i:], done=data[:i], left=len(data) - i)
        decreases(len(data) - i)
        drc = (((drc << 1) & 0xFF) | (drc >> 7)) ^ data[i]
        i = i + 1
    return drc


@calculate_drc.summary
def _(data):
    return fold_drc(data)


def crc_step(crc, byte):
    """one byte of the reflected CRC-16 with polynomial 0xA001, bit by bit"""
    crc = crc ^ byte
    for _ in range(8):
        crc = (crc >> 1) ^ (0xA001 * (crc & 1))
    return crc


@contract("elgas.utils.calculate_crc", "C04", fold_defs=True, data=ByteArray())
def calculate_crc(data):
    crc = 0xFFFF
    i = 0
    while i < len(data):
        loopvar(i=UInt(), crc=U16)
        invariant(i <= len(data))
        invariant(crc == fold_crc(data[:i]))
        ghosts(rest=data[i:], done=data[:i], left=len(data) - i, high=crc >> 8, low=crc & 0xFF)
        decreases(len(data) - i)
        crc = crc_step(crc, data[i])
        i = i + 1
    return (crc & 0xFF) * 256 + (crc >> 8)


@calculate_crc.summary
def _(data):
    crc = fold_crc(data)
    return (crc & 0xFF) * 256 + (crc >> 8)
