"""Contracts of the escaping of telegrams (C01, C02)."""
import elgas.utils as utils

from dv.vlib import *


def escaped(body):
    """escaped form of body + 0D"""
    return bytemap(body, "escape") + b"\r"


@contract("elgas.utils.escape_characters", "C01", data=Bytes())
def escape_characters(data):
    if len(data) == 0 or data[len(data) - 1] != 0x0D:
        raise ValueError()
    return escaped(data[: len(data) - 1])


@harness("C01", body=Bytes())
def escaped_form_hides_end_character(body):
    e = utils.escape_characters(body + b"\r")
    check(e[len(e) - 1] == 0x0D, "ends with the end character")
    check(not has_byte(e[: len(e) - 1], 0x0D), "0D occurs only at the end")
    check(not has_byte(e, 0x8D), "8D does not occur")


@contract("elgas.utils.return_characters", "C02", data=Bytes())
def return_characters(data):
    out = bytearray()
    i = 0
    while i < len(data):
        loopvar(i=UInt(), out=ByteArray())
        invariant(i <= len(data))
        ghosts(rest=data[i:], done=data[:i], left=len(data) - i)
        decreases(len(data) - i)
        if data[i] != 0x1B:
            out.append(data[i])
            i = i + 1
        else:
            if i + 1 >= len(data):
                check(data[len(data) - 1] == 0x1B, "only an escape character at the end has no successor")
                raise IndexError()
            b = data[i + 1]
            if b == 0x1B:
                out.append(0x1B)
            elif b == 0x0E:
                out.append(0x0D)
            elif b == 0x0F:
                out.append(0x8D)
            else:
                out.append(0x1B)
                out.append(b)
            i = i + 2
    return bytes(out)


@return_characters.logic
def _(data):
    return unescape(data)


def escaped_tail(body, i):
    """what is left of the escaped form after the first i bytes of body + 0D"""
    if i > len(body):
        return b""
    if i == len(body):
        return b"\r"
    b = body[i]
    if b == 0x1B:
        head = b"\x1b\x1b"
    elif b == 0x0D:
        head = b"\x1b\x0e"
    elif b == 0x8D:
        head = b"\x1b\x0f"
    else:
        head = bytes([b])
    return head + bytemap(body[i + 1 :], "escape") + b"\r"


def unescape_escaped(body):
    return utils.return_characters(escaped(body))


@contract(unescape_escaped, "C01", name="lemma unescape(escape(body + 0D)) = body + 0D", inline=("elgas.utils.return_characters",), body=Bytes())
def unescape_of_escaped(body):
    i = 0
    while i < len(body) + 1:
        loopvar(i=UInt())
        invariant(i <= len(body) + 1)
        ghosts(rest=escaped_tail(body, i), out=(body + b"\r")[:i], position=len(escaped(body)) - len(escaped_tail(body, i)))
        decreases(len(body) + 1 - i)
        i = i + 1
    return body + b"\r"


@unescape_of_escaped.summary
def _(body):
    return body + b"\r"


@harness("C01", data=Bytes())
def unescaping_reverses_escaping(data):
    require(len(data) > 0 and data[len(data) - 1] == 0x0D)
    body = data[: len(data) - 1]
    check_eq(utils.escape_characters(data), escaped(body), "escape(data)")
    check_eq(unescape_escaped(body), data, "unescape(escape(data))")
