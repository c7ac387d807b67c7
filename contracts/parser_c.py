"""The parameter stream parser (C16)."""
from elgas import parser
from elgas.parameters.enumerations import ParameterObjectType
from elgas.parameters.factory import ParameterFactory

from contracts.params_c import NUMBERS
from dv.vlib import *

OWN_NUMBER = {cls: number for number, cls in NUMBERS.items()}
KNOWN = sorted(int(t) for t in ParameterObjectType if t < 256)
DECODERS = {int(t): cls for t, cls in ParameterFactory.object_map.items()}


def decoded_object(number, body):
    """Stand-in for the decoder of a type: some object for the body, or an error."""
    if len(body) > 0:
        if body[0] == 0xE0:
            raise ValueError()
        if body[0] == 0xE1:
            raise IndexError()
        if body[0] == 0xE2:
            raise AssertionError()
        if body[0] == 0xE3:
            raise KeyError()
    return term("object", number, bytes(body))


def stand_in(number):
    def from_bytes(in_data):
        return decoded_object(number, in_data)

    return from_bytes


STAND_INS = [(cls, stand_in(OWN_NUMBER.get(cls, int(cls.object_type)))) for cls in dict.fromkeys(DECODERS.values())]


def use_stand_ins(*args):
    for cls, decoder in STAND_INS:
        patch(cls, "from_bytes", decoder)


def _stream(rng):
    out = bytearray()
    many = rng.random()
    if many < 0.02:
        body = bytes(rng.choice([0, 1, 10]))
        return ((len(body) + 3).to_bytes(2, "little") + bytes([rng.choice(KNOWN)]) + body) * rng.choice([256, 1200, 3000])
    for _ in range(rng.choice([0, 1, 1, 2, 3, 5])):
        size = rng.choice([3, 4, 5, 7, 13, 16, 255, 256, 259, 512])
        body = (bytes([rng.choice([0, 1, 2, 0x20, 0xFF])]) + rng.randbytes(size))[: max(0, size - 3)]
        if rng.random() < 0.05:
            body = bytes([rng.randrange(0xE0, 0xE4)]) + body
        kind = rng.choice(KNOWN) if rng.random() < 0.95 else rng.randrange(256)
        out += (len(body) + 3).to_bytes(2, "little") + bytes([kind]) + body
    if rng.random() < 0.1:
        out += bytes(rng.choice([0, 4, 13]) for _ in range(rng.choice([1, 2])))
    return bytes(out)


Stream = Sampled(Bytes(), _stream)


def stream_contract(name, own, given):
    @contract("elgas.parser.ScadaParameterParser.parse", "C16", name=name, setup=use_stand_ins, use=False, self=Obj(parser.ScadaParameterParser, data=own), data=given)
    def parse(self, data):
        stream = self.data if data is None else data
        if len(stream) == 0:
            raise ValueError()
        out = []
        i = 0
        while i < len(stream):
            loopvar(i=UInt(), out=Listing())
            invariant(i <= len(stream))
            ghosts(rest=stream[i:], left=len(stream) - i)
            decreases(len(stream) - i)
            if len(stream) - i < 3:
                raise Reject()
            size = stream[i] + 256 * stream[i + 1]
            if size < 3 or size > len(stream) - i:
                raise Unspecified()
            number = stream[i + 2]
            if number not in KNOWN:
                raise Reject()
            r = outcome(decoded_object, number, stream[i + 3 : i + size])
            if not r.ok:
                raise Reject()
            out.append(r.value)
            i = i + size
        return out


stream_contract("parsing of a given stream", Const(None), Stream)
stream_contract("parsing of the stream the parser was made with", Stream, Const(None))
