"""Contracts of the transports (C25, C28) over stand-ins for sockets and serial ports, and of
the timeout (C29)."""
import socket
import time

import serial

from elgas import exceptions, transport

from dv.vlib import *

CR = b"\r"
LIMIT = 7
def numbered():
    """an error with its number, as the system raises them"""
    return OSError(9, "Bad file descriptor")


def numbered_serial():
    return serial.SerialException(5, "Input/output error")


SOCKET_ERRORS = [numbered, OSError, socket.timeout, ConnectionRefusedError, ConnectionResetError, BrokenPipeError, socket.gaierror]
SERIAL_ERRORS = [numbered_serial, OSError, serial.SerialException, serial.SerialTimeoutException, PermissionError]


# times are real numbers (rounding errors are ignored); native runs use values that are exact
# in binary
PARTS = [0, 1 / 4096, 1 / 64, 0.25, 0.5, 4095 / 4096]


def _part(rng):
    return rng.choice(PARTS) if rng.random() < 0.4 else 0


Instant = Sampled(Real(), lambda rng: rng.choice([0, 5, 1000.5, -3, 0.25, 86400 * 400 + 0.125]) + _part(rng))
Duration = OneOf(Sampled(UInt(0), lambda rng: rng.choice([0, 0, 1, 2, 10, 100, 86400 * 30])), Sampled(Real(0), lambda rng: rng.choice([0.0, 1, 2, 0.5, 10, 1.75, 100, 86400]) + _part(rng)))
Passing = Sampled(Real(0), lambda rng: rng.choice([0, 0, 1, 2, 0.25, 0.5, 1.5, 5, 9.75, 10, 11, 99, 100, 101, 86400]) + _part(rng))


Part = Sampled(UInt(1), lambda rng: rng.choice([1, 1, 2, 5, 100]))
# time that passes while a part is awaited
Awaiting = Sampled(Real(0), lambda rng: 0 if rng.random() < 0.85 else rng.choice([1 / 64, 0.25, 1, 2, LIMIT / 2, LIMIT - 0.25, LIMIT, LIMIT + 1, 60, 1000]))
RealSocket, RealPort = socket.socket, serial.Serial


# names of functions of the system within the transport module (from socket import ...)
OTHER_NAMES = {(m, n): [k for k, v in vars(transport).items() if v is getattr(m, n)] for m, n in [(time, "monotonic"), (time, "perf_counter"), (time, "time"), (time, "sleep"), (socket, "create_connection"), (socket, "socket"), (serial, "Serial")]}


def in_place_of(module, name, value):
    for other in OTHER_NAMES[module, name]:
        patch(transport, other, value)
    patch(module, name, value)


class StandIn:
    """What a program may use of a socket or port that is not modelled here ends the proof, and
    the native run."""

    def __getattr__(self, name):
        if name.startswith("_") or not (hasattr(RealSocket, name) or hasattr(RealPort, name)):
            raise AttributeError(name)
        beyond_proof("%s of a socket or port" % name)
        require(False)

    def settimeout(self, seconds):
        pass

    def setblocking(self, flag):
        pass

    def recv_into(self, buffer, amount=0, flags=0):
        data = self.recv(amount or len(buffer), *[flags] if flags else [])
        buffer[: len(data)] = data
        return len(data)

    def connect(self, address):
        pass

    def open(self):
        pass

    def setsockopt(self, *args):
        pass

    def fileno(self):
        return 3


class Peer(StandIn):
    """What the other end sends, what can go wrong, and how the time passes meanwhile."""

    def __init__(self, stream, ending):
        self.stream = stream
        self.ending = ending  # error after the stream, or None if the peer ending it
        self.position = 0
        self.now = 0

    def take(self, amount):
        check(amount >= 1, "something is asked for")
        if self.position == len(self.stream):
            if self.ending is None:
                return b""
            raise self.ending()
        return self.next_part(amount)

    def next_part(self, amount):
        at = self.position
        n = self.available()
        if n > amount:
            n = amount
        self.position = at + n
        self.now = self.now + nondet("time passes", Awaiting, at)
        return self.stream[at : at + n]

    def available(self):
        n = nondet("part", Part, self.position)
        if n > len(self.stream) - self.position:
            n = len(self.stream) - self.position
        return n

    def time(self):
        return self.now


class Socket(Peer):
    def recv(self, amount, flags=0):
        if flags == socket.MSG_PEEK:
            position, now = self.position, self.now
            data = self.take(amount)
            self.position, self.now = position, now
            return data
        if flags == socket.MSG_WAITALL:
            beyond_proof("waiting for all bytes")
            data = self.take(amount)
            while len(data) < amount and self.position < len(self.stream):
                data = data + self.take(amount - len(data))
            return data
        return self.take(amount)


class Port(Peer):
    is_open = True

    def read(self, amount=1):
        return self.take(amount)

    @property
    def in_waiting(self):
        return self.available()

    def inWaiting(self):
        return self.available()

    def read_until(self, expected=b"\n", size=None):
        beyond_proof("reading until the port has seen a terminator")
        line = b""
        while not line.endswith(expected) and (size is None or len(line) < size):
            byte = self.take(1)
            if not byte:
                break
            line = line + byte
        return line


class Deadline:
    """the time limit of an operation that starts now"""

    def __init__(self, peer, duration):
        self.peer = peer
        self.end = None if duration is None else peer.now + duration

    def expired(self):
        return self.end is not None and self.peer.now >= self.end


def watched_by(peer):
    """the clocks of the program show the time of the peer"""
    in_place_of(time, "monotonic", peer.time)
    in_place_of(time, "perf_counter", peer.time)
    in_place_of(time, "time", peer.time)


def _bytes_with_ends(rng):
    if rng.random() < 0.3:
        n = rng.choice([0, 1, 2, 9, 40, 100, 255, 256, 512])
        return rng.randbytes(n).replace(CR, b"\x01")[: max(0, n - 1)] + CR + rng.choice([b"", b"", CR, b"\x02\x03"])
    return bytes(rng.choice([13, 13, 1, 2, 27, 255, rng.randrange(256)]) if rng.random() < 0.2 else rng.randrange(256) for _ in range(rng.choice([0, 1, 2, 5, 20, 40])))


def connected_tcp(peer, limit=LIMIT):
    """a TCP transport connected to the peer"""
    in_place_of(socket, "create_connection", lambda *args, **options: peer)
    in_place_of(socket, "socket", lambda *args, **options: peer)
    watched_by(peer)
    t = transport.BlockingTcpTransport(host="localhost", port=1, timeout=limit)
    t.connect()
    return t


def connected_serial(peer, limit=LIMIT):
    in_place_of(serial, "Serial", lambda *args, **options: peer)
    watched_by(peer)
    t = transport.SerialTransport(port="/dev/null", baud_rate=9600, timeout=limit)
    t.connect()
    return t


Stream = Sampled(Bytes(), _bytes_with_ends)
Position = Sampled(UInt(0), lambda rng: rng.choice([0, 0, 1, 3]))
Size = Opt(Sampled(UInt(1), lambda rng: rng.choice([1, 2, 5, 100])))
Limits = Opt(OneOf(Const(LIMIT), Sampled(Real(0), lambda rng: rng.choice([LIMIT, 0.25, 1.5, 30.0]))))
Ends = OneOf(Sampled(Bytes(1), lambda rng: rng.choice([b"\r", b"\r", b"\x01"])), Sampled(Bytes(lo=2), lambda rng: rng.choice([b"\r\r", b"\x02\r", b"\r\r\r"])))


# ---------------------------------------------------------------- C25: reading a telegram
def tcp_read(stream, ending, position, limit):
    require(position <= len(stream))
    require(limit is None or limit > 0)
    peer = Socket(stream, ending)
    peer.position = position
    return connected_tcp(peer, limit).recv(), peer.position


def serial_read(stream, ending, position, limit):
    require(position <= len(stream))
    require(limit is None or limit > 0)
    peer = Port(stream, ending)
    peer.position = position
    return connected_serial(peer, limit).recv(), peer.position


def tcp_read_until(stream, ending, position, expected, size, limit):
    require(position <= len(stream))
    require(limit is None or limit > 0)
    peer = Socket(stream, ending)
    peer.position = position
    return connected_tcp(peer, limit).recv_until(expected, size), peer.position


def serial_read_until(stream, ending, position, expected, size, limit):
    require(position <= len(stream))
    require(limit is None or limit > 0)
    peer = Port(stream, ending)
    peer.position = position
    return connected_serial(peer, limit).recv_until(expected, size), peer.position


def reading(target, errors):
    @contract(target, "C25 C28", name=target.__name__, use=False, stream=Stream, ending=OneOf(None, *[Const(e) for e in errors]), position=Position, limit=Limits)
    def read(stream, ending, position, limit):
        require(position <= len(stream))
        require(limit is None or limit > 0)
        peer = Peer(stream, ending)
        peer.position = position
        deadline = Deadline(peer, limit)
        while True:
            loopobj(peer, position=UInt(0), now=Real(0))
            invariant(position <= peer.position and peer.position <= len(stream))
            invariant(not has_byte(stream[position : peer.position], 0x0D))
            ghosts(line=stream[position : peer.position])
            decreases(len(stream) - peer.position)
            if peer.position == len(stream):
                raise exceptions.CommunicationError()
            byte = peer.take(1)
            if byte == CR or deadline.expired():
                return stream[position : peer.position], peer.position


for _target, _errors in ((tcp_read, SOCKET_ERRORS), (serial_read, SERIAL_ERRORS)):
    reading(_target, _errors)


def ends_with(data, end):
    return len(data) >= len(end) and data[len(data) - len(end) :] == end


def _terminated(rng):
    """streams of few different bytes, and terminators made of them"""
    if rng.random() < 0.5:
        return {}
    letters = rng.choice([b"\r", b"\r\x01", b"\r\x01\x02"])
    text = lambda n: bytes(rng.choice(letters) for _ in range(n))
    return dict(stream=text(rng.choice([0, 3, 6, 12, 30])), expected=text(rng.choice([1, 1, 2, 3, 4])))


def reading_until(target, errors):
    @contract(target, "C25", name=target.__name__, use=False, gen=_terminated, stream=Stream, ending=OneOf(None, *[Const(e) for e in errors]), position=Position, expected=Ends, size=Size, limit=Limits)
    def read(stream, ending, position, expected, size, limit):
        require(position <= len(stream))
        require(limit is None or limit > 0)
        peer = Peer(stream, ending)
        peer.position = position
        deadline = Deadline(peer, limit)
        while True:
            loopobj(peer, position=UInt(0), now=Real(0))
            invariant(position <= peer.position and peer.position <= len(stream))
            ghosts(line=stream[position : peer.position])
            decreases(len(stream) - peer.position)
            if peer.position == len(stream):
                raise Reject()
            peer.take(1)
            if ends_with(stream[position : peer.position], expected) or size is not None and peer.position - position >= size or deadline.expired():
                return stream[position : peer.position], peer.position


for _target, _errors in ((tcp_read_until, SOCKET_ERRORS[:1]), (serial_read_until, SERIAL_ERRORS[:1])):
    reading_until(_target, _errors)


# ---------------------------------------------------------------- C25: reading a number of bytes
def tcp_bytes(stream, ending, position, amount):
    require(position <= len(stream))
    peer = Socket(stream, ending)
    peer.position = position
    t = connected_tcp(peer)
    require(hasattr(t, "_recv_bytes"))
    return t._recv_bytes(amount), peer.position


def serial_bytes(stream, ending, position, amount):
    require(position <= len(stream))
    peer = Port(stream, ending)
    peer.position = position
    t = connected_serial(peer)
    require(hasattr(t, "_recv_bytes"))
    return t._recv_bytes(amount), peer.position


Amount = Sampled(UInt(0), lambda rng: rng.choice([0, 1, 2, 3, 10]))


def reading_bytes(target, errors):
    @contract(target, "C25", name=target.__name__, use=False, stream=Stream, ending=OneOf(None, *[Const(e) for e in errors]), position=Position, amount=Amount)
    def read(stream, ending, position, amount):
        require(position <= len(stream))
        peer = Peer(stream, ending)
        peer.position = position
        while peer.position - position < amount:
            loopobj(peer, position=UInt(0), now=Real(0))
            invariant(position <= peer.position and peer.position <= len(stream) and peer.position - position <= amount)
            ghosts(data=stream[position : peer.position], left=position + amount - peer.position)
            decreases(position + amount - peer.position)
            if peer.position == len(stream):
                raise Reject()
            peer.take(position + amount - peer.position)
        return stream[position : peer.position], peer.position


for _target, _errors in ((tcp_bytes, SOCKET_ERRORS[:1]), (serial_bytes, SERIAL_ERRORS[:1])):
    reading_bytes(_target, _errors)


# ---------------------------------------------------------------- C32: a device that falls silent
class Silent(Peer):
    """Counts the time that is spent waiting for a device that sends nothing any more: the
    operating system ends every wait after the time limit given for the handle."""

    def start(self, stream, position):
        self.position = position
        self.limit = None
        self.limit_of_connecting = None
        self.waited = 0

    def wait(self):
        check(self.limit is not None, "a wait for the device is limited")
        self.sleep(self.limit)

    def sleep(self, seconds):
        self.waited = self.waited + seconds
        self.now = self.now + seconds


class SilentSocket(Silent):
    def opened(self, address, timeout=None, *more, **options):
        self.limit = timeout
        self.connect(address)
        return self

    def made(self, *args, **options):
        return self

    def connect(self, address):
        self.limit_of_connecting = self.limit

    def settimeout(self, seconds):
        self.limit = seconds

    def setblocking(self, flag):
        self.limit = None if flag else 0

    def gettimeout(self):
        return self.limit

    def recv(self, amount):
        check(amount >= 1, "something is asked for")
        if self.position == len(self.stream):
            self.wait()
            raise socket.timeout()
        return self.next_part(amount)


class SilentPort(Silent):
    is_open = True

    @property
    def in_waiting(self):
        return self.available()

    def opened(self, *args, **options):
        self.limit = options.get("timeout")
        self.limit_of_connecting = 0
        return self

    def made(self, *args, **options):
        return self

    @property
    def timeout(self):
        return self.limit

    @timeout.setter
    def timeout(self, seconds):
        self.limit = seconds

    def read(self, amount=1):
        check(amount >= 1, "something is asked for")
        if self.position + amount > len(self.stream):
            # waits for all that is asked for
            self.wait()
            data = self.stream[self.position :]
            self.position = len(self.stream)
            return data
        at = self.position
        self.position = at + amount
        self.now = self.now + nondet("time passes", Awaiting, at)
        return self.stream[at : at + amount]


def waits_for_a_silent_device(peer, make, stream, position, limit):
    require(position <= len(stream))
    peer.start(stream, position)
    in_place_of(socket, "create_connection", peer.opened)
    in_place_of(socket, "socket", peer.made)
    in_place_of(serial, "Serial", peer.opened)
    in_place_of(time, "sleep", peer.sleep)
    watched_by(peer)
    t = make(limit)
    t.connect()
    check(peer.limit is not None and peer.limit <= limit, "waiting is limited")
    check(peer.limit_of_connecting is not None and peer.limit_of_connecting <= limit, "connecting is limited")
    r = outcome(t.recv)
    check(peer.waited <= limit, "the wait for a silent device ends with the configured timeout")
    if r.ok:
        return r.value, peer.position
    check(r.raised(exceptions.CommunicationError), "a silent device is a communication error")
    return None, peer.position


def tcp_silence(stream, position, limit):
    return waits_for_a_silent_device(SilentSocket(stream, None), lambda limit: transport.BlockingTcpTransport(host="localhost", port=1, timeout=limit), stream, position, limit)


def serial_silence(stream, position, limit):
    return waits_for_a_silent_device(SilentPort(stream, None), lambda limit: transport.SerialTransport(port="/dev/null", baud_rate=9600, timeout=limit), stream, position, limit)


Limit = OneOf(Sampled(UInt(1), lambda rng: rng.choice([1, 2, 10, 60])), Sampled(Real(0), lambda rng: rng.choice([0.25, 1.5, 30.0])))


def silence(target):
    @contract(target, "C32", name=target.__name__, use=False, stream=Stream, position=Position, limit=Limit)
    def wait(stream, position, limit):
        require(position <= len(stream))
        peer = Peer(stream, None)
        peer.position = position
        deadline = Deadline(peer, limit)
        while True:
            loopobj(peer, position=UInt(0), now=Real(0))
            invariant(position <= peer.position and peer.position <= len(stream))
            invariant(not has_byte(stream[position : peer.position], 0x0D))
            ghosts(line=stream[position : peer.position])
            decreases(len(stream) - peer.position)
            if peer.position == len(stream):
                return None, peer.position
            byte = peer.take(1)
            if byte == CR or deadline.expired():
                return stream[position : peer.position], peer.position


for _target in (tcp_silence, serial_silence):
    silence(_target)


# ---------------------------------------------------------------- C28: histories of operations
Fails = Sampled(UInt(0, 11), lambda rng: rng.randrange(12))
Piece = Sampled(Bytes(lo=1), lambda rng: rng.randbytes(rng.randrange(1, 4)))


Taken = Sampled(UInt(1), lambda rng: rng.choice([1, 2, 100]))


class World:
    """The operating system: handles can be opened, and everything can fail."""

    def __init__(self, errors):
        self.errors = errors
        self.calls = 0
        self.opened = 0
        self.handle = None  # what the transport holds
        self.again = False

    def may_fail(self):
        """counts a call, which may fail with any error of the operating system"""
        self.calls = self.calls + 1
        k = nondet("failure", Fails, self.calls)
        for j in range(len(self.errors)):
            if k == j:
                self.failed = True
                raise self.errors[j]()

    def connected(self, *args, **options):
        """a socket that is connected"""
        handle = self.handle if self.again else Handle(self)
        handle.connect(args[0] if args else options.get("address"))
        return handle

    def unconnected(self, *args, **options):
        return self.handle if self.again else Handle(self)

    def port(self, port=None, *args, **options):
        """a port, open if it has a name"""
        handle = self.handle if self.again else Handle(self)
        if port is not None:
            handle.open()
        return handle


class Handle(StandIn):
    """A socket or serial port."""

    def __init__(self, world):
        self.world = world
        self.closed = False
        self.is_open = False
        self.sent = b""
        self.got = b""

    def use(self):
        check(not self.closed, "a closed handle is not used")
        self.world.may_fail()

    def open(self):
        if self.world.again:
            return
        self.world.opened = self.world.opened + 1
        self.world.may_fail()
        self.is_open = True
        self.world.handle = self

    def connect(self, address):
        self.open()

    def sendall(self, data):
        self.use()
        self.sent = self.sent + bytes(data)

    def send(self, data):
        # a socket may take less than what it is given
        self.use()
        n = nondet("taken", Taken, self.world.calls)
        if n > len(data):
            n = len(data)
        self.sent = self.sent + bytes(data)[:n]
        return n

    def write(self, data):
        self.use()
        self.sent = self.sent + bytes(data)
        return len(data)

    def flush(self):
        self.use()

    def receive(self, amount):
        check(amount >= 1, "something is asked for")
        self.use()
        data = nondet("received", OneOf(b"", b"\r"), self.world.calls)
        self.got = self.got + data
        return data

    def recv(self, amount):
        return self.receive(amount)

    def read(self, amount=1):
        return self.receive(amount)

    @property
    def in_waiting(self):
        self.use()
        return 1

    def shutdown(self, how):
        self.use()

    def close(self):
        self.closed = True
        self.is_open = False
        self.world.may_fail()


def tcp_in(world):
    in_place_of(socket, "create_connection", world.connected)
    in_place_of(socket, "socket", world.unconnected)
    return transport.BlockingTcpTransport(host="localhost", port=1)


def serial_in(world):
    in_place_of(serial, "Serial", world.port)
    return transport.SerialTransport(port="/dev/null", baud_rate=9600)


KINDS = {"tcp": (tcp_in, SOCKET_ERRORS), "serial": (serial_in, SERIAL_ERRORS)}


def connecting(world, t):
    handle, calls, opened = world.handle, world.calls, world.opened
    r = outcome(t.connect)
    if handle is not None:
        check(r.raised(RuntimeError), "connecting while connected raises RuntimeError")
        check(world.calls == calls and world.opened == opened, "connecting while connected touches nothing")
        return
    check(world.opened == opened + 1, "connecting opens one handle")
    if world.failed:
        check(r.raised(exceptions.CommunicationError), "a failure to connect is a communication error")
    else:
        check(r.ok, "connecting succeeds")


def disconnecting(world, t):
    handle, calls = world.handle, world.calls
    r = outcome(t.disconnect)
    if handle is None:
        check(r.ok and world.calls == calls, "disconnecting while disconnected does nothing")
        return
    world.handle = None
    check(handle.closed, "the handle is closed after disconnecting")
    if world.failed:
        check(r.ok or r.raised(exceptions.CommunicationError), "a failure to disconnect is a communication error")
    else:
        check(r.ok, "disconnecting succeeds")


def sending(world, t):
    handle, calls = world.handle, world.calls
    data = nondet("data", Piece, calls)
    if handle is None:
        check(outcome(t.send, data).raised(RuntimeError) and world.calls == calls, "sending while disconnected raises RuntimeError")
        return
    sent = handle.sent
    r = outcome(t.send, data)
    if world.failed:
        check(r.raised(exceptions.CommunicationError), "a failure to send is a communication error")
    else:
        check(r.ok, "sending succeeds")
        check_eq(handle.sent, sent + data, "exactly the bytes given are sent")


def receiving(world, t):
    handle, calls = world.handle, world.calls
    if handle is None:
        check(outcome(t.recv).raised(RuntimeError) and world.calls == calls, "receiving while disconnected raises RuntimeError")
        return
    got = handle.got
    r = outcome(t.recv)
    if world.failed:
        check(r.raised(exceptions.CommunicationError), "a failure to receive is a communication error")
    elif r.ok:
        check_eq(got + r.value, handle.got, "what was received is returned")
        check(len(r.value) > 0, "something was received")
    else:
        check(r.raised(exceptions.CommunicationError), "nothing received is a communication error")


OPERATIONS = [connecting, disconnecting, sending, receiving]


def perform(world, t, operation):
    world.failed = False
    operation(world, t)


def in_known_state(world, t, make):
    """the transport is as new, or as just after connecting"""
    other = make(world)
    if world.handle is not None:
        world.again = True
        other.connect()
        world.again = False
    return same(t, other)


AnyOperation = OneOf(*[Const(f) for f in OPERATIONS])


@harness("C28", cases=[(k, c, f) for k in KINDS for c in (False, True) for f in range(len(OPERATIONS))])
def operations_in_any_order(case):
    kind, connected, first = case
    make, errors = KINDS[kind]
    world = World(errors)
    t = make(world)
    if connected:
        perform(world, t, connecting)
        require(world.handle is not None)
    perform(world, t, OPERATIONS[first])
    if in_known_state(world, t, make):
        # by induction this covers every history
        return
    beyond_proof("the transport remembers earlier operations")
    for i in range(20):
        perform(world, t, nondet("next", AnyOperation, i))


# ---------------------------------------------------------------- C29: timeouts
class Clock:
    """never goes back; passes on during calls, too"""

    def __init__(self, now):
        self.now = now
        self.readings = 0

    def read(self):
        self.now = self.now + nondet("passing", Passing, self.readings)
        self.readings = self.readings + 1
        return self.now


def clock_from(start):
    clock = Clock(start)
    in_place_of(time, "monotonic", clock.read)
    return clock


def remaining_is_right(clock, timeout, duration, earliest, latest):
    """the answers of a timeout that was started between two instants"""
    before = clock.now
    left = timeout.time_left()
    if duration is None:
        check(left is None, "an infinite timeout has no remaining time")
    else:
        # the clock was read somewhere in between
        most = duration - (before - latest)
        least = duration - (clock.now - earliest)
        check(left >= 0, "remaining time is never negative")
        check(left <= duration, "remaining time is never more than the duration")
        check(left <= most or left == 0, "remaining time is not more than duration minus elapsed time")
        check(left >= least, "remaining time is not less than duration minus elapsed time")


def expiry_is_right(clock, timeout, duration, earliest, latest):
    before = clock.now
    over = timeout.expired()
    if duration is None:
        check(not over, "an infinite timeout never expires")
    elif duration == 0:
        check(over, "a timeout of zero is expired at once")
    elif over:
        check(clock.now - earliest >= duration, "a timeout does not expire early")
    else:
        check(before - latest < duration, "a timeout expires when its duration has passed")


@harness("C29", start=Instant, duration=Opt(Duration))
def timeouts_measure_the_duration(start, duration):
    clock = clock_from(start)
    timeout = transport.Timeout(duration)
    latest = clock.now
    clock.read()
    remaining_is_right(clock, timeout, duration, start, latest)
    clock.read()
    expiry_is_right(clock, timeout, duration, start, latest)
    clock.read()
    remaining_is_right(clock, timeout, duration, start, latest)
    expiry_is_right(clock, timeout, duration, start, latest)


@harness("C29", start=Instant, duration=Opt(Duration), again=Opt(Duration), asked=Bool())
def restarted_timeouts_are_like_new_ones(start, duration, again, asked):
    clock = clock_from(start)
    timeout = transport.Timeout(duration)
    clock.read()
    if asked:
        timeout.expired()
        timeout.time_left()
    clock.read()
    restarted = clock.now
    timeout.restart(again)
    latest = clock.now
    clock.read()
    remaining_is_right(clock, timeout, again, restarted, latest)
    clock.read()
    expiry_is_right(clock, timeout, again, restarted, latest)


class Standing:
    """a clock that passes on only between calls"""

    def __init__(self, now):
        self.now = now

    def read(self):
        return self.now


@harness("C29", start=Instant, duration=Opt(Duration))
def a_timeout_expires_exactly_when_nothing_remains(start, duration):
    clock = Standing(start)
    in_place_of(time, "monotonic", clock.read)
    timeout, untouched = transport.Timeout(duration), transport.Timeout(duration)
    for i in range(12):
        clock.now = clock.now + nondet("waiting", Passing, i)
        elapsed = clock.now - start
        left = timeout.time_left()
        over = timeout.expired()
        if duration is None:
            check(left is None and not over, "an infinite timeout never expires")
        else:
            expected = duration - elapsed
            if expected < 0:
                expected = 0
            check(left == expected, "duration minus elapsed time remains")
            check(over == (expected == 0), "expired exactly when nothing remains")
        if same(timeout, untouched):
            # by induction this covers any number of questions
            return
        beyond_proof("the timeout remembers what was asked")


Few = Sampled(UInt(0, 5), lambda rng: rng.randrange(6))


@harness("C29", start=Instant, duration=Opt(Duration), again=Opt(Duration), passed=Passing)
def a_restart_forgets_the_past(start, duration, again, passed):
    clock = Standing(start)
    in_place_of(time, "monotonic", clock.read)
    timeout = transport.Timeout(duration)
    clock.now = clock.now + passed
    for i in range(6):
        timeout.restart(again)
        fresh = transport.Timeout(again)
        check_eq(timeout.time_left(), fresh.time_left(), "a restarted timeout is like a new one")
        if same(timeout, fresh):
            return
        beyond_proof("the timeout remembers that it was restarted")
        for j in range(nondet("questions", Few, i)):
            check(timeout.expired() == fresh.expired(), "a restarted timeout expires like a new one")
            check_eq(timeout.time_left(), fresh.time_left(), "a restarted timeout is like a new one")
            clock.now = clock.now + nondet("waiting", Passing, i, j)
