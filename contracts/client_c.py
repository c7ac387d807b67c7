"""Contracts of the client (C24, C30), over an abstract device behind the connection."""
from elgas import application as app
from elgas import client, constants, exceptions, parser, state

from contracts.connection_c import WHEN
from dv.vlib import *

Chunk = Bytes(lo=1)
Count = UInt(0)
Few = Sampled(Count, lambda rng: rng.choice([0, 1, 2, 3, 7, 20]))
Some = Sampled(UInt(1), lambda rng: rng.choice([1, 1, 2, 3, 7]))
Page = Sampled(Bytes(), lambda rng: rng.randbytes(rng.choice([0, 1, 3, 9])))
Failure = Sampled(Bool(), lambda rng: rng.random() < 0.04)
Amount = Sampled(UInt(0, 65535), lambda rng: rng.choice([0, 0, 1, 1, 2, 7, 255, 256, 65535, rng.randrange(65536)]))
Number = Sampled(UInt(0, 65535), lambda rng: rng.choice([0, 0, 1, 7, rng.randrange(65536)]))
End = Sampled(Bool(), lambda rng: rng.random() < 0.25)


class Line:
    """Stand-in for a transport: what the device sends arrives in arbitrary chunks, and
    reading fails when breaks_at chunks have been read."""

    def __init__(self, breaks_at):
        self.breaks_at = breaks_at
        self.received = 0
        self.written = 0
        self.broken = False

    def connect(self):
        pass

    def disconnect(self):
        pass

    def send(self, data):
        self.written = self.written + 1
        check_eq(data, nondet("telegram", Chunk, self.written), "the bytes of the request are written unchanged")
        if nondet("writing fails", Failure, self.written):
            raise exceptions.CommunicationError()

    def recv(self):
        if self.breaks_at is not None and self.received == self.breaks_at:
            check(not self.broken, "no further waiting for a silent device")
            self.broken = True
            raise exceptions.CommunicationError()
        self.received = self.received + 1
        return nondet("chunk", Chunk, self.received)


class Device:
    """Stand-in for a connection: a response takes any number of chunks.  Pages of
    parameters are joined, from the first on."""

    def __init__(self, first=0):
        self.requests = 0
        self.request = None
        self.awaited = False
        self.missing = 0
        self.fed = 0
        self.next_number = first
        self.finished = False
        self.pages = b""

    def send(self, request):
        check(not self.awaited, "no request while a response is outstanding")
        if nondet("request is refused", Failure, self.requests):
            raise exceptions.LocalElgasProtocolError()
        if type(request) is app.ReadDeviceParametersRequest:
            check(not self.finished, "no request after the last page")
            check(request.object_count == self.next_number, "the next page is asked for")
        self.requests = self.requests + 1
        self.missing = nondet("chunks of a response", Some, self.requests)
        self.request = request
        self.awaited = True
        return nondet("telegram", Chunk, self.requests)

    def receive_data(self, data):
        self.fed = self.fed + 1
        check_eq(data, nondet("chunk", Chunk, self.fed), "chunks are handed on in order and unchanged")
        if self.missing > 0:
            self.missing = self.missing - 1

    def next_event(self):
        if self.missing > 0:
            return state.NEED_DATA
        return self.answer()

    def answer(self):
        check(self.awaited, "a response is outstanding")
        self.awaited = False
        if nondet("the device refuses", Failure, self.requests):
            raise exceptions.DataError()
        r = self.response()
        if type(r) is app.ReadDeviceParametersResponse:
            self.next_number = self.next_number + r.object_amount
            self.finished = r.is_end
            self.pages = self.pages + r.data
        return r

    def response(self):
        return nondet("response", RESPONSES[type(self.request)], self.requests)


RESPONSES = {
    app.ReadTimeRequest: Obj(app.ReadTimeResponse, time=DateTime(2000, 2099), data_access_result=Bytes(1), is_dst=Bool(), device_supports_dst=Bool(), extra_data=Bytes()),
    app.WriteTimeRequest: Obj(app.WriteTimeResponse),
    app.ReadInstantaneousValuesRequest: Obj(app.ReadInstantaneousValuesResponse, current_time=DateTime(2000, 2099), is_dst=Bool(), supports_dst=Bool(), data=Bytes(), data_access=Byte, status=Bytes(8), summary_status=Bytes(8), parameter_crc=Bytes(2)),
    app.ReadArchiveRequest: Obj(app.ReadArchiveResponse, archive=Enum(constants.Archive), oldest_record_id=U32, data=Bytes()),
    app.ReadArchiveByTimeRequest: Obj(app.ReadArchiveByTimeResponse, archive=Enum(constants.Archive), oldest_record_id=U32, data=Bytes()),
    app.ReadDeviceParametersRequest: Obj(app.ReadDeviceParametersResponse, object_number=Number, object_amount=Amount, is_end=End, data=Page),
}

ClientPassword = Text(hi=6)


def client_with(password, line, device):
    return client.ElgasClient(transport=line, password=password, password_id=801, elgas_connection=device)


def waiting_client(password, breaks_at, received, missing, requests, request, next_number, pages):
    """a client some of whose chunks have been received and handed on"""
    line, device = Line(breaks_at), Device()
    line.received = received
    device.fed = received
    device.requests = requests
    device.missing = missing
    device.request = request
    device.awaited = True
    device.next_number = next_number
    device.pages = pages
    return client_with(password, line, device)


# ---------------------------------------------------------------- waiting for an event
WaitingClient = Made(
    waiting_client,
    Obj(client.ElgasClient, transport=Obj(Line, breaks_at=Opt(Count), received=Count), elgas_connection=Obj(Device, fed=Count, missing=Count, requests=Count, awaited=Const(True), next_number=Int(), pages=Bytes())),
    password=ClientPassword,
    breaks_at=Opt(Few),
    received=Few,
    missing=Few,
    requests=Few,
    request=OneOf(*[Obj(r) for r in RESPONSES]),
    next_number=Int(),
    pages=Page,
)


@contract("elgas.client.ElgasClient.next_event", "C30 C24 C32", self=WaitingClient)
def next_event(self):
    line, device = self.transport, self.elgas_connection
    check(device.fed == line.received, "every chunk is handed on before the next one")
    goal = line.received + device.missing
    begin = line.received
    while device.missing > 0:
        loopobj(line, received=Count)
        loopobj(device, fed=Count, missing=Count)
        invariant(line.received + device.missing == goal and device.fed == line.received and line.received >= begin)
        invariant(line.breaks_at is None or line.breaks_at < begin or line.breaks_at >= line.received)
        decreases(device.missing)
        device.receive_data(line.recv())
    return device.answer()


@next_event.summary
def _next_event(self):
    return answered(self)


def answered(self):
    line, device = self.transport, self.elgas_connection
    check(device.fed == line.received, "every chunk is handed on before the next one")
    goal = line.received + device.missing
    if line.breaks_at is not None and line.received <= line.breaks_at and line.breaks_at < goal:
        line.received = line.breaks_at
        line.broken = True
        device.fed = line.breaks_at
        device.missing = goal - line.breaks_at
        raise exceptions.CommunicationError()
    line.received = goal
    device.fed = goal
    device.missing = 0
    return device.answer()


# ---------------------------------------------------------------- one request, one response
def exchanged(r, line, device, before, expected):
    """the exchange of one request: False if it failed"""
    if not r.ok:
        check(device.requests <= before + 1, "no further request after a failure")
        check(r.raised(exceptions.CommunicationError) or r.raised(exceptions.LocalElgasProtocolError) or r.raised(exceptions.DataError), "failures are reported as they are")
        return False
    check(device.requests == before + 1, "exactly one request is sent")
    check_eq(device.request, expected, "the request")
    check(line.received == device.fed, "every chunk is handed on")
    check(device.missing == 0, "all chunks of the response are read")
    check(not nondet("request is refused", Failure, before) and not nondet("writing fails", Failure, line.written) and not nondet("the device refuses", Failure, before + 1), "a failure is not hidden")
    return True


def reading_the_time(this, line, device, when, archive, amount, oldest):
    before, written = device.requests, line.written
    r = outcome(this.read_time)
    if exchanged(r, line, device, before, app.ReadTimeRequest()):
        check_eq(r.value, device.response().time, "time of the device")
        check(line.written == written + 1, "the request is written to the transport")
    return r


def writing_the_time(this, line, device, when, archive, amount, oldest):
    before, written = device.requests, line.written
    r = outcome(this.write_time, when)
    if exchanged(r, line, device, before, app.WriteTimeRequest(password=this.password, device_time=when)):
        check(line.written == written + 1, "the request is written to the transport")
    return r


def reading_instantaneous_values(this, line, device, when, archive, amount, oldest):
    before, written = device.requests, line.written
    r = outcome(this.read_instantaneous_values)
    if exchanged(r, line, device, before, app.ReadInstantaneousValuesRequest(password=this.password)):
        check_eq(r.value, device.response(), "response of the device")
        check(line.written == written + 1, "the request is written to the transport")
    return r


def reading_an_archive(this, line, device, when, archive, amount, oldest):
    before, written = device.requests, line.written
    r = outcome(this.read_archive, archive, amount, oldest)
    if exchanged(r, line, device, before, app.ReadArchiveRequest(password=this.password, archive=archive, amount=amount, oldest_record_id=oldest)):
        check_eq(r.value, device.response(), "response of the device")
        check(line.written == written + 1, "the request is written to the transport")
    return r


def reading_an_archive_by_time(this, line, device, when, archive, amount, oldest):
    before, written = device.requests, line.written
    r = outcome(this.read_archive_by_time, archive, amount, when)
    if exchanged(r, line, device, before, app.ReadArchiveByTimeRequest(password=this.password, archive=archive, amount=amount, oldest_timestamp=when)):
        check_eq(r.value, device.response(), "response of the device")
        check(line.written == written + 1, "the request is written to the transport")
    return r


OPERATIONS = [reading_the_time, writing_the_time, reading_instantaneous_values, reading_an_archive, reading_an_archive_by_time]
When = DateTime(2000, 2099, micro=True, aware=True)
ArchiveKind = Enum(constants.Archive)


@harness("C30 C32", cases=OPERATIONS, password=ClientPassword, breaks_at=Opt(Few), requests=Few, when=When, archive=ArchiveKind, amount=Int(), oldest=Int())
def one_request_and_its_response(operation, password, breaks_at, requests, when, archive, amount, oldest):
    line, device = Line(breaks_at), Device()
    line.written, device.requests = requests, requests
    this = client_with(password, line, device)
    operation(this, line, device, when, archive, amount, oldest)
    if same(this, client_with(password, line, device)):
        # by induction this holds after any number of requests
        return
    beyond_proof("the client remembers earlier requests")
    for i in range(12):
        # after a failure the response may still be outstanding: a new request must wait
        device.awaited = False
        device.missing = 0
        line.received = device.fed
        line.broken = False
        device.requests = line.written = max(device.requests, line.written) + 1
        if line.breaks_at is not None:
            line.breaks_at = line.received + nondet("breaks", Few, i)
        nondet("next", OneOf(*OPERATIONS), i)(this, line, device, nondet("when", When, i), nondet("archive", ArchiveKind, i), nondet("amount", Int(), i), nondet("oldest", Int(), i))


class Plug:
    """Stand-in for a transport of which only the connection matters."""

    def __init__(self, breaks):
        self.breaks = breaks
        self.done = []

    def connect(self):
        self.done.append("connect")
        if self.breaks:
            raise exceptions.CommunicationError()

    def disconnect(self):
        self.done.append("disconnect")
        if self.breaks:
            raise exceptions.CommunicationError()


@harness("C30", cases=["connect", "disconnect"], password=ClientPassword, breaks=Bool())
def connecting_a_client(what, password, breaks):
    plug = Plug(breaks)
    r = outcome(getattr(client_with(password, plug, Device()), what))
    check(plug.done == [what], "the transport is asked to %s, once" % what)
    check(r.ok == (not breaks), "a failure reaches the caller, and nothing else does")
    check(r.ok or r.raised(exceptions.CommunicationError), "as the failure it is")


# ---------------------------------------------------------------- C24: pages of parameters
def use_stand_in(*args):
    patch(parser.ScadaParameterParser, "parse", parse)


def parse(self, data=None):
    return term("parameters in", bytes(self.data if data is None else data))


def first_number(read_from):
    return 0 if read_from is None else read_from


def all_parameters(password, read_from, breaks_at):
    line, device = Line(breaks_at), Device(first_number(read_from))
    this = client_with(password, line, device)
    read = this.read_parameters() if read_from is None else this.read_parameters(read_from)
    return read, device.requests, device.fed - line.received, line.written


@contract(all_parameters, "C24 C30 C32", setup=use_stand_in, use=False, password=ClientPassword, read_from=Opt(Int()), breaks_at=Opt(Few))
def _all_parameters(password, read_from, breaks_at):
    line, device = Line(breaks_at), Device(first_number(read_from))
    this = client_with(password, line, device)
    while not device.finished:
        loopobj(line, received=Count, written=Count)
        loopobj(device, requests=Count, request=Obj(app.ReadDeviceParametersRequest), missing=Const(0), fed=Count, next_number=Int(), finished=Bool(), pages=Bytes())
        invariant(device.fed == line.received)
        invariant(device.requests == line.written)
        invariant(line.breaks_at is None or line.breaks_at >= line.received)
        line.send(device.send(app.ReadDeviceParametersRequest(password=password, object_count=device.next_number, buffer_length=1024)))
        answered(this)
    return term("parameters in", device.pages), device.requests, 0, device.requests
