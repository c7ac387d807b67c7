"""Contracts of passwords and keys (C26)."""
from elgas import application as app
from elgas import client, constants, exceptions, utils

from contracts.client_c import ClientPassword, Count, Device, Few, Line, answered, client_with, use_stand_in
from contracts.connection_c import KeyIds, Keys
from dv.vlib import *



def protecting(made, plain):
    """the class of protected values; the plain one if nothing of the kind is made"""
    return type(made) if isinstance(made, plain) else plain


SECRET_TEXT = protecting(utils.to_secret_str("secret"), str)
SECRET_BYTES = protecting(utils.to_secret_byte(b"secret"), bytes)


def shown(value, depth):
    """the representation of a secret asked for below arbitrary calls"""
    return under(depth, value.__repr__)


Depth = Sampled(UInt(1), lambda rng: rng.choice([1, 1, 2, 3, 5, 12]))


def described(value, depth):
    i = 0
    while i < depth:
        loopvar(i=UInt(0))
        invariant(i <= depth)
        ghosts(frame=frame_at(i, depth), number=i + 1, number_below=i + 2, number_2_below=i + 3)
        decreases(depth - i)
        if nondet("repr", Bool(), i):
            return "<SECRET>"
        i = i + 1
    return repr(str(value) if isinstance(value, str) else bytes(value))


contract(shown, "C26", name="representation of a password", use=False, value=Text(cls=SECRET_TEXT), depth=Depth)(described)
contract(shown, "C26", name="representation of a key", use=False, value=Bytes(cls=SECRET_BYTES), depth=Depth)(described)


# ---------------------------------------------------------------- protection on the way
def protected_text(v, secret):
    check(type(v) is SECRET_TEXT, "the password is protected")
    check(v == secret, "the password is the one given")


def protected_bytes(v, secret):
    check(type(v) is SECRET_BYTES, "the key is protected")
    check(v == secret, "the key is the one given")


@harness("C26", password=ClientPassword, password_id=UInt(801, 849), key=Opt(Keys), key_id=Opt(KeyIds))
def secrets_of_a_client_and_its_connection(password, password_id, key, key_id):
    c = client.ElgasClient(transport=Line(None), password=password, password_id=password_id, encryption_key=key, encryption_key_id=key_id)
    protected_text(c.password, password)
    protected_text(c.elgas_connection.password, password)
    if key is not None:
        protected_bytes(c.encryption_key, key)
        protected_bytes(c.elgas_connection.encryption_key, key)
        if key_id is not None:
            protected_bytes(c.elgas_connection.cipher_context.key, key)


class Recorder:
    """Stand-in for a connection that only takes the request."""

    def __init__(self):
        self.request = None

    def send(self, request):
        self.request = request
        raise exceptions.CommunicationError()


OPERATIONS = [
    lambda c, archive, number, when: c.read_instantaneous_values(),
    lambda c, archive, number, when: c.write_time(when),
    lambda c, archive, number, when: c.read_archive(archive, number, number),
    lambda c, archive, number, when: c.read_archive_by_time(archive, number, when),
    lambda c, archive, number, when: c.read_parameters(number),
]


@harness("C26", cases=OPERATIONS, password=ClientPassword, archive=Enum(constants.Archive), number=Int(), when=DateTime(2000, 2099))
def password_of_a_request(case, password, archive, number, when):
    device = Recorder()
    outcome(case, client_with(password, Line(None), device), archive, number, when)
    protected_text(device.request.password, password)


class Guard(Device):
    def send(self, request):
        check(type(request.password) is SECRET_TEXT, "the password is protected in every page's request")
        return super().send(request)


def pages_read(password, read_from, breaks_at):
    line, device = Line(breaks_at), Guard(read_from)
    return client_with(password, line, device).read_parameters(read_from)


@contract(pages_read, "C26", setup=use_stand_in, use=False, password=ClientPassword, read_from=Int(), breaks_at=Opt(Few))
def _pages_read(password, read_from, breaks_at):
    line, device = Line(breaks_at), Guard(read_from)
    this = client_with(password, line, device)
    while not device.finished:
        loopobj(line, received=Count, written=Count)
        loopobj(device, requests=Count, request=Obj(app.ReadDeviceParametersRequest), missing=Const(0), fed=Count, next_number=Int(), finished=Bool(), pages=Bytes())
        invariant(device.fed == line.received)
        invariant(device.requests == line.written)
        invariant(line.breaks_at is None or line.breaks_at >= line.received)
        line.send(device.send(app.ReadDeviceParametersRequest(password=utils.to_secret_str(password), object_count=device.next_number, buffer_length=1024)))
        answered(this)
    return term("parameters in", device.pages)


# ---------------------------------------------------------------- no secret in the text of objects
def texts_are_equal(a, b):
    check_eq(repr(a), repr(b), "the representation does not depend on secrets")
    check_eq(str(a), str(b), "the text does not depend on secrets")


@harness("C26", password=ClientPassword, other=ClientPassword, password_id=UInt(801, 849), key=Keys, other_key=Keys, key_id=Opt(KeyIds))
def text_of_a_client_and_its_connection(password, other, password_id, key, other_key, key_id):
    line = Line(None)
    a = client.ElgasClient(transport=line, password=password, password_id=password_id, encryption_key=key, encryption_key_id=key_id)
    b = client.ElgasClient(transport=line, password=other, password_id=password_id, encryption_key=other_key, encryption_key_id=key_id)
    texts_are_equal(a, b)
    texts_are_equal(a.elgas_connection, b.elgas_connection)
    texts_are_equal(a.elgas_connection.cipher_context, b.elgas_connection.cipher_context)


@harness("C26", cases=OPERATIONS, password=ClientPassword, other=ClientPassword, archive=Enum(constants.Archive), number=Int(), when=DateTime(2000, 2099))
def text_of_a_request(case, password, other, archive, number, when):
    a, b = Recorder(), Recorder()
    outcome(case, client_with(password, Line(None), a), archive, number, when)
    outcome(case, client_with(other, Line(None), b), archive, number, when)
    texts_are_equal(a.request, b.request)
