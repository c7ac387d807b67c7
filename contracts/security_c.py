"""Contracts of the encryption of payloads (C08, C09, C10)."""
from elgas import security

from dv.vlib import *

KeyId = Sampled(Int(), lambda rng: rng.choice([1, 2, 3, 4, 5, 6, 7, 0, 255, rng.randrange(256)]) if rng.random() < 0.95 else rng.choice([-1, 256]))
Key = Sampled(Bytes(), lambda rng: rng.randbytes(16) if rng.random() < 0.95 else rng.randbytes(rng.choice([0, 15, 17, 24, 32])))
Context = Obj(security.CipherContext, key_id=KeyId, key=Key)
ValidContext = Obj(security.CipherContext, key_id=Byte, key=Bytes(16))


@contract("elgas.security.data_padding", "C08", data=Bytes())
def data_padding(data):
    missing = (14 - len(data)) % 16
    for n in range(16):
        if missing == n:
            return choice("padding", Bytes(n))


@data_padding.witness
def _(result, data):
    return {"padding": result}


def crc_bytes(covered):
    crc = fold_crc(covered)
    return bytes([crc & 0xFF, crc >> 8])


@contract("elgas.security.encrypt", "C08", data=Sampled(Bytes(), lambda rng: rng.randbytes(rng.choice([0, 16, 32, 48, 160, 5]))), key=Key, iv=Key)
def encrypt(data, key, iv):
    if len(iv) != 16 or len(key) not in (16, 24, 32) or len(data) % 16 != 0:
        raise ValueError()
    return aes_cbc(key, iv, data)


@contract("elgas.security.decrypt", "C10", cipher_text=Sampled(Bytes(), lambda rng: rng.randbytes(rng.choice([0, 16, 32, 48, 160, 5]))), key=Key, iv=Key)
def decrypt(cipher_text, key, iv):
    if len(iv) != 16 or len(key) not in (16, 24, 32) or len(cipher_text) % 16 != 0:
        raise ValueError()
    return aes_cbc_inv(key, iv, cipher_text)


@contract("elgas.security.CipherContext.encrypt", "C08", self=Context, data=Bytes())
def context_encrypt(self, data):
    if len(data) > 65535 or not 0 <= self.key_id <= 255 or len(self.key) != 16:
        raise Reject()
    header = len(data).to_bytes(2, "little") + bytes([self.key_id])
    missing = (14 - len(data)) % 16
    for n in range(16):
        if missing == n:
            padding = choice("padding", Bytes(n))
            plain = data + padding + crc_bytes(header + data + padding)
            return header + aes_cbc(self.key, self.key, plain)


@context_encrypt.witness
def _(result, self, data):
    plain = aes_cbc_inv(self.key, self.key, result[3:])
    return {"padding": plain[len(data) : len(plain) - 2]}


def decrypted(context, in_data):
    """the payload, or None if a check fails"""
    n = len(in_data)
    if n < 3 or (n - 3) % 16 != 0 or n < 19 or len(context.key) != 16:
        return None
    if in_data[2] != context.key_id:
        return None
    length = in_data[0] + 256 * in_data[1]
    plain = aes_cbc_inv(context.key, context.key, in_data[3:])
    m = len(plain)
    if crc_bytes(in_data[:3] + plain[: m - 2]) != plain[m - 2 :]:
        return None
    if length > m - 2:
        return None
    return plain[:length]


def _gen(rng):
    key = rng.randbytes(16)
    kid = rng.choice([1, 2, 7, 0, 255])
    k2 = kid if rng.random() < 0.85 else rng.choice([1, 3, 255])
    n = rng.choice([0, 1, 5, 13, 14, 15, 16, 29, 30, 31, 46, 100])
    data = sample_bytes(rng, n, n)
    length = n if rng.random() < 0.5 else rng.choice([0, n, n + 1, n + 2, n + 15, n + 16, n + 17, n + 18, max(0, n - 1), 65535])
    head = length.to_bytes(2, "little") + bytes([k2])
    plain = data + rng.randbytes((14 - n) % 16)
    if rng.random() < 0.15:
        # a CRC that is right for another header
        crc = crc_bytes(rng.choice([n.to_bytes(2, "little") + bytes([kid]), b"", head[:2]]) + plain)
    else:
        crc = crc_bytes(head + plain)
    b = bytearray(head + aes_cbc(key, key, plain + (crc if rng.random() < 0.9 else crc[::-1])))
    k = rng.random()
    if k < 0.15:
        b[rng.randrange(len(b))] ^= 1 << rng.randrange(8)
    elif k < 0.25:
        del b[rng.randrange(len(b)) :]
    if rng.random() < 0.03:
        key = rng.randbytes(rng.choice([0, 15, 24, 32]))
    return dict(self=security.CipherContext(kid, key), in_data=bytes(b))


@contract("elgas.security.CipherContext.decrypt", "C10", name="CipherContext.decrypt returns only checked data", use=False, gen=_gen, self=Context, in_data=Bytes())
def decrypt_checked(self, in_data):
    r = decrypted(self, in_data)
    if r is None:
        raise Reject()
    return r


@contract("elgas.security.CipherContext.decrypt", "", gen=_gen, self=Context, in_data=Bytes())
def context_decrypt(self, in_data):
    r = decrypted(self, in_data)
    if r is None:
        raise ValueError()
    return r


@harness("C09", data=Bytes(hi=65535), context=ValidContext)
def decryption_reverses_encryption(data, context):
    check_eq(context.decrypt(context.encrypt(data)), data, "decrypted payload")


KEY_IDS = [("FACTORY", 1), ("TEMPORARY", 2), ("ADMINISTRATOR", 3), ("MAINTENANCE", 4), ("USER_1", 5), ("USER_2", 6), ("USER_3", 7)]


@harness("C08", cases=KEY_IDS, key=Bytes(16), data=Bytes(hi=65535))
def key_id_in_the_header(key_id, key, data):
    name, number = key_id
    context = security.CipherContext(key_id=getattr(security.EncryptionKeyId, name), key=key)
    check(context.encrypt(data)[2] == number, "key id %s" % name)
