"""Just enough DER to make and read the intermediates of the simulation (the
real cryptography package is not installed here)."""
import base64
import datetime as _dt
import hashlib


def tlv(tag, body):
    n = len(body)
    if n < 128:
        l = bytes([n])
    else:
        b = n.to_bytes((n.bit_length() + 7) // 8, "big")
        l = bytes([0x80 | len(b)]) + b
    return bytes([tag]) + l + body


def seq(*parts):
    return tlv(0x30, b"".join(parts))


def integer(n):
    return tlv(2, n.to_bytes(n.bit_length() // 8 + 1, "big"))


def name(cn, org):
    def rdn(oid, s):
        return tlv(0x31, seq(tlv(6, oid), tlv(0x0C, s.encode())))

    return seq(rdn(b"\x55\x04\x0a", org), rdn(b"\x55\x04\x03", cn))


def spki(key):
    modulus = int.from_bytes(b"\xc1" + hashlib.sha512(b"k%d" % key).digest() * 2, "big")
    pk = seq(integer(modulus), integer(65537))
    return seq(seq(tlv(6, bytes.fromhex("2a864886f70d010101")), tlv(5, b"")), tlv(3, b"\0" + pk))


def make_cert(serial, cn, org, key, not_after):
    alg = seq(tlv(6, bytes.fromhex("2a864886f70d01010b")), tlv(5, b""))

    def t(s):
        return tlv(0x17, s.encode())

    tbs = seq(
        tlv(0xA0, integer(2)),
        integer(serial),
        alg,
        name("Root", "Sim"),
        seq(t("200101000000Z"), t(not_after)),
        name(cn, org),
        spki(key),
    )
    return seq(tbs, alg, tlv(3, b"\0" + hashlib.sha256(tbs).digest()))


def pem(der):
    b = base64.b64encode(der).decode()
    return "-----BEGIN CERTIFICATE-----\n" + "\n".join(b[i : i + 64] for i in range(0, len(b), 64)) + "\n-----END CERTIFICATE-----\n"


# --- reading ---
def read(b, off=0):
    """(tag, header length, end offset) of the element at off"""
    if off + 2 > len(b):
        raise ValueError("truncated DER")
    tag, l, h = b[off], b[off + 1], 2
    if l & 0x80:
        k = l & 0x7F
        if k == 0 or k > 4 or off + 2 + k > len(b):
            raise ValueError("bad DER length")
        l = int.from_bytes(b[off + 2 : off + 2 + k], "big")
        h += k
    if off + h + l > len(b):
        raise ValueError("truncated DER")
    return tag, h, off + h + l


def children(b):
    tag, h, end = read(b)
    off, out = h, []
    while off < end:
        _, _, e = read(b, off)
        out.append(b[off:e])
        off = e
    return out


OIDS = {b"\x55\x04\x03": "CN", b"\x55\x04\x0a": "O"}


class _Name:
    def __init__(self, der):
        self.der = der

    def rfc4514_string(self, *a, **k):
        parts = []
        for rdn in children(self.der):
            for atv in children(rdn):
                o, v = children(atv)
                _, h, e = read(o)
                _, vh, ve = read(v)
                parts.append("%s=%s" % (OIDS.get(o[h:e], o[h:e].hex()), v[vh:ve].decode()))
        return ",".join(reversed(parts))


class _Key:
    def __init__(self, der):
        self.der = der

    def public_bytes(self, encoding=None, format=None):
        return self.der


def _time(b):
    tag, h, e = read(b)
    s = b[h:e].decode()
    return _dt.datetime.strptime(s, "%y%m%d%H%M%SZ" if tag == 0x17 else "%Y%m%d%H%M%SZ")


class Certificate:
    def __init__(self, der):
        tag, h, end = read(der)
        if tag != 0x30 or end != len(der):
            raise ValueError("not a certificate")
        tbs, _alg, _sig = children(der)
        f = children(tbs)
        if len(f) < 7:
            raise ValueError("not a certificate")
        self._der = der
        _, sh, se = read(f[1])
        self.serial_number = int.from_bytes(f[1][sh:se], "big")
        self.issuer = _Name(f[3])
        nb, na = children(f[4])
        self.not_valid_before, self.not_valid_after = _time(nb), _time(na)
        self.not_valid_after_utc = self.not_valid_after.replace(tzinfo=_dt.timezone.utc)
        self.not_valid_before_utc = self.not_valid_before.replace(tzinfo=_dt.timezone.utc)
        self.subject = _Name(f[5])
        self._spki = f[6]

    def public_bytes(self, encoding=None):
        return self._der

    def public_key(self):
        return _Key(self._spki)

    def fingerprint(self, algorithm=None):
        return hashlib.sha256(self._der).digest()


def load_pem_x509_certificate(data, backend=None):
    s = data.decode("ascii")
    a, z = "-----BEGIN CERTIFICATE-----", "-----END CERTIFICATE-----"
    i, j = s.find(a), s.find(z)
    if i < 0 or j < 0:
        raise ValueError("no certificate in PEM")
    return Certificate(base64.b64decode(s[i + len(a) : j]))


def load_der_x509_certificate(data, backend=None):
    return Certificate(data)
