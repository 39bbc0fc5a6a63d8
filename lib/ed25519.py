"""Ed25519 (RFC 8032) in plain Python, as an independent reference for the signatures cards makes and checks."""
import base64, hashlib

P = 2 ** 255 - 19
L = 2 ** 252 + 27742317777372353535851937790883648493
D = -121665 * pow(121666, P - 2, P) % P
I = pow(2, (P - 1) // 4, P)
SPKI = bytes.fromhex("302a300506032b6570032100")
PKCS8 = bytes.fromhex("302e020100300506032b657004220420")


def _add(p, q):
    a = (p[1] - p[0]) * (q[1] - q[0]) % P
    b = (p[1] + p[0]) * (q[1] + q[0]) % P
    c = 2 * p[3] * q[3] * D % P
    d = 2 * p[2] * q[2] % P
    e, f, g, h = b - a, d - c, d + c, b + a
    return e * f % P, g * h % P, f * g % P, e * h % P


def _mul(s, p):
    q = (0, 1, 1, 0)
    while s > 0:
        if s & 1: q = _add(q, p)
        p = _add(p, p)
        s >>= 1
    return q


def _eq(p, q):
    return (p[0] * q[2] - q[0] * p[2]) % P == 0 and (p[1] * q[2] - q[1] * p[2]) % P == 0


def _x(y, sign):
    if y >= P: return None
    x2 = (y * y - 1) * pow(D * y * y + 1, P - 2, P) % P
    if x2 == 0: return None if sign else 0
    x = pow(x2, (P + 3) // 8, P)
    if (x * x - x2) % P: x = x * I % P
    if (x * x - x2) % P: return None
    return P - x if (x & 1) != sign else x


_GY = 4 * pow(5, P - 2, P) % P
_GX = _x(_GY, 0)
G = (_GX, _GY, 1, _GX * _GY % P)
_TAB = []


def _base(s):
    if not _TAB:
        p = G
        for _ in range(256):
            _TAB.append(p)
            p = _add(p, p)
    q = (0, 1, 1, 0)
    i = 0
    while s:
        if s & 1: q = _add(q, _TAB[i])
        s >>= 1
        i += 1
    return q


def _enc(p):
    z = pow(p[2], P - 2, P)
    x, y = p[0] * z % P, p[1] * z % P
    return (y | ((x & 1) << 255)).to_bytes(32, "little")


def _dec(s):
    y = int.from_bytes(s, "little")
    sign = y >> 255
    y &= (1 << 255) - 1
    x = _x(y, sign)
    return None if x is None else (x, y, 1, x * y % P)


def _expand(seed):
    h = hashlib.sha512(seed).digest()
    a = int.from_bytes(h[:32], "little")
    return a & ((1 << 254) - 8) | (1 << 254), h[32:]


def _h(b):
    return int.from_bytes(hashlib.sha512(b).digest(), "little") % L


def public(seed):
    return _enc(_base(_expand(seed)[0]))


def sign(seed, msg):
    a, pre = _expand(seed)
    pub = _enc(_base(a))
    r = _h(pre + msg)
    R = _enc(_base(r))
    return R + ((r + _h(R + pub + msg) * a) % L).to_bytes(32, "little")


def verify(pub, msg, sig):
    if len(sig) != 64 or len(pub) != 32: return False
    A, R = _dec(pub), _dec(sig[:32])
    s = int.from_bytes(sig[32:], "little")
    if A is None or R is None or s >= L: return False
    return _eq(_base(s), _add(R, _mul(_h(sig[:32] + pub + msg), A)))


def _pem(label, der):
    b = base64.b64encode(der).decode()
    return "-----BEGIN %s-----\n%s\n-----END %s-----\n" % (label, "\n".join(b[i:i + 64] for i in range(0, len(b), 64)), label)


def public_pem(pub):
    return _pem("PUBLIC KEY", SPKI + pub)


def private_pem(seed):
    return _pem("PRIVATE KEY", PKCS8 + seed)


def _body(pem, label):
    lines = pem.split("\n")
    if lines[0] != "-----BEGIN %s-----" % label: return None
    der = base64.b64decode("".join(lines[1:lines.index("-----END %s-----" % label)]))
    return der


def load_public(pem):
    der = _body(pem, "PUBLIC KEY")
    return der[12:] if der and der[:12] == SPKI and len(der) == 44 else None


def load_private(pem):
    der = _body(pem, "PRIVATE KEY")
    return der[16:] if der and der[:16] == PKCS8 and len(der) == 48 else None
