"""Ed25519 and Curve25519 arithmetic straight from the definitions, independent of any library."""
import hashlib

P = 2 ** 255 - 19
D = -121665 * pow(121666, P - 2, P) % P
BY = 4 * pow(5, P - 2, P) % P
L = 2 ** 252 + 27742317777372353535851937790883648493


def _recover_x(y, sign):
    x2 = (y * y - 1) * pow(D * y * y + 1, P - 2, P) % P
    x = pow(x2, (P + 3) // 8, P)
    if (x * x - x2) % P:
        x = x * pow(2, (P - 1) // 4, P) % P
    assert (x * x - x2) % P == 0
    return P - x if (x & 1) != sign else x


B = (_recover_x(BY, 0), BY, 1, _recover_x(BY, 0) * BY % P)


def _add(p, q):
    a, b = (p[1] - p[0]) * (q[1] - q[0]) % P, (p[1] + p[0]) * (q[1] + q[0]) % P
    c, d = 2 * p[3] * q[3] * D % P, 2 * p[2] * q[2] % P
    e, f, g, h = b - a, d - c, d + c, b + a
    return (e * f % P, g * h % P, f * g % P, e * h % P)


def _mul(s, p):
    q = (0, 1, 1, 0)
    while s:
        if s & 1:
            q = _add(q, p)
        p = _add(p, p)
        s >>= 1
    return q


def clamp(b):
    n = int.from_bytes(b, "little")
    return (n & ((1 << 254) - 8)) | (1 << 254)


def seed_to_priv(seed):
    return clamp(hashlib.sha512(seed).digest()[:32]).to_bytes(32, "little")


def priv_to_ed25519(priv):
    """The public key of a (clamped) private key."""
    x, y, z, _ = _mul(clamp(priv), B)
    inverse = pow(z, P - 2, P)
    x, y = x * inverse % P, y * inverse % P
    return (y | ((x & 1) << 255)).to_bytes(32, "little")


def ed25519_to_curve25519(pub):
    y = int.from_bytes(pub, "little") & ((1 << 255) - 1)
    return ((1 + y) * pow(1 - y, P - 2, P) % P).to_bytes(32, "little")


def fingerprint(pub):
    text = ed25519_to_curve25519(pub).hex()
    return [text[i:i + 8] for i in range(0, 64, 8)]
