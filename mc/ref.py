"""Reference definitions, written from the documentation of the formats alone.

Nothing in here imports the code under test.
"""
import hashlib, uuid


def sha256(b):
    return hashlib.sha256(b).digest()


def dsha(b):
    return sha256(sha256(b))


def tag(u):
    return uuid.UUID(u).bytes


DERIVE = tag('8125d227-981c-4ca0-afa7-ab9911352c85')


def derive(t, sub):
    """The tag t.derive(sub)"""
    return sha256(DERIVE + t + sub)[:16]


def leb(n):
    """Minimal little-endian base-128"""
    out = bytearray()
    while True:
        if n < 128:
            out.append(n)
            return bytes(out)
        out.append(128 | n % 128)
        n //= 128


def bits_of(buf, n=None):
    """The tuple of the first n bits of buf, most significant first"""
    t = tuple((byte >> (7 - i)) & 1 for byte in buf for i in range(8))
    return t if n is None else t[:n]


def pack_bits(t):
    """Bytes holding the bits, padded with zeros"""
    out = bytearray()
    for i in range(0, len(t), 8):
        v = 0
        for j in range(8):
            v = 2 * v + (t[i + j] if i + j < len(t) else 0)
        out.append(v)
    return bytes(out)


def ser_bits(t):
    return leb(len(t)) + pack_bits(t)


def lcp(seqs):
    """Longest common prefix of bit tuples"""
    seqs = list(seqs)
    n = 0
    while all(len(s) > n for s in seqs) and len({s[n] for s in seqs}) == 1:
        n += 1
    return seqs[0][:n]


MB_EMPTY = tag('ca380e10-c7d5-44df-aef0-55bce2125329')
MB_LEAF = tag('f5cc855e-9d21-4f8d-ab42-7883c765c323')
MB_INNER = tag('66d74741-0ffd-4178-9a79-641a45e23dda')
MMR_EMPTY = tag('390de307-8787-47b7-b25d-250aba02b1e5')
MMR_LEAF = tag('4ea09c8e-87f5-4978-a829-78d42ab8638a')
MMR_INNER = tag('a7ca25ce-8fee-4063-b022-96b2dbcb392e')


def mb_hash(items, tree_tag, memo=None):
    """Hash of a Merbinner tree; items: list of (prefix bits, key commitment, value commitment)"""
    if not items:
        return sha256(derive(MB_EMPTY, tree_tag) + sha256(b''))
    if len(items) == 1:
        _, k, v = items[0]
        return sha256(derive(MB_LEAF, tree_tag) + sha256(k + v))
    p = lcp([i[0] for i in items])
    left = [i for i in items if i[0][len(p)] == 0]
    right = [i for i in items if i[0][len(p)] == 1]
    return sha256(derive(MB_INNER, tree_tag) +
                  sha256(ser_bits(p) + mb_hash(left, tree_tag) + mb_hash(right, tree_tag)))


def mmr_split(n):
    """How many of n > 1 values belong to the right child"""
    k = 1
    while k < n:
        if n & k:
            return k
        k *= 2
    return n // 2


def mmr_hash(values, t):
    """Hash of a Merkle mountain range over value commitments"""
    n = len(values)
    if n == 0:
        return sha256(derive(MMR_EMPTY, t) + sha256(b''))
    if n == 1:
        return sha256(derive(MMR_LEAF, t) + sha256(values[0]))
    k = mmr_split(n)
    return sha256(derive(MMR_INNER, t) +
                  sha256(mmr_hash(values[:n - k], t) + mmr_hash(values[n - k:], t) + leb(n)))
