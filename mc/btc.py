"""Reference encodings of Bitcoin structures, on plain tuples; imports nothing of the code under test.

outpoint: (hash, n); txin: (outpoint, script, sequence); txout: (value, script);
tx: (version, (txin, ...), (txout, ...), locktime); header: (version, prev, root, time, bits, nonce)
"""
import hashlib, struct

from mc.ref import sha256, dsha

NULL = b'\0' * 32


def varint(n):
    if n < 253:
        return bytes([n])
    if n <= 0xffff:
        return b'\xfd' + n.to_bytes(2, 'little')
    if n <= 0xffffffff:
        return b'\xfe' + n.to_bytes(4, 'little')
    return b'\xff' + n.to_bytes(8, 'little')


def varstr(b):
    return varint(len(b)) + b


def u32(n):
    return n.to_bytes(4, 'little')


def i32(n):
    return n.to_bytes(4, 'little', signed=True)


def i64(n):
    return n.to_bytes(8, 'little', signed=True)


def outpoint(o):
    return o[0] + u32(o[1])


def txin(i):
    return outpoint(i[0]) + varstr(i[1]) + u32(i[2])


def txout(o):
    return i64(o[0]) + varstr(o[1])


def tx(t):
    return (i32(t[0]) + varint(len(t[1])) + b''.join(txin(i) for i in t[1]) +
            varint(len(t[2])) + b''.join(txout(o) for o in t[2]) + u32(t[3]))


def txid(t):
    return dsha(tx(t))


def header(h):
    return i32(h[0]) + h[1] + h[2] + u32(h[3]) + u32(h[4]) + u32(h[5])


def block(h, txs):
    return header(h) + varint(len(txs)) + b''.join(tx(t) for t in txs)


def merkle_rows(ids):
    rows = [list(ids)]
    while len(rows[-1]) > 1:
        r = rows[-1]
        rows.append([dsha(r[i] + r[min(i + 1, len(r) - 1)]) for i in range(0, len(r), 2)])
    return rows


def merkle_root(ids):
    return merkle_rows(ids)[-1][0]


def hash160(b):
    h = hashlib.new('ripemd160')
    h.update(sha256(b))
    return h.digest()


def push(data):
    """A push of data the way CScript builds it: by length, without small-integer opcodes"""
    n = len(data)
    if n < 0x4c:
        return bytes([n]) + data
    if n <= 0xff:
        return b'\x4c' + bytes([n]) + data
    if n <= 0xffff:
        return b'\x4d' + n.to_bytes(2, 'little') + data
    return b'\x4e' + n.to_bytes(4, 'little') + data


def commit_script(digest, form):
    if form == 'op_return':
        return b'\x6a' + push(digest)
    if form == 'p2sh':
        return b'\xa9' + push(hash160(digest)) + b'\x87'
    if form == 'p2pkh':
        return b'\x76\xa9' + push(hash160(digest)) + b'\x88\xac'
    raise ValueError(form)
