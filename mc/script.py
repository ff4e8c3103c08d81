"""Reference script machine, written from Bitcoin's definition; imports nothing of the code under test.

parse(script) gives [(opcode, data or None, position)...] and whether it ends in
a truncated push. run(script, stack, check) runs the machine; check(sig, pubkey,
code) decides about signatures.
"""
import hashlib

from mc.ref import sha256, dsha
from mc.btc import hash160

NAMES = ('0 PUSHDATA1=76 PUSHDATA2 PUSHDATA4 1NEGATE RESERVED 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 NOP VER IF NOTIF VERIF VERNOTIF ELSE ENDIF VERIFY RETURN '
         'TOALTSTACK FROMALTSTACK 2DROP 2DUP 3DUP 2OVER 2ROT 2SWAP IFDUP DEPTH DROP DUP NIP OVER PICK ROLL ROT SWAP TUCK CAT SUBSTR LEFT RIGHT SIZE INVERT '
         'AND OR XOR EQUAL EQUALVERIFY RESERVED1 RESERVED2 1ADD 1SUB 2MUL 2DIV NEGATE ABS NOT 0NOTEQUAL ADD SUB MUL DIV MOD LSHIFT RSHIFT BOOLAND BOOLOR '
         'NUMEQUAL NUMEQUALVERIFY NUMNOTEQUAL LESSTHAN GREATERTHAN LESSTHANOREQUAL GREATERTHANOREQUAL MIN MAX WITHIN RIPEMD160 SHA1 SHA256 HASH160 HASH256 '
         'CODESEPARATOR CHECKSIG CHECKSIGVERIFY CHECKMULTISIG CHECKMULTISIGVERIFY NOP1 NOP2 NOP3 NOP4 NOP5 NOP6 NOP7 NOP8 NOP9 NOP10').split()
CODE = {}
_n = 0
for _name in NAMES:
    if '=' in _name:
        _name, _v = _name.split('=')
        _n = int(_v)
    CODE[_name] = _n
    _n += 1
assert CODE['NOP'] == 0x61 and CODE['CHECKMULTISIGVERIFY'] == 0xaf and CODE['NOP10'] == 0xb9 and CODE['EQUAL'] == 0x87
NAME = {v: k for k, v in CODE.items()}
DISABLED = {CODE[n] for n in 'CAT SUBSTR LEFT RIGHT INVERT AND OR XOR 2MUL 2DIV MUL DIV MOD LSHIFT RSHIFT VERIF VERNOTIF'.split()}


def parse(script):
    ops, i, n = [], 0, len(script)
    while i < n:
        start, op = i, script[i]
        i += 1
        if op > 78:
            ops.append((op, None, start))
            continue
        size = op
        if op > 75:
            w = (1, 2, 4)[op - 76]
            if i + w > n:
                return ops, False
            size = int.from_bytes(script[i:i + w], 'little')
            i += w
        if i + size > n:
            return ops, False
        ops.append((op, bytes(script[i:i + size]), start))
        i += size
    return ops, True


def num(n):
    """Encode a number: little-endian magnitude, sign in the top bit of the last byte"""
    if n == 0:
        return b''
    m = abs(n)
    b = bytearray(m.to_bytes((m.bit_length() + 7) // 8, 'little'))
    if b[-1] & 0x80:
        b.append(0)
    if n < 0:
        b[-1] |= 0x80
    return bytes(b)


def unnum(b):
    if not b:
        return 0
    n = int.from_bytes(b[:-1] + bytes([b[-1] & 0x7f]), 'little')
    return -n if b[-1] & 0x80 else n


def truth(b):
    return any(b[:-1]) or (len(b) > 0 and b[-1] not in (0, 0x80))


def push_num(n):
    """How a script builder encodes an integer"""
    from mc.btc import push
    if 0 < n <= 16:
        return bytes([80 + n])
    return b'\0' if n == 0 else b'\x4f' if n == -1 else push(num(n))


def sigops(script, accurate):
    total, last = 0, None
    for op, _, _ in parse(script)[0]:
        if op in (0xac, 0xad):
            total += 1
        elif op in (0xae, 0xaf):
            total += last - 80 if accurate and last is not None and 81 <= last <= 96 else 20
        last = op
    return total


def find_and_delete(code, pattern):
    """Delete every operation that is exactly the pattern; from a truncated push on nothing is an operation, and all of it stays"""
    ops, ok = parse(code)
    out, end = b'', 0
    for k, (op, data, pos) in enumerate(ops):
        width = {76: 1, 77: 2, 78: 4}.get(op, 0)
        end = pos + 1 + width + len(data or b'')
        if code[pos:end] != pattern:
            out += code[pos:end]
    assert ok == (end == len(code))
    return out + code[end:]


class Fail(Exception):
    """The script fails; pos is the position of the failing opcode, or None for the script as a whole"""
    def __init__(self, why, op=None, pos=None):
        Exception.__init__(self, why)
        self.why, self.op, self.pos = why, op, pos


def _hash(name):
    def h(b):
        x = hashlib.new(name)
        x.update(b)
        return x.digest()
    return h


HASHES = {'RIPEMD160': _hash('ripemd160'), 'SHA1': _hash('sha1'), 'SHA256': sha256, 'HASH160': hash160, 'HASH256': dsha}
UNARY = {'1ADD': lambda a: a + 1, '1SUB': lambda a: a - 1, 'NEGATE': lambda a: -a, 'ABS': abs, 'NOT': lambda a: int(a == 0), '0NOTEQUAL': lambda a: int(a != 0)}
BINARY = {'ADD': lambda a, b: a + b, 'SUB': lambda a, b: a - b, 'BOOLAND': lambda a, b: int(bool(a) and bool(b)), 'BOOLOR': lambda a, b: int(bool(a) or bool(b)),
          'NUMEQUAL': lambda a, b: int(a == b), 'NUMEQUALVERIFY': lambda a, b: int(a == b), 'NUMNOTEQUAL': lambda a, b: int(a != b),
          'LESSTHAN': lambda a, b: int(a < b), 'GREATERTHAN': lambda a, b: int(a > b), 'LESSTHANOREQUAL': lambda a, b: int(a <= b),
          'GREATERTHANOREQUAL': lambda a, b: int(a >= b), 'MIN': min, 'MAX': max}
# opcodes that only move elements: how many they take (from the top) and what they leave, as indices into what they took
MOVES = {'2DROP': (2, ()), '2DUP': (2, (0, 1, 0, 1)), '3DUP': (3, (0, 1, 2, 0, 1, 2)), '2OVER': (4, (0, 1, 2, 3, 0, 1)), '2ROT': (6, (2, 3, 4, 5, 0, 1)),
         '2SWAP': (4, (2, 3, 0, 1)), 'DROP': (1, ()), 'DUP': (1, (0, 0)), 'NIP': (2, (1,)), 'OVER': (2, (0, 1, 0)), 'ROT': (3, (1, 2, 0)), 'SWAP': (2, (1, 0)),
         'TUCK': (2, (1, 0, 1))}


def code_for(script, begin, sigs):
    from mc.btc import push
    code = script[begin:]
    for s in sigs:
        code = find_and_delete(code, push(s))
    return code


def run(script, stack, check=None):
    """The stack the script leaves, as a new list; raises Fail"""
    st, alt, conds, count, begin = list(stack), [], [], 0, 0
    if len(script) > 10000:
        raise Fail('script size')
    ops, complete = parse(script)
    for op, data, pos in ops:
        name = NAME.get(op, '')
        live = all(conds)

        def fail(why):
            raise Fail(why, op, pos)

        def need(n, s=None):
            if len(st if s is None else s) < n:
                fail('arguments')

        def number(b):
            if len(b) > 4:
                fail('number size')
            return unnum(b)

        if data is not None and len(data) > 520:
            fail('element size')
        if op > 96:
            count += 1
            if count > 201:
                fail('operations')
        if op in DISABLED:
            fail('disabled')
        if name in ('IF', 'NOTIF'):
            v = False
            if live:
                need(1)
                v = truth(st.pop()) == (name == 'IF')
            conds.append(v)
        elif name in ('ELSE', 'ENDIF'):
            if not conds:
                fail('unbalanced')
            v = conds.pop()
            if name == 'ELSE':
                conds.append(not v)
        elif not live:
            pass
        elif data is not None:
            st.append(data)
        elif name == '1NEGATE':
            st.append(b'\x81')
        elif 81 <= op <= 96:
            st.append(bytes([op - 80]))
        elif name.startswith('NOP'):
            pass
        elif name in MOVES:
            n, out = MOVES[name]
            need(n)
            took = st[-n:]
            st[-n:] = [took[k] for k in out]
        elif name in UNARY:
            need(1)
            st[-1:] = [num(UNARY[name](number(st[-1])))]
        elif name in BINARY:
            need(2)
            a, b = number(st[-2]), number(st[-1])
            r = BINARY[name](a, b)
            if name == 'NUMEQUALVERIFY':
                if not r:
                    fail('verify')
                del st[-2:]
            else:
                st[-2:] = [num(r)]
        elif name == 'WITHIN':
            need(3)
            a, lo, hi = (number(b) for b in st[-3:])
            st[-3:] = [num(int(lo <= a < hi))]
        elif name in HASHES:
            need(1)
            st[-1:] = [HASHES[name](st[-1])]
        elif name in ('EQUAL', 'EQUALVERIFY'):
            need(2)
            same = st[-1] == st[-2]
            if name == 'EQUAL':
                st[-2:] = [num(int(same))]
            elif not same:
                fail('verify')
            else:
                del st[-2:]
        elif name == 'VERIFY':
            need(1)
            if not truth(st[-1]):
                fail('verify')
            st.pop()
        elif name == 'TOALTSTACK':
            need(1)
            alt.append(st.pop())
        elif name == 'FROMALTSTACK':
            need(1, alt)
            st.append(alt.pop())
        elif name == 'IFDUP':
            need(1)
            if truth(st[-1]):
                st.append(st[-1])
        elif name == 'DEPTH':
            st.append(num(len(st)))
        elif name == 'SIZE':
            need(1)
            st.append(num(len(st[-1])))
        elif name in ('PICK', 'ROLL'):
            need(2)
            n = number(st.pop())
            if not 0 <= n < len(st):
                fail('range')
            x = st[len(st) - 1 - n]
            if name == 'ROLL':
                del st[len(st) - 1 - n]
            st.append(x)
        elif name == 'CODESEPARATOR':
            begin = pos + 1
        elif name in ('CHECKSIG', 'CHECKSIGVERIFY'):
            need(2)
            code = code_for(script, begin, [st[-2]])
            ok = check(st[-2], st[-1], code)
            if name == 'CHECKSIG':
                st[-2:] = [num(int(ok))]
            elif not ok:
                fail('verify')
            else:
                del st[-2:]
        elif name in ('CHECKMULTISIG', 'CHECKMULTISIGVERIFY'):
            need(1)
            nkeys = number(st[-1])
            if not 0 <= nkeys <= 20:
                fail('key count')
            count += nkeys
            if count > 201:
                fail('operations')
            need(nkeys + 2)
            nsigs = number(st[-nkeys - 2])
            if not 0 <= nsigs <= nkeys:
                fail('signature count')
            total = nkeys + nsigs + 3
            need(total)
            keys = st[-1 - nkeys:-1]
            sigs = st[-2 - nkeys - nsigs:-2 - nkeys]
            code = code_for(script, begin, sigs)
            # the last signatures belong to the last keys, each key is used at most once
            ks, ss = list(keys), list(sigs)
            while ss and len(ss) <= len(ks):
                if check(ss[-1], ks.pop(), code):
                    ss.pop()
            ok = not ss
            if name == 'CHECKMULTISIG':
                st[-total:] = [num(int(ok))]
            elif not ok:
                fail('verify')
            else:
                del st[-total:]
        else:
            fail('bad opcode')
        if len(st) + len(alt) > 1000:
            fail('stack size')
    if not complete:
        raise Fail('truncated')
    if conds:
        raise Fail('unbalanced at end')
    return st


def verify(sig, pub, p2sh, check=None):
    """Whether the pair of scripts is satisfied; raises Fail if not"""
    after = run(sig, [], check)
    st = run(pub, after, check)
    if not st or not truth(st[-1]):
        raise Fail('false')
    if p2sh and len(pub) == 23 and pub[:2] == b'\xa9\x14' and pub[22] == 0x87:
        ops, complete = parse(sig)
        if not complete or any(op > 96 for op, _, _ in ops):
            raise Fail('not push only')
        st = run(after[-1], after[:-1], check)
        if not st or not truth(st[-1]):
            raise Fail('false in P2SH')
