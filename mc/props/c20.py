"""C20: immutable chain objects never change and copies are isolated.

Model: a pool of objects. A mutable object is a node whose fields refer to other
nodes or values, so that the sharing a user asked for (storing a mutable
outpoint in a mutable input) is shared in the model too; an immutable object is
the tuple of values it was made with, for ever. Every sequence of operations -
copies of every kind, changes of every field at every depth, changes of the
lists, hashing and serializing in between (which fills whatever caches there
are), attempts to modify immutable objects - is executed on the real objects
from the start, and afterwards every object of the pool is compared with the
model: attributes, serialization, hashes, and equality with all the others.
"""
import itertools

from mc import core, btc, ref
from mc.props.c19 import view
from bitcoin.core import (COutPoint, CMutableOutPoint, CTxIn, CMutableTxIn, CTxOut, CMutableTxOut, CTransaction, CMutableTransaction, CBlock,
                          CBlockHeader)
from bitcoin.core.script import CScript


class Node:
    """A mutable object: its kind and fields"""
    FIELDS = {'point': ('hash', 'n'), 'in': ('prevout', 'scriptSig', 'nSequence'), 'out': ('nValue', 'scriptPubKey'),
              'tx': ('nVersion', 'vin', 'vout', 'nLockTime')}

    def __init__(self, kind, **fields):
        self.kind, self.f = kind, fields

    def value(self):
        return tuple(value(self.f[k]) for k in self.FIELDS[self.kind])


def value(x):
    """The plain value of a model object"""
    if isinstance(x, Node):
        return x.value()
    if isinstance(x, list):
        return tuple(value(i) for i in x)
    return x


WIRE = {'point': btc.outpoint, 'in': btc.txin, 'out': btc.txout, 'tx': btc.tx, 'block': lambda v: btc.block(*v), 'header': btc.header}
FROZEN = {'point': (COutPoint, 'from_outpoint'), 'in': (CTxIn, 'from_txin'), 'out': (CTxOut, 'from_txout'), 'tx': (CTransaction, 'from_tx')}
THAWED = {'point': (CMutableOutPoint, 'from_outpoint'), 'in': (CMutableTxIn, 'from_txin'), 'out': (CMutableTxOut, 'from_txout'),
          'tx': (CMutableTransaction, 'from_tx')}


def thaw(kind, v):
    """The model of a fully mutable copy of a value"""
    if kind == 'point':
        return Node('point', hash=v[0], n=v[1])
    if kind == 'in':
        return Node('in', prevout=thaw('point', v[0]), scriptSig=v[1], nSequence=v[2])
    if kind == 'out':
        return Node('out', nValue=v[0], scriptPubKey=v[1])
    return Node('tx', nVersion=v[0], vin=[thaw('in', i) for i in v[1]], vout=[thaw('out', o) for o in v[2]], nLockTime=v[3])


H = [bytes([k]) * 32 for k in range(1, 9)]
POINTS = [(H[0], 0), (H[1], 7)]
INS = [(POINTS[0], b'\x51', 0xffffffff), (POINTS[1], b'', 5)]
OUTS = [(50, b'\x6a'), (0, b'\x51\x52')]
TX = (1, tuple(INS), tuple(OUTS), 9)
HEADER = (2, H[3], H[4], 5, 6, 7)


def real(kind, v, mutable):
    """A real object made from scratch with constructors alone"""
    if kind == 'point':
        return (CMutableOutPoint if mutable else COutPoint)(*v)
    if kind == 'in':
        return (CMutableTxIn if mutable else CTxIn)(real('point', v[0], mutable), CScript(v[1]), v[2])
    if kind == 'out':
        return (CMutableTxOut if mutable else CTxOut)(v[0], CScript(v[1]))
    vin, vout = [real('in', i, mutable) for i in v[1]], [real('out', o, mutable) for o in v[2]]
    return (CMutableTransaction if mutable else CTransaction)(vin, vout, v[3], v[0])


class World:
    """The pool: parallel lists of kinds, model objects and (if executing) real objects"""
    def __init__(self, init, execute, ctx=None):
        self.kinds, self.model, self.real, self.ctx, self.n, self.exec = [], [], [], ctx, 0, execute
        for kind, mutable in init:
            v = {'point': POINTS[0], 'in': INS[0], 'out': OUTS[0], 'tx': TX}[kind]
            self.add(kind, thaw(kind, v) if mutable else v, lambda: real(kind, v, mutable))

    def add(self, kind, model, make):
        self.kinds.append(kind)
        self.model.append(model)
        self.real.append(make() if self.exec else None)

    def ops(self, level, cap):
        """The operations possible now, as tuples"""
        for k, kind in enumerate(self.kinds):
            m = self.model[k]
            yield ('observe', k)
            if not isinstance(m, Node):
                yield ('attack', k)
            if len(self.kinds) < cap:
                if kind != 'block':
                    yield ('freeze', k)
                    yield ('thaw', k)
                    yield ('construct', k)
                    if level > 1:
                        yield ('wire', k)
                        yield ('mutable-wire', k)
                if kind == 'tx':
                    yield ('block', k)
                    if level > 1:
                        yield ('part', k, 'in', 'freeze')
                        yield ('part', k, 'in', 'thaw')
                        yield ('part', k, 'out', 'freeze')
                        yield ('part', k, 'point', 'freeze')
                        yield ('part', k, 'point', 'thaw')
                if kind == 'block':
                    yield ('vtx', k, 'freeze')
                    yield ('vtx', k, 'thaw')
                    if level > 1:
                        yield ('header', k)
                if kind == 'point' and level > 1:
                    yield ('wrap', k, 'mutable')
                    yield ('wrap', k, 'immutable')
            if isinstance(m, Node):
                yield from (('set', k) + s for s in self.changes(kind, m, level))

    def changes(self, kind, m, level):
        if kind == 'point':
            yield ('hash',)
            yield ('n',)
        elif kind == 'in':
            yield ('scriptSig',)
            yield ('prevout', 'n')
            if level > 1:
                yield ('nSequence',)
                yield ('prevout', 'hash')
                yield ('prevout', 'immutable')
                yield ('prevout', 'mutable')
        elif kind == 'out':
            yield ('nValue',)
            yield ('scriptPubKey',)
        elif kind == 'tx':
            yield ('nLockTime',)
            yield ('vin', 'append')
            if m.f['vin']:
                yield ('vin', 0, 'scriptSig')
                yield ('vin', 0, 'prevout', 'n')
            if m.f['vout']:
                yield ('vout', 0, 'nValue')
            if level > 1:
                yield ('nVersion',)
                yield ('vout', 'append')
                yield ('vin', 'clear')
                yield ('vin', 'new')
                if m.f['vin']:
                    yield ('vin', 'pop')
                    yield ('vin', 'reverse')
                    yield ('vin', 0, 'nSequence')
                    yield ('vin', 0, 'prevout', 'hash')
                    yield ('vin', 0, 'prevout', 'immutable')
                    yield ('vin', 'share')
                    yield ('vin', 'immutable')
                if m.f['vout']:
                    yield ('vout', 'pop')
                    yield ('vout', 0, 'scriptPubKey')

    def do(self, op):
        """Perform one operation on model and (if executing) real objects"""
        self.n += 1
        name, k = op[0], op[1]
        kind, m, r, ctx = self.kinds[k], self.model[k], self.real[k], self.ctx
        if name == 'observe':
            if self.exec:
                self.check(k)
        elif name == 'attack':
            if self.exec:
                self.attack(k)
        elif name == 'freeze':
            cls, f = FROZEN[kind]
            self.add(kind, value(m), lambda: getattr(cls, f)(r))
        elif name == 'thaw':
            cls, f = THAWED[kind]
            self.add(kind, thaw(kind, value(m)), lambda: getattr(cls, f)(r))
        elif name == 'construct':
            make = {'point': lambda: COutPoint(r.hash, r.n), 'in': lambda: CTxIn(r.prevout, r.scriptSig, r.nSequence),
                    'out': lambda: CTxOut(r.nValue, r.scriptPubKey), 'tx': lambda: CTransaction(r.vin, iter(r.vout), r.nLockTime, r.nVersion)}[kind]
            self.add(kind, value(m), make)
        elif name == 'wire':
            self.add(kind, value(m), lambda: FROZEN[kind][0].deserialize(r.serialize()))
        elif name == 'mutable-wire':
            v = value(m)
            # the parts of a deserialized mutable object may be immutable
            t = thaw(kind, v)
            if kind == 'in':
                t.f['prevout'] = v[0]
            if kind == 'tx':
                t.f['vin'], t.f['vout'] = list(v[1]), list(v[2])
            self.add(kind, t, lambda: THAWED[kind][0].deserialize(r.serialize()))
            if self.exec:
                self.resync(-1)
        elif name == 'block':
            self.add('block', (HEADER, (value(m),)), lambda: CBlock(*HEADER, vtx=[r]))
        elif name == 'part':
            part, how = op[2], op[3]
            ms = m.f['vin' if part != 'out' else 'vout'] if isinstance(m, Node) else m[1 if part != 'out' else 2]
            if not ms:
                return
            x = ms[0]
            get = (lambda: r.vout[0]) if part == 'out' else (lambda: r.vin[0])
            if part == 'point':
                x = x.f['prevout'] if isinstance(x, Node) else x[0]
                get = lambda: r.vin[0].prevout
            cls, f = (FROZEN if how == 'freeze' else THAWED)[part]
            self.add(part, value(x) if how == 'freeze' else thaw(part, value(x)), lambda: getattr(cls, f)(get()))
        elif name == 'vtx':
            v = m[1][0]
            cls, f = (FROZEN if op[2] == 'freeze' else THAWED)['tx']
            self.add('tx', v if op[2] == 'freeze' else thaw('tx', v), lambda: getattr(cls, f)(r.vtx[0]))
        elif name == 'header':
            self.add('header', m[0], lambda: r.get_header())
        elif name == 'wrap':
            if op[2] == 'mutable':
                self.add('in', Node('in', prevout=m, scriptSig=b'\x53', nSequence=3), lambda: CMutableTxIn(r, CScript(b'\x53'), 3))
            else:
                self.add('in', (value(m), b'\x53', 3), lambda: CTxIn(r, CScript(b'\x53'), 3))
        elif name == 'set':
            self.set(m, r, op[2:])

    def resync(self, k):
        """Whether the parts of a deserialized mutable object are mutable is up to the code: see which they are"""
        def sync(kind, m, r):
            v = value(m)
            mutable = isinstance(r, THAWED[kind][0])
            if not mutable:
                return v
            t = thaw(kind, v)
            if kind == 'in':
                t.f['prevout'] = sync('point', t.f['prevout'], r.prevout)
            if kind == 'tx':
                t.f['vin'] = [sync('in', i, x) for i, x in zip(t.f['vin'], r.vin)]
                t.f['vout'] = [sync('out', o, x) for o, x in zip(t.f['vout'], r.vout)]
            return t
        self.model[k] = sync(self.kinds[k], self.model[k], self.real[k])

    def set(self, m, r, path):
        """Follow the path to a field and change it; if what holds it is immutable, that has to fail"""
        d = self.n
        while len(path) > 1 and not (path[0] in ('vin', 'vout') and isinstance(path[1], str)) and not (path[0] == 'prevout' and path[1] in ('immutable', 'mutable')):
            if path[0] in ('vin', 'vout'):
                m = m.f[path[0]][0]
                r = getattr(r, path[0])[0] if self.exec else None
                path = path[2:]
            else:
                m = m.f['prevout'] if isinstance(m, Node) else m[0]
                r = r.prevout if self.exec else None
                path = path[1:]
        f = path[0]
        new = {'hash': H[d % 8], 'n': 100 + d, 'scriptSig': CScript(bytes([0x51 + d])), 'nSequence': 200 + d, 'nValue': 300 + d,
               'scriptPubKey': CScript(bytes([0x55 + d, 0x6a])), 'nLockTime': 400 + d, 'nVersion': 2 + d}
        if f in new:
            mv, rv = (bytes(new[f]) if isinstance(new[f], bytes) else new[f]), new[f]
        elif f == 'prevout':
            v = (H[d % 8], 500 + d)
            mv = v if path[1] == 'immutable' else thaw('point', v)
            rv = real('point', v, path[1] == 'mutable') if self.exec else None
        else:
            l, how = m.f[f], path[1]
            k = 'in' if f == 'vin' else 'out'
            v = ((H[d % 8], 600 + d), b'\x54', d) if f == 'vin' else (700 + d, b'\x55')
            rl = getattr(r, f) if self.exec else None
            if how == 'append':
                l.append(thaw(k, v))
                self.exec and rl.append(real(k, v, True))
            elif how == 'pop':
                l.pop()
                self.exec and rl.pop()
            elif how == 'reverse':
                l.reverse()
                self.exec and rl.reverse()
            elif how == 'clear':
                del l[:]
                if self.exec:
                    del rl[:]
            elif how == 'new':
                m.f[f] = [thaw(k, v)]
                if self.exec:
                    setattr(r, f, [real(k, v, True)])
            elif how == 'share':
                l.append(l[0])
                self.exec and rl.append(rl[0])
            elif how == 'immutable':
                l[0] = v
                if self.exec:
                    rl[0] = real(k, v, False)
            return
        if isinstance(m, Node):
            m.f[f] = mv
            if self.exec:
                setattr(r, f, rv)
        elif self.exec:
            self.ctx.raises(AttributeError, lambda: setattr(r, f, rv), 'immutable-set')

    def attack(self, k):
        """Every attempt to change an immutable object or a part of it fails"""
        ctx = self.ctx

        def deny(fn, what):
            ctx.raises((AttributeError, TypeError), fn, 'immutable-' + what)

        def one(o, attrs):
            for a in attrs:
                old = getattr(o, a)
                deny(lambda: setattr(o, a, old), 'set')
                deny(lambda: setattr(o, a, 0), 'set')
                deny(lambda: delattr(o, a), 'delete')
            deny(lambda: setattr(o, 'something', 1), 'new-attribute')
            deny(lambda: delattr(o, 'something'), 'delete')

        def seq(o, a):
            l = getattr(o, a)
            deny(lambda: l.append(None), 'append')
            deny(lambda: l.__setitem__(0, None), 'item')
            deny(lambda: l.__delitem__(0), 'item')

        def walk(o):
            if isinstance(o, COutPoint):
                one(o, ('hash', 'n'))
            elif isinstance(o, CTxIn):
                one(o, ('prevout', 'scriptSig', 'nSequence'))
                walk(o.prevout)
            elif isinstance(o, CTxOut):
                one(o, ('nValue', 'scriptPubKey'))
            elif isinstance(o, CTransaction):
                one(o, ('nVersion', 'vin', 'vout', 'nLockTime'))
                seq(o, 'vin')
                seq(o, 'vout')
                for i in tuple(o.vin) + tuple(o.vout):
                    walk(i)
            else:
                one(o, ('nVersion', 'hashPrevBlock', 'hashMerkleRoot', 'nTime', 'nBits', 'nNonce'))
                if isinstance(o, CBlock):
                    one(o, ('vtx', 'vMerkleTree'))
                    seq(o, 'vtx')
                    seq(o, 'vMerkleTree')
                    for t in o.vtx:
                        walk(t)
        walk(self.real[k])

    def check(self, k):
        """The real object is what the model says it is"""
        ctx, kind, r, v = self.ctx, self.kinds[k], self.real[k], value(self.model[k])
        who = ('mutable-' if isinstance(self.model[k], Node) else 'immutable-') + kind
        w = WIRE[kind](v)
        ctx.eq(view(r), v, 'contents:' + who)
        ctx.eq(r.serialize(), w, 'serialization:' + who)
        h = ref.dsha(w if kind != 'block' else w[:80])
        ctx.eq(r.GetHash(), h, 'hash:' + who)
        ctx.eq(hash(r), hash(r), 'python-hash:' + who)
        if kind == 'block':
            ctx.eq([bytes(i) for i in r.vMerkleTree], [btc.txid(t) for t in v[1]], 'merkle-tree:' + who)
            ctx.eq(r.vtx[0].GetHash(), btc.txid(v[1][0]), 'hash:tx-of-block')
        if kind == 'tx':
            for part, wire, vs in ((r.vin, btc.txin, v[1]), (r.vout, btc.txout, v[2])):
                for i, vi in zip(part, vs):
                    ctx.eq(i.GetHash(), ref.dsha(wire(vi)), 'hash:part-of-' + who)
            for i, vi in zip(r.vin, v[1]):
                ctx.eq(i.prevout.GetHash(), ref.dsha(btc.outpoint(vi[0])), 'hash:outpoint-of-' + who)
        return w

    def check_all(self):
        ctx = self.ctx
        ws = [self.check(k) for k in range(len(self.kinds))]
        for a, b in itertools.combinations(range(len(ws)), 2):
            if self.kinds[a] == self.kinds[b]:
                same = ws[a] == ws[b]
                ra, rb = self.real[a], self.real[b]
                ctx.eq((ra == rb, rb == ra, ra != rb), (same, same, not same), 'equality')
                if same:
                    ctx.eq(hash(ra) == hash(rb), True, 'equal-hash')
                    ctx.eq({ra: 1}.get(rb), 1, 'equal-key')


def sequences(init, level, cap, depth, prefix):
    """Every sequence of operations, every prefix before its extensions"""
    def apply(seq):
        w = World(init, False)
        for op in seq:
            w.do(op)
        return w

    def rec(seq):
        yield seq
        if len(seq) < depth:
            for op in list(apply(seq).ops(level, cap)):
                yield from rec(seq + [op])
    if len(prefix) == 1:
        yield list(prefix)
        for op in list(apply(list(prefix)).ops(level, cap)):
            if depth == 2:
                yield list(prefix) + [op]
    else:
        yield from rec(list(prefix))


def explore(ctx, param):
    init, level, cap, depth, prefix = param
    for seq in sequences(init, level, cap, depth, prefix):
        ctx.cur = [list(init), seq]
        w = World(init, True, ctx)
        for op in seq:
            w.do(op)
            ctx.step()
        w.check_all()
        ctx.state(init, [(k, value(m), isinstance(m, Node)) for k, m in zip(w.kinds, w.model)].__repr__())
        ctx.trace(ctx.cur)


def shards(init, level, cap, depth):
    """One shard for each first pair of operations"""
    w = World(init, False)
    out = []
    for op in list(w.ops(level, cap)):
        out.append((init, level, cap, depth, (op,)))
        w2 = World(init, False)
        w2.do(op)
        out += [(init, level, cap, depth, (op, op2)) for op2 in w2.ops(level, cap)]
    n = len(out)
    return out


def bundle(ctx, param):
    for p in param:
        explore(ctx, p)


def bundled(l, n=64):
    return [tuple(l[k::n]) for k in range(n) if l[k::n]]


def defaults(ctx, param):
    """Objects made with default arguments do not share them; change every one in every order"""
    makers = [('point', CMutableOutPoint, (btc.NULL, 0xffffffff)), ('in', CMutableTxIn, ((btc.NULL, 0xffffffff), b'', 0xffffffff)),
              ('out', CMutableTxOut, (-1, b'')), ('tx', CMutableTransaction, (1, (), (), 0))]
    frozen = [(COutPoint, (btc.NULL, 0xffffffff)), (CTxIn, ((btc.NULL, 0xffffffff), b'', 0xffffffff)), (CTxOut, (-1, b'')), (CTransaction, (1, (), (), 0)),
              (CBlock, ((2, btc.NULL, btc.NULL, 0, 0, 0), ())), (CBlockHeader, (2, btc.NULL, btc.NULL, 0, 0, 0))]
    fresh = thaw('in', INS[1])
    for kind, cls, v in makers:
        proto = thaw(kind, v)
        world = World((), False)
        for paths in itertools.product([c for lvl in (1, 2) for c in world.changes(kind, proto, lvl)], repeat=2):
            ctx.cur = [kind, paths]
            w = World((), True, ctx)
            for _ in range(3):
                w.add(kind, thaw(kind, v), cls)
            for k, p in enumerate(paths):
                w.n = k
                w.set(w.model[k], w.real[k], p)
                w.check_all()
                w.add(kind, thaw(kind, v), cls)
                w.check_all()
            for c, fv in frozen:
                ctx.eq(view(c()), fv, 'default-immutable')
            ctx.step(4)
            ctx.state(kind, paths)
            ctx.trace(ctx.cur)


def large(ctx, param):
    """Transactions of many inputs and outputs: every kind of copy, and then changes in any of several places"""
    n, m, how = param
    v = (1, tuple(((ref.sha256(b'%d' % (k // 3)), k % 3), bytes([0x51]) * (k % 5), k) for k in range(n)), tuple((k, bytes([0x6a]) * (k % 4)) for k in range(m)), 9)
    copies = {'from_tx': lambda t: CTransaction.from_tx(t), 'construct': lambda t: CTransaction(t.vin, t.vout, t.nLockTime, t.nVersion), 'iterators': lambda t: CTransaction(iter(t.vin), iter(t.vout), t.nLockTime, t.nVersion),
              'mutable copy': lambda t: CMutableTransaction.from_tx(t), 'block': lambda t: CBlock(*HEADER, vtx=[t]), 'block of many': lambda t: CBlock(*HEADER, vtx=[t] * 40),
              'wire': lambda t: CTransaction.deserialize(t.serialize()), 'copy of a copy': lambda t: CMutableTransaction.from_tx(CTransaction.from_tx(t)),
              'frozen copy of a copy': lambda t: CTransaction.from_tx(CMutableTransaction.from_tx(t))}
    t = real('tx', v, True)
    wire = btc.tx(v)
    c = copies[how](t)
    want = HEADER if how.startswith('block') else None

    def same(o):
        if want:
            ts = [v] * len(o.vtx)
            return o.serialize() == btc.block(HEADER, ts) and all(i.serialize() == wire and i.GetHash() == ref.dsha(wire) for i in o.vtx[:3])
        return o.serialize() == wire and o.GetHash() == ref.dsha(wire)
    ctx.expect(same(c), 'large:copy', 'the copy differs')
    spots = lambda k: sorted({0, 1, k // 2, k - 2, k - 1, 63, 64, 100, 127, 128, 252, 253, 255, 256, 299, 300, 999, 1000} & set(range(k)))
    frozen = [copies[k](c if not want else c.vtx[0]) for k in ('from_tx', 'construct')]
    for i in spots(n):
        ctx.cur = [n, m, how, 'input', i]
        t.vin[i].nSequence ^= 1
        t.vin[i].scriptSig = CScript(b'\x55\x56')
        t.vin[i].prevout.n += 7
        t.vin[i].prevout.hash = H[i % 8]
        ctx.expect(same(c), 'large:isolated', 'a copy changed')
        ctx.step()
        ctx.state(n, m, how, 'input', i)
    for i in spots(m):
        ctx.cur = [n, m, how, 'output', i]
        t.vout[i].nValue += 1
        t.vout[i].scriptPubKey = CScript(b'\x57')
        ctx.expect(same(c), 'large:isolated', 'a copy changed')
        ctx.step()
        ctx.state(n, m, how, 'output', i)
    t.vin.reverse()
    del t.vout[:]
    ctx.expect(same(c), 'large:isolated', 'a copy changed')
    ctx.expect(all(f.serialize() == wire for f in frozen), 'large:isolated', 'a copy of a copy changed')
    # the other way round
    if how in ('mutable copy', 'copy of a copy'):
        t = real('tx', v, how == 'mutable copy')
        c = copies[how](t)
        for i in spots(n):
            ctx.cur = [n, m, how, 'copy', i]
            c.vin[i].nSequence ^= 1
            c.vin[i].prevout.n += 1
            ctx.expect(t.serialize() == wire, 'large:original', 'the original changed')
        for i in spots(m):
            c.vout[i].nValue += 1
            ctx.expect(t.serialize() == wire, 'large:original', 'the original changed')
        c.vin.pop() if n else c.vin.append(real('in', INS[0], True))
        ctx.expect(t.serialize() == wire, 'large:original', 'the original changed')
        ctx.expect(frozen[0].serialize() == wire, 'large:original', 'a copy changed')
    else:
        o = c if not want else c.vtx[-1]
        for i in spots(n):
            ctx.cur = [n, m, how, 'deny', i]
            ctx.raises((AttributeError, TypeError), lambda: setattr(o.vin[i], 'nSequence', 3), 'large:deny')
            ctx.raises((AttributeError, TypeError), lambda: setattr(o.vin[i].prevout, 'n', 3), 'large:deny')
            ctx.raises((AttributeError, TypeError), lambda: o.vin.__setitem__(i, None), 'large:deny')
        for i in spots(m):
            ctx.raises((AttributeError, TypeError), lambda: setattr(o.vout[i], 'nValue', 3), 'large:deny')
        ctx.expect(same(c), 'large:isolated', 'a copy changed')
    ctx.trace([n, m, how])


NULLS = [((btc.NULL, 0xffffffff), b'', 0xffffffff), ((btc.NULL, 0xffffffff), b'\x51', 3), ((btc.NULL, 1), b'', 3), (POINTS[1], b'', 3), (POINTS[1], b'', 4)]
ALIKE = [(5, b''), (5, b'\x51'), (-1, b''), (0, b'')]


def alike(ctx, param):
    """Mutable copies of transactions with equal parts, that are one object or several: changing one part changes no other"""
    pool, what, first, most = param
    for n in range(1, most):
        for rest in itertools.product(pool, repeat=n):
            vs = (first,) + rest
            v = (1, vs, (OUTS[0],), 9) if what == 'in' else (1, (INS[0],), vs, 9)
            wire = btc.tx(v)
            for source in ('one object', 'several', 'mutable', 'wire', 'parts of one transaction'):
                if source == 'mutable':
                    src = real('tx', v, True)
                elif source == 'wire':
                    src = CTransaction.deserialize(wire)
                else:
                    objs = {x: real(what, x, False) for x in vs}
                    parts = [objs[x] if source == 'one object' else real(what, x, False) for x in vs]
                    src = CTransaction(parts, [real('out', OUTS[0], False)], 9, 1) if what == 'in' else CTransaction([real('in', INS[0], False)], parts, 9, 1)
                    if source == 'parts of one transaction':
                        src = CTransaction(src.vin, src.vout, src.nLockTime, src.nVersion)
                for at in range(n + 1):
                    for field in (('n', 'hash', 'prevout', 'scriptSig', 'nSequence', 'item', 'del') if what == 'in' else ('nValue', 'scriptPubKey', 'item', 'del')):
                        ctx.cur = [what, vs, source, at, field]
                        c = CMutableTransaction.from_tx(src)
                        l, new = (c.vin if what == 'in' else c.vout), list(vs)
                        (h, k), sig, seq = vs[at] if what == 'in' else ((None, None), None, None)
                        if field == 'n':
                            l[at].prevout.n = 77
                            new[at] = ((h, 77), sig, seq)
                        elif field == 'hash':
                            l[at].prevout.hash = H[7]
                            new[at] = ((H[7], k), sig, seq)
                        elif field == 'prevout':
                            l[at].prevout = CMutableOutPoint(H[6], 6)
                            new[at] = ((H[6], 6), sig, seq)
                        elif field == 'scriptSig':
                            l[at].scriptSig = CScript(b'\x55')
                            new[at] = ((h, k), b'\x55', seq)
                        elif field == 'nSequence':
                            l[at].nSequence = 66
                            new[at] = ((h, k), sig, 66)
                        elif field == 'nValue':
                            l[at].nValue = 66
                            new[at] = (66, vs[at][1])
                        elif field == 'scriptPubKey':
                            l[at].scriptPubKey = CScript(b'\x56')
                            new[at] = (vs[at][0], b'\x56')
                        elif field == 'item':
                            new[at] = INS[1] if what == 'in' else OUTS[1]
                            l[at] = real(what, new[at], True)
                        else:
                            del l[at], new[at]
                        w = btc.tx((1, tuple(new), (OUTS[0],), 9) if what == 'in' else (1, (INS[0],), tuple(new), 9))
                        ctx.eq(c.serialize(), w, 'alike:changed')
                        ctx.eq(c.GetHash(), ref.dsha(w), 'alike:hash')
                        ctx.eq(src.serialize(), wire, 'alike:source')
                        ctx.eq(CTransaction.from_tx(c).serialize(), w, 'alike:frozen')
                        ctx.step(4)
                ctx.state(what, vs, source)
            ctx.trace([what, vs])


def spaces(tier):
    deep = tier == 'thorough'
    small = [(('point', m),) for m in (True, False)] + [(('in', m),) for m in (True, False)] + [(('out', m),) for m in (True, False)]
    tx = [(('tx', m),) for m in (True, False)]
    both = [(('tx', True), ('tx', False))]

    def sp(name, inits, level, cap, depth):
        return core.Space(name, 'every sequence of up to %d operations (%s) from %s, pool of up to %d objects'
                          % (depth, 'all' if level > 1 else 'main ones', inits, cap), bundle,
                          bundled([s for i in inits for s in shards(i, level, cap, depth)], 128 if deep else 40))
    return [
        sp('transactions', tx, 2, 3, 4 if deep else 3),
        sp('main operations', tx, 1, 4, 5 if deep else 4),
        sp('parts', small, 2, 3, 5 if deep else 4),
        sp('two transactions', both, 2, 4, 3),
        core.Space('large', 'transactions of up to %d inputs or outputs, nine kinds of copies, changed in any of 18 places' % (3000 if deep else 1100), large,
                   [(n, m, how) for n, m in [(60, 70), (1, 130), (130, 2), (260, 1), (301, 300), (1100, 3), (2, 1100)] + ([(600, 600), (3000, 3000)] if deep else [])
                    for how in ('from_tx', 'construct', 'iterators', 'mutable copy', 'block', 'block of many', 'wire', 'copy of a copy', 'frozen copy of a copy')]),
        core.Space('alike', 'mutable copies of transactions of up to %d equal or similar inputs or outputs, one object or several; every change of every one' % (5 if deep else 4), alike,
                   [(NULLS, 'in', f, 5 if deep else 4) for f in NULLS] + [(ALIKE, 'out', f, 5 if deep else 4) for f in ALIKE]),
        core.Space('defaults', 'every pair of changes to objects made with default arguments', defaults, [()]),
    ]
