"""C01: lock-step model checking of MerbinnerTree against a dictionary"""
import collections
import collections.abc
import itertools
import types

from mc import core, ref, traverse
from proofmarshal.bits import Bits
from proofmarshal.merbinnertree import MerbinnerTree, make_MerbinnerTree_subclass
from proofmarshal.proof import Proof
from proofmarshal.serialize import UInt8, UInt64, FixedBytes, Digest, HashTag

LEVEL = 'model_checking'
ASSUMPTIONS = ['keys have prefixes of equal length; keys held by one tree have distinct prefixes',
               'merging two histories with the same contents is justified because the tree serialized (which '
               'determines everything a later operation can see) is compared with that of the first history']


def tree_type(nbits):
    @make_MerbinnerTree_subclass
    class T(MerbinnerTree):
        __slots__ = []
        HASHTAG = HashTag('2bb60984-0486-41ab-aad6-bd5b1586bd%02x' % nbits)
        KEY_SERIALIZER = FixedBytes((nbits + 7) // 8)
        VALUE_SERIALIZER = UInt64

        @staticmethod
        def key2prefix(key):
            return Bits.from_bytes(key, nbits)
    return T


T = {n: tree_type(n) for n in (1, 2, 3, 4, 5, 8, 9, 16)}


def wide_type(size):
    @make_MerbinnerTree_subclass
    class W(MerbinnerTree):
        __slots__ = []
        HASHTAG = HashTag('2bb60984-0486-41ab-aad6-bd5b1587%04x' % size)
        KEY_SERIALIZER = FixedBytes(size)
        VALUE_SERIALIZER = UInt64

        @staticmethod
        def key2prefix(key):
            return Bits.from_bytes(key)
    return W


WIDE = {n: wide_type(n) for n in (33, 40, 64, 65, 130, 2050)}
# how many bits very long keys share
FAR = sorted({2 ** k + d for k in range(8, 15) for d in (-8, -1, 0, 1, 7)} - {2 ** 14 + 7} | {16399, 2})


@make_MerbinnerTree_subclass
class Long(MerbinnerTree):
    __slots__ = []
    HASHTAG = HashTag('2bb60984-0486-41ab-aad6-bd5b1586bdff')
    KEY_SERIALIZER = Digest
    VALUE_SERIALIZER = UInt64

    @staticmethod
    def key2prefix(key):
        return Bits.from_bytes(key)


@make_MerbinnerTree_subclass
class Shared(MerbinnerTree):
    """Many keys have the same prefix"""
    __slots__ = []
    HASHTAG = HashTag('2bb60984-0486-41ab-aad6-bd5b1586bdfd')
    KEY_SERIALIZER = FixedBytes(2)
    VALUE_SERIALIZER = UInt64

    @staticmethod
    def key2prefix(key):
        return Bits.from_bytes(key[:1], 3)


class Item(Proof):
    HASHTAG = HashTag('0e2b9f1c-6e0f-4d0c-8d39-9a1c2b1a7a01')
    SERIALIZED_ATTRS = [('n', UInt8)]


@make_MerbinnerTree_subclass
class ProofTree(MerbinnerTree):
    """Proofs as keys and values, keyed by their hashes"""
    __slots__ = []
    HASHTAG = HashTag('2bb60984-0486-41ab-aad6-bd5b1586bdfe')
    KEY_SERIALIZER = Item
    VALUE_SERIALIZER = Item

    @staticmethod
    def key2prefix(key):
        return Bits.from_bytes(key.hash)


@make_MerbinnerTree_subclass
class DefaultTree(MerbinnerTree):
    """Proofs as keys, without saying what their prefixes are"""
    __slots__ = []
    HASHTAG = HashTag('2bb60984-0486-41ab-aad6-bd5b1586bdfc')
    KEY_SERIALIZER = Item
    VALUE_SERIALIZER = Item


def keyset(nbits, n=None):
    """Keys with all (or the first n) nbits-long prefixes"""
    size = (nbits + 7) // 8
    return [ref.pack_bits(ref.bits_of(i.to_bytes(4, 'big'))[32 - nbits:]) for i in range(2 ** nbits if n is None else n)]


def check(ctx, tree, model, keys, what):
    """Everything observable about tree must be as in the dictionary model"""
    ctx.eq(len(tree), len(model), what + ':len', model=model)
    for k in keys:
        if k in model:
            ctx.eq(tree[k], model[k], what + ':lookup', key=k, model=model)
        else:
            ctx.raises(KeyError, lambda: tree[k], what + ':lookup-absent', key=k, model=model)
    ks, vs, its, it = list(tree.keys()), list(tree.values()), list(tree.items()), list(tree)
    ctx.eq(sorted(ks, key=keyorder), sorted(model, key=keyorder), what + ':keys', model=model)
    ctx.eq(list(zip(ks, vs)), its, what + ':items-keys-values', model=model)
    ctx.eq(it, ks, what + ':iter', model=model)
    ctx.eq(len(its), len(model), what + ':items', model=model)
    ctx.eq(dict(its), dict(model), what + ':items', model=model)


def keyorder(k):
    return k if isinstance(k, bytes) else k.hash


def apply(ctx, tree, model, op, what):
    """Apply an operation to both; returns the new pair"""
    if op[0] == 'put':
        new = tree.put(op[1], op[2])
        m = dict(model)
        m[op[1]] = op[2]
        return new, m
    if op[1] in model:
        new = tree.remove(op[1])
        m = dict(model)
        del m[op[1]]
        return new, m
    ctx.raises(KeyError, lambda: tree.remove(op[1]), what + ':remove-absent', key=op[1], model=model)
    return tree, model


def bfs(ctx, param):
    """All dictionaries over the keys; all operations from each of them"""
    nbits, keys, values, first = param
    cls = T[nbits]
    ops = [('put', k, v) for k in keys for v in values] + [('remove', k) for k in keys]
    # this shard covers the dictionaries that hold `first` (or not) for the first two keys
    start = {k: v for k, v in zip(keys, first) if v is not None}
    rest = keys[len(first):]
    ctx.cur = ['start', start]
    tree0 = cls(start)
    check(ctx, tree0, start, keys, 'start')
    seen = {frozenset(start.items()): (tree0, tree0.serialize())}
    frontier = [(tree0, start)]
    while frontier:
        nxt = []
        for tree, model in frontier:
            ctx.state(frozenset(model.items()))
            before = tree.serialize()
            for op in ops:
                ctx.cur = [model, op]
                new, m = apply(ctx, tree, model, op, 'op')
                ctx.step()
                ctx.eq(tree.serialize(), before, 'source-changed', model=model, op=op)
                key = frozenset(m.items())
                if all(m.get(k) == v for k, v in zip(keys, first)):
                    if key not in seen:
                        check(ctx, new, m, keys, 'after')
                        ctx.trace([model, op])
                        seen[key] = (new, new.serialize())
                        nxt.append((new, m))
                    else:
                        ctx.eq(new.serialize(), seen[key][1], 'history-dependent', model=model, op=op)
                else:
                    check(ctx, new, m, keys, 'after')
            check(ctx, tree, model, keys, 'unchanged')
        frontier = nxt
    ctx.outcome('dictionaries', len(seen))


def histories(ctx, param):
    """Every sequence of operations, without merging; all trees on the way stay valid"""
    nbits, keys, values, depth, first = param
    cls = T[nbits]
    ops = [('put', k, v) for k in keys for v in values] + [('remove', k) for k in keys]

    def rec(chain, hist):
        tree, model = chain[-1]
        if len(hist) == depth:
            for t, m in chain:
                check(ctx, t, m, keys, 'history')
            ctx.trace(hist)
            return
        for op in ops:
            ctx.cur = hist + [op]
            pair = apply(ctx, tree, model, op, 'history')
            ctx.step()
            ctx.state(tuple(hist), op)
            rec(chain + [pair], hist + [op])

    tree, model = cls(), {}
    chain = [(tree, model)]
    hist = []
    for op in first:
        ctx.cur = hist + [op]
        chain.append(apply(ctx, *chain[-1], op, 'history'))
        hist.append(op)
        ctx.step()
    rec(chain, hist)


POS = sorted({0, 1, 2, 6, 7, 8, 9, 14, 15, 16, 17, 63, 64, 127, 128, 247, 248, 249, 254, 255})


def flip(key, i):
    b = bytearray(key)
    b[i // 8] ^= 0x80 >> (i % 8)
    return bytes(b)


def long_keys(ctx, param):
    """Keys of 256 bits whose prefixes diverge at chosen positions"""
    base, i, js, orders = param
    for j in js:
        keys = sorted({base, flip(base, i), flip(base, j), flip(flip(base, i), j)})
        absent = [flip(k, p) for k in keys for p in (0, 7, 8, 128, 255) if flip(k, p) not in keys]
        for order in itertools.permutations(keys, min(len(keys), orders)):
            ctx.cur = ['put', order, 'then remove in every order']
            tree, model = Long(), {}
            trees = []
            for n, k in enumerate(order):
                tree, model = apply(ctx, tree, model, ('put', k, n), 'long')
                ctx.step()
                check(ctx, tree, model, keys + absent, 'long')
                trees.append((tree, model))
                ctx.state(tuple(sorted(model.items())))
            for a in absent:
                ctx.raises(KeyError, lambda: tree.remove(a), 'long:remove-absent', key=a)
            tree, model = apply(ctx, tree, model, ('put', order[0], 77), 'long')
            check(ctx, tree, model, keys + absent, 'long:overwritten')
            for rorder in itertools.permutations(order):
                t, m = tree, model
                for k in rorder:
                    t, m = apply(ctx, t, m, ('remove', k), 'long')
                    ctx.step()
                    ctx.eq(sorted(t.items()), sorted(m.items()), 'long:removed', removed=rorder)
                ctx.eq(len(t), 0, 'long:emptied')
            for t, m in trees:
                check(ctx, t, m, keys, 'long:earlier')
            ctx.trace(order)


def every_depth(ctx, param):
    """Pairs of keys sharing exactly i bits, for every i; built from every kind of iterable"""
    for i in param:
        for base in (bytes(32), b'\xff' * 32, bytes(range(32)), b'\xaa' * 32):
            k = flip(base, i)
            ctx.cur = [base, i]
            for src in ([(base, 1), (k, 2)], {k: 2, base: 1}, iter([(k, 2), (base, 1)]), ((k, 2), (base, 9), (base, 1))):
                t = Long(src)
                check(ctx, t, {base: 1, k: 2}, [base, k] + [flip(base, j) for j in range(0, 256, 5) if j != i], 'pair')
                ctx.step()
            ctx.state(i, base)
            ctx.trace([base, i])
            t = t.put(k, 3)
            check(ctx, t.remove(base), {k: 3}, [base, k], 'pair')
            check(ctx, t.remove(k), {base: 1}, [base, k], 'pair')


def wide(ctx, param):
    """Pairs and triples of keys of more than 256 bits sharing exactly i bits"""
    size, part, parts = param
    cls = WIDE[size]
    for i in range(part, size * 8, parts) if size < 1000 else FAR[part::8]:
        for base in (bytes(size), b'\xff' * size, bytes(x * 37 % 256 for x in range(size))):
            k = flip(base, i)
            other = flip(base, (i + 8) % (size * 8))
            absent = [flip(base, j) for j in (0, 255, 256, 257, size * 8 - 1) if j not in (i, (i + 8) % (size * 8))]
            for order in itertools.permutations([base, k, other]):
                ctx.cur = [size, i, order]
                t, m = cls(), {}
                for n, x in enumerate(order):
                    t, m = apply(ctx, t, m, ('put', x, n), 'wide')
                    ctx.step()
                    check(ctx, t, m, [base, k, other] + absent, 'wide')
                ctx.eq(cls.deserialize(t.serialize()).serialize(), t.serialize(), 'wide:deserialized')
                for x in order:
                    a, b = apply(ctx, t, m, ('remove', x), 'wide')
                    check(ctx, a, b, [base, k, other], 'wide:removed')
                    ctx.step()
                for x in absent:
                    ctx.raises(KeyError, lambda: t.remove(x), 'wide:remove-absent', key=x)
                ctx.state(size, base, i, order)
                ctx.trace([size, i])


class Sparse(collections.abc.Mapping):
    """A mapping of no well-known type"""
    def __init__(self, d):
        self.d = list(d.items())

    def __getitem__(self, k):
        return dict(self.d)[k]

    def __iter__(self):
        return iter([k for k, _ in self.d])

    def __len__(self):
        return len(self.d)


class Pairs:
    """Iterable by nothing but __iter__"""
    def __init__(self, d):
        self.d = list(d.items())

    def __iter__(self):
        return iter(self.d)


SOURCES = {'dict': dict, 'ordered': collections.OrderedDict, 'counter': collections.Counter, 'defaultdict': lambda d: collections.defaultdict(int, d),
           'chainmap': lambda d: collections.ChainMap(d, {}), 'proxy': types.MappingProxyType, 'mapping': Sparse, 'userdict': collections.UserDict,
           'pairs': lambda d: list(d.items()), 'tuple': lambda d: tuple(d.items()), 'items view': lambda d: d.items(), 'iterator': lambda d: iter(d.items()),
           'generator': lambda d: (p for p in d.items()), 'lists': lambda d: [list(p) for p in d.items()], 'zip': lambda d: zip(d.keys(), d.values()),
           'iterable': Pairs, 'deque': lambda d: collections.deque(d.items()), 'set': lambda d: set(d.items()), 'map': lambda d: map(tuple, d.items()),
           'tree': lambda d: T[3](d), 'other tree': lambda d: T[8](d),
           'pruned tree': lambda d: T[3](d).prune(), 'received tree': lambda d: T[3].deserialize(T[3](d).serialize())}


def sources(ctx, param):
    """Every dictionary over four keys, from every kind of mapping and iterable"""
    name, = param
    keys = keyset(3)[::2]
    for vals in itertools.product([None, 0, 9], repeat=4):
        for flipped in (0, 1):
            model = {k: v for k, v in list(zip(keys, vals))[::-1 if flipped else 1] if v is not None}
            ctx.cur = [name, model]
            src = SOURCES[name](model)
            t = T[3](src)
            check(ctx, t, model, keyset(3), 'source')
            ctx.eq(t.hash, T[3](list(model.items())).hash, 'source:hash')
            if name not in ('iterator', 'generator', 'zip', 'map'):
                check(ctx, T[3](src), model, keys, 'source:again')
            ctx.step()
            ctx.state(name, flipped, vals)
    ctx.trace([name])


def proofs(ctx, param):
    """Proof instances as keys and values; equal but distinct instances are the same key"""
    n, cls = param
    items = [Item(n=i) for i in range(n)]
    twins = [Item(n=i) for i in range(n)]
    for size in range(n + 1):
        for sub in itertools.combinations(range(n), size):
            tree, model = cls(), {}
            for i in sub:
                tree, model = apply(ctx, tree, model, ('put', items[i], items[-i]), 'proofs')
                ctx.step()
            ctx.cur = sub
            ctx.state(sub)
            check(ctx, tree, model, twins, 'proofs')
            for i in range(n):
                t, m = apply(ctx, tree, model, ('put', twins[i], items[i]), 'proofs')
                check(ctx, t, m, items, 'proofs:overwritten')
                t, m = apply(ctx, tree, model, ('remove', twins[i]), 'proofs')
                check(ctx, t, m, items, 'proofs:removed')
                ctx.step(2)
            check(ctx, tree, model, twins, 'proofs:unchanged')
            ctx.trace(sub)


@make_MerbinnerTree_subclass
class ItemTree(MerbinnerTree):
    __slots__ = []
    HASHTAG = HashTag('2bb60984-0486-41ab-aad6-bd5b1586bdfb')
    KEY_SERIALIZER = FixedBytes(1)
    VALUE_SERIALIZER = Item

    @staticmethod
    def key2prefix(key):
        return Bits.from_bytes(key, 3)


def pruned_values(ctx, param):
    """All sequences of puts and removals of values that are whole or were received pruned; what is put is what the tree holds"""
    first, depth = param
    keys = [b'\0', b'\x20', b'\x80']
    values = [(n, whole) for n in (0, 1) for whole in (True, False)]
    ops = [('put', k, v) for k in keys for v in values] + [('remove', k) for k in keys[:2]]

    def make(v):
        item = Item(n=v[0])
        return item if v[1] else Item.deserialize(item.prune().serialize())

    def look(tree, model, what):
        ctx.eq(sorted(tree.keys()), sorted(model), what + ':keys', model=model)
        for k, v in model.items():
            got = tree[k]
            ctx.eq((got.hash, got.is_fully_pruned), (Item(n=v[0]).hash, not v[1]), what, key=k, model=model)
            if v[1]:
                ctx.eq(got.n, v[0], what, key=k, model=model)

    def rec(tree, model, hist):
        ctx.cur = hist
        look(tree, model, 'pruned values')
        ctx.state(tuple(hist))
        if len(hist) == depth:
            ctx.trace(hist)
            return
        for op in ops if hist else [ops[first]]:
            m = dict(model)
            if op[0] == 'put':
                m[op[1]] = op[2]
                new = tree.put(op[1], make(op[2]))
            elif op[1] in m:
                del m[op[1]]
                new = tree.remove(op[1])
            else:
                continue
            ctx.step()
            rec(new, m, hist + [op])
        look(tree, model, 'pruned values:unchanged')
    rec(ItemTree(), {}, [])


def shared_prefixes(ctx, param):
    """Every dictionary of keys whose prefixes differ; keys outside it with the prefix of a key in it are absent all the same"""
    first, = param
    keys = [bytes([p << 5 | low, high]) for p in (0, 1, 3, 4, 7) for low, high in ((0, 0), (0, 1), (31, 0))]
    groups = [[None] + keys[k:k + 3] for k in range(0, len(keys), 3)]
    for chosen in itertools.product(*groups[1:]):
        model = {k: n for n, k in enumerate((first and keys[first - 1],) + chosen) if k}
        ctx.cur = [sorted(model)]
        tree = Shared(model)
        for t in (tree, tree.prune(), Shared.deserialize(tree.serialize())):
            check(ctx, t, model, keys, 'shared')
            for k in keys:
                if k in model:
                    t2, m2 = apply(ctx, t, model, ('put', k, 9), 'shared')
                    check(ctx, t2, m2, keys, 'shared:put')
                t2, m2 = apply(ctx, t, model, ('remove', k), 'shared')
                if k in model:
                    check(ctx, t2, m2, keys, 'shared:removed')
                ctx.step()
        ctx.state(tuple(sorted(model)))
        ctx.trace()
    ctx.trace([first])


def bushy(ctx, param):
    """Larger trees: all keys of nbits bits in several orders, then removed in other orders"""
    nbits, stride, rstride = param
    keys = keyset(nbits)
    n = len(keys)
    cls = T[nbits]
    order = [keys[i * stride % n] for i in range(n)]
    rorder = [keys[(i * rstride + 3) % n] for i in range(n)]
    tree, model = cls(), {}
    for i, k in enumerate(order):
        ctx.cur = ['put', stride, i]
        tree, model = apply(ctx, tree, model, ('put', k, i), 'bushy')
        ctx.step()
        if i < 9 or i % 16 == 0 or i == n - 1:
            check(ctx, tree, model, keys, 'bushy')
            ctx.state(frozenset(model.items()))
    full = tree
    for i, k in enumerate(rorder):
        ctx.cur = ['remove', rstride, i]
        tree, model = apply(ctx, tree, model, ('remove', k), 'bushy')
        ctx.step()
        if i < 9 or i % 16 == 0 or i > n - 9:
            check(ctx, tree, model, keys, 'bushy')
            ctx.state(frozenset(model.items()))
    check(ctx, full, dict(zip(order, range(n))), keys, 'bushy:source')
    ctx.trace([stride, rstride])


MANY_TAG = '2bb60984-0486-41ab-aad6-bd5b1586bdfb'
PREFIX_OF = {'plain': lambda k: k, 'mirrored': lambda k: k[::-1], 'inverted': lambda k: bytes(255 - b for b in k), 'hashed': ref.sha256}


def make_many(form):
    @make_MerbinnerTree_subclass
    class Many(MerbinnerTree):
        """Prefixes in another order than the keys"""
        __slots__ = []
        HASHTAG = HashTag(MANY_TAG)
        KEY_SERIALIZER = FixedBytes(3)
        VALUE_SERIALIZER = UInt64

        @staticmethod
        def key2prefix(key):
            return Bits.from_bytes(PREFIX_OF[form](key))
    return Many


MANY = {form: make_many(form) for form in PREFIX_OF}
KEYS_OF = {'dense': lambda i: (i + 5).to_bytes(3, 'big'), 'spread': lambda i: (i * 40503 % 2 ** 24).to_bytes(3, 'big'),
           'ends': lambda i: bytes([i * 7 % 256, i // 256, i * 37 % 256])}
LATER = b'\xfe\xdc\xba'


def many_trees(form, kind, n):
    """The tree of n keys as made in many ways, and the model it must be equal to"""
    cls = MANY[form]
    keys = [KEYS_OF[kind](i) for i in range(n)]
    model = {k: 3 * i + 1 for i, k in enumerate(keys)}
    items = list(model.items())

    def by_puts():
        t = cls()
        for k, v in items[::-1]:
            t = t.put(k, v)
        return t

    def by_halves():
        t = cls(items[:n // 2])
        for k, v in items[n // 2:]:
            t = t.put(k, v)
        return t
    yield 'list', cls(items), model
    yield 'dict', cls(model), model
    yield 'reversed', cls(items[::-1]), model
    yield 'generator', cls(iter(items)), model
    yield 'puts', by_puts(), model
    yield 'halves', by_halves(), model
    yield 'twice', cls([(k, 0) for k in keys] + items), model
    yield 'one too many', cls(items + [(LATER, 4)]).remove(LATER), model
    yield 'deserialized', cls.deserialize(cls(items).serialize()), model
    yield 'of its items', cls(cls(items).items()), model


def many(ctx, param):
    form, kind, ns = param
    for n in ns:
        for how, t, model in many_trees(form, kind, n):
            ctx.cur = [form, kind, n, how]
            check(ctx, t, model, list(model) + [LATER, KEYS_OF[kind](n + 1)], 'many')
            ctx.step()
            ctx.trace(ctx.cur)
        for k in list(model)[::max(1, n // 9)]:
            rest = {a: b for a, b in model.items() if a != k}
            check(ctx, t.remove(k), rest, model, 'many:removed')
            check(ctx, t.put(k, 0), rest | {k: 0}, model, 'many:overwritten')
        check(ctx, t, model, model, 'many:source')
        ctx.state(form, kind, n)


MANY_SIZES = [list(range(s, 70, 7)) + b for s, b in zip(range(7), ([100], [127], [128], [129], [200], [256], [300]))]


def traversals(ctx, param):
    """Two traversals of a tree, of one changed from it, or of an equal one, advanced alternately in every order"""
    ints, late = param
    keys = [bytes([i]) for i in ints]
    model = {k: i for i, k in enumerate(keys)}
    t = T[8](model)
    ks = sorted(model)
    vs, its = [model[k] for k in ks], [(k, model[k]) for k in ks]
    if list(t) != ks:
        ks = list(t)
        vs, its = [model[k] for k in ks], [(k, model[k]) for k in ks]
    same = T[8](its[::-1])
    more = t.put(b'\x55', 9)
    ms = list(more.items())
    full = ProofTree((Item(n=i), Item(n=i)) for i in ints)
    hidden = full.prune()
    fi = list(full.items())
    reads = [(lambda: len(t), len(model)), (lambda: [t[k] for k in ks], vs), (lambda: list(t.items()), its), (lambda: len(t.put(b'\x2a', 1)), len(model) + 1),
             (lambda: list(more.items()), ms), (lambda: [list(t.remove(k).keys()) for k in ks], [[j for j in ks if j != k] for k in ks])]
    names = {'keys': (t.keys, ks), 'values': (t.values, vs), 'items': (t.items, its), 'itself': (lambda: t, ks), 'equal': (same.items, its),
             'changed': (more.items, ms), 'proofs': (full.items, fi), 'pruned': (hidden.items, fi), 'freshly-pruned': (lambda: full.prune().items(), fi)}
    for a, b in itertools.combinations_with_replacement(names, 2):
        traverse.alternate(ctx, 'traversals', (names[a], names[b]), (), [a, b, 'alone'], late)
        if a in ('items', 'pruned'):
            traverse.alternate(ctx, 'traversals', (names[a], names[b]), reads, [a, b, 'used meanwhile'], late)
    check(ctx, t, model, keys, 'traversed')


def spaces(tier):
    deep = tier == 'thorough'
    k3 = keyset(3)
    opts = [None, 0, 1]
    b = [(3, k3, [0, 1], f) for f in itertools.product(opts, repeat=3)]
    if deep:
        b += [(4, keyset(4), [7], f) for f in itertools.product([None, 7], repeat=4)]
    else:
        b += [(4, keyset(4)[::2], [7], ()), (4, keyset(4)[3:11], [7], ())]
    b += [(9, [bytes([i >> 1 & 255, (i & 1) << 7]) for i in (0, 1, 2, 3, 255, 256, 510, 511)], [5], ())]
    h = []
    hk = [bytes([0]), bytes([0x40]), bytes([0x60])]
    hops = [('put', k, v) for k in hk for v in (0, 1)] + [('remove', k) for k in hk]
    for first in itertools.product(hops, repeat=2 if deep else 1):
        h.append((3, hk, [0, 1], 6 if deep else 5, list(first)))
    bases = [bytes(32), b'\xff' * 32, bytes(range(100, 132))]
    lk = [(base, i, [j for j in POS if j > i][s::(2 if deep else 4)], 4)
          for base in (bases if deep else bases[:2]) for i in POS[:-1] for s in range(2 if deep else 1)]
    return [
        core.Space('all dictionaries', 'every dictionary over 8 three-bit keys and 2 values (and over 8 to 16 '
                   'four-bit and nine-bit keys), every put and removal from each', bfs, b),
        core.Space('all histories', 'every sequence of %d puts and removals over 3 keys and 2 values' % (6 if deep else 5),
                   histories, h),
        core.Space('long keys', '256-bit keys diverging at two of the positions %s, inserted and removed in every order' % POS,
                   long_keys, lk),
        core.Space('every depth', 'pairs of 256-bit keys sharing exactly i bits, every i', every_depth,
                   [range(s, 256, 8) for s in range(8)]),
        core.Space('wide keys', 'keys of 264 to 1040 bits sharing exactly i bits, %s i, and of 16400 bits around the powers of two, in every order' % ('every' if deep else 'every third'), wide,
                   [(n, k, 24 if not deep else 8) for n in WIDE for k in range(8)], disjoint=True),
        core.Space('pruned values', 'every sequence of %d puts and removals over 3 keys and 2 values, whole or pruned' % (4 if deep else 3), pruned_values,
                   [(f, 4 if deep else 3) for f in range(12)]),
        core.Space('sources', 'every dictionary over four keys and two values, from %d kinds of mappings and iterables' % len(SOURCES), sources, [(n,) for n in SOURCES], disjoint=True),
        core.Space('two traversals', 'every order of advancing two traversals (of nine kinds) of trees of up to %d keys, alone and with other uses meanwhile' % (5 if deep else 4), traversals,
                   [(k, late) for k in ([], [7], [1, 200], [64, 65], [1, 2, 200], [3, 90, 91], [129, 128, 192], [1, 64, 130, 131]) + (([1, 2, 64, 130, 255],) if deep else ()) for late in (False, True)]),
        core.Space('proof keys', 'proofs as keys and values, all subsets of a few', proofs,
                   [(n, c) for n in [3, 4, 5] + ([6] if deep else []) for c in (ProofTree, DefaultTree)]),
        core.Space('shared prefixes', 'every dictionary with one or none of three keys for each of five prefixes; lookup and removal of all fifteen', shared_prefixes,
                   [(f,) for f in range(4)]),
        core.Space('large trees', 'all 2^8 keys (2^5 too), strided insertion and removal orders', bushy,
                   [(5, s, r) for s in (1, 3, 31) for r in (1, 5, 31)] +
                   [(8, s, r) for s in ((1, 7, 85, 255) if deep else (7,)) for r in ((1, 9, 127, 255) if deep else (9,))]),
        core.Space('many keys', 'trees of up to 69 and of 100 to 300 keys, in three shapes, made in ten ways, under prefixes in four other orders; lookups, removals', many,
                   [(f, k, ns if deep else ns[::2] + ns[-1:]) for f in MANY for k in KEYS_OF for ns in MANY_SIZES]),
    ]
