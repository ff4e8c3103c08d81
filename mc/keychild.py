"""Runs in a process of its own: makes and uses keys in given threads, and prints what came of it, a line for each
program (reference values are compared by the parent; a crash shows as a missing line)"""
import itertools, json, queue, sys, threading

from bitcoin.core.key import CECKey, CPubKey
from bitcoin.wallet import CBitcoinSecret, CKey, P2PKHBitcoinAddress

DIGEST = bytes(range(32))
PLACES = 3              # the main thread, and two others
STEPS = ('make', 'other', 'sign', 'use')


class Worker:
    def __init__(self):
        self.todo, self.done = queue.Queue(), queue.Queue()
        threading.Thread(target=self.run, daemon=True).start()

    def run(self):
        while True:
            fn = self.todo.get()
            try:
                r = ['ok', fn()]
            except BaseException as e:
                r = ['raised', '%s: %s' % (type(e).__name__, e)]
            self.done.put(r)

    def call(self, fn):
        self.todo.put(fn)
        r = self.done.get()
        if r[0] != 'ok':
            raise RuntimeError(r[1])
        return r[1]


def program(run, places, compressed, kind, a, b):
    """What is made and used, each step in its place"""
    make, other, sign, use = places

    def made():
        if kind == 'secret':
            return CBitcoinSecret.from_secret_bytes(a, compressed)
        if kind == 'string':
            return CBitcoinSecret(str(CBitcoinSecret.from_secret_bytes(a, compressed)))
        return CKey(a, compressed)
    k = run(make, made)

    def low():
        c = CECKey()
        c.set_secretbytes(b)
        c.set_compressed(compressed)
        return c
    o = run(other, low)
    sig = run(sign, lambda: k.sign(DIGEST))

    def used():
        d = CECKey()
        d.set_privkey(o.get_privkey())
        p = CPubKey(bytes(k.pub))
        return [bytes(k.pub).hex(), k.is_compressed, sig.hex(), k.pub.verify(DIGEST, sig), p.verify(DIGEST, sig), p.verify(DIGEST[::-1], sig), p.is_fullyvalid,
                o.get_pubkey().hex(), d.get_pubkey().hex(), k._cec_key.get_raw_ecdh_key(o).hex(), o.get_raw_ecdh_key(k._cec_key).hex(),
                str(P2PKHBitcoinAddress.from_pubkey(k.pub))]
    return run(use, used)


def programs():
    return list(itertools.product(itertools.product(range(PLACES), repeat=len(STEPS)), (True, False), ('secret', 'string', 'key')))


def main(part, parts, a, b):
    workers = [None] + [Worker() for _ in range(PLACES - 1)]

    def run(place, fn):
        return workers[place].call(fn) if place else fn()
    for n, (places, compressed, kind) in enumerate(programs()):
        if n % parts == part:
            print(json.dumps([n, 'begins']), flush=True)
            try:
                r = program(run, places, compressed, kind, a, b)
            except Exception as e:
                r = 'raised %s: %s' % (type(e).__name__, e)
            print(json.dumps([n, r]), flush=True)


if __name__ == '__main__':
    main(int(sys.argv[1]), int(sys.argv[2]), bytes.fromhex(sys.argv[3]), bytes.fromhex(sys.argv[4]))
