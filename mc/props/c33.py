"""C33: RPC calls: what is sent, what comes back, errors and connections"""
import base64, contextlib, decimal, itertools, json, os, shutil, socket, tempfile, threading

from mc import core, ref, btc, httpd
from mc.props.c19 import mk_tx, mk_mutable, view, values, HASHES
from mc.props.c30 import CHAINS, text, pkh, sh
import bitcoin
from bitcoin import rpc
from bitcoin.core import CBlock, COutPoint, CTransaction, CTxOut
from bitcoin.core.script import CScript
from bitcoin.wallet import CBitcoinAddress, P2PKHBitcoinAddress, P2SHBitcoinAddress
from bitcoin.rpc import Proxy, RawProxy, JSONRPCException

LEVEL = 'model_checking'
ASSUMPTIONS = ['the node reports amounts with at most eight decimals', 'the default decimal context is in use']
D = decimal.Decimal
COIN = 10 ** 8
MAX = 21 * 10 ** 14
HASH = bytes(range(32))
KEYHASH = bytes(range(50, 70))
TIMEOUT = 20


def shown(h):
    return h[::-1].hex()


class Node:
    """The node: answers with what it is told, remembers what it was asked"""
    def __init__(self):
        self.text, self.http = None, None
        self.server = httpd.Server(lambda method, params: self.text, raw=lambda req, headers: self.http and self.http(req))

    def url(self, auth='user:pass'):
        return 'http://%s@127.0.0.1:%d' % (auth, self.server.port)

    def proxy(self, cls=Proxy, **kw):
        return cls(service_url=self.url(), timeout=TIMEOUT, **kw)

    def result(self, js):
        self.text = '{"result": %s, "error": null, "id": 1}' % js

    def error(self, code, message):
        self.text = json.dumps({'result': None, 'error': {'code': code, 'message': message}, 'id': 1})

    def asked(self):
        line, headers, req = self.server.requests[-1]
        return req['method'], req['params']


@contextlib.contextmanager
def node():
    n = Node()
    try:
        yield n
    finally:
        n.server.close()


# -- amounts --------------------------------------------------------------------------------------------------------------

def amounts(deep):
    s = set(range(0, 200)) | {MAX, MAX - 1, MAX // 2, 29000000, 115000000, 1000000000001, 123456789, 987654321012345, 2099999999999999}
    for k in range(16):
        for d in range(1, 10):
            s |= {d * 10 ** k - 1, d * 10 ** k, d * 10 ** k + 1}
    for k in range(51):
        s |= {2 ** k - 1, 2 ** k, 2 ** k + 1}
    for k in range(1, 100):                    # hundredths, where binary fractions hurt
        s |= {k * 10 ** 6, k * 10 ** 6 + 100 * COIN, k * 10 ** 6 + 20999999 * COIN}
    if deep:
        s |= set(range(0, 30000)) | set(range(MAX - 3000, MAX))
    return sorted(a for a in s if a <= MAX)


def forms(n):
    """The ways a node may write an amount"""
    sign, m = ('-', -n) if n < 0 else ('', n)
    fixed = '%s%d.%08d' % (sign, m // COIN, m % COIN)
    out = [fixed, fixed.rstrip('0').rstrip('.'), '%s%de-8' % (sign, m), '%s%dE-08' % (sign, m)]
    if m % COIN:
        out.append(fixed.rstrip('0'))
    return list(dict.fromkeys(out))


def received(ctx, param):
    """Amounts in answers, in every form"""
    part, deep = param
    vals = amounts(deep)[part::8]
    with node() as nd:
        p = nd.proxy()
        every = [(n, f) for n in vals for f in forms(n)] + [(-n, f) for n in vals[::7] for f in forms(-n)]
        script = '76a914' + KEYHASH.hex() + '88ac'
        for i in range(0, len(every), 500):
            some = every[i:i + 500]
            ctx.cur = ['listunspent', some[0]]
            nd.result('[%s]' % ', '.join('{"txid": "%s", "vout": %d, "address": "%s", "scriptPubKey": "%s", "amount": %s, "confirmations": 6}'
                                         % (shown(HASH), k, text(0, KEYHASH), script, f) for k, (n, f) in enumerate(some)))
            got = p.listunspent()
            ctx.eq([g['amount'] for g in got], [n for n, f in some], 'unspent amounts')
            ctx.step(len(some))
        for n, f in every:
            if not deep and (n + len(f)) % 3 and n > 200:
                continue
            ctx.cur = ['amount', n, f]
            ctx.state(n, f)
            nd.result(f)
            got = p.getbalance()
            ctx.eq((got, type(got)), (n, int), 'balance')
            ctx.eq(p.getreceivedbyaddress(CBitcoinAddress(text(0, KEYHASH))), n, 'received')
            nd.result('{"balance": %s, "paytxfee": %s, "blocks": 3}' % (f, forms(abs(n))[0]))
            ctx.eq(p.getinfo(), {'balance': n, 'paytxfee': abs(n), 'blocks': 3}, 'info')
            if n >= 0:
                nd.result('{"value": %s, "scriptPubKey": {"hex": "51", "asm": "1"}, "bestblock": "%s", "confirmations": 1}' % (f, shown(HASH)))
                ctx.eq(p.gettxout(COutPoint(HASH, 1))['txout'].nValue, n, 'value of an output')
            ctx.step(4)
            ctx.outcome('amounts')
        ctx.trace([part, len(every)])


def sent(ctx, param):
    part, deep = param
    with node() as nd:
        p = nd.proxy()
        nd.result('"%s"' % shown(HASH))
        for kind, v in (('pkh', 0), ('sh', 5)):
            a = CBitcoinAddress(text(v, KEYHASH))
            for n in amounts(deep)[part::8]:
                ctx.cur = ['sendtoaddress', n]
                ctx.eq(p.sendtoaddress(a, n), HASH, 'id of the transaction')
                method, params = nd.asked()
                ctx.eq((method, params[0], len(params)), ('sendtoaddress', text(v, KEYHASH), 2), 'request')
                ctx.eq(D(str(params[1])) * COIN, D(n), 'amount sent', sent=str(params[1]))
                ctx.step()
                ctx.state(kind, n)
                ctx.outcome('amounts sent')
        ctx.trace([part])


# -- calls ------------------------------------------------------------------------------------------------------------------

def hashes():
    return [HASH, HASH[::-1], b'\0' * 32, b'\xff' * 32, b'\0' * 31 + b'\1', b'\1' + b'\0' * 31]


def txs():
    return [t for t in values('tx', False) if len(t[1]) < 10 and len(t[2]) < 10]


def is_address(ctx, a, version, h, key):
    c = CHAINS[bitcoin.params.NAME]
    ctx.eq((isinstance(a, CBitcoinAddress), str(a), bytes(a)), (True, text(version, h), h), key)
    ctx.expect(isinstance(a, P2PKHBitcoinAddress if version == c[0] else P2SHBitcoinAddress), key + ': class')


def calls(ctx, param):
    chain, part = param
    bitcoin.SelectParams(chain)
    versions = CHAINS[chain][:2]
    foreign = [v for c in CHAINS.values() for v in c[:2] if v not in versions]

    with node() as nd:
        p = nd.proxy()

        def did(method, *params):
            ctx.eq(nd.asked(), (method, list(params)), 'request of ' + method)
            ctx.step()
            ctx.outcome(method)

        def fails(fn, exc, key):
            for code, message in ((-5, 'Block not found'), (-8, 'out of "range"'), (-32601, 'Method not found \u00fc %s'), (-1, ''), (-25, '%d {} %'), (-26, '16: x'), (-27, 'y' * 5000),
                                  (0, 'zero'), (1, 'one'), (5, 'positive'), (-32700, 'Parse error'), (2 ** 31, 'far')):
                nd.error(code, message)
                e = ctx.raises(exc, fn, key)
                if isinstance(e, JSONRPCException):
                    ctx.eq(e.error, {'code': code, 'message': message}, key + ': error')
                elif e is not None:
                    ctx.expect(message in str(e) and str(code) in str(e), key + ': message', str(e))
                ctx.step()

        if part == 'addresses':
            for v in versions:
                for h in (KEYHASH, b'\0' * 20, b'\xff' * 20):
                    s = text(v, h)
                    a = CBitcoinAddress(s)
                    ctx.cur = [chain, s]
                    ctx.state(chain, v, h)
                    nd.result('"%s"' % s)
                    for acc in (None, '', 'account', '\u00e9\u4e00', '*', 'with "quotes"'):
                        is_address(ctx, p.getaccountaddress(acc), v, h, 'account address')
                        did('getaccountaddress', acc)
                        is_address(ctx, p.getnewaddress(acc), v, h, 'new address')
                        did('getnewaddress', *([] if acc is None else [acc]))
                    is_address(ctx, p.getaccountaddress(), v, h, 'account address')
                    did('getaccountaddress', None)
                    is_address(ctx, p.getnewaddress(), v, h, 'new address')
                    did('getnewaddress')
                    is_address(ctx, p.getrawchangeaddress(), v, h, 'change address')
                    did('getrawchangeaddress')
                    for extra in ({}, {'pubkey': '02' + '11' * 32}, {'ismine': True, 'account': 'x'}):
                        nd.result(json.dumps(dict({'isvalid': True, 'address': s}, **extra)))
                        for given in (a, s):
                            r = p.validateaddress(given)
                            did('validateaddress', s)
                            is_address(ctx, r.pop('address'), v, h, 'validated address')
                            want = dict({'isvalid': True}, **extra)
                            if 'pubkey' in want:
                                want['pubkey'] = bytes.fromhex(want['pubkey'])
                            ctx.eq(r, want, 'validation')
                    nd.result('{"isvalid": false}')
                    ctx.eq(p.validateaddress('nonsense'), {'isvalid': False}, 'invalid address')
                    did('validateaddress', 'nonsense')
                    nd.result('0.5')
                    for conf in (None, 0, 1, 6, 2 ** 31):
                        ctx.eq(p.getreceivedbyaddress(a, *([] if conf is None else [conf])), COIN // 2, 'received')
                        did('getreceivedbyaddress', s, 1 if conf is None else conf)
            nd.result('"%s"' % text(foreign[0], KEYHASH))
            ctx.raises(Exception, p.getnewaddress, "another chain's address")
            ctx.raises(Exception, p.getrawchangeaddress, "another chain's address")
            for args, want in (((), ['*', 1]), (('',), ['', 1]), (('acc', 0), ['acc', 0]), (('*', 6), ['*', 6])):
                nd.result('-1.25000000')
                ctx.eq(p.getbalance(*args), -125000000, 'balance')
                did('getbalance', *want)
            nd.result('0.1')
            ctx.eq(p.getbalance(account='a', minconf=3), 10000000, 'balance')
            did('getbalance', 'a', 3)
            nd.result('{"paytxfee": 0.0001, "version": 90000, "relayfee": 0.00001}')
            r = p.getinfo()
            did('getinfo')
            ctx.eq((r['paytxfee'], r['version'], 'balance' in r), (10000, 90000, False), 'info without a wallet')
            for fn in (p.getaccountaddress, p.getnewaddress, p.getrawchangeaddress, p.getbalance, p.getinfo, lambda: p.validateaddress('x'),
                       lambda: p.getreceivedbyaddress('x'), lambda: p.sendtoaddress('x', 5), p.listunspent, p.getrawmempool):
                fails(fn, JSONRPCException, 'error answer')

        elif part == 'blocks':
            for v in values('block', False):
                if len(v[1]) > 10:
                    continue
                raw = btc.block(*v)
                ctx.cur = [chain, 'block', v]
                ctx.state(chain, raw)
                for h in hashes()[:3]:
                    nd.result('"%s"' % raw.hex())
                    b = p.getblock(h)
                    did('getblock', shown(h), False)
                    ctx.expect(isinstance(b, CBlock), 'block')
                    ctx.eq(view(b), v, 'block')
                nd.result('null')
                ctx.eq(p.submitblock(b), None, 'submitted')
                did('submitblock', raw.hex())
                nd.result('"rejected"')
                ctx.eq(p.submitblock(b, {'workid': 'x'}), 'rejected', 'submitted')
                did('submitblock', raw.hex(), {'workid': 'x'})
            for h in hashes():
                nd.result('"%s"' % shown(h))
                for height in (0, 1, 255, 500000, 2 ** 31 - 1):
                    ctx.eq(p.getblockhash(height), h, 'block hash')
                    did('getblockhash', height)
            fails(lambda: p.getblock(HASH), IndexError, 'missing block')
            fails(lambda: p.getblockhash(5), IndexError, 'missing height')
            fails(lambda: p.submitblock(b), JSONRPCException, 'error answer')
            n = len(nd.server.requests)
            for wrong in (None, 5, shown(HASH), 1.5):
                ctx.raises(TypeError, lambda: p.getblock(wrong), 'not a hash')
            ctx.eq(len(nd.server.requests), n, 'requests sent for something not a hash')

        elif part == 'transactions':
            for v in txs():
                raw = btc.tx(v)
                ctx.cur = [chain, 'tx', v]
                ctx.state(chain, raw)
                for h in hashes()[:2]:
                    nd.result('"%s"' % raw.hex())
                    for kw in ({}, {'verbose': False}):
                        t = p.getrawtransaction(h, **kw)
                        did('getrawtransaction', shown(h), 0)
                        ctx.eq(view(t), v, 'transaction')
                    for block, conf, time in itertools.product((None, HASH, HASH[::-1], bytes(32)), (None, 0, 1, 3), (None, 0, 77)):
                        ans = {'hex': raw.hex(), 'txid': shown(h), 'version': 1, 'locktime': 0, 'vin': [], 'vout': []}
                        if conf is not None:
                            ans['confirmations'] = conf
                        if time is not None:
                            ans['time'] = time
                        if block:
                            ans['blockhash'] = shown(block)
                        nd.result(json.dumps(ans))
                        r = p.getrawtransaction(h, True)
                        did('getrawtransaction', shown(h), 1)
                        ctx.eq(view(r['tx']), v, 'verbose transaction')
                        ctx.eq((r['blockhash'], r.get('confirmations'), r.get('time')), (block, conf, time), 'verbose')
                for t in (mk_tx(v), mk_mutable(v)):
                    nd.result('"%s"' % shown(HASH))
                    ctx.eq(p.sendrawtransaction(t), HASH, 'id')
                    did('sendrawtransaction', raw.hex())
                    ctx.eq(p.sendrawtransaction(t, True), HASH, 'id')
                    did('sendrawtransaction', raw.hex(), True)
                    ctx.eq(p.sendrawtransaction(t, allowhighfees=False), HASH, 'id')
                    did('sendrawtransaction', raw.hex())
                    for args in ((), ([],), ([{'txid': shown(HASH), 'vout': 1, 'scriptPubKey': '51'}], ['key'], 'ALL')):
                        nd.result(json.dumps({'hex': raw.hex(), 'complete': len(args) > 1}))
                        r = p.signrawtransaction(t, *args)
                        did('signrawtransaction', raw.hex(), *args)
                        ctx.eq((view(r['tx']), r['complete']), (v, len(args) > 1), 'signed')
            t = mk_tx(v)
            fails(lambda: p.getrawtransaction(HASH), IndexError, 'missing transaction')
            fails(lambda: p.getrawtransaction(HASH, True), IndexError, 'missing transaction')
            fails(lambda: p.gettransaction(HASH), IndexError, 'missing transaction')
            fails(lambda: p.sendrawtransaction(t), JSONRPCException, 'error answer')
            fails(lambda: p.signrawtransaction(t), JSONRPCException, 'error answer')
            for h in hashes():
                nd.result('{"amount": 1.5, "txid": "%s"}' % shown(h))
                r = p.gettransaction(h)
                did('gettransaction', shown(h))
                ctx.eq(r['txid'], shown(h), 'wallet transaction')

        elif part == 'outputs':
            scripts = [b'', b'\x51', pkh(KEYHASH), sh(KEYHASH), b'\x6a' + b'\x4c\xff' + b'x' * 255, b'\xff\x05']
            for h, n, s in itertools.product(hashes(), (0, 1, 255, 2 ** 32 - 1), scripts):
                o = COutPoint(h, n)
                ctx.cur = [chain, h, n, s]
                ctx.state(chain, h, n, s)
                for mem, conf, coinbase in itertools.product((None, True, False), (0, 1, 9), (False, True)):
                    nd.result(json.dumps({'value': 2, 'scriptPubKey': {'hex': s.hex(), 'asm': ''}, 'bestblock': shown(HASH), 'confirmations': conf, 'coinbase': coinbase}))
                    r = p.gettxout(o, *([] if mem is None else [mem]))
                    did('gettxout', shown(h), n, mem is not False)
                    ctx.expect(isinstance(r['txout'], CTxOut), 'output')
                    ctx.eq((view(r['txout']), r['bestblock'], r['confirmations'], r['coinbase']), ((2 * COIN, s), HASH, conf, coinbase), 'output')
                nd.result('null')
                ctx.raises(IndexError, lambda: p.gettxout(o), 'spent output')
                nd.result('true')
                for unlock in (True, False):
                    for points in ([], [o], [o, COutPoint(HASH, 3)]):
                        ctx.eq(p.lockunspent(unlock, points), True, 'locked')
                        did('lockunspent', unlock, [{'txid': shown(q.hash), 'vout': q.n} for q in points])
            addresses = [CBitcoinAddress(text(v, k)) for v in versions for k in (KEYHASH, b'\0' * 20)]
            for count in range(4):
                entries = [(hashes()[k], k * 7, scripts[(k + 2) % 6], addresses[k], k * 12345678) for k in range(count)]
                for missing in itertools.product((False, True), repeat=count):
                    js = []
                    for (h, n, s, a, amount), no in zip(entries, missing):
                        d = {'txid': shown(h), 'vout': n, 'scriptPubKey': s.hex(), 'confirmations': n, 'account': 'x'}
                        if not no:
                            d['address'] = str(a)
                        js.append(json.dumps(d)[:-1] + ', "amount": %s}' % forms(amount)[0])
                    for args, want in (((), [0, 9999999]), ((1,), [1, 9999999]), ((2, 3), [2, 3]), ((0, 5, []), [0, 5, []]),
                                       ((0, 5, addresses), [0, 5, [str(a) for a in addresses]]), ((0, 5, tuple(map(str, addresses))), [0, 5, [str(a) for a in addresses]]),
                                       ((0, 5, iter(addresses)), [0, 5, [str(a) for a in addresses]])):
                        nd.result('[%s]' % ','.join(js))
                        got = p.listunspent(*args)
                        did('listunspent', *want)
                        ctx.eq(len(got), count, 'number of outputs')
                        for g, (h, n, s, a, amount), no in zip(got, entries, missing):
                            ctx.eq((g['outpoint'].hash, g['outpoint'].n, bytes(g['scriptPubKey']), g['amount'], g['confirmations'], g['account']),
                                   (h, n, s, amount, n, 'x'), 'unspent output')
                            ctx.expect(isinstance(g['scriptPubKey'], CScript), 'class of script')
                            if no:
                                ctx.expect(g.get('address') is None, 'address from nowhere')
                            else:
                                is_address(ctx, g['address'], a.nVersion, bytes(a), 'address of an output')
            # entries that have something in common with each other
            alike = [(h, n, amount, s, a) for h in (HASH, hashes()[3]) for n in (3, 1) for amount in (5 * COIN, 7)
                     for s, a in ((b'\x51', None), (b'\x52', addresses[0]))]
            for count in (1, 2, 3):
                for some in itertools.product(alike, repeat=count):
                    if count == 3 and len({e[3] for e in some}) == 2 and len({e[2] for e in some}) == 2:
                        continue                # pairs have these
                    ctx.cur = [chain, 'alike', some]
                    ctx.state(chain, some)
                    nd.result('[%s]' % ','.join('{"txid": "%s", "vout": %d, "scriptPubKey": "%s", %s"amount": %s}'
                                                % (shown(h), n, s.hex(), '"address": "%s", ' % a if a else '', forms(amount)[0]) for h, n, amount, s, a in some))
                    got = p.listunspent()
                    ctx.eq([(g['outpoint'].hash, g['outpoint'].n, g['amount'], bytes(g['scriptPubKey']), str(g['address']) if g.get('address') is not None else None) for g in got],
                           [(h, n, amount, s, str(a) if a else None) for h, n, amount, s, a in some], 'unspent outputs with parts in common')
                    nd.result('true')
                    if count < 3 or some[0][2:] == some[1][2:] == some[2][2:]:
                        ctx.eq(p.lockunspent(False, [COutPoint(h, n) for h, n, amount, s, a in some]), True, 'locked')
                        did('lockunspent', False, [{'txid': shown(h), 'vout': n} for h, n, amount, s, a in some])
                    ctx.step()
            fails(lambda: p.gettxout(COutPoint(HASH, 1)), JSONRPCException, 'error answer')
            fails(lambda: p.lockunspent(True, []), JSONRPCException, 'error answer')

        else:
            for count in range(5):
                nd.result(json.dumps([shown(h) for h in hashes()[:count]]))
                ctx.state(chain, count)
                ctx.eq(p.getrawmempool(), hashes()[:count], 'mempool')
                did('getrawmempool')
                ans = {shown(h): {'size': 5} for h in hashes()[:count]}
                nd.result(json.dumps(ans))
                ctx.eq(p.getrawmempool(True), ans, 'verbose mempool')
                did('getrawmempool', True)
            for count in (99, 100, 101, 252, 253, 1000, 1001, 5000):        # many
                ids = [ref.sha256(b'%d' % k) for k in range(count)]
                ctx.cur = [chain, 'many', count]
                ctx.state(chain, count)
                nd.result(json.dumps([shown(h) for h in ids]))
                ctx.eq(p.getrawmempool(), ids, 'long mempool')
                did('getrawmempool')
                ans = {shown(h): {'size': k} for k, h in enumerate(ids)}
                nd.result(json.dumps(ans))
                ctx.eq(p.getrawmempool(True), ans, 'long verbose mempool')
                points = [COutPoint(h, k) for k, h in enumerate(ids)]
                nd.result('true')
                ctx.eq(p.lockunspent(False, points), True, 'many locked')
                did('lockunspent', False, [{'txid': shown(h), 'vout': k} for k, h in enumerate(ids)])
                addresses = [CBitcoinAddress(text(versions[k % 2], h[:20])) for k, h in enumerate(ids)]
                nd.result('[%s]' % ','.join('{"txid": "%s", "vout": %d, "scriptPubKey": "51", "amount": %s, "address": "%s"}' % (shown(h), k, forms(k * 1234567)[0], a)
                                            for k, (h, a) in enumerate(zip(ids, addresses))))
                got = p.listunspent(0, 9, addresses)
                did('listunspent', 0, 9, [str(a) for a in addresses])
                ctx.eq([(g['outpoint'].hash, g['outpoint'].n, g['amount'], str(g['address'])) for g in got],
                       [(h, k, k * 1234567, str(a)) for k, (h, a) in enumerate(zip(ids, addresses))], 'many unspent outputs')
            for where in ('10.0.0.1:8333', '[::1]:5'):
                nd.result('null')
                for name, what in (('addnode', 'add'), ('addnodeonetry', 'onetry'), ('removenode', 'remove')):
                    ctx.eq(getattr(p, name)(where), None, name)
                    did('addnode', where, what)
            # calls that are not converted, and those of a raw proxy
            for q in (p, nd.proxy(RawProxy)):
                for name in ('getdifficulty', 'help', 'some_method', 'getblockcount', 'x'):
                    for args in ((), (1,), (None,), ('a', [1, {'b': False}]), (1.5, -3), ('\u4e00',)):
                        for js, want in (('null', None), ('5', 5), ('"x"', 'x'), ('[1, {"a": null}]', [1, {'a': None}]), ('0.1', D('0.1')), ('1.00000001', D('1.00000001')),
                                         ('20999999.97690000', D('20999999.97690000')), ('true', True)):
                            nd.result(js)
                            ctx.eq(getattr(q, name)(*args), want, 'unconverted')
                            did(name, *[D(str(a)) if isinstance(a, float) else a for a in args])
                fails(lambda: q.help('x'), JSONRPCException, 'error answer')
            # several calls in one request
            for q in (nd.proxy(), nd.proxy(RawProxy)) if hasattr(RawProxy, '_batch') else ():
                for n in (0, 1, 2, 5):
                    asked = [{'version': '1.1', 'method': 'm%d' % i, 'params': [i, None, '\u4e00', [0.5]], 'id': n - i} for i in range(n)]
                    body = '[' + ', '.join('{"result": %s, "error": null, "id": %d}' % (('20999999.97690000', '"\u4e00"', '[0.00000001]')[i % 3], n - i) for i in range(n)) + ']'
                    nd.http = lambda req: response(body.encode())
                    got = q._batch(iter(asked) if n % 2 else asked)
                    nd.http = None
                    ctx.eq(got, [{'result': (D('20999999.97690000'), '\u4e00', [D('0.00000001')])[i % 3], 'error': None, 'id': n - i} for i in range(n)], 'batch')
                    ctx.eq(nd.server.requests[-1][2], [dict(c, params=c['params'][:3] + [[D('0.5')]]) for c in asked], 'batch:request')
                    ctx.step()
                nd.result('0.30000000')
                ctx.eq(q.some_method(1), D('0.30000000'), 'after a batch')
            q = nd.proxy(RawProxy)
            for name in ('getblock', 'getbalance', 'sendtoaddress'):
                nd.result('0.30000000')
                ctx.eq(getattr(q, name)('a', 2), D('0.30000000'), 'raw call')
                did(name, 'a', 2)
        ctx.trace([chain, part])


def long(ctx, param):
    """Long answers and long requests"""
    size, = param
    with node() as nd:
        p, raw = nd.proxy(), nd.proxy(RawProxy)
        for k in range(2):
            ctx.cur = [size, k]
            body = (bytes(range(256)) * (size // 256 + 1))[:size]
            s = body.hex()
            nd.result('"%s"' % s)
            ctx.expect(raw.getblock('x') == s, 'long answer')
            ctx.eq(nd.asked(), ('getblock', ['x']), 'request')
            # a transaction of about this size, asked for and sent
            t = (1, (((b'\1' * 32, 0), b'', 0),), ((5, body), (6, b'\x51')), size)
            tx = btc.tx(t)
            nd.result('"%s"' % tx.hex())
            got = p.getrawtransaction(HASH)
            ctx.expect(got.serialize() == tx, 'long transaction')
            nd.result('"%s"' % shown(HASH))
            ctx.eq(p.sendrawtransaction(got), HASH, 'id')
            ctx.expect(nd.asked() == ('sendrawtransaction', [tx.hex()]), 'long request')
            nd.result('null')
            params = [s[:size], {'x': [s[size:]]}, size]
            ctx.eq(raw.anything(*params), None, 'result')
            ctx.expect(nd.asked() == ('anything', params), 'long request')
            text = ''.join(chr(0x4e00 + i % 2000) for i in range(size // 3))
            nd.result(json.dumps([text, {'a': text[::-1]}], ensure_ascii=k == 0))
            ctx.expect(raw.anything(text) == [text, {'a': text[::-1]}], 'long text')
            ctx.expect(nd.asked() == ('anything', [text]), 'long text sent')
            ids = [ref.sha256(b'%d' % i) for i in range(size // 64)]
            nd.result(json.dumps([shown(h) for h in ids]))
            ctx.expect(p.getrawmempool() == ids, 'long mempool')
            nd.error(-5, 'y' * size)
            e = ctx.raises(JSONRPCException, lambda: raw.getblock('x'), 'long error')
            ctx.expect(e is not None and e.error == {'code': -5, 'message': 'y' * size}, 'long error')
            ctx.step(7)
        ctx.state(size)
        ctx.trace([size])


# -- failures ---------------------------------------------------------------------------------------------------------------

def response(body, status='200 OK', extra='', version='1.1', length=None):
    return ('HTTP/%s %s\r\nContent-Type: application/json\r\n%sContent-Length: %d\r\n\r\n' % (version, status, extra, len(body) if length is None else length)).encode() + body


def answer(n):
    return ('{"result": "%s", "error": null, "id": %d}' % (shown(HASH), n)).encode()


ERR = {'code': -5, 'message': 'no such thing'}
ERRBODY = json.dumps({'result': None, 'error': ERR, 'id': 1}).encode()
CHUNKED = b'HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\n' + b''.join(b'%x\r\n%s\r\n' % (len(c), c) for c in (answer(1)[:10], answer(1)[10:])) + b'0\r\n\r\n'
ANSWERS = {      # what the node does, and how the call ends: True, the error of the answer, or None for any error
    'ok': (response(answer(1)), True),
    'chunked': (CHUNKED, True),
    'ok, then closed': ((response(answer(1), extra='Connection: close\r\n'), 'close'), True),
    'HTTP/1.0': ((response(answer(1), version='1.0'), 'close'), True),
    'error': (response(ERRBODY), ERR),
    'error 500': (response(ERRBODY, '500 Internal Server Error'), ERR),
    'error 404': (response(ERRBODY, '404 Not Found', 'Connection: close\r\n'), ERR),
    'no result': (response(b'{"error": null, "id": 1}'), 'missing'),
    'unauthorized': ((response(b'<html>401</html>', '401 Unauthorized', 'Connection: close\r\n'), 'close'), None),
    'not JSON': (response(b'{"result": '), None),
    'empty': (response(b''), None),
    'not UTF-8': (response(b'{"result": "\xff", "error": null}'), None),
    'closed at once': ((b'', 'close'), None),
    'closed in the header': ((b'HTTP/1.1 200 OK\r\nContent-', 'close'), None),
    'cut short': ((response(answer(1)[:20], length=len(answer(1))), 'close'), None),
    'garbage': ((b'nonsense\r\n\r\n', 'close'), None),
    'hang': ((b'', 'hang'), None),
    'hang in the body': ((response(answer(1)[:20], length=500), 'hang'), None),
}


def run_failures(ctx, seq, timeout, cls, maker):
    """The sequence of answers; each call ends as its own answer says"""
    with node() as nd:
        todo = list(seq)
        nd.http = lambda req: ANSWERS[todo.pop(0)][0]
        p = cls(service_url=nd.url(), timeout=timeout)
        for k, name in enumerate(seq):
            want = ANSWERS[name][1]
            call = maker(p)
            if want is True:
                ctx.eq(call(), maker(None), 'answer')
            elif want is None:
                e = ctx.raises(Exception, call, 'call without an answer')
                ctx.expect(not isinstance(e, (IndexError, JSONRPCException)), 'class of a transport failure', core.describe(e) if e else '')
            elif want == 'missing':
                ctx.raises((IndexError, JSONRPCException), call, 'answer without a result')
            else:
                e = ctx.raises((IndexError, JSONRPCException), call, 'error answer')
                if isinstance(e, JSONRPCException):
                    ctx.eq(e.error, ERR, 'error')
                elif e is not None:
                    ctx.expect('no such thing' in str(e), 'message')
            ctx.step()
            ctx.eq(len(nd.server.requests), k + 1, 'requests made')
            ctx.eq(nd.server.requests[-1][1].get('authorization'), 'Basic ' + base64.b64encode(b'user:pass').decode(), 'authorization')
            ctx.state(seq[max(0, k - 1):k + 1])
            ctx.outcome(name)
        ctx.trace([seq])


MAKERS = [(Proxy, lambda p: HASH if p is None else lambda: p.getblockhash(7)), (RawProxy, lambda p: shown(HASH) if p is None else lambda: p.getbestblockhash())]


def failures(ctx, param):
    first, depth = param
    names = [n for n in ANSWERS if not n.startswith('hang')]
    for rest in itertools.product(names, repeat=depth - 1):
        seq = (first,) + rest
        ctx.cur = list(seq)
        cls, maker = MAKERS[sum(map(len, seq)) % 2]
        run_failures(ctx, seq, TIMEOUT, cls, maker)


def hangs(ctx, seq):
    ctx.cur = list(seq)
    run_failures(ctx, seq, 2, *MAKERS[0])


# -- connection parameters --------------------------------------------------------------------------------------------------

class Wire:
    """Stands in for the network: records where a connection goes and what comes first; nothing is connected"""
    def __init__(self):
        self.seen = []

    def __enter__(self):
        self.real = socket.create_connection
        socket.create_connection = self.connect
        return self

    def __exit__(self, *exc):
        socket.create_connection = self.real

    def connect(self, address, timeout=None, *args, **kw):
        with socket.socket() as server:
            server.bind(('127.0.0.1', 0))
            server.listen(1)
            a = socket.socket()
            a.settimeout(10)
            a.connect(server.getsockname())
            b, _ = server.accept()

        def listen():
            got = b''
            with b:
                while b'\r\n\r\n' not in got and got[:1] != b'\x16':
                    c = b.recv(65536)
                    if not c:
                        break
                    got += c
            self.seen.append((address, timeout, got))
            self.done.set()
        self.done = threading.Event()
        threading.Thread(target=listen, daemon=True).start()
        return a

    def one(self, proxy):
        del self.seen[:]
        try:
            proxy.getblockcount()
        except Exception:
            pass
        self.done.wait(10)
        address, timeout, got = self.seen[0]
        head = {}
        for line in got.decode('latin1').split('\r\n')[1:]:
            if ':' in line:
                k, v = line.split(':', 1)
                head[k.lower()] = v.strip()
        return address, timeout, got, head


def basic(user, password):
    return 'Basic ' + base64.b64encode(('%s:%s' % (user, password)).encode()).decode()


PASSWORDS = ['secret', 'a/b', 'a?b', 'a@b', 'a:b', 'a%2fb', '[x]', 'a=b', '=', '//', 'p\u00e4ss', 'a b', '\\', '"q"', "'", '+', '&', ';', '0', 'a@b:1/c?d']
# lines of the file, and what they set
LINES = {'# comment': {}, '': {}, '   ': {}, 'server=1': {}, 'noequals': {}, 'rpcport=12345': {'port': 12345}, 'rpcport = 1 # the port': {'port': 1},
         '#rpcport=99': {}, 'rpcssl=0': {'ssl': False}, 'rpcssl=1': {'ssl': True}, 'rpcssl=false': {'ssl': False}, 'rpcssl = True': {'ssl': True}, 'rpcallowip=1.2.3.4': {}}


def configured(ctx, param):
    chain, part = param
    bitcoin.SelectParams(chain)
    default = CHAINS[chain][5]
    tmp = tempfile.mkdtemp(prefix='mc-c33-')
    home = os.environ.get('HOME')
    try:
        with Wire() as wire:
            def check(conf, port, user, password, ssl, where='file', **kw):
                path = os.path.join(tmp, 'bitcoin.conf')
                if where == 'home':
                    os.makedirs(os.path.join(tmp, '.bitcoin'), exist_ok=True)
                    path = os.path.join(tmp, '.bitcoin', 'bitcoin.conf')
                    os.environ['HOME'] = tmp
                else:
                    kw['btc_conf_file'] = path
                with open(path, 'w', encoding='utf8') as fd:
                    fd.write(conf)
                ctx.cur = [chain, conf, where, {k: v for k, v in kw.items() if k != 'btc_conf_file'}]
                ctx.state(chain, conf, where, str(sorted(kw)))
                for cls in (Proxy, RawProxy):
                    address, timeout, got, head = wire.one(cls(**kw))
                    ctx.eq(address, ('localhost', port), 'address')
                    ctx.eq(timeout, kw.get('timeout', 30), 'timeout')
                    ctx.eq(got[:1] == b'\x16', ssl, 'encryption')
                    if not ssl:
                        ctx.eq((got[:7], head.get('authorization')), (b'POST / ', basic(user, password)), 'authorization')
                    ctx.step()
                ctx.outcome('configurations')
                ctx.trace([chain, conf])

            if part == 'passwords':
                for user, pw in itertools.product(('user', 'u@x', 'a/b', 'a b', '\u00e9'), PASSWORDS):
                    check('rpcuser=%s\nrpcpassword=%s\n' % (user, pw), default, user, pw, False)
                for where in ('file', 'home'):
                    check('rpcuser=u\nrpcpassword=p', default, 'u', 'p', False, where)
                    check('rpcuser=u\nrpcpassword=p\nrpcport=5', 5, 'u', 'p', False, where)
                    check('rpcuser=u\nrpcpassword=p', 777, 'u', 'p', False, where, service_port=777)
                    check('rpcuser=u\nrpcpassword=p\nrpcport=5', 5, 'u', 'p', False, where, service_port=777)
                    check('rpcuser=u\nrpcpassword=p', default, 'u', 'p', False, where, timeout=3)
                for bad in ('2', 'yes', '', 'ssl'):
                    with open(os.path.join(tmp, 'bad.conf'), 'w') as fd:
                        fd.write('rpcuser=u\nrpcpassword=p\nrpcssl=%s\n' % bad)
                    ctx.raises(ValueError, lambda: Proxy(btc_conf_file=os.path.join(tmp, 'bad.conf')), 'rpcssl value')
                ctx.raises(IOError, lambda: Proxy(btc_conf_file=os.path.join(tmp, 'absent.conf')), 'missing file')
            elif part == 'urls':
                for scheme, host, port, user, pw, path in itertools.product(('http', 'https'), ('localhost', '127.0.0.1', 'node.example'), (None, 80, 8332, 65535),
                                                                              ('user', 'u'), ('pass', 'p-w_x.y'), ('', '/', '/wallet/x')):
                    if scheme == 'https' and port is None:
                        continue
                    url = '%s://%s:%s@%s%s%s' % (scheme, user, pw, host, '' if port is None else ':%d' % port, path)
                    ctx.cur = [url]
                    ctx.state(url)
                    address, timeout, got, head = wire.one(Proxy(service_url=url))
                    ctx.eq(address, (host, port or 80), 'address')
                    ctx.eq(got[:1] == b'\x16', scheme == 'https', 'encryption')
                    if scheme == 'http':
                        ctx.eq((got.split(b'\r\n')[0].decode(), head.get('authorization')), ('POST %s HTTP/1.1' % (path or '/'), basic(user, pw)), 'request')
                    ctx.step()
                    ctx.outcome('urls')
                    ctx.trace([url])
            else:
                # every order of the credentials among up to two other lines
                for others in itertools.product(LINES, repeat=2):
                    if others[0] == others[1]:
                        continue
                    sets = {}
                    for o in others:
                        if set(LINES[o]) & set(sets):
                            break               # set twice: unspecified
                        sets.update(LINES[o])
                    else:
                        for conf in (['rpcuser=u', 'rpcpassword=p', others[0], others[1]], [others[0], 'rpcpassword = p', others[1], ' rpcuser =u # me']):
                            check('\n'.join(conf) + '\n', sets.get('port', default), 'u', 'p', sets.get('ssl', False))
    finally:
        if home is not None:
            os.environ['HOME'] = home
        shutil.rmtree(tmp)


def spaces(tier):
    deep = tier == 'thorough'
    names = [n for n in ANSWERS if not n.startswith('hang')]
    hang = [n for n in ANSWERS if n.startswith('hang')]
    parts = ('addresses', 'blocks', 'transactions', 'outputs', 'others')
    return [
        core.Space('amounts received', {'amounts': len(amounts(deep)), 'forms': '3 to 5 of each'}, received, [(k, deep) for k in range(8)], disjoint=True),
        core.Space('amounts sent', {'amounts': len(amounts(deep))}, sent, [(k, deep) for k in range(8)], disjoint=True),
        core.Space('calls', {'chains': 3, 'groups of calls': len(parts)}, calls, [(c, p) for c in CHAINS for p in parts], disjoint=True),
        core.Space('long', {'sizes': '1000 to %d bytes' % (1 << 24 if deep else 9 << 19)}, long,
                   [(n,) for n in [1000, 8191, 8192, 8193, 16385, 65535, 65537, 100000, 1 << 20, (1 << 20) + 1, 2 << 20, 3 << 20, (9 << 19) + 5] + ([1 << 23, 1 << 24] if deep else [])], disjoint=True),
        core.Space('failures', {'behaviours of the node': len(names), 'sequences of calls': 4 if deep else 3}, failures,
                   [(n, 4 if deep else 3) for n in names]),
        core.Space('hangs', {'sequences': 'a call that times out before and after every other behaviour'}, hangs,
                   [(h, n, 'ok') for h in hang for n in names] + ([(n, h, 'ok') for h in hang for n in names] + [(a, b, 'ok') for a in hang for b in hang] if deep else
                                                                  [('ok', h, 'ok') for h in hang])),
        core.Space('connections', {'files': 'credentials with special characters, all pairs of other lines', 'chains': 3}, configured,
                   [(c, p) for c in CHAINS for p in ('passwords', 'lines')] + [('mainnet', 'urls')], disjoint=True),
    ]
