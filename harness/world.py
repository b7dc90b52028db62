"""A simulated Internet: the web services bit talks to, as their APIs are documented."""
import json, re
from urllib.parse import urlsplit, parse_qsl, unquote_plus
import requests

MAIN_SERVICES = ('Blockchair', 'Blockstream', 'Bitcore', 'Smartbit', 'Blockchain')


class Book:
    """What one service knows about addresses and transactions of one network."""
    def __init__(self, height=700000):
        self.height = height
        self.addr = {}          # address -> {'chain': [txid], 'mempool': [txid], 'utxo': [coin], 'balance': int|None}
        self.raw = {}           # txid -> hex

    def get(self, a):
        return self.addr.get(a, {'chain': [], 'mempool': [], 'utxo': [], 'balance': None, 'script': ''})

    def balance(self, a):
        d = self.get(a)
        return d['balance'] if d.get('balance') is not None else sum(u['value'] for u in d['utxo'])


def coin(txid, vout, value, script, height):
    return {'txid': txid, 'vout': vout, 'value': value, 'script': script, 'height': height}


def conf(book, u):
    return 0 if u['height'] is None else book.height - u['height'] + 1


class World:
    def __init__(self):
        self.books = {}             # (service, net) -> Book ; ('*', net) default
        self.fault = {}             # service -> fault | list of faults by request index | callable
        self.log = []               # [{'svc','net','op','status'}]
        self.counts = {}
        self.broadcasts = []        # (service, net, hex or body)
        self.accept = {}            # service -> True/False (broadcast verdict)
        self.fees = {'fastestFee': 30, 'halfHourFee': 25, 'hourFee': 20}
        self.rates = {}             # (provider, CUR) -> text/number
        self.nodes = {}             # 'host:port' -> callable(method, params) -> ('result', x)|('error', status, obj)
        self.blockstream_utxo_limit = 500
        self.not_found = {}         # service -> style for unknown things

    # -- plumbing -------------------------------------------------------
    def book(self, svc, net):
        return self.books.get((svc, net)) or self.books.get(('*', net)) or Book()

    def handle(self, req):
        u = urlsplit(req.url)
        q = {}
        for k, v in parse_qsl(u.query, keep_blank_values=True):
            q.setdefault(k, v)
        body = req.body
        if isinstance(body, bytes):
            body = body.decode('utf-8', 'replace')
        body = body or ''
        svc, net, fn = self.route(req.method, u, q, body, req)
        n = self.counts.get(svc, 0)
        self.counts[svc] = n + 1
        entry = {'svc': svc, 'net': net, 'op': fn.__name__ if fn else 'unknown', 'url': req.url, 'fault': ''}
        self.log.append(entry)
        f = self.fault.get(svc)
        if isinstance(f, (list, tuple)) and f and isinstance(f[0], (list, tuple, type(None))):
            f = f[n] if n < len(f) else None
        elif isinstance(f, dict):
            f = f.get(n)
        if f:
            entry['fault'] = str(f)
            kind = f[0]
            if kind == 'refused':
                raise requests.exceptions.ConnectionError('refused')
            if kind == 'timeout':
                raise requests.exceptions.ReadTimeout('timeout')
            if kind == 'ctimeout':
                raise requests.exceptions.ConnectTimeout('timeout')
            if kind == 'status':
                return f[1], (f[2] if len(f) > 2 else 'error')
            raise AssertionError(f)
        if fn is None:
            entry['fault'] = 'unknown-endpoint'
            return 404, 'not found'
        status, out = fn()
        entry['status'] = status
        return status, out if isinstance(out, str) else json.dumps(out)

    def route(self, method, u, q, body, req):
        host, path = u.netloc.split('@')[-1], u.path
        hostname = u.hostname or ''
        if host in self.nodes:
            return 'node:' + host, '-', lambda: self.node(host, body)
        if hostname == 'mempool.space':
            def fees():
                return (200, self.fees) if path == '/api/v1/fees/recommended' else (404, 'no')
            return 'fees', '-', fees
        if hostname == 'bitpay.com':
            def bitpay():
                m = re.fullmatch(r'/rates/BTC/([A-Za-z]+)', path)
                r = self.rates.get(('bitpay', m.group(1).upper())) if m else None
                return (404, '{"error":"not found"}') if r is None else (200, {'data': {'code': m.group(1).upper(), 'name': m.group(1), 'rate': r}})
            return 'bitpay', '-', bitpay
        if hostname == 'blockchain.info':
            if path == '/tobtc':
                def tobtc():
                    r = self.rates.get(('blockchain', q.get('currency', '').upper())) if q.get('value') == '1' else None
                    return (500, 'bad currency') if r is None else (200, str(r))
                return 'blockchainrates', '-', tobtc
            return 'Blockchain', 'main', self.blockchain(method, path, q, body)
        if hostname == 'api.blockchair.com':
            m = re.fullmatch(r'/bitcoin/(testnet/)?(.*)', path)
            if m:
                net = 'test' if m.group(1) else 'main'
                return 'Blockchair', net, self.blockchair(method, net, m.group(2), q, body)
            return 'Blockchair', '?', None
        if hostname == 'blockstream.info':
            m = re.fullmatch(r'/(testnet/)?api/(.*)', path)
            if m:
                net = 'test' if m.group(1) else 'main'
                return 'Blockstream', net, self.blockstream(method, net, m.group(2), q, body)
            return 'Blockstream', '?', None
        if hostname == 'api.bitcore.io':
            m = re.fullmatch(r'/api/BTC/(mainnet|testnet)/(.*)', path)
            if m:
                net = 'main' if m.group(1) == 'mainnet' else 'test'
                return 'Bitcore', net, self.bitcore(method, net, m.group(2), q, body)
            return 'Bitcore', '?', None
        if hostname in ('api.smartbit.com.au', 'testnet-api.smartbit.com.au'):
            net = 'main' if hostname.startswith('api') else 'test'
            m = re.fullmatch(r'/v1/blockchain/(.*)', path)
            return 'Smartbit', net, self.smartbit(method, net, m.group(1), q, body, u) if m else None
        return 'unknown:' + hostname, '?', None

    def push(self, svc, net, body):
        """Broadcast endpoint: find the submitted hex in whatever form it came."""
        def push():
            text = unquote_plus(body)
            try:
                j = json.loads(body)
            except ValueError:
                j = None
            named = {k: v for k, v in j.items() if isinstance(v, str)} if isinstance(j, dict) else dict(parse_qsl(body))
            # the field each service documents (Blockstream also takes the bare hex)
            field = {'Blockchair': 'data', 'Bitcore': 'rawTx', 'Blockchain': 'tx', 'Smartbit': 'hex'}.get(svc)
            if field and field not in named:
                return 400, 'no transaction'
            cands = [named[field]] if field else list(named.values()) or [text]
            tx = max((c for c in cands if re.fullmatch('[0-9a-fA-F]*', c)), key=len, default='')
            self.broadcasts.append((svc, net, tx))
            a = self.accept.get(svc, True)
            if a is True:
                return 200, {'data': 'ok'}
            return (a if isinstance(a, int) and a is not False else 400), 'rejected'
        return push

    # -- Blockchair -------------------------------------------------------
    def blockchair(self, method, net, p, q, body):
        b = self.book('Blockchair', net)
        m = re.fullmatch(r'dashboards/address/([^/]+)', p)
        if m and method == 'GET':
            a = m.group(1)

            def address():
                d = b.get(a)
                limit, off = min(int(q.get('limit', 100)), 10000), int(q.get('offset', 0))
                txs = list(d['mempool']) + list(d['chain'])
                if not txs and not d['utxo'] and self.not_found.get('Blockchair') == '404':
                    return 404, {'data': None, 'context': {'code': 404}}
                return 200, {'data': {a: {
                    'address': {'balance': b.balance(a), 'script_hex': d['script'], 'transaction_count': len(txs), 'unspent_output_count': len(d['utxo'])},
                    'transactions': txs[off:off + limit],
                    'utxo': [{'block_id': -1 if c['height'] is None else c['height'], 'transaction_hash': c['txid'], 'index': c['vout'], 'value': c['value']}
                             for c in d['utxo'][off:off + limit]]}},
                    'context': {'code': 200, 'state': b.height}}
            return address
        m = re.fullmatch(r'raw/transaction/([0-9a-f]+)', p)
        if m and method == 'GET':
            def tx():
                if m.group(1) not in b.raw:
                    return (404, {'data': None}) if self.not_found.get('Blockchair') == '404' else (200, {'data': None})
                return 200, {'data': {m.group(1): {'raw_transaction': b.raw[m.group(1)]}}}
            return tx
        if p == 'push/transaction' and method == 'POST':
            return self.push('Blockchair', net, body)
        return None

    # -- Blockstream ------------------------------------------------------
    def blockstream(self, method, net, p, q, body):
        b = self.book('Blockstream', net)
        m = re.fullmatch(r'address/([^/]+)', p)
        if m and method == 'GET':
            a = m.group(1)

            def stats():
                bal = b.balance(a)
                unconf = sum(c['value'] for c in b.get(a)['utxo'] if c['height'] is None)
                return 200, {'address': a, 'chain_stats': {'funded_txo_sum': bal - unconf + 5000, 'spent_txo_sum': 5000},
                             'mempool_stats': {'funded_txo_sum': unconf + 700, 'spent_txo_sum': 700}}
            return stats
        m = re.fullmatch(r'address/([^/]+)/txs/mempool', p)
        if m and method == 'GET':
            def mempool():
                return 200, [{'txid': t} for t in b.get(m.group(1))['mempool'][:50]]
            return mempool
        m = re.fullmatch(r'address/([^/]+)/txs', p)
        if m and method == 'GET':
            def alltxs():
                d = b.get(m.group(1))
                return 200, [{'txid': t} for t in d['mempool'][:50] + d['chain'][:25]]
            return alltxs
        m = re.fullmatch(r'address/([^/]+)/txs/chain(?:/([0-9a-f]*))?', p)
        if m and method == 'GET':
            def chain():
                c = list(b.get(m.group(1))['chain'])
                last = m.group(2)
                if last:
                    if last not in c:
                        return 200, []
                    c = c[c.index(last) + 1:]
                return 200, [{'txid': t} for t in c[:25]]
            return chain
        m = re.fullmatch(r'address/([^/]+)/utxo', p)
        if m and method == 'GET':
            def utxo():
                us = b.get(m.group(1))['utxo']
                if len(us) > self.blockstream_utxo_limit:
                    return 400, 'Too many history entries'
                return 200, [{'txid': c['txid'], 'vout': c['vout'], 'value': c['value'],
                              'status': {'confirmed': False} if c['height'] is None else {'confirmed': True, 'block_height': c['height']}} for c in us]
            return utxo
        if p == 'blocks/tip/height' and method == 'GET':
            def tip():
                return 200, str(b.height)
            return tip
        m = re.fullmatch(r'tx/([0-9a-f]+)/hex', p)
        if m and method == 'GET':
            def tx():
                return (200, b.raw[m.group(1)]) if m.group(1) in b.raw else (404, 'Transaction not found')
            return tx
        if p == 'tx' and method == 'POST':
            return self.push('Blockstream', net, body)
        return None

    # -- Bitcore ----------------------------------------------------------
    def bitcore(self, method, net, p, q, body):
        b = self.book('Bitcore', net)
        m = re.fullmatch(r'address/([^/]+)/balance', p)
        if m and method == 'GET':
            def balance():
                v = b.balance(m.group(1))
                return 200, {'confirmed': v - 1, 'unconfirmed': 1, 'balance': v}
            return balance
        m = re.fullmatch(r'address/([^/]+)/?', p)
        if m and method == 'GET':
            def coins():
                d = b.get(m.group(1))
                us = d['utxo'] if q.get('unspent') == 'true' else d['utxo'] + d.get('spent', [])
                ids = ['%s:%d' % (c['txid'], c['vout']) for c in us]
                start = 0
                if 'since' in q:
                    start = ids.index(q['since']) + 1 if q['since'] in ids else 0
                lim = int(q.get('limit', 10))
                return 200, [{'_id': ids[i], 'mintTxid': us[i]['txid'], 'mintIndex': us[i]['vout'], 'value': us[i]['value'],
                              'script': us[i]['script'], 'confirmations': conf(b, us[i]), 'mintHeight': us[i]['height'] or -1}
                             for i in range(start, min(len(us), start + lim))]
            return coins
        if p == 'tx/send' and method == 'POST':
            return self.push('Bitcore', net, body)
        return None

    # -- blockchain.info --------------------------------------------------
    def blockchain(self, method, path, q, body):
        b = self.book('Blockchain', 'main')
        m = re.fullmatch(r'/(?:raw)?addr(?:ess)?/([^/]+)', path)
        if m and method == 'GET' and q.get('format') == 'json':
            def address():
                d = b.get(m.group(1))
                txs = list(d['mempool']) + list(d['chain'])
                off, lim = int(q.get('offset', 0)), min(int(q.get('limit', 50)), 50)
                return 200, {'n_tx': len(txs), 'final_balance': b.balance(m.group(1)), 'txs': [{'hash': t} for t in txs[off:off + lim]]}
            return address
        if path == '/unspent' and method == 'GET':
            def unspent():
                d = b.get(q.get('active', ''))
                if not d['utxo']:
                    return 500, 'No free outputs to spend'
                off, lim = int(q.get('offset', 0)), min(int(q.get('limit', 250)), 1000)
                return 200, {'unspent_outputs': [
                    {'value': c['value'], 'confirmations': conf(b, c), 'script': c['script'], 'tx_hash_big_endian': c['txid'],
                     'tx_hash': bytes.fromhex(c['txid'])[::-1].hex(), 'tx_output_n': c['vout']} for c in d['utxo'][off:off + lim]]}
            return unspent
        m = re.fullmatch(r'/rawtx/([0-9a-f]+)', path)
        if m and method == 'GET' and q.get('format') == 'hex':
            def tx():
                return (200, b.raw[m.group(1)]) if m.group(1) in b.raw else (500, 'Transaction not found')
            return tx
        if path == '/pushtx' and method == 'POST':
            return self.push('Blockchain', 'main', body)
        return None

    # -- Smartbit ---------------------------------------------------------
    def smartbit(self, method, net, p, q, body, u):
        b = self.book('Smartbit', net)
        lim = min(int(q.get('limit', 10)), 1000)
        off = int(q.get('next', '0') or 0)

        def link(total):
            if off + lim >= total:
                return None
            return '%s://%s%s?next=%d&limit=%d' % (u.scheme, u.netloc, u.path, off + lim, lim)
        m = re.fullmatch(r'address/([^/]+)', p)
        if m and method == 'GET':
            a = m.group(1)

            def address():
                d = b.get(a)
                txs = list(d['mempool']) + list(d['chain'])
                out = {'address': a, 'total': {'balance_int': b.balance(a), 'balance': '%.8f' % (b.balance(a) / 1e8)}}
                if txs:
                    out['transactions'] = [{'txid': t} for t in txs[off:off + lim]]
                    out['transaction_paging'] = {'next_link': link(len(txs)), 'limit': lim}
                return 200, {'success': True, 'address': out}
            return address
        m = re.fullmatch(r'address/([^/]+)/unspent', p)
        if m and method == 'GET':
            def unspent():
                us = b.get(m.group(1))['utxo']
                out = {'success': True, 'paging': {'next_link': link(len(us)), 'limit': lim}}
                out['unspent'] = [{'value': '%d.%08d' % divmod(c['value'], 10 ** 8), 'value_int': c['value'], 'confirmations': conf(b, c),
                                   'script_pub_key': {'hex': c['script']}, 'txid': c['txid'], 'n': c['vout']} for c in us[off:off + lim]]
                return 200, out
            return unspent
        m = re.fullmatch(r'tx/([0-9a-f]+)/hex', p)
        if m and method == 'GET':
            def tx():
                return (200, {'hex': [{'txid': m.group(1), 'hex': b.raw[m.group(1)]}]}) if m.group(1) in b.raw else (400, 'not found')
            return tx
        if p == 'pushtx' and method == 'POST':
            return self.push('Smartbit', net, body)
        return None

    # -- a Bitcoin node ---------------------------------------------------
    def node(self, host, body):
        j = json.loads(body)
        out = self.nodes[host](j.get('method'), j.get('params'))
        # nodes answer in the old style (both members, one of them null) or in that of JSON-RPC 2.0 (only one)
        self.answers = getattr(self, 'answers', 0) + 1
        new = (len(body) + self.answers) % 2
        if out[0] == 'result':
            res = out[1][7:] if isinstance(out[1], str) and out[1].startswith('RAWJSON') else json.dumps(out[1])
            return 200, '{"jsonrpc": "2.0", "result": %s, "id": null}' % res if new else '{"result": %s, "error": null, "id": null}' % res
        return out[1], json.dumps({'jsonrpc': '2.0', 'error': out[2], 'id': None} if new and out[2] is not None else {'result': None, 'error': out[2], 'id': None})
