"""A JSON-RPC node on the loopback interface"""
import decimal, json, socket, traceback


class Server:
    """answer(method, params) gives the answer as a dict, or its JSON text; it runs in a thread.

    raw(request, headers), if given, may give the whole HTTP response instead, as
    bytes, and with 'close' or 'hang' in a tuple what to do with the connection then.
    """
    def __init__(self, answer, raw=None):
        import threading
        self.answer, self.raw = answer, raw
        self.sock = socket.socket()
        self.sock.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
        self.sock.bind(('127.0.0.1', 0))
        self.sock.listen(64)
        self.port = self.sock.getsockname()[1]
        self.requests = []
        self.hanging = threading.Event()
        self.thread = threading.Thread(target=self.serve, daemon=True)
        self.thread.start()

    def serve(self):
        import threading
        while True:
            try:
                conn, _ = self.sock.accept()
            except OSError:
                return
            threading.Thread(target=self.one, args=(conn,), daemon=True).start()

    def one(self, conn):
        with conn, conn.makefile('rb') as fd:
            while True:
                line = fd.readline()
                if not line.strip():
                    return
                headers = {}
                while True:
                    h = fd.readline()
                    if not h.strip():
                        break
                    k, v = h.decode('latin1').split(':', 1)
                    headers[k.strip().lower()] = v.strip()
                body = fd.read(int(headers.get('content-length', 0)))
                try:
                    out = self.respond(line.decode('latin1').split(), headers, body)
                    out, then = out if isinstance(out, tuple) else (out, None)
                    conn.sendall(out)
                    if then == 'hang':
                        self.hanging.wait()
                    if then:
                        return
                except Exception:
                    traceback.print_exc()
                    return

    def respond(self, line, headers, body):
        req = json.loads(body, parse_float=decimal.Decimal)
        self.requests.append((line, headers, req))
        if self.raw is not None:
            r = self.raw(req, headers)
            if r is not None:
                return r
        res = self.answer(req['method'], req['params'])
        if isinstance(res, dict):
            res['id'] = req.get('id')
            res = json.dumps(res)
        data = res.encode()
        return b'HTTP/1.1 200 OK\r\nContent-Type: application/json\r\nContent-Length: %d\r\n\r\n' % len(data) + data

    def close(self):
        self.hanging.set()
        self.sock.close()
