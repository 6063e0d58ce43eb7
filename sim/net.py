"""Network seam: in-memory sockets under the real urllib/http.client/ftplib.

Connections, segmentation, delays, failures and the servers are simulated;
protocol code of the standard library and of the library under test is real.
"""
import calendar
import hashlib
import io
import posixpath
import random
import re
import socket
import ssl
import time
import urllib.parse

from .core import StepLimit, HarnessError, SimCrash

_real_create = socket.create_connection
_real_wrap = ssl.SSLContext.wrap_socket
_gmtime = time.gmtime
_strftime = time.strftime


def content(key, size):
    """deterministic pseudo-random bytes"""
    out = bytearray()
    i = 0
    while len(out) < size:
        out += hashlib.sha256(f'{key}/{i}'.encode()).digest()
        i += 1
    return bytes(out[:size])


class SimSocket:
    family = socket.AF_INET
    type = socket.SOCK_STREAM
    proto = 0

    def __init__(self, net, conn):
        self.net = net
        self.conn = conn
        self.timeout = None
        self._io_refs = 0
        self._closed = False
        self.inbox = []            # bytes | ('eof',) | ('reset',) | ('stall',) | ('delay', s)
        self.blocked_reads = 0

    # --- client side API
    def settimeout(self, t):
        self.timeout = t if isinstance(t, (int, float)) or t is None else None

    def gettimeout(self):
        return self.timeout

    def setblocking(self, flag):
        self.timeout = None if flag else 0

    def setsockopt(self, *a):
        pass

    def getsockopt(self, *a):
        return 0

    def getpeername(self):
        return (self.net.ip(self.conn.host), self.conn.port)

    def getsockname(self):
        return ('10.9.9.9', 40000 + self.conn.number)

    def fileno(self):
        return -1 if self._closed else 1000 + self.conn.number

    def version(self):
        return 'TLSv1.3'

    def getpeercert(self, binary_form=False):
        return {}

    def sendall(self, data, flags=0):
        self.net.ctx.step()
        self._check()
        self.conn.client_sent(bytes(data))

    def send(self, data, flags=0):
        self.sendall(data)
        return len(data)

    def _check(self):
        if self._closed:
            raise OSError(9, 'Bad file descriptor')

    def recv_into(self, buffer, nbytes=0, flags=0):
        net = self.net
        net.ctx.step()
        n = nbytes or len(buffer)
        while True:
            self._check()
            if not self.inbox:
                self.conn.idle()
            if not self.inbox:
                # nothing will ever arrive
                return self._stall()
            head = self.inbox[0]
            if isinstance(head, tuple):
                if head[0] == 'eof':
                    return 0
                if head[0] == 'reset':
                    raise ConnectionResetError(104, 'Connection reset by peer')
                if head[0] == 'stall':
                    return self._stall()
                if head[0] == 'delay':
                    dt = head[1]
                    if self.timeout is not None and dt > self.timeout:
                        return self._stall()
                    net.ctx.advance(dt)
                    self.inbox.pop(0)
                    continue
            k = min(n, len(head))
            buffer[:k] = head[:k]
            if k == len(head):
                self.inbox.pop(0)
            else:
                self.inbox[0] = head[k:]
            return k

    def _stall(self):
        if self.timeout is None:
            self.net.hung = True
            raise StepLimit('blocked forever on a silent connection'
                            ' without a timeout')
        self.net.ctx.advance(self.timeout)
        self.net.ctx.log('net timeout', self.conn.number)
        raise TimeoutError('timed out')

    def recv(self, n, flags=0):
        b = bytearray(n)
        k = self.recv_into(memoryview(b), n)
        return bytes(b[:k])

    def makefile(self, mode='r', buffering=None, *, encoding=None,
                 errors=None, newline=None):
        reading = 'r' in mode
        writing = 'w' in mode
        raw = _SimIO(self, reading, writing)
        self._io_refs += 1
        if buffering == 0:
            return raw
        if reading:
            buf = io.BufferedReader(raw)
        else:
            buf = io.BufferedWriter(raw)
        if 'b' in mode:
            return buf
        text = io.TextIOWrapper(buf, encoding or 'utf-8', errors, newline)
        text.mode = mode
        return text

    def _decref_socketios(self):
        if self._io_refs > 0:
            self._io_refs -= 1

    def shutdown(self, how):
        pass

    def unwrap(self):
        return self

    def close(self):
        if not self._closed:
            self._closed = self._io_refs <= 0
            if self._closed:
                self.conn.client_closed()

    def detach(self):
        self._closed = True
        return -1

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


class _SimIO(io.RawIOBase):
    def __init__(self, sock, reading, writing):
        self._sock = sock
        self._r, self._wr = reading, writing

    def readable(self):
        return self._r

    def writable(self):
        return self._wr

    def readinto(self, b):
        return self._sock.recv_into(b)

    def write(self, b):
        return self._sock.send(b)

    def close(self):
        if not self.closed:
            super().close()
            self._sock._decref_socketios()
            self._sock = None


class Net:
    """the simulated network: hosts, connections and faults"""

    def __init__(self, ctx, faults=(), seg=0):
        self.ctx = ctx
        self.faults = [f for f in faults if f.get('dev') == 'net']
        self.seg = seg
        self.servers = {}
        self.active = []
        self.op = None
        self.n_conn = 0            # connections in this op
        self.total = 0
        self.hung = False
        self.requests = []         # HTTP requests seen by servers
        self.data_ports = {}
        self.disk = None           # for 'the process dies' inside transfers

    def add(self, host, port, server):
        self.servers[(host, port)] = server
        server.net = self
        server.host = host

    def ip(self, host):
        return '10.0.' + '.'.join(str(b) for b in
                                  hashlib.sha256(host.encode()).digest()[:2])

    def begin(self, op):
        self.op = op
        self.n_conn = 0
        self.hung = False
        self.active = [dict(f, fired=False) for f in self.faults
                       if f.get('op') == op]

    def end(self):
        fired = [f for f in self.active if f['fired']]
        self.active = []
        self.op = None
        return fired

    def take(self, conn, *kinds):
        """the fault of one of these kinds that applies to this connection"""
        for f in self.active:
            if not f['fired'] and f['kind'] in kinds and \
                    f.get('conn', 0) == conn.index:
                return f
        return None

    def fire(self, f, *args):
        f['fired'] = True
        self.ctx.fault('net_' + f['kind'], *args)

    def connect(self, address, timeout=socket._GLOBAL_DEFAULT_TIMEOUT,
                source_address=None, **kw):
        host, port = address[0], int(address[1])
        self.ctx.step()
        index = self.n_conn
        self.n_conn += 1
        self.total += 1
        self.ctx.log('connect', host, port, index)
        probe = type('c', (), dict(index=index))
        t = timeout if isinstance(timeout, (int, float)) else None
        f = self.take(probe, 'dns', 'refused', 'ctimeout', 'unreachable')
        if f:
            self.fire(f, host)
            if f['kind'] == 'dns':
                raise socket.gaierror(-2, 'Name or service not known')
            if f['kind'] == 'refused':
                raise ConnectionRefusedError(111, 'Connection refused')
            if f['kind'] == 'unreachable':
                raise OSError(101, 'Network is unreachable')
            self.ctx.advance(t if t is not None else 130)
            raise TimeoutError('timed out')
        if (host, port) in self.data_ports:
            maker = self.data_ports.pop((host, port))
            conn = maker(self, host, port, self.total, index)
        else:
            server = self.servers.get((host, port))
            if server is None:
                # names outside the simulated world do not resolve
                self.ctx.log('no such host', host)
                raise socket.gaierror(-2, f'Name or service not known: {host}')
            conn = server.accept(self, host, port, self.total, index)
        sock = SimSocket(self, conn)
        sock.settimeout(t)
        conn.sock = sock
        conn.opened()
        return sock

    def wrap(self, context, sock, *args, **kw):
        if not isinstance(sock, SimSocket):
            return _real_wrap(context, sock, *args, **kw)
        f = self.take(sock.conn, 'tls')
        if f:
            self.fire(f)
            raise ssl.SSLError(1, '[SSL] record layer failure')
        sock.conn.tls = True
        return sock

    def __enter__(self):
        net = self
        self.saved = (socket.create_connection, ssl.SSLContext.wrap_socket)
        socket.create_connection = self.connect
        ssl.SSLContext.wrap_socket = \
            lambda c, s, *a, **k: net.wrap(c, s, *a, **k)
        self._gai = socket.getaddrinfo

        def no_dns(*a, **k):
            raise socket.gaierror(-2, 'no name service in the simulation')
        socket.getaddrinfo = no_dns
        return self

    def __exit__(self, *exc):
        socket.create_connection, ssl.SSLContext.wrap_socket = self.saved
        socket.getaddrinfo = self._gai
        return False

    def segments(self, data, salt=''):
        """cut data into packets"""
        if self.seg <= 0:
            return [data] if data else []
        rng = random.Random(f'{self.seg}/{salt}/{len(data)}')
        out, i = [], 0
        # at most ~40 packets so that runs stay short
        top = max(self.seg, len(data) // 20)
        while i < len(data):
            k = rng.randint(1, top)
            out.append(data[i:i + k])
            i += k
        return out


class Conn:
    tls = False

    def __init__(self, server, net, host, port, number, index):
        self.server, self.net = server, net
        self.host, self.port = host, port
        self.number, self.index = number, index
        self.sock = None

    def opened(self):
        pass

    def idle(self):
        pass

    def client_closed(self):
        pass

    def push(self, data, salt=''):
        self.sock.inbox.extend(self.net.segments(data, salt))


# ---------------------------------------------------------------------- HTTP
class Response:
    def __init__(self, status=200, body=b'', headers=(), framing='length'):
        self.status, self.body = status, body
        self.headers, self.framing = list(headers), framing


REASON = {200: 'OK', 201: 'Created', 204: 'No Content', 301: 'Moved', 302: 'Found',
          400: 'Bad Request', 401: 'Unauthorized', 403: 'Forbidden',
          404: 'Not Found', 429: 'Too Many Requests', 500: 'Server Error',
          502: 'Bad Gateway', 503: 'Service Unavailable'}


class HTTPServer:
    """handler(request dict) -> Response"""

    def __init__(self, handler):
        self.handler = handler

    def accept(self, net, host, port, number, index):
        return HTTPConn(self, net, host, port, number, index)


class HTTPConn(Conn):
    def __init__(self, *a):
        super().__init__(*a)
        self.inbuf = b''

    def client_sent(self, data):
        f = self.net.take(self, 'send_reset')
        if f:
            self.net.fire(f)
            raise BrokenPipeError(32, 'Broken pipe')
        self.inbuf += data
        while b'\r\n\r\n' in self.inbuf:
            head, rest = self.inbuf.split(b'\r\n\r\n', 1)
            lines = head.decode('latin-1').split('\r\n')
            method, target, _ = lines[0].split(' ', 2)
            hd = {}
            for ln in lines[1:]:
                k, v = ln.split(':', 1)
                hd[k.strip().lower()] = v.strip()
            n = int(hd.get('content-length', 0))
            if len(rest) < n:
                return
            body, self.inbuf = rest[:n], rest[n:]
            self.request(dict(method=method, target=target, headers=hd,
                              body=body, host=self.host, tls=self.tls,
                              path=urllib.parse.urlsplit(target).path,
                              query=urllib.parse.urlsplit(target).query))

    def request(self, req):
        net = self.net
        net.ctx.step()
        net.requests.append(req)
        net.ctx.log('request', req['method'], req['host'], req['target'])
        f = net.take(self, 'reset_before', 'close_before', 'status', 'garbage',
                     'stall_before', 'lost_request')
        if f and f['kind'] == 'lost_request':
            # the request never reached the server
            net.fire(f)
            self.sock.inbox.append(('reset',))
            return
        if f and f['kind'] == 'status':
            net.fire(f, f['status'])
            resp = Response(f['status'], b'<html>%d</html>' % f['status'])
        else:
            resp = self.server.handler(req)
        if f and f['kind'] == 'reset_before':
            net.fire(f)
            self.sock.inbox.append(('reset',))
            return
        if f and f['kind'] == 'close_before':
            net.fire(f)
            self.sock.inbox.append(('eof',))
            return
        if f and f['kind'] == 'stall_before':
            net.fire(f)
            self.sock.inbox.append(('stall',))
            return
        if f and f['kind'] == 'garbage':
            net.fire(f)
            self.push(b'\x00\xffgarbage\r\n\r\n')
            self.sock.inbox.append(('eof',))
            return
        c = net.take(self, 'corrupt')
        if c and len(resp.body) > 1:
            # the answer arrives, but damaged
            net.fire(c)
            resp.body = resp.body[:max(1, int(len(resp.body) * c['frac'] * 0.95))]
        head = [f'HTTP/1.1 {resp.status} {REASON.get(resp.status, "X")}']
        body = resp.body if req['method'] != 'HEAD' else b''
        if resp.framing == 'length':
            head.append(f'Content-Length: {len(resp.body)}')
        elif resp.framing == 'chunked':
            head.append('Transfer-Encoding: chunked')
            rng = random.Random(f'chunk/{len(body)}')
            out, i = b'', 0
            while i < len(body):
                k = rng.randint(1, max(1, len(body) // 3))
                part = body[i:i + k]
                out += b'%x\r\n' % len(part) + part + b'\r\n'
                i += k
            body = out + b'0\r\n\r\n'
        head += [f'{k}: {v}' for k, v in resp.headers]
        head.append('Connection: close')
        top = ('\r\n'.join(head) + '\r\n\r\n').encode()
        f = net.take(self, 'reset', 'truncate', 'stall', 'delay')
        if f and (f['kind'] == 'delay' or len(body) or f.get('hdr')):
            if f['kind'] == 'truncate' and resp.framing == 'close' and \
                    not f.get('hdr'):
                f = None        # not detectable by any client
        else:
            f = None
        if f is None:
            self.push(top + body, req['target'])
            self.sock.inbox.append(('eof',))
            return
        net.fire(f, req['target'])
        if f['kind'] == 'delay':
            segs = net.segments(top + body, req['target'])
            k = int(len(segs) * f.get('frac', 0.5))
            self.sock.inbox += segs[:k] + [('delay', f.get('dt', 1.0))] + segs[k:]
            self.sock.inbox.append(('eof',))
            return
        if f.get('hdr'):
            data = top[:max(1, int(len(top) * f['frac'] * 0.95))]
            if f['kind'] == 'truncate' and not re.search(
                    rb'Content-Length: \d|chunked', data):
                # an answer that ends before any length was announced is, to
                # http.client, a complete empty one: end in the status line
                data = top[:min(len(data), 11)]
        else:
            # at least one byte of the announced body is missing
            cut = min(int(len(body) * f['frac']), len(body) - 1)
            if resp.framing == 'chunked':
                cut = min(cut, len(body) - 8)
            data = top + body[:max(cut, 0)]
        self.push(data, req['target'])
        self.sock.inbox.append(dict(reset=('reset',), truncate=('eof',),
                                    stall=('stall',))[f['kind']])


# ----------------------------------------------------------------------- FTP
class FTPServer:
    """tree: path -> dict(data=bytes, mtime=int); directories are implied"""

    def __init__(self, tree, login=None, mdtm=True):
        self.tree = tree
        self.login = login
        self.mdtm = mdtm
        self.nodate = set()
        self.port = 50000

    def accept(self, net, host, port, number, index):
        return FTPConn(self, net, host, port, number, index)

    def isdir(self, path):
        p = path.strip('/') + '/'
        return p == '/' or any(k.strip('/').startswith(p) for k in self.tree)

    def listing(self, path):
        """names in a directory in server order"""
        p = path.strip('/')
        pre = p + '/' if p else ''
        out = []
        for k in self.tree:
            k = k.strip('/')
            if k.startswith(pre):
                first = k[len(pre):].split('/')[0]
                if first and first not in out:
                    out.append(first)
        return out


class FTPConn(Conn):
    def __init__(self, *a):
        super().__init__(*a)
        self.inbuf = b''
        self.commands = []
        self.user = None
        self.logged = False
        self.data = None
        self.pending = None
        self.closed = False

    def say(self, text):
        self.push(text.encode('utf8') + b'\r\n', text)

    def opened(self):
        f = self.net.take(self, 'ctrl_close', 'ctrl_reset', 'ctrl_stall')
        if f and f.get('cmd') == '*greeting':
            self.net.fire(f, 'greeting')
            self.drop(f)
            return
        self.say('220 simulated server')

    def drop(self, f):
        self.closed = True
        self.sock.inbox.append(dict(ctrl_close=('eof',), ctrl_reset=('reset',),
                                    ctrl_stall=('stall',))[f['kind']])

    def client_sent(self, data):
        self.inbuf += data
        while b'\r\n' in self.inbuf:
            line, self.inbuf = self.inbuf.split(b'\r\n', 1)
            self.command(line.decode('utf8', 'replace'))

    def client_closed(self):
        pass

    def command(self, line):
        net = self.net
        net.ctx.step()
        if self.closed:
            return
        cmd, _, arg = line.partition(' ')
        cmd = cmd.upper()
        net.ctx.log('ftp', self.index, cmd, '***' if cmd == 'PASS' else arg)
        self.commands.append(line)
        nth = sum(1 for c in self.commands if c.split(' ')[0].upper() == cmd) - 1
        for f in net.active:
            if f['fired'] or f['kind'] not in (
                    'ctrl_close', 'ctrl_reset', 'ctrl_stall', 'ctrl_status'):
                continue
            if f.get('conn', 0) != self.index or f.get('cmd') != cmd \
                    or f.get('nth', 0) != nth:
                continue
            net.fire(f, cmd)
            if f['kind'] == 'ctrl_status':
                st = f['status']
                self.say(f'{st} simulated failure')
                if st == 421:
                    self.closed = True
                    self.sock.inbox.append(('eof',))
                return
            self.drop(f)
            return
        m = getattr(self, 'do_' + cmd, None)
        if m is None:
            self.say('502 Command not implemented')
            return
        m(arg)

    # commands
    def do_USER(self, arg):
        self.user = arg
        self.say('331 Password required')

    def do_PASS(self, arg):
        want = self.server.login
        if want is None:
            ok = self.user == 'anonymous' or self.user
        else:
            ok = (self.user, arg) == tuple(want)
        if ok:
            self.logged = True
            self.say('230 Logged in')
        else:
            self.say('530 Login incorrect')

    def need(self):
        if not self.logged:
            self.say('530 Please login')
            return False
        return True

    def do_TYPE(self, arg):
        self.say(f'200 Type set to {arg}')

    def do_NOOP(self, arg):
        self.say('200 ok')

    def do_CWD(self, arg):
        if not self.need():
            return
        self.say('250 ok' if self.server.isdir(arg) else '550 No such directory')

    def do_PWD(self, arg):
        self.say('257 "/"')

    def do_QUIT(self, arg):
        self.say('221 bye')
        self.closed = True
        self.sock.inbox.append(('eof',))

    def do_SIZE(self, arg):
        e = self.find(arg)
        self.say(f"213 {len(e['data'])}" if e else '550 not a plain file')

    def find(self, arg):
        t = self.server.tree
        for k in (arg, arg.lstrip('/'), '/' + arg.lstrip('/')):
            if k in t:
                return t[k]
        return None

    def do_MDTM(self, arg):
        if not self.need():
            return
        e = self.find(arg)
        if e is None or not self.server.mdtm or arg.strip('/') in self.server.nodate:
            self.say('550 not a plain file')
        else:
            self.say('213 ' + _strftime('%Y%m%d%H%M%S', _gmtime(e['mtime'])))

    def do_PASV(self, arg):
        if not self.need():
            return
        srv = self.server
        srv.port += 1
        port = srv.port
        ctrl = self

        def maker(net, host, p, number, index):
            ctrl.data = FTPData(srv, net, host, p, number, index)
            ctrl.data.ctrl = ctrl
            return ctrl.data
        host = self.net.ip(self.host)
        self.net.data_ports[(host, port)] = maker
        self.say('227 Entering Passive Mode (%s,%d,%d)'
                 % (host.replace('.', ','), port // 256, port % 256))

    def do_EPSV(self, arg):
        self.say('502 not implemented')

    def transfer(self, payload, name):
        """150, then data on the data connection, then 226"""
        d = self.data
        if d is None:
            self.say('425 no data connection')
            return
        net = self.net
        self.say(f'150 Opening BINARY mode data connection for {name}'
                 f' ({len(payload)} bytes)')
        f = None
        for g in net.active:
            if not g['fired'] and g['kind'] in ('data_reset', 'data_abort',
                                                'data_stall', 'data_delay') and \
                    g.get('nth', 0) == self.server_transfers():
                f = g
                break
        if f is None or (not payload and f['kind'] != 'data_delay'):
            d.push(payload, name)
            d.sock.inbox.append(('eof',))
            self.say('226 Transfer complete')
            return
        net.fire(f, name)
        if f['kind'] == 'data_delay':
            segs = net.segments(payload, name)
            k = int(len(segs) * f.get('frac', 0.5))
            d.sock.inbox += segs[:k] + [('delay', f.get('dt', 1.0))] + segs[k:]
            d.sock.inbox.append(('eof',))
            self.say('226 Transfer complete')
            return
        cut = min(int(len(payload) * f['frac']), len(payload) - 1)
        d.push(payload[:cut], name)
        if f['kind'] == 'data_abort':
            d.sock.inbox.append(('eof',))
            self.say('426 Connection closed; transfer aborted')
        elif f['kind'] == 'data_reset':
            d.sock.inbox.append(('reset',))
            self.say('426 Connection closed; transfer aborted')
        else:
            d.sock.inbox.append(('stall',))

    _transfers = 0

    def server_transfers(self):
        n = self._transfers
        self._transfers += 1
        return n

    def do_RETR(self, arg):
        if not self.need():
            return
        e = self.find(arg)
        if e is None:
            self.say('550 No such file')
            return
        hook = getattr(self.server, 'on_retr', None)
        if hook:
            hook(arg)
        self.transfer(e['data'], arg)

    def do_NLST(self, arg):
        if not self.need():
            return
        if not self.server.isdir(arg):
            e = self.find(arg)
            if e is None:
                self.say('550 No such directory')
                return
            self.transfer(arg.encode() + b'\r\n', arg)
            return
        names = self.server.listing(arg)
        base = arg.rstrip('/')
        lines = [posixpath.join(base, n) if base else n for n in names]
        self.transfer(''.join(ln + '\r\n' for ln in lines).encode(), arg)


class FTPData(Conn):
    ctrl = None

    def client_sent(self, data):
        pass


def ftp_time(t):
    return calendar.timegm(time.strptime(t, '%Y%m%d%H%M%S'))
