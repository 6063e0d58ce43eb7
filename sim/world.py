"""Simulated internet shared by the network properties."""
import base64
import hashlib
import html
import time
import urllib.parse

from .net import Net, HTTPServer, FTPServer, Response, content

_strftime, _gmtime = time.strftime, time.gmtime
URS = 'urs.earthdata.nasa.gov'
CDDIS = 'cddis.nasa.gov'
HTTP_HOST = 'data.sim.org'
FTP_HOST = 'ftp.sim.org'
JPL = 'ssd.jpl.nasa.gov'
USER, PASSWORD = 'tidal', 's3cret:w%rd'


def md5(b):
    return hashlib.md5(b).hexdigest()


class World:
    """remote files (path -> dict(data, mtime)) behind http, https, https with
    login, and ftp servers"""

    def __init__(self, ctx, faults=(), seg=0, framing='length', ftp_login=None,
                 accounts=None, redirect=False):
        self.ctx = ctx
        self.files = {}
        self.framing = framing
        self.redirect = redirect
        self.accounts = dict(accounts if accounts is not None
                             else {USER: PASSWORD})
        self.net = Net(ctx, faults, seg)
        self.sessions = set()
        self.codes = {}
        self.login_log = []        # credentials presented to the login service
        self.token_log = []
        self.tokens = []
        self.token_seq = 0
        web = HTTPServer(self.web)
        self.net.add(HTTP_HOST, 80, web)
        self.net.add(HTTP_HOST, 443, HTTPServer(self.web))
        self.net.add(JPL, 443, HTTPServer(self.web))
        self.net.add(CDDIS, 443, HTTPServer(self.cddis))
        self.net.add(URS, 443, HTTPServer(self.urs))
        self.ftp = FTPServer(self.files, login=ftp_login)
        self.net.add(FTP_HOST, 21, self.ftp)
        self.pages = {}

    def put(self, path, data, mtime):
        self.files[path] = dict(data=data, mtime=int(mtime))

    # ------------------------------------------------------------- handlers
    def web(self, req):
        path = urllib.parse.unquote(req['path'])
        if path.startswith('/moved') :
            path = path[len('/moved'):]
            if path.endswith('/latest'):
                path = path[:-len('/latest')]
        elif self.redirect and path in self.files:
            scheme = 'https' if req['tls'] else 'http'
            return Response(302, b'moved', [
                ('Location', f"{scheme}://{req['host']}/moved{path}/latest")])
        if path in self.pages:
            return Response(200, self.pages[path](),
                            [('Content-Type', 'text/html')], self.framing)
        e = self.files.get(path)
        if e is None:
            return Response(404, b'<html>not found</html>')
        return Response(200, e['data'],
                        [('Content-Type', 'application/octet-stream')],
                        self.framing)

    def basic(self, req):
        a = req['headers'].get('authorization', '')
        if a.startswith('Basic '):
            try:
                u, _, p = base64.b64decode(a[6:]).decode().partition(':')
                return u, p
            except Exception:
                return None
        return None

    def cookie(self, req):
        for part in req['headers'].get('cookie', '').split(';'):
            k, _, v = part.strip().partition('=')
            if k == 'session' and v in self.sessions:
                return v
        return None

    def cddis(self, req):
        cred = self.basic(req)
        q = urllib.parse.parse_qs(req['query'])
        if 'code' in q and q['code'][0] in self.codes:
            s = 's' + q['code'][0]
            self.sessions.add(s)
            back = self.codes[q['code'][0]]
            return Response(302, b'', [('Set-Cookie', f'session={s}; path=/'),
                                       ('Location', f'https://{CDDIS}{back}')])
        ok = self.cookie(req) or (cred and self.accounts.get(cred[0]) == cred[1])
        if cred:
            self.login_log.append(cred)
        if not ok:
            state = urllib.parse.quote(req['path'], safe='')
            return Response(302, b'', [(
                'Location', f'https://{URS}/oauth/authorize?state={state}')])
        if req['path'].rstrip('/') == '/archive':
            return Response(200, b'<html>archive</html>')
        return self.web(req)

    def urs(self, req):
        cred = self.basic(req)
        if req['path'].startswith('/api/users/'):
            return self.api(req, cred)
        if cred is None:
            return Response(401, b'login', [
                ('WWW-Authenticate', 'Basic realm="Earthdata Login"')])
        self.login_log.append(cred)
        self.ctx.log('login attempt', cred[0], md5(cred[1].encode())[:6])
        if self.accounts.get(cred[0]) != cred[1]:
            return Response(401, b'bad', [
                ('WWW-Authenticate', 'Basic realm="Earthdata Login"')])
        q = urllib.parse.parse_qs(req['query'])
        code = f'c{len(self.codes)}'
        self.codes[code] = q.get('state', ['/archive'])[0]
        return Response(302, b'', [('Location', f'https://{CDDIS}/login?code={code}')])

    def api(self, req, cred):
        import json
        if cred is None or self.accounts.get(cred[0]) != cred[1]:
            return Response(401, b'{"error":"invalid_credentials"}', [
                ('WWW-Authenticate', 'Basic realm="Earthdata Login"')])
        op = req['path'].rsplit('/', 1)[1]
        js = [('Content-Type', 'application/json')]
        if op == 'token' and req['method'] == 'POST':
            if len(self.tokens) >= 2:
                return Response(403, b'{"error":"max_token_limit"}', js)
            self.token_seq += 1
            # opaque, case sensitive, base64url alphabet and padding
            t = dict(access_token=f'eyJ-{self.token_seq:04d}.' + md5(
                str(self.token_seq).encode())[:8] + '_Ab-Z' + '=' * (self.token_seq % 3), token_type='Bearer',
                expiration_date='10/31/2030')
            self.tokens.append(t)
            self.token_log.append(('create', t['access_token']))
            return Response(200, json.dumps(t).encode(), js, self.framing)
        if op == 'tokens' and req['method'] == 'GET':
            return Response(200, json.dumps(
                [dict(access_token=t['access_token'],
                      expiration_date=t['expiration_date'])
                 for t in self.tokens]).encode(), js, self.framing)
        if op == 'revoke_token' and req['method'] == 'POST':
            q = urllib.parse.parse_qs(req['query'])
            tok = q.get('token', [''])[0]
            have = [t for t in self.tokens if t['access_token'] == tok]
            if not have:
                return Response(404, b'{"error":"token_not_found"}', js)
            self.tokens.remove(have[0])
            self.token_log.append(('revoke', tok))
            return Response(200, b'{}', js)
        return Response(404, b'{}', js)


def apache_page(entries, parent=True):
    """entries: list of (href, mtime or None) in server order"""
    rows = ['<tr><th colspan="5"><hr></th></tr>']
    if parent:
        rows.append('<tr><td valign="top"><img src="/icons/back.gif"></td>'
                    '<td><a href="/parent/">Parent Directory</a></td>'
                    '<td>&nbsp;</td><td align="right">  - </td>'
                    '<td>&nbsp;</td></tr>')
    for name, mt in entries:
        date = _strftime('%Y-%m-%d %H:%M  ', _gmtime(mt)) if mt else '&nbsp;'
        e = html.escape(name)
        rows.append(f'<tr><td valign="top"><img src="/icons/x.gif"></td>'
                    f'<td><a href="{e}">{e}</a></td>'
                    f'<td align="right">{date}</td>'
                    f'<td align="right"> 12K</td><td>&nbsp;</td></tr>')
    return ('<!DOCTYPE HTML><html><head><title>Index</title></head><body>'
            '<table>' + '\n'.join(rows) + '</table></body></html>').encode()


__all__ = ['World', 'content', 'apache_page', 'md5', 'USER', 'PASSWORD', 'URS',
           'CDDIS', 'HTTP_HOST', 'FTP_HOST', 'JPL', 'Response', 'HTTPServer']
