"""Simulated name resolution and web.

Outcomes come from plan['net']:
  dns[name]  = list of outcomes, one per lookup (the last repeats)
  rdns[addr] = likewise
  web[host]  = likewise, per request
A DNS outcome is {'r': [addresses]} or {'r': name}, or {'e': kind}, with an
optional 'sec' delay.
"""
import errno
import io
import socket

EAI = {'notfound': (socket.EAI_NONAME, 'Name or service not known'),
       'nodata': (socket.EAI_NODATA, 'No address associated with hostname'),
       'again': (socket.EAI_AGAIN, 'Temporary failure in name resolution'),
       'fail': (socket.EAI_FAIL, 'Non-recoverable failure'),
       'system': (socket.EAI_SYSTEM, 'System error')}


class Net:
    def __init__(self, kernel, script):
        self.k = kernel
        kernel.net = self
        self.script = script
        self.counts = {}
        self.log = []                # (kind, name, outcome, operation)
        # the only way out: (user, password, host, port)
        self.proxy = None
        self.direct = []             # requests that did not take it

    def _outcome(self, kind, name):
        outs = self.script.get(kind, {}).get(name)
        key = (kind, name)
        i = self.counts.get(key, 0)
        self.counts[key] = i + 1
        if not outs:
            return {'e': 'notfound'}
        return outs[min(i, len(outs) - 1)]

    def _delay(self, t, o):
        sec = o.get('sec', 0)
        timeout = t.proc.sock_timeout
        if o.get('e') == 'timeout':
            sec = timeout if timeout is not None else 40
        if sec:
            self.k.sleep(sec)

    def _dns_error(self, e):
        self.k.fire('dns:' + e)
        if e == 'timeout':
            raise socket.timeout('timed out')
        if e == 'interrupt':
            raise KeyboardInterrupt
        if e in EAI:
            raise socket.gaierror(*EAI[e])
        if e == 'herror':
            raise socket.herror(1, 'Unknown host')
        if e == 'refused':
            raise ConnectionRefusedError(errno.ECONNREFUSED, 'refused')
        if e == 'oserror':
            raise OSError(errno.EMFILE, 'Too many open files')
        if e == 'unicode':
            raise UnicodeError('label empty or too long')
        raise AssertionError(e)

    def getaddrinfo(self, t, host, port, *a, **kw):
        name = host.decode() if isinstance(host, bytes) else str(host)
        if not t.shield:
            self.k.enter('dns', name, faultable=False)
        # what the real function does before it asks anybody
        if isinstance(host, str):
            host.encode('idna')
        o = self._outcome('dns', name)
        self.log.append(('dns', name, o, t.op and t.op.split('~')[0]))
        self._delay(t, o)
        if 'e' in o:
            self._dns_error(o['e'])
        p = port if isinstance(port, int) else 80
        out = []
        for a in o['r']:
            for typ, proto in ((1, 6), (2, 17), (3, 0)):
                if ':' in a:
                    out.append((socket.AF_INET6, typ, proto, '',
                                (a, p, 0, 0)))
                else:
                    out.append((socket.AF_INET, typ, proto, '', (a, p)))
        return out

    def gethostbyname(self, t, host):
        for x in self.getaddrinfo(t, host, 80):
            if x[0] == socket.AF_INET:
                return x[-1][0]
        raise socket.gaierror(*EAI['nodata'])

    def gethostbyname_ex(self, t, host):
        addrs = []
        for x in self.getaddrinfo(t, host, 80):
            if x[0] == socket.AF_INET and x[-1][0] not in addrs:
                addrs.append(x[-1][0])
        return host, [], addrs

    def gethostbyaddr(self, t, addr):
        if not isinstance(addr, str):
            if isinstance(addr, (bytes, bytearray)):
                addr = bytes(addr).decode()
            else:
                raise TypeError('gethostbyaddr() argument must be str, bytes '
                                'or bytearray, not ' + type(addr).__name__)
        if not t.shield:
            self.k.enter('dns', addr, faultable=False)
        o = self._outcome('rdns', addr)
        self.log.append(('rdns', addr, o, t.op and t.op.split('~')[0]))
        self._delay(t, o)
        if 'e' in o:
            e = o['e']
            if e == 'notfound':
                e = 'herror'
            self._dns_error(e)
        r = o['r']
        return (r if isinstance(r, str) else r[0]), [], [addr]

    def getnameinfo(self, t, sockaddr, flags):
        return self.gethostbyaddr(t, sockaddr[0])[0], str(sockaddr[1])

    def getfqdn(self, t, name=''):
        return name or 'simhost'

    # ------------------------------------------------------------------ web
    def http(self, t, adapter, request, stream=False, timeout=None,
             verify=True, cert=None, proxies=None):
        import requests
        from requests.exceptions import (ConnectionError, ConnectTimeout,
                                         ReadTimeout, ChunkedEncodingError,
                                         SSLError, InvalidURL)
        from urllib.parse import urlsplit
        parts = urlsplit(request.url)
        host = parts.hostname or ''
        if not t.shield:
            self.k.enter('http', request.url, faultable=False)
        proxies = {k: v for k, v in (proxies or {}).items() if v}
        o = self._outcome('web', request.url)
        if o == {'e': 'notfound'}:
            o = {'status': 404, 'body': 'nothing here'}
        self.log.append(('web', request.url, o, t.op and t.op.split('~')[0]))
        via = urlsplit(proxies.get(parts.scheme, ''))
        via = via.hostname and (via.username, via.password, via.hostname,
                                via.port)
        if via != self.proxy:
            self.direct.append((request.url, via))
        if via and not self.proxy:
            self.k.fire('http:proxy')
            raise requests.exceptions.ProxyError('cannot connect to proxy')
        e = o.get('e')
        sec = o.get('sec', 0)
        if e in ('ctimeout', 'rtimeout'):
            if isinstance(timeout, tuple):
                timeout = timeout[e == 'rtimeout']
            # (without a limit, a connection may stay open for days)
            sec = timeout or t.proc.sock_timeout or 1e6
        if sec:
            self.k.sleep(sec)
        if e:
            self.k.fire('http:' + e)
        if e == 'ctimeout':
            raise ConnectTimeout('connect timed out', request=request)
        if e == 'rtimeout':
            raise ReadTimeout('read timed out', request=request)
        if e in ('refused', 'reset', 'dns'):
            raise ConnectionError('%s: %s' % (host, e), request=request)
        if e == 'ssl':
            raise SSLError('bad certificate', request=request)
        if e == 'oserror':
            raise OSError(errno.ENETUNREACH, 'Network is unreachable')
        r = requests.Response()
        r.status_code = o.get('status', 200)
        r.reason = 'OK' if r.status_code == 200 else 'Error'
        ctype = o.get('type', 'text/html; charset=utf-8')
        if ctype is not None:
            r.headers['Content-Type'] = ctype
        for k, v in (o.get('headers') or {}).items():
            r.headers[k] = v
        body = o.get('body', '').encode(o.get('enc', 'utf-8'), 'replace')
        if e == 'broken':
            body = body[:len(body) // 2]
        r.encoding = requests.utils.get_encoding_from_headers(r.headers)
        r.url = request.url
        r.request = request
        r.connection = adapter
        if e == 'broken':
            class Raw(io.BytesIO):
                def stream(self, n, decode_content=True):
                    yield body
                    raise requests.packages.urllib3.exceptions.ProtocolError(
                        'Connection broken')

                def release_conn(self):
                    pass
            r.raw = Raw(body)
        else:
            r.raw = io.BytesIO(body)
        if not stream:
            r.content
        return r
