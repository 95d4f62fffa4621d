"""Simulated HTTP: replaces the transport of `requests` (and of urllib) inside simulated processes.

The "server" is a dict URL -> bytes.  Every request is a scheduling point of kind `net`; the controller may answer with
a fault: {"f": kind, ...}.
"""
from __future__ import annotations

import io
import json

from . import core

SERVER: dict[str, bytes] = {}
LOG: list = []          # (url, outcome) as seen by this process


def _body(fault, body, url):
    """-> (status, reason, headers, bytes, error after bytes)"""
    f = fault.get('f') if fault else None
    if f == 'status':
        b = fault.get('body', 'injected\n').encode()
        return fault['code'], 'Injected', {'content-length': str(len(b))}, b, None
    if body is None:
        return 404, 'Not Found', {'content-length': '10'}, b'not found\n', None
    if f == 'drop':            # connection lost after n bytes although more were announced
        n = min(fault['n'], max(0, len(body) - 1))
        return 200, 'OK', {'content-length': str(len(body))}, body[:n], 'drop'
    if f == 'truncate':        # short body without announced length: undetectable by the transport
        return 200, 'OK', {}, body[:min(fault['n'], max(0, len(body) - 1))], None
    if f == 'flip':
        b = bytearray(body or b'\0')
        b[fault['n'] % len(b)] ^= 1
        return 200, 'OK', {'content-length': str(len(b))}, bytes(b), None
    if f == 'page':            # a captive portal answers 200
        b = b'<html>sign in</html>\n'
        return 200, 'OK', {'content-length': str(len(b))}, b, None
    if f == 'empty':
        return 200, 'OK', {'content-length': '0'}, b'', None
    if f == 'foreign':         # some other file of the server
        others = sorted(k for k in SERVER if k != url)
        b = SERVER[others[fault['n'] % len(others)]] if others else b''
        return 200, 'OK', {'content-length': str(len(b))}, b, None
    return 200, 'OK', {'content-length': str(len(body))}, body, None


class _Raw(io.BytesIO):
    def __init__(self, data, err):
        super().__init__(data)
        self._err = err

    def read(self, n=-1):
        b = super().read(n)
        if not b and self._err == 'drop':
            from urllib3.exceptions import ProtocolError
            raise ProtocolError('Connection broken: IncompleteRead (injected)')
        return b

    read1 = read

    def readinto(self, b):
        d = self.read(len(b))
        b[:len(d)] = d
        return len(d)


def install():
    import requests
    from requests.adapters import HTTPAdapter
    from urllib3 import HTTPResponse
    real = HTTPAdapter.send

    def send(self, request, stream=False, timeout=None, verify=True, cert=None, proxies=None):
        if not core.shim().sim_is_armed():
            return real(self, request, stream, timeout, verify, cert, proxies)
        url = request.url
        v = core.point('net', url, 0)
        fault = json.loads(v[1:]) if v.startswith('d') else (
            {'f': 'conn'} if v.startswith('e') else None)
        f = fault.get('f') if fault else None
        LOG.append(url)
        if f == 'conn':
            raise requests.exceptions.ConnectionError('injected: connection refused', request=request)
        if f == 'timeout':
            raise requests.exceptions.ReadTimeout('injected: timed out', request=request)
        status, reason, headers, body, err = _body(fault, SERVER.get(url), url)
        raw = HTTPResponse(body=_Raw(body, err), headers=headers, status=status, reason=reason, preload_content=False,
                           decode_content=False, request_url=url)
        return self.build_response(request, raw)

    HTTPAdapter.send = send

    import urllib.request
    import urllib.error
    from email.message import Message
    real_open = urllib.request.OpenerDirector.open

    def uopen(self, fullurl, data=None, timeout=None):
        url = fullurl if isinstance(fullurl, str) else fullurl.full_url
        if not core.shim().sim_is_armed() or not url.startswith('http'):
            return real_open(self, fullurl, data, *([timeout] if timeout is not None else []))
        v = core.point('net', url, 0)
        fault = json.loads(v[1:]) if v.startswith('d') else ({'f': 'conn'} if v.startswith('e') else None)
        f = fault.get('f') if fault else None
        LOG.append(url)
        if f in ('conn', 'timeout'):
            raise urllib.error.URLError('injected')
        status, reason, headers, body, err = _body(fault, SERVER.get(url), url)
        h = Message()
        for k, x in headers.items():
            h[k] = x
        if status >= 400:
            raise urllib.error.HTTPError(url, status, reason, h, io.BytesIO(body))
        import urllib.response
        r = urllib.response.addinfourl(_Raw(body, err), h, url, status)
        r.msg = reason
        return r

    urllib.request.OpenerDirector.open = uopen


def net_fault(rng, kinds, size=200):
    f = rng.choice(kinds)
    d = {'f': f}
    if f == 'status':
        d['code'] = rng.choice([404, 403, 429, 500, 502, 503])
        d['body'] = rng.choice(['injected\n', '', 'Service Unavailable\n', '<html> <b>error</b>\n</html> .\n'])
    elif f in ('drop', 'truncate', 'flip', 'foreign'):
        d['n'] = rng.randrange(0, size)
    return 'd' + json.dumps(d, sort_keys=True)
