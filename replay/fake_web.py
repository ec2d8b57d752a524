"""Stands in for the network: every HTTP(S)/FTP request of urllib ends here."""
import email.message
import io
import socket
import time
import urllib.error
import urllib.request
import urllib.response

H = None
PAGES = {}        # url -> bytes, Exception, or function(request) -> bytes / Exception
LOG = []          # dicts: url, method, headers, timeout
SLEEPS = []
EVENTS = []       # ('sleep', s) / ('open', url)
DEFAULT = [None]
_real_sleep = time.sleep
_real_open = urllib.request.OpenerDirector.open


def reset():
    PAGES.clear()
    LOG.clear()
    SLEEPS.clear()
    EVENTS.clear()
    DEFAULT[0] = None


class Response(urllib.response.addinfourl):
    pass


def fake_open(self, fullurl, data=None, timeout=socket._GLOBAL_DEFAULT_TIMEOUT):
    if isinstance(fullurl, str):
        req = urllib.request.Request(fullurl, data)
    else:
        req = fullurl
        if data is not None:
            req.data = data
    url = req.full_url
    if url.lower().startswith('file:') or url.lower().startswith('data:'):
        return _real_open(self, fullurl, data, timeout)
    heads = dict((k.lower(), v) for k, v in req.header_items())
    if not any(k == 'user-agent' for k in heads):
        for k, v in self.addheaders:
            heads.setdefault(k.lower(), v)
    LOG.append(dict(url=url, method=req.get_method(), headers=heads,
                    timeout=None if timeout is socket._GLOBAL_DEFAULT_TIMEOUT else timeout))
    EVENTS.append(('open', url))
    page = PAGES.get(url, DEFAULT[0])
    if callable(page):
        page = page(req)
    if page is None:
        raise urllib.error.HTTPError(url, 404, 'Not Found', email.message.Message(), io.BytesIO(b''))
    if isinstance(page, BaseException):
        raise page
    hd = email.message.Message()
    if not hasattr(page, 'read'):
        hd['Content-Length'] = str(len(page))
    r = urllib.response.addinfourl(page if hasattr(page, 'read') else io.BytesIO(page), hd, url, 200)
    r.msg = 'OK'
    return r


def fake_sleep(s):
    SLEEPS.append(s)
    EVENTS.append(('sleep', s))


urllib.request.OpenerDirector.open = fake_open
time.sleep = fake_sleep
_conn = socket.socket.connect


def no_connect(self, *a):
    raise OSError('no network in the harness')


socket.socket.connect = no_connect
socket.create_connection = lambda *a, **k: (_ for _ in ()).throw(OSError('no network in the harness'))
