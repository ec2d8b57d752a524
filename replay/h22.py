"""C22: requests."""
import importlib
import urllib.request
import fake_web
import resync
from resync import url_or_file_open as uo
from resync.client_utils import process_shared_misc_options
import argparse

WHAT = 'sequences of 1..5 openings (web and local) with varying configuration, method and timeout; failing requests'
URLS = ['http://a/x', 'https://a.b/c?d=e f', 'ftp://h/x', 'http://a/file:', 'http:x', 'HTTP://A/b', 'x:y']
PATHS = ['f.txt', './f.txt', '/f.txt', 'sub/f', 'no such', '', 'f-1:2', 'http//a/b', ' http://a/x', 'a.b:c', '-:x']


def gen(rng, h):
    ops = []
    for i in range(rng.choice([1, 2, 3, 5])):
        local = rng.random() < .35
        ops.append(dict(uri=rng.choice(PATHS if local else URLS), method=rng.choice([None, None, 'HEAD', 'GET', 'POST']),
                        timeout=rng.choice([None, None, 0, 1, 2.5, 60]), fails=rng.random() < .2,
                        file=rng.random() < .5))
    return dict(ops=ops, token=rng.choice([None, 'abc', 'A b', '']), delay=rng.choice([None, 0.5, 2, 0, 1e-3]),
                how=rng.choice(['set', 'set', 'args']), uses=rng.random() < .5)


def run(c, h):
    d = h.dir()
    token, delay = c['token'], c['delay']
    importlib.reload(uo)                # a new process
    log, slept = [], []
    real = urllib.request.OpenerDirector.open

    def opener(self, fullurl, data=None, timeout='default'):
        req = fullurl if not isinstance(fullurl, str) else urllib.request.Request(fullurl)
        heads = {k.lower(): v for k, v in req.header_items()}
        slept.append(len(fake_web.SLEEPS))
        log.append(('open', req.full_url, req.get_method(), heads,
                    None if timeout in ('default', urllib.request.socket._GLOBAL_DEFAULT_TIMEOUT) else timeout, req.data))
        if op['fails']:
            raise OSError('refused')
        return 'handle'
    urllib.request.OpenerDirector.open = opener
    try:
        if c['how'] == 'args':
            a = argparse.Namespace(checksum=False, hash=None, access_token=token, delay=delay)
            process_shared_misc_options(a, include_remote=True)
            token, delay = token or None, delay or None
        else:
            uo.set_url_or_file_open_config('bearer_token', token)
            uo.set_url_or_file_open_config('delay', delay)
        for n, op in enumerate(c['ops']):
            del log[:]
            del slept[:]
            fake_web.SLEEPS.clear()
            ev0 = len(fake_web.EVENTS)
            kw = {k: op[k] for k in ('method', 'timeout') if op[k] is not None}
            try:
                r = uo.url_or_file_open(op['uri'], **kw)
                if r != 'handle':
                    return 'opening %r gives %r' % (op['uri'], r)
            except OSError as e:
                if not op['fails']:
                    raise
            if len(log) != 1:
                return 'opening %r makes %d requests' % (op['uri'], len(log))
            i = 0
            while i < len(op['uri']) and (op['uri'][i].isalnum() or op['uri'][i] == '_'):
                i += 1
            has = i > 0 and op['uri'][i:i + 1] == ':'
            url = op['uri'] if has else 'file:' + op['uri']
            exp = urllib.request.Request(url).full_url
            if log[0][1] != exp:
                return 'opening %r requests %r' % (op['uri'], log[0][1])
            if log[0][2] != (op['method'] or 'GET'):
                return 'opening %r with method %r requests with %r' % (op['uri'], op['method'], log[0][2])
            heads = {'user-agent': 'resync/' + resync.__version__}
            if token is not None:
                heads['authorization'] = 'Bearer ' + token
            if log[0][3] != heads:
                return 'opening %r with token %r sends headers %r' % (op['uri'], token, log[0][3])
            if log[0][4] != op['timeout']:
                return 'opening %r with timeout %r uses %r' % (op['uri'], op['timeout'], log[0][4])
            if log[0][5] is not None:
                return 'opening %r sends data' % op['uri']
            if slept != [len(fake_web.SLEEPS)]:
                return 'waits after the request for %r' % op['uri']
            web = not url.startswith('file:')
            sl = [delay] if web and n > 0 and delay is not None else []
            if fake_web.SLEEPS != sl:
                return 'request %d for %r sleeps %r with delay %r' % (n, op['uri'], fake_web.SLEEPS, delay)
            h.count('web' if web else 'local')
    finally:
        urllib.request.OpenerDirector.open = real
        importlib.reload(uo)


def shrink(c):
    for i in range(len(c['ops'])):
        if len(c['ops']) > 1:
            yield dict(c, ops=c['ops'][:i] + c['ops'][i + 1:])
