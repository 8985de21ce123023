"""C15: following URLs while scoring degrades, never fails."""
import pickle

from simkit import images
from simkit.images import Mod
from simkit.kernel import SimCrash
from simkit.net import Net
from simkit.sim import Scenario, calls, dense_preempts, place_preempts

from . import common
from .common import Model, describe, diff, observe

URLS = ['good.example/page', 'two.example', 'port.example:8080/x',
        'img.example/a.jpg', 'www.deep.site.co.nz/~u/index.html?a=1&b=2',
        'site.co.nz/other', 'id.shop.example/buy?id=7',
        'long.example/' + 'p' * 220, 'long.example/' + 'p' * 219 + 'q',
        'same.example/x', 'same.example/x?2', 'same.example/x_2',
        'same.example/xx', 'bad..name/x', 'many.example/a,b;c']
TARGET = 'target.example/t'
FAILURES = ['url:non_resolving', 'url:non_html', 'url:unknown_error'] + [
    'url:http_%d' % n for n in (400, 403, 404, 410, 500, 503)]
PAGE_TYPES = ['text/html', 'text/html; charset=utf-8',
              'text/html; charset=iso-8859-1']
# what servers say about the encoding of a page, true or not
CHARSETS = ['utf-8', 'iso-8859-1', 'latin-1', 'windows-1252', 'koi8-r',
            'utf-16', 'utf-7', 'shift_jis', 'gb2312', 'us-ascii', 'x-unknown',
            '"utf-8"', '', 'idna', 'punycode', 'undefined', 'rot13', 'hex',
            'unicode_escape', 'utf-8; x=y', 'utf 8', 'caf\xe9']
WILD = ['caf\xe9', '\xe4\xb8\xad\xe6\x96\x87', '\xff\xfe', '\0nul', '+2AA-',
        '\\ud800', '<script>x', '<!--', '-->', '&#55296;', '&#0;', '&bogus;',
        'w' * 90, '\xe9' * 60, 'xn--a..b', '=?utf-8?q?x?=', '%%', '\r\n\r\n',
        '<a href="', '\x85', '\xa0', '--==', 'From x']
WILD_HEADERS = [('X-Powered-By', 'caf\xe9'), ('X-Fold', 'a\r\n b'),
                ('X-Empty', ''), ('Content-Transfer-Encoding', 'base64'),
                ('Subject', '=?x?q?=e9?='), ('Date', 'no date'),
                ('Content-Disposition', 'attachment; filename="\xe9'),
                ('MIME-Version', '7'), ('Content-Length', '3'),
                ('To', '<>, "'), ('Message-Id', 'wild')]
EPS = 5.0
# what may be found instead of a cache of failures
BAD_PICKLES = {
    'empty': b'', 'text': b'not a pickle\n', 'number': b'\x80\x04K\x2a.',
    'none': b'N.', 'list': b'].', 'dict': b'}.', 'nothing': b'.',
    'module': b'cno_such_module\nx\n.', 'name': b'cos\nno_such_name\n.',
    'later': b'\x80\x63.', 'value': b'Ix\n.', 'call': b'cos\nsep\n)R.',
    'unhashable': b'}]Ns.', 'memo': b'h\x07.', 'huge': b'\x8d' + b'\xff' * 8,
    'utf-8': b'X\x01\x00\x00\x00\xff.'}


def base_of(url):
    """The part of the URL that is followed with X_ONLY_SLURP_BASE."""
    domain = url.split('/')[0]
    parts = domain.split('.')
    if len(parts) > 2:
        n = 3 if len(parts[-1]) < 3 else 2
        return '.'.join(parts[-n:])
    return domain


def request_url(url):
    return 'http://' + (url if '/' in url else url + '/')


class C15(Scenario):
    prop = 'C15'
    quick_runs = 7000
    max_steps = 200000
    rule = ('A run is a random history of scoring, training and untraining '
            'messages with URLs by a URL-following classifier, with scripted '
            'DNS and web outcomes per URL, passing time, restarts, kills, '
            'failing file-system calls on the URL cache, damaged cache files '
            'and another process that uses the same cache; results, counts and network requests of every operation '
            'are compared with what the outcomes known by then allow.')
    assumptions = (
        'A page is remembered for the configured days, a failure for good '
        '(as the documentation in the code says).',
        'One message is tokenized and scored or trained at a time in a '
        'process.',
        'While two processes share the cache, either of them may request '
        'again what the other has had.',
        'URLs are in lower case: the tokenizer, as it was designed, lowers '
        'the text before it looks for URLs.',
        'Messages are ASCII and have one text part; of pages that are not '
        'ASCII, the tokens are not judged.')
    real = Scenario.real[:1] + ('requests (except the transport), pickle, '
                                'lockfile, tempfile, email',)
    stub = ('file system (in memory, with crash semantics)', 'clock',
            'name resolution', 'HTTP transport')

    def web_outcome(self, rng, u, n, pages):
        r = rng.random()
        o = {}
        if r < 0.5:
            o = {'status': 200, 'type': rng.choice(PAGE_TYPES)}
            if rng.random() < 0.08:
                # (means nothing in HTTP)
                o['headers'] = {rng.choice(['Content-Transfer-Encoding',
                                            'content-transfer-encoding']):
                                rng.choice(['base64', 'quoted-printable',
                                            'binary', 'x-uuencode'])}
        elif r < 0.62:
            o = {'status': rng.choice([400, 403, 404, 410, 500, 503])}
        elif r < 0.70:
            o = {'status': 200, 'type': rng.choice(
                ['text/plain', 'image/png', None, 'application/pdf'])}
        elif r < 0.78:
            o = {'status': 302, 'headers': {'Location': rng.choice(
                ['http://' + TARGET, request_url(u)])}}
        else:
            o = {'e': rng.choice(['ctimeout', 'rtimeout', 'refused', 'reset',
                                  'ssl', 'oserror', 'broken'])}
        words = ['page%dv%dword%d' % (u in URLS and URLS.index(u), n, j)
                 for j in range(rng.choice([0, 1, 3, 8]))]
        if rng.random() < 0.5:
            words += [rng.choice(['spamsign', 'hamsign'])
                      for _ in range(rng.randint(1, 3))] + \
                     ['strong%d' % j for j in range(rng.choice([0, 6]))]
        if rng.random() < 0.2:
            words.append('http://inpage.example/%d' % n)
        o['body'] = '<html><body>%s</body></html>' % ' '.join(words)
        if rng.random() < 0.3:
            o['sec'] = rng.choice([0.1, 3, 4.5])
        if o.get('status') == 200 and rng.random() < 0.12 and \
                str(o['type']).startswith('text/html'):
            # (nothing is said about the tokens of such a page)
            o['wild'] = True
            o['type'] = rng.choice(['text/html; charset=', 'text/html;charset=',
                                    'text/html; Charset=']) + \
                rng.choice(CHARSETS)
            o['enc'] = 'latin-1'
            o['headers'] = dict(rng.sample(WILD_HEADERS, rng.randint(0, 3)))
            o['body'] = ' '.join(rng.choice(WILD)
                                 for _ in range(rng.randint(0, 8)))
        return o

    def generate(self, rng):
        days = rng.choice([1, 7, 7, 0.25])
        cfg = {'days': days, 'base': rng.random() < 0.2,
               'bigrams': rng.random() < 0.12,
               'prefix': rng.choice(['', '', 'web:']),
               'proxy': rng.choice([None] * 9 + [
                   ['me', 'secret', 'proxy.example', 3128]]),
               'operator': rng.random() < 0.7,
               'shared': rng.random() < 0.25}
        urls = rng.sample(URLS, rng.choice([1, 2, 3, 5]))
        pages = []
        dns, web = {}, {}
        for u in urls + [TARGET]:
            full = base_of(u) if cfg['base'] and u != TARGET else u
            host = full.split('/')[0].split(':')[0]
            healthy = rng.random() < 0.5
            dns[host] = [{'r': ['198.51.100.1']} if healthy or
                         rng.random() < 0.75 else
                         {'e': rng.choice(['notfound', 'again', 'timeout',
                                           'fail', 'unicode'])}
                         for _ in range(rng.randint(1, 3))]
            if '..' in host or host.startswith('.'):
                dns[host] = [{'e': 'notfound'}]
            web.setdefault(request_url(full), []).extend(
                self.web_outcome(rng, u, n, pages)
                for n in range(rng.randint(1, 3)))
        msgs = []
        words = ['alpha', 'beta', 'gamma', 'delta', 'spamsign', 'hamsign']
        words += ['strong%d' % j for j in range(6)]
        for n in range(rng.randint(2, 5)):
            us = [rng.choice(urls) for _ in range(rng.choice([0, 1, 1, 1,
                                                              2]))]
            scheme = 'https' if rng.random() < 0.1 else 'http'
            body = ['uniq%d' % n] + [rng.choice(words) for _ in range(
                rng.randint(0, 5))]
            if rng.random() < 0.1:
                body += ['many%d' % j for j in range(170)]
            for u in us:
                body.insert(rng.randint(0, len(body)),
                            '%s://%s' % (scheme, u))
                scheme = 'http'
            msgs.append({'text': 'Subject: message %d\n\n%s\n'
                         % (n, ' '.join(body))})
        ops, trained = [], []
        age = days * 86400
        for i in range(rng.randint(3, rng.choice([8, 16]))):
            oid = 'a%d' % i
            r = rng.random()
            m = rng.randrange(len(msgs))
            if r < 0.25:
                s = rng.random() < 0.5
                trained.append((m, s))
                ops.append([oid, 'learn', m, s, rng.randrange(2)])
            elif r < 0.35 and trained:
                m, s = trained.pop(rng.randrange(len(trained)))
                ops.append([oid, 'unlearn', m, s, rng.randrange(2)])
            elif r < 0.42:
                # teach words without any message
                s = rng.random() < 0.5
                ops.append([oid, 'words', rng.choice(
                    [['strong%d' % j for j in range(6)], ['spamsign'],
                     ['hamsign'], ['alpha', 'beta']]), s,
                    rng.randint(1, 4)])
            elif r < 0.74:
                ops.append([oid, 'score', m, rng.random() < 0.5,
                            rng.randrange(2)])
            elif r < 0.84:
                ops.append([oid, 'advance', rng.choice(
                    [60, 3600, age * 0.5, age - 60, age + 60, age * 3]),
                    0, 0])
            elif r < 0.91:
                ops.append([oid, 'restart', 0, 0, 0])
            elif r < 0.96:
                ops.append([oid, 'damage', rng.choice(
                    ['bad_urls.pck', 'http_error_urls.pck']),
                    rng.choice(list(BAD_PICKLES) + ['half'] + ['flip'] * 4 +
                               ['values'] * 2),
                    rng.randrange(1 << 20)])
                if rng.random() < 0.7:
                    # (it is only read once by a process)
                    ops.append([oid + 'y', 'restart', 0, 0, 0])
            elif r < 0.98:
                ops.append([oid, 'clean', 0, 0, 0])
            else:
                ops.append([oid, 'hold', 0, 0, 0])
            if ops[-1][1] in ('learn', 'unlearn', 'score') and \
                    rng.random() < 0.25:
                # the same tokens once more
                m = ops[-1][2]
                ops[-1][4] = 1
                kind = rng.choice(['learn', 'unlearn', 'score'])
                is_spam = rng.random() < 0.5
                if kind == 'unlearn':
                    same = [t for t in trained if t[0] == m]
                    if not same:
                        continue
                    is_spam = same[0][1]
                    trained.remove(same[0])
                elif kind == 'learn':
                    trained.append((m, is_spam))
                ops.append([oid + 'z', kind, m, is_spam, 2])
        actors = [{'name': 'A', 'ops': ops}]
        if cfg['shared']:
            # another process, which uses the same cache
            actors.append({'name': 'B', 'ops': [
                ['b%d' % i, rng.choice(['learn', 'score', 'score']),
                 rng.randrange(len(msgs)), rng.random() < 0.5,
                 rng.randrange(2)] for i in range(rng.randint(2, 8))]})
        return {'cfg': cfg, 'messages': msgs,
                'net': {'dns': dns, 'web': web},
                '_profile': cfg['shared'] or rng.random() < 0.45,
                'actors': actors}

    def place(self, rng, plan, profile):
        ids = {op[0] for op in plan['actors'][0]['ops']
               if op[1] in ('learn', 'unlearn', 'score')}
        if plan['cfg']['shared']:
            both = {op[0] for a in plan['actors'] for op in a['ops']
                    if op[1] in ('learn', 'unlearn', 'score')}
            place_preempts(rng, plan, profile, rng.choice([1, 3, 8, 20]))
            if rng.random() < 0.5:
                dense_preempts(rng, plan, calls(profile, ops=both),
                               (5, 10, 30))
            if rng.random() < 0.6:
                return
        cs = calls(profile, ops=ids)
        cs = [c for c in cs if c[2] not in ('link',)]
        if not cs:
            return
        for _ in range(rng.choice([1, 1, 2, 3])):
            op, io, name, path = rng.choice(cs)
            f = {'op': op, 'io': io}
            r = rng.random()
            if r < 0.2:
                f['kind'] = 'crash'
                if name == 'write' and rng.random() < 0.6:
                    f['torn'] = rng.choice([0.0, 0.5, 1.0])
            elif name == 'write' and r < 0.4:
                f.update(kind='full', keep=rng.choice([0, 0.5]))
            else:
                f.update(kind='err', errno=rng.choice(
                    ['EIO', 'EACCES', 'EMFILE', 'EROFS', 'ENOSPC']))
            if rng.random() < 0.35:
                f['sticky'] = True
            plan['faults'].append(f)

    # ------------------------------------------------------------ execution
    tok = Mod('tokenizer')
    slurping = Mod('classifiers.slurping')
    message = Mod('message')

    def setup(self, env):
        d = env.data
        cfg = env.cfg
        d['base'] = [list(self.tok.tokenize(
            self.message.from_string(m['text'])))
                     for m in env.plan['messages']]
        d['url'] = [self.followed(env, m['text'])
                    for m in env.plan['messages']]
        # what the pages contribute
        d['pages'] = {}
        for url, outs in env.plan['net']['web'].items():
            for o in outs:
                if o.get('status') == 200 and not o.get('wild') and str(
                        o.get('type')).startswith('text/html'):
                    d['pages'][o['body'], o['type']] = self.page_tokens(
                        env, o)

        def configure():
            self.tok.crack_urls = self.slurping.SlurpingURLStripper().analyze
            self.slurping.X_CACHE_EXPIRY_DAYS = cfg['days']
            self.slurping.X_ONLY_SLURP_BASE = cfg['base']
            self.slurping.X_WEB_PREFIX = cfg['prefix']
            if cfg['proxy']:
                (self.slurping.PROXY_USERNAME, self.slurping.PROXY_PASSWORD,
                 self.slurping.PROXY_SERVER,
                 self.slurping.PROXY_PORT) = cfg['proxy']
        env.k.on_image.append(configure)
        d['net'] = Net(env.k, env.plan['net'])
        d['net'].proxy = cfg['proxy'] and tuple(cfg['proxy'])
        words = {w for ts in d['base'] for w in self.expand(env, ts)} | \
            set(FAILURES)
        for ts in d['pages'].values():
            words |= set(ts)
        for op in env.plan['actors'][0]['ops']:
            if op[1] == 'words':
                words |= set(self.expand(env, [w.encode() for w in op[2]]))
        d['plain'] = {w for ts in d['base'] for w in ts
                      if w.startswith(b'uniq')}
        d['words'] = sorted(words, key=lambda w: (isinstance(w, bytes), w))
        d['model'] = Model()
        d['state'] = {}              # url -> possible cached outcomes
        d['received'] = {}           # url -> pages that may be kept
        d['trained'] = []
        d['persist'] = True
        d['advanced'] = 0
        env.vfs.mkdirs('/data/home')
        env.vfs.sync_all()
        common.Actor(env, env.plan['actors'][0], self.run_op, self.recover,
                     on_start=lambda a: self.start(a.env, 'start'))
        for spec in env.plan['actors'][1:]:
            common.Actor(env, spec, self.run_other,
                         proc=env.k.new_proc('other'),
                         on_start=self.start_other)
        env.sigparts.append((sorted(cfg.items()), [
            o[1:] for a in env.plan['actors'] for o in a['ops']],
            repr(env.plan['net'])))

    def expand(self, env, words):
        return common.expand(words) if env.cfg['bigrams'] else words

    def page_tokens(self, env, o):
        """The tokens of a page: of its text, and its header fields."""
        m = self.message.from_bytes(
            ('Content-Type: %s\r\n\r\n%s' % (o['type'], o['body'])).encode())
        ts = self.tok.tokenize(m, basic_header_tokenize=True,
                               basic_header_tokenize_only=True)
        prefix = env.cfg['prefix'].encode()
        return [prefix + t for t in ts]

    def followed(self, env, text):
        """The URL that is followed for a message: the last http one."""
        last = None
        for w in text.split('\n\n', 1)[1].split():
            if w.startswith('http://'):
                last = w[7:]
        if last is not None and env.cfg['base']:
            last = base_of(last)
        return last

    def ok(self, env, res, what):
        if res[0] == 'exc':
            env.violate('op-fails', '%s: %s' % (what, describe(res)))
        return res[1]

    PATH = '/data/home/model.pck'

    def start(self, env, opid):
        from sbclassifier.safepickle import pickle_read
        d = env.data
        d['last'] = None
        if env.vfs.peek(self.PATH) is None:
            args = (True,) if env.cfg['bigrams'] else ()
            c = self.ok(env, env.k.call(opid, self.slurping.
                                        SlurpingClassifier, *args),
                        'constructor')
        else:
            c = self.ok(env, env.k.call(opid, pickle_read, self.PATH),
                        'reading the classifier')
        d['c'] = c
        if not d['persist']:
            self.unsure(d)
        # (a lock that nobody removes keeps the failures from being saved)
        d['persist'] = not any(
            '.lock' in p for p in env.vfs.tree('/data/home'))
        if not d['persist']:
            self.unsure(d)

    def start_other(self, a):
        env = a.env
        args = (True,) if env.cfg['bigrams'] else ()
        a.c = self.ok(env, env.k.call('bstart', self.slurping.
                                      SlurpingClassifier, *args),
                      'constructor')

    def run_other(self, a, op):
        """The other process: what it does must work, too."""
        env = a.env
        opid, kind, m, x, form = op
        t0 = env.k.now - env.data['advanced']
        env.k.probes['operations of another process'] += 1
        res = env.k.call(opid, lambda: (
            a.c.learn if kind == 'learn' else a.c.spamprob)(
                self.stream(env, m, form), x))
        self.common(env, opid, t0 + env.data['advanced'],
                    '%s of message %d by another process' % (kind, m), res)

    def foreign(self, env, url):
        """Whatever has been received by anyone may be in the cache."""
        d = env.data
        ops = {}
        for e in d['net'].log:
            if e[0] == 'web':
                ops.setdefault(e[3], []).append(e)
            elif 'e' in e[2] and str(e[1]).lower() == url.split(
                    '/')[0].split(':')[0]:
                self.remember(d, url, ('fail', 'url:non_resolving'))
        for webs in ops.values():
            if webs[0][1] == request_url(url):
                for e in self.entries(env, webs[-1][2]):
                    self.remember(d, url, e)
        d['state'].setdefault(url, set()).add(None)
        if url.split('.')[-1] in ('jpg', 'gif', 'png', 'css', 'js'):
            self.remember(d, url, ('fail', 'url:non_html'))
        host = url.split('/')[0]
        if '..' in host or host.startswith('.'):
            self.remember(d, url, ('fail', 'url:non_resolving'))

    def unsure(self, d):
        """Nothing is known for certain about what is cached."""
        for u, s in d['state'].items():
            # (a failure may hide a page that was received before)
            s |= d['received'].get(u, set()) | {None}

    def save(self, env, opid):
        """The harness keeps the model itself (that is C01's business)."""
        import pickle
        env.vfs.poke(self.PATH, pickle.dumps(env.data['c']))

    def recover(self, a):
        env = a.env
        d = env.data
        d['persist'] = False
        if env.cfg['operator']:
            for p in list(env.vfs.tree('/data/home')):
                if p.endswith('.lock') or '.lock' in p:
                    env.vfs.poke_unlink(p)
        # (the model in memory has gone; the one saved last is used)
        self.slurping.slurp_wordstream = None
        url = d.pop('following', None)
        if url is not None:
            # a page may have been received and cached before the crash
            op = d.pop('op')
            for e in d['net'].log:
                if e[3] == op and e[0] == 'web':
                    for new in self.entries(env, e[2]):
                        self.remember(d, url, new)
            self.unsure(d)
            d['state'].setdefault(url, set()).add(None)
            d['state'][url].add(('fail', 'url:non_resolving'))
        self.start(env, 'r%d' % a.crashes)
        d['model'] = d.get('saved', Model()).copy()
        self.check_counts(env, 'recovery')

    def check_counts(self, env, what):
        d = env.data
        got = observe(d['c'], d['words'])
        if got != d['model']:
            env.violate('counts', 'after %s: %s'
                        % (what, diff(got, d['model'])))

    def run_op(self, a, op):
        env = a.env
        d = env.data
        k = env.k
        opid, kind, x, y, z = op
        if kind == 'advance':
            k.now += x
            d['advanced'] += x
        elif kind == 'restart':
            self.save(env, opid)
            d['saved'] = d['model'].copy()
            k.kill(a.task.proc)
            a.task.proc = k.new_proc('A-' + opid)
            self.slurping.slurp_wordstream = None
            k.fire('restart')
            self.start(env, opid)
        elif kind == 'damage':
            self.damage(env, x, y, z)
        elif kind == 'clean':
            # somebody empties the cache directory
            n = 0
            for p in list(env.vfs.tree('/data/home')):
                if p.endswith('.page'):
                    env.vfs.poke_unlink(p)
                    n += 1
            if n:
                k.fire('cache emptied')
                self.unsure(d)
        elif kind == 'hold':
            # another program holds the lock of a failure cache for good
            if env.vfs.peek_stat('/data/home/url-cache') is not None:
                env.vfs.poke('/data/home/url-cache/bad_urls.pck.lock', b'')
                k.fire('lock held')
                d['persist'] = False
                self.unsure(d)
        elif kind == 'words':
            d['last'] = None
            for n in range(z):
                ws = [w.encode() for w in x]
                self.slurping.slurp_wordstream = None
                self.ok(env, k.call('%sw%d' % (opid, n), d['c'].learn,
                                    list(ws), y), 'learn')
                d['model'].train(self.expand(env, ws), y)
            self.check_counts(env, 'learning words')
        elif kind in ('learn', 'unlearn'):
            self.op_train(env, opid, kind, x, y, z)
        elif kind == 'score':
            self.op_score(env, opid, x, y, z)

    def damage(self, env, name, how, z):
        path = '/data/home/url-cache/' + name
        data = env.vfs.peek(path)
        if not data:
            return
        if how == 'half':
            bad = data[:len(data) // 2]
        elif how == 'flip':
            at, bit = z % len(data), z // len(data) % 8
            bad = data[:at] + bytes([data[at] ^ 1 << bit]) + data[at + 1:]
            if not self.spoilt(bad, name):
                # nobody can tell that this is not what was written
                return
        elif how == 'values':
            keys = FAILURES[:3] if name == 'bad_urls.pck' else [
                u for u in env.data['url'] if u]
            if not keys:
                return
            bad = pickle.dumps(dict.fromkeys(keys, [
                5, None, 'text', {'a': 1}, b'b', True, 0.5][z % 7]))
        else:
            bad = BAD_PICKLES[how]
        env.vfs.poke(path, bad)
        env.k.fire('cache damaged')
        env.data['persist'] = False
        self.unsure(env.data)

    @staticmethod
    def spoilt(data, name):
        """Whether a file can be told not to be a cache of failures."""
        try:
            v = pickle.loads(data)
            return not isinstance(v, dict) or not all(
                isinstance(k, str) and isinstance(us, (tuple, list)) and
                all(isinstance(u, str) for u in us)
                for k, us in v.items()) or (
                    name == 'bad_urls.pck' and not v.keys() >= set(
                        FAILURES[:3]))
        except Exception:
            return True

    def stream(self, env, m, form):
        d = env.data
        last, d['last'] = d.get('last'), None
        if form == 2 and last and last[0] == m and not env.cfg['shared']:
            # (nothing has been tokenized since)
            d['last'] = last
            env.k.probes['tokens used again'] += 1
            return list(last[1])
        text = env.plan['messages'][m]['text']
        msg = self.message.from_string(text)
        if not form:
            return self.tok.tokenize(msg)
        d['last'] = m, list(self.tok.tokenize(msg))
        return list(d['last'][1])

    # ------------------------------------------------ what may be contributed
    def entries(self, env, o):
        """What the outcome of a request may put into the cache."""
        if o.get('e') or o.get('status') == 302:
            return [('fail', 'url:unknown_error')]
        if o.get('status', 200) >= 400:
            return [('fail', 'url:http_%d' % o['status'])]
        if not str(o.get('type', 'text/html')).startswith('text/html'):
            return [('fail', 'url:non_html')]
        page = [('page', (o['body'], o['type']), env.k.wall())]
        if o.get('wild'):
            page.append(('fail', 'url:unknown_error'))
        return page

    def remember(self, d, url, e):
        d['state'].setdefault(url, {None}).add(e)
        if e[0] == 'page':
            d['received'].setdefault(url, set()).add(e)

    def extras(self, env, e):
        if e is None:
            return []
        if e[0] == 'fail':
            return [e[1]]
        return env.data['pages'].get(e[1])

    def outcomes(self, env, opid, url, t0, faulted):
        """What this operation may have seen: [(entry, next states)]."""
        d = env.data
        log = [e for e in d['net'].log if e[3] == opid]
        dns_failed = any(e[0] == 'dns' and 'e' in e[2] for e in log)
        asked = any(e[0] == 'dns' for e in log)
        webs = [e for e in log if e[0] == 'web']
        host = url.split('/')[0].split(':')[0]
        bad_name = '..' in host or host.startswith('.')
        image = url.split('.')[-1] in ('jpg', 'gif', 'png', 'css', 'js')
        for e in log:
            if e[0] == 'dns' and str(e[1]).lower().rstrip('.') != host:
                env.violate('wrong-request', 'for %r %r was looked up'
                            % (url, e[1]))
        age = env.cfg['days'] * 86400
        out = []
        nores = ('fail', 'url:non_resolving')
        if webs:
            first = webs[0][1]
            allowed = {request_url(url)}
            for e in webs:
                if e[1] not in allowed:
                    env.violate('wrong-request', 'for %r %r was requested '
                                '(first %r)' % (url, e[1], first))
                loc = (e[2].get('headers') or {}).get('Location')
                if loc:
                    allowed = {loc}
        if len(webs) > 1 and 'Location' not in (webs[0][2].get('headers') or
                                                {}):
            env.violate('repeated', '%r was requested %d times in one '
                        'operation' % (url, len(webs)))
        for s in d['state'].get(url, {None}):
            states = []
            if s is not None and s[0] == 'fail':
                if not log:
                    out.append((s, s))
                if not faulted:
                    continue
            if s is not None and s[0] == 'page':
                young = t0 - s[2] < age + EPS
                if young and not webs:
                    if bad_name or dns_failed:
                        out.append((nores, nores))
                    elif asked or not log:
                        out.append((s, s))
                if env.k.wall() - s[2] < age - EPS and not faulted:
                    continue
            # not cached (any more)
            if bad_name or dns_failed:
                if not webs:
                    out.append((nores, nores))
            elif image:
                if not webs:
                    out.append((('fail', 'url:non_html'),) * 2)
            elif webs:
                out += [(e, e) for e in self.entries(env, webs[-1][2])]
        return out

    def settle(self, env, opid, url, matched, faulted):
        d = env.data
        if not matched:
            return
        new = set(matched)
        if env.vfs.peek_stat('/data/home/url-cache') is None:
            # (no directory, no cache)
            new.add(None)
        if faulted:
            new |= d['state'].get(url, set()) | {None}
            d['persist'] = False
            self.unsure(d)
            new |= d['state'].get(url, set())
        d['state'][url] = new
        d['received'].setdefault(url, set()).update(
            e for e in new if e and e[0] == 'page')

    def common(self, env, opid, t0, what, res):
        """Checks after every operation of the classifier."""
        took = env.k.now - t0
        if took > 600:
            env.violate('hang', '%s took %.0f s' % (what, took))
        net = env.data['net']
        if net.direct:
            env.violate('proxy', '%s: requests %r should have gone through %r'
                        % (what, net.direct, net.proxy))
        if net.proxy and any(e[3] == opid for e in net.log):
            env.k.probes['requests by proxy'] += 1
        if res[0] == 'exc':
            env.violate('op-fails', '%s: %s; network: %r' % (
                what, describe(res),
                [e for e in env.data['net'].log if e[3] == opid]))

    def faulted(self, env, opid):
        return any(p[0] == opid for p in env.k.fault_points)

    def expect(self, env, opid, url, t0, fits, what):
        """One of the outcomes possible must fit."""
        d = env.data
        faulted = self.faulted(env, opid) or env.cfg['shared']
        if env.cfg['shared']:
            self.foreign(env, url)
        log = [e for e in d['net'].log if e[3] == opid]
        outs = self.outcomes(env, opid, url, t0, faulted)
        matched = [nxt for e, nxt in outs if fits(e)]
        if not matched:
            if not outs:
                cls = 'requested-again' if log else 'not-followed'
                env.violate(cls, '%s, URL %r: cached is one of %s, network: '
                            '%r' % (what, url, sorted(
                                map(repr, d['state'].get(url, {None}))),
                                log))
            env.violate('contribution', '%s, URL %r: the page or failure '
                        'should be one of %r; network: %r; %s' % (
                            what, url, [e for e, _ in outs], log,
                            d.get('why', '')))
        self.settle(env, opid, url, matched, faulted)
        env.k.probes['page used' if any(
            m and m[0] == 'page' for m in matched) else
            'failure token used'] += 1
        if not log:
            env.k.probes['answered from the cache'] += 1

    def op_train(self, env, opid, kind, m, is_spam, form):
        d = env.data
        k = env.k
        if kind == 'unlearn':
            if (m, is_spam) not in d['trained'] or (
                    d['model'].nspam if is_spam else d['model'].nham) < 1:
                return
            d['trained'].remove((m, is_spam))
        url = d['url'][m]
        before = d['model']
        d['following'], d['op'] = url, opid
        d['saved'] = before.copy()
        self.save(env, opid)
        t0, w0 = k.now, k.wall()
        res = k.call(opid, lambda: getattr(d['c'], kind)(
            self.stream(env, m, form), is_spam))
        what = '%s of message %d' % (kind, m)
        self.common(env, opid, t0, what, res)
        d.pop('following')
        got = observe(d['c'], d['words'])

        def fits(e):
            extras = self.extras(env, e)
            ws = set(self.expand(env, d['base'][m]))
            wild = extras is None
            if wild:
                k.probes['page of unknown tokens'] += 1
                extras = [w for w in d['words'] if w not in ws and
                          got.counts.get(w) != before.counts.get(w)]
                if any(w in d['plain'] for w in extras):
                    d['why'] = 'other words changed'
                    return False
            ws |= set(extras)
            new = before.copy()
            if kind == 'learn':
                new.train(sorted(ws, key=repr), is_spam)
            else:
                # (words of a page that has changed may not be there)
                have = [w for w in ws if before.counts.get(w, (0, 0))[
                    0 if is_spam else 1] > 0]
                new.train(sorted(have, key=repr), is_spam, -1)
            new.msgs.clear()
            if new == got:
                return True
            d['why'] = diff(got, new)
            return False
        if url is None:
            if any(e[3] == opid for e in d['net'].log):
                env.violate('requested', '%s, which has no URL, used the '
                            'network' % what)
            if not fits(None):
                env.violate('counts', 'after %s, which has no URL: %s'
                            % (what, d['why']))
            if self.faulted(env, opid):
                d['persist'] = False
                self.unsure(d)
        else:
            self.expect(env, opid, url, w0, fits, what)
        if kind == 'learn':
            d['trained'].append((m, is_spam))
        d['model'] = got

    def reference(self, env, words):
        """A plain classifier that knows the same about these words."""
        d = env.data
        if env.cfg['bigrams']:
            words = list(d['model'].counts)
        m = common.Model(bigrams=env.cfg['bigrams'])
        m.nspam, m.nham = d['model'].nspam, d['model'].nham
        for w in set(words):
            s, h = d['model'].counts.get(w, (0, 0))
            s, h = min(s, m.nspam), min(h, m.nham)
            if s or h:
                m.counts[w] = s, h
        return common.classifier_of(m)

    def op_score(self, env, opid, m, evidence, form):
        d = env.data
        k = env.k
        from sbclassifier.classifiers.constants import (HAM_CUTOFF,
                                                        SPAM_CUTOFF)
        url = d['url'][m]
        d['following'], d['op'] = url, opid
        d['saved'] = d['model'].copy()
        self.save(env, opid)
        t0, w0 = k.now, k.wall()
        res = k.call(opid, lambda: d['c'].spamprob(
            self.stream(env, m, form), evidence))
        what = 'scoring message %d' % m
        self.common(env, opid, t0, what, res)
        d.pop('following')
        raw, clues = self.reference(env, d['base'][m]).spamprob(
            list(d['base'][m]), True)

        def shown(prob, clues):
            return (prob, clues) if evidence else prob
        used = any(e[3] == opid for e in d['net'].log)
        sure = not HAM_CUTOFF < raw < SPAM_CUTOFF
        if url is None or sure or len(clues) >= 150:
            if used:
                env.violate('requested', '%s used the network: its own score '
                            'is %.4f, its URL %r' % (what, raw, url))
            if res[1] != shown(raw, clues):
                env.violate('score', '%s gives %r instead of %r'
                            % (what, res[1], shown(raw, clues)))
            k.probes['scored without following'] += 1
            if self.faulted(env, opid):
                d['persist'] = False
                self.unsure(d)
        else:
            def fits(e):
                got = res[1][0] if evidence else res[1]
                extras = self.extras(env, e)
                if extras is None or env.cfg['bigrams'] and e is not None:
                    # (what such a page says, and which pairs the words make
                    # up, is not said anywhere)
                    return got == raw or not HAM_CUTOFF < got < SPAM_CUTOFF
                ws = list(extras) + [w for w, _ in clues]
                p, cl = self.reference(env, ws).spamprob(ws, True)
                if HAM_CUTOFF < p < SPAM_CUTOFF:
                    p, cl = raw, clues
                else:
                    d['decided'] = True
                d['why'] = '%r instead of %r' % (res[1], shown(p, cl))
                return res[1] == shown(p, cl)
            d['decided'] = False
            self.expect(env, opid, url, w0, fits, what)
            if d['decided']:
                k.probes['decided by the page'] += 1
        self.check_counts(env, what)


SCENARIO = C15()
