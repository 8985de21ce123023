"""Messages and directories for the scenarios on corpora."""
import email
import fnmatch
import gc
import json
import re

DIR = '/data/home/corpus'
KEYS = ['m1', 'm2', 'm3', 'a', 'b.eml', 'c.eml', 'msg one', '10', '1',
        'caf\u00e9', '-x', '.hidden', 'x' * 200, '[a]', 'm1.eml', 'M1']
BAD_KEYS = ['a/b', '../outside', '/data/home/outside', 'sub/../m1', '']
FILTERS = ['*', '*', '*', '*.eml', 'm*', '[a-m]*', '?', '*1*', 'nothing']

WORDS = ['cheap', 'meds', 'hello', 'lunch', 'meeting', 'money', 'python',
         'offer', 'tomorrow', 'invoice', 'viagra', 'weather']


#: Headers and bodies that take the tokenizer to its less common paths.
HEADS = [
    ['To', 'itin01@example.com, itin02@example.com, itin03@example.org'],
    ['To', ', '.join('user%d@mail.example.com' % i for i in range(12))],
    ['To', '=?iso-8859-1?q?J=F6rg?= <j@example.com>, k@example.com'],
    ['To', '=?no-such-charset?b?w6k=?= <>'], ['To', ''],
    ['Cc', 'a@b.example, "x, y" <c@b.example>'], ['Cc', 'one'],
    ['Reply-To', 'Some Body <some.body@example.net>'],
    ['Sender', '=?utf-8?b?broken'], ['From', '=?utf-8?q?a=FFb?= <q@r.s>'],
    ['Message-Id', '<123.abc@host.example.com>'], ['Message-Id', 'strange'],
    ['X-Mailer', 'Mailer   (Version  7)'], ['X-MAILER', 'caf\u00e9'],
    ['Received', 'from relay.example.org (relay.example.org [198.51.100.9])\n'
     '\tby mx.example.com (may be forged) with SMTP;\n\tTue, 2 Jan 2001 '
     '00:00:00 +0000'],
    ['Received', 'from unknown (203.0.113.77) by h.example (envelope from '
     'somebody); 3 Jan'],
    ['X-Habeas-SWE-1', 'winter into spring'], ['X-Habeas-SWE-3', 'no'],
    ['Subject', '=?bad?x?y?='], ['Subject', '=?no-such?q?caf=E9?='],
    ['SUBJECT', 'MAKE $$$ FAST 100%...!!'], ['Date', 'yesterday'],
    ['Subject', 'a-very-long-word-in-a-subject.with@address.example'],
    ['List-Id', 'caf\u00e9 list'], ['Content-Disposition', 'inline'],
    ['Content-Type', 'text/plain; charset=no-such; type="x/Y"'],
    ['Content-Type', 'text/html; name="C:\\tmp\\a.b.exe"'],
    ['Content-Type', "text/plain; name*=utf-8''caf%C3%A9.txt"],
    ['Content-Transfer-Encoding', 'base64'],
    ['Content-Transfer-Encoding', 'quoted-printable'],
    ['Content-Transfer-Encoding', 'x-unknown'],
]
TEXTS = [
    'aGVsbG8gY2hlYXAgbWVkcw==\n', 'aGVsbG8gY2h\n', 'aGVs*G8=\ntrailing\n',
    'caf=C3=A9 =\nsoft=20break =ZZ\n', '<html><br>cheap<p>me<b>ds</b>\n',
    'w' * 30 + ' some.one@example.com a@b.' + 'c' * 20 + '\n',
    'a b c d e f hello x y\n', '\u4e2d\u6587' * 9 + ' end\n',
    '&#99;&#104;eap &#99999999;\n', '<script>x</script> <iframe src=cid:1>\n',
    'begin 644 dir/file.tar.gz\n#0V%T\n`\nend\nafter\n', '<!-- open\n',
    'begin 644 never-ended.txt\n#0V%T\n', '<noframes>no</noframes>yes\n',
    'see http://www.example.com:81/a,b;c?d=%65%66&e=f.\n', '\n \n',
    '<style type="x">hidden</style> <comment>too</comment>shown\n',
]
PARTS = ['text/plain', 'text/plain; charset="iso-8859-1"', 'text/html',
         'application/octet-stream; name="a.b"', 'image/gif', 'text',
         'message/rfc822', 'application/x-unknown']
ENCODINGS = [None, None, 'base64', 'quoted-printable', '7bit', 'x-uuencode']


def enrich(rng, m, n):
    """Give a message headers and parts of the less common kinds."""
    for _ in range(rng.randint(0, 4)):
        m['h'].insert(rng.randint(0, len(m['h'])), list(rng.choice(HEADS)))
    r = rng.random()
    if r < 0.5:
        m['b'] += ''.join(rng.sample(TEXTS, rng.randint(1, 3)))
    elif r < 0.75:
        m['b'] = rng.choice(TEXTS) + 'uniq%d\n' % n
    else:
        kind = rng.choice(['mixed', 'alternative', 'digest'])
        m['h'].append(['Content-Type', 'multipart/%s; boundary="r%d"'
                       % (kind, n)])
        body = 'preamble\n'
        for _ in range(rng.randint(1, 4)):
            encoding = rng.choice(ENCODINGS)
            body += '--r%d\nContent-Type: %s\n%s%s\n%s' % (
                n, rng.choice(PARTS),
                'Content-Transfer-Encoding: %s\n' % encoding
                if encoding else '',
                rng.choice(['', 'Content-Disposition: attachment; '
                            'filename="x/y.z"\n']), rng.choice(TEXTS))
        m['b'] = body + ('--r%d--\n' % n if rng.random() < 0.8 else '')
    return m


def gen_message(rng, n, rich=0.0, longest=None):
    """A message as JSON; `n` makes it different from all others.  Where every
    line executed is a step, the body must not be too long."""
    m = _gen_message(rng, n)
    if rng.random() < rich:
        m = enrich(rng, m, n)
    m['b'] = m['b'][:longest]
    if longest is None and rng.random() < 0.03:
        m['size'] = rng.choice([8192, 65536, 65536, 131072, 70001, 200000]) \
            if rng.random() < 0.9 else rng.choice([1 << 20, 1200000])
    if rng.random() < 0.08:
        m['crlf'] = True
    return m


def gen_similar(rng, msgs, share=0.25):
    """The next message: sometimes one as long as another of them."""
    n = len(msgs)
    if msgs and rng.random() < share:
        i = rng.randrange(max(0, n - 3), n)
        text = json.dumps(msgs[i])
        old, new = 'uniq%d' % i, 'uniq%d' % n
        if old in msgs[i]['b'] and len(old) == len(new):
            return json.loads(text.replace(old, new))
    return gen_message(rng, n, 0.2)


def _gen_message(rng, n):
    r = rng.random()
    words = ['uniq%d' % n] + [rng.choice(WORDS)
                              for _ in range(rng.randint(0, 8))]
    if r < 0.15:
        words += ['w' * rng.randint(13, 60)]
    body = ' '.join(words) + '\n'
    if rng.random() < 0.2:
        body += '\n' + 'line\n' * rng.randint(1, 40)
    if rng.random() < 0.1:
        body += 'From somebody\n.\n>From another\n'
    if rng.random() < 0.15:
        body += 'caf\u00e9 \u4e2d\u6587\n'
    if rng.random() < 0.05:
        body = ''
    if rng.random() < 0.08:
        body += 'z' * rng.choice([5000, 9000, 40000]) + '\n'
    if rng.random() < 0.1:
        body = body.rstrip('\n')
    heads = [['Subject', rng.choice(
        ['msg %d' % n, 'Re: hello', 'caf\u00e9', '=?utf-8?b?w6k=?= x',
         'a ' * 60 + 'end', 'folded\n line\n\tthree', ''])]]
    if rng.random() < 0.5:
        heads.append(['From', rng.choice(
            ['a@example.com', '"B, C" <b@example.org>', 'bad <<', 'x@y@z'])])
    if rng.random() < 0.3:
        heads.append(['X-Spambayes-Classification', 'spam'])
    if rng.random() < 0.3:
        heads.append(['Received', 'from mail.example.com ([192.0.2.7]) by h; '
                      'Mon, 1 Jan 2001 00:00:00 +0000'])
        heads.append(['Received', 'from second'])
    if rng.random() < 0.2:
        heads.append(['Content-Type', rng.choice(
            ['text/plain; charset="utf-8"', 'text/html', 'bad',
             'multipart/mixed; boundary="b%d"' % n])])
        if heads[-1][1].startswith('multipart'):
            body = ('pre\n--b{0}\nContent-Type: text/plain\n\npart uniq{0}\n'
                    '--b{0}\nContent-Type: image/png\n'
                    'Content-Transfer-Encoding: base64\n\nAAEC\n'
                    '--b{0}--\nafter\n').format(n)
    if rng.random() < 0.06:
        heads = []
    return {'h': heads, 'b': body}


def raw(m):
    data = ''.join('%s: %s\n' % (k, v) for k, v in m['h']).encode('utf-8') + \
        b'\n' + body(m)
    return data.replace(b'\n', b'\r\n') if m.get('crlf') else data


def body(m):
    data = m['b'].encode('utf-8')
    missing = m.get('size', 0) - len(data)
    if missing > 0:
        # a large message
        line = b'%s line of a large message\n' % m['b'][:20].encode(
            'utf-8').replace(b'\n', b' ')
        data += (line * (missing // len(line) + 1))[:missing - 1] + b'\n'
    return data


def build(m, message_id=None, as_string=False):
    """The Message object."""
    from sbclassifier import message
    if as_string:
        return message.from_string(raw(m).decode('utf-8'), message_id)
    return message.from_bytes(raw(m), message_id)


def become(msg, m):
    """Change a message in place to say what `m` says."""
    new = build(m)
    for key in msg.keys():
        del msg[key]
    for name in ('_headers', '_payload', '_charset', 'preamble', 'epilogue',
                 'defects'):
        setattr(msg, name, getattr(new, name))


def _payload(msg):
    p = msg.get_payload()
    if isinstance(p, list):
        return [(_lines(msg.preamble or ''), _lines(msg.epilogue or ''))] + [
            canon(x) for x in p]
    return _lines(p) if isinstance(p, str) else p


def _lines(text):
    # (how lines end in a file does not matter)
    return text.replace('\r\n', '\n')


def canon(msg):
    """What a message says: header names and values, and the body."""
    raw_items = getattr(msg, 'raw_items', msg.items)
    heads = [(k, re.sub(r'\r?\n(?=[ \t])', '', str(v)))
             for k, v in raw_items()]
    return heads, _payload(msg)


def canon_raw(m):
    return canon(email.message_from_bytes(raw(m)))


def matches(key, namefilter):
    return '/' not in key and key != '' and fnmatch.fnmatchcase(key,
                                                                namefilter)


def messages_alive():
    """The number of messages in memory (not counting their parts)."""
    from sbclassifier.message import Message
    every = [o for o in gc.get_objects() if type(o) is Message]
    parts = {id(p) for o in every if isinstance(o._payload, list)
             for p in o._payload}
    return sum(1 for o in every if id(o) not in parts)
