"""Workload generation and oracles shared by the scenarios."""
import collections

from simkit import images
from simkit.kernel import SimCrash, Violation, current_task

PLAIN = ['cheap', 'meds', 'hello', 'lunch', 'url:example', 'skip:w 30']
ODD = ['', ' ', 'saved state', 'saved state ', 'caf\u00e9', '\u4e2d\u6587',
       'a\nb', 'nul\0word', 'D', 'C', '\0', '\0bcheap', '\0ssaved state',
       '\0s', 'x' * 600, 'lone \udce9', '\ud83d', '\0u', '\0ulone']
BYTES = [b'cheap', b'viagra', b'\xff\xfe raw', b'', b'saved state',
         b'subject:hi', 'caf\u00e9'.encode('utf-8'), b'b']
# longer than any buffer
LONG = ['q' * 70000, b'q' * 66000, 'q' * 70001]


def enc(word):
    """A word as JSON."""
    if len(word) > 1000 and word == word[:1] * len(word):
        return {'rep': enc(word[:1]), 'n': len(word)}
    return {'b': word.decode('latin-1')} if isinstance(word, bytes) else word


def dec(x):
    if isinstance(x, dict) and 'rep' in x:
        return dec(x['rep']) * x['n']
    return x['b'].encode('latin-1') if isinstance(x, dict) else x


def expand(words):
    """The tokens that training with bigrams counts."""
    words = list(words)
    return words + ['bi:{} {}'.format(a, b)
                    for a, b in zip(words, words[1:])]


class Model:
    """What the training history implies: the reference classifier state."""

    def __init__(self, other=None, bigrams=None):
        self.bigrams = (other.bigrams if other and bigrams is None
                        else bool(bigrams))
        self.nspam = other.nspam if other else 0
        self.nham = other.nham if other else 0
        self.counts = dict(other.counts) if other else {}
        #: the messages trained and not untrained
        self.msgs = collections.Counter(other.msgs if other else ())

    def copy(self):
        return Model(self)

    def trained(self, words, is_spam):
        return self.msgs[tuple(words), bool(is_spam)] > 0

    def train(self, words, is_spam, sign=1):
        key = tuple(words), bool(is_spam)
        self.msgs[key] += sign
        if not self.msgs[key]:
            del self.msgs[key]
        if is_spam:
            self.nspam += sign
        else:
            self.nham += sign
        for w in set(expand(words) if self.bigrams else words):
            s, h = self.counts.get(w, (0, 0))
            if is_spam:
                s += sign
            else:
                h += sign
            if (s, h) == (0, 0):
                self.counts.pop(w, None)
            else:
                self.counts[w] = (s, h)

    def key(self):
        return (self.nspam, self.nham, tuple(sorted(
            self.counts.items(), key=lambda x: (str(type(x[0])), x[0]))))

    def __eq__(self, other):
        return self.key() == other.key()

    def __repr__(self):
        c = dict(list(self.counts.items())[:12])
        return 'nspam=%d nham=%d %r%s' % (
            self.nspam, self.nham, c, '...' if len(self.counts) > 12 else '')


def observe(c, words):
    """The state a classifier reports, as a Model."""
    m = Model()
    m.nspam, m.nham = c.nspam, c.nham
    for w in words:
        r = c._wordinfoget(w)
        if r is not None:
            pair = (r.spamcount, r.hamcount)
            if pair != (0, 0):
                m.counts[w] = pair
    return m


def classifier_of(model):
    """A new classifier in memory with these totals and counts."""
    with images.oracle():
        from sbclassifier.classifiers.basic import Classifier
    c = Classifier(True) if model.bigrams else Classifier()
    c.nspam, c.nham = model.nspam, model.nham
    for w, (s, h) in model.counts.items():
        r = c.WordInfoClass()
        r.spamcount, r.hamcount = s, h
        c._wordinfoset(w, r)
    return c


def diff(got, want, n=5):
    out = []
    if (got.nspam, got.nham) != (want.nspam, want.nham):
        out.append('totals spam/ham %d/%d, expected %d/%d'
                   % (got.nspam, got.nham, want.nspam, want.nham))
    for w in list(dict.fromkeys(list(want.counts) + list(got.counts))):
        a, b = got.counts.get(w), want.counts.get(w)
        if a != b:
            out.append('%r is %s, expected %s' % (w, a, b))
    return '; '.join(out[:n]) + (' ...' if len(out) > n else '') or 'equal'


def describe(res):
    return 'returned' if res[0] == 'ok' else '%s: %s' % (
        type(res[1]).__name__, res[1])


def gen_messages(rng, n, vocab, maxlen=6):
    """n messages: lists of (encoded) words."""
    out = []
    for _ in range(n):
        k = rng.randint(0 if rng.random() < 0.1 else 1, maxlen)
        words = [rng.choice(vocab) for _ in range(k)]
        out.append([enc(w) for w in words])
    return out


BULK = 700


def bulk_words(i):
    """The words of a long message; from 11 on, a very long one."""
    if i > 10:
        return [w for j in range(i * 10, i * 10 + 6) for w in _bulk(j)]
    return _bulk(i)


def _bulk(i):
    return ['bulk%d-%04d-%s' % (i, j, 'x' * (j % 23)) for j in range(BULK)]


class Actor:
    """Runs the ops of one plan actor, surviving crashes of its process."""

    def __init__(self, env, spec, run_op, recover=None, trace=False,
                 proc=None, on_start=None):
        self.env, self.spec = env, spec
        self.run_op, self.recover = run_op, recover
        self.crashes = 0
        self.on_start = on_start
        self.task = env.k.spawn(spec['name'], self._main, proc=proc,
                                trace=trace)

    def _main(self, t):
        k = self.env.k
        if self.on_start is not None:
            self._guard(t, lambda: self.on_start(self))
        for op in self.spec['ops']:
            self._guard(t, lambda: self.run_op(self, op))

    def _guard(self, t, fn):
        """Run fn; on a crash of the process start a new one and recover
        (recovery can be killed too)."""
        try:
            fn()
            return
        except SimCrash:
            if self.recover is None:
                raise
        while True:
            self.crashes += 1
            self.env.k.probes['process restarts'] += 1
            t.proc = self.env.k.new_proc('%s%d' % (self.spec['name'],
                                                   self.crashes))
            try:
                self.recover(self)
                return
            except SimCrash:
                continue


def interrupt(rng, f, share=0.12):
    """Sometimes, let the call be interrupted instead: what it raises then is
    no OSError."""
    if f['kind'] == 'err' and not f.get('sticky') and rng.random() < share:
        f['errno'] = rng.choice(['interrupt', 'exit', 'memory'])
    return f
