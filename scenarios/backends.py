"""The classifiers under test, one adapter per kind of storage."""
import os
import pickle

from . import common
from .common import Model, describe, observe

DBMS = ('through', 'back', 'nosync', 'gnu', 'dumb')


class Memory:
    """Classifier kept in a pickle written with safepickle."""
    name = 'memory'
    bigrams = False
    path = '/data/home/plain.pck'
    live = False            # reopening without store() keeps nothing

    def __init__(self, env):
        self.env = env

    def new(self):
        from sbclassifier.classifiers.basic import Classifier
        return Classifier(self.bigrams) if self.bigrams else Classifier()

    def open(self):
        from sbclassifier.safepickle import pickle_read
        try:
            return pickle_read(self.path)
        except FileNotFoundError:
            return self.new()

    def store(self, c):
        from sbclassifier.safepickle import pickle_write
        pickle_write(self.path, c)

    def close(self, c):
        pass

    def load(self, c):
        raise NotImplementedError
    can_load = False


class Bigrams(Memory):
    name = 'bigrams'
    bigrams = True


class Stored:
    bigrams = False
    can_load = True

    def __init__(self, env):
        self.env = env

    def open(self):
        return self.cls()(self.path)

    def store(self, c):
        c.store()

    def close(self, c):
        c.close()

    def load(self, c):
        c.load()


class Pickle(Stored):
    name = 'pickle'
    path = '/data/home/bayes.pck'
    live = False

    def cls(self):
        from sbclassifier.classifiers.storage import PickleClassifier
        return PickleClassifier


class BigramPickle(Pickle):
    """A pickle which was begun by a classifier with bigrams."""
    name = 'bipickle'
    bigrams = True

    def open(self):
        from sbclassifier.classifiers.basic import Classifier
        new = not os.path.exists(self.path)
        c = super().open()
        if new:
            Classifier.__init__(c, True)
        return c


class Cdb(Stored):
    name = 'cdb'
    path = '/data/home/bayes.cdb'
    live = False

    def cls(self):
        from sbclassifier.classifiers.storage import CDBClassifier
        return CDBClassifier


class Shelf(Stored):
    name = 'shelf'
    path = '/data/home/bayes'
    live = True

    def __init__(self, env):
        super().__init__(env)
        self.first = env.cfg.get('flag', 'c')

    def cls(self):
        from sbclassifier.classifiers.storage import ShelveClassifier
        return ShelveClassifier

    def open(self, flag=None):
        flag, self.first = flag or self.first, 'c'
        return self.cls()(self.path, flag)


BACKENDS = {b.name: b for b in (Memory, Bigrams, Pickle, BigramPickle,
                              Cdb, Shelf)}


def gen_cfg(rng, names=('memory', 'bigrams', 'pickle', 'bipickle',
                        'cdb', 'shelf',
                        'shelf', 'shelf', 'shelf')):
    cfg = {'backend': rng.choice(names)}
    if cfg['backend'] == 'shelf':
        cfg['dbm'] = rng.choice(DBMS)
    return cfg


def vocabulary(rng, cfg):
    """A small vocabulary, so that words recur."""
    pools = [common.PLAIN]
    if rng.random() < 0.6:
        pools.append(common.ODD)
    if rng.random() < 0.6:
        pools.append(common.BYTES)
    if rng.random() < 0.04:
        pools.append(common.LONG)
    words = [w for p in pools for w in p]
    n = rng.choice([2, 3, 4, 6, 9])
    return rng.sample(words, min(n, len(words)))


def words_of(plan, m):
    if isinstance(m, int) and m < 0:
        return common.bulk_words(-m)
    return [common.dec(w) for w in plan['messages'][m]]


def as_stream(words, form):
    """The same tokens as different kinds of iterable."""
    if form == 1:
        return iter(list(words))
    if form == 2:
        return (w for w in list(words))
    if form == 3:
        return tuple(words)
    return list(words)


def all_words(plan, bigrams=False):
    n = len(plan['messages'])
    ws = {w for m in range(n) for w in (
        common.expand(words_of(plan, m)) if bigrams else words_of(plan, m))}
    return sorted(ws, key=lambda w: (isinstance(w, bytes), w)) + \
        ['never-seen', b'never-seen']


def scores(c, plan, ms):
    return [c.spamprob(words_of(plan, m)) for m in ms]

