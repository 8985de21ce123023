"""C14: DNS trouble never breaks or outlives header mining."""
import collections
import ipaddress

from simkit.images import Mod
from simkit.net import Net
from simkit.sim import Scenario, calls, dense_preempts, place_preempts

from . import common, corpus
from .common import describe

ERRORS = ['notfound', 'nodata', 'again', 'fail', 'system', 'timeout',
          'herror', 'refused', 'oserror', 'unicode']
NAMES = ['host%d.example.com' % i for i in range(4)] + ['plain', 'a.b.c.d.e']
BAD = ['', ' ', '.', 'a..b', 'x' * 70 + '.example', 'a b c', '[192.0.2.9]',
       '1.2.3.4:119', '1.2.3.4/8', '1.2.3.004', 'unknown', '-', '@',
       '%s', '*.example.com', 'fe80::1%eth0', 'caf\u00e9.example']
ADDRS = ['192.0.2.%d' % i for i in (1, 77, 255)] + ['10.0.0.1', '0.0.0.0',
                                                   '2001:db8::5', '::1']


class C14(Scenario):
    prop = 'C14'
    quick_runs = 9000
    max_steps = 400000
    watchdog = 40.0
    rule = ('A run lets one to four threads of one process look names and '
            'addresses up and tokenize messages with posting-host headers, '
            'each lookup having a scripted outcome and latency, with context '
            'switches at random lines of the code; every result is compared '
            'with the answers received, and the default time-out with what '
            'it was whenever no lookup is under way.')
    assumptions = (
        'The application changes the default time-out only while no lookup '
        'is running.',
        'Answers may be remembered, failures may not (a name without an '
        'answer is asked for again).')
    real = Scenario.real[:1] + ('email', 'ipaddress', 'CPython threads (one '
                                'at a time, switched at source lines)')
    stub = ('name resolution (scripted outcomes and latencies)', 'clock',
            'thread scheduling')

    def outcome(self, rng, answer):
        r = rng.random()
        if r < 0.45:
            o = {'r': answer}
        else:
            o = {'e': rng.choice(ERRORS)}
        if rng.random() < 0.03:
            o = {'e': 'interrupt'}
        if rng.random() < 0.5:
            o['sec'] = rng.choice([0.01, 1, 5, 9, 30])
        return o

    def generate(self, rng):
        nthreads = rng.choice([1, 1, 2, 2, 3, 4])
        dns, rdns = {}, {}
        for i, name in enumerate(NAMES):
            outs = []
            for _ in range(rng.randint(1, 4)):
                ips = ['198.51.%d.%d' % (i, rng.randint(1, 4))
                       for _ in range(rng.choice([0, 1, 1, 2, 3]))]
                if rng.random() < 0.3:
                    ips.append('2001:db8:%d::%d' % (i, rng.randint(1, 3)))
                for ip in ips:
                    rdns.setdefault(ip, [self.outcome(
                        rng, rng.choice([name, name, 'other.example.net']))
                        for _ in range(rng.randint(1, 3))])
                outs.append(self.outcome(rng, ips))
            dns[name] = outs
        for a in ADDRS:
            rdns[a] = [self.outcome(rng, rng.choice(
                ['h.example.org', 'one', 'a.b.c.example']))
                for _ in range(rng.randint(1, 3))]
        msgs = []
        for n in range(rng.randint(1, 4)):
            m = corpus.gen_message(rng, n, 0.3, 3000)
            hosts = rng.sample(NAMES + ADDRS + BAD + NAMES + ADDRS,
                               rng.choice([1, 1, 2, 3]))
            hosts = list(dict.fromkeys(hosts))
            for h in hosts:
                m['h'].insert(rng.randint(0, len(m['h'])), [
                    rng.choice(['NNTP-Posting-Host', 'nntp-posting-host']),
                    h])
            m['hosts'] = hosts
            msgs.append(m)
        actors = []
        for t in range(nthreads):
            ops = []
            for i in range(rng.randint(1, 4)):
                oid = '%s%d' % ('abcd'[t], i)
                r = rng.random()
                if r < 0.3:
                    ops.append([oid, 'lookup',
                                rng.choice(NAMES + NAMES + BAD)])
                elif r < 0.55:
                    ops.append([oid, 'reverse',
                                rng.choice(ADDRS + NAMES[:1] + BAD[:6])])
                elif r < 0.93:
                    ops.append([oid, 'tokenize', rng.randrange(len(msgs))])
                else:
                    ops.append([oid, 'settimeout',
                                rng.choice([None, 3, 60])])
            actors.append({'name': 'ABCD'[t], 'ops': ops})
        return {'cfg': {'timeout': rng.choice([None, None, 7.5, 0.0, 10])},
                'messages': msgs, 'net': {'dns': dns, 'rdns': rdns},
                '_profile': nthreads > 1, 'actors': actors}

    def place(self, rng, plan, profile):
        place_preempts(rng, plan, profile, rng.choice([1, 2, 4, 8]),
                       {'dns', 'lock'})
        lines = {op: [(n, c) for n, c in enumerate(cs, 1)
                      if c[0] == 'line' and c[1].startswith('dnsutils')]
                 for op, cs in profile.items()}
        flat = [(op, n) for op, cs in lines.items() for n, _ in cs]
        for _ in range(rng.choice([0, 2, 4, 8, 16]) if flat else 0):
            op, n = rng.choice(flat)
            plan['preempt'].append([op, n, rng.randrange(4)])
        place_preempts(rng, plan, profile, rng.choice([0, 1, 3]))
        if rng.random() < 0.3:
            dense_preempts(rng, plan, [
                c for c in calls(profile, {'line'}) if c[3].startswith(
                    ('dnsutils', 'tokenizer', 'iputils'))],
                reach=rng.choice([0, 3, 10]))

    # ------------------------------------------------------------ execution
    dns = Mod('dnsutils')
    tokenizer = Mod('tokenizer')

    def setup(self, env):
        d = env.data
        d['net'] = Net(env.k, env.plan['net'])
        d['base'] = [list(self.tokenizer.tokenize(corpus.build(m)))
                     for m in env.plan['messages']]
        env.k.on_image.append(lambda: setattr(
            self.tokenizer, 'X_MINE_NNTP_HEADERS', True))
        d['active'] = 0
        d['timeout'] = env.cfg['timeout']
        proc = env.k.new_proc('P')
        proc.sock_timeout = d['timeout']
        d['proc'] = proc
        for spec in env.plan['actors']:
            common.Actor(env, spec, self.run_op, trace=True, proc=proc)
        env.sigparts.append([[o[1:] for o in a['ops']]
                             for a in env.plan['actors']])

    def quiet(self, env, what):
        d = env.data
        if d['active'] == 0 and d['proc'].sock_timeout != d['timeout']:
            env.violate('timeout', 'after %s the default time-out is %r, '
                        'not %r' % (what, d['proc'].sock_timeout,
                                    d['timeout']))

    def run_op(self, a, op):
        env = a.env
        d = env.data
        opid, kind, x = op
        if kind == 'settimeout':
            if d['active'] == 0:
                d['timeout'] = d['proc'].sock_timeout = x
                env.k.fire('application sets the time-out')
            return
        d['active'] += 1
        fn, arg = {
            'lookup': (self.dns.dns_lookup, x),
            'reverse': (self.dns.reverse_dns_lookup, x),
            'tokenize': (lambda m: list(self.tokenizer.tokenize(m)),
                         corpus.build(env.plan['messages'][x])
                         if kind == 'tokenize' else None)}[kind]
        res = env.k.call(opid, fn, arg)
        d['active'] -= 1
        if d['active']:
            env.k.probes['lookups at the same time'] += 1
        what = '%s %.60r' % (kind, x)
        log = d['net'].log
        mine = [e for e in log if e[3] == opid]
        if res[0] == 'exc':
            interrupted = mine and mine[-1][2].get('e') == 'interrupt'
            if not (interrupted and isinstance(res[1], KeyboardInterrupt)):
                env.violate('raises', '%s: %s' % (what, describe(res)))
            env.k.probes['interrupted'] += 1
        elif kind == 'tokenize':
            self.tokens(env, x, res[1], mine, what)
        else:
            self.result(env, kind, x, res[1], mine, what)
        self.quiet(env, what)

    @staticmethod
    def answers(entries, kind, name):
        """The answers received for a name, in order."""
        out = []
        for k, n, o, _ in entries:
            if k == kind and n == name and 'r' in o:
                out.append(o['r'])
        return out

    def result(self, env, kind, x, got, mine, what):
        try:
            got = list(got)
        except TypeError:
            env.violate('no-collection', '%s returned %r' % (what, got))
        dk = 'dns' if kind == 'lookup' else 'rdns'

        def norm(r):
            return sorted(set(r)) if dk == 'dns' else [r]
        asked = [e for e in mine if e[:2] == (dk, x)]
        if asked:
            want = self.answers(mine, dk, x)
            allowed = [norm(want[-1])] if want else [[]]
        else:
            allowed = [norm(r) for r in self.answers(env.data['net'].log, dk,
                                                     x)]
            if not allowed:
                # (what is not a name at all need not be asked for)
                if x in NAMES + ADDRS:
                    env.violate('not-asked', '%s returned %r without asking '
                                'for it' % (what, got))
                allowed = [[]]
        if sorted(got) not in allowed:
            env.violate('wrong-answer', '%s returned %r, the answers '
                        'received were %r' % (what, got, allowed))
        env.k.probes['answered' if got else 'no answer'] += 1

    def tokens(self, env, i, got, mine, what):
        m = env.plan['messages'][i]
        rest = [t for t in got if not t.startswith(b'nntp-host')]
        if rest != env.data['base'][i]:
            env.violate('other-tokens', '%s: mining changed the tokens that '
                        'have nothing to do with it: %r'
                        % (what, list((collections.Counter(rest) -
                                       collections.Counter(
                                           env.data['base'][i])))[:5]))
        found = collections.Counter(t.decode('utf-8') for t in got
                                    if t.startswith(b'nntp-host'))
        need, may = collections.Counter(), collections.Counter()
        everything = env.data['net'].log
        exact = True
        for h in m['hosts']:
            h = h.strip()
            if h not in NAMES + ADDRS:
                exact = exact and h.isascii()
                if h.isascii():
                    ts = self.own_clues(h)
                    need.update(ts)
                    may.update(ts)
                continue
            ts = self.own_clues(h)
            need.update(ts)
            may.update(ts)
            dk = 'rdns' if h in ADDRS else 'dns'
            own = self.answers(mine, dk, h)
            before = self.answers(everything, dk, h)
            asked = any(e[:2] == (dk, h) for e in mine)
            if not asked and not before:
                env.violate('not-asked', '%s: %r was not looked up'
                            % (what, h))
            need.update(self.dns_clues(h, own[-1:], mine))
            may |= need
            may.update(self.dns_clues(h, before, everything, True) -
                       self.dns_clues(h, own[-1:], mine)
                       if not asked else
                       self.dns_clues(h, own[-1:], everything, True) -
                       self.dns_clues(h, own[-1:], mine))
        if need - found:
            env.violate('missing', '%s (%r): the clues %s are missing; '
                        'answers: %r' % (what, m['hosts'],
                                         sorted(need - found), mine))
        if exact and found - may:
            env.violate('made-up', '%s (%r): the clues %s have no answer '
                        'behind them; answers: %r'
                        % (what, m['hosts'], sorted(found - may), mine))
        env.k.probes['messages with DNS clues' if any(
            'ip:' in t for t in found) else 'messages without'] += 1

    @staticmethod
    def nets(prefix, address):
        address = address.split('%')[0]
        return ['%s:%s' % (prefix, ipaddress.ip_network(
            '%s/%d' % (address, n), strict=False)) for n in (8, 16, 24, 32)]

    def own_clues(self, h):
        """The clues that need no DNS."""
        try:
            ipaddress.ip_address(h)
        except ValueError:
            return ['nntp-host-name:' + h,
                    'nntp-host-domain:' + '.'.join(h.split('.')[-2:])]
        return self.nets('nntp-host', h)

    def dns_clues(self, h, answers, log, generous=False):
        out = collections.Counter()
        if h in ADDRS:
            for name in answers:
                out['nntp-host-ip:has-reverse'] = 1
                out['nntp-host-name:' + name] = 1
                out['nntp-host-domain:' +
                    '.'.join(name.split('.')[-2:])] = 1
            return out
        for ips in answers:
            one = collections.Counter()
            for ip in sorted(set(ips)):
                one.update(self.nets('nntp-host-ip', ip))
                if h in self.answers(log, 'rdns', ip):
                    one['nntp-host-ip:has-reverse'] = 1
            out |= one
        return out

    def check(self, env):
        self.quiet(env, 'everything')


SCENARIO = C14()
