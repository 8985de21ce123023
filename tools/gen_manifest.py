"""Write MANIFEST.json: a check for every scenario there is."""
import glob
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'

NOTES = {
    'C01': 'assumes rename is atomic and fsync durable',
    'C02': 'faults are those of single calls; the lock file protocol is the real lockfile package on the simulated file system',
    'C03': 'linearizability against a single register, histories of at most a few dozen operations',
    'C04': 'oracle: a counting model; dbm modules are simulated by behaviour class',
    'C05': 'assumes the dbm module itself keeps a prefix of the unsynced updates',
    'C06': 'single and repeated failures of database calls',
    'C07': 'token streams failing after any number of tokens',
    'C08': 'oracle: a fresh classifier of the same code, trained with the net messages only',
    'C09': 'oracle: dictionary model of the directory',
    'C10': 'process crashes and disk errors; power loss only for what the directory keeps',
    'C11': 'simulated clock; one second resolution of nothing is assumed',
    'C12': 'oracle: fresh classifier trained with the present content of the corpora',
    'C13': 'crash, power loss and disk errors at file-system calls',
    'C14': 'socket.getaddrinfo/gethostbyaddr are simulated; threads may switch at any source line',
    'C15': 'DNS, HTTP transport, file system and clock are simulated; requests and urllib3 above the transport are real',
    'C16': 'file-system calls are atomic; processes switch between them',
    'C18': 'threads may switch at any source line, not within one; oracle: the same calls in one thread and a fresh classifier',
    'C17': 'one trainer; oracle: fresh classifiers trained with the arrived messages; file-system calls are atomic',
}
NA = {
    'N01': 'spamprob() is a pure function of the training and the tokens: there is no schedule, clock, I/O, fault or crash for the property to depend on (what histories and faults do to scores is C04-C08)',
    'N02': 'tokenizing a message without DNS is a pure function of its text; no nondeterminism to simulate (the part that meets the network is C14/C15)',
    'N03': 'adding and removing headers is a pure in-memory transformation of one message; nothing to schedule, crash or fail (that a filed message can be read back and trained without those headers, across processes, is C17)',
    'N04': 'a pure function of an address string; nothing to schedule, crash or fail',
}


def main():
    ids = [json.loads(l)['id']
           for l in open(os.path.join(HERE, 'properties.jsonl'))]
    checks, na = [], []
    for p in ids:
        if os.path.exists(os.path.join(HERE, 'scenarios', p.lower() + '.py')):
            checks.append({
                'property': p,
                'quick_cmd': '%s check.py %s --tier quick' % (PY, p),
                'thorough_cmd': '%s check.py %s --tier thorough' % (PY, p),
                'evidence_file': 'evidence/%s.json' % p,
                'technique': 'deterministic simulation with fault injection '
                             '(seeded search over plans)',
                'level': 'exploration',
                'level_note': 'Seeded search, not exhaustive: quick runs '
                              'thousands of simulated executions of the real '
                              'code, each repeatable from its plan; '
                              + NOTES[p] + '.'})
        else:
            na.append({'property': p, 'reason': NA.get(
                p, 'no check built yet')})
    m = {'version': 1,
         'setup_cmd': PY + ' tools/setup_check.py',
         'checks': checks,
         'not_applicable': na,
         'notes': 'No hooks in /repo: the seams are os, open, time, socket, '
                  'dbm and requests adapters, replaced inside the check '
                  'process. A violation prints its replay file; replay.py '
                  'FILE executes it again.'}
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')


main()
