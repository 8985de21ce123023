"""Try the planted bugs of seeded/.

    bugs.py [--no-check] [--only-check] [ID...]

For each: does the patch apply to /repo's HEAD, change lines of the original
repository only, import and pass the stable tests; does the demonstration pass
without it and fail with it; does the quick check of its property report it.
Everything happens in scratch copies, which are removed again.
"""
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
PY = '/opt/venv/bin/python'


def sh(cmd, cwd=None, env=None, timeout=900):
    e = dict(os.environ, **(env or {}))
    r = subprocess.run(cmd, cwd=cwd, env=e, timeout=timeout,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       text=True, errors='replace')
    return r.returncode, r.stdout


def origin():
    return sh(['git', 'rev-list', '--max-parents=0', 'HEAD'],
              REPO)[1].split()[-1]


def originals(path, root):
    """line number -> is it a line of the original repository?"""
    out = sh(['git', 'blame', '-s', '-l', '--root', 'HEAD', '--', path],
             REPO)[1]
    return {i: line.lstrip('^').startswith(root)
            for i, line in enumerate(out.splitlines(), 1)}


def judge_lines(patch, root):
    path = None
    own = orig = 0
    for line in open(patch, errors='replace'):
        if line.startswith('--- a/'):
            path = line[6:].strip()
            blame = originals(path, root)
        m = re.match(r'@@ -(\d+)', line)
        if m:
            n = int(m.group(1))
        elif line.startswith('-') and not line.startswith('---'):
            if blame[n]:
                orig += 1
            else:
                own += 1
            n += 1
        elif line.startswith(' '):
            n += 1
    return orig, own


def stable():
    b = json.load(open('/opt/vp/BASELINE.json'))
    for k in ('passed', 'stable', 'tests', 'pass'):
        if k in b:
            return b[k]
    return None


def main(argv):
    check = '--no-check' not in argv
    rest = '--only-check' not in argv
    ids = [a for a in argv if not a.startswith('-')]
    d = os.path.join(HERE, 'seeded')
    ids = ids or sorted(os.listdir(d))
    root = origin()
    scratch = tempfile.mkdtemp(prefix='bugs')
    try:
        for i in ids:
            src = os.path.join(d, i)
            meta = json.load(open(os.path.join(src, 'meta.json')))
            patch = os.path.join(src, 'patch.diff')
            copy = os.path.join(scratch, i)
            clean = os.path.join(scratch, 'clean')
            for c in copy, clean:
                shutil.rmtree(c, ignore_errors=True)
                os.mkdir(c)
                subprocess.check_call(
                    'git -C %s archive HEAD | tar x -C %s' % (REPO, c),
                    shell=True)
            res = []
            rc, out = sh(['git', 'apply', '--unsafe-paths',
                          '--directory=' + copy, patch], '/')
            rc, out = sh(['patch', '-p1', '-s', '-i', patch], copy) \
                if rc else (rc, out)
            res.append('applies' if not rc else 'DOES NOT APPLY ' + out)
            if rest:
                orig, own = judge_lines(patch, root)
                res.append('lines %d%s' % (orig, ' AND %d OWN' % own
                                           if own else ''))
                env = {'PYTHONPATH': copy, 'PYTHONDONTWRITEBYTECODE': '1',
                       'PYTHONHASHSEED': '0'}
                rc, out = sh([PY, '-m', 'pytest', '-q', '-p',
                              'no:cacheprovider', '--ignore='
                              'tests/test_dnsutils.py', '-x', '--maxfail=99',
                              'tests'], copy, env)
                m = re.search(r'(\d+) passed', out)
                res.append('tests %s%s' % (m.group(1) if m else '?',
                                           '' if m and m.group(1) == '65'
                                           else ' NOT 65'))
                laid = os.path.join(scratch, 'laid')
                shutil.rmtree(laid, ignore_errors=True)
                shutil.copytree(src, laid, ignore=shutil.ignore_patterns(
                    '*.diff', '*.patch', 'meta.json'))
                e = {'PYTHONDONTWRITEBYTECODE': '1'}
                demo = ['bash', os.path.join(laid, 'demo.sh')]
                r0, o0 = sh(demo, clean, e, 300)
                r1, o1 = sh(demo, copy, e, 300)
                res.append('demo %d/%d%s' % (r0, r1, '' if r0 == 0 and r1
                                             else ' WRONG\n%s\n---\n%s'
                                             % (o0[-1500:], o1[-500:])))
            if check:
                rc, out = sh([PY, os.path.join(HERE, 'check.py'),
                              meta['property'], '--tier', 'quick'], HERE,
                             {'SIM_REPO': copy, 'VERIF_SEED': '1'})
                v = [l for l in out.splitlines() if 'VIOLATION' in l]
                res.append(('caught' if rc == 1 and v else
                            'MISSED' if rc == 0 else 'BROKE %d' % rc))
            print('%-6s %-5s %s' % (i, meta['property'], '; '.join(res)),
                  flush=True)
            shutil.rmtree(copy)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


main(sys.argv[1:])
