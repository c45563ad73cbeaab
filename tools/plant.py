"""Development tool: turn a bug description into /verif/seeded/<id> after confirming it, and try the checks on it.

usage: plant.py SPEC.py [id ...] [--checks C01,C02 | --all]   (works in /repo, undone afterwards)
A spec file defines BUGS = [{'id', 'property', 'file', 'edits': [(old, new)], 'needs', 'breaks', 'demo'}].
"""
import json
import os
import subprocess
import sys

BASE = '00ac19f'
REPO = '/repo'
SEEDED = '/verif/seeded'


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)


def clean():
    sh('git -C /repo checkout -- .')
    assert not sh('git -C /repo status --short').stdout.strip()


def original_only(path, edits):
    """All replaced lines come from the original repository."""
    text = open(os.path.join(REPO, path)).read()
    blame = sh('git -C /repo blame -s --abbrev=12 %s' % path).stdout.splitlines()
    old = set(sh('git -C /repo rev-list --abbrev-commit --abbrev=12 %s' % BASE).stdout.split())
    for o, n in edits:
        assert text.count(o) == 1, (path, text.count(o), o)
        first = text[:text.index(o)].count('\n')
        keep = n.splitlines()
        for k, line in enumerate(o.splitlines()):
            if line in keep:
                continue
            c = blame[first + k].split()[0].lstrip('^')
            if not any(x.startswith(c[:11]) for x in old):
                return 'line not original: ' + line
    return None


def main():
    args = sys.argv[1:]
    checks = None
    if '--checks' in args:
        i = args.index('--checks')
        checks = args[i + 1].split(',')
        del args[i:i + 2]
    ns = {}
    exec(open(args[0]).read(), ns)
    for b in ns['BUGS']:
        if args[1:] and b['id'] not in args[1:]:
            continue
        clean()
        d = os.path.join(SEEDED, b['id'])
        os.makedirs(d, exist_ok=True)
        files = b['file'] if isinstance(b['file'], dict) else {b['file']: b['edits']}
        bad = [r for p, e in files.items() for r in [original_only(p, e)] if r]
        if bad:
            print(b['id'], 'REJECTED', bad)
            sh('rm -rf %s' % d)
            continue
        with open(os.path.join(d, 'demo.py'), 'w') as f:
            f.write(b['demo'].lstrip('\n'))
        with open(os.path.join(d, 'demo.sh'), 'w') as f:
            f.write('#!/bin/bash\nexport PYTHONPATH="$PWD/src" PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg\n'
                    'exec timeout 200 /opt/venv/bin/python -B "$(dirname "$0")/demo.py"\n')
        with open(os.path.join(d, 'meta.json'), 'w') as f:
            json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, f, indent=1)
            f.write('\n')
        before = sh('bash %s/demo.sh' % d, cwd=REPO)
        try:
            for p, e in files.items():
                full = os.path.join(REPO, p)
                t = open(full, newline='').read()
                crlf = '\r\n' in t
                for o, n in e:
                    t = t.replace(o.replace('\n', '\r\n') if crlf else o, n.replace('\n', '\r\n') if crlf else n)
                open(full, 'w', newline='').write(t)
            with open(os.path.join(d, 'patch.diff'), 'wb') as f:
                f.write(subprocess.run(['git', '-C', '/repo', 'diff'], capture_output=True).stdout)
            build = sh('bash /opt/vp/build.sh')
            after = sh('bash %s/demo.sh' % d, cwd=REPO)
            test = sh('bash /opt/vp/test.sh /tmp/pl/out.json')
            tests = test.stdout.strip().splitlines()[-1:] if test.stdout else ''
            base = json.load(open('/opt/vp/BASELINE.json'))
            caught = {}
            for c in checks or [b['property']]:
                r = sh('VERIF_SEED=1 VERIF_NO_EVIDENCE=1 /opt/venv/bin/python -B check.py %s --tier quick' % c, cwd='/verif')
                lines = [x for x in r.stdout.splitlines() if 'VIOLATION' not in x and '/' in x]
                caught[c] = (r.returncode, 'VIOLATION' in r.stdout, (lines or [''])[0][:200], r.stderr[-300:] if r.returncode not in (0, 1) else '')
        finally:
            clean()
        applies = sh('git -C /repo apply --check %s/patch.diff' % d).returncode == 0
        ok = applies and before.returncode == 0 and after.returncode != 0 and build.returncode == 0 and '0 failed' in test.stdout
        print(b['id'], 'VALID' if ok else 'INVALID build %d demo %d/%d' % (build.returncode, before.returncode, after.returncode), tests)
        if not ok:
            print('   ', (before.stdout + before.stderr)[-300:], '|', (after.stdout + after.stderr)[-300:])
            print('   ', [l for l in test.stdout.splitlines() if l.startswith('FAILED')])
            sh('rm -rf %s' % d)
        for c, v in caught.items():
            print('    %s %s %s' % (c, 'CAUGHT' if v[0] == 1 and v[1] else 'MISSED', v))
        sys.stdout.flush()


main()
