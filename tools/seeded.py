"""Confirms planted bugs: usage tools/seeded.py [--no-check] [ID ...]

For every folder of seeded/: the patch applies to a scratch copy of /repo, the
stable tests pass, demo.sh passes without and fails with it, and the check of
the property reports a violation (run against the scratch copy). --all runs the
checks of all properties and lists those that detect the change."""
import json
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'


def sh(cmd, cwd, **env):
    return subprocess.run(cmd, cwd=cwd, capture_output=True, text=True, env=dict(os.environ, **env))


def stable(copy):
    want = json.load(open('/opt/vp/BASELINE.json'))['stable']
    p = sh([PY, '-m', 'pytest', '-q', '-p', 'no:cacheprovider', 'meshless', '-rA'], copy, PYTHONPATH=copy)
    ok = set()
    for line in p.stdout.splitlines():
        if line.startswith('PASSED '):
            f, t = line[7:].split('::')
            ok.add(f[:-3].replace('/', '.') + '::' + t)
    return [t for t in want if t not in ok]


def main():
    args = sys.argv[1:]
    check = '--no-check' not in args
    every = '--all' in args
    ids = [a for a in args if not a.startswith('--')] or sorted(os.listdir(os.path.join(HERE, 'seeded')))
    props = [json.loads(line)['id'] for line in open(os.path.join(HERE, 'properties.jsonl'))]
    bad = 0
    for i in ids:
        folder = os.path.join(HERE, 'seeded', i)
        meta = json.load(open(os.path.join(folder, 'meta.json')))
        tmp = tempfile.mkdtemp(prefix='seeded-')
        try:
            copy = os.path.join(tmp, 'repo')
            shutil.copytree('/repo', copy, symlinks=True)
            demo = os.path.join(tmp, 'demo')
            shutil.copytree(folder, demo)
            clean = sh(['bash', os.path.join(demo, 'demo.sh')], copy).returncode
            ap = sh(['git', 'apply', os.path.join(folder, 'patch.diff')], copy)
            if ap.returncode:
                print(i, 'PATCH DOES NOT APPLY', ap.stderr)
                bad += 1
                continue
            broken = sh(['bash', os.path.join(demo, 'demo.sh')], copy)
            failing = stable(copy)
            line = [i, meta['property'], 'demo %d/%d' % (clean, broken.returncode), 'tests %s' % (failing or 'ok')]
            valid = clean == 0 and broken.returncode != 0 and not failing
            if check:
                hit = []
                for p in (props if every else [meta['property']]):
                    r = sh([PY, os.path.join(HERE, 'run.py'), p, '--tier', 'quick'], HERE, VERIF_REPO=copy,
                           VERIF_SEED='1')
                    if r.returncode == 1 and 'VIOLATION property=%s' % p in r.stdout:
                        hit.append(p)
                    elif r.returncode not in (0, 1):
                        hit.append(p + '?')
                line.append('caught by %s' % (' '.join(hit) or 'NONE'))
                valid = valid and meta['property'] in hit
            print(*line, '' if valid else '<<<<<<', flush=True)
            bad += not valid
            if not valid and '--v' in args:
                print(broken.stdout, broken.stderr)
        finally:
            shutil.rmtree(tmp)
    return bad


if __name__ == '__main__':
    sys.exit(bool(main()))
