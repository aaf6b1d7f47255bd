"""Confirm planted changes and store them as /verif/seeded/<id>/.

usage: python3 tools/plant.py FILE.py [id…]     (FILE.py defines SEEDS = [dict(id, property, needs, breaks, edits, demo)])
       edits = [(file below src/skspatial, old, new)], demo = Python text
Each change is applied to a scratch copy of /repo, where the complete test suite is run and the demonstration is run with and
without it; the checks are run against the copy through SKV_REPO with option --checks.
"""
import json, os, pathlib, runpy, shutil, subprocess, sys, tempfile
HERE = pathlib.Path(__file__).resolve().parent.parent
REPO = pathlib.Path('/repo')
PY = '/opt/venv/bin/python'
STABLE = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
DEMO_SH = '''#!/bin/bash
# cwd: /repo
export PYTHONPATH="$PWD/src" PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg
exec /opt/venv/bin/python "$(dirname "$0")/demo.py"
'''


def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, shell=isinstance(cmd, str), **kw)


def tests(tree):
    with tempfile.TemporaryDirectory() as w:
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONPYCACHEPREFIX=w + '/pyc', PYTHONHASHSEED='0', MPLBACKEND='Agg', MPLCONFIGDIR=w + '/mpl')
        sh([PY, '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '--timeout=300', '--doctest-modules', '--doctest-glob=README.md',
            '-o', 'junit_family=xunit2', '--junitxml=' + w + '/j.xml', 'tests', 'src', 'README.md'], tree, env=env)
        sh(['python3', '/opt/vp/results.py', w + '/out.json', 'junit:' + w + '/j.xml'], tree)
        res = json.load(open(w + '/out.json'))
    passed = set(res.get('passed') or [k for k, v in res.items() if v == 'passed'])
    return sorted(STABLE - passed)


def main():
    args = [a for a in sys.argv[1:] if not a.startswith('--')]
    seeds = runpy.run_path(args[0])['SEEDS']
    for s in seeds:
        if len(args) > 1 and s['id'] not in args[1:]:
            continue
        work = pathlib.Path(tempfile.mkdtemp(prefix='plant'))
        tree = work / 'repo'
        try:
            sh(['cp', '-a', str(REPO), str(tree)], '/')
            ok = True
            for f, old, new in s['edits']:
                p = tree / 'src/skspatial' / f
                t = p.read_text()
                if t.count(old) != 1:
                    print(s['id'], 'edit does not match exactly once:', t.count(old), repr(old)); ok = False; break
                p.write_text(t.replace(old, new))
            if not ok:
                continue
            diff = subprocess.run(['git', 'diff', '--no-color'], cwd=tree, stdout=subprocess.PIPE, text=True).stdout
            out = work / 'seed'; out.mkdir()
            (out / 'patch.diff').write_text(diff)
            (out / 'demo.py').write_text(s['demo'].lstrip('\n'))
            (out / 'demo.sh').write_text(DEMO_SH)
            (out / 'demo.sh').chmod(0o755)
            (out / 'meta.json').write_text(json.dumps({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, indent=1) + '\n')
            clean = sh(['bash', str(out / 'demo.sh')], REPO)
            bad = sh(['bash', str(out / 'demo.sh')], tree)
            if clean.returncode or not bad.returncode:
                print(s['id'], 'DEMO clean=%d patched=%d' % (clean.returncode, bad.returncode), clean.stdout[-400:], bad.stdout[-300:]); continue
            missing = tests(tree)
            if missing:
                print(s['id'], 'TESTS CATCH IT:', missing[:3], len(missing)); continue
            dest = HERE / 'seeded' / s['id']
            if dest.exists():
                shutil.rmtree(dest)
            shutil.copytree(out, dest)
            print(s['id'], 'kept', '' if '--checks' in sys.argv else '(checks not run)', flush=True)
            if '--checks' in sys.argv:
                r = sh(['python3-vt', '-m', 'skv.check', s['property']], HERE, env=dict(os.environ, SKV_REPO=str(tree), SKV_EVIDENCE=str(work / 'ev')))
                print('   ', s['property'], 'rc', r.returncode, r.stdout.strip().splitlines()[-1:] , flush=True)
        finally:
            shutil.rmtree(work)


main()
