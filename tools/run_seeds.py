"""Run each planted change's check on a patched scratch copy; results go to tools/seed_results.json.

usage: python3 tools/run_seeds.py [id…]
"""
import json, os, pathlib, shutil, subprocess, sys, tempfile, time
HERE = pathlib.Path(__file__).resolve().parent.parent
OUT = HERE / 'tools/seed_results.json'
ids = sys.argv[1:] or sorted(p.parent.name for p in (HERE / 'seeded').glob('*/meta.json'))
for i in ids:
    meta = json.load(open(HERE / 'seeded' / i / 'meta.json'))
    work = pathlib.Path(tempfile.mkdtemp(prefix='seed'))
    try:
        subprocess.run(['cp', '-a', '/repo', str(work / 'repo')], check=True)
        subprocess.run(['git', '-C', str(work / 'repo'), 'apply', str(HERE / 'seeded' / i / 'patch.diff')], check=True)
        t = time.time()
        env = dict(os.environ, SKV_REPO=str(work / 'repo'), SKV_EVIDENCE=str(work / 'ev'), VERIF_SEED='1', VERIF_TIER='quick')
        r = subprocess.run(['python3-vt', '-B', '-m', 'skv.check', meta['property']], cwd=HERE, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        dt = time.time() - t
        v = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
        if r.returncode == 1 and v:
            what = 'failed obligation' if v[0].endswith('no-failing-input-found') else 'failing input'
        else:
            what = 'MISSED (exit %d)' % r.returncode
        res = json.load(open(OUT)) if OUT.exists() else {}
        res[i] = what
        OUT.write_text(json.dumps(res, indent=1, sort_keys=True) + '\n')
        print(i, meta['property'], what, f'{dt:.0f} s', flush=True)
    finally:
        shutil.rmtree(work)
