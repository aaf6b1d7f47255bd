"""Behaviour-preserving edits: every check has to stay quiet.

usage: python3 tools/quiet.py BATCH [name…] [--props=C01,C02] [--layer=K] [--notests]   (edits of tools/refactors.py)
"""
import json, os, pathlib, shutil, subprocess, sys, tempfile
sys.path.insert(0, str(pathlib.Path(__file__).parent))
import refactors
HERE = pathlib.Path(__file__).resolve().parent.parent
args = [a for a in sys.argv[1:] if not a.startswith('--')]
props = [a[8:].split(',') for a in sys.argv if a.startswith('--props=')]
LAYER = next((int(a[8:]) for a in sys.argv if a.startswith('--layer=')), 1)
texts = {}
work = pathlib.Path(tempfile.mkdtemp(prefix='quiet'))
tree = work / 'repo'
subprocess.run(['cp', '-a', '/repo', str(tree)], check=True)
try:
    todo = [r for r in refactors.REFACTORS if r[0] == args[0] and (len(args) < 2 or r[1] in args[1:])]
    for layer in range(1, 9):          # edits of the same lines go to different layers
        later = []
        for batch, name, file, edits in todo:
            p = tree / 'src/skspatial' / file
            t = n = (pathlib.Path('/repo/src/skspatial') / file).read_text() if layer != LAYER else p.read_text()
            key = (layer, file)
            n = texts.get(key, t)
            for old, new in edits:
                if n.count(old) != 1:
                    later.append((batch, name, file, edits))
                    if layer == LAYER:
                        print(name, 'left for another layer' if t.count(old) == 1 or layer > 1 else 'does not match exactly once')
                    break
                n = n.replace(old, new)
            else:
                texts[key] = n
                if layer == LAYER:
                    p.write_text(n)
                    print('+', name)
        todo = later
    if '--notests' not in sys.argv:
        r = subprocess.run(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '-x', 'tests/unit'], cwd=tree, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                           env=dict(os.environ, PYTHONPATH=str(tree / 'src'), PYTHONDONTWRITEBYTECODE='1', MPLBACKEND='Agg'))
        print('\n'.join(r.stdout.strip().splitlines()[-3:]), flush=True)
    todo = props[0] if props else [json.loads(x)['id'] for x in open(HERE / 'properties.jsonl')]
    for c in todo:
        r = subprocess.run(['timeout', '900', 'python3-vt', '-m', 'skv.check', c], cwd=HERE, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                           env=dict(os.environ, SKV_REPO=str(tree), SKV_EVIDENCE=str(work / 'ev')))
        out = r.stdout.strip().splitlines()
        head = next((x for x in out if x.startswith(c + ' [')), out[-1] if out else '')
        print(c, 'rc', r.returncode, head[:200], flush=True)
        if r.returncode or 'bounded' in r.stdout or 'unsupported' in r.stdout.lower():
            for x in [x for x in out if not x.startswith(c + ' [')][:6]:
                print('      ', x[:260], flush=True)
finally:
    shutil.rmtree(work)
