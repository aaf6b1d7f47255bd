"""Rewrites the generated tables of DESIGN.md (python3-vt tools/design_tables.py)."""
import sys, json, os, re, glob
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from skv import contract as K
from skv.props import PROPS
K.setup_world()


def dim(v):
    if v == '*':
        return 'any ≥ 1'
    if isinstance(v, str) and v.startswith('>='):
        return 'any ≥ ' + v[2:]
    if isinstance(v, str) and v.startswith('='):
        return 'any ≥ ' + v[1:] if False else 'any'
    return str(v)


def dims(scs):
    out = {}
    for s in scs:
        for d in s.dims:
            for k, v in d.items():
                out.setdefault(k, set()).add(dim(v))
    def key(x):
        return (x.startswith('any'), len(x), x)
    if not out:
        return 'no array sizes'
    return '; '.join(f'{k} ∈ {{{", ".join(sorted(v, key=key))}}}' for k, v in sorted(out.items()))


def main():
    props = {}
    for l in open(ROOT + '/properties.jsonl'):
        d = json.loads(l)
        props[d['id']] = d
    own = {}
    for t, ss in K.SCENARIOS.items():
        for s in ss:
            for p in s.props or ():
                own.setdefault(p, set()).add(t)
    rows = []
    for p, d in props.items():
        ev = {}
        try:
            ev = json.load(open(f'{ROOT}/evidence/{p}.json'))
        except OSError:
            pass
        c = ev.get('coverage', {})
        tg = list(PROPS[p]['targets'])
        extra = sorted(own.get(p, ()))
        rows.append(f'\n### {p} {d["title"]}\n')
        if PROPS[p].get('all'):
            rows.append('Own obligations: the frame, history and outcome obligations of **every** contract below (all targets of all properties).  ')
        else:
            rows.append('Functions whose contracts are its obligations:  ')
            for t in tg:
                rows.append(f'- `{t}`: {len(K.SCENARIOS.get(t, ()))} scenarios, {dims(K.SCENARIOS.get(t, ()))}')
            for t in extra:
                if t not in tg:
                    ss = [s for s in K.SCENARIOS[t] if p in (s.props or ())]
                    rows.append(f'- `{t}` (shared): {len(ss)} scenarios, {dims(ss)}')
        ls = K.LEMMAS.get(p, ())
        if ls:
            rows.append('\nLemmas over the contracts (client programs verified against them):')
            seen = {}
            for l in ls:
                seen.setdefault(l.name, []).append(l)
            for n, x in seen.items():
                rows.append(f'- {n} ({dims(x)})')
        if c:
            by = ', '.join(f'{k} {v}' for k, v in c.get('discharged_by', {}).items())
            rows.append(f'\nLast clean run: {c["obligations"]} obligations, {c["discharged"]} discharged ({by}); '
                        f'{len(c.get("callee_contracts", ()))} callee contracts re-verified; {c.get("paths")} paths; {c.get("concrete_runs")} concrete cross-runs; '
                        f'{ev["wall_s"]:.0f} s'
                        + (f'; bounded stand-ins: {len(c["bounded_stand_ins"])} ({", ".join(sorted({re.sub(r" .D=.*", "", str(x.get("scenario", x)) if isinstance(x, dict) else str(x))[:60] for x in c["bounded_stand_ins"]}))})' if c.get('bounded_stand_ins') else '') + '.')
    seeds = ['| planted change | property | what it needs | caught with |', '|---|---|---|---|']
    res = {}
    try:
        res = json.load(open(ROOT + '/tools/seed_results.json'))
    except OSError:
        pass
    for f in sorted(glob.glob(ROOT + '/seeded/*/meta.json')):
        m = json.load(open(f))
        i = os.path.basename(os.path.dirname(f))
        seeds.append(f'| {i} | {m["property"]} | {m["needs"][:150].strip()} | {res.get(i, "")} |')
    text = open(ROOT + '/DESIGN.md').read()
    for name, body in (('PROPERTIES', '\n'.join(rows)), ('SEEDS', '\n'.join(seeds))):
        text = re.sub(rf'(<!-- {name} -->).*?(<!-- /{name} -->)', lambda m: f'{m[1]}\n{body}\n{m[2]}', text, flags=re.S)
    open(ROOT + '/DESIGN.md', 'w').write(text)


main()
