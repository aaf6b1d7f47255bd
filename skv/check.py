"""The check of one property: discharge its contract obligations, search for inputs when one fails."""
import argparse
import json
import os
import random
import sys
import time
from . import term as tm
from . import prove as PR
from . import contract as K
from . import concrete as CC
from . import jobs, loader
from .props import PROPS, TRUSTED, ASSUMPTIONS, LEVELS

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
VARIANTS = [('f', 'nd'), ('i', 'list')]
MIXED = [('m', 'nd'), ('w', 'nd')]        # arrays of integers and of fractions by turns
CE_SAMPLES = 240


# ----------------------------------------------------------------------------------
# Units of symbolic work
# ----------------------------------------------------------------------------------
class Unit:
    def __init__(self, scn, dims, inline=frozenset(), history=False):
        self.scn, self.dims, self.inline, self.history = scn, dims, inline, history


FALLBACK_S = 40


def small_dims(spec):
    """Concrete instances of a symbolic dimension specification (the bounded fallback)."""
    out = [{}]
    for name, v in spec.items():
        if isinstance(v, int):
            vals = [v]
        elif v.startswith('='):
            vals = [int(v[1:])]
        else:
            low = int(v[2:]) if v.startswith('>=') else 1
            vals = [low, low + 1, low + 2] if low < 3 else [low, low + 1]
            if name[0] in 'NM':
                vals = [low, low + 1] if low > 1 else [1, 2, 3]
        out = [dict(o, **{name: x}) for o in out for x in vals]
    return out


def symbolic(spec):
    return any(not isinstance(v, int) for v in spec.values())


def rep_dict(r):
    return dict(label=r.label(), target=r.scn.target, index=r.scn.index, name=r.scn.name, dims=r.dims, variant=r.variant,
                choice=r.choice, paths=r.paths, value_paths=r.value_paths, raise_paths=r.raise_paths, skipped=r.skipped,
                obs=r.obs, discharged=r.discharged, by=r.by, failed=r.failed[:6], unsupported=r.unsupported,
                state=r.state_changed, used=sorted(r.used), time=r.time, bounded=None,
                z3=PR.STATS['z3_time'], z3n=PR.STATS['z3_calls'])


def run_unit(u):
    """All variants and choices of a scenario at one dimension specification."""
    out = []
    s = u.scn
    K.CTX.inline = u.inline
    K.CTX.history = u.history
    variants = s.variants or (VARIANTS if s.target is not None else [('f', 'nd')])
    if variants is VARIANTS and sum(v.type in 'vm' and 'f' not in v.flags for v in s.vars) > 1:
        variants = VARIANTS + MIXED
    for v in variants:
        for ch in s.choice_list():
            PR.STATS['z3_time'], PR.STATS['z3_calls'] = 0.0, 0
            r = K.run_symbolic(s, u.dims, v, ch)
            d = rep_dict(r)
            if r.unsupported and symbolic(u.dims) and not r.failed:
                subs, tried, unknown = [], [], []
                limit = time.time() + FALLBACK_S
                full, PR.RLIMIT = PR.RLIMIT, PR.RLIMIT // 4
                for dd in small_dims(u.dims):
                    if time.time() > limit:
                        break
                    r2 = K.run_symbolic(s, dd, v, ch)
                    # an instance the solver gives up on is not decided (the concrete runs stand in)
                    unknown += [f for f in r2.failed if f['why'].startswith('z3-unknown')]
                    r2.failed = [f for f in r2.failed if not f['why'].startswith('z3-unknown')]
                    subs.append(rep_dict(r2))
                    tried.append(dd)
                    if r2.unsupported:
                        break
                PR.RLIMIT = full
                d2 = dict(d)
                for k in ('paths', 'value_paths', 'raise_paths', 'skipped', 'obs', 'discharged', 'time'):
                    d2[k] = sum(x[k] for x in subs)
                d2['by'] = {}
                for x in subs:
                    for k, n in x['by'].items():
                        d2['by'][k] = d2['by'].get(k, 0) + n
                d2['failed'] = [f for x in subs for f in x['failed']][:6]
                d2['state'] = any(x['state'] for x in subs)
                d2['used'] = sorted(set(z for x in subs for z in x['used']))
                d2['z3'] = d['z3'] + sum(x['z3'] for x in subs)
                bad = [x['unsupported'] for x in subs if x['unsupported']]
                d2['unsupported'] = bad[0] if bad else f"not decided at small dimensions: {unknown[0]['name']}"[:200] if unknown else None
                d2['bounded'] = f"symbolic dimensions out of reach ({r.unsupported}); dimensions {tried}"
                d = d2
            out.append(d)
    return out


# ----------------------------------------------------------------------------------
# Concrete work
# ----------------------------------------------------------------------------------
def judge_batch(arg):
    """arg: list of (scn, sample, real result)."""
    out = []
    for scn, s, r in arg:
        try:
            out.append(CC.judge(scn, s, r))
        except BaseException as e:
            out.append(('undecided', f'judge: {type(e).__name__}: {e}'))
    return out


def with_updates(pairs):
    """The jobs; each with a second set of operand values of the same shapes where another sample has one."""
    js = [CC.job_of(s, x) for s, x in pairs]
    last = {}
    for (s, x), j in zip(pairs, js):
        k = (id(s), repr(x['dims']), repr(x['choice']), x['form'])
        if k in last:
            j['alt'] = last[k]['vars']
        last[k] = j
    return js


def concrete_pass(pairs, deadline):
    """pairs: (scn, sample).  Runs the real library on all of them, then judges in parallel."""
    if not pairs:
        return []
    results = []
    try:
        js = with_updates(pairs)
        results = CC.run_real(js)
    except ImportError as e:
        return [(s, x, ('violation', dict(what=f'the package cannot be imported: {e}', kind='import'))) for s, x in pairs[:1]]
    n = max(1, min(12, len(pairs) // 8), len(pairs) // 30)
    todo = [(s, x, r) for (s, x), r in zip(pairs, results)]
    for (s, x), j, r in zip(pairs, js, results):
        if r.get('stale'):
            x['job'] = j
    # interleave so that batches have similar cost
    batches = [todo[i::n] for i in range(n)]
    outs = jobs.run(batches, judge_batch, timeout=200, deadline=deadline)
    res = []
    for b, o in zip(batches, outs):
        if isinstance(o, jobs.Died):
            o = [('undecided', repr(o))] * len(b)
        res += [(s, x, v) for (s, x, _), v in zip(b, o)]
    return res


def model_samples(scn, choice, rng, models):
    """Samples from the verifier's counter-models (concrete dimensions)."""
    out = []
    for dims, model in models:
        for fill in (0, 1):
            vals = {}
            for v in scn.vars:
                if v.type in 'vm':
                    shape = v.shape(dims)

                    def get(idx):
                        for nm in (v.name, '?' + v.name):
                            if (nm, idx) in model:
                                return model[(nm, idx)]
                        return fill if fill == 0 else rng.randint(-3, 3)
                    if len(shape) == 1:
                        x = [get((i,)) for i in range(shape[0])]
                    else:
                        x = [[get((i, j)) for j in range(shape[1])] for i in range(shape[0])]
                    vals[v.name] = CC.unify(x)
                elif v.name in model:
                    x = model[v.name]
                    vals[v.name] = int(x) if v.type == 'i' and x == int(x) else x
                else:
                    vals[v.name] = CC.scalar_value(rng, 'int3', v.flags) if v.type != 'i' else 2
            out.append(dict(dims=dict(dims), vals=vals, style='model', choice=choice, form='nd'))
    return out


def gather_models(u):
    """Unit at concrete dimensions: the counter-models of its failed obligations."""
    out = []
    K.CTX.inline = u.inline
    K.CTX.history = False
    for ch in u.scn.choice_list():
        for v in VARIANTS[:1]:
            r = K.run_symbolic(u.scn, u.dims, v, ch)
            for f in r.failed[:8]:
                if f['model']:
                    out.append((ch, u.dims, f['model']))
    return out


# ----------------------------------------------------------------------------------
# The check
# ----------------------------------------------------------------------------------
class Check:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.deadline = self.t0 + (700 if tier == 'quick' else 3300)
        self.thorough = tier == 'thorough'
        self.reports = {}        # (target, index) -> reports
        self.log = []
        self.world_error = None

    # ------------------------------------------------------------ scenarios
    def own(self):
        out = []
        info = PROPS[self.prop]
        if info.get('all'):
            for t, ss in K.SCENARIOS.items():
                out += [s for s in ss if s.sym or True]
            return out
        for t in info['targets']:
            if t not in K.SCENARIOS:
                raise SystemExit(f'no scenario for {t}')
            out += K.SCENARIOS[t]
        for t, ss in K.SCENARIOS.items():
            out += [s for s in ss if self.prop in s.props and s not in out]
        return out

    def lemmas(self):
        return K.LEMMAS.get(self.prop, [])

    def run_symbolic(self, scns, inline=frozenset(), history=False):
        units = []
        for s in scns:
            if not s.sym:
                continue
            dims = s.dims
            units += [Unit(s, d, inline, history) for d in uniq(dims)]
        # heaviest first
        res = jobs.run(units, run_unit, timeout=200 if not self.thorough else 600, deadline=self.deadline)
        out = []
        for u, r in zip(units, res):
            if isinstance(r, jobs.Died):
                out.append(dict(label=f"{u.scn.target or 'lemma'}: {u.scn.name} {u.dims}", target=u.scn.target, index=u.scn.index,
                                name=u.scn.name, dims=u.dims, variant=None, choice={}, paths=0, value_paths=0,
                                raise_paths=0, skipped=0, obs=0, discharged=0, by={}, failed=[], unsupported=r.why[:300],
                                state=False, used=[], time=0, bounded=None, z3=0, z3n=0, scn=u.scn))
            else:
                for d in r:
                    d['scn'] = u.scn
                    out.append(d)
        return out

    # ------------------------------------------------------------ main
    def run(self):
        try:
            K.setup_world()
        except BaseException as e:
            self.world_error = f'{type(e).__name__}: {e}'
            loader.SRC = os.path.join(ROOT, 'skv', 'base_src')
            K.setup_world()
        history = bool(PROPS[self.prop].get('history'))
        own, lem = self.own(), self.lemmas()
        self.closure = []
        self.own_reps, self.lem_reps, self.clo_reps = [], [], []
        if self.world_error is None:
            reps = self.run_symbolic(own + lem, history=history)
            self.own_reps = [r for r in reps if r['target'] is not None]
            self.lem_reps = [r for r in reps if r['target'] is None]
            done = {s.target for s in own}
            frontier = set(z for r in reps for z in r['used']) - done
            while frontier:
                done |= frontier
                scns = [s for t in sorted(frontier) for s in K.SCENARIOS.get(t, [])]
                self.closure += sorted(frontier)
                rr = self.run_symbolic(scns, history=history) if not history else []
                self.clo_reps += rr
                frontier = set(z for r in rr for z in r['used']) - done
        return self.decide(own, lem, history)

    def decide(self, own, lem, history):
        prop = self.prop
        self.inlined = []
        own_reps = self.own_reps + self.lem_reps
        # contracts of callees that no longer hold: judge this property with those callees inlined
        bad_callees = sorted({r['target'] for r in self.clo_reps if r['failed'] or r['state']})
        weak_callees = sorted({r['target'] for r in self.clo_reps if r['unsupported'] and r['target'] not in bad_callees})
        if bad_callees:
            self.inlined = bad_callees
            reps = self.run_symbolic([s for s in own + lem], inline=frozenset(bad_callees))
            self.own_reps = [r for r in reps if r['target'] is not None]
            self.lem_reps = [r for r in reps if r['target'] is None]
            own_reps = reps
        failing = [r for r in own_reps if r['failed']]
        unsup = [r for r in own_reps if r['unsupported'] or r['bounded'] or r['state'] or self.world_error]
        # bounded stand-in / dynamic cross-check on the real library
        count = 10 if not self.thorough else 60
        if prop_all(prop):
            count = 3 if not self.thorough else 12
        seeds = [self.seed]
        pairs = []
        fail_scns = uniq_scn([r['scn'] for r in failing if r['target'] is not None])
        weak_scns = uniq_scn([r['scn'] for r in unsup if r['target'] is not None])
        weak_clo = uniq_scn([r['scn'] for r in self.clo_reps if (r['unsupported'] or r['bounded']) and not r['failed']])
        for s in own:
            n = count
            if s in fail_scns:
                n = CE_SAMPLES
            elif s in weak_scns or self.world_error or (not s.sym and not history):
                n = 8 * count
            elif bad_callees:
                n = 4 * count
            if s.nsamples:
                n = max(n, s.nsamples)
            for sd in seeds:
                pairs += [(s, x) for x in CC.make_samples(s, n, sd)]
        for s in weak_clo:
            pairs += [(s, x) for x in CC.make_samples(s, 4 * count, self.seed)]
        # the verifier's counter-models
        models = []
        if failing and fail_scns:
            units = [Unit(s, d, frozenset(self.inlined)) for s in fail_scns[:12] for dd in uniq(s.dims) for d in small_dims(dd)[:4]]
            rng = random.Random(self.seed)
            for u, r in zip(units[:60], jobs.run(units[:60], gather_models, timeout=60, deadline=self.deadline)):
                if not isinstance(r, jobs.Died):
                    for ch, d, m in r:
                        models += [(u.scn, x) for x in model_samples(u.scn, ch, rng, [(d, m)])]
        for _, x in models:
            x['strict'] = True
        self.conc = concrete_pass(models + pairs, self.deadline)
        hard_scns = fail_scns if failing else weak_scns
        if hard_scns and not any(v[0] == 'violation' for _, _, v in self.conc):
            # look longer, and for deviations below the tolerance of an ordinary comparison
            per = max(200, 6000 // len(hard_scns))
            more = [(s, x) for s in hard_scns for x in CC.make_samples(s, per, f'{self.seed}/hard', CC.HARD, strict=True)]
            self.conc += concrete_pass(more, min(self.deadline, time.time() + 200))
        viol = [(s, x, v[1]) for s, x, v in self.conc if v[0] == 'violation' and (not history or v[1].get('kind') in ('frame', 'history', 'import'))]
        status = {}
        for s, x, v in self.conc:
            status[v[0]] = status.get(v[0], 0) + 1
        self.status = status
        lines = []
        rc = 0
        obs = sum(r['obs'] for r in own_reps + self.clo_reps)
        if viol:
            path = self.replay(viol, failing)
            lines.append(f'VIOLATION property={prop} replay={path}')
            rc = 1
        elif failing:
            path = self.replay_failed(failing)
            lines.append(f'VIOLATION property={prop} replay={path} no-failing-input-found')
            rc = 1
        elif obs == 0 and not unsup and not weak_callees:
            print(f'{prop}: no obligation was generated', file=sys.stderr)
            rc = 3
        vac = self.vacuous(own) if rc == 0 and not unsup else []
        if vac:
            print(f'{prop}: vacuous: {vac[:3]}', file=sys.stderr)
            rc = 3
        known, kviol = self.known()
        lines = known + lines
        self.evidence(failing, unsup, weak_callees, viol, rc)
        self.summary(own_reps, failing, unsup, viol)
        for ln in lines:
            print(ln)
        return rc

    def vacuous(self, own):
        """Scenarios none of whose variants reaches a comparison."""
        n = {}
        for r in self.own_reps + self.lem_reps:
            k = (r['target'], r['index'], r['name'])
            n[k] = n.get(k, 0) + r['paths']
        return [f'{k[0]}: {k[2]}' for k, v in n.items() if v == 0]

    # ------------------------------------------------------------ known findings
    def known(self):
        path = os.path.join(ROOT, 'known_findings.json')
        lines = []
        for k in json.load(open(path)) if os.path.exists(path) else []:
            if k['property'] != self.prop or k['status'] != 'known':
                continue
            job = dict(vars={}, setup=k.get('setup', ''), call=k['call'], choice={}, dims={}, axes=False)
            try:
                r = CC.run_real([job])[0]
            except Exception as e:
                r = {'error': str(e)}
            o = r.get('out')
            if o and o[0] == 'raise' and o[1] == k['fails_with']:
                lines.append(f"KNOWN-FINDING: property={self.prop} {k['what']}")
        return lines, []

    # ------------------------------------------------------------ output
    def replay(self, viol, failing):
        d = os.path.join(os.environ.get('SKV_EVIDENCE') or ROOT, 'replay')
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, f'{self.prop}.py')
        rank = dict(value=0, frame=0, history=0, relation=1, boundary=2)
        viol = sorted(viol, key=lambda z: (rank.get(z[2].get('kind'), 3), z[1].get('style') == 'float', len(str(z[1]['vals']))))
        with open(p, 'w') as f:
            f.write(f'# Violation of {self.prop}.  Replay: {CC.PY} {p}\n')
            f.write('import sys, math\nsys.path.insert(0, "/repo/src")\nimport numpy as np\nfrom skspatial.objects import *\n'
                    'from skspatial import measurement, transformation\n\n')
            for i, (s, x, v) in enumerate(viol[:5]):
                f.write(f'# {i + 1}. contract of {s.target}: {v["what"]}\n')
                for k in ('got', 'specified', 'detail', 'before', 'after', 'first', 'second'):
                    if k in v:
                        f.write(f'#    {k}: {v[k]}\n')
                if self.inlined:
                    f.write(f'#    callees whose contracts fail: {", ".join(self.inlined)}\n')
                if 'job' in x:
                    f.write('# the call, its operands updated in place to "alt", and the call again, compared with fresh operands\n'
                            'import json, subprocess\n'
                            f'job = {x["job"]!r}\n'
                            f'out = subprocess.run([sys.executable, "{ROOT}/skv/executor.py"], input=json.dumps([job]), capture_output=True, text=True)\n'
                            'print("after the update, and fresh:", json.loads(out.stdout)[0].get("stale"))\n\n')
                    continue
                body = CC.describe(s, x)
                f.write('try:\n' + ''.join(f'    {ln}\n' for ln in body.split('\n')) + '    print(result)\n'
                        'except Exception as e:\n    print(type(e).__name__, e)\n\n')
            for r in failing[:8]:
                for o in r['failed'][:2]:
                    f.write(f"# failed obligation: {r['label']}: {o['name']} ({o['why'][:150]})\n")
        return p

    def replay_failed(self, failing):
        d = os.path.join(os.environ.get('SKV_EVIDENCE') or ROOT, 'replay')
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, f'{self.prop}.txt')
        with open(p, 'w') as f:
            f.write(f'Obligations of {self.prop} that the verifier no longer discharges (no failing input was found):\n\n')
            if self.inlined:
                f.write(f'callees whose contracts fail: {", ".join(self.inlined)}\n\n')
            for r in failing:
                f.write(f"{r['label']}\n")
                for o in r['failed']:
                    f.write(f"  {o['name']}\n    verifier: {o['why']}\n    outcome: {o['note']}\n    model: {o['model']}\n")
                    for x in o['path'][:20]:
                        f.write(f'    path: {x}\n')
                f.write('\n')
        return p

    def evidence(self, failing, unsup, weak_callees, viol, rc):
        reps = self.own_reps + self.lem_reps + self.clo_reps
        by = {}
        for r in reps:
            for k, n in r['by'].items():
                by[k] = by.get(k, 0) + n
        bounded = sorted({f"{r['label']}: {r['unsupported']}" for r in reps if r['unsupported']}
                         | {f"{r['label']}: {r['bounded']}" for r in reps if r['bounded']}
                         | {f"{r['label']}: hidden state" for r in reps if r['state']})
        if self.world_error:
            bounded.append('whole package: ' + self.world_error)
        funcs = sorted({r['target'] for r in reps if r['target']})
        nosym = sorted({f'{s.target}: {s.name}' for s in self.own() if not s.sym})
        samples = []
        for s, x, v in self.conc[:400]:
            if v[0] == 'ok' and len(samples) < 3 and x.get('style') != 'sparse':
                samples.append(CC.describe(s, x))
        samples += [r['label'] for r in self.own_reps[:3]]
        cov = dict(
            obligations=sum(r['obs'] for r in reps), discharged=sum(r['discharged'] for r in reps),
            checker_cmd=f'python3-vt -m skv.check {self.prop} --tier {self.tier}',
            trusted_base=TRUSTED,
            functions_under_contract=funcs,
            own_obligations=sum(r['obs'] for r in self.own_reps + self.lem_reps),
            callee_obligations=sum(r['obs'] for r in self.clo_reps),
            lemma_obligations=sum(r['obs'] for r in self.lem_reps),
            lemmas=sorted({r['name'] for r in self.lem_reps}),
            paths=sum(r['paths'] for r in reps), discharged_by=by,
            solver_s=round(sum(r['z3'] for r in reps), 2), prover_s=round(sum(r['time'] for r in reps), 2),
            callee_contracts=sorted(set(self.closure)),
            callees_inlined=self.inlined,
            bounded_stand_ins=bounded + [f'concrete only: {x}' for x in nosym],
            concrete_runs=len(self.conc), concrete_status=self.status, samples=samples,
            failed_obligations=[f"{r['label']}: {o['name']}" for r in failing for o in r['failed']][:40],
        )
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level=LEVELS.get(self.prop, 'proof'), coverage=cov,
                  assumptions=ASSUMPTIONS + PROPS[self.prop].get('assumptions', []), wall_s=round(time.time() - self.t0, 2),
                  violations=len(viol) or (1 if rc == 1 else 0))
        d = os.environ.get('SKV_EVIDENCE') or os.path.join(ROOT, 'evidence')
        os.makedirs(d, exist_ok=True)
        tmp = os.path.join(d, f'.{self.prop}.{os.getpid()}')
        with open(tmp, 'w') as f:
            json.dump(ev, f, indent=1, default=str)
        os.replace(tmp, os.path.join(d, f'{self.prop}.json'))

    def summary(self, own_reps, failing, unsup, viol):
        reps = own_reps + self.clo_reps
        print(f"{self.prop} [{self.tier}] obligations {sum(r['obs'] for r in reps)} discharged {sum(r['discharged'] for r in reps)} "
              f"own {sum(r['obs'] for r in own_reps)} callee contracts {len(set(self.closure))} concrete {len(self.conc)} {self.status} "
              f"wall {time.time() - self.t0:.1f}s")
        if self.world_error:
            print('  world:', self.world_error)
        for r in unsup[:6]:
            print('  bounded:', r['label'][:140], '|', (r['unsupported'] or r['bounded'] or ('hidden state' if r['state'] else ''))[:120])
        if self.inlined:
            print('  callee contracts that fail:', ', '.join(self.inlined))
        for r in failing[:6]:
            for o in r['failed'][:2]:
                print('  failed:', r['label'][:140], '|', o['name'][:120], '|', o['why'][:100])
        for s, x, v in viol[:3]:
            print('  violation:', s.target, s.name, v.get('what', '')[:160], '|', CC.describe(s, x).replace('\n', '; ')[:300])
        if os.environ.get('SKV_VERBOSE'):
            for s, x, v in self.conc:
                if v[0] == 'undecided':
                    print('  undecided:', s.target, s.name, v[1], '|', CC.describe(s, x).replace('\n', '; ')[:300])


def prop_all(prop):
    return bool(PROPS[prop].get('all'))


def uniq(ds):
    out = []
    for d in ds:
        if d not in out:
            out.append(d)
    return out


def uniq_scn(ss):
    out = []
    for s in ss:
        if s not in out:
            out.append(s)
    return out


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
    a = ap.parse_args(argv)
    sys.dont_write_bytecode = True
    sys.setrecursionlimit(6000)
    rc = Check(a.prop, a.tier, a.seed).run()
    sys.stdout.flush()
    return rc


if __name__ == '__main__':
    sys.exit(main())
