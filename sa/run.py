"""python3 run.py <property id> [--ob SUBSTR] [--terms]: decide one property on the current tree of /repo."""
import importlib
import json
import multiprocessing as mp
import os
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(HERE, 'specs'))
sys.setrecursionlimit(20000)
import threading
threading.stack_size(512 * 1024 * 1024)
OB_LIMIT = int(os.environ.get('VERIF_OB_LIMIT', '240'))
RUN_LIMIT = int(os.environ.get('VERIF_RUN_LIMIT', '720'))
MEMORY = 3800 << 20
DEADLINE = time.time() + RUN_LIMIT


def known(pid):
    out, path = [], os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith(f'KNOWN-FINDING: property={pid} '):
                out.append(line.split(' ', 2)[2])
    return out


_SPEC = None
_PROJ = None


def _work(i):
    import engine
    import resource
    out = {}
    left = min(OB_LIMIT, DEADLINE - time.time())
    unk = dict(i=i, verdict='unk', why='time limit', witness='', used={}, notes=[], wall=OB_LIMIT, broken=None, control=True)
    if left <= 1:
        return unk
    resource.setrlimit(resource.RLIMIT_AS, (MEMORY, resource.getrlimit(resource.RLIMIT_AS)[1]))

    def go():
        r = engine.run_ob(_PROJ, _SPEC, i, _SPEC.obs[i])
        out.update(i=i, verdict=r.verdict, why=r.why, witness=r.witness, used=r.used, notes=r.notes, wall=r.wall, broken=r.broken, control=r.control)
    t = threading.Thread(target=go, daemon=True)
    t.start()
    t.join(left * .7)
    if not out and left > 20 and engine.PENDING:
        # the comparison takes too long: look for a point where the two graphs differ
        found = []
        f = threading.Thread(target=lambda: found.append(engine.refute(left * .2)), daemon=True)
        f.start()
        f.join(left * .25)
        if not out and found and found[0]:
            return unk | dict(verdict='NEQ', why='', witness=found[0], used=dict(engine.PENDING[0][4].used))
        left -= left * .25
    if not out:
        t.join(left * .3)
    return dict(out) if out else unk


def main():
    global _SPEC, _PROJ
    pid = sys.argv[1]
    sel = None
    terms_ = '--terms' in sys.argv
    if '--ob' in sys.argv:
        sel = sys.argv[sys.argv.index('--ob') + 1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--thorough' in sys.argv:
        tier = 'thorough'
    t0 = time.time()
    import project
    import engine
    _PROJ = project.Project()
    _SPEC = importlib.import_module(pid.lower()).S
    obs = _SPEC.obs
    idx = [i for i, o in enumerate(obs) if (tier == 'thorough' or o.tier == 'quick') and (sel is None or sel in o.name)]
    res = []
    if idx:
        n = min(8, len(idx), os.cpu_count() or 1)
        ctx = mp.get_context('fork')
        with ctx.Pool(n, maxtasksperchild=1) as pool:
            todo, results = set(idx), pool.imap_unordered(_work, idx, chunksize=1)
            while todo:
                try:
                    r = results.next(timeout=max(5.0, DEADLINE + 20 - time.time()))
                except (mp.TimeoutError, StopIteration):
                    # a worker was ended from outside, or the time for the whole run is up
                    res += [dict(i=i, verdict='unk', why='time limit', witness='', used={}, notes=[], wall=0.0, broken=None, control=True) for i in sorted(todo)]
                    break
                todo.discard(r['i'])
                res.append(r)
                if (sel is not None or '-v' in sys.argv) and not ('-q' in sys.argv and r['verdict'] == 'EQ' and not r['broken']):
                    o = obs[r['i']]
                    print(f"[{r['verdict']}] {o.name} ({r['wall']:.2f}s) {r['why']} {r['witness'][:int(os.environ.get('W', '300'))]} {r['broken'] or ''}")
                    if '--notes' in sys.argv:
                        for x in r['notes']:
                            print('    note:', x)
    res.sort(key=lambda r: r['i'])
    broken, viols, undec, weak, discharged = [], [], [], [], 0
    used = {}
    samples = []
    for r in res:
        o = obs[r['i']]
        used.update(r['used'])
        if r['broken']:
            broken.append(f'{o.name}: {r["broken"]}')
        elif r['verdict'] == engine.EQ:
            discharged += 1
            if not r['control']:
                weak.append(o.name)
        elif r['verdict'] == engine.NEQ:
            at = ', '.join(o.at) or 'harness'
            funcs = [w for w in r['used']]
            viols.append(dict(rule='equivalence', key=f'{o.name}', construct=at, text=r['witness'], functions=funcs))
        else:
            undec.append(dict(obligation=o.name, reason=r['why']))
    nrule = 0
    if sel is None:
        import rules
        for fn in _SPEC.rules:
            rr = fn(_PROJ)
            nrule += rr.checked
            used.update(rr.used)
            if rr.broken:
                broken.append(rr.broken)
            for v in rr.violations:
                viols.append(v)
            discharged += rr.checked - len(rr.violations)
            samples += rr.samples[:3]
    kf = known(pid)
    unlisted, listed = [], []
    for v in viols:
        key = v['rule'] + ' ' + v['key']
        hit = [k for k in kf if k == key or k.startswith(key + ' --')]
        (listed if hit else unlisted).append(v)
    for v in listed:
        print(f'KNOWN-FINDING: property={pid} {v["rule"]} {v["key"]} -- {v["construct"]}')
    total = len(res) + nrule
    for r in res[:4]:
        samples.append(f'{obs[r["i"]].name}: {r["verdict"]}')
    ev = dict(property=pid, tier=tier, seed=int(os.environ.get('VERIF_SEED', '0') or 0), level='other',
              coverage=dict(broken=broken,
                  explanation='static analysis of the current source (no repository code is executed): each obligation value-numbers the '
                              'entry point over opaque typed inputs and compares the gated value graph with the one the property requires; '
                              'classical rules are decided over the resolved syntax trees',
                  obligations=total, discharged=discharged, undecided=undec, controls_undecided=weak, known_findings=[v['key'] for v in listed],
                  functions_analysed=sorted(used), n_functions=len(used), source_digest=_PROJ.digest,
                  samples=samples),
              assumptions=['real arithmetic for floats', 'names, attributes and modules are not rebound by code outside the repository',
                           'library summaries (numpy, datetime, dateutil, bisect, itertools) as modelled in sa/lib.py'],
              wall_s=round(time.time() - t0, 3), violations=len(unlisted))
    if sel is None and 'VERIF_REPO' not in os.environ:
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        json.dump(ev, open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w'), indent=1)
    if undec:
        for u in undec:
            print(f'undecided: property={pid} {u["obligation"]}: {u["reason"]}')
    for w in weak:
        print(f'control undecided: property={pid} {w}')
    for v in unlisted:
        rp = os.path.join(VERIF, 'evidence', f'{pid}.violation.txt')
        print(f'VIOLATION property={pid} replay={rp}')
        print(f'  rule {v["rule"]}, obligation "{v["key"]}", construct {v["construct"]}')
        print('  ' + v['text'][:1500])
    if unlisted:
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', f'{pid}.violation.txt'), 'w') as f:
            for v in unlisted:
                f.write(json.dumps(v, indent=1) + '\n')
        sys.stdout.flush()
        os._exit(1)
    for b in broken:
        print('analysis-broken:', b)
    if broken and len(broken) == total:
        sys.stdout.flush()
        os._exit(2)
    if total == 0:
        print('analysis-broken: no obligations')
        os._exit(2)
    print(f'{pid}: {discharged}/{total} obligations hold, {len(undec)} undecided, {len(used)} functions analysed, {time.time()-t0:.1f}s')
    sys.stdout.flush()
    os._exit(0)


main()
