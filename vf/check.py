#!/usr/bin/env python3-vt
"""check.py PROPERTY [--tier quick|thorough]: decide one property; see DESIGN.md."""
import argparse
import importlib
import json
import multiprocessing as mp
import os
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:] = [p for p in sys.path if os.path.abspath(p or '.') != os.path.join(HERE, 'vf')]
sys.path.insert(0, HERE)
REPO = os.environ.get('VF_REPO', '/repo')
PY = '/opt/venv/bin/python'
BAD = ('fail', 'crash', 'hang', 'died')
DEADLINE = 600
EVID = os.path.join(HERE, 'evidence')


def worker(job):
    prop, tier, idx, budget = job
    try:
        import resource
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
        from vf import symctx
        mod = importlib.import_module('vf.checks.' + prop.lower())
        sc = mod.scenarios(tier)[idx]
        devnull = os.open(os.devnull, os.O_WRONLY)
        os.dup2(devnull, 1)
        os.dup2(devnull, 2)
        st = symctx.explore(sc['fn'], sc.get('params', {}), budget_s=min(budget, sc.get('budget_s', budget)),
                            tick_limit=sc.get('tick_limit', 4000), samples=sc.get('samples', 4),
                            query_timeout_ms=sc.get('query_timeout_ms', 20000))
        st['scenario'] = sc['name']
        return st
    except BaseException as e:
        import traceback
        return dict(scenario=str(idx), error=''.join(traceback.format_exception(e))[-2000:])


def replay(cases, limit=20):
    """Concrete runs of cases on the real code; one process per batch, restarted after a death."""
    out = []
    rest = list(cases)
    while rest:
        with tempfile.NamedTemporaryFile('w', suffix='.json', delete=False) as f:
            json.dump(dict(cases=rest, limit=limit), f)
        try:
            env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', VF_REPO=REPO)
            p = subprocess.run([PY, os.path.join(HERE, 'vf', 'replay.py'), f.name], capture_output=True, text=True,
                               env=env, timeout=limit * len(rest) + 60, cwd='/tmp')
            stdout, stderr = p.stdout, p.stderr
        except subprocess.TimeoutExpired as e:
            stdout = (e.stdout or b'').decode() if isinstance(e.stdout, bytes) else (e.stdout or '')
            stderr = 'timeout'
        finally:
            os.unlink(f.name)
        got = []
        for line in stdout.splitlines():
            try:
                got.append(json.loads(line))
            except ValueError:
                pass
        got = got[:len(rest)]
        out += got
        rest = rest[len(got):]
        if rest:
            out.append(dict(status='died', detail=stderr[-800:], failed=[], passed=0, obs=[]))
            rest = rest[1:]
    return out


def known_findings(prop):
    fn = os.path.join(HERE, 'known_findings.txt')
    out = []
    if os.path.exists(fn):
        for line in open(fn):
            line = line.strip()
            if line.startswith('known: ') and f'property={prop} ' in line:
                kv = dict(p.split('=', 1) for p in line[7:].split(' | ') [0].split() if '=' in p)
                text = line.split(' | ', 1)[1] if ' | ' in line else line
                out.append((kv.get('scenario'), kv.get('label'), text))
    return out


def is_known(known, case, o):
    labels = [l for l, _ in o['failed']] or [o['status']]
    return [t for s, l, t in known if (s in (None, '*') or s == case['scenario']) and all(l == x for x in labels)]


def child(conn, job):
    r = worker(job)
    conn.send(r)
    conn.close()
    os._exit(0)


def run_jobs(jobs, deadline, width=8):
    """One forked process per job; yields results as they come, None when the deadline has passed."""
    from multiprocessing.connection import wait
    cx = mp.get_context('fork')
    todo, live = list(jobs), {}
    try:
        while todo or live:
            while todo and len(live) < width:
                job = todo.pop(0)
                rd, wr = cx.Pipe(duplex=False)
                p = cx.Process(target=child, args=(wr, job), daemon=True)
                p.start()
                wr.close()
                live[rd] = (p, job)
            ready = wait(list(live), timeout=max(0.0, deadline - time.time()))
            if not ready:
                yield None
                return
            for rd in ready:
                p, job = live.pop(rd)
                try:
                    r = rd.recv()
                except EOFError:
                    p.join()
                    r = dict(scenario=str(job[2]), error=f'worker ended with {p.exitcode}')
                rd.close()
                p.join()
                yield r
    finally:
        for p, _ in live.values():
            p.kill()
        for p, _ in live.values():
            p.join()


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--only')
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    t0 = time.time()
    prop, tier = a.prop, a.tier
    mod = importlib.import_module('vf.checks.' + prop.lower())
    scs = mod.scenarios(tier)
    budget = 240 if tier == 'quick' else 3000
    jobs = [(prop, tier, i, budget) for i, s in enumerate(scs) if not a.only or a.only in s['name']]
    # long ones first
    jobs.sort(key=lambda j: -scs[j[2]].get('cost', 1))
    from vf import core, loader, symctx
    core.ENGINE = core.Engine()
    loader.install(REPO)
    try:
        for m in ('main', 'deps', 'elf', 'mapfile', 'memorymap'):
            importlib.import_module('esp_idf_size.' + m)
    except Exception as e:
        print(f'ERROR: cannot load the package: {e!r}')
        sys.exit(2)
    core.ENGINE = None
    known = known_findings(prop)
    deadline = t0 + (DEADLINE if tier == 'quick' else 4 * 3600)
    res, violations, stopped = [], [], None
    confirmed = 0
    for r in run_jobs(jobs, deadline):
        if r is None:
            stopped = 'deadline'
            break
        res.append(r)
        for c in r.get('cex', ()):
            case = dict(property=prop, scenario=r['scenario'], tier=tier, values=c['values'])
            o = c['outcome'] = replay([case])[0]
            if o['status'] in BAD and not is_known(known, case, o):
                confirmed += 1
        if confirmed >= 4:
            stopped = 'violations found'
            break
    order = {s['name']: i for i, s in enumerate(scs)}
    res.sort(key=lambda r: order.get(r['scenario'], -1))

    errors = [r for r in res if 'error' in r]
    res = [r for r in res if 'error' not in r]
    cands, samples = [], []
    for r in res:
        for c in r['cex']:
            cands.append((r, c))
        for s in r['samples']:
            samples.append((r, s))
    cases = [dict(property=prop, scenario=r['scenario'], tier=tier, values=c['values']) for r, c in cands]
    scases = [dict(property=prop, scenario=r['scenario'], tier=tier, values=s['values']) for r, s in samples]
    outs = [c['outcome'] for _, c in cands]
    from concurrent.futures import ThreadPoolExecutor
    step = max(10, -(-len(scases) // 6))
    with ThreadPoolExecutor(6) as ex:
        souts = [o for part in ex.map(replay, [scases[i:i + step] for i in range(0, len(scases), step)]) for o in part]

    unrepro, inconcl = [], []
    if stopped:
        done = {r['scenario'] for r in res} | {r['scenario'] for r in errors}
        rest = [scs[j[2]]['name'] for j in jobs if scs[j[2]]['name'] not in done]
        if rest:
            inconcl.append(f'{stopped}: {len(rest)} scenario(s) not finished: {", ".join(rest[:5])}')
    os.makedirs(os.path.join(EVID, 'replay'), exist_ok=True)
    for (r, c), case, o in zip(cands, cases, outs):
        if o['status'] in BAD:
            violations.append((case, o, c))
        elif c['kind'] in ('steps', 'crash', 'exc'):
            inconcl.append(f"{r['scenario']}: {c['detail'] or c['label']} (not reproduced on the real code)")
        else:
            unrepro.append((case, o, c))
    validated = mismatched = 0
    for (r, s), case, o in zip(samples, scases, souts):
        if o['status'] in BAD:
            violations.append((case, o, dict(label='validation', detail='found while validating the encoding')))
        elif o['status'] == 'ok' and o['obs'] == s['obs']:
            validated += 1
        else:
            mismatched += 1
            if a.v:
                print('MISMATCH', r['scenario'], o['status'], s['values'], o['obs'], s['obs'], sep='\n   ')
    for r in res:
        if r['inconclusive']:
            inconcl.append(f"{r['scenario']}: {r['inconclusive']} path(s) not followed: {'; '.join(sorted(set(r['notes']))[:3])}")
        if r['truncated']:
            inconcl.append(f"{r['scenario']}: stopped at its budget after {r['paths']} paths")
        if r['paths'] == 0 or not r['labels']:
            inconcl.append(f"{r['scenario']}: no path reached a claim")
        if a.v:
            print(f"{r['scenario']:50s} paths={r['paths']} checks={r['checks']} triv={r['trivial']} q={r['queries']} "
                  f"solver={r['solver_s']:.1f}s wall={r['wall_s']:.1f}s depth={r['max_depth']} "
                  f"incon={r['inconclusive']} trunc={r['truncated']} cex={len(r['cex'])}")
            for c in r['cex']:
                print('   cex', c['kind'], c['label'], c['detail'][:300], c['values'])
            for n in r['notes'][:4]:
                print('   note', n[:300])

    fresh, shown = [], set()
    for case, o, c in violations:
        k = is_known(known, case, o)
        if k:
            if k[0] not in shown:
                shown.add(k[0])
                print(f'KNOWN-FINDING: property={prop} {k[0]}')
        else:
            fresh.append((case, o, c))
    code = 0
    vio = []
    for n, (case, o, c) in enumerate(fresh[:5]):
        fn = os.path.join(EVID, 'replay', f'{prop}-{n}.json')
        with open(fn, 'w') as f:
            json.dump(dict(case, observed=o, rerun=f'{PY} {HERE}/vf/replay.py {fn}'), f, indent=1)
        what = '; '.join(f'{l}: {i}' for l, i in o['failed'][:2]) or f"{o['status']}: {o['detail'][-300:]}"
        print(f'VIOLATION property={prop} replay={fn}')
        print(f'  scenario {case["scenario"]}: {what}')
        vio.append(dict(scenario=case['scenario'], replay=fn, what=what[:500]))
        code = 1
    for case, o, c in unrepro:
        inconcl.append(f'{case["scenario"]}: counterexample to {c["label"]} does not reproduce on the real code '
                       f'({o["status"]}): {case["values"]}')
    if not code and errors:
        for r in errors[:3]:
            print('ERROR: scenario failed:', r['error'])
        code = 2
    if not code and res and all(r['paths'] == 0 or not r['labels'] for r in res):
        print('ERROR: nothing was decided')
        code = 2
    for i in inconcl:
        print('INCONCLUSIVE:', i)

    wall = time.time() - t0
    tot = lambda k: sum(r[k] for r in res)
    funcs = sorted({f for r in res for f in r['functions']})
    ev = dict(
        property=prop, tier=tier, seed=int(os.environ.get('VERIF_SEED', '1')), level=getattr(mod, 'LEVEL', 'model_checking'),
        wall_s=round(wall, 2),
        coverage=dict(
            states=tot('paths'), transitions=tot('decisions'), traces_validated_against_impl=validated, exhausted=not any(r['truncated'] or r['inconclusive'] for r in res),
            samples=[dict(scenario=c['scenario'], values=c['values']) for c in scases[:6]],
            technique='symbolic execution of /repo source; z3 decides every path condition and claim',
            functions_encoded=funcs, bounds=[dict(scenario=s['name'], bound=s['bound']) for s in scs],
            infeasible_or_assumed_away=tot('aborted'), claims=tot('checks'),
            claims_settled_without_solver=tot('trivial'), claim_queries=tot('check_queries'), solver_queries=tot('queries'),
            solver_s=round(tot('solver_s'), 2), encoding_mismatches=mismatched,
            inconclusive=inconcl, per_scenario=[
                dict(name=r['scenario'], paths=r['paths'], claims=r['checks'], queries=r['queries'],
                     solver_s=round(r['solver_s'], 2), wall_s=round(r['wall_s'], 2), labels=r['labels']) for r in res],
            explanation='Each path is one equivalence class of inputs; the claims on it are decided for all its inputs '
                        'by one unsat query. Outside the bounds nothing is claimed.'),
        assumptions=getattr(mod, 'ASSUMPTIONS', []), violations=vio)
    os.makedirs(EVID, exist_ok=True)
    with open(os.path.join(EVID, f'{prop}.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    print(f'{prop} {tier}: {tot("paths")} paths, {tot("checks")} claims, {tot("queries")} solver queries '
          f'({tot("solver_s"):.1f} s), {validated}/{len(scases)} traces validated, {len(funcs)} functions, '
          f'{wall:.1f} s -> exit {code}')
    sys.exit(code)


if __name__ == '__main__':
    main()
