"""Run the checks of one property: symbolic exploration in parallel."""

import argparse
import importlib
import json
import os
import subprocess
import sys
import time
import traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
KNOWN = os.path.join(ROOT, 'known_findings.json')


def load(prop):
    import symx.harness as H

    import glob

    for f in sorted(glob.glob(os.path.join(ROOT, 'checks', '*.py'))):
        name = os.path.basename(f)[:-3]
        if name.startswith('_'):
            continue
        with open(f) as fh:
            src = fh.read()
        if prop is None or f"'{prop}'" in src:
            importlib.import_module(f'checks.{name}')
    return {
        k: h for k, h in H.REGISTRY.items()
        if prop is None or h.prop == prop
    }


def _work(args):
    full, budget, seed, prop = args
    try:
        hs = load(prop)
        from symx.harness import run_symbolic

        return run_symbolic(hs[full], budget, seed)
    except BaseException as e:
        return {
            'harness': full, 'complete': False,
            'error': f'{type(e).__name__}: {e}\n'
            + traceback.format_exc()[-1500:],
        }


def _child(conn, job):
    r = _work(job)
    try:
        conn.send(r)
    except Exception as e:
        conn.send({'harness': job[0], 'complete': False, 'error': str(e)})
    conn.close()


def run_pool(jobs, nproc, hard, total=None, stop=None):
    """Run jobs in forked children with a hard time limit for each.

    After `total` seconds, or once stop(results) holds, nothing else is
    started; after total + 60 s what still runs is ended.
    """
    import multiprocessing as mp

    cx = mp.get_context('fork')
    pend = list(jobs)
    live = []
    out = []
    begin = time.time()
    while pend or live:
        gone = time.time() - begin
        late = total is not None and gone > total + 60
        why = None
        if total is not None and gone > total:
            why = 'not started: total time limit'
        elif pend and stop is not None and stop(out):
            why = 'not started: enough violations'
        if why and pend:
            out += [
                {'harness': j[0], 'complete': False, 'error': why}
                for j in pend
            ]
            pend = []
        while pend and len(live) < nproc:
            j = pend.pop(0)
            a, b = cx.Pipe(False)
            p = cx.Process(target=_child, args=(b, j))
            p.start()
            b.close()
            live.append((p, a, j, time.time()))
        time.sleep(0.02)
        nxt = []
        for p, a, j, t in live:
            if a.poll():
                try:
                    out.append(a.recv())
                except EOFError:
                    out.append({
                        'harness': j[0], 'complete': False,
                        'error': 'worker died',
                    })
                p.join()
            elif not p.is_alive():
                out.append({
                    'harness': j[0], 'complete': False,
                    'error': f'worker exit {p.exitcode}',
                })
                p.join()
            elif late or time.time() - t > j[1] * 1.3 + hard:
                p.kill()
                p.join()
                out.append({
                    'harness': j[0], 'complete': False,
                    'error': 'hard time limit', 'timeout': True,
                })
            else:
                nxt.append((p, a, j, t))
                continue
            a.close()
        live = nxt
    return out


def confirm(rep_path):
    """Replay in a fresh interpreter on the unpatched code."""
    try:
        r = subprocess.run(
            [sys.executable, '-m', 'symx.replay', rep_path],
            cwd=ROOT, capture_output=True, text=True, timeout=120,
        )
    except subprocess.TimeoutExpired:
        return False, 'timeout'
    return r.returncode == 1, r.stdout


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--only')
    ap.add_argument('-v', action='store_true')
    ap.add_argument('-j', type=int, default=os.cpu_count() or 4)
    a = ap.parse_args()
    seed = int(os.environ.get('VERIF_SEED', '1'))
    t0 = time.time()
    hs = load(a.prop)
    if a.tier == 'quick':
        hs = {k: h for k, h in hs.items() if h.tier == 'quick'}
    if a.only:
        hs = {k: h for k, h in hs.items() if a.only in k}
    jobs = []
    for k, h in hs.items():
        b = h.budget or (60 if a.tier == 'quick' else 300)
        if a.tier == 'thorough' and h.budget:
            b = h.budget * 4
        jobs.append((k, b, seed, a.prop))
    # longest budget first
    jobs.sort(key=lambda j: -j[1])
    known = []
    if os.path.exists(KNOWN):
        with open(KNOWN) as f:
            known = [
                k for k in json.load(f).get('findings', [])
                if k['property'] == a.prop
            ]

    def enough(out):
        n = sum(
            match_known(known, v) is None
            for r in out for v in r.get('violations', [])
        )
        return n >= 24

    res = run_pool(
        jobs, a.j, 20, 600 if a.tier == 'quick' else None, enough
    )
    res.sort(key=lambda r: r['harness'])
    wall = time.time() - t0
    os.makedirs(os.path.join(ROOT, 'replays'), exist_ok=True)
    nviol = 0
    unrepro = 0
    lines = []
    known_hit = set()
    for r in res:
        for n, v in enumerate(r.get('violations', [])):
            kf = match_known(known, v)
            if kf is not None:
                known_hit.add(kf)
                continue
            if nviol >= 12:
                continue  # enough are confirmed
            safe = ''.join(
                ch if ch.isalnum() or ch in '._-' else '_'
                for ch in r['harness']
            )
            path = os.path.join(ROOT, 'replays', f'{safe}.{n}.json')
            with open(path, 'w') as f:
                json.dump(v, f, indent=1)
            ok, _txt = confirm(path)
            if not ok:
                unrepro += 1
                continue
            nviol += 1
            lines.append(
                f'VIOLATION property={a.prop} replay='
                f'{os.path.relpath(path, ROOT)}'
            )
            lines.append(
                f'  {v["harness"]}: {v["failures"][0]} with '
                f'{json.dumps(v["inputs"])} {json.dumps(v["choices"])}'
            )
    for kf in known:
        print(f'KNOWN-FINDING: property={a.prop} {kf["what"]}')
    report(a, res, wall, nviol, unrepro, seed)
    for ln in lines:
        print(ln)
    if a.v or any(r.get('error') for r in res):
        for r in res:
            s = r.get('stats', {})
            print(
                f'{r["harness"]}: paths={s.get("paths")} '
                f'q={s.get("queries")} solver={s.get("solver_s", 0):.1f}s '
                f'wall={r.get("wall", 0):.1f}s complete={r["complete"]} '
                f'incon={r.get("n_inconclusive")} '
                f'unsup={r.get("n_unsupported")} '
                f'concr={s.get("concretised")} '
                f'val={r.get("validated")}/{r.get("mismatched")}'
                f'/{r.get("unvalidated")} vac={r.get("vacuous")}'
            )
            if r.get('error'):
                print('   ERROR', r['error'])
            for x in r.get('inconclusive', [])[:3]:
                print('   INCONCLUSIVE', x)
            for x in r.get('unsupported', [])[:3]:
                print('   UNSUPPORTED', x)
            for x in r.get('mismatches', [])[:3]:
                print('   MISMATCH', x)
            for nme, x in sorted(r.get('results', {}).items()):
                if a.v:
                    print('     ', nme, x)
    tot = sum(r.get('stats', {}).get('queries', 0) for r in res)
    inc = sum(r.get('n_inconclusive', 0) for r in res)
    print(
        f'{a.prop} {a.tier}: {len(res)} harnesses, {tot} solver queries, '
        f'{inc} inconclusive, {nviol} violations, {wall:.1f} s'
    )
    return 1 if nviol else 0


def match_known(known, v):
    """Index of the finding that explains every failure of v, or None."""
    hit = None
    for f in v['failures']:
        k = next(
            (i for i, k in enumerate(known)
             if k['harness'] == v['harness']
             and f[0] in k.get('checks', [k.get('check')])
             and k.get('detail', '') in f[1]
             and all(v['choices'].get(c) == x
                     for c, x in k.get('choices', {}).items())), None,
        )
        if k is None:
            return None
        hit = k
    return hit


def report(a, res, wall, nviol, unrepro, seed):
    sm = {
        k: sum(r.get('stats', {}).get(k, 0) for r in res)
        for k in ('queries', 'paths', 'decisions', 'unsat', 'sat', 'unknown',
                  'quick', 'concretised', 'unknown_branches')
    }
    solver_s = sum(r.get('stats', {}).get('solver_s', 0) for r in res)
    reached = disch = triv = inc = viol = 0
    unreached = []
    for r in res:
        if not r.get('results'):
            unreached.append(r['harness'])
        for _n, x in r.get('results', {}).items():
            reached += x['reached']
            disch += x['discharged']
            triv += x['trivial']
            inc += x['inconclusive']
            viol += x['violated']
    funcs = sorted({f for r in res for f in r.get('functions', [])})
    samples = []
    for r in res:
        for s in r.get('samples', [])[:1]:
            samples.append({'harness': r['harness'], **s})
    ev = {
        'property': a.prop,
        'tier': a.tier if a.tier in ('quick', 'thorough') else 'quick',
        'seed': seed,
        'level': 'model_checking',
        'coverage': {
            'states': sm['paths'],
            'transitions': sm['decisions'],
            'traces_validated_against_impl': sum(
                r.get('validated', 0) for r in res
            ),
            'samples': samples[:8] or ['no path completed'],
            'explanation': (
                'states = feasible symbolic paths of the real functions '
                'explored, transitions = branch decisions sent to the solver '
                'or taken from a path witness, traces_validated = path '
                'witnesses replayed on the unpatched code whose outputs '
                'agree with the encoding'
            ),
            'functions_encoded': funcs,
            'harnesses': {
                r['harness']: {
                    'bounds': r.get('bounds', ''),
                    'outside': r.get('outside', ''),
                    'stubs': r.get('stubs', []),
                    'complete': r['complete'],
                    'paths': r.get('stats', {}).get('paths', 0),
                    'queries': r.get('stats', {}).get('queries', 0),
                    'solver_s': round(
                        r.get('stats', {}).get('solver_s', 0), 3
                    ),
                    'inconclusive': r.get('n_inconclusive', 0),
                    'unsupported_paths': r.get('n_unsupported', 0),
                    'cuts': r.get('cuts', {}),
                    'concretised': r.get('stats', {}).get('concretised', 0),
                    'error': r.get('error'),
                }
                for r in res
            },
            'obligations_reached': reached,
            'obligations_discharged_unsat': disch,
            'of_which_identical_after_normalisation': triv,
            'obligations_inconclusive': inc,
            'obligations_violated': viol,
            'queries': sm['queries'],
            'queries_unsat': sm['unsat'],
            'queries_sat': sm['sat'],
            'queries_unknown': sm['unknown'],
            'branches_by_interval': sm['quick'],
            'concretisations': sm['concretised'],
            'unknown_branches_kept': sm['unknown_branches'],
            'solver_s': round(solver_s, 2),
            'witness_mismatches': sum(
                r.get('mismatched', 0) for r in res
            ),
            'counterexamples_not_reproduced': unrepro,
            'harnesses_without_reached_check': unreached,
        },
        'assumptions': [
            'claims are over exact real arithmetic; floating point rounding '
            'is outside them',
            'numpy, math, scipy.interpolate (and, where listed as a stub, '
            'shapely/triangle) behave as the shims in symx/ encode them',
            'inputs within the bounds listed for each harness',
        ],
        'wall_s': round(wall, 2),
        'violations': nviol,
    }
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    with open(os.path.join(ROOT, 'evidence', f'{a.prop}.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)


if __name__ == '__main__':
    sys.exit(main())
