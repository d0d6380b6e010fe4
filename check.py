#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] [--only substring] [--jobs n]

Runs the static analysis of one property over the current source tree of /repo, writes evidence/<property>.json and
reports the verdict (see DESIGN.md)."""
import importlib
import json
import multiprocessing
import os
import random
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'specs'))
sys.path.insert(0, os.path.join(HERE, 'absint'))
sys.setrecursionlimit(30000)
import threading                       # noqa: E402
threading.stack_size(512 * 1024 * 1024)

import kit                             # noqa: E402

SPEC = None
SCEN = None


def run_one(job):
    i, seed, budget_paths, budget_time = job
    s = SCEN[i]
    out = []

    def go():
        out.append(kit.explore(s.name, s.fn, max_paths=budget_paths, max_time=budget_time, seed=seed))
    t = threading.Thread(target=go)    # a thread, for the size of its stack
    t.start()
    t.join()
    r = out[0] if out else kit.Result(s.name)
    if not out:
        r.undecided['analyser crash'] = 1
    return i, r


def load_known(prop):
    known = []
    p = os.path.join(HERE, 'known-findings.txt')
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith('known: '):
                d = {}
                head, _, text = line[7:].partition(' -- ')
                for f in head.split():
                    k, _, v = f.partition('=')
                    d[k] = v
                d['text'] = text
                if d.get('property') == prop:
                    known.append(d)
    return known


def match(known, r, f):
    for k in known:
        if k.get('scenario') in r.name and k.get('rule') == f['rule'] and k.get('match', '').replace('~', ' ') in f['msg']:
            return k
    return None


def main():
    global SPEC, SCEN
    args = sys.argv[1:]
    prop = args[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    only = None
    jobs = max(2, min(8, os.cpu_count() or 2))
    i = 1
    while i < len(args):
        if args[i] == '--tier':
            tier = args[i + 1]
        elif args[i] == '--only':
            only = args[i + 1]
        elif args[i] == '--jobs':
            jobs = int(args[i + 1])
        i += 2
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    SPEC = importlib.import_module(prop.lower())
    SCEN = SPEC.scenarios(tier)
    stale = os.path.join(HERE, 'evidence', prop + '.violations.txt')
    if os.path.exists(stale):
        os.unlink(stale)
    if only:
        SCEN = [s for s in SCEN if only in s.name]
    scale = 1 if tier == 'quick' else 4
    deadline = int(os.environ.get('VERIF_DEADLINE', '600' if tier == 'quick' else '840'))
    names = [s.name for s in SCEN]
    assert len(set(names)) == len(names), 'duplicate scenario names'
    results = [None] * len(SCEN)
    known = load_known(prop)
    ctx = multiprocessing.get_context('fork')
    first = bool(os.environ.get('VERIF_FIRST'))
    brief = 6.0 if tier == 'quick' else 20.0

    def found(r):
        return any(match(known, r, f) is None for f in r.findings.values())

    def sweep(work, until):
        hits = 0
        with ctx.Pool(jobs, maxtasksperchild=20) as pool:
            itr = pool.imap_unordered(run_one, work)
            for _ in work:
                try:
                    n, r = itr.next(timeout=max(1, until - (time.time() - t0)))
                except multiprocessing.TimeoutError:
                    pool.terminate()
                    break
                old = results[n]
                if old is None or r.paths >= old.paths or r.findings:
                    results[n] = r
                if found(r):
                    hits += 1
                    if first:
                        pool.terminate()
                        break
                    until = min(until, time.time() - t0 + 60)
        return hits

    # all scenarios briefly, in an order that mixes the families; then those that are not complete
    order = list(range(len(SCEN)))
    random.Random(seed).shuffle(order)
    work = [(n, seed, SCEN[n].max_paths * scale, min(brief, SCEN[n].max_time * scale)) for n in order]
    if not sweep(work, deadline):
        rest = [n for n in order if results[n] is not None and not results[n].exhaustive and not results[n].findings
                and SCEN[n].max_time * scale > brief and results[n].paths < SCEN[n].max_paths * scale]
        if rest:
            sweep([(n, seed, SCEN[n].max_paths * scale, SCEN[n].max_time * scale) for n in rest], deadline)
    skipped = [s.name for s, r in zip(SCEN, results) if r is None]
    results = [r for r in results if r is not None]

    seen_known, violations = {}, []
    for r in results:
        for key, f in r.findings.items():
            hit = match(known, r, f)
            if hit is not None:
                seen_known[hit['text']] = hit
            else:
                violations.append((r, f))

    broken = [(r.name, 'a public name is gone: %s' % r.anchor) for r in results if r.anchor]
    for r in results:
        if not r.anchor and 'ok' not in r.outcomes and not r.findings:
            why = max(r.undecided.items(), key=lambda t: t[1])[0] if r.undecided else 'no path'
            broken.append((r.name, 'no path was decided: %s' % why))

    paths = sum(r.paths for r in results)
    pruned = sum(r.pruned for r in results)
    undec = sum(sum(r.undecided.values()) for r in results)
    und_why = {}
    for r in results:
        for k, v in r.undecided.items():
            und_why[k] = und_why.get(k, 0) + v
    oblig = sum(r.obligations for r in results)
    cover = set()
    sites = set()
    for r in results:
        cover |= r.cover
        sites |= r.sites
    funcs = sorted({'%s:%s' % (m, q) for m, q, _ in cover if m.startswith('deep')})
    wit = {}
    for r in results:
        for k, v in r.witness.items():
            wit[k] = wit.get(k, 0) + v
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': getattr(SPEC, 'LEVEL', 'other'),
        'wall_s': round(time.time() - t0, 2),
        'violations': len(violations),
        'assumptions': list(dict.fromkeys(list(getattr(SPEC, 'ASSUMPTIONS', [])) + kit.ASSUMPTIONS)),
        'coverage': {
            'explanation': getattr(SPEC, 'EXPLANATION', '').strip() + ' Path-sensitive abstract interpretation of the syntax trees of '
                           '/repo/src/deep; every scenario below is one family of abstract inputs, every path one class of executions.',
            'rules': getattr(SPEC, 'RULES', {}),
            'scenarios': [{'name': r.name, 'paths': r.paths, 'infeasible': r.pruned, 'undecided': sum(r.undecided.values()),
                           'obligations': r.obligations, 'all_paths': r.exhaustive and not r.undecided,
                           'wall_s': round(r.wall, 2)} for r in results],
            'scenarios_not_started': skipped,
            'evaluations': oblig, 'distinct_nontrivial': paths - pruned - undec,
            'rule': 'the obligations listed under rules, on every abstract path',
            'samples': [r.name for r in results][:10],
            'paths': paths, 'infeasible_paths': pruned, 'undecided_paths': undec,
            'scenarios_without_answer': ['%s: %s' % b for b in broken],
            'undecided_reasons': dict(sorted(und_why.items(), key=lambda t: -t[1])[:20]),
            'witnessed': wit,
            'functions_analysed': funcs, 'functions_count': len(funcs),
            'call_sites_of_foreign_code': sorted(sites),
            'known_findings_seen': sorted(seen_known),
        },
    }
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    print('%s: %d scenarios, %d paths (%d infeasible, %d undecided), %d obligations, %d functions analysed, %.1f s' % (
        prop, len(results), paths, pruned, undec, oblig, len(funcs), time.time() - t0))
    if os.environ.get('VERIF_VERBOSE'):
        for r in sorted(results, key=lambda r: -r.wall):
            print('  %-60s %5d paths %4d inf %4d und %5d obl %6.1fs %s %s' % (r.name, r.paths, r.pruned, sum(r.undecided.values()),
                  r.obligations, r.wall, 'all' if r.exhaustive else 'PART', 'FOUND' if r.findings else ''))
            for k, v in list(r.undecided.items())[:6]:
                print('       undecided %d: %s' % (v, k))
    for k in seen_known.values():
        print('KNOWN-FINDING: property=%s %s' % (prop, k['text']))
    if violations:
        rp = os.path.join(HERE, 'evidence', prop + '.violations.txt')
        with open(rp, 'w') as f:
            for r, v in violations:
                f.write('scenario %s\n%s\n\n' % (r.name, v['text']))
        shown = set()
        for r, v in violations:
            key = (v['rule'], v['site'])
            if key in shown or len(shown) > 7:
                continue
            shown.add(key)
            print('%s\n  rule %s: %s\n  at %s' % (r.name, v['rule'], v['msg'], v['site']))
        print('VIOLATION property=%s replay=%s' % (prop, rp))
        return 1
    for n, why in broken:
        print('NOT DECIDED %s: %s' % (n, why))
    if len(broken) * 2 > len(SCEN):
        print('ANALYSIS BROKEN: %d of %d scenarios gave no answer' % (len(broken), len(SCEN)))
        return 2
    return 0


if __name__ == '__main__':
    rc = main()
    sys.stdout.flush()
    os._exit(rc)
