#!/opt/venv/bin/python
"""check.py <property id> [--only substring] : decide one property of /repo's current tree.  See DESIGN.md."""
import glob
import json
import multiprocessing as mp
import multiprocessing.connection
import os
import shutil
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
os.environ.setdefault('OPENBLAS_NUM_THREADS', '1')
os.environ.setdefault('OMP_NUM_THREADS', '1')
os.environ.setdefault('MPLBACKEND', 'Agg')

PROPS = {json.loads(l)['id']: json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))}


def known_findings(pid):
    out = []
    p = os.path.join(HERE, 'known_findings.json')
    if os.path.exists(p):
        for e in json.load(open(p)):
            if e.get('property') == pid and e.get('status') == 'open':
                out.append(e)
    return out


def matches(entry, job, res):
    return entry['harness'] == job['harness'] and entry['label'] == res['label'] and entry.get('params', job['params']) == job['params']


def main():
    pid = sys.argv[1]
    only = sys.argv[3] if len(sys.argv) > 3 and sys.argv[2] == '--only' else None
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    total = float(os.environ.get('VERIF_SECONDS', '700' if tier == 'quick' else '7200'))
    deadline = t0 + total
    from vlib.harness_api import H, load_all
    from vlib.explore import worker
    load_all()
    tasks = []
    for h in H.values():
        if h.prop != pid:
            continue
        for p in (h.quick if tier == 'quick' else h.thorough):
            if only and only not in h.name + repr(p):
                continue
            tasks.append((h.opts.get('cost', 1), h.name, p, h.opts.get('time', 300) * (1 if tier == 'quick' else 8)))
    if not tasks:
        print('no harness for', pid)
        return 2
    tasks.sort(key=lambda t: -t[0])
    known = known_findings(pid)
    ctxm = mp.get_context('fork')
    nw = min(int(os.environ.get('VERIF_JOBS', '8')), len(tasks))
    procs, conns = [], []
    for _ in range(nw):
        a, b = ctxm.Pipe()
        p = ctxm.Process(target=worker, args=(b, tier, seed, deadline), daemon=False)
        p.start()
        b.close()
        procs.append(p)
        conns.append(a)
    todo = list(tasks)
    busy = {}
    reports, violation, matched = [], None, []

    def give(c):
        if todo and violation is None:
            _, n, p, s = todo.pop(0)
            c.send((n, p, s))
            busy[c] = (n, p)
        else:
            try:
                c.send(None)
            except OSError:
                pass
            busy.pop(c, None)
    for c in conns:
        give(c)
    stuck = []
    while busy and violation is None:
        ready = mp.connection.wait(list(busy), timeout=5)
        for c in ready:
            n, p = busy[c]
            try:
                out = c.recv()
            except (EOFError, OSError):
                reports.append({'harness': n, 'params': p, 'inconclusive': [('crash', 'worker died')]})
                busy.pop(c)
                continue
            reports.append(out[1])
            if os.environ.get('VERIF_VERBOSE'):
                r = out[1]
                print('%-40s %-30s paths %d dec %d oblig %d/%d (nf %d) val %d mism %d cut %d unk %d q %d sol %.1f wall %.1f %s' % (
                    n, p, r.get('paths', 0), r.get('decisions', 0), r.get('discharged', 0), r.get('obligations', 0), r.get('normal_form', 0),
                    r.get('validated', 0), r.get('mismatch', 0), r.get('cut', 0), r.get('unknown', 0), r.get('queries', 0),
                    r.get('solver_s', 0), r.get('wall', 0), [(k, m[-300:]) for k, m in r.get('inconclusive', [])][:3]), flush=True)
            if out[0] == 'violation':
                for e in known:
                    if matches(e, out[2], out[3]):
                        matched.append(e)
                        break
                else:
                    violation = out
                    break
            give(c)
        if time.time() > deadline + 60:
            for c in list(busy):
                reports.append({'harness': busy[c][0], 'params': busy[c][1], 'inconclusive': [('time', 'task did not stop')]})
            break
    for p in procs:
        p.join(timeout=0.2 if violation is None and not busy else 0)
    for p in procs:
        if p.is_alive():
            # end the worker's replay server with it
            try:
                os.kill(p.pid, 15)
            except OSError:
                pass
    for p in procs:
        p.join(timeout=2)
        if p.is_alive():
            p.kill()
    for c in conns:
        c.close()
    incon = [(r['harness'], r.get('params'), k) for r in reports for k in r.get('inconclusive', [])]
    S = lambda k: sum(r.get(k, 0) for r in reports)
    # every harness must have been reproduced on the real code at least once (vacuity guard)
    for hn in sorted({t[1] for t in tasks}):
        rs = [r for r in reports if r['harness'] == hn]
        if violation is None and not any(r.get('validated') for r in rs) and H[hn].opts.get('need_validation', True):
            incon.append((hn, None, ('vacuity', 'no path of this harness was reproduced on the real code')))
        seen, conc = set(), set()
        for r in rs:
            seen.update(r.get('labels', {}))
            conc.update(r.get('concrete_labels', []))
        if violation is None and not seen:
            incon.append((hn, None, ('vacuity', 'no assertion reached')))
    funcs = sorted({f for r in reports for f in r.get('functions', [])})
    by = {}
    for r in reports:
        for k, v in r.get('by', {}).items():
            by[k] = by.get(k, 0) + v
    ev = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': 'model_checking',
        'coverage': {
            'states': S('paths'), 'transitions': S('decisions'), 'traces_validated_against_impl': S('validated'),
            'samples': [s for r in reports for s in r.get('samples', [])][:6] or ['none'],
            'obligations': S('obligations'), 'discharged': S('discharged'),
            'obligations_closed_by_normal_form_or_cache': S('normal_form'),
            'solver_queries': S('queries'), 'solver_seconds': round(sum(r.get('solver_s', 0) for r in reports), 2),
            'solver_unknown': S('unknown'), 'second_solver_answers': by,
            'infeasible_paths': S('infeasible'), 'paths_cut_at_declared_bound': S('cut'),
            'declared_cuts': sorted({c for r in reports for c in r.get('cuts', [])}),
            'encoding_mismatches': S('mismatch'), 'concrete_replays': S('replays'),
            'functions_encoded': funcs,
            'assertions_reached': sorted({l for r in reports for l in r.get('labels', {})})[:200],
            'tasks': [{'harness': r['harness'], 'params': r.get('params'), 'paths': r.get('paths'), 'obligations': r.get('obligations'),
                       'wall_s': r.get('wall')} for r in reports],
            'bounds': {hn: ' '.join((H[hn].fn.__doc__ or '').split()) for hn in sorted({t[1] for t in tasks})},
            'inconclusive': [list(map(str, i)) for i in incon][:40],
        },
        'assumptions': ['real arithmetic: floating-point rounding is not modelled; a decimal literal stands for the nearest simple rational or multiple of pi',
                        'a path is a run of the CPython interpreter on the source text of /repo with symbolic numbers (vlib/)'] +
                       ['stubs and assumptions are stated with the bounds of each harness'],
        'wall_s': round(time.time() - t0, 2),
        'violations': 1 if violation else 0,
    }
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    if not only:
        with open(os.path.join(HERE, 'evidence', pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, default=str)
    seenk = set()
    for e in matched:
        if e['what'] not in seenk:
            seenk.add(e['what'])
            print('KNOWN-FINDING: property=%s %s' % (pid, e['what']))
    print('%s %s: %d tasks, %d paths, %d decisions, %d/%d obligations, %d validated, %d queries, %.1f s solver, %.1f s wall' % (
        pid, tier, len(tasks), S('paths'), S('decisions'), S('discharged'), S('obligations'), S('validated'), S('queries'),
        sum(r.get('solver_s', 0) for r in reports), time.time() - t0))
    if violation is not None:
        _, rep, job, res, how = violation
        os.makedirs(os.path.join(HERE, 'replays'), exist_ok=True)
        path = os.path.join(HERE, 'replays', '%s-%d.json' % (pid, os.getpid()))
        with open(path, 'w') as f:
            json.dump({'property': pid, 'job': job, 'result': res, 'how': how}, f, indent=1, default=str)
        print('%s | %s | %s | %s' % (job['harness'], job['params'], how, res.get('detail', '')))
        print('inputs: %s' % json.dumps({k: v for k, v in list(res.get('used', job['values']).items())[:60]}))
        print('VIOLATION property=%s replay=%s' % (pid, path))
        return 1
    if incon:
        for i in incon[:12]:
            print('INCONCLUSIVE', i[0], i[1], i[2][0], i[2][1][-600:])
        # nothing violated; not an answer at all only when nothing was decided
        if os.environ.get('VERIF_STRICT') or not S('discharged') or not S('validated'):
            return 2
        print('%s: held on everything decided; the obligations above are undecided' % pid)
    return 0


if __name__ == '__main__':
    base = os.environ['TMPDIR'] = tempfile.mkdtemp(prefix='verif_')
    tempfile.tempdir = None
    try:
        rc = main()
    except BaseException:
        import traceback
        traceback.print_exc()
        rc = 2
    shutil.rmtree(base, ignore_errors=True)
    sys.stdout.flush()
    os._exit(rc)
