"""check one property: run every task that carries obligations of it, report, write evidence"""
import sys, os, time, json, importlib, multiprocessing, multiprocessing.pool, shutil, tempfile, traceback, subprocess
from .spec import *
from .probe import probe, BuildError

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MODULES = ['jwt', 'aud', 'struct_utils', 'verify', 'jwks', 'status', 'status_holder', 'lru']

def load_modules():
    out = []
    for m in MODULES:
        if os.path.exists(os.path.join(VERIF, 'specs', m + '.py')): out.append(importlib.import_module('specs.' + m))
    return out

def has(task, prop):
    return prop in task.props or prop in (task.safety or ()) or prop in getattr(task, 'extra_props', ())

_work = []

def _none(k, why, t=0.0):
    mod, m, task, prop = _work[k]
    return dict(fn=task.fn, label=getattr(task, 'label', ''), unsupported=why, obls=[], covers={}, exits=0, time=t, solver=0.0, assumed=[], inlined=[], loops=[], tu=m.TU,
                want=list(task.cover or ()), paths=0, queries=0)

def _one(k):
    mod, m, task, prop = _work[k]
    t = time.time()
    try:
        r = getattr(m, 'RUN', run_task)(mod, task, getattr(m, 'CONTRACTS', None))
    except BaseException as e:
        return _none(k, '%s: %s' % (type(e).__name__, str(e)[:300]), time.time() - t)
    return dict(fn=task.fn, label=getattr(task, 'label', ''), unsupported=r.unsupported, exits=r.exits, covers=r.covers, time=round(r.time, 2),
                obls=[dict(name=o.name, status=o.status, n=o.n, backend=dict(o.backend), props=sorted(o.props), detail=str(o.detail or '')[:6000])
                      for o in (r.obls or {}).values()],
                solver=round((r.stats or {}).get('solver_s', 0.0), 2), assumed=sorted(set(r.assumed)), inlined=sorted((r.stats or {}).get('inlined', ())),
                loops=[str(x)[:200] for x in (r.stats or {}).get('loops', ())], tu=m.TU, want=list(task.cover or ()), paths=(r.stats or {}).get('paths', 0),
                queries=(r.stats or {}).get('queries', 0))

BUDGET = {'quick': 520, 'thorough': 600}   # seconds for the proof stage; what is left of 900 s is for the concrete search

def verify(prop, workdir, tier='quick'):
    """run the tasks; returns list of result dicts"""
    mods = load_modules()
    sel = [(m, t) for m in mods for t in m.TASKS if has(t, prop)]
    tus = sorted({m.TU for m, t in sel})
    errors = []
    irs = {}
    L = None
    if any(getattr(m, 'NEED_PROBE', 0) for m, t in sel):
        try: L = probe(workdir)
        except BuildError as e: errors.append('probe: %s' % str(e)[:500])
    for m in {m.__name__: m for m, t in sel}.values():
        if hasattr(m, 'PREPARE'):
            try: m.PREPARE(workdir)
            except BuildError as e: errors.append('%s: %s' % (m.__name__, str(e)[:500]))
    with multiprocessing.pool.ThreadPool(8) as tp:
        def em(key):
            tu, extra = key
            try: return key, emit_ir(REPO + '/' + tu if not tu.startswith('/') else tu, workdir, extra)
            except BuildError as e: return key, e
        keys = sorted({(m.TU, tuple(getattr(m, 'EXTRA', ()))) for m, t in sel})
        for key, r in tp.map(em, keys):
            if isinstance(r, Exception): errors.append('%s does not compile: %s' % (key[0], str(r)[:500]))
            else: irs[key] = Module(r)
    global _work
    _work = []
    results = []
    for m, t in sel:
        key = (m.TU, tuple(getattr(m, 'EXTRA', ())))
        if getattr(m, 'NEED_PROBE', 0):
            if L is None: continue
            m.L.update(L)
        if key in irs: _work.append((irs[key], m, t, prop))
    _work.sort(key=lambda w: -getattr(w[2], 'cost', 10))
    ctx = multiprocessing.get_context('fork')
    if _work:
        end = time.time() + BUDGET[tier]
        pool = ctx.Pool(min(8, len(_work)), maxtasksperchild=1)
        jobs = [pool.apply_async(_one, (k,)) for k in range(len(_work))]
        for k, j in enumerate(jobs):
            try: results.append(j.get(max(0.05, end - time.time())))
            except multiprocessing.TimeoutError: results.append(_none(k, 'time limit of the check reached'))
            except Exception as e: results.append(_none(k, 'worker failed: %s' % e))
        pool.terminate()
    return results, errors


def summarize(prop, results):
    obl = disch = 0
    per, failed, back = [], [], {}
    for r in results:
        mine = [o for o in r['obls'] if prop in o['props']]
        bk = {}
        for o in mine:
            obl += 1
            if o['status'] != 'proved': failed.append((r, o))
            else: disch += 1
            for b, c in o['backend'].items():
                bk[b] = bk.get(b, 0) + c
                back[b] = back.get(b, 0) + c
        per.append(dict(function=r['fn'] + (' ' + r['label'] if r['label'] else ''), source=r['tu'], obligations=len(mine), instances=sum(o['n'] for o in mine), backends=bk,
                        solver_s=r['solver'], wall_s=round(r['time'], 1), exits_reached=r['exits'], inlined_bodies=r['inlined'],
                        covers={k: bool(v) for k, v in r['covers'].items()}, **({'not_decided': r['unsupported']} if r['unsupported'] else {})))
    return obl, disch, failed, per, back

GENERAL = [
    'the IR is what clang 18 makes of the source at -O0 with exceptions off, assertions on, then mem2reg; the shipped build is compiled at another level from the same source',
    'the verification-condition generator of /verif/irv and the SMT solvers z3 and cvc5 are trusted; it models LLVM integers as mathematical integers with their width enforced at every operation',
    'memory allocation by operator new does not fail and no exception passes through the functions under contract',
    'no other thread changes the objects during the call',
]

def known(prop):
    out = []
    p = os.path.join(VERIF, 'known_findings.txt')
    for l in open(p) if os.path.exists(p) else ():
        l = l.strip()
        if l.startswith('finding: property=%s ' % prop): out.append(l[len('finding: '):])
    return out

def main(argv):
    import signal
    t0 = time.time()
    if len(argv) < 1: print('usage: check.py PROPERTY [quick|thorough]'); return 2
    prop = argv[0]
    tier = argv[1] if len(argv) > 1 else os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'): tier = 'quick'
    try: seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError: seed = 1
    wd = tempfile.mkdtemp(prefix='verif-%s-' % prop)
    try: return run(prop, tier, seed, wd, t0)
    finally: shutil.rmtree(wd, ignore_errors=True)

def run(prop, tier, seed, wd, t0):
    from .drivers import Drivers
    dr = Drivers(prop, wd)
    dr.start()
    results, errors = verify(prop, wd, tier)
    t1 = time.time()
    obl, disch, failed, per, back = summarize(prop, results)
    undecided = [(r['fn'] + ' ' + r['label'], r['unsupported']) for r in results if r['unsupported']]
    missing = ['no obligation was generated for %s %s' % (r['fn'], r['label']) for r in results if not r['unsupported'] and not any(prop in o['props'] for o in r['obls']) and prop != 'C17']
    vac = [(r['fn'], c) for r in results if not r['unsupported'] for c in r['want'] if not r['covers'].get(c)]
    open_ = bool(failed or undecided or errors or missing or vac or not obl)
    texts = [o['detail'] for r, o in failed]
    if open_: secs = 100 if tier == 'quick' else 150
    else: secs = 8 if tier == 'quick' else 120
    left = 880 - (time.time() - t0)
    secs = max(5, min(secs, left - 60))
    st, viol = dr.run(secs, seed, texts)
    for r in per: print('  %-90s %4d obligations  %6.1fs  %s' % (r['function'][:90], r['obligations'], r['wall_s'], r.get('not_decided', '')))
    print('%s: %d obligations, %d discharged; %d of %d functions fully explored; concrete cases: %d' % (prop, obl, disch, len(results) - len(undecided), len(results), st['evaluations']))
    for e in errors + dr.errors: print('  note: ' + e[:300])
    for f, u in undecided: print('  not decided: %s: %s' % (f, u))
    for f, c in vac: print('  contract case not reached: %s: %s' % (f, c))
    for r, o in failed: print('  FAILED [%s] %s' % (o['status'], o['name']))
    rc = 0
    if viol or failed:
        os.makedirs(os.path.join(VERIF, 'replays'), exist_ok=True)
        path = os.path.join(VERIF, 'replays', '%s.json' % prop)
        with open(path, 'w') as f:
            json.dump(dict(property=prop, failing_input=viol, failed_obligations=[dict(function=r['fn'], case=r['label'], obligation=o['name'], status=o['status'], verifier=o['detail']) for r, o in failed],
                           not_decided=undecided, search=st), f, indent=1)
        if viol:
            print('  %s' % viol['what'][:1500]); print('  input: %s' % viol['input'][:1500])
            print('VIOLATION property=%s replay=%s' % (prop, path))
        else:
            print('VIOLATION property=%s replay=%s no-failing-input-found' % (prop, path))
        rc = 1
    else:
        for k in known(prop): print('KNOWN-FINDING: ' + k)
    trusted = sorted({a for r in results for a in r['assumed']})
    bounded = [dict(function=f, why=u, stand_in='bounded: %d concrete cases in %s s' % (st['evaluations'], st.get('seconds'))) for f, u in undecided]
    ev = dict(property=prop, tier=tier, seed=seed, level='proof',
              coverage=dict(obligations=obl, discharged=disch, checker_cmd='python3-vt check.py %s %s' % (prop, tier),
                            trusted_base=['contract of ' + a for a in trusted] + GENERAL,
                            obligation_instances_by_back_end=back, solver_s=round(sum(r['solver'] for r in results), 1), proof_wall_s=round(t1 - t0, 1),
                            functions_under_contract=per, bounded_stand_ins=bounded,
                            loops=sorted({l for r in results for l in r['loops']})[:60],
                            vacuity=dict(cases_required=sum(len(r['want']) for r in results), reached=sum(len(r['want']) for r in results) - len(vac)),
                            concrete_cross_check=dict(evaluations=st['evaluations'], distinct=st['distinct_nontrivial'], seconds=st.get('seconds'), per_driver=st['per_driver'], samples=st.get('samples', [])),
                            problems=(errors + dr.errors + missing + ['contract case not reached: %s: %s' % v for v in vac])[:40]),
              assumptions=GENERAL + ['library contracts assumed, not proved: %d (listed in trusted_base)' % len(trusted)],
              wall_s=round(time.time() - t0, 1), violations=rc)
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', '%s.json' % prop), 'w') as f: json.dump(ev, f, indent=1)
    return rc
