"""bin/check <property>: decides one property (see DESIGN.md).  bin/check <property> --replay FILE re-runs one case."""
import importlib, json, os, random, shutil, sys, tempfile, time, traceback, glob, collections
import concurrent.futures as cf
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib
from vlib import log, Infra, VERIF


class Ctx:
    pass


def load(prop):
    for f in sorted(glob.glob(VERIF + '/harness/props/%s_*.py' % prop.lower())):
        return importlib.import_module('props.' + os.path.basename(f)[:-3])
    raise SystemExit('no check for ' + prop)


def main():
    prop = sys.argv[1]
    replay = sys.argv[3] if len(sys.argv) > 3 and sys.argv[2] == '--replay' else None
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    mod = load(prop)
    name = mod.__name__.split('.')[1]
    scratch = tempfile.mkdtemp(prefix='vp-%s-' % prop.lower())
    rc = 2
    try:
        rc = decide(mod, name, prop, tier, seed, scratch, replay, t0)
    except Infra as e:
        log('ERROR: ' + str(e))
    except Exception:
        traceback.print_exc()
    finally:
        if os.environ.get('VERIF_KEEP'):
            log('scratch kept: ' + scratch)
        else:
            shutil.rmtree(scratch, ignore_errors=True)
    sys.stdout.flush()
    os._exit(rc)


def decide(mod, name, prop, tier, seed, scratch, replay, t0):
    c = Ctx()
    c.tier, c.seed, c.scratch, c.quick = tier, seed, scratch, tier == 'quick'
    c.rng = random.Random(seed * 1000003 + sum(map(ord, prop)))
    c.build = vlib.Build(scratch)
    c.build.copy()
    pool = cf.ThreadPoolExecutor(4)
    mcjobs = []
    if not replay:
        for spec, cfg, tiers in getattr(mod, 'MC', []):
            if tier in tiers:
                mcjobs.append(pool.submit(vlib.model_check, spec, cfg, scratch, 700, 2 if c.quick else 4))
    if getattr(mod, 'NEED_CORE', True):
        c.build.core()
    log('[%s] tree copied and built (%.1fs)' % (prop, time.time() - t0))
    if hasattr(mod, 'setup'):
        mod.setup(c)
    if replay:
        r = json.load(open(replay))
        groups = {r.get('group', 'main'): [r['case']]}
    else:
        g = mod.gen(c)
        groups = g if isinstance(g, dict) else {'main': g}
    spec_of = getattr(mod, 'SPECS', None) or {'main': (mod.SPEC, mod.CFG)}
    stats = {'generated': 0, 'distinct': 0, 'unexamined': 0}
    total, nontriv, distinct, outcomes = 0, 0, set(), collections.Counter()
    bad, samples, percase = [], [], collections.Counter()
    limit, skipped = t0 + 420 if c.quick else None, 0
    for gname, cases in groups.items():
        if not cases:
            continue
        if bad and (outcomes['hang'] or outcomes['crash'] >= 24):      # broken beyond doubt
            skipped += len(cases)
            continue
        t1 = time.time()
        if hasattr(mod, 'execute') and gname in getattr(mod, 'OWN', ()):
            recs = mod.execute(c, gname, cases)
        else:
            recs = vlib.run_cases(c.build, name, cases, scratch, stall=getattr(mod, 'STALL', 150), tag='w' + gname, deadline=limit)
        left = [r['outcome'] == 'skipped' or (r['outcome'] == 'crash' and r.get('detail') == 'skipped') for r in recs]
        if any(left):
            skipped += sum(left)
            cases, recs = [k for k, s in zip(cases, left) if not s], [r for r, s in zip(recs, left) if not s]
            if not cases:
                continue
        t2 = time.time()
        spec, cfg = spec_of[gname]
        okidx = [i for i, r in enumerate(recs) if r['outcome'] == 'ok']
        ver, st = vlib.validate(spec, cfg, [recs[i] for i in okidx], scratch, tag='t' + gname, heap='3g',
                                timeout=max(60, t0 + 780 - t2) if c.quick else 6000, per_shard=getattr(mod, 'PER_SHARD', 400))
        for k in stats:
            stats[k] += st.get(k, 0)
        vmap = dict(zip(okidx, ver))
        for i, (case, rec) in enumerate(zip(cases, recs)):
            total += 1
            outcomes[rec['outcome']] += 1
            v = vmap.get(i) if rec['outcome'] == 'ok' else (0, '%s: %s %s' % (rec['outcome'], rec.get('detail', ''), rec.get('where', '')))
            if v is not None:
                bad.append((gname, case, rec, v))
            key = json.dumps(case, sort_keys=True)
            if key not in distinct:
                distinct.add(key)
                if rec['outcome'] == 'ok' and mod.nontrivial(case, rec):
                    nontriv += 1
            if hasattr(mod, 'kind'):
                percase[mod.kind(case, rec)] += 1
        samples += [{'group': gname, 'case': cases[j], 'record': trim(recs[j])} for j in sorted({0, len(cases) // 2})][:2]
        log('[%s] %s: %d executions recorded (%.1fs), validated against %s (%.1fs), %d rejected' % (
            prop, gname, len(cases), t2 - t1, spec, time.time() - t2, sum(1 for b in bad if b[0] == gname)))
    mcs = []
    for j in mcjobs:
        m = j.result()
        m.pop('out')
        mcs.append(m)
        log('[%s] model checking %s/%s: %d distinct states, %d transitions (%.1fs)' % (prop, m['spec'], m['cfg'], m['distinct'], m['generated'], m['wall_s']))
    known = vlib.known_findings(prop)
    hit, viol = {}, []
    for gname, case, rec, v in bad:
        k = mod.key(case, rec, v) if hasattr(mod, 'key') else None
        if k is not None and k in known:
            hit.setdefault(k, (case, v))
        else:
            viol.append((gname, case, rec, v))
    for k, (case, v) in hit.items():
        log('KNOWN-FINDING: property=%s %s' % (prop, known[k]))
    if os.environ.get('VERIF_DUMP'):
        json.dump([(g, case, rec, v) for g, case, rec, v in bad], open(os.environ['VERIF_DUMP'], 'w'))
    res = 0
    if viol:
        viol.sort(key=lambda b: len(json.dumps(b[1])))
        for (cl, n) in collections.Counter(b[3][1][:160] for b in viol).most_common(12):
            log('  rejected %d x: %s' % (n, cl))
        os.makedirs(VERIF + '/evidence/replay', exist_ok=True)
        path = 'evidence/replay/%s-%d.json' % (prop, seed)
        g, case, rec, v = viol[0]
        with open(VERIF + '/' + path, 'w') as f:
            json.dump({'property': prop, 'group': g, 'step': v[0], 'clause': v[1], 'case': case, 'record': rec}, f, indent=1)
        log('  first: step %d, clause "%s", case %s' % (v[0], v[1], json.dumps(case)[:1500]))
        if rec.get('tb'):
            log(rec['tb'])
        else:
            log('  record: %s' % json.dumps(rec)[:1500])
        log('VIOLATION property=%s replay=%s' % (prop, path))
        res = 1
    if replay:
        log('replay: %s' % ('violation' if res else 'accepted'))
        return res
    cov = {
        'states': stats['distinct'] + sum(m['distinct'] for m in mcs),
        'transitions': stats['generated'] + sum(m['generated'] for m in mcs),
        'traces_validated_against_impl': outcomes['ok'],
        'distinct_nontrivial': nontriv,
        'rule': getattr(mod, 'RULE', ''),
        'model_checking_runs': mcs, 'outcomes': dict(outcomes), 'left_out': skipped + stats['unexamined'], 'kinds': dict(percase),
        'trace_states': stats['distinct'], 'known_findings_seen': sorted(hit),
        'samples': samples[:6],
    }
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': getattr(mod, 'LEVEL', 'model_checking'), 'coverage': cov,
          'assumptions': getattr(mod, 'ASSUMPTIONS', []), 'wall_s': round(time.time() - t0, 1), 'violations': len(viol)}
    os.makedirs(VERIF + '/evidence', exist_ok=True)
    tmp = VERIF + '/evidence/.%s.tmp' % prop
    with open(tmp, 'w') as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, VERIF + '/evidence/%s.json' % prop)
    if skipped:
        log('[%s] %d executions left out' % (prop, skipped))
    if not res and (skipped or stats.get('unexamined', 0)) > total:
        raise Infra('too little examined')
    log('[%s] %s: %d executions, %d distinct non-trivial, %d violations (%.1fs)' % (prop, tier, total, nontriv, len(viol), time.time() - t0))
    return res


def trim(r):
    s = json.dumps(r)
    return r if len(s) < 3000 else s[:3000]


main()
