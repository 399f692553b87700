#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough]
Discharges every contract obligation of one property from /repo's current
source.  Exit 0: all discharged.  Exit 1: VIOLATION line(s)."""
import os, sys, json, time, tempfile, shutil, traceback, re
from concurrent.futures import ProcessPoolExecutor, as_completed
VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(VERIF, 'irvc'), os.path.join(VERIF, 'harness')]
import irvc, native
from irvc import Run, ToolError
from registry import PROPS

def known():
    """open findings: {(property, harness, label): text}"""
    r = {}
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'open: property=(\S+) harness=(\S+) obligation="([^"]*)" (.*)', l)
            if m: r[(m.group(1), m.group(2), m.group(3))] = m.group(4).strip()
    return r

def one(args):
    H, work, tier, seed, kf = args
    w = os.path.join(work, H.name); os.makedirs(w, exist_ok=True)
    t0 = time.time()
    out = dict(name=H.name, file=H.file, error=None, fails=[], obligations=0, discharged=0, replay=None)
    try:
        R = Run(H, w)
        r = R.verify()
        out.update(r)
        out['known'] = [f for f in r['fails'] if f['desc'].replace('ob:', '', 1) in kf]
        out['fails'] = [f for f in r['fails'] if f not in out['known']]
        if r['obligations'] < H.min_obligations: out['error'] = 'only %d obligations generated (expected at least %d)' % (r['obligations'], H.min_obligations)
        elif r['unreached'] and not out['fails']: out['error'] = 'unreachable contract exit(s): ' + '; '.join(r['unreached'])
        if out['fails']:
            hints = []
            for f in out['fails'][:3]:
                try: v = R.trace_inputs(f['prop'])
                except Exception: v = None
                if v: hints.append(v)
            out['hints'] = hints
    except ToolError as e: out['error'] = 'verifier: ' + str(e)[:3000]
    except Exception: out['error'] = 'verifier: ' + traceback.format_exc()[-3000:]
    out['proof_s'] = round(time.time() - t0, 2)
    return out

def native_confirm(H, out, work, tier, seed):
    """search for a concrete failing input on the native code, seeded by the counterexample"""
    if not H.native: return
    secs = H.fuzz_s * (4 if tier == 'thorough' else 1)
    try:
        found, log = native.search(H, os.path.join(work, H.name), out.get('hints') or [], secs, seed)
    except ToolError as e:
        out['native_log'] = [str(e)[:1500]]; return
    out['native_log'] = log
    if found:
        v, lab = found
        if lab.startswith(('abort-reached', 'uncaught')) and not any(('abort' in f['desc'] or f['kind'] != 'ob') for f in out['fails']): return
        out['replay'] = dict(values=v, label=lab)

def main():
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv: tier = sys.argv[sys.argv.index('--tier') + 1]
    if tier not in ('quick', 'thorough'): tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    P = PROPS[prop]
    only = os.environ.get('VC_ONLY')
    hs = [h for h in P['harnesses'] if (tier == 'thorough' or not h.opts.get('thorough_only')) and (not only or re.search(only, h.name))]
    kf = {k[2]: v for k, v in known().items() if k[0] == prop}
    t0 = time.time()
    work = tempfile.mkdtemp(prefix='irvc.%s.' % prop)
    rdir = os.path.join(VERIF, 'replays'); os.makedirs(rdir, exist_ok=True)
    res = {}
    viol = []
    try:
        with ProcessPoolExecutor(max_workers=min(int(os.environ.get('VC_JOBS', '7')), max(1, len(hs)))) as ex:
            fs = {ex.submit(one, (h, work, tier, seed, set(kf))): h for h in hs}
            for f in as_completed(fs):
                h = fs[f]
                try: res[h.name] = f.result()
                except Exception as e: res[h.name] = dict(name=h.name, file=h.file, error='worker: ' + repr(e), fails=[], obligations=0, discharged=0, replay=None)
        fuzz = {}
        for h in hs:
            out = res[h.name]
            if out['fails'] or out['error']:
                budget = 850 - (time.time() - t0)
                if budget > 120 and not viol: native_confirm(h, out, work, tier, seed)
                path = os.path.join(rdir, '%s-%s.json' % (prop, h.name))
                json.dump(dict(property=prop, harness=h.name, file=h.file, entry=h.entry, failed_obligations=out['fails'], error=out['error'],
                    verifier_counterexample_inputs=out.get('hints'), native=out.get('replay'), native_log=out.get('native_log'), unreached=out.get('unreached'),
                    how='python3 /verif/check.py --replay ' + path), open(path, 'w'), indent=1)
                viol.append((path, bool(out.get('replay')), out))
            elif tier == 'thorough' and h.native:
                # run the same contracts on the native build: validates harness and library models
                try:
                    found, log = native.search(h, os.path.join(work, h.name), [], max(10, h.fuzz_s), seed)
                    fuzz[h.name] = log[-1] if log else ''
                    if found and not found[1].startswith(('abort', 'uncaught')):
                        path = os.path.join(rdir, '%s-%s.json' % (prop, h.name))
                        json.dump(dict(property=prop, harness=h.name, file=h.file, entry=h.entry, failed_obligations=[], error='contract fails on the native build', native=dict(values=found[0], label=found[1])), open(path, 'w'), indent=1)
                        viol.append((path, True, dict(out, fails=[dict(desc='native:' + found[1], loc={})])))
                except ToolError as e: fuzz[h.name] = str(e)[:300]
        evidence(prop, P, hs, res, tier, seed, time.time() - t0, viol, fuzz)
    finally:
        if not os.environ.get('VC_KEEP'): shutil.rmtree(work, ignore_errors=True)
        else: print('work', work)
    for h in hs:
        o = res[h.name]
        print('%s %s: %d/%d obligations discharged, %.1fs%s' % (prop, h.name, o['discharged'], o['obligations'], o.get('proof_s', 0), ('  ' + o['error'][:300]) if o['error'] else ''))
        for f in o['fails'][:12]: print('   failed obligation: %s (%s)' % (f['desc'], f.get('loc', {}).get('function', '?')))
        for f in o.get('known', []): print('KNOWN-FINDING: property=%s %s: %s' % (prop, f['desc'], kf[f['desc'].replace('ob:', '', 1)]))
    for path, confirmed, out in viol:
        if confirmed and out.get('replay'): print('   replayed on the native build: %s inputs=%s' % (out['replay']['label'], out['replay']['values'][:40]))
    # confirmed violations first
    viol.sort(key=lambda x: not x[1])
    for path, confirmed, out in viol[:1]:
        print('VIOLATION property=%s replay=%s%s' % (prop, path, '' if confirmed else ' no-failing-input-found'))
    sys.exit(1 if viol else 0)

def evidence(prop, P, hs, res, tier, seed, wall, viol, fuzz):
    proved = [h for h in hs if not h.bounded]
    bounded = [h for h in hs if h.bounded]
    ob = sum(res[h.name]['obligations'] for h in proved); di = sum(res[h.name]['discharged'] for h in proved)
    fns = sorted(set(f for h in hs for f in res[h.name].get('functions', []) if re.search(r'crucible|[Bb]ees', f) and not f.startswith('std::')))
    ext = sorted(set(f for h in hs for f in res[h.name].get('externs', [])))
    cov = dict(obligations=ob, discharged=di,
        checker_cmd='clang-18 -> opt-18 (%s) -> irvc -> cbmc 6.11 --unwinding-assertions (SAT back end: MiniSat/CaDiCaL)' % irvc.PASSES,
        trusted_base=P.get('trusted', []) + COMMON_TRUST,
        functions_under_contract=P.get('contracts', []), functions_verified_bodies=fns,
        solver_s=round(sum(res[h.name].get('solver_s', 0) for h in hs), 2),
        harnesses=[dict(name=h.name, file=h.file, bounded=h.bounded, obligations=res[h.name]['obligations'], discharged=res[h.name]['discharged'], by_kind=res[h.name].get('by_kind'),
            solver_s=res[h.name].get('solver_s'), wall_s=res[h.name].get('proof_s'), houdini_rounds=res[h.name].get('houdini_rounds'), loop_invariants=res[h.name].get('invariants'),
            callees_replaced_by_contract=res[h.name].get('replaced'), error=res[h.name]['error'], failed=[f['desc'] for f in res[h.name]['fails']]) for h in hs],
        bounded_obligations=sum(res[h.name]['obligations'] for h in bounded), unmodelled_externals=ext, native_validation=fuzz)
    ev = dict(property=prop, tier=tier, seed=seed, level=P.get('level', 'proof'), coverage=cov, assumptions=P.get('assumptions', []) + COMMON_ASSUME, wall_s=round(wall, 2), violations=len(viol))
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w'), indent=1)

COMMON_TRUST = ['clang 18 front end and the listed opt-18 passes (the verified text is the LLVM IR of the real source; machine integers and pointers are exact)',
  'irvc translation LLVM IR -> C', 'CBMC 6.11 and its SAT back end', 'libstdc++ headers are verified as compiled code, compiled-only libstdc++ functions (streams, string internals) are unmodelled and have no effect on verified state',
  'text output (ostream, chatter, BeesNote/BeesTracer status text) is dropped by the extraction']
COMMON_ASSUME = ['memory allocation succeeds', 'contracts assumed for system calls and callees listed per harness (vcx_* and replaced callees)', 'threads: each function is verified sequentially; shared state is havocked at lock acquisition where the harness says so']

def replay(path):
    d = json.load(open(path))
    if not d.get('native'): print(json.dumps(d, indent=1)); return
    H = next(h for p in PROPS.values() for h in p['harnesses'] if h.name == d['harness'])
    work = tempfile.mkdtemp(prefix='irvc.replay.')
    try:
        exe = native.build(H, work)
        fn = os.path.join(work, 'in'); open(fn, 'w').write('\n'.join(map(str, d['native']['values'])))
        rc, so, se = irvc.sh([exe, 'replay', fn]); print(so); sys.exit(rc)
    finally: shutil.rmtree(work, ignore_errors=True)

if __name__ == '__main__':
    if sys.argv[1] == '--replay': replay(sys.argv[2])
    else: main()
