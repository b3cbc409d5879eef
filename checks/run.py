#!/usr/bin/env python3-vt
"""Decides one property: python3-vt checks/run.py P01   (VERIF_TIER=quick|thorough, VERIF_SEED)
   Replays a stored counterexample: python3-vt checks/run.py --replay evidence/P01-violation-1.json"""
import sys, os, json, time, tempfile, shutil, re, traceback, resource
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from concurrent.futures import ThreadPoolExecutor
import multiprocessing as mp

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
os.environ.setdefault('PYTHONDONTWRITEBYTECODE', '1')
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)
from symex import build, ir
from checks.props import PROPS

EVID = os.path.join(VERIF, 'evidence')


def known_findings():
    out = []
    p = os.path.join(VERIF, 'known-findings.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'known:\s+property=(\S+)\s+case=(\S+)\s+label="([^"]*)"\s*(.*)', l)
            if m:
                out.append(m.groups())
    return out


def write_inputs(path, d):
    with open(path, 'w') as f:
        for n, v in d['inputs'].items():
            if isinstance(v, float):
                f.write('f\t%s\t%s\n' % (n, v.hex()))
            else:
                if v >= 1 << 31:
                    v -= 1 << 32
                f.write('i\t%s\t%d\n' % (n, v))
        for n, v in d['choices'].items():
            f.write('i\t%s\t%d\n' % (n, v))
        for n, a, v in d['ufs']:
            f.write('u\t%s\t%s\n' % (n, ' '.join(float(x).hex() for x in list(a) + [v])))


GRACE = 25      # seconds other cases go on after the first confirmed violation


def run_case(spec, bld, opt_ll, q, tier, seed, deadline, found):
    """child process: symbolic execution of one case"""
    try:
        resource.setrlimit(resource.RLIMIT_AS, (14 << 30, resource.RLIM_INFINITY))
        q.put(('ok', _run_case(spec, bld, opt_ll, tier, seed, deadline, found)))
    except Exception as ex:
        q.put(('error', '%s: %s\n%s' % (type(ex).__name__, ex, traceback.format_exc()[-500:])))


def _run_case(spec, bld, opt_ll, tier, seed, deadline, found):
    from symex.engine import Engine, Opts, Bound, Evaluator
    from symex.backend import RealBackend, FPBackend, Stats
    from symex.expr import E
    t0 = time.time()
    mod = ir.Module(opt_ll)
    o = Opts()
    for k, v in spec.get('opts', {}).items():
        setattr(o, k, v)
    if tier == 'thorough':
        for k, v in spec.get('thorough_opts', {}).items():
            setattr(o, k, v)
    o.deadline = min(deadline, time.time() + spec.get('time', {}).get(tier, 10 ** 6))
    stats = Stats()
    be = (FPBackend if o.mode == 'ieee' else RealBackend)(seed=seed, stats=stats)
    if o.mode == 'real':
        be.pivots = list(getattr(o, 'log_pivots', ()))
    eng = Engine(mod, be, o)
    case = spec['case']
    wd = os.path.join(bld.dir, 'runs-' + case + '-%d' % os.getpid())
    os.makedirs(wd, exist_ok=True)
    cnt = [0]
    known = spec['known']

    def replay(v):
        for md in v['models']:
            cnt[0] += 1
            f = os.path.join(wd, 'in%d' % cnt[0])
            write_inputs(f, md)
            r = bld.run_native(case, f)
            hit = None
            for lab, det in r['fails']:
                if lab == v['label']:
                    hit = 'check "%s" fails: %s' % (lab, det)
                    break
            if hit is None and r['fails']:
                hit = 'check "%s" fails: %s' % r['fails'][0]
                v['label'] = r['fails'][0][0]
            if hit is None and r['rc'] == 99 and r['assume']:
                e = [l for l in r['err'].splitlines() if 'ERROR' in l or 'runtime error' in l]
                hit = 'sanitizer: ' + (e[0] if e else r['err'][:300])
            elif hit is None and isinstance(r['rc'], int) and r['rc'] not in (0, 99):
                hit = 'process died with status %s: %s' % (r['rc'], r['err'][-200:])
            elif hit is None and r['rc'] == 'timeout':
                hit = 'does not terminate within 60 s'
            if hit:
                if v['label'] not in known and not found.value:
                    found.value = time.time()
                res = {'input': md, 'what': hit}
                json.dump({'label': v['label'], 'what': hit, 'input': jsonable(md)}, open(os.path.join(wd, 'confirmed.json'), 'w'))
                return res
        return None
    eng.on_violation = replay
    eng.stop = lambda: found.value and time.time() > found.value + GRACE
    st = eng.initial()
    st = eng.run_ctors(st)
    csteps = eng.steps
    eng.functions = set()
    eng.labels = {}
    bound = None
    done = []
    try:
        eng.push(st, '@' + case, [], None)
        # exploration keeps finished states for trace validation
        work = [st]
        from symex.engine import PathEnd
        while work:
            s = work.pop()
            try:
                eng.run_state(s, 0, work)
                done.append(s)
            except PathEnd:
                pass
            eng.paths += 1
            if eng.paths > o.max_paths:
                raise Bound('path bound %d' % o.max_paths)
            if o.stop_on_violation and eng.viol:
                break
    except Bound as b:
        bound = str(b)
    # --- trace validation: solver witnesses of explored paths executed by the compiled code
    val = mism = vskip = 0
    samples = []
    sel = done
    nmax = spec.get('validate', 3)
    if len(sel) > nmax:
        step = len(sel) / nmax
        sel = [done[int(i * step)] for i in range(nmax)]
    for s in sel:
        if s.ufs and not spec.get('validate_uf'):
            pass
        if time.time() > deadline - 20:
            break
        stt = eng.refuted(list(s.pc)) if o.icp else None
        if stt == 'sat':
            m = dict(eng.point)
        elif not o.icp:
            stt, m = be.check(list(s.pc), 10.0)
        if stt != 'sat':
            vskip += 1
            continue
        md = eng.concretize(s, m)
        cnt[0] += 1
        f = os.path.join(wd, 'val%d' % cnt[0])
        write_inputs(f, md)
        r = bld.run_native(case, f)
        if not r['assume']:
            vskip += 1
            continue
        if r['fails'] or r['rc'] != 0:
            what = ('check "%s" fails: %s' % r['fails'][0]) if r['fails'] else 'native run failed: %s %s' % (r['rc'], r['err'][-300:])
            lab = r['fails'][0][0] if r['fails'] else 'native run'
            eng.viol.append({'label': lab, 'kind': 'property', 'models': [md], 'replay': {'input': md, 'what': what}})
            continue
        ev = Evaluator(dict(m, **{n: v for n, v in md['inputs'].items()}))
        bad = None
        nob = {n: v for n, v in r['obs']}
        for n, e in s.obs:
            try:
                x = ev.val(e)
            except Exception:
                continue
            y = nob.get(n)
            if y is None:
                bad = (n, x, y)
            elif x == x and y == y and abs(x - y) > 1e-6 * max(abs(x), abs(y)) + 1e-9:
                bad = (n, x, y)
        if bad:
            mism += 1
            samples.append({'mismatch': [str(z) for z in bad], 'inputs': {k: repr(v) for k, v in list(md['inputs'].items())[:12]}})
        else:
            val += 1
            if len(samples) < 3:
                samples.append({'case': case, 'inputs': {k: repr(v) for k, v in list(md['inputs'].items())[:12]}, 'choices': md['choices'],
                                'checks_passed_natively': sum(len(x) for x in r['checks'].values())})
    viol = []
    for v in eng.viol:
        viol.append({'label': v['label'], 'kind': v['kind'], 'replay': v['replay']})
    return {'case': case, 'viol': viol, 'inconclusive': [(a, b) for a, b, c in eng.inconclusive], 'labels': eng.labels,
            'paths': eng.paths, 'forks': eng.forks, 'steps': eng.steps - csteps, 'functions': sorted(eng.functions), 'bound': bound,
            'stats': {k: getattr(stats, k) for k in ('queries', 'sat', 'unsat', 'unknown', 'time', 'max_time', 'by', 'refined')}, 'boxed': eng.boxed, 'merged': eng.merged,
            'validated': val, 'mismatch': mism, 'vskip': vskip, 'samples': samples, 'wall': time.time() - t0,
            'undef_reads': eng.undef_reads, 'finished': len(done), 'unknown_feas': eng.unknown_feas, 'normalised': eng.normalised, 'cut': eng.cut}


def demangle(names):
    import subprocess
    try:
        r = subprocess.run(['c++filt'], input='\n'.join(n[1:] for n in names), capture_output=True, text=True)
        return r.stdout.split('\n')
    except Exception:
        return names


def main():
    if sys.argv[1] == '--replay':
        return replay_file(sys.argv[2])
    pid = sys.argv[1]
    only = sys.argv[2:] 
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '0') or 0)
    prop = PROPS[pid]
    t0 = time.time()
    budget = prop.get('budget', {}).get(tier, 780 if tier == 'thorough' else 600)
    deadline = t0 + budget
    os.makedirs(EVID, exist_ok=True)
    for f in os.listdir(EVID):
        if f.startswith(pid + '-violation-'):
            os.remove(os.path.join(EVID, f))
    work = tempfile.mkdtemp(prefix='verif-%s-' % pid)
    rc = 2
    try:
        rc = decide(pid, prop, tier, seed, t0, deadline, work, only)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    return rc


def decide(pid, prop, tier, seed, t0, deadline, work, only):
    known = [k for k in known_findings() if k[0] == pid]
    cases = [dict(c) for c in prop['cases'] if tier == 'thorough' or not c.get('thorough_only')]
    if only:
        cases = [c for c in cases if c['case'] in only]
    builds = {}
    for c in cases:
        defs = tuple(c.get('defines', ()))
        if tier == 'thorough':
            defs = tuple(c.get('thorough_defines', defs))
        c['defines'] = defs
        c['known'] = [(k[2]) for k in known if k[1] == c['case']]
        key = (c.get('harness', prop.get('harness')), defs, tuple(c.get('config', build.DEFAULT_CONFIG)))
        c['key'] = key
        b = builds.setdefault(key, {'cases': []})
        b['cases'].append(c['case'])
    errors = []
    try:
        def mkb(k):
            b = build.Build(work, k[0], k[1], k[2])
            ll = b.ir(builds[k]['cases'])
            b.native()
            return b, ll
        with ThreadPoolExecutor(3) as ex:
            for k, (b, ll) in zip(builds, ex.map(mkb, builds)):
                builds[k]['b'], builds[k]['ll'] = b, ll
    except build.BuildError as e:
        print('BUILD-ERROR', e)
        return 2
    tbuild = time.time() - t0
    # --- run cases in parallel child processes
    ctx = mp.get_context('fork')
    pending = sorted(cases, key=lambda c: -c.get('weight', 1))
    running = []
    results = {}
    found = ctx.Value('d', 0.0)
    nproc = int(os.environ.get('VERIF_JOBS', '6'))
    while pending or running:
        if found.value and time.time() > found.value + 5:
            for c in pending:
                results[c['case'] + '|' + '/'.join(c['defines']) + '|' + ','.join(c['key'][2])] = (c, ('timeout', ''))
            pending = []
        while pending and len(running) < nproc:
            c = pending.pop(0)
            q = ctx.Queue()
            b = builds[c['key']]
            p = ctx.Process(target=run_case, args=(c, b['b'], b['ll'], q, tier, seed, deadline, found))
            p.start()
            running.append((c, p, q))
        nxt = []
        for c, p, q in running:
            r = None
            try:
                r = q.get(timeout=0.05)
            except Exception:
                if not p.is_alive():
                    try:
                        r = q.get(timeout=1)
                    except Exception:
                        r = ('error', 'case process died (exit %s)' % p.exitcode)
                elif time.time() > deadline + 45 or (found.value and time.time() > found.value + 3 * GRACE):
                    p.kill()
                    r = ('timeout', 'killed at the time budget')
            if r is None:
                nxt.append((c, p, q))
            else:
                p.join(5)
                if p.is_alive():
                    p.kill()
                results[c['case'] + '|' + '/'.join(c['defines']) + '|' + ','.join(c['key'][2])] = (c, r)
        running = nxt
    # --- verdict
    nv = 0
    out_viol = []
    incon = []
    reached = set()
    agg = {'refined': 0, 'queries': 0, 'sat': 0, 'unsat': 0, 'unknown': 0, 'time': 0.0, 'max_time': 0.0, 'by': {}}
    tot = {'paths': 0, 'forks': 0, 'steps': 0, 'validated': 0, 'mismatch': 0, 'merged': 0, 'vskip': 0, 'boxed': 0}
    funcs = set()
    samples = []
    percase = []
    notes = []
    for k in sorted(results):
        c, (status, r) = results[k]
        if status == 'error':
            errors.append('%s: %s' % (c['case'], r))
            continue
        if status == 'timeout':
            incon.append((c['case'], '', 'killed at the time budget'))
            percase.append({'case': c['case'], 'status': 'time budget exhausted'})
            bd = builds[c['key']]['b'].dir
            for d in sorted(os.listdir(bd)):
                f = os.path.join(bd, d, 'confirmed.json')
                if d.startswith('runs-' + c['case'] + '-') and os.path.exists(f):
                    v = json.load(open(f))
                    if not any(x[1] == c['case'] and x[2] == v['label'] for x in known):
                        nv += 1
                        path = os.path.join(EVID, '%s-violation-%d.json' % (pid, nv))
                        json.dump({'property': pid, 'harness': c['key'][0], 'case': c['case'], 'defines': list(c['defines']), 'config': list(c['key'][2]),
                                   'label': v['label'], 'what': v['what'], 'input': v['input']}, open(path, 'w'), indent=1)
                        out_viol.append((v['label'], v['what'], path, c['case']))
            continue
        for kk in ('queries', 'sat', 'unsat', 'unknown', 'time', 'refined'):
            agg[kk] += r['stats'][kk]
        agg['max_time'] = max(agg['max_time'], r['stats']['max_time'])
        for n, v in r['stats']['by'].items():
            agg['by'][n] = agg['by'].get(n, 0) + v
        for kk in tot:
            tot[kk] += r[kk]
        funcs |= set(r['functions'])
        samples += r['samples']
        for l, e in r['labels'].items():
            if e['kind'] == 'property' and e['checks']:
                reached.add(l)
        for l, why in r['inconclusive']:
            incon.append((c['case'], l, why))
        if r['bound']:
            incon.append((c['case'], '', 'bound reached: ' + r['bound']))
        percase.append({'case': c['case'], 'defines': list(c['defines']), 'paths': r['paths'], 'forks': r['forks'], 'instructions': r['steps'],
                        'queries': r['stats']['queries'], 'solver_s': round(r['stats']['time'], 2), 'wall_s': round(r['wall'], 1),
                        'bound': r['bound'], 'assertions': {l: {x: e[x] for x in ('checks', 'unsat', 'sat', 'unknown', 'trivial')} for l, e in r['labels'].items()},
                        'validated': r['validated'], 'mismatch': r['mismatch'], 'uninitialised_reads': r['undef_reads'], 'identities_normalised': r.get('normalised', 0), 'paths_cut_at_loop_bound': r.get('cut', 0)})
        for v in r['viol']:
            ident = (pid, c['case'], v['label'])
            kf = [x for x in known if x[1] == c['case'] and x[2] == v['label']]
            if kf:
                notes.append('KNOWN-FINDING: property=%s %s' % (pid, kf[0][3] or v['label']))
                continue
            if any(x[0] == v['label'] and x[3] == c['case'] for x in out_viol):
                continue
            nv += 1
            path = os.path.join(EVID, '%s-violation-%d.json' % (pid, nv))
            json.dump({'property': pid, 'harness': c['key'][0], 'case': c['case'], 'defines': list(c['defines']), 'config': list(c['key'][2]),
                       'label': v['label'], 'what': v['replay']['what'], 'input': jsonable(v['replay']['input'])}, open(path, 'w'), indent=1)
            out_viol.append((v['label'], v['replay']['what'], path, c['case']))
    # vacuity: every label written in the harness files of this property must have been evaluated
    want = set()
    for c in cases:
        src = open(os.path.join(VERIF, 'harness', c['key'][0])).read()
        want |= case_labels(src, c['case'])
    if not only:
        missing = sorted(want - reached)
        complete = not errors and not any('budget' in x[2] or 'bound' in x[2] for x in incon)
        if missing and complete and not nv:
            errors.append('assertions never reached: ' + ', '.join(missing))
    for n in sorted(set(notes)):
        print(n)
    dn = demangle(sorted(funcs))
    repo_funcs = [n for n in dn if n.startswith(('catima', 'integrators', 'abundance')) or (n and '(' in n and not n.startswith(('std::', '__gnu', 'void std::', 'case_', 'void __gnu', 'decltype', 'bool std', 'bool __gnu'))
                                                                                          and 'std::' not in n.split('(')[0])]
    nlab = sum(e['checks'] for p in percase for e in p.get('assertions', {}).values())
    cov = {'states': max(1, tot['forks'] + tot['paths']), 'transitions': tot['steps'], 'traces_validated_against_impl': tot['validated'],
           'samples': samples[:6] or [{'case': c['case']} for c in cases[:1]],
           'paths': tot['paths'], 'functions_encoded': repo_funcs[:80], 'n_functions_encoded': len(dn),
           'bounds': prop.get('bounds', ''), 'queries': agg['queries'], 'queries_unsat': agg['unsat'], 'queries_sat': agg['sat'], 'queries_unknown': agg['unknown'],
           'libm_refinements': agg['refined'], 'solver_s': round(agg['time'], 2), 'slowest_query_s': round(agg['max_time'], 2), 'solvers': agg['by'],
           'assertions_evaluated': nlab, 'trace_mismatches': tot['mismatch'], 'merged_paths': tot['merged'], 'interval_boxes': tot['boxed'],
           'inconclusive': [list(x) for x in incon][:40], 'n_inconclusive': len(incon), 'cases': percase, 'build_s': round(tbuild, 1)}
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': prop.get('level', 'model_checking'), 'coverage': cov,
          'assumptions': prop.get('assumptions', []), 'wall_s': round(time.time() - t0, 2), 'violations': nv}
    tmp = os.path.join(EVID, pid + '.json.tmp')
    json.dump(ev, open(tmp, 'w'), indent=1)
    os.replace(tmp, os.path.join(EVID, pid + '.json'))
    print('%s %s: %d cases, %d paths, %d instructions, %d assertions evaluated, %d queries (%d unsat, %d unknown), solver %.1f s, %d traces validated, %d mismatched, wall %.1f s'
          % (pid, tier, len(cases), tot['paths'], tot['steps'], nlab, agg['queries'], agg['unsat'], agg['unknown'], agg['time'], tot['validated'], tot['mismatch'], time.time() - t0))
    for x in incon[:20]:
        print('INCONCLUSIVE', *x)
    for lab, what, path, case in out_viol:
        print('  %s [%s]: %s' % (lab, case, what))
        print('VIOLATION property=%s replay=%s' % (pid, path))
    if nv:
        return 1
    if errors:
        for e in errors:
            print('ERROR', e)
        return 2
    return 0


def case_labels(src, case):
    """labels of vs_check/vs_close/vs_ident in the body of one case (helper functions excluded)"""
    m = re.search(r'VS_CASE\(%s\)\s*\{' % re.escape(case), src)
    if not m:
        return set()
    i = m.end()
    d = 1
    j = i
    while d and j < len(src):
        if src[j] == '{':
            d += 1
        elif src[j] == '}':
            d -= 1
        j += 1
    return set(re.findall(r'vs_(?:check|close|ident)\s*\((?:[^;]*?),\s*"([^"]*)"\s*\)\s*;', src[i:j], re.S))


def jsonable(d):
    return {'inputs': {k: (v.hex() if isinstance(v, float) else v) for k, v in d['inputs'].items()}, 'choices': d['choices'],
            'ufs': [[n, [float(x).hex() for x in a], float(v).hex()] for n, a, v in d['ufs']],
            'readable': {k: repr(v) for k, v in d['inputs'].items()}}


def replay_file(path):
    d = json.load(open(path))
    work = tempfile.mkdtemp(prefix='verif-replay-')
    try:
        b = build.Build(work, d['harness'], d['defines'], d['config'])
        x = d['input']
        inp = {'inputs': {k: (float.fromhex(v) if isinstance(v, str) else v) for k, v in x['inputs'].items()}, 'choices': x['choices'],
               'ufs': [(n, [float.fromhex(y) for y in a], float.fromhex(v)) for n, a, v in x['ufs']]}
        f = os.path.join(work, 'in')
        write_inputs(f, inp)
        r = b.run_native(d['case'], f)
        print(json.dumps({'fails': r['fails'], 'rc': r['rc'], 'err': r['err'][-800:]}, indent=1))
        return 1 if r['fails'] or r['rc'] != 0 else 0
    finally:
        shutil.rmtree(work, ignore_errors=True)


if __name__ == '__main__':
    sys.exit(main())
