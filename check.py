#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough]: decide one property by symbolic execution of /repo's code.
check.py --replay FILE: run a recorded counterexample against the real code."""
import argparse, glob, json, os, shutil, subprocess, sys, tempfile, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)) + '/lib')
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build
from checks import CHECKS

VERIF = build.VERIF
T0 = time.time()


def log(*a):
    print('[%6.1fs]' % (time.time() - T0), *a, flush=True)


def known_findings(prop):
    """known_findings.txt: lines 'open: property=P id=ID what fails'; 'fixed:' lines suppress nothing."""
    out = {}
    p = VERIF + '/known_findings.txt'
    if os.path.exists(p):
        for l in open(p):
            f = l.strip().split(' ', 3)
            if f[0] == 'open:' and f[1] == 'property=' + prop:
                out[f[2].split('=')[1]] = dict(what=f[3])
    return out


def replay_native(exe, work, rec, tag):
    """Runs one assignment against the natively compiled real code. Returns (returncode, output, notes)."""
    f = '%s/vals-%s.txt' % (work, tag)
    with open(f, 'w') as o:
        for n, b, v in rec['vars']:
            o.write('%s %d %d\n' % (n, b, v))
    d = tempfile.mkdtemp(dir=work)
    env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=96:allocator_may_return_null=0')
    try:
        p = subprocess.run([exe, f, rec.get('arg', '')], cwd=d, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=90)
        rc, out, err = p.returncode, p.stdout.decode('latin1'), p.stderr.decode('latin1')
    except subprocess.TimeoutExpired:
        rc, out, err = 142, '', 'timeout'
    shutil.rmtree(d, ignore_errors=True)
    notes = []
    for l in out.splitlines():
        f = l.split(' ')
        if f[0] == 'NOTE':
            notes.append([f[1], f[2] if len(f) > 2 else ''])
    return rc, out, err, notes


def describe(rec):
    d = {}
    names = {}
    for n, b, v in rec['vars']:
        base = n.split('[')[0]
        if '[' in n and b == 8:
            names.setdefault(base, {})[int(n.split('[')[1].rstrip(']'))] = v
        else:
            d[n] = v
    for k, m in names.items():
        d[k] = ''.join(chr(m.get(i, 0)) for i in range(max(m) + 1))
    return d


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop', nargs='?')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--replay')
    ap.add_argument('--only', help='development: run only the harness arguments containing this text')
    ap.add_argument('--keep', help='development: keep build and runs in this directory')
    ap.add_argument('--no-native', action='store_true', help='development: skip native trace validation')
    a = ap.parse_args()
    if a.replay:
        rec = json.load(open(a.replay))
        a.prop = rec['property']
    cfg = CHECKS[a.prop]
    seed = int(os.environ.get('VERIF_SEED', '1'))
    work = a.keep or tempfile.mkdtemp(prefix='sx-%s-' % a.prop)
    try:
        return replay_cmd(a, cfg, work, rec) if a.replay else check(a, cfg, work, seed)
    finally:
        if not a.keep:
            shutil.rmtree(work, ignore_errors=True)


def harness_groups(cfg, tier, only):
    """runs grouped by (harness, units)"""
    runs = []
    for r in cfg['runs']:
        r = dict(r)
        if tier == 'thorough':
            r.update(r.get('thorough', {}))
        elif r.get('thorough_only'):
            continue
        if only and only not in r['arg']:
            continue
        runs.append(r)
    return runs


def replay_cmd(a, cfg, work, rec):
    b = build.Builder(work)
    exe = b.native(VERIF + '/harness/' + rec['harness'], rec['units'], work + '/native', True)
    rc, out, err, _ = replay_native(exe, work, rec, 'r')
    print(out)
    print(err[-3000:])
    print('exit', rc)
    return 0 if rc == 0 else 1


def check(a, cfg, work, seed):
    prop, tier = a.prop, a.tier
    b = build.Builder(work)
    runs = harness_groups(cfg, tier, a.only)
    b.gen()
    linkers = [b.engine()]
    order = lambda u: -build.SLOW.get(u, 0)
    harnesses = {}
    for r in runs:
        h = r.get('harness', cfg.get('harness'))
        u = tuple(r.get('units', cfg.get('units')))
        harnesses.setdefault((h, u), []).append(r)
    units = sorted({u for (_, us) in harnesses for u in us} | {'rt', 'grammar'}, key=order)
    futs = {u: b.pool.submit(b.unit, u) for u in units}
    hf = {h: b.pool.submit(b.unit, 'H-' + h.replace('.cpp', ''), VERIF + '/harness/' + h, ()) for (h, _) in harnesses}
    natf = {}
    natpool = build.ThreadPoolExecutor(max_workers=4)
    bcs = {u: f.result() for u, f in futs.items()}
    hbcs = {h: f.result() for h, f in hf.items()}
    symx = linkers[0]()
    progs = {}
    for k, (h, u) in enumerate(harnesses):
        progs[(h, u)] = b.pool.submit(b.link, '%s/prog%d.bc' % (work, k), [hbcs[h], bcs['rt'], bcs['grammar'], *[bcs[x] for x in u]])
    progs = {k: f.result() for k, f in progs.items()}
    log('built', {k: v for k, v in b.times.items() if v > 2})
    if not a.no_native:
        for (h, u) in harnesses:
            natf[(h, u)] = natpool.submit(b.native, VERIF + '/harness/' + h, u, '%s/native-%d' % (work, len(natf)), False)
    # ---- explore ----
    budget = cfg.get('budget', {}).get(tier, 60 if tier == 'quick' else 600)
    ncpu = os.cpu_count() or 8
    todo = [(k, r) for k, rs in harnesses.items() for r in rs]
    results = []
    par = min(len(todo), cfg.get('parallel', 4))
    jobs = ncpu
    tstart = time.time()

    def explore(i, k, r):
        rd = '%s/run%d' % (work, i)
        shutil.rmtree(rd, ignore_errors=True)
        left = max(5, budget - (time.time() - tstart)) if tier == 'quick' else r.get('time', budget)
        cmd = [symx, '-run', rd, '-time', str(min(left, r.get('time', 1e9))), '-jobs', str(r.get('jobs', jobs)), '-arg', r['arg'], '-z3ms', str(r.get('z3ms', 10000)), '-maxinstr', str(r.get('maxinstr', 200000000)), progs[k]]
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        try:
            res = json.load(open(rd + '/result.json'))
        except Exception:
            res = None
        log(r['arg'], p.stdout.strip()[-1500:])
        viol = [json.load(open(f)) for f in sorted(glob.glob(rd + '/viol-*.json'))]
        samp = [json.load(open(f)) for f in sorted(glob.glob(rd + '/sample-*.json'), key=lambda f: int(f.split('-')[-1][:-5]))]
        return dict(k=k, r=r, res=res, viol=viol, samples=samp, out=p.stdout)

    with build.ThreadPoolExecutor(max_workers=par) as ex:
        results = list(ex.map(lambda t: explore(t[0], *t[1]), enumerate(todo)))
    # ---- verdict ----
    known = known_findings(prop)
    violations, unconfirmed, seen_known, problems = [], [], {}, []
    traces, mismatch, natviol = 0, [], []
    for x in results:
        x['asan'] = None
        if x['res'] is None:
            problems.append('engine failed on %s: %s' % (x['r']['arg'], x['out'][-500:]))
            continue
        if x['res']['engine_errors']:
            problems.append('%d paths abandoned in %s: %s' % (x['res']['engine_errors'], x['r']['arg'], x['res']['engine_error']))
        h, u = x['k']
        if not a.no_native:
            exe = natf[x['k']].result()
            tl = time.time()
            limit = cfg.get('traces', 24 if tier == 'quick' else 40)
            for j, s in enumerate(x['samples'][:limit]):
                if time.time() - tl > 20:
                    break
                s['arg'] = x['r']['arg']
                rc, out, err, notes = replay_native(exe, work, s, 's')
                traces += 1
                want = [[n, t.encode('latin1').hex()] for n, t in s['notes']]
                if rc == 99:
                    natviol.append((x, dict(s, kind='check', msg=out.split('CHECK-FAILED ')[-1].split('\n')[0], where='(native run of an explored path)')))
                elif rc != 0 or notes != want:
                    mismatch.append(dict(arg=s['arg'], inputs=describe(s), rc=rc, native=notes[:20], engine=want[:20]))
        for v in x['viol']:
            v['arg'] = x['r']['arg']
        for v in sorted(x['viol'], key=lambda v: v['msg']):
            sanit = v['kind'] != 'check'
            exe = b.native(VERIF + '/harness/' + h, u, '%s/native-%s-%d' % (work, results.index(x), sanit), sanit)
            rc, out, err, _ = replay_native(exe, work, v, 'v')
            ok = (rc == 99 and ('CHECK-FAILED ' + v['msg']) in out) if v['kind'] == 'check' else rc not in (0, 98, 99)
            if v['kind'] == 'check' and not ok and rc not in (0, 98):
                ok = rc == 99 or rc < 0 or rc in (96, 97)
            item = (x, v, rc, out[-300:], err[-1500:])
            if not ok:
                unconfirmed.append(item)
            elif v['msg'].startswith('KNOWN:') and v['msg'][6:].split(' ')[0] in known:
                seen_known[v['msg'][6:].split(' ')[0]] = v
            else:
                violations.append(item)
    for x, v in natviol:
        kid = v['msg'][6:].split(' ')[0] if v['msg'].startswith('KNOWN:') else None
        if kid in known:
            seen_known[kid] = v
        elif not any(y[1]['msg'] == v['msg'] for y in violations):
            violations.append((x, v, 99, '', ''))
    covers = {}
    for x in results:
        for c, n in (x['res'] or {}).get('cover', {}).items():
            covers[c] = covers.get(c, 0) + n
    missing = [c for r in runs for c in r.get('covers', []) if c not in covers] + ([c for c in cfg.get('covers', []) if c not in covers] if not a.only else [])
    truncated = [x['r']['arg'] for x in results if x['res'] and (x['res']['truncated'] or x['res']['unknown'])]
    write_evidence(prop, tier, seed, cfg, results, covers, violations, unconfirmed, seen_known, problems, truncated, traces, mismatch, missing, b, work)
    rdir = VERIF + '/evidence/replays'
    os.makedirs(rdir, exist_ok=True)
    for kid, v in sorted(seen_known.items()):
        print('KNOWN-FINDING: property=%s %s: %s' % (prop, kid, known[kid]['what']))
    for kid in known:
        if kid not in seen_known and not a.only and any(kid in r.get('known', cfg.get('known', known)) for r in runs):
            print('note: known finding %s was not observed in this run' % kid)
    for m in mismatch[:5]:
        print('TRACE-MISMATCH', json.dumps(m)[:1500])
    for x, v, rc, out, err in unconfirmed:
        print('UNCONFIRMED (not reproduced by the real code, exit %s): %s %s at %s inputs %s' % (rc, v['kind'], v['msg'], v['where'][:300], json.dumps(describe(v))[:500]))
    for p in problems:
        print('NOTE', p[:1500])
    if truncated:
        print('NOTE exploration ended before all paths were covered in: ' + ', '.join(truncated))
    if missing:
        print('MISSING coverage witnesses:', missing)
    log('paths %d, traces validated %d' % (sum(x['res']['paths'] for x in results if x['res']), traces))
    if violations:
        done = set()
        for i, (x, v, rc, out, err) in enumerate(violations):
            if v['msg'] in done:
                continue
            done.add(v['msg'])
            path = '%s/%s-%d.json' % (rdir, prop, i)
            json.dump(dict(property=prop, harness=x['k'][0], units=list(x['k'][1]), arg=x['r']['arg'], kind=v['kind'], msg=v['msg'], where=v['where'], inputs=describe(v), vars=v['vars'], notes=v['notes'],
                           native_exit=rc, native_stdout=out, native_stderr=err), open(path, 'w'), indent=1)
            print('  %s: %s; inputs %s' % (v['kind'], v['msg'], json.dumps(describe(v))[:800]))
            print('VIOLATION property=%s replay=%s' % (prop, path))
        return 1
    if missing or any(x['res'] is None for x in results) or mismatch:
        return 2
    if os.environ.get('SX_STRICT') and (problems or truncated or unconfirmed):
        return 3
    return 0


def write_evidence(prop, tier, seed, cfg, results, covers, violations, unconfirmed, seen_known, problems, truncated, traces, mismatch, missing, b, work):
    R = [x['res'] for x in results if x['res']]
    tot = lambda k: sum(r[k] for r in R)
    funcs = sorted({f for r in R for f in r['functions']})
    samples = []
    for x in results:
        for s in x['samples'][:3]:
            samples.append(dict(run=x['r']['arg'], inputs=describe(s), observed={n: t[:200] for n, t in s['notes'][:6]}))
    cov = dict(
        states=tot('paths') + tot('killed'), transitions=tot('branches'), traces_validated_against_impl=traces, samples=samples[:12],
        explanation='Symbolic execution of the LLVM bitcode compiled from /repo: a state is a path (one class of inputs) completed, a transition a branch decided; each path condition and assertion is decided by Z3 for all values of the symbolic inputs on it.',
        paths_completed=tot('paths'), paths_cut_by_assumptions=tot('killed'), assertions_checked=tot('checks'), instructions_executed=tot('instrs'),
        solver_queries=tot('queries'), byte_domain_queries=tot('domain_queries'), sat=tot('sat'), unsat=tot('unsat'), unknown=tot('unknown'), solver_seconds=round(tot('solver_s'), 2),
        exhaustive=not truncated and not problems and not missing, not_exhausted=truncated, abandoned=problems[:5], trace_mismatches=len(mismatch),
        reachability_witnesses=covers, bounds=cfg['bounds'] if isinstance(cfg['bounds'], list) else [cfg['bounds']],
        runs=[dict(arg=x['r']['arg'], what=x['r'].get('what', ''), paths=x['res']['paths'], explore_s=x['res']['explore_s'], solver_s=x['res']['solver_s']) for x in results if x['res']],
        repo_functions_encoded=len(funcs), functions=[f[:100] for f in funcs[:200]], unconfirmed=[dict(msg=v['msg'], where=v['where'][:200]) for _, v, *_ in unconfirmed][:5],
        known_findings_observed=sorted(seen_known))
    ev = dict(property=prop, tier=tier, seed=seed, level=cfg.get('level', 'model_checking'), coverage=cov, assumptions=cfg.get('assumptions', []) + COMMON_ASSUMPTIONS, wall_s=round(time.time() - T0, 1), violations=len(violations))
    os.makedirs(VERIF + '/evidence', exist_ok=True)
    s = json.dumps(ev, indent=1)
    while len(s) > 60000 and cov['functions']:
        cov['functions'] = cov['functions'][:len(cov['functions']) // 2]
        cov['samples'] = cov['samples'][:6]
        s = json.dumps(ev, indent=1)
    open('%s/evidence/%s.json' % (VERIF, prop), 'w').write(s + '\n')


COMMON_ASSUMPTIONS = [
    'clang 18 -O1 bitcode of the sources stands for the compiled library; libstdc++ headers are executed as they are, its out-of-line part, iostreams and std::future are the models in shim/ (sampled paths are replayed natively on every run and must agree)',
    'memory allocation succeeds; exploration uses DFS with every feasible branch taken, nothing outside the stated bounds is claimed',
]

if __name__ == '__main__':
    try:
        sys.exit(main())
    except build.BuildError as e:
        print('BUILD ERROR', e)
        sys.exit(2)
