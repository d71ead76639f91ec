#!/usr/bin/env python3
"""check.py ID  -- decide one property by symbolic execution of /repo's current code.

Builds the executor and the LLVM IR of /repo + harness crate from the present sources, runs every
harness entry of the property under the executor, replays every solver counterexample natively
against the real code, and rewrites evidence/ID.json.
"""
import concurrent.futures as cf, hashlib, json, os, re, shutil, struct, subprocess, sys, time
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, V)
from props import PROPS

def sh(cmd, **k):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)

def bits2f(h):
    return struct.unpack('<d', struct.pack('<Q', int(h, 16)))[0]

def replay_file(path, v):
    with open(path, 'w') as f:
        for t, h in v['inputs']:
            f.write(f'i {t} {h}\n')
        for t, a, r in v['ufs']:
            f.write(f'f {t} {r} {" ".join(a)}\n')

def replay(rp, entry, path, timeout=30):
    """-> (outcome, lines); outcome in end/fail/panic/assume/hang/other"""
    try:
        p = subprocess.run([rp, entry, path], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
    except subprocess.TimeoutExpired as e:
        return 'hang', (e.stdout or b'').decode(errors='replace').splitlines()
    ls = p.stdout.decode(errors='replace').splitlines()
    ok = False
    for l in ls:
        if l.startswith('panic-ok'):
            ok = l.endswith('1')
    if p.returncode == 1 and any(l.startswith('fail') for l in ls):
        return 'fail', ls
    if p.returncode in (-6, 134, -11, -4, 101):
        ls.append('stderr: ' + p.stderr.decode(errors='replace')[:400].replace('\n', ' | '))
        return ('panic-accepted' if ok else 'panic'), ls
    if p.returncode == 4:
        return 'assume', ls
    if p.returncode == 0 and 'end' in ls:
        return 'end', ls
    return 'other', ls

def reproduces(v, outcome, ls):
    if outcome == 'fail':
        return True
    if outcome == 'panic':
        return True
    if v['kind'] == 'steps' and outcome == 'hang':
        return True
    return False

def perturb(v, rp, entry, base, real):
    """Real-mode models satisfy the path condition exactly; rounding may need a nearby input."""
    if not real:
        return None
    import random
    rnd = random.Random(int(os.environ.get('VERIF_SEED', '1')))
    for k in range(60):
        w = dict(v)
        ni = []
        for t, h in v['inputs']:
            x = bits2f(h)
            if len(h) > 8 and abs(x) < 1e12 and abs(x) > 1e-12:
                s = 10.0 ** rnd.uniform(-13, -2)
                x = x * (1 + rnd.uniform(-1, 1) * s)
                h = '%x' % struct.unpack('<Q', struct.pack('<d', x))[0]
            ni.append([t, h])
        w['inputs'] = ni
        p = f'{base}.p'
        replay_file(p, w)
        o, ls = replay(rp, entry, p)
        if o in ('fail', 'panic'):
            os.replace(p, base)
            return o, ls
    return None

def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    P = PROPS[pid]
    only = os.environ.get('SV_ONLY')
    entries = [e for e in P['entries'] if (tier == 'thorough' or not e.get('thorough_only')) and not (tier == 'thorough' and e.get('quick_only'))]
    if only:
        entries = [e for e in entries if e['name'] in only.split(',')]
    t0 = time.time()
    out = f'{V}/build/{pid}'
    os.makedirs(out, exist_ok=True)
    ev = f'{V}/evidence/{pid}.json'
    os.makedirs(f'{V}/evidence', exist_ok=True)
    if os.path.exists(ev):
        os.unlink(ev)
    names = [e['name'] for e in entries]
    b1 = subprocess.Popen(['bash', f'{V}/engine/build.sh'], stdout=open(f'{out}/engine.log', 'w'), stderr=subprocess.STDOUT)
    if os.environ.get('SV_NOBUILD'):
        r = sh(['true'])
    else:
        r = sh(['bash', f'{V}/build.sh', out, P['features'], ','.join(names)])
    b1.wait()
    if r.returncode or b1.returncode:
        print(r.stdout[-4000:])
        if b1.returncode:
            print(open(f'{out}/engine.log').read()[-3000:])
        print(f'ERROR property={pid}: build failed')
        sys.exit(3)
    build_s = time.time() - t0
    symex = f'{V}/engine/target/release/symex'
    rp = f'{out}/replay'
    vd = f'{out}/replays'
    shutil.rmtree(vd, ignore_errors=True)
    os.makedirs(vd)
    budget = 3000 if tier == 'thorough' else 420

    def run(e):
        o = f'{out}/{e["name"]}.json'
        if os.path.exists(o):
            os.unlink(o)
        a = dict(wall=budget, check_ms=60000)
        a.update(e.get('args', {}))
        if tier == 'quick':
            a['wall'] = int(max(20, min(a['wall'], 700 - (time.time() - t0))))
        if tier == 'thorough':
            a.update(dict(wall=budget))
            a.update(e.get('targs', {}))
        p = sh([symex, f'{out}/t.ll', e['name'], o] + [f'{k}={x}' for k, x in a.items()], timeout=float(a['wall']) * 2 + 300)
        try:
            j = json.load(open(o))
        except Exception:
            return e, None, p.stdout[-2000:]
        return e, j, p.stdout[-2000:]

    rows, err, viol, known_hit = [], [], [], []
    with cf.ThreadPoolExecutor(max_workers=int(os.environ.get('SV_JOBS', '8'))) as ex:
        order = sorted(entries, key=lambda e: -e.get('cost', 1))
        for e, j, log in ex.map(run, order):
            rows.append((e, j, log))
    tot = dict(paths=0, forks=0, steps=0, queries=0, unsat=0, sat=0, unknown=0, solver_s=0.0, checks=0, to_solver=0, poly=0)
    validated = mism = 0
    samples, fnset, ent_ev, undecided = [], {}, [], []
    for e, j, log in rows:
        name = e['name']
        if j is not None:
            print(f"  {name}: {j['mode']} paths {j['paths']}+{j['panic_paths']} queries {j['queries']} solver {j['solver_s']:.1f}s wall {j['wall_s']:.1f}s violations {len(j['violations'])} inconclusive {len(j['inconclusive'])} errors {len(j['errors'])}")
        if j is None:
            err.append(f'{name}: executor failed: {log[-600:]}')
            continue
        real = j['mode'] == 'exact-real'
        tot['paths'] += j['paths'] + j['panic_paths']
        tot['forks'] += j['forks']; tot['steps'] += j['steps']
        for k in ('queries', 'unsat', 'sat', 'unknown', 'solver_s'):
            tot[k] += j[k]
        tot['poly'] += j['linear_abstraction_unsat']
        nchk = sum(c['evaluated'] for c in j['checks'])
        tot['checks'] += nchk
        tot['to_solver'] += sum(c['to_solver'] for c in j['checks'])
        for f, c in j['functions']:
            fnset[f] = fnset.get(f, 0) + c
        # violations
        nv = 0
        for i, v in enumerate(j['violations']):
            path = f'{vd}/{name}_{i}.in'
            replay_file(path, v)
            o, ls = replay(rp, name, path)
            if not reproduces(v, o, ls):
                q = perturb(v, rp, name, path, real)
                if q:
                    o, ls = q
            what = f'{name} {v["kind"]} id={v["id"]} {v["desc"]}'
            if reproduces(v, o, ls) or o in ('fail', 'panic'):
                nv += 1
                viol.append((name, path, what, o, ls, v))
            else:
                m = f'{what}: solver counterexample did not reproduce natively ({o}: {ls[-4:]})'
                # an exact-real model that the floating-point code does not follow decides nothing
                (undecided if real else err).append(m)
        # vacuity
        seen = {a for a, _ in j['reached']}
        miss = [x for x in e.get('need', []) if x not in seen]
        cut = any('wall-clock' in m for m in j['errors'])
        if miss and not nv and not e.get('known'):
            (undecided if cut else err).append(f'{name}: vacuous: witnesses {miss} not reached')
        if nchk == 0 and not e.get('nocheck') and not nv and not e.get('known'):
            (undecided if cut else err).append(f'{name}: no assertion evaluated')
        for m in j['errors']:
            (undecided if 'wall-clock' in m or (nchk > 0 and 'not found' not in m) else err).append(f'{name}: executor: {m[:300]}')
        for m in j['inconclusive']:
            undecided.append(f'{name}: {m[:200]}')
        # samples replayed on the real code
        for s in j['samples'][:12]:
            path = f'{vd}/{name}_s.in'
            replay_file(path, s)
            o, ls = replay(rp, name, path)
            if any(l.startswith('uf-approx') or l.startswith('uf-unknown') for l in ls) and real:
                continue
            got = [int(l.split()[1]) for l in ls if l.startswith('reach ')]
            good = (o in ('end',) and s['end'] in ('ok',)) or (o in ('panic', 'panic-accepted') and s['end'] not in ('ok',))
            good = good and got == s['reach']
            if good and not real:
                gi = [l.split()[1] for l in ls if l.startswith('out ') or l.startswith('outf ')]
                ge = [re.sub(r'^(out|outf)\s+', '', x).split()[0] for x in s['outs']]
                good = all(x == '?' or x == y for x, y in zip(ge, gi)) and len(ge) == len(gi)
            if good:
                validated += 1
                if len(samples) < 12:
                    samples.append(dict(entry=name, inputs=s['inputs'][:40], reach=s['reach'], end=s['end']))
            else:
                mism += 1
                if not real:
                    err.append(f'{name}: native replay of a sample path disagrees with the executor: {o} {ls[-3:]} vs {s["end"]} {s["reach"]} {s["outs"]}')
        ent_ev.append(dict(entry=name, mode=j['mode'], bounds=e.get('bounds', ''), paths=j['paths'], accepted_panic_paths=j['panic_paths'], assertions_evaluated=nchk, queries=j['queries'], unsat=j['unsat'], unknown=j['unknown'], solver_s=j['solver_s'], wall_s=j['wall_s'], inconclusive=len(j['inconclusive'])))
    # classification of violations: known findings are demonstrated by their own entries
    real_viol = []
    kf = [l.strip() for l in open(f'{V}/KNOWN_FINDINGS')] if os.path.exists(f'{V}/KNOWN_FINDINGS') else []
    for x in viol:
        e = next(e for e in entries if e['name'] == x[0])
        if e.get('known'):
            if any(l.startswith(f'known: property={pid} entry={x[0]} ') for l in kf):
                known_hit.append((e, x))
                continue
        real_viol.append(x)
    for e in entries:
        if e.get('known') and any(k[0] is e for k in known_hit):
            print(f'KNOWN-FINDING: property={pid} {e["known"]}')
        elif e.get('known'):
            print(f'note: known finding of {e["name"]} no longer shows: {e["known"]}')
    fns = sorted(((c, f) for f, c in fnset.items() if 'siderust' in f or 'tempoch' in f or 'affn' in f), reverse=True)
    cov = dict(
        states=tot['paths'], transitions=tot['steps'], traces_validated_against_impl=validated, samples=samples or [dict(note='no complete path sample')],
        forks=tot['forks'], assertions_evaluated=tot['checks'], assertions_sent_to_solver=tot['to_solver'], queries_discharged=tot['unsat'] + tot['sat'],
        queries_unsat=tot['unsat'], queries_sat=tot['sat'], queries_unknown=tot['unknown'], decided_by_polynomial_normal_form=tot['poly'], solver_s=round(tot['solver_s'], 2),
        solver='z3 (libz3 5.x) + polynomial normaliser', functions_encoded=[f for _, f in fns][:200], functions_encoded_count=len(fnset),
        entries=ent_ev, undecided=undecided[:20], undecided_count=len(undecided), sample_mismatches_real_mode=mism, known_findings=[e['known'] for e, _ in known_hit], build_s=round(build_s, 1),
        explanation='states = complete symbolic paths, transitions = IR instructions executed symbolically; each path stands for every input satisfying its path condition')
    json.dump(dict(property=pid, tier=tier, seed=seed, level='model_checking', coverage=cov, assumptions=P.get('assumptions', []), wall_s=round(time.time() - t0, 2), violations=len(real_viol)), open(ev, 'w'), indent=1)
    for u in undecided[:8]:
        print('undecided:', u)
    if real_viol:
        keep = f'{V}/evidence/{pid}_replay'
        shutil.rmtree(keep, ignore_errors=True)
        os.makedirs(keep)
        for name, path, what, o, ls, v in real_viol:
            dst = f'{keep}/{os.path.basename(path)}'
            shutil.copy(path, dst)
            with open(dst + '.txt', 'w') as f:
                f.write(f'{what}\nnative outcome: {o}\n' + '\n'.join(ls) + '\nstack: ' + ' < '.join(v['stack']) + f'\nreplay: build.sh OUT {P["features"]} {name}; OUT/replay {name} {dst}\n')
            print(f'  {what}: {o} {ls[-2:]}')
            print(f'VIOLATION property={pid} replay={dst}')
        sys.exit(1)
    if tot['checks'] == 0:
        err.append('no assertion evaluated in any entry')
    for m in err:
        print('ERROR', m)
    tt = f'paths {tot["paths"]} assertions {tot["checks"]} queries {tot["queries"]} unsat {tot["unsat"]} solver {tot["solver_s"]:.1f}s build {build_s:.0f}s wall {time.time()-t0:.0f}s validated {validated} undecided {len(undecided)}'
    if err:
        print(f'ERROR property={pid}: {len(err)} problem(s); {tt}')
        sys.exit(2)
    print(f'OK property={pid} tier={tier} {tt}')

main()
