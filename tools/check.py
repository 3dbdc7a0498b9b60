#!/usr/bin/env python3
"""check.py ID [quick|thorough]: decide one property on /repo's current tree.
Exit 0: held on everything explored. 1: VIOLATION line(s). 2: no verdict."""
import concurrent.futures as cf, json, os, shutil, subprocess, sys, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vb
from registry import PROPS

V = vb.V


def known_findings():
    p = os.path.join(V, 'known_findings.json')
    return json.load(open(p)) if os.path.exists(p) else []


def parse_inputs(s):
    r = []
    for l in s.splitlines():
        f = l.split()
        if len(f) == 3:
            r.append((f[0], int(f[2], 16)))
    return r


def matches(kf, viol):
    if kf.get('harness') not in (None, viol['harness']):
        return False
    if kf.get('msg') and kf['msg'] not in viol['msg'] + ' ' + viol.get('native', ''):
        return False
    if kf.get('args') is not None and [str(x) for x in kf['args']] != viol['args']:
        return False
    ins = parse_inputs(viol['inputs'])
    for cond in kf.get('inputs', []):
        if not any(n == cond[0] and v == cond[1] for n, v in ins):
            return False
    return True


def native(exe, inp, args, env=None):
    try:
        p = subprocess.run([exe, inp] + args, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=120, cwd=os.path.join(vb.B, 'tmp'))
        return p.returncode, p.stdout.decode(errors='replace')
    except subprocess.TimeoutExpired:
        return 1, 'VIOLATED timeout'


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    prop = PROPS[pid]
    t0 = time.time()
    jobs = os.environ.get('VERIF_JOBS', str(os.cpu_count() or 8))
    os.makedirs(os.path.join(vb.B, 'tmp'), exist_ok=True)
    tot = dict(paths=0, infeasible=0, forks=0, decisions=0, queries=0, sat=0, unsat=0, unknown=0, insts=0, asserts=0, assertQ=0,
               errors=0, solver_s=0.0, wall_s=0.0)
    functions, samples, viols, notes, runs_out, known_hit = set(), [], [], [], [], {}
    validated = 0
    trouble = []
    complete = True
    kfs = [k for k in known_findings() if k['property'] == pid and k.get('status') == 'known']
    budget = float(os.environ.get('VERIF_BUDGET', '780' if tier == 'quick' else '7200'))
    for run in prop['runs']:
        if tier not in run:
            continue
        libs = run.get('libs', 'util,rvsdg,llvm').split(',')
        if libs == ['']:
            libs = []
        try:
            with vb.Lock():
                eng = vb.engine()
                bcs = list(vb.lib_bcs(libs).values())
                hbc = vb.harness_bc(run['h'])
                exe = vb.native_exe(hbc, bcs)
        except vb.BuildError as e:
            print('BUILD ERROR', e)
            return 2
        for args in run[tier]:
            args = [str(a) for a in args]
            left = budget - (time.time() - t0)
            dl = min(run.get('deadline', 240 if tier == 'quick' else 1500), left)
            if dl < 5:
                complete = False
                notes.append('%s %s not run: time budget used up' % (run['h'], ' '.join(args)))
                continue
            tag = '%s.%s.%d' % (pid, run['h'], os.getpid())
            fl = os.path.join(vb.B, 'tmp', tag + '.files')
            out = os.path.join(vb.B, 'tmp', tag + '.json')
            open(fl, 'w').write('\n'.join(bcs) + '\n')
            cmd = [eng, hbc, '-files', fl, '-j', jobs, '-deadline', '%d' % dl, '-out', out, '-max-viol', str(run.get('max_viol', 40 if kfs else 4))]
            cmd += run.get('engine', [])
            for a in args:
                cmd += ['-arg', a]
            try:
                subprocess.run(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=dl + 90, cwd=os.path.join(vb.B, 'tmp'),
                               env=dict(os.environ, GLIBC_TUNABLES='glibc.malloc.hugetlb=1'))
            except subprocess.TimeoutExpired:
                pass
            try:
                d = json.load(open(out))
            except (OSError, ValueError):
                trouble.append('%s %s: the engine gave no result' % (run['h'], args))
                continue
            finally:
                for f in (fl, out):
                    if os.path.exists(f):
                        os.unlink(f)
            for k in tot:
                tot[k] += d.get(k, 0)
            functions |= set(d['functions'])
            if not d['complete']:
                complete = False
                notes.append('%s %s: not exhaustive (deadline %s, unsupported %d, solver unknown %d)' % (run['h'], ' '.join(args), d['deadline_hit'], d['errors'], d['unknown']))
            for m in d['error_msgs'][:3]:
                notes.append('unsupported: ' + m[:200])
            runs_out.append({'harness': run['h'], 'args': args, 'complete': d['complete'], 'paths': d['paths'], 'queries': d['queries'],
                             'solver_s': round(d['solver_s'], 2), 'wall_s': round(d['wall_s'], 2), 'reach': d['reach']})
            # counterexamples: replay against the natively compiled code
            for v in d['violations']:
                ip = os.path.join(vb.B, 'tmp', tag + '.in')
                open(ip, 'w').write(v['inputs'])
                rc, txt = native(exe, ip, args)
                rec = {'harness': run['h'], 'libs': ','.join(libs), 'args': args, 'msg': v['kind'] + ': ' + v['msg'], 'inputs': v['inputs'],
                       'native': txt.strip()[-300:], 'rc': rc, 'bt': v['bt']}
                if rc == 1:
                    viols.append(rec)
                else:
                    trouble.append('counterexample of %s %s not reproduced natively (%s): rc %d %s' % (run['h'], args, rec['msg'], rc, txt.strip()[-200:]))
                os.unlink(ip)
            # sampled passing paths: the native code must agree
            bad = 0
            def replay(k):
                ip = os.path.join(vb.B, 'tmp', '%s.%d.in' % (tag, k))
                open(ip, 'w').write(d['samples'][k]['inputs'])
                try:
                    return native(exe, ip, args)
                finally:
                    os.unlink(ip)
            chosen = d['samples'][:run.get('validate', 16 if tier == 'quick' else 24)]
            with cf.ThreadPoolExecutor(int(jobs)) as ex:
                answers = list(ex.map(replay, range(len(chosen))))
            for s, (rc, txt) in zip(chosen, answers):
                ok = rc in (0, 10) and (rc == 10 or not s.get('obs') or ('OBS ' + s['obs']) in txt)
                if rc == 0 and ok:
                    validated += 1
                if not ok and not d['violations']:
                    bad += 1
                    trouble.append('passing path of %s %s differs natively: rc %d %s | %s' % (run['h'], args, rc, txt.strip()[-200:], s['inputs'].replace('\n', ';')[:600]))
                if bad > 2:
                    break
            for s in d['samples'][:2]:
                samples.append({'harness': run['h'], 'args': args, 'inputs': s['inputs'].strip().splitlines()[:40]})
            if not d['violations']:
                for r in run.get('reach', []):
                    if not d['reach'].get(r):
                        trouble.append('vacuous: %s %s never reached "%s"' % (run['h'], args, r))
                if d['paths'] == 0:
                    trouble.append('vacuous: %s %s explored no path' % (run['h'], args))
                elif d['errors'] > d['paths'] / 2:
                    trouble.append('%s %s: most paths unsupported: %s' % (run['h'], args, (d['error_msgs'] or ['?'])[0][:300]))
            if viols and tier == 'quick' and not kfs:
                break
        if viols and tier == 'quick' and not kfs:
            break
    rdir = os.path.join(V, 'replays', pid)
    shutil.rmtree(rdir, ignore_errors=True)
    n = 0
    lines = []
    for v in viols:
        kf = next((k for k in kfs if matches(k, v)), None)
        if kf:
            known_hit.setdefault(kf['id'], kf)
            continue
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, '%d.txt' % n)
        n += 1
        with open(path, 'w') as f:
            f.write('# property %s\n# harness %s\n# libs %s\n# args %s\n# engine: %s\n# native: %s\n' %
                    (pid, v['harness'], v['libs'], ' '.join(v['args']), v['msg'].replace('\n', ' '), v['native'].replace('\n', ' | ')))
            f.write(v['inputs'])
            if not v['inputs'].endswith('\n'):
                f.write('\n')
            for l in v['bt'].splitlines():
                f.write('# at ' + l + '\n')
        lines.append('VIOLATION property=%s replay=%s' % (pid, path))
    wall = time.time() - t0
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': 'model_checking', 'wall_s': round(wall, 2), 'violations': n,
          'assumptions': prop.get('assumptions', []),
          'coverage': {
              'states': tot['paths'], 'transitions': tot['decisions'] + tot['forks'], 'traces_validated_against_impl': validated,
              'samples': samples[:12], 'exhaustive': complete and not trouble,
              'explanation': 'states = symbolic paths completed (each stands for all inputs satisfying its path condition); transitions = symbolic branch decisions and forks; '
                             'traces_validated = sampled path models replayed against the natively compiled code with equal observations',
              'bounds': prop['bounds'], 'outside': prop.get('outside', ''),
              'functions_encoded': len(functions), 'functions': sorted(f for f in functions if 'jlm' in f)[:400],
              'queries': tot['queries'], 'queries_sat': tot['sat'], 'queries_unsat': tot['unsat'], 'queries_unknown': tot['unknown'],
              'solver_s': round(tot['solver_s'], 2), 'instructions_executed': tot['insts'], 'assertions_checked': tot['asserts'],
              'assertions_by_solver': tot['assertQ'], 'unsupported_paths': tot['errors'], 'runs': runs_out, 'notes': notes + trouble,
              'known_findings_seen': sorted(known_hit)}}
    while len(json.dumps(ev)) > 60000 and ev['coverage']['functions']:
        ev['coverage']['functions'] = ev['coverage']['functions'][:len(ev['coverage']['functions']) // 2]
    os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
    with open(os.path.join(V, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    for k in known_hit.values():
        print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
    print('%s %s: %d paths, %d queries (%.1f s in the solver), %d assertions, %d functions, %d paths validated natively, exhaustive=%s, %.1f s'
          % (pid, tier, tot['paths'], tot['queries'], tot['solver_s'], tot['asserts'], len(functions), validated, ev['coverage']['exhaustive'], wall))
    for x in notes[:6]:
        print('note:', x)
    for x in trouble[:6]:
        print('trouble:', x)
    for v in viols[:3]:
        print('  violated:', v['msg'][:300], '| native:', v['native'][:200])
    if lines:
        for l in lines:
            print(l)
        return 1
    return 2 if trouble else 0


if __name__ == '__main__':
    sys.exit(main())
