#!/usr/bin/env python3
"""run.py PROPERTY: build the harness(es) of a property from /repo's working tree, run them over all shards, confirm
each violation by replaying its case alone, write evidence, report."""
import json, os, re, subprocess, sys, tempfile, time, shutil, signal, fcntl
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vb
from checks import CHECKS

V = vb.V
def load_known():
    out = []
    p = os.path.join(V, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'finding: property=(\S+) key=(\S+) (.*)', l.strip())
            if m: out.append((m.group(1), m.group(2), m.group(3)))
    return out

ASAN = 'abort_on_error=0:exitcode=77:detect_leaks=0:allocator_may_return_null=1:max_allocation_size_mb=2048:handle_segv=1'
def env(extra):
    e = dict(os.environ)
    e.setdefault('VERIF_SEED', '1')
    e['ASAN_OPTIONS'] = ASAN
    e['UBSAN_OPTIONS'] = 'print_stacktrace=1:halt_on_error=1'
    e['TSAN_OPTIONS'] = 'exitcode=66:halt_on_error=1:detect_deadlocks=0:report_thread_leaks=0:report_signal_unsafe=0:history_size=4:suppressions=' + os.path.join(V, 'lib/tsan.supp')
    e.update(extra)
    return e

def classify(rc):
    if rc in (77,): return 'memory-error'
    if rc == 66: return 'data-race'
    if rc < 0: return 'crash-' + signal.Signals(-rc).name
    return 'exit-%d' % rc

def summarize(err):
    m = re.search(r'(ERROR: AddressSanitizer: [^\n]*|runtime error: [^\n]*|WARNING: ThreadSanitizer: [^\n]*|terminate called[^\n]*\n?[^\n]*)', err)
    s = m.group(1) if m else err[-300:]
    fr = re.findall(r'#\d+ [^\n]*? in ([^\n]*?/(?:repo|verif)/[^\n]*)', err)
    if not fr: fr = re.findall(r'#\d+ ([^\n]*?/(?:repo)/[^\n ]*)', err)
    return (s + ' @ ' + ' < '.join(x.strip()[-140:] for x in fr[:3])) if fr else s

def main():
    prop = sys.argv[1]
    only = sys.argv[sys.argv.index('--only') + 1] if '--only' in sys.argv else None
    part = sys.argv[sys.argv.index('--part') + 1] if '--part' in sys.argv else None
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--thorough' in sys.argv: tier = 'thorough'
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    spec = CHECKS[prop]
    t0 = time.time()
    jobs = os.cpu_count() or 8
    scratch = tempfile.mkdtemp(prefix='verif.%s.' % prop, dir='/dev/shm' if os.access('/dev/shm', os.W_OK) else None)
    rdir = os.path.join(V, '_build', 'replay')
    os.makedirs(rdir, exist_ok=True)
    viol, agg = [], {'evals': 0, 'states': 0, 'transitions': 0, 'traces': 0, 'capped': False, 'counters': {}, 'samples': [], 'sigs': set(), 'distinct': 0}
    notes = []
    try:
        parts = spec['parts']
        if part: parts = [p for p in parts if p['name'] == part]
        built = []
        lock = open(os.path.join(vb.BD, '.lock') if os.path.isdir(vb.BD) else (os.makedirs(vb.BD, exist_ok=True) or os.path.join(vb.BD, '.lock')), 'w')
        fcntl.flock(lock, fcntl.LOCK_EX)
        for p in parts:
            built.append(vb.build(p['src'], p.get('variant', 'rel'), extra=p.get('flags', ()), ldextra=p.get('ld', ()), jobs=jobs, drop=p.get('drop', ())))
        fcntl.flock(lock, fcntl.LOCK_UN)
        tb = time.time() - t0
        budget = spec.get('budget', {}).get(tier, 420 if tier == 'quick' else 3000)
        if 'VERIF_BUDGET' in os.environ: budget = float(os.environ['VERIF_BUDGET'])
        # all shards of all parts go through one pool of workers
        work = []
        for p, b in zip(parts, built):
            if tier == 'quick' and p.get('thorough_only'): continue
            n = p.get('shards', jobs)
            if only: n = 1
            for i in range(n): work.append((p, b, i, n))
        def launch(p, b, i, n, case=None, tmo=None, tag='w'):
            sd = os.path.join(scratch, '%s-%s-%d' % (tag, p['name'], i)); os.makedirs(sd, exist_ok=True)
            cur = os.path.join(scratch, 'cur-%s-%s-%d' % (tag, p['name'], i))
            cmd = [b, '--prop', prop, '--tier', tier, '--shard', '%d/%d' % (i, n), '--scratch', sd, '--cur', cur, '--seed', str(seed), '--budget', str(budget)]
            if case is not None: cmd += ['--only', case]
            cmd += p.get('args', [])
            of = open(sd + '.out', 'wb'); ef = open(sd + '.err', 'wb')
            pr = subprocess.Popen(cmd, stdout=of, stderr=ef, stdin=subprocess.DEVNULL, cwd=sd, env=env({'HOME': sd, 'VERIF_SCRATCH': sd}), start_new_session=True)
            return {'pr': pr, 'sd': sd, 'cur': cur, 'p': p, 'b': b, 'i': i, 'n': n, 't': time.time(), 'tmo': tmo or (budget * 1.3 + 90)}
        def reap(r, timed_out):
            of = open(r['sd'] + '.out', 'rb').read().decode('utf-8', 'replace')
            ef = open(r['sd'] + '.err', 'rb').read().decode('utf-8', 'replace')
            vs, st = [], None
            for l in of.splitlines():
                if l.startswith('@V '):
                    try: vs.append(json.loads(l[3:]))
                    except Exception: pass
                elif l.startswith('@S '): st = json.loads(l[3:])
            rc = r['pr'].returncode
            curcase = ''
            try: curcase = open(r['cur'], 'rb').read().split(b'\0')[0].decode('utf-8', 'replace')
            except OSError: pass
            if timed_out:
                vs.append({'key': 'hang', 'case': curcase, 'desc': 'no progress: the case did not end', 'abn': 'hang'})
            elif rc != 0 or st is None:
                k = classify(rc)
                if 'verif-divergence' in ef: k = 'divergence'
                vs.append({'key': k, 'case': curcase, 'desc': summarize(ef) + ' ' + of[-200:], 'abn': k})
            shutil.rmtree(r['sd'], ignore_errors=True)
            return vs, st
        pend, run, raw = list(work), [], []
        if only:
            pend = []
            for p, b, i, n in work[:len(parts)]:
                run.append(launch(p, b, 0, 1, case=only, tmo=300))
        maxpar = jobs
        while pend or run:
            while pend and len(run) < maxpar:
                p, b, i, n = pend.pop(0)
                run.append(launch(p, b, i, n))
            time.sleep(0.02)
            for r in run[:]:
                rc = r['pr'].poll()
                to = rc is None and time.time() - r['t'] > r['tmo']
                if rc is None and not to: continue
                if to:
                    try: os.killpg(r['pr'].pid, signal.SIGKILL)
                    except OSError: pass
                    r['pr'].wait()
                run.remove(r)
                vs, st = reap(r, to)
                for v in vs: v['p'] = r['p']; v['b'] = r['b']; raw.append(v)
                if st:
                    for k in ('evals', 'states', 'transitions', 'traces'): agg[k] += st[k]
                    agg['capped'] = agg['capped'] or st['capped']
                    for k, x in st['counters'].items():
                        if k.startswith('max.'): agg['counters'][k] = max(agg['counters'].get(k, 0), x)
                        else: agg['counters'][k] = agg['counters'].get(k, 0) + x
                    agg['sigs'] |= set(r['p']['name'] + ':' + x for x in st['sigs'])
                    if len(agg['samples']) < 12: agg['samples'] += [r['p']['name'] + ': ' + x for x in st['samples'][:2]]
        # confirm: replay the case alone (twice the normal patience for a hang)
        seen = {}
        for v in raw:
            k = (v['p']['name'], v['key'])
            if k in seen and len(seen[k]) >= 3: continue
            seen.setdefault(k, []).append(v)
        for k, vs in seen.items():
            done = False
            for v in vs:
                if only or not v['case']:
                    viol.append(v); done = True; break
                okc = 0
                for attempt in range(2):
                    r = launch(v['p'], v['b'], 0, 1, case=v['case'], tmo=240, tag='r%d' % attempt)
                    to = False
                    try: r['pr'].wait(timeout=240)
                    except subprocess.TimeoutExpired:
                        to = True
                        os.killpg(r['pr'].pid, signal.SIGKILL); r['pr'].wait()
                    vs2, st2 = reap(r, to)
                    if any(w['key'] == v['key'] for w in vs2): okc += 1
                    elif any('abn' in w for w in vs2) and 'abn' in v: okc += 1
                    if okc or not v['p'].get('retry'): break
                if okc:
                    viol.append(v); done = True; break
                notes.append('not reproduced in isolation, not reported: %s %s %s' % (v['key'], v['case'][:200], v['desc'][:300]))
        known = [x for x in load_known() if x[0] == prop]
        rc = 0
        seenk, nviol = set(), 0
        for v in viol:
            kf = [x for x in known if x[1] == v['key']]
            if kf:
                seenk.add(v['key']); continue
            nviol += 1
            rp = os.path.join(rdir, '%s-%s.txt' % (prop, re.sub(r'[^A-Za-z0-9_.-]', '_', v['key'])[:80]))
            with open(rp, 'w') as f:
                f.write('property %s\npart %s\nkey %s\ncase %s\n\n%s\n\nreplay: python3 %s/lib/run.py %s --part %s --only %s\n' % (prop, v['p']['name'], v['key'], v['case'], v['desc'], V, prop, v['p']['name'], "'" + v['case'].replace("'", "'\\''") + "'"))
            print('VIOLATION property=%s replay=%s' % (prop, rp))
            print('  %s: %s' % (v['key'], v['desc'][:1500]))
            print('  case: %s' % v['case'][:600])
            rc = 1
        for x in known:
            if x[1] in seenk: print('KNOWN-FINDING: property=%s %s: %s' % (prop, x[1], x[2]))
        for n in notes[:5]: print('note: ' + n)
        wall = time.time() - t0
        lvl = spec['level']
        cov = {'samples': agg['samples'][:12] or ['none'], 'exhaustive': (not agg['capped']) and spec.get('exhaustive', True), 'capped': agg['capped'], 'build_s': round(tb, 1)}
        if lvl == 'model_checking':
            cov.update(states=agg['states'], transitions=agg['transitions'], traces_validated_against_impl=agg['traces'])
            if agg['evals'] : cov['cases'] = agg['evals']
        else:
            cov.update(evaluations=agg['evals'], distinct_nontrivial=len(agg['sigs']), rule=spec['rule'])
            if agg['states']: cov['states'] = agg['states']
            if agg['transitions']: cov['transitions'] = agg['transitions']
        if agg['counters']: cov['counters'] = agg['counters']
        if 'bounds' in spec: cov['bounds'] = spec['bounds']
        if notes: cov['unreproduced'] = notes[:5]
        ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': lvl, 'coverage': cov, 'assumptions': spec.get('assumptions', []), 'wall_s': round(wall, 2), 'violations': nviol}
        if not only:
            os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
            json.dump(ev, open(os.path.join(V, 'evidence', prop + '.json'), 'w'), indent=1)
        print('%s %s: evals=%d states=%d transitions=%d distinct=%d capped=%s build=%.1fs wall=%.1fs %s' % (prop, tier, agg['evals'], agg['states'], agg['transitions'], len(agg['sigs']), agg['capped'], tb, wall, json.dumps(agg['counters'])[:1500]))
        sys.exit(rc)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)

if __name__ == '__main__':
    try: main()
    except vb.BuildError as e:
        print('BUILD ERROR'); print(str(e)[-4000:]); sys.exit(3)
