#!/usr/bin/env python3
"""Runs one property's check: builds the explorers from /repo's working tree,
explores every slice in parallel, confirms a violation by replaying it, writes
evidence/<id>.json, and prints the verdict.   usage: run.py <id> [--tier quick|thorough]"""
import sys, os, subprocess, time, json, struct, glob, signal, shutil, argparse, hashlib, re
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(V, 'tools'))
import checks, builds

def log(*a):
    print(*a); sys.stdout.flush()

def read(path, default=''):
    try:
        return open(path, 'rb').read().decode('utf-8', 'replace')
    except OSError:
        return default

def known_sigs(prop):
    """known_findings.txt: 'finding: property=<id> sig=<sig> <text>' and
    'fixed: property=<id> <commit> <text>' lines; only the former count here."""
    out = {}
    for line in read(os.path.join(V, 'known_findings.txt')).splitlines():
        if line.startswith('finding: property=%s ' % prop):
            rest = line.split(' ', 2)[2]
            sig, _, text = rest.partition(' ')
            out[sig.split('=', 1)[1]] = text
    return out

class Job:
    def __init__(s, bdir, spec, part, nparts, prop, tier, known, case=None, tag=''):
        s.spec, s.part, s.case = spec, part, case
        s.out = os.path.join(bdir, 'out-%s-%s-%d%s' % (spec['bin'], spec['mode'].replace('/', '_'), part, tag))
        for f in glob.glob(s.out + '*'):
            os.unlink(f)
        cmd = [os.path.join(bdir, spec['bin']), '--prop', prop, '--tier', tier, '--mode', spec['mode'],
               '--part', '%d/%d' % (part, nparts), '--out', s.out, '--known', ',' + ','.join(known) + ',']
        if case is not None:
            cmd += ['--case', case]
        env = dict(os.environ); env.update(spec.get('env', {}))
        s.log = open(s.out + '.log', 'wb')
        s.p = subprocess.Popen(cmd, cwd=bdir, env=env, stdin=subprocess.DEVNULL, stdout=s.log, stderr=s.log,
                               start_new_session=True)
        s.t0 = s.tlast = time.time(); s.last = None; s.hung = False

    def poll(s, hang):
        rc = s.p.poll()
        if rc is not None:
            s.log.close(); return rc
        try:
            with open(s.out + '.prog', 'rb') as f:
                v = f.read(8)
        except OSError:
            v = None
        now = time.time()
        if v != s.last:
            s.last, s.tlast = v, now
        elif now - s.tlast > hang and not s.hung:
            s.hung = True; os.kill(s.p.pid, signal.SIGUSR1); s.tlast = now
        elif s.hung and now - s.tlast > 10:
            try: os.killpg(s.p.pid, signal.SIGKILL)
            except OSError: pass
        return None

    def kill(s):
        if s.p.poll() is None:
            try: os.killpg(s.p.pid, signal.SIGKILL)
            except OSError: pass
            s.p.wait()

    def failure(s):
        t = read(s.out + '.fail').split('\n', 3)
        if len(t) < 3:
            return None
        return dict(kind=t[0], sig=t[1], case=t[2], msg=t[3] if len(t) > 3 else '')

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop'); ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--jobs', type=int, default=os.cpu_count() or 8)
    ap.add_argument('--only', default='')
    ap.add_argument('--keep', action='store_true')
    ap.add_argument('--replay', default='', help='run the case of a replay file again')
    a = ap.parse_args()
    prop, tier = a.prop, a.tier
    t0 = time.time()
    C = checks.CHECKS[prop]
    bdir = os.path.join(V, 'build', '%s-%s-%d' % (prop, tier, os.getpid()))
    shutil.rmtree(bdir, ignore_errors=True); os.makedirs(bdir)
    os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
    try:
        rc = run(a, prop, tier, C, bdir, t0)
    finally:
        if not a.keep:
            shutil.rmtree(bdir, ignore_errors=True)
    sys.exit(rc)

def run(a, prop, tier, C, bdir, t0):
    known = known_sigs(prop)
    specs = [s for s in C['jobs'] if tier in s.get('tiers', ('quick', 'thorough')) and a.only in s['mode']]
    err = builds.build_all(sorted(set(s['bin'] for s in specs)), bdir, a.jobs)
    if err:
        log('BUILD FAILED\n' + err[-6000:]); return 2
    tb = time.time() - t0
    if a.replay:
        t = dict(l.split(': ', 1) for l in read(a.replay).splitlines()[:7] if ': ' in l)
        m = re.match(r'(\w+) --mode (\S+) \(part (\d+)/(\d+), tier (\w+)\)', t['harness'])
        sp = [x for x in specs if x['bin'] == m[1] and x['mode'] == m[2]][0]
        j = Job(bdir, sp, int(m[3]), int(m[4]), prop, m[5], known, t.get('case') or None, 'replay')
        while j.poll(sp.get('hang', 20) * 2) is None: time.sleep(0.02)
        log(read(j.out + '.log')[-8000:])
        f = j.failure()
        log('the failure %s' % ('reproduces: ' + f['sig'] + ': ' + f['msg'] if f else 'does not reproduce (status %s)' % j.p.returncode))
        return 1 if f else 0
    queue = []
    for s in specs:
        n = s.get('parts', 8)
        queue += [(s, i, n) for i in range(n)]
    queue.sort(key=lambda q: -q[0].get('weight', 1))
    running, done, bad = [], [], None
    while queue or running:
        while queue and len(running) < a.jobs:
            s, i, n = queue.pop(0)
            running.append(Job(bdir, s, i, n, prop, tier, known))
        time.sleep(0.02)
        for j in list(running):
            rc = j.poll(j.spec.get('hang', 20 if tier == 'quick' else 60))
            if rc is None: continue
            running.remove(j); done.append(j)
            if rc == 0 and not os.path.exists(j.out): rc = 77   # the code under test ended the process
            j.rc = rc
            if rc != 0 and not bad: bad = j
        if bad:
            for j in running: j.kill()
            break
    viol = None
    if bad:
        f = bad.failure()
        if not f:
            if bad.rc in (-signal.SIGKILL, 3, 2) or bad.rc == 0:
                log('CHECK ERROR: %s mode %s part %d ended with %s\n%s' % (bad.spec['bin'], bad.spec['mode'], bad.part, bad.rc, read(bad.out + '.log')[-3000:]))
                return 2
            f = dict(kind='crash', sig='crash', case='', msg='ended with status %s' % bad.rc)
        # replay before report
        rep = None
        logtext = read(bad.out + '.log')
        n = bad.spec.get('parts', 8)
        tries = ([(f['case'], 'r1')] if f['case'] else []) + [(None, 'r2')]
        for case, tag in tries:
            j = Job(bdir, bad.spec, bad.part, n, prop, tier, known, case, tag)
            while True:
                rc = j.poll(bad.spec.get('hang', 20) * 2)
                if rc is not None: break
                time.sleep(0.02)
            if rc == 0 and case is None and not os.path.exists(j.out): rc = 77
            if rc != 0 and rc != 3 and (j.failure() or rc < 0 or rc in (10, 11, 12, 77)):
                rep = 'case' if case else 'slice'; g = j.failure() or f
                if case is None and g['kind'] != 'hang': f = g
                break
        if not rep:
            log('CHECK ERROR: a failure did not reproduce: %s\n%s' % (f, logtext[-3000:])); return 2
        d = os.path.join(V, 'build', 'replays'); os.makedirs(d, exist_ok=True)
        path = os.path.join(d, '%s.replay' % prop)
        with open(path, 'w') as o:
            o.write('property: %s\nharness: %s --mode %s (part %d/%d, tier %s)\nkind: %s\nsignature: %s\ncase: %s\nreproduced: %s\nmessage: %s\nlog:\n%s\n' % (
                prop, bad.spec['bin'], bad.spec['mode'], bad.part, n, tier, f['kind'], f['sig'], f['case'], rep, f['msg'], logtext[-8000:]))
        viol = (path, f)
    # merge coverage
    tot = dict(transitions=0, traces=0, evals=0)
    states, outs, samples, caps, notes, kn = set(), set(), [], set(), {}, {}
    for j in done:
        try: d = json.loads(read(j.out))
        except ValueError: continue
        for k in tot: tot[k] += d[k]
        for suffix, st in (('states', states), ('outcomes', outs)):
            b = b''
            try: b = open(j.out + '.' + suffix, 'rb').read()
            except OSError: pass
            st.update(struct.unpack('<%dQ' % (len(b) // 8), b))
        for s in d['samples']:
            if len(samples) < 12 and s not in samples: samples.append(s)
        if d['caps']: caps.add(d['caps'])
        for k, v in d['notes'].items(): notes[k] = notes.get(k, 0) + v
        for k, v in d['known'].items(): kn[k] = kn.get(k, 0) + v
    cov = dict(states=len(states), transitions=tot['transitions'], traces_validated_against_impl=tot['traces'],
               evaluations=max(tot['evals'], tot['traces']), distinct_nontrivial=len(outs), distinct_outcomes=len(outs),
               rule=C['rule'], samples=samples, exhaustive=not caps and not viol, measured=notes,
               caps=sorted(caps), build_s=round(tb, 2))
    if cov['distinct_nontrivial'] == 0: del cov['distinct_nontrivial']
    ev = dict(property=prop, tier=tier, seed=int(os.environ.get('VERIF_SEED', '1') or 1), level=C.get('level', 'model_checking'),
              coverage=cov, assumptions=C.get('assumptions', []), wall_s=round(time.time() - t0, 2), violations=1 if viol else 0)
    tmp = os.path.join(V, 'evidence', '.%s.%d' % (prop, os.getpid()))
    with open(tmp, 'w') as o: json.dump(ev, o, indent=1)
    os.replace(tmp, os.path.join(V, 'evidence', prop + '.json'))
    if viol:
        path, f = viol
        log('%s (%s): %s' % (f['kind'], f['sig'], f['msg'].strip()[:1500]))
        if f['case']: log('case: ' + f['case'][:1500])
        log('VIOLATION property=%s replay=%s' % (prop, path))
        return 1
    for sig, text in known.items():
        log('KNOWN-FINDING: property=%s sig=%s %s (seen %d times)' % (prop, sig, text, kn.get(sig, 0)))
    log('OK property=%s tier=%s states=%d transitions=%d traces=%d outcomes=%d wall=%.1fs (build %.1fs)%s' % (
        prop, tier, len(states), tot['transitions'], tot['traces'], len(outs), time.time() - t0, tb, ' CAPPED ' + str(caps) if caps else ''))
    return 0

if __name__ == '__main__':
    main()
