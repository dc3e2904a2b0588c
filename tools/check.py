#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough]

Decides one property of /repo's current working tree.

1. govc generates every proof obligation of the functions under contract that
   the property depends on from the current source and discharges them.
2. The replay harness runs generated cases of the property against the real
   code: it finds the failing input when an obligation fails, and stands in,
   bounded, for the functions outside the contracts' reach.

Exit 0: held on everything explored. Exit 1 and a VIOLATION line: broken.
"""
import glob, json, os, re, shutil, subprocess, sys, tempfile, time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
T0 = time.time()
WORKERS = 8
LEVELS = json.load(open(os.path.join(ROOT, 'tools', 'levels.json')))


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def env():
    e = dict(os.environ)
    e.update(HOME=e.get('HOME', '/root'))
    if os.path.exists('/opt/vp/env.sh'):
        out = sh(['bash', '-c', '. /opt/vp/env.sh; env -0']).stdout
        for kv in out.split('\0'):
            if '=' in kv:
                k, v = kv.split('=', 1)
                if k.startswith('GO') or k == 'PATH':
                    e[k] = v
        # solvers live on the sandbox's own path
        e['PATH'] += ':' + os.environ.get('PATH', '')
    return e


def harness(prop, seed, budget, tmp, tag, base=0):
    """Runs WORKERS processes over disjoint cases for budget seconds."""
    procs = []
    for k in range(WORKERS):
        d = os.path.join(tmp, '%s%d' % (tag, k))
        os.makedirs(d)
        out, prog = os.path.join(d, 'out.json'), os.path.join(d, 'prog')
        cmd = [os.path.join(tmp, 'h'), '-prop', prop, '-seed', str(seed), '-budget', str(budget), '-start', str(base + k),
               '-stride', str(WORKERS), '-out', out, '-progress', prog, '-cli', os.path.join(tmp, 'rap-cli'), '-tmp', d]
        log = open(os.path.join(d, 'log'), 'w')
        procs.append((subprocess.Popen(cmd, stdout=log, stderr=log, env=ENV, cwd=d), out, prog, os.path.join(d, 'log')))
    limit = time.time() + budget * 1.5 + 60
    cases = nontriv = 0
    samples, fail = [], None
    for p, out, prog, log in procs:
        try:
            p.wait(max(0.1, limit - time.time()))
            rc = p.returncode
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
            rc = 'timeout'
        try:
            r = json.load(open(out))
        except Exception:
            r = None
        if r is None:
            idx = -1
            try:
                idx = int(open(prog).read().split()[0])
            except Exception:
                pass
            tail = open(log, errors='replace').read()[:3000]
            msg = 'a call did not return within %d s' % (budget * 1.5 + 60) if rc == 'timeout' else 'the process died (exit %s)' % rc
            f = {'property': prop, 'seed': seed, 'case': idx, 'message': msg, 'input': '', 'output': tail, 'died': True}
            if fail is None:
                fail = f
            continue
        cases += r['cases']
        nontriv += r['distinct_nontrivial']
        samples += r['samples'] or []
        if r['failed'] and (fail is None or fail.get('died')):
            fail = {k: r[k] for k in ('property', 'seed', 'case', 'message', 'input') if k in r}
    return cases, nontriv, samples[:4], fail


def confirm(fail, tmp):
    """A dead process or a timeout counts only when its case does it again."""
    if not fail or not fail.get('died'):
        return fail
    if fail['case'] < 0:
        return None
    d = os.path.join(tmp, 'confirm')
    os.makedirs(d, exist_ok=True)
    out = os.path.join(d, 'out.json')
    if os.path.exists(out):
        os.remove(out)
    cmd = [os.path.join(tmp, 'h'), '-prop', fail['property'], '-seed', str(fail['seed']), '-case', str(fail['case']),
           '-out', out, '-cli', os.path.join(tmp, 'rap-cli'), '-tmp', d]
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=ENV, cwd=d, timeout=60)
        if os.path.exists(out):
            r = json.load(open(out))
            if r['failed']:
                fail.update(message=r['message'], input=r.get('input', ''))
                return fail
            return None
        fail['output'] = p.stdout[:3000]
    except subprocess.TimeoutExpired:
        pass
    return fail


def main():
    global ENV
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER') or 'quick'
    if '--tier' in sys.argv:
        tier = sys.argv[sys.argv.index('--tier') + 1]
    seed = int(os.environ.get('VERIF_SEED') or '1')
    info = LEVELS[prop]
    ENV = env()
    ENV['VERIF_TIER'] = tier
    tmp = tempfile.mkdtemp(prefix='rapcheck-')
    try:
        return run(prop, tier, seed, info, tmp)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def run(prop, tier, seed, info, tmp):
    b = sh([os.path.join(ROOT, 'tools', 'build.sh'), tmp], env=ENV)
    if b.returncode != 0:
        print(b.stdout)
        print('build failed')
        return 2
    thorough = tier == 'thorough'
    cases, nontriv, samples, fail = harness(prop, seed, 150 if thorough else info.get('budget', 8), tmp, 'q')
    fail = confirm(fail, tmp)
    harness_s = time.time() - T0

    rep, gout = None, ''
    if info.get('contracts', True):
        rp = os.path.join(tmp, 'govc.json')
        g = sh([os.path.join(ROOT, 'build', 'govc'), 'check', REPO, os.path.join(ROOT, 'contracts'), prop, rp], env=ENV)
        gout = g.stdout
        if os.path.exists(rp):
            rep = json.load(open(rp))
        proof_ok = g.returncode == 0 and rep is not None
    else:
        proof_ok = True
    if not proof_ok and not fail:
        # look for an input that shows it
        c2, n2, s2, fail = harness(prop, seed + 1, 60 if not thorough else 240, tmp, 'r')
        cases, nontriv = cases + c2, nontriv + n2
        fail = confirm(fail, tmp)

    violation = None
    if fail or not proof_ok:
        os.makedirs(os.path.join(ROOT, 'replay'), exist_ok=True)
        path = os.path.join(ROOT, 'replay', prop + '.json')
        doc = {'property': prop, 'failed_obligations': [], 'case': fail}
        if rep:
            doc['failed_obligations'] = [{k: o.get(k) for k in ('Func', 'Name', 'Status', 'By', 'Output', 'Query')} for o in (rep['Failed'] or [])[:10]]
            doc['errors'] = rep['Errors']
            doc['vacuous'] = rep['Vacuous']
        elif not proof_ok:
            doc['errors'] = [gout[-3000:]]
        if fail:
            doc['how_to_replay'] = ('tools/build.sh DIR; DIR/h -prop %s -seed %s -case %s -cli DIR/rap-cli -tmp DIR' % (prop, fail['seed'], fail['case']))
        with open(path, 'w') as f:
            json.dump(doc, f, indent=1)
        violation = 'VIOLATION property=%s replay=%s' % (prop, path)
        if not fail:
            violation += ' no-failing-input-found'

    cov = {
        'evaluations': cases,
        'distinct_nontrivial': nontriv,
        'rule': 'generated cases of the property run against the real code (harness/h, bounded by time: %s); a case is non-trivial when it exercised the property, distinct by a hash of its description' % ('150 s' if thorough else '%g s' % info.get('budget', 8)) + ' on %d processes' % WORKERS,
        'samples': samples,
        'bounded_standin': info.get('bounded', ''),
    }
    trusted = []
    if rep:
        trusted = rep['Trusted'] or []
        cov.update({
            'obligations': rep['Obligations'],
            'discharged': rep['Discharged'],
            'checker_cmd': 'govc check %s contracts %s (obligations decided by z3-new, cvc5, z3)' % (REPO, prop),
            'trusted_base': trusted,
            'functions_under_contract': rep['Functions'],
            'back_ends': rep['BackEnds'],
            'solver_seconds': round(rep['SolverSeconds'], 2),
            'vacuity_checks': rep['Canaries'],
            'failed_obligations': ['%s: %s' % (o['Func'], o['Name']) for o in (rep['Failed'] or [])],
        })
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': info['level'], 'coverage': cov,
        'assumptions': trusted + info.get('assumptions', []),
        'wall_s': round(time.time() - T0, 2), 'violations': 1 if violation else 0,
    }
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    with open(os.path.join(ROOT, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)

    for line in open(os.path.join(ROOT, 'KNOWN-FINDINGS')):
        if line.startswith('KNOWN-FINDING: property=%s ' % prop):
            print(line.rstrip())
    if rep:
        print('%s: %d/%d obligations discharged over %d functions and lemmas; %d generated cases' % (prop, rep['Discharged'], rep['Obligations'], len(rep['Functions'] or []), cases))
        for o in (rep['Failed'] or []):
            print('  failed obligation: %s: %s [%s]' % (o['Func'], o['Name'], o['Status']))
        for e in (rep['Errors'] or []):
            print('  error: ' + e)
    else:
        print('%s: %d generated cases' % (prop, cases))
        if not proof_ok:
            print(gout[-2000:])
    if fail:
        print('  failing case: ' + fail['message'][:1500])
    if violation:
        print(violation)
        return 1
    return 0


sys.exit(main())
