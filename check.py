#!/usr/bin/env python3
"""check.py <property>: decides one property of /repo's current tree.

1. govc (the deductive verifier in /verif/govc) proves every contract of the property against the source in /repo and
   rejects the canaries (functions with wrong specifications).
2. The replay harness in /verif/harness runs the real code: it looks for an input that shows the violation of a failed
   contract, and, with a small budget, it is a bounded check of what the contracts assume.
Exit 0: everything holds. Exit 1: a VIOLATION line was printed.
"""
import json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = '/repo'
WORK = os.path.join(VERIF, 'work')
ENV = dict(os.environ, HOME='/root', GOTOOLCHAIN='local', GOFLAGS='-mod=mod -buildvcs=false', GOPROXY='off', GOWORK='off')


def sh(cmd, timeout, **kw):
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', start_new_session=True, **kw)
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, 9)
        except OSError:
            pass
        out, _ = p.communicate()
        return None, out


def newest(d):
    return max((os.path.getmtime(os.path.join(d, f)) for f in os.listdir(d)), default=0)


def build_govc():
    b = os.path.join(VERIF, 'bin', 'govc')
    src = os.path.join(VERIF, 'govc')
    if not os.path.exists(b) or os.path.getmtime(b) < newest(src):
        os.makedirs(os.path.dirname(b), exist_ok=True)
        tmp = b + '.%d' % os.getpid()
        rc, out = sh(['go', 'build', '-o', tmp, '.'], 600, cwd=src, env=ENV)
        if rc != 0:
            raise Exception('govc does not build: ' + out[-2000:])
        os.replace(tmp, b)
    return b


def prove(prop, tier):
    limit = '150s' if tier == 'quick' else '180s'
    out = os.path.join(WORK, 'govc-%s-%d.json' % (prop, os.getpid()))
    cmd = [build_govc(), '-repo', REPO, '-spec', os.path.join(VERIF, 'spec'), '-prop', prop, '-limit', limit, '-out', out]
    if tier == 'thorough':
        cmd.append('-thorough')
    rc, log = sh(cmd, 560, env=ENV)
    rep = None
    try:
        with open(out) as f:
            rep = json.load(f)
        os.remove(out)
    except (OSError, ValueError):
        pass
    return rc, log, rep


# the package and the directory of the harness of properties of programs
MAINS = {'C21': ('hieraserver/rest', 'rest'), 'C31': ('hieraserver/rest', 'rest'), 'C32': ('lookup', 'lookup'), 'C33': ('yaml2json', 'yaml2json')}


def overlay(tmp, prop):
    """writes the overlay that adds the harness to the repository; those in MAINS are of a package main"""
    d = os.path.join(VERIF, 'harness')
    pkg = 'zzverif'
    files = [os.path.join(d, f) for f in sorted(os.listdir(d)) if f.endswith('.go')]
    if prop in MAINS:
        pkg, sub = MAINS[prop]
        plain, files = files, [os.path.join(d, sub, f) for f in sorted(os.listdir(os.path.join(d, sub)))]
        for f in plain:
            c = os.path.join(tmp, os.path.basename(f))
            with open(c, 'w') as o:
                o.write(re.sub(r'(?m)^package zzverif$', 'package main', open(f).read(), count=1))
            files.append(c)
    if not any('func Test%s(' % prop in open(f).read() for f in files):
        return False
    with open(os.path.join(tmp, 'overlay.json'), 'w') as f:
        json.dump({'Replace': {os.path.join(REPO, pkg, 'zz_' + os.path.basename(f)[:-3] + '_test.go'): f for f in files}}, f)
    with open(os.path.join(tmp, 'pkg'), 'w') as f:
        f.write('./' + pkg)
    return True


def harness(prop, tier, seed, focus):
    """runs the bounded harness; returns (failing input or None, statistics, note)"""
    tmp = tempfile.mkdtemp(prefix='vh-', dir=WORK)
    try:
        if not overlay(tmp, prop):
            return None, None, 'no harness for this property'
        ovf = os.path.join(tmp, 'overlay.json')
        pkg = open(os.path.join(tmp, 'pkg')).read()
        exe = os.path.join(tmp, 'h.test')
        rc, out = sh(['go', 'test', '-c', '-vet=off', '-overlay', ovf, '-o', exe, pkg], 300, cwd=REPO, env=ENV)
        if rc != 0:
            return None, None, 'the harness does not compile against this tree: ' + out[-1500:]
        budget = {'quick': 12, 'thorough': 150}[tier]
        if focus:
            budget *= 3
        scratch = os.path.join(tmp, 'scratch')
        os.mkdir(scratch)
        cur = os.path.join(tmp, 'current')
        env = dict(ENV, VERIF_SEED=str(seed), VERIF_BUDGET=str(budget), VERIF_CURRENT=cur, VERIF_STATS=os.path.join(tmp, 'stats.json'), TMPDIR=scratch)
        rc, out = sh([exe, '-test.run', '^Test%s$' % prop, '-test.count=1', '-test.timeout', '%ds' % (budget * 4 + 60)], budget * 4 + 90, cwd=scratch, env=env)
        stats = None
        try:
            stats = json.load(open(os.path.join(tmp, 'stats.json')))
        except (OSError, ValueError):
            pass
        if rc == 0:
            return None, stats, ''
        m = re.search(r'FAILING-INPUT: .*', out, re.S)
        if m:
            return m.group(0)[:20000], stats, ''
        last = open(cur).read() if os.path.exists(cur) else ''
        if last and (rc is None or 'test timed out' in out):
            return 'FAILING-INPUT: does not end: ' + last + '\n' + out[-6000:], stats, ''
        if re.search(r'^(fatal error|panic|runtime: goroutine stack exceeds)', out, re.M) and 'test timed out' not in out:
            return 'FAILING-INPUT: the process dies: ' + last + '\n' + out[:6000], stats, ''
        return None, stats, 'the harness ended with status %s: %s' % (rc, out[-1500:])
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def main():
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    try:
        seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        seed = 1
    t0 = time.time()
    os.makedirs(WORK, exist_ok=True)
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    cmdline = 'bin/govc -repo /repo -spec spec -prop ' + prop

    rc, log, rep = prove(prop, tier)
    failed, contracts = [], []
    if rep is None or rep.get('error'):
        failed.append(('verification condition generation', (rep or {}).get('error') or log[-4000:]))
    else:
        contracts = rep.get('contracts') or []
        if not contracts:
            failed.append(('contracts', 'no contract of this property was found'))
        for c in contracts:
            if c.get('err') or c['ok'] < c['n'] or c['n'] == 0:
                text = c.get('err') or ''
                for o in c.get('failed') or []:
                    text += '\n- obligation %s\n%s' % (o.get('name'), o.get('detail'))
                failed.append((c['name'] + ' (contract of ' + c['target'] + ')', text))
        for n in rep.get('canaries_accepted') or []:
            failed.append(('canary ' + n, 'the verifier accepts a wrong specification'))
        if not rep.get('canaries'):
            failed.append(('canaries', 'no canary was run'))

    try:
        found, stats, note = harness(prop, tier, seed, bool(failed))
    except Exception as e:  # the harness decides nothing by not running
        found, stats, note = None, None, 'the harness did not run: %r' % e
    known = []
    kf = os.path.join(VERIF, 'known_findings.txt')
    for l in open(kf):
        m = re.match(r'finding: property=(\S+) id=(\S+) (.*)', l)
        if m and m.group(1) == prop:
            known.append((m.group(2), m.group(3).strip()))
    for i, what in known:
        if stats and i in (stats.get('known') or []):
            print('KNOWN-FINDING: property=%s %s' % (prop, what))

    n = sum(c['n'] for c in contracts)
    ok = sum(c['ok'] for c in contracts)
    by = {}
    for c in contracts:
        for k, v in (c.get('by') or {}).items():
            by[k] = by.get(k, 0) + v
    meta = json.load(open(os.path.join(VERIF, 'assumptions.json')))
    spec = meta['properties'].get(prop, {})
    cov = {
        'obligations': n,
        'discharged': ok,
        'checker_cmd': cmdline,
        'trusted_base': meta['trusted_base'],
        'functions_under_contract': sorted(c['target'] for c in contracts),
        'contracts': [{'name': c['name'], 'function': c['target'], 'obligations': c['n'], 'discharged': c['ok'], 'ms': c['ms'], 'unfolded': c.get('unfold', 0)} for c in contracts],
        'discharged_by': by,
        'solver_s': (rep or {}).get('solver_s', 0),
        'solver_queries': (rep or {}).get('queries', 0),
        'canaries_rejected': (rep or {}).get('canaries', 0) - len((rep or {}).get('canaries_accepted') or []),
        'functions_not_under_contract': spec.get('not_under_contract', []),
    }
    if stats:
        cov['bounded'] = {'label': 'bounded check of the real code, not counted as proved', 'evaluations': stats.get('evaluations', 0),
                          'distinct_nontrivial': stats.get('distinct', 0), 'rule': stats.get('rule', ''), 'samples': stats.get('samples') or []}
    if note:
        cov['bounded_note'] = note
    violations = 1 if failed or found else 0
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'proof', 'coverage': cov,
          'assumptions': meta['assumptions'] + spec.get('assumptions', []), 'wall_s': round(time.time() - t0, 2), 'violations': violations}
    with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)

    if violations:
        rd = os.path.join(WORK, 'replay')
        os.makedirs(rd, exist_ok=True)
        path = os.path.join(rd, '%s.txt' % prop)
        with open(path, 'w') as f:
            f.write('property %s\n' % prop)
            if found:
                f.write('\n%s\n\nrepeat with: VERIF_SEED=%d python3 check.py %s\n' % (found, seed, prop))
            for name, text in failed:
                f.write('\nfailed: %s\n%s\n' % (name, text))
            if note:
                f.write('\n' + note + '\n')
        for name, text in failed:
            print('failed: ' + name)
        if found:
            print(found[:2000])
        print('VIOLATION property=%s replay=%s%s' % (prop, path, '' if found else ' no-failing-input-found'))
        sys.exit(1)
    print('%s: %d of %d obligations of %d contracts discharged%s (%.1f s)' % (
        prop, ok, n, len(contracts), '; bounded: %d cases' % stats['evaluations'] if stats else '', time.time() - t0))
    sys.exit(0)


if __name__ == '__main__':
    main()
