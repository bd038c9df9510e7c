"""check ID quick|thorough, check ID --replay FILE, check ID --selftest N."""
import collections
import hashlib
import json
import os
import subprocess
import sys
import time

sys.path.insert(0, os.path.join(os.environ['SIM_HOME'], 'sim'))
import seams
seams.install_locks()
seams.install()
import core
import registry

HOME = os.environ['SIM_HOME']


def known_findings():
    out = {}
    try:
        for line in open(os.path.join(HOME, 'known_findings.txt')):
            line = line.strip()
            if line.startswith('KNOWN property='):
                head, what = line.split(' ', 3)[1:3], line.split(' ', 3)[3]
                prop = head[0].split('=', 1)[1]
                sig = head[1].split('=', 1)[1]
                out[(prop, sig)] = what
    except IOError:
        pass
    return out


def worker(scn, prop, seed, tier, w, W, total, path, known, stop_at_violation=True):
    out = open(path, 'w')
    for i in range(w, total, W):
        script = core.make_script(scn, prop, seed, i, tier)
        t0 = time.time()
        res = core.run_script(scn, script)
        res['i'] = i
        res['t'] = time.time() - t0
        out.write(json.dumps(res) + '\n')
        if res['st'] == 'harness':
            break
        if res['st'] == 'viol' and (prop, res['sig']) not in known and stop_at_violation:
            break
    out.close()
    core.scratch_done()


def batch(scn, prop, seed, tier, total, W, known, stop=True):
    base = core.scratch()
    pids = []
    for w in range(W):
        sys.stdout.flush()
        pid = os.fork()
        if pid == 0:
            code = 1
            try:
                worker(scn, prop, seed, tier, w, W, total,
                       os.path.join(base, 'w%d' % w), known, stop)
                code = 0
            except BaseException:
                import traceback
                traceback.print_exc()
                sys.stderr.flush()
            finally:
                os._exit(code)
        pids.append(pid)
    bad = [p for p in pids if core.waitpid(p) != 0]
    results = []
    for w in range(W):
        p = os.path.join(base, 'w%d' % w)
        if os.path.exists(p):
            for line in open(p):
                results.append(core.to_str(json.loads(line)))
    results.sort(key=lambda r: r['i'])
    return results, bad


def merge(results, key):
    c = collections.Counter()
    for r in results:
        for k, v in (r.get(key) or {}).items():
            c[k] += v
    return dict(c)


def write_evidence(prop, scn, tier, seed, results, wall, violations, samples, extra):
    nontriv = set(r['digest'] for r in results if r.get('nontrivial') and r.get('digest'))
    states = set()
    for r in results:
        states.update(r.get('states') or [])
    simtime = sum(r.get('simtime') or 0 for r in results)
    cov = collections.OrderedDict()
    cov['evaluations'] = len(results)
    cov['distinct_nontrivial'] = len(nontriv)
    cov['rule'] = scn.rule(prop)
    cov['simulated_runs'] = len(results)
    cov['runs_per_hour'] = int(len(results) / max(wall, 1e-3) * 3600)
    cov['simulated_seconds'] = round(simtime / 1e6, 3)
    cov['faults_fired'] = merge(results, 'faults')
    cov['operations'] = merge(results, 'counts')
    cov['probes'] = merge(results, 'probes')
    cov['distinct_states'] = len(states)
    cov['state_measure'] = scn.state_measure(prop)
    cov['components'] = scn.components(prop)
    cov['samples'] = samples
    cov.update(extra)
    ev = collections.OrderedDict()
    ev['property'], ev['tier'], ev['seed'] = prop, tier, seed
    ev['level'] = 'exploration'
    ev['coverage'] = cov
    ev['assumptions'] = scn.assumptions(prop)
    ev['wall_s'] = round(wall, 2)
    ev['violations'] = violations
    d = os.path.join(HOME, 'evidence')
    if not os.path.isdir(d):
        os.makedirs(d)
    tmp = os.path.join(d, '.%s.tmp' % prop)
    with open(tmp, 'w') as f:
        json.dump(ev, f, indent=1)
        f.write('\n')
    os.rename(tmp, os.path.join(d, prop + '.json'))


def replay_fresh(prop, path):
    "Replay in a fresh interpreter under another hash seed; returns (rc, digest)."
    env = dict(os.environ, SIM_HASHSEED='0')
    p = subprocess.Popen([os.path.join(HOME, 'check'), prop, '--replay', path],
                         stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env)
    out = p.communicate()[0]
    return p.returncode, out


def do_replay(prop, path):
    script = core.to_str(json.load(open(path)))
    scn = registry.scenario(prop)
    scn.warm(prop)
    res = core.run_script(scn, script['script'], keep_log=True)
    core.scratch_done()
    for line in res.get('log') or []:
        print '  ' + line[:300]
    print 'digest', res.get('digest')
    if res['st'] == 'viol':
        print 'class %s: %s' % (res['cls'], res['msg'])
        print 'VIOLATION property=%s replay=%s' % (prop, path)
        return 1
    print res['st'], res.get('msg', '')
    return 0 if res['st'] == 'ok' else 2


def save(prop, script, small, r, used):
    small = small or script
    d = os.path.join(HOME, 'replays')
    if not os.path.isdir(d):
        os.makedirs(d)
    name = '%s-%s.json' % (prop, hashlib.md5(json.dumps(small, sort_keys=True)).hexdigest()[:10])
    path = os.path.join(d, name)
    with open(path, 'w') as f:
        json.dump({'property': prop, 'class': r['cls'], 'message': r['msg'],
                   'verif_seed': script['seed'], 'run_index': script['index'],
                   'minimiser_runs': used, 'script': small}, f, indent=1, sort_keys=True)
        f.write('\n')
    return path


def report(prop, scn, script, res):
    "True if the violation is reported, with a replay file that reproduces it."
    small, used = core.minimise(scn, script, res['cls'])
    final = core.run_script(scn, small)
    tries = [(small, final)] if final['st'] == 'viol' and final['cls'] == res['cls'] else []
    for s, r in tries + [(script, res)]:
        path = save(prop, script, s, r, used)
        rc, out = replay_fresh(prop, path)
        if rc == 1:
            print 'run %d, class %s: %s' % (script['index'], r['cls'], r['msg'])
            print 'VIOLATION property=%s replay=%s' % (prop, path)
            return True
        os.remove(path)
    return False


def main(argv):
    prop = argv[0]
    if argv[1] == '--replay':
        return do_replay(prop, argv[2])
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    scn = registry.scenario(prop)
    scn.warm(prop)
    W = int(os.environ.get('SIM_WORKERS', '0')) or max(2, min(8, os.sysconf('SC_NPROCESSORS_ONLN')))
    if argv[1] == '--selftest':
        n = int(argv[2])
        res, bad = batch(scn, prop, seed, 'quick', n, W, {}, stop=False)
        core.scratch_done()
        for r in res:
            print r['i'], r['st'], r.get('digest'), r.get('msg', '')[:100].replace('\n', ' ')
        return 0
    if argv[1] == '--one':
        script = core.make_script(scn, prop, seed, int(argv[2]), 'quick')
        print json.dumps(script)
        res = core.run_script(scn, script, keep_log=True)
        core.scratch_done()
        for line in res.pop('log', None) or []:
            print '  ' + line[:400]
        msg = res.pop('msg', '')
        print json.dumps(res)
        print msg
        return 0
    tier = argv[1]
    total = registry.runs(prop, tier)
    if os.environ.get('SIM_RUNS'):
        total = int(os.environ['SIM_RUNS'])
    known = known_findings()
    print 'property %s tier %s VERIF_SEED=%d runs=%d' % (prop, tier, seed, total)
    t0 = time.time()
    results, bad = batch(scn, prop, seed, tier, total, W, known)
    core.scratch_done()
    wall = time.time() - t0
    viol = [r for r in results if r['st'] == 'viol']
    new = [r for r in viol if (prop, r['sig']) not in known]
    harness = [r for r in results if r['st'] == 'harness']
    samples = [core.make_script(scn, prop, seed, i, tier) for i in (0, min(1, total - 1))]
    extra = {'workers': W}
    write_evidence(prop, scn, tier, seed, results, wall, len(new), samples, extra)
    seen = set()
    for r in viol:
        if r not in new and r['sig'] not in seen:
            seen.add(r['sig'])
            print 'KNOWN-FINDING: property=%s %s' % (prop, known[(prop, r['sig'])])
    if new:
        for r in new[:4]:
            if report(prop, scn, core.make_script(scn, prop, seed, r['i'], tier), r):
                return 1
        # what happened depends on more than the script (on addresses, say)
        r = new[0]
        path = save(prop, core.make_script(scn, prop, seed, r['i'], tier), None, r, 0)
        print 'run %d, class %s: %s' % (r['i'], r['cls'], r['msg'])
        print 'note: replaying did not bring it about again'
        print 'VIOLATION property=%s replay=%s' % (prop, path)
        return 1
    if harness:
        print 'harness error in run %d:' % harness[0]['i']
        print harness[0]['msg']
        return 2
    if bad or len(results) != total:
        print 'a worker failed'
        return 2
    missing = scn.unreached(prop, results, merge)
    if missing:
        print 'warning: never reached: %s' % ', '.join(missing)
    print 'ok: %d runs, %.1f s' % (len(results), wall)
    return 0


if __name__ == '__main__':
    try:
        rc = main(sys.argv[1:])
    finally:
        core.scratch_done()
    sys.exit(rc)
