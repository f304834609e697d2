#!/usr/bin/env python3
"""
check.py <property>            run the check (VERIF_SEED, VERIF_TIER)
check.py --thorough <property> run it with VERIF_TIER=thorough
check.py --replay <file>       replay a violation
check.py --determinism [N]     run N seeds per scenario twice, different worker counts
"""
import json, os, re, struct, subprocess, sys, time, shutil, tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
import build as B
from config import PROPS, DESCR, PROBES

WORKERS = int(os.environ.get('SIM_WORKERS', '0')) or max(2, min(8, os.cpu_count() or 8))

def known_for(prop):
    ids = []
    try:
        with open(os.path.join(HERE, 'known_findings.txt')) as f:
            for line in f:
                line = line.strip()
                # known: property=<id> id=<identifier> <what fails>
                if line.startswith('known: property=%s ' % prop):
                    w = line.split()
                    ids.append((w[2].split('=', 1)[1], ' '.join(w[3:])))
    except OSError:
        pass
    return ids

def env_for(prop):
    e = dict(os.environ)
    e.pop('ASAN_OPTIONS', None)
    e['SIM_KNOWN'] = ','.join(i for i, _ in known_for(prop))
    for v in ('GUTIL_LOG_DEFAULT_LEVEL', 'GUTIL_LOG_TIMESTAMP', 'GUTIL_LOG_TID', 'G_SLICE'):
        e.pop(v, None)
    return e

def run_workers(exe, prop, scenarios, seed, total, max_s, tmp, workers=WORKERS, hashes=False):
    stop = os.path.join(tmp, 'stop')
    ps = []
    for w in range(workers):
        out = os.path.join(tmp, 'w%d.json' % w)
        args = [exe, 'worker', '--prop', prop, '--scenarios', ','.join(scenarios), '--seed', str(seed),
            '--start', str(w), '--stride', str(workers), '--total', str(total),
            '--max-seconds', str(max_s), '--out', out, '--stop-file', stop]
        if hashes:
            args.append('--hashes')
        so = open(os.path.join(tmp, 'w%d.out' % w), 'w')
        ps.append((out, subprocess.Popen(args, env=env_for(prop), stdout=so, stderr=subprocess.STDOUT), so))
    res = []
    for out, p, so in ps:
        p.wait()
        so.close()
        try:
            with open(out) as f:
                res.append(json.load(f))
        except (OSError, ValueError) as e:
            with open(so.name, errors='replace') as f:
                sys.stderr.write('worker failed: %s\n%s\n' % (e, f.read()[-3000:]))
            return None
    return res

def load_bins(tmp, workers):
    sets = [set(), set(), set()]
    for w in range(workers):
        with open(os.path.join(tmp, 'w%d.json.bin' % w), 'rb') as f:
            data = f.read()
        pos = 0
        for s in sets:
            n, = struct.unpack_from('<Q', data, pos)
            pos += 8
            s.update(struct.unpack_from('<%dQ' % n, data, pos))
            pos += 8 * n
    return [len(s) for s in sets]

def merge(dst, src):
    for k, v in src.items():
        dst[k] = dst.get(k, 0) + v

def components(exe, scenarios):
    out = subprocess.run([exe, 'list'], stdout=subprocess.PIPE, text=True).stdout
    real, stub = [], []
    for l in out.splitlines():
        n, _, r, s = l.split('|')
        if n in scenarios:
            # Commas inside of parentheses don't separate
            real += [x.strip() for x in re.split(r',(?![^(]*\))', r)]
            stub += [x.strip() for x in re.split(r',(?![^(]*\))', s)]
    return sorted(set(real)), sorted(set(stub))

def replay(exe, path, prop, quiet=True):
    env = env_for(prop)
    if not quiet:
        env['ASAN_OPTIONS'] = 'symbolize=1'
    r = subprocess.run([exe, 'replay', path] + (['-q'] if quiet else []), env=env,
        stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')
    return r.returncode, r.stdout

def determinism_sample(exe, prop, scenarios, seed, n):
    """The same runs in other processes, distributed differently: event logs must be the same"""
    logs = []
    for workers in (3, 1):
        tmp = tempfile.mkdtemp(prefix='simdet')
        try:
            if run_workers(exe, prop, scenarios, seed, n, 120, tmp, workers, True) is None:
                return None
            d = {}
            for w in range(workers):
                with open(os.path.join(tmp, 'w%d.out' % w)) as f:
                    for line in f:
                        p = line.split()
                        if len(p) == 3:
                            d[int(p[0])] = (p[1], p[2])
            logs.append(d)
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
    common = set(logs[0]) & set(logs[1])
    diff = [i for i in sorted(common) if logs[0][i] != logs[1][i]]
    return len(common), diff

def check(prop):
    t0 = time.time()
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    try:
        seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        seed = 1
    print('VERIF_SEED=%d tier=%s property=%s' % (seed, tier, prop))
    sys.stdout.flush()
    exe = B.build()
    if not exe:
        print('ERROR: the build failed')
        return 2
    tbuild = time.time() - t0
    cfg = PROPS[prop]
    total = cfg['quick'] if tier == 'quick' else cfg['thorough']
    max_s = 100 if tier == 'quick' else cfg.get('thorough_s', 600)
    tmp = tempfile.mkdtemp(prefix='simchk')
    try:
        t1 = time.time()
        res = run_workers(exe, prop, cfg['scenarios'], seed, total, max_s, tmp)
        if res is None:
            return 2
        trun = time.time() - t1
        agg = {}
        faults, probes, counts, foreign, known, per = {}, {}, {}, {}, {}, {}
        samples = []
        for r in res:
            for k in ('runs', 'faultfree', 'nontrivial', 'checked', 'sim_ns', 'switches', 'choices', 'steps', 'foreign', 'overflow'):
                agg[k] = agg.get(k, 0) + r[k]
            merge(faults, r['faults']); merge(probes, r['probes']); merge(counts, r['counts'])
            merge(foreign, r['foreign_classes']); merge(known, r['known']); merge(per, r['scenarios'])
            samples += r['samples']
        dh, dnt, ds = load_bins(tmp, WORKERS)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)

    candidates = sorted((r['violation'] for r in res if 'violation' in r), key=lambda v: v['run'])
    harness = [r['harness'] for r in res if 'harness' in r]
    violation = None
    notes = []
    for v in candidates[:3]:
        rdir = os.path.join(HERE, 'evidence', 'replays')
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, '%s-seed%d-run%d.replay' % (prop, seed, v['run']))
        r = subprocess.run([exe, 'shrink', '--prop', prop, '--scenarios', ','.join(cfg['scenarios']),
            '--seed', str(seed), '--run', str(v['run']), '--out', path], env=env_for(prop),
            stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')
        print(r.stdout.strip()[-600:])
        if r.returncode:
            notes.append('run %d (%s): %s' % (v['run'], v['class'], r.stdout.strip()[-300:]))
            continue
        rc, out = replay(exe, path, prop)
        if rc != 1:
            notes.append('run %d (%s): replay in a fresh process: %s' % (v['run'], v['class'], out.strip()[-300:]))
            continue
        violation = (path, v)
        break

    det = None
    if not candidates and not harness:
        det = determinism_sample(exe, prop, cfg['scenarios'], seed, cfg.get('det', 60))

    wall = time.time() - t0
    real, stub = components(exe, cfg['scenarios'])
    missing = [p for p in PROBES.get(prop, []) if not (probes.get(p) or faults.get(p) or counts.get(p))]
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'exploration',
        'coverage': {
            'evaluations': agg['runs'],
            'distinct_nontrivial': dnt,
            'rule': DESCR['rule'] + ' ' + cfg.get('rule', ''),
            'samples': samples[:3] if samples else ['none'],
            'fault_free_runs': agg['faultfree'],
            'seeds': agg['runs'],
            'runs_per_hour': int(agg['runs'] / max(trun, 0.001) * 3600),
            'simulated_seconds': agg['sim_ns'] / 1e9,
            'oracle_comparisons': agg['checked'],
            'choices_drawn': agg['choices'],
            'library_basic_blocks_executed': agg['steps'],
            'faults_injected': faults,
            'probes': probes,
            'probes_never_hit': missing,
            'counters': counts,
            'thread_switches': agg['switches'],
            'distinct_histories': dh,
            'distinct_histories_measure': 'different 64-bit hashes of the whole event log of a run (operations, callbacks, faults, thread switches)',
            'distinct_states': ds,
            'distinct_states_measure': 'different hashes of the reference model\'s abstract state (noted by the scenario at callbacks and after operations), at most 2^20 per worker',
            'runs_per_scenario': per,
            'runs_ended_by_violations_of_other_properties': foreign,
            'determinism_sample': {'runs_repeated': det[0], 'different': len(det[1])} if det else None,
            'components_real': real,
            'components_simulated': stub,
            'budget_truncated_runs': agg['overflow'],
        },
        'assumptions': cfg.get('assumptions', []) + DESCR['assumptions'],
        'wall_s': round(wall, 2),
        'violations': 1 if violation else 0,
    }
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    evp = os.path.join(HERE, 'evidence', prop + '.json')
    with open(evp + '.tmp', 'w') as f:
        json.dump(ev, f, indent=1)
    os.replace(evp + '.tmp', evp)

    print('%d runs in %.1f s (build %.1f s), %d distinct non-trivial histories, %d states, %.0f s of simulated time, %d thread switches'
        % (agg['runs'], trun, tbuild, dnt, ds, agg['sim_ns'] / 1e9, agg['switches']))
    print('faults: ' + (', '.join('%s=%d' % x for x in sorted(faults.items())) or 'none'))
    if missing:
        print('NOTE: never hit: ' + ', '.join(missing))
    if foreign:
        print('NOTE: runs ended early by violations of other properties: ' +
            ', '.join('%s (%d)' % x for x in foreign.items()))
    for k, n in known.items():
        i, what = k.split('\t', 1)
        print('KNOWN-FINDING: property=%s %s: %s' % (prop, i, what))
    if violation:
        path, v = violation
        msg = v['message']
        with open(path, errors='replace') as f:
            for line in f:
                if line.startswith('message '):
                    msg = line[8:]
                    break
        print('class %s: %s' % (v['class'], ' '.join(msg.split())[:400]))
        print('VIOLATION property=%s replay=%s' % (prop, path))
        return 1
    if harness:
        print('ERROR: harness: %s' % harness[0])
        return 2
    if candidates:
        print('ERROR: violation(s) which do not reproduce: ' + '; '.join(notes))
        return 2
    if det is None:
        print('ERROR: determinism sample failed')
        return 2
    if det[1]:
        print('ERROR: not deterministic, runs %s' % det[1][:10])
        return 2
    print('OK property=%s' % prop)
    return 0

def determinism(n):
    exe = B.build()
    bad = 0
    for prop, cfg in PROPS.items():
        for sc in cfg['scenarios']:
            logs = []
            for workers in (8, 3):
                tmp = tempfile.mkdtemp(prefix='simdet')
                run_workers(exe, prop, [sc], 77, n, 1000, tmp, workers, True)
                d = {}
                for w in range(workers):
                    with open(os.path.join(tmp, 'w%d.out' % w)) as f:
                        for line in f:
                            p = line.split()
                            if len(p) == 3:
                                d[int(p[0])] = (p[1], p[2])
                shutil.rmtree(tmp, ignore_errors=True)
                logs.append(d)
            common = set(logs[0]) & set(logs[1])
            diff = [i for i in sorted(common) if logs[0][i] != logs[1][i]]
            bad += len(diff)
            print('%s %s: %d runs twice, %d differ %s' % (prop, sc, len(common), len(diff), diff[:5]))
            sys.stdout.flush()
    return 1 if bad else 0

def main():
    if len(sys.argv) >= 3 and sys.argv[1] == '--replay':
        exe = B.build()
        if not exe:
            return 2
        prop = ''
        with open(sys.argv[2]) as f:
            for line in f:
                if line.startswith('property '):
                    prop = line.split()[1]
        rc, out = replay(exe, sys.argv[2], prop, False)
        sys.stdout.write(out)
        if rc == 1:
            print('VIOLATION property=%s replay=%s' % (prop, sys.argv[2]))
        return rc
    if len(sys.argv) >= 2 and sys.argv[1] == '--determinism':
        return determinism(int(sys.argv[2]) if len(sys.argv) > 2 else 400)
    if len(sys.argv) == 3 and sys.argv[1] == '--thorough' and sys.argv[2] in PROPS:
        os.environ['VERIF_TIER'] = 'thorough'
        return check(sys.argv[2])
    if len(sys.argv) == 2 and sys.argv[1] in PROPS:
        return check(sys.argv[1])
    sys.stderr.write(__doc__)
    return 2

if __name__ == '__main__':
    sys.exit(main())
