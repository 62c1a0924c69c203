"""Entry point: runs one property's check, sharded over processes. See DESIGN.md.

  main.py <ID> [quick|thorough] [--replay FILE]     parent
  main.py <ID> <tier> --worker I/N OUT              one shard (internal)
"""
import importlib, json, os, subprocess, sys, time, traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [VERIF, os.environ.get('VERIF_REPO') or '/repo']
sys.path = [p for p in sys.path if p != os.path.join(VERIF, 'vlib')]

from vlib import core  # noqa: E402


def load(pid):
    return importlib.import_module(f'checks.{pid}').CHECK


def parent(pid, tier):
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED') or 1)
    nproc = int(os.environ.get('VERIF_PROCS') or min(8, os.cpu_count() or 1))
    budget = float(os.environ.get('VERIF_BUDGET') or (120 if tier == 'quick' else 840))
    tmp = f'/tmp/verif.{pid}.{os.getpid()}'
    os.makedirs(tmp)
    env = dict(os.environ, VERIF_SEED=str(seed), VERIF_TIER=tier, VERIF_BUDGET=str(budget),
               VERIF_SCRATCH=tmp)
    procs = []
    for i in range(nproc):
        out = f'{tmp}/{i}.json'
        log = open(f'{tmp}/{i}.log', 'wb')
        procs.append((i, out, f'{tmp}/{i}.log', subprocess.Popen(
            [sys.executable, os.path.abspath(__file__), pid, tier, '--worker', f'{i}/{nproc}', out],
            env=env, stdout=log, stderr=subprocess.STDOUT, cwd=VERIF, start_new_session=True)))
    hard = t0 + budget * 2 + 60 if tier == 'quick' else t0 + budget + 300
    results, errors, stop = {}, [], False
    pending = list(procs)
    while pending and time.time() < hard:
        for p in list(pending):
            i, out, log, proc = p
            if proc.poll() is None:
                continue
            pending.remove(p)
            try:
                results[i] = json.load(open(out))
            except (OSError, ValueError):
                errors.append((i, proc.returncode, open(log, errors='replace').read()[-3000:]))
                continue
            if results[i]['violation']:
                stop = True
        if stop:
            break
        time.sleep(0.05)
    inconclusive = []
    for i, out, log, proc in pending:
        try:
            os.killpg(proc.pid, 9)
        except OSError:
            pass
        proc.wait()
        if not stop:
            # a stuck shard leaves the case it was running
            inconclusive.append(i)
    rc = finish(pid, tier, seed, t0, results, errors, inconclusive, stop, tmp)
    subprocess.run(['rm', '-rf', tmp])
    return rc


def finish(pid, tier, seed, t0, results, errors, inconclusive, stopped, tmp):
    check = load(pid)
    ev, nontriv, labels, samples, tests, gave_up = 0, set(), {}, [], {}, 0
    excluded = {}
    for r in results.values():
        ev += r['evaluations']
        nontriv.update(r['nontrivial'])
        for k, v in r['labels'].items():
            labels[k] = labels.get(k, 0) + v
        for k, v in r['excluded'].items():
            excluded[k] = excluded.get(k, 0) + v
        for k, v in r['tests'].items():
            tests[k] = tests.get(k, 0) + v
        for s in r['samples']:
            if sum(1 for t in samples if t['test'] == s['test']) < 2:
                samples.append(s)
        gave_up += r['budget_exhausted']
        errors += [(r['shard'], 'error', e) for e in r['errors']]
    violations = [r['violation'] for r in results.values() if r['violation']]
    evidence = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': check.level,
        'coverage': {
            'evaluations': ev, 'distinct_nontrivial': len(nontriv),
            'rule': check.rule, 'samples': samples[:6],
            'cases_per_test': tests, 'classes': dict(sorted(labels.items())),
            'cases_left_out_by_time_budget': gave_up,
            'shards_without_result': len(inconclusive) + len([e for e in errors]),
            'known_finding_hits': excluded,
        },
        'assumptions': check.assumptions,
        'wall_s': round(time.time() - t0, 2), 'violations': len(violations),
    }
    os.makedirs(f'{VERIF}/evidence', exist_ok=True)
    with open(f'{VERIF}/evidence/{pid}.json', 'w') as f:
        json.dump(evidence, f, indent=1, default=str)
        f.write('\n')

    if violations:
        v = min(violations, key=lambda v: len(json.dumps(v['case'])))
        os.makedirs(f'{VERIF}/replays', exist_ok=True)
        path = f'replays/{pid}-{tier}-{seed}.json'
        with open(f'{VERIF}/{path}', 'w') as f:
            json.dump(dict(v, property=pid), f, indent=1)
            f.write('\n')
        print(f'{pid} {v["test"]}: {v["message"]}')
        print('case:', json.dumps(v['case'])[:2000])
        print(f'VIOLATION property={pid} replay={VERIF}/{path}')
        return 1
    for i, rc, msg in errors:
        print(f'{pid}: shard {i} failed, {rc}:\n{msg}', file=sys.stderr)
    if errors:
        return 3
    if inconclusive:
        print(f'{pid}: shards {inconclusive} did not finish in time (inconclusive)', file=sys.stderr)
    kf = core.known_findings(pid)
    for f in kf:
        print(f'KNOWN-FINDING: property={pid} {f["id"]} {f["what"]}')
    print(f'{pid} {tier}: held on {ev} cases, {len(nontriv)} distinct non-trivial, '
          f'{time.time() - t0:.1f}s, seed {seed}')
    return 0


def replay(pid, path):
    data = json.load(open(path))
    check = load(pid)
    check.setup()
    test = check.test(data['test'])
    if failure := core.confirm(check, test, data['case'], core.Ctx(check)):
        print(failure.message)
        print(failure.tb)
        print(f'VIOLATION property={pid} replay={path}')
        return 1
    print(f'{pid}: replay of {path} holds')
    return 0


def main(argv):
    pid = argv[0]
    tier = argv[1] if len(argv) > 1 and argv[1] in ('quick', 'thorough') \
        else os.environ.get('VERIF_TIER', 'quick')
    if '--replay' in argv:
        return replay(pid, argv[argv.index('--replay') + 1])
    if '--worker' in argv:
        k = argv.index('--worker')
        shard, n = map(int, argv[k + 1].split('/'))
        return core.worker(load(pid), tier, shard, n, argv[k + 2])
    return parent(pid, tier)


if __name__ == '__main__':
    try:
        rc = main(sys.argv[1:])
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        rc = 3
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)   # never wait for daemon threads of a case
