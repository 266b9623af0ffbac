#!/usr/bin/env python3
"""check.py <ID> [--replay FILE] [--seed N] [--tier quick|thorough]

Runs one property's monitored workload against /repo's current tree.
exit 0  held on everything observed (KNOWN-FINDING lines for listed findings)
exit 1  VIOLATION property=<id> replay=<path>
exit 2  inconclusive (build failure, watchdog, a monitor that saw nothing)
"""
import argparse
import glob
import importlib
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
from vlib import accel, meta  # noqa: E402

PY = accel.PY
NCPU = min(int(os.environ.get('VERIF_NCPU', 8)), os.cpu_count() or 8)
WATCHDOG = {'quick': 700, 'thorough': 6 * 3600}


def known_findings(prop):
    out = []
    path = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith('known: property=%s ' % prop):
                rest = line.split(None, 3)
                out.append((rest[2].split('=', 1)[1], rest[3] if len(rest) > 3 else ''))
    return out


def child_env(mode):
    env = {k: v for k, v in os.environ.items() if not k.startswith('PYTHON')}
    env.update({
        'PYTHONHASHSEED': '0', 'PYTHONDONTWRITEBYTECODE': '1', 'PYTHONPYCACHEPREFIX': '/nonexistent',
        'PYTHONNOUSERSITE': '1', 'OMP_NUM_THREADS': '1', 'OPENBLAS_NUM_THREADS': '1', 'LC_ALL': 'C.UTF-8',
    })
    path = [HERE]
    if mode == 'accel1':
        path.append(accel.build('plain'))
    elif mode.startswith('asan'):
        path.append(accel.build('asan'))
        lib = [subprocess.check_output(['gcc', '-print-file-name=' + n]).decode().strip() for n in ('libasan.so', 'libubsan.so')]
        env['LD_PRELOAD'] = ':'.join(os.path.realpath(p) for p in lib)
        env['PYTHONMALLOC'] = 'malloc'
        env['UBSAN_OPTIONS'] = 'print_stacktrace=1:halt_on_error=1:abort_on_error=1'
        env['ASAN_OPTIONS'] = 'detect_leaks=0:halt_on_error=1:abort_on_error=1:allocator_may_return_null=1:handle_segv=1:detect_odr_violation=0'
    env['PYTHONPATH'] = ':'.join(path)
    return env


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--replay')
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED') or 1))
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick')
    args = ap.parse_args()
    prop = args.prop
    if args.tier not in WATCHDOG:
        args.tier = 'quick'
    t0 = time.time()
    info = meta.PROPS[prop]
    scratch = tempfile.mkdtemp(prefix='verif-%s-' % prop)
    try:
        if args.replay:
            return replay(prop, args.replay, scratch)
        return run(prop, args, info, scratch, t0)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def replay(prop, path, scratch):
    data = json.load(open(path))
    case = data['case']
    out = os.path.join(scratch, 'out.json')
    cmd = [PY, '-m', 'vlib.worker', '--prop', prop, '--mode', case['mode'], '--seed', str(case['seed']),
           '--tier', data.get('tier', 'quick'), '--shard', '0', '--nshards', '1', '--out', out,
           '--only', '%s:%d' % (case['kind'], case['index'])]
    if case['kind'] == '*':
        # the process died: all of its cases are run again
        cmd[cmd.index('--shard') + 1], cmd[cmd.index('--nshards') + 1] = str(case['index']), str(case['shards'])
        del cmd[-2:]
    proc = subprocess.run(cmd, env=child_env(case['mode']), cwd=scratch)
    if not os.path.exists(out):
        print('worker ended with %s' % proc.returncode)
        return 1 if data.get('crash') else 2
    res = json.load(open(out))
    for f in res['fails']:
        print('%(mechanism)s\n  %(message)s\n%(data)s' % f)
    return 1 if res['fails'] else 0


def run(prop, args, info, scratch, t0):
    modes = info['modes']
    inconclusive = []
    procs = []
    merged = {'evaluations': 0, 'keys': set(), 'counts': {}, 'samples': [], 'fails': []}
    per_mode = {}
    # workers of the pure-Python mode start first; the accelerator is built meanwhile
    share = max(1, NCPU // len(modes)) if len(modes) > 1 else NCPU
    for mode in sorted(modes):  # accel0 < accel1 < asan
        try:
            env = child_env(mode)
        except (accel.BuildError, subprocess.SubprocessError, OSError) as exc:
            inconclusive.append('build for %s failed: %s' % (mode, exc))
            continue
        for shard in range(share):
            out = os.path.join(scratch, '%s-%d.json' % (mode, shard))
            log = open(out + '.log', 'wb')
            wd = os.path.join(scratch, '%s-%d.d' % (mode, shard))
            os.mkdir(wd)
            p = subprocess.Popen(
                [PY, '-X', 'faulthandler', '-m', 'vlib.worker', '--prop', prop, '--mode', mode, '--seed', str(args.seed), '--tier', args.tier,
                 '--shard', str(shard), '--nshards', str(share), '--out', out],
                env=env, cwd=wd, stdout=log, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL, start_new_session=True)
            procs.append((mode, shard, out, p))
    deadline = t0 + WATCHDOG[args.tier]
    for mode, shard, out, p in procs:
        try:
            p.wait(timeout=max(1, deadline - time.time()))
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
            inconclusive.append('watchdog ended worker %s/%d' % (mode, shard))
            continue
        tail = open(out + '.log', 'rb').read()[-6000:].decode('utf8', 'replace')
        if p.returncode or not os.path.exists(out):
            crash = classify_crash(p.returncode, tail)
            if crash:
                merged['fails'].append({'mechanism': crash, 'message': 'worker %s/%d ended with %s' % (mode, shard, p.returncode),
                                        'data': tail, 'case': {'kind': '*', 'index': shard, 'shards': share, 'mode': mode, 'seed': args.seed}, 'crash': True})
            else:
                inconclusive.append('worker %s/%d ended with %s: %s' % (mode, shard, p.returncode, tail[-1500:]))
            continue
        res = json.load(open(out))
        merged['evaluations'] += res['evaluations']
        per_mode[mode] = per_mode.get(mode, 0) + res['evaluations']
        merged['keys'].update(res['keys'])
        for k, v in res['counts'].items():
            if k.startswith('max:'):
                merged['counts'][k] = max(merged['counts'].get(k, v), v)
            else:
                merged['counts'][k] = merged['counts'].get(k, 0) + v
        merged['samples'].extend(res['samples'])
        merged['fails'].extend(res['fails'])
        inconclusive.extend(res['inconclusive'])
    for name, least in info.get('required', {}).items():
        if merged['counts'].get(name, 0) < least:
            inconclusive.append('monitor counter %s = %d, needs at least %d' % (name, merged['counts'].get(name, 0), least))

    known = known_findings(prop)
    known_seen, fresh = {}, []
    for f in merged['fails']:
        hit = [k for k in known if k[0] == f['mechanism']]
        if hit:
            known_seen[hit[0][0]] = hit[0][1]
        else:
            fresh.append(f)
    status = 0
    for mech in sorted(known_seen):
        print('KNOWN-FINDING: property=%s %s (mechanism %s)' % (prop, known_seen[mech], mech))
    if fresh:
        status = 1
        rdir = os.path.join(HERE, 'replays')
        os.makedirs(rdir, exist_ok=True)
        seen = []
        for n, f in enumerate(fresh):
            if f['mechanism'] in seen:
                continue
            seen.append(f['mechanism'])
            path = os.path.join(rdir, '%s-%d.json' % (prop, len(seen)))
            with open(path, 'w') as fh:
                json.dump(dict(f, property=prop, tier=args.tier), fh, indent=1)
            print('VIOLATION property=%s replay=%s' % (prop, os.path.relpath(path, HERE)))
            print('  mechanism: %s\n  %s' % (f['mechanism'], f['message'][:700].replace('\n', '\n  ')))
            if len(seen) >= 12:
                break
    elif inconclusive:
        status = 2
    for line in inconclusive:
        print('INCONCLUSIVE: ' + line)
    samples = merged['samples'][:]
    samples.sort(key=lambda s: len(json.dumps(s)), reverse=True)
    evidence = {
        'property': prop, 'tier': args.tier, 'seed': args.seed, 'level': info.get('level', 'exploration'),
        'coverage': {
            'evaluations': merged['evaluations'], 'distinct_nontrivial': len(merged['keys']),
            'rule': info['rule'], 'samples': samples[:4] or [{'case': 'none', 'input': 'no sample recorded'}],
            'observed': dict(sorted(merged['counts'].items())), 'evaluations_per_mode': per_mode,
            'known_findings_seen': sorted(known_seen), 'inconclusive': inconclusive,
        },
        'assumptions': info.get('assumptions', []), 'wall_s': round(time.time() - t0, 2),
        'violations': len({f['mechanism'] for f in fresh}),
    }
    edir = os.path.join(HERE, 'evidence')
    os.makedirs(edir, exist_ok=True)
    with open(os.path.join(edir, prop + '.json'), 'w') as fh:
        json.dump(evidence, fh, indent=1, default=str)
    print('%s tier=%s seed=%d: %d cases, %d distinct, %.1f s, %s' % (
        prop, args.tier, args.seed, merged['evaluations'], len(merged['keys']), time.time() - t0,
        {0: 'held on what was observed', 1: 'VIOLATED', 2: 'inconclusive'}[status]))
    return status


def classify_crash(code, tail):
    """A worker killed by the code under test is a verdict only for memory faults
    and sanitizer reports; anything else is inconclusive."""
    if 'AddressSanitizer' in tail or 'runtime error:' in tail or 'UndefinedBehaviorSanitizer' in tail:
        for line in tail.splitlines():
            if 'ERROR: AddressSanitizer' in line:
                return 'asan:' + line.split('AddressSanitizer:')[1].split()[0]
            if 'runtime error:' in line:
                return 'ubsan:' + '-'.join(line.split('runtime error:')[1].split()[:4])
        return 'sanitizer-report'
    if code in (-11, -6, -8, -4, -7):
        return 'native-crash:signal%d' % -code
    return None


if __name__ == '__main__':
    sys.exit(main())
