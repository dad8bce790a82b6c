#!/usr/bin/env python3
"""Checks one property:  check.py <property> [quick|thorough]

1. builds the recorder (harness/) against the working tree of /repo,
2. model checks the specification (spec/MC_*.tla),
3. records what the library does and validates every recorded history
   against the specification (spec/Trace_*.tla).

Exit 0: the property held, 1: violated (VIOLATION line), 2: the check failed.
"""
import fcntl
import json
import os
import re
import resource
import shutil
import signal
import subprocess
import sys
import threading
import time

ROOT = os.path.dirname(os.path.abspath(__file__))
SPEC = os.path.join(ROOT, 'spec')
HARNESS = os.path.join(ROOT, 'harness')
TOOLS = '/opt/veriftools/tla'
CP = f'{TOOLS}/tla2tools.jar:{TOOLS}/CommunityModules-deps.jar'

sys.dont_write_bytecode = True
from props import PROPS  # noqa: E402

START = time.time()
LIMIT = 840.0


class CheckError(Exception):
    pass


def left():
    return max(5.0, LIMIT - (time.time() - START))


def build():
    os.makedirs(os.path.join(ROOT, 'work'), exist_ok=True)
    env = dict(os.environ, CARGO_NET_OFFLINE='true', RUSTC_WRAPPER='',
               RUSTUP_TOOLCHAIN='stable-x86_64-unknown-linux-gnu')
    env.pop('RUSTFLAGS', None)
    env.pop('CARGO_TARGET_DIR', None)
    with open(os.path.join(ROOT, 'work', 'build.lock'), 'w') as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        r = subprocess.run(
            ['cargo', 'build', '--offline', '-q', '--target-dir', os.path.join(HARNESS, 'target')],
            cwd=HARNESS, env=env, timeout=left(), stdout=subprocess.PIPE,
            stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise CheckError('building the recorder failed:\n' + r.stdout[-4000:])
    return os.path.join(HARNESS, 'target', 'debug', 'harness')


def tlc(module, cfg, work, env=None, workers=4, heap='4g'):
    """Runs TLC; returns (kind, output), kind: ok, violated, eval."""
    name = os.path.basename(work)
    os.makedirs(work, exist_ok=True)
    cmd = ['java', '-XX:+UseParallelGC', f'-Xmx{heap}', '-Xss64m',
           f'-Djava.io.tmpdir={work}', '-cp', CP, 'tlc2.TLC',
           '-workers', str(workers), '-noGenerateSpecTE', '-checkpoint', '0',
           '-metadir', os.path.join(work, 'states'), '-config', cfg, module + '.tla']
    try:
        r = subprocess.run(cmd, cwd=SPEC, env=dict(os.environ, **(env or {})), timeout=left(),
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                           errors='replace')
    except subprocess.TimeoutExpired:
        raise CheckError(f'TLC timed out: {name}')
    out = r.stdout
    if re.search(r'OutOfMemoryError|StackOverflowError|stack overflow|heap space', out):
        raise CheckError(f'TLC: out of memory: {name}\n{out[-2000:]}')
    if r.returncode == 0 and 'No error has been found' in out:
        return 'ok', out
    if 'is violated' in out:
        return 'violated', out
    if r.returncode in (75, 76, 77) or 'The behavior up to this point' in out:
        return 'eval', out
    raise CheckError(f'TLC failed ({r.returncode}): {name}\n{out[-3000:]}')


def counts(out):
    m = re.findall(r'(\d+) states generated.*?, (\d+) distinct states found, 0 states left', out)
    if not m:
        raise CheckError('no state count in TLC output')
    return int(m[-1][1]), int(m[-1][0])


def run_models(prop, tier, work, res):
    try:
        for m in prop.get('models', []):
            cfg = m['cfg'] if tier == 'quick' else m.get('thorough_cfg', m['cfg'])
            kind, out = tlc(m['module'], cfg, os.path.join(work, 'mc_' + m['module']), workers=4, heap='6g')
            if kind != 'ok':
                raise CheckError(f"the specification itself violates its property: {m['module']}\n{out[-3000:]}")
            d, g = counts(out)
            res['models'].append({'model': m['module'], 'config': cfg, 'distinct_states': d, 'generated': g})
    except BaseException as e:  # noqa: B902
        res['error'] = e


def record(binary, pid, tier, seed, work):
    """Runs the recorder. Returns trace files and a fault description or None."""
    path = os.path.join(work, 'trace.ndjson')

    def limits():
        resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))

    for attempt in (1, 2):
        try:
            r = subprocess.run([binary, pid, tier, str(seed), path], timeout=left(), cwd=work,
                               stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True,
                               errors='replace', preexec_fn=limits)
        except subprocess.TimeoutExpired:
            raise CheckError('the recorder timed out')
        if r.returncode == 0:
            return path, None, r.stdout
        if r.returncode < 0 and -r.returncode in (signal.SIGABRT, signal.SIGSEGV, signal.SIGILL,
                                                  signal.SIGBUS, signal.SIGFPE):
            continue
        raise CheckError(f'the recorder failed ({r.returncode}):\n{r.stderr[-2000:]}')
    return path, f'the library killed the process: {signal.Signals(-r.returncode).name} {r.stderr[-300:]}', ''


def shards(path, work, n, mixed):
    """Cuts the trace into n files of about the same size; returns lists of line numbers.

    Mixed traces, of histories of other properties, are cut by these."""
    lines = open(path, encoding='utf-8').read().split('\n')
    if lines and lines[-1] == '':
        lines.pop()
    if not lines:
        raise CheckError('nothing was recorded')
    if mixed:
        kinds = {}
        for i, l in enumerate(lines):
            m = re.match(r'{"of":"(C\d+)"', l)
            kinds.setdefault(m.group(1) if m else '', []).append(i)
        of = sorted(kinds)
        idx = [kinds[x] for x in of]
        n = len(of)
    else:
        of = None
        n = max(1, min(n, len(lines) // 8 + 1))
        load = [0] * n
        idx = [[] for _ in range(n)]
        for i, l in enumerate(lines):
            k = load.index(min(load))
            load[k] += len(l) + 200
            idx[k].append(i)
    files = []
    for k in range(n):
        p = os.path.join(work, f'shard{k}.ndjson')
        with open(p, 'w', encoding='utf-8') as f:
            for i in idx[k]:
                f.write(lines[i])
                f.write('\n')
        files.append(p)
    return lines, files, idx, of


def known(pid):
    key, text = '', ''
    with open(os.path.join(ROOT, 'known-findings.txt'), encoding='utf-8') as f:
        for l in f:
            m = re.match(r'known: property=(\S+) key=(\S+) (.*)', l)
            if m and m.group(1) == pid:
                key, text = 'known:' + m.group(2), m.group(3)
    return key, text


def last_state(out):
    """t, l, v of the last state TLC printed"""
    t = re.findall(r'^/\\ t = (-?\d+)', out, re.M)
    l = re.findall(r'^/\\ l = (\d+)', out, re.M)
    v = re.findall(r'^/\\ v = "([^"]*)"', out, re.M)
    return (int(t[-1]) if t else 0, int(l[-1]) if l else 0, v[-1] if v else '')


def validate(prop, pid, path, work):
    key, text = known(pid)
    lines, files, idx, of = shards(path, work, prop.get('shards', 4), prop.get('mixed', False))
    results = [None] * len(files)
    slots = threading.Semaphore(6)

    def one(k):
        by = PROPS[of[k] or 'C03'] if of else prop
        with slots:
            try:
                results[k] = tlc(by['trace'], by.get('cfg', 'Trace.cfg'), os.path.join(work, f'tr{k}'),
                                 env={'VERIF_TRACE': files[k], 'VERIF_KNOWN': key}, workers=2, heap='5g')
            except BaseException as e:  # noqa: B902
                results[k] = e

    threads = [threading.Thread(target=one, args=(k,)) for k in range(len(files))]
    for t in threads:
        t.start()
    for t in threads:
        t.join()
    bad = []
    steps = states = gen = 0
    seen_known = 0
    err = None
    for k, r in enumerate(results):
        if isinstance(r, BaseException):
            err = r
            continue
        kind, out = r
        seen_known += out.count('<<"KNOWN"')
        if kind == 'ok':
            d, g = counts(out)
            n = len(idx[k])
            s = d - 1 - min(n, 96) - n
            if s < 0 or (s == 0 and n > 0):
                err = CheckError('TLC did not visit the recorded histories')
            steps += s
            states += d
            gen += g
        else:
            t, l, v = last_state(out)
            if t <= 0 and kind == 'eval':
                err = CheckError(f'TLC evaluation error outside a history:\n{out[-3000:]}')
                continue
            if kind == 'eval':
                m = re.search(r'Error: (?!The behavior)(.*?)(?:\nError: The behavior|\nState 1)', out, re.S)
                v = 'result outside the domain of the specification: ' + (m.group(1)[:600] if m else '')
                l += 1
            bad.append((idx[k][t - 1], l, v))
    if not bad and err:
        raise err
    return lines, bad, steps, states, gen, (seen_known, text)


def write_replay(pid, tier, seed, data):
    d = os.path.join(ROOT, 'replay')
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, f'{pid}.json')
    with open(p, 'w', encoding='utf-8') as f:
        json.dump(dict(property=pid, tier=tier, seed=seed,
                       rerun=f'VERIF_SEED={seed} python3 /verif/check.py {pid} {tier}', **data), f, indent=1)
        f.write('\n')
    return p


def brief(line, n=700):
    return line if len(line) <= n else line[:n] + ' ...'


def main():
    if len(sys.argv) < 2 or sys.argv[1] not in PROPS:
        print('usage: check.py <property> [quick|thorough]', file=sys.stderr)
        return 2
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        print('tier: quick or thorough', file=sys.stderr)
        return 2
    seed = int(os.environ.get('VERIF_SEED', '1'))
    prop = PROPS[pid]
    work = os.path.join(ROOT, 'work', pid)
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    evidence = os.path.join(ROOT, 'evidence', pid + '.json')
    os.makedirs(os.path.dirname(evidence), exist_ok=True)
    if os.path.exists(evidence):
        os.remove(evidence)
    keep = False
    try:
        binary = build()
        res = {'models': []}
        mc = threading.Thread(target=run_models, args=(prop, tier, work, res))
        mc.start()
        try:
            path, fault, stdout = record(binary, pid, tier, seed, work)
            if fault:
                tail = ''
                if os.path.exists(path):
                    with open(path, 'rb') as f:
                        f.seek(max(0, os.path.getsize(path) - 2000))
                        tail = f.read().decode('utf-8', 'replace')
                lines, bad, steps, states, gen, kn = [], [(-1, 0, fault)], 0, 0, 0, (0, '')
                record_of = {-1: tail}
            else:
                lines, bad, steps, states, gen, kn = validate(prop, pid, path, work)
                record_of = lines
        finally:
            mc.join()
        if 'error' in res:
            raise res['error']
        n = len(lines)
        pick = [lines[i] for i in sorted({0, n // 3, (2 * n) // 3, n - 1})] if n else []
        ev = {
            'property': pid, 'tier': tier, 'seed': seed, 'level': 'model_checking',
            'coverage': {
                'states': states + sum(m['distinct_states'] for m in res['models']),
                'transitions': gen + sum(m['generated'] for m in res['models']),
                'traces_validated_against_impl': n if not bad else 0,
                'recorded_steps_validated': steps,
                'models': res['models'],
                'samples': [brief(x) for x in pick],
            },
            'assumptions': prop.get('assumptions', []),
            'wall_s': round(time.time() - START, 1),
            'violations': len(bad),
        }
        m = re.search(r'calls=(\d+)', stdout)
        if m:
            ev['coverage']['library_calls'] = int(m.group(1))
        if kn[0]:
            ev['coverage']['known_finding_steps'] = kn[0]
        with open(evidence, 'w', encoding='utf-8') as f:
            json.dump(ev, f, indent=1)
            f.write('\n')
        if kn[0]:
            print(f'KNOWN-FINDING: property={pid} {kn[1]}')
        if bad:
            bad.sort()
            i, step, v = bad[0]
            p = write_replay(pid, tier, seed, {'history': i, 'step': step, 'verdict': v,
                                               'trace_spec': prop.get('trace', 'of the property named in the record'),
                                               'record': record_of[i]})
            print(f'history {i}, step {step}: {v}')
            print(brief(record_of[i], 1500))
            print(f'VIOLATION property={pid} replay={p}')
            return 1
        print(f"{pid} held: {n} histories, {steps} steps, "
              f"{sum(m['distinct_states'] for m in res['models'])} model states, {ev['wall_s']} s")
        return 0
    except CheckError as e:
        keep = True
        print(f'{pid}: {e}', file=sys.stderr)
        return 2
    except subprocess.TimeoutExpired as e:
        print(f'{pid}: timeout: {e}', file=sys.stderr)
        return 2
    finally:
        if not keep:
            shutil.rmtree(work, ignore_errors=True)


if __name__ == '__main__':
    try:
        rc = main()
    except Exception as e:  # a failure of the check itself
        import traceback
        traceback.print_exc()
        rc = 2
    sys.exit(rc)
