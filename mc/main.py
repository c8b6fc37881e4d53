"""Driver: forks workers, shards every family, writes evidence and replays."""
import importlib
import json
import mmap
import os
import signal
import struct
import sys
import time
import traceback

import faulthandler

from mc import core

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MAX_VIOL_PER_FAMILY = 3
CASE_TIMEOUT = 240.0


def load_known():
    known = {}
    path = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith('finding: '):
                # finding: property=<id> key=<case key> :: what fails
                head, what = line[len('finding: '):].split(' :: ', 1)
                prop, key = head.split(' key=', 1)
                known[(prop[len('property='):], key)] = what
    return known


def shard_of(fi, idx, n):
    return ((idx * 2654435761 + fi * 40503) >> 7) % n


def worker(mod, tier, shard, nshards, slot, outpath, skip):
    """skip: set of (family index, case index) already known to crash."""
    seen = {}
    stats = {}
    viols = []
    fams = mod.FAMILIES
    from mc.core import Counter, Violation
    out = {'stats': stats, 'viols': viols}
    dynamic = getattr(mod, 'DYNAMIC', False)

    def flush():
        for f in fams:
            if f.name in seen:
                stats[f.name]['sigs'] = sorted(seen[f.name])
        tmp = outpath + '.tmp'
        with open(tmp, 'w') as fh:
            json.dump(out, fh)
        os.replace(tmp, outpath)

    for fi, fam in enumerate(fams):
        st = stats.setdefault(
            fam.name, {'cases': 0, 'samples': [], 'nviol': 0, 'wall': 0.0})
        sigs = seen.setdefault(fam.name, set())
        t0 = time.time()
        for idx, case in enumerate(fam.cases(tier)):
            if not dynamic and shard_of(fi, idx, nshards) != shard:
                continue
            if (fi, idx) in skip:
                continue
            if dynamic:
                try:
                    os.close(os.open(os.path.join(
                        os.path.dirname(outpath), f'claim-{fi}-{idx}'),
                        os.O_CREAT | os.O_EXCL))
                except FileExistsError:
                    continue
            struct.pack_into('<qqd', slot, 0, fi, idx, time.time())
            Counter.cur = case
            try:
                sig = fam.check(case)
                sigs.add(core.sig64(sig))
            except Violation as e:
                st['nviol'] += 1
                if st['nviol'] <= MAX_VIOL_PER_FAMILY:
                    viols.append({'family': fam.name, 'case': case,
                                  'index': idx, 'what': str(e)[:4000]})
                elif st['nviol'] > 200:
                    break
            except KeyboardInterrupt:
                raise
            except BaseException as e:  # noqa
                st['nviol'] += 1
                if st['nviol'] <= MAX_VIOL_PER_FAMILY:
                    viols.append({
                        'family': fam.name, 'case': case, 'index': idx,
                        'what': 'unexpected ' + type(e).__name__ + ': ' +
                                traceback.format_exc()[-3000:]})
                elif st['nviol'] > 200:
                    break
            st['cases'] += 1
            if dynamic:
                out['steps'] = Counter.steps
                flush()
            if len(st['samples']) < 2:
                st['samples'].append(case)
        st['wall'] += time.time() - t0
    out['steps'] = Counter.steps
    flush()


def find_case(mod, tier, fi, idx):
    for i, case in enumerate(mod.FAMILIES[fi].cases(tier)):
        if i == idx:
            return case
    raise IndexError((fi, idx))


def run_replay(prop, path):
    mod = importlib.import_module('mc.props.' + prop.lower())
    if hasattr(mod, 'setup'):
        mod.setup('quick')
    rep = json.load(open(path))
    fam = [f for f in mod.FAMILIES if f.name == rep['family']][0]
    print('replaying', rep['family'], json.dumps(rep['case']))
    try:
        fam.check(rep['case'])
    except BaseException as e:  # noqa
        traceback.print_exc()
        print(f'VIOLATION property={prop} replay={path}')
        return 1
    print('the property held on this case')
    return 0


def main():
    prop = sys.argv[1]
    if len(sys.argv) > 3 and sys.argv[2] == '--replay':
        sys.exit(run_replay(prop, sys.argv[3]))
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get(
        'VERIF_TIER', 'quick')
    only = os.environ.get('MC_FAMILY')
    t_start = time.time()
    mod = importlib.import_module('mc.props.' + prop.lower())
    if only:
        mod.FAMILIES = [f for f in mod.FAMILIES if f.name == only]
    if hasattr(mod, 'setup'):
        mod.setup(tier)
    nshards = int(os.environ.get('MC_JOBS', os.cpu_count() or 8))
    nshards = min(nshards, getattr(mod, 'MAX_JOBS', 64))
    work = f'/tmp/k2mc-{prop}-{os.getpid()}'
    os.makedirs(work, exist_ok=True)
    slots = [mmap.mmap(-1, 24) for _ in range(nshards)]
    skip = [set() for _ in range(nshards)]
    procs = {}
    last = [[None, 0] for _ in range(nshards)]
    crash = []

    def spawn(s):
        struct.pack_into('<qqd', slots[s], 0, -1, -1, time.time())
        last[s] = [None, 0]
        sys.stdout.flush()
        sys.stderr.flush()
        pid = os.fork()
        if pid == 0:
            rc = 1
            try:
                logf = os.open(os.path.join(work, f'log{s}'),
                               os.O_WRONLY | os.O_CREAT | os.O_TRUNC)
                os.dup2(logf, 1)
                os.dup2(logf, 2)
                faulthandler.enable()
                worker(mod, tier, s, nshards, slots[s],
                       os.path.join(work, f'out{s}-{len(crash)}.json'), skip[s])
                rc = 0
            except BaseException:  # noqa
                traceback.print_exc()
                rc = 3
            finally:
                sys.stdout.flush()
                sys.stderr.flush()
                os._exit(rc)
        procs[pid] = s

    for s in range(nshards):
        spawn(s)
    crashes_total = 0
    internal = []
    while procs:
        time.sleep(0.05)
        # reap
        for pid in list(procs):
            r, status = os.waitpid(pid, os.WNOHANG)
            s = procs[pid]
            if r == 0:
                # hang detection by counting this loop's own polls without any
                # change of the slot: immune to clock jumps, machine pauses
                # and torn reads of the slot
                raw = bytes(slots[s][0:24])
                lim = getattr(mod, 'CASE_TIMEOUT', CASE_TIMEOUT)
                if raw != last[s][0]:
                    last[s] = [raw, 0]
                else:
                    last[s][1] += 1
                if last[s][1] * 0.05 > lim and \
                        struct.unpack_from('<q', raw, 0)[0] >= 0:
                    os.kill(pid, signal.SIGABRT)
                    time.sleep(1.0)
                    os.kill(pid, signal.SIGKILL)
                    os.waitpid(pid, 0)
                    status = None
                else:
                    continue
            del procs[pid]
            if status == 0:
                continue
            fi, idx, _ = struct.unpack_from('<qqd', slots[s], 0)
            logtxt = open(os.path.join(work, f'log{s}'),
                          errors='replace').read()[-3000:]
            if fi < 0 or (status is not None and os.WIFEXITED(status)
                          and os.WEXITSTATUS(status) == 3):
                internal.append(logtxt)
                continue
            if status is None:
                what = f'no answer within {lim} s (hang)'
            elif os.WIFSIGNALED(status):
                what = f'process died with signal {os.WTERMSIG(status)}'
            else:
                what = f'process exited with status {os.WEXITSTATUS(status)}'
            crash.append({'family': mod.FAMILIES[fi].name,
                          'case': find_case(mod, tier, fi, idx),
                          'index': idx, 'what': what + '\n' + logtxt})
            skip[s].add((fi, idx))
            crashes_total += 1
            if crashes_total <= 8:
                spawn(s)

    # merge
    fams = {f.name: {'cases': 0, 'distinct': set(), 'samples': [], 'nviol': 0,
                     'rule': f.rule, 'wall': 0.0} for f in mod.FAMILIES}
    viols = list(crash)
    steps = 0
    for p in sorted(os.listdir(work)):
        if not (p.startswith('out') and p.endswith('.json')):
            continue
        d = json.load(open(os.path.join(work, p)))
        steps += d.get('steps', 0)
        for name, st in d['stats'].items():
            f = fams[name]
            f['cases'] += st['cases']
            f['distinct'].update(st['sigs'])
            f['nviol'] += st['nviol']
            f['wall'] = max(f['wall'], st['wall'])
            if len(f['samples']) < 2:
                f['samples'] += st['samples'][:2 - len(f['samples'])]
        viols += d['viols']
    for n in os.listdir(work):
        os.unlink(os.path.join(work, n))
    os.rmdir(work)
    if internal:
        # the machinery itself failed; never reported as a violation
        sys.stderr.write('INTERNAL ERROR in worker:\n' + internal[0] + '\n')
        if not viols:
            if hasattr(mod, 'teardown'):
                mod.teardown()
            sys.exit(2)

    order = {f.name: i for i, f in enumerate(mod.FAMILIES)}
    viols.sort(key=lambda v: (order[v['family']], v['index']))
    known = load_known()
    new, old = [], []
    for v in viols:
        key = core.case_key(v['family'], v['case'])
        (old if (prop, key) in known else new).append((key, v))
    for key, v in old:
        print(f'KNOWN-FINDING: property={prop} {known[(prop, key)]} [{key}]')

    wall = time.time() - t_start
    total = sum(f['cases'] for f in fams.values())
    distinct = sum(len(f['distinct']) for f in fams.values())
    samples = []
    for name, f in fams.items():
        for c in f['samples'][:1]:
            samples.append({'family': name, 'case': c})
    level = getattr(mod, 'LEVEL', 'exploration')
    cov = {
        'evaluations': total,
        'distinct_nontrivial': distinct,
        'rule': getattr(mod, 'RULE', 'every case of every family below is run '
                        'to completion; two evaluations are distinct when the '
                        'observed results differ'),
        'samples': samples[:12],
        'exhaustive': not any(f['nviol'] > 200 for f in fams.values()),
        'transitions': steps,
        'families': {n: {'cases': f['cases'], 'distinct': len(f['distinct']),
                         'rule': f['rule'], 'wall_s': round(f['wall'], 2)}
                     for n, f in fams.items()},
    }
    if hasattr(mod, 'extra_coverage'):
        cov.update(mod.extra_coverage(cov))
    if hasattr(mod, 'teardown'):
        mod.teardown()
    ev = {
        'property': prop, 'tier': tier,
        'seed': int(os.environ.get('VERIF_SEED', '1') or 1),
        'level': level, 'coverage': cov, 'wall_s': round(wall, 2),
        'assumptions': getattr(mod, 'ASSUMPTIONS', []),
        'violations': len(new),
        'replays': [],
    }
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    if new:
        rdir = os.path.join(HERE, 'evidence', 'replay')
        os.makedirs(rdir, exist_ok=True)
        for i, (key, v) in enumerate(new[:10]):
            path = os.path.join(rdir, f'{prop}-{i}.json')
            json.dump(dict(v, property=prop, tier=tier), open(path, 'w'),
                      indent=1)
            ev['replays'].append(path)
            sys.stderr.write(f'--- {key}\n{v["what"]}\n')
            print(f'VIOLATION property={prop} replay={path}')
    if not only:
        json.dump(ev, open(os.path.join(HERE, 'evidence', prop + '.json'),
                           'w'), indent=1)
    print(f'{prop} {tier}: {total} cases, {distinct} distinct outcomes, '
          f'{steps} transitions, {len(new)} violations, {wall:.1f} s')
    for n, f in fams.items():
        print(f'   {n}: {f["cases"]} cases, {len(f["distinct"])} distinct, '
              f'{f["nviol"]} failing, {f["wall"]:.1f} s')
    sys.stdout.flush()
    os._exit(1 if new else 0)


if __name__ == '__main__':
    main()
