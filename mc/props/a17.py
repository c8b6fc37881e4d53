"""A17: threads. Stateless model checking of the real thread pool, semaphores
and background pruning: every schedule within a preemption bound (see
mc/native/mcsched.cc) with a happens-before race detector on top."""
import atexit
import os
import shutil
import subprocess
import tempfile

from mc import native
from mc.core import Counter, Family, Violation, expect, step

RULE = ('every schedule of the driver with at most B preemptions and S '
        'spurious wakeups, run on the instrumented implementation; sharded '
        'by the first deviation from the default schedule')
ASSUMPTIONS = [
    'sequentially consistent memory; orderings weaker than that are covered by the data-race check only',
    'threads switch at lock, unlock, wait, notify, thread creation and join, once-initialization, sleeps and (drivers marked so) atomic operations; between those a program without data races cannot notice a switch, and data races are reported',
    'a WaitAllTasksFinished() during which the pool is destroyed, and tasks submitted while the destructor runs, are not exercised (callers must not do this)',
    'no task throws (an exception leaving a std::thread ends the program)',
    'one object of k2::Semaphore is used with one device type (documented; it refuses otherwise)',
]
DIR = None
CASE_TIMEOUT = 3000.0
DYNAMIC = True   # workers take the next case when they are done with one


def setup(tier):
    global DIR
    DIR = tempfile.mkdtemp(prefix='k2mc-threads-', dir='/tmp')
    pid = os.getpid()
    atexit.register(lambda: pid == os.getpid() and teardown())
    src = native.BUILD + '/k2/csrc'
    fl = native.flags()
    cc = ['g++', '-std=c++17', '-DNDEBUG', '-w', '-g1', '-fPIC'] + fl + \
        ['-I' + os.path.join(native.HERE, 'native')]
    ts = ['-O1', '-fsanitize=thread']
    nat = os.path.join(native.HERE, 'native')
    jobs = []
    for f in sorted(os.listdir(src), key=lambda f: -os.path.getsize(os.path.join(src, f))):
        if f.endswith('.cc'):
            jobs.append(cc + ts + ['-x', 'c++', '-c', os.path.join(src, f),
                                   '-o', f'{DIR}/{f}.o'])
    jobs.insert(0, cc + ts + ['-DDECODE', '-c', nat + '/threads.cc', '-o', DIR + '/threads.o'])
    jobs.append(cc + ts + ['-c', nat + '/threads.cc', '-o', DIR + '/threads0.o'])
    jobs.append(cc + ['-O2', '-c', nat + '/mcsched.cc', '-o', DIR + '/sched.o'])
    running = []
    n = os.cpu_count() or 8

    def reap(k):
        while len(running) > k:
            p = running.pop(0)
            _, err = p.communicate()
            if p.returncode:
                raise RuntimeError('driver does not compile:\n' + err[-3000:])
    for j in jobs:
        reap(n - 1)
        running.append(subprocess.Popen(j, stderr=subprocess.PIPE, text=True))
    reap(0)
    torch = '/opt/venv/lib/python3.12/site-packages/torch/lib'
    wrap = ['-rdynamic', '-Wl,--wrap=memcpy,--wrap=memmove,--wrap=memset',
            '-L' + native.BUILD + '/lib', '-Wl,-rpath,' + native.BUILD + '/lib', '-pthread']
    subprocess.run(['g++', f'{DIR}/thread_pool.cc.o', f'{DIR}/sched.o', f'{DIR}/threads0.o',
                    '-o', f'{DIR}/threads0'] + wrap + ['-lk2_log'], check=True)
    objs = [f'{DIR}/{f}' for f in os.listdir(DIR) if f.endswith('.cc.o')]
    subprocess.run(['g++'] + objs + [f'{DIR}/sched.o', f'{DIR}/threads.o', '-o', f'{DIR}/threads']
                   + wrap + ['-lk2fsa', '-lk2_log', '-L' + torch, '-lc10', '-ltorch_cpu',
                             '-ltorch', '-Wl,-rpath,' + torch], check=True)
    for f in os.listdir(DIR):
        if f.endswith('.o'):
            os.unlink(os.path.join(DIR, f))


def extra_coverage(cov):
    rows = [list(map(int, l.split())) for l in open(DIR + '/counts')]
    return {'schedules': sum(r[0] for r in rows),
            'decision_points': sum(r[1] for r in rows),
            'max_threads': max(r[2] for r in rows),
            'longest_schedule': max(r[3] for r in rows),
            'truncated_subtrees': sum(r[4] for r in rows),
            'exhaustive': all(r[4] == 0 for r in rows)}


def teardown():
    if DIR and os.path.isdir(DIR):
        shutil.rmtree(DIR)


def run(case):
    exe, drv, pre, spur, limit, first, nfirst, *args = case
    env = dict(os.environ, OMP_NUM_THREADS='1', MKL_NUM_THREADS='1')
    cmd = [f'{DIR}/{exe}', drv, str(pre), str(spur), str(limit), str(first), str(nfirst)] + \
        [str(a) for a in args]
    r = subprocess.run(cmd, capture_output=True, text=True, env=env)
    lines = r.stdout.splitlines()
    expect(r.returncode == 0 and len(lines) >= 1,
           'driver failed (exit %d)\n%s\n%s' % (r.returncode, r.stdout[-1500:], r.stderr[-1500:]))
    execs, dec, steps, threads, depth, outcomes, trunc = map(int, lines[0].split())
    viol = '\n'.join(lines[1:]).strip()
    if viol:
        raise Violation(f'{" ".join(cmd[1:])}\n{viol}')
    step(dec)
    with open(DIR + '/counts', 'a') as fh:
        fh.write(f'{execs} {dec} {threads} {depth} {trunc}\n')
    return (drv, tuple(args), pre, execs, dec, depth, trunc)


def expand(rows):
    for exe, drv, pre, spur, limit, shards, *args in rows:
        for i in range(shards):
            yield [exe, drv, pre, spur, limit, i, shards] + args


P0 = 'threads0'
P1 = 'threads'
# exe, driver, preemptions, spurious, limit (0: exhaustive), shards, args
POOL_Q = [
    (P0, 'pool', 2, 1, 0, 1, 1, 1), (P0, 'pool', 2, 1, 0, 1, 1, 2),
    (P0, 'pool', 2, 1, 0, 8, 2, 1), (P0, 'pool', 2, 0, 0, 8, 2, 2),
    (P0, 'pool', 2, 0, 0, 1, 1, 3), (P0, 'pool', 2, 0, 0, 2, 1, 1, 2),
    (P0, 'pool', 1, 0, 0, 8, 2, 2, 2), (P0, 'pool', 1, 1, 0, 4, 3, 1),
    (P0, 'pool', 2, 1, 0, 1, 1, 1, 1, 0), (P0, 'pool', 2, 0, 0, 8, 2, 2, 1, 0),
    (P0, 'nested', 2, 1, 0, 1, 1, 2, 1), (P0, 'nested', 2, 0, 0, 8, 2, 1, 1),
    (P0, 'nested', 2, 0, 0, 8, 2, 1, 2), (P0, 'nested', 1, 0, 0, 4, 2, 2, 1),
]
POOL_T = [
    (P0, 'pool', 4, 2, 0, 8, 1, 1), (P0, 'pool', 4, 1, 0, 8, 1, 2),
    (P0, 'pool', 3, 1, 0, 16, 2, 1), (P0, 'pool', 3, 0, 0, 32, 2, 2),
    (P0, 'pool', 2, 0, 0, 32, 3, 1), (P0, 'pool', 2, 0, 0, 32, 2, 3),
    (P0, 'pool', 2, 0, 0, 32, 2, 2, 2), (P0, 'pool', 3, 1, 0, 16, 2, 1, 1, 0),
    (P0, 'nested', 3, 1, 0, 16, 2, 1, 1), (P0, 'nested', 3, 0, 0, 16, 2, 1, 2),
    (P0, 'nested', 2, 0, 0, 16, 2, 2, 1),
]
USERS_Q = [
    (P0, 'users', 2, 1, 0, 2, 1, 2, 1), (P0, 'users', 1, 0, 0, 8, 2, 2, 1),
    (P0, 'waiters', 2, 1, 0, 8, 1, 2, 1), (P0, 'waiters', 1, 0, 0, 8, 2, 2, 1),
    (P0, 'global', 1, 0, 0, 4, 2, 1),
]
USERS_T = [
    (P0, 'users', 3, 1, 0, 16, 1, 2, 1), (P0, 'users', 2, 0, 0, 32, 2, 2, 1),
    (P0, 'users', 2, 0, 0, 16, 1, 3, 1), (P0, 'users', 2, 0, 0, 16, 1, 2, 2),
    (P0, 'waiters', 3, 1, 0, 16, 1, 2, 1), (P0, 'waiters', 2, 0, 0, 16, 1, 3, 1),
    (P0, 'waiters', 2, 0, 0, 32, 2, 2, 1), (P0, 'global', 2, 0, 0, 16, 2, 1),
]
SEM_Q = [
    (P0, 'sem', 2, 1, 0, 1, 0, 1, 1, 1, 1), (P0, 'sem', 2, 1, 0, 1, 1, 1, 2, 1, 3),
    (P0, 'sem', 2, 0, 0, 4, 0, 1, 2, 2, 1), (P0, 'sem', 1, 1, 0, 4, 0, 2, 1, 2, 1),
    (P0, 'sem', 2, 0, 0, 4, 1, 1, 1, 2, 1), (P0, 'sem', 2, 0, 0, 1, 2, 1, 2, 1, 2),
    (P0, 'semdata', 2, 2, 0, 1, 3), (P0, 'semdata', 3, 1, 0, 1, 2),
    (P1, 'ksem', 2, 1, 0, 1, 1, 2, 1, 2), (P1, 'ksem', 2, 0, 0, 4, 2, 1, 1, 2),
]
SEM_T = [
    (P0, 'sem', 3, 1, 0, 8, 0, 1, 2, 2, 1), (P0, 'sem', 2, 0, 0, 64, 0, 2, 2, 2, 2), (P0, 'sem', 1, 1, 0, 32, 0, 2, 2, 2, 2),
    (P0, 'semdata', 5, 3, 0, 4, 4),
    (P1, 'ksem', 4, 1, 0, 8, 1, 3, 1, 3), (P1, 'ksem', 2, 1, 0, 64, 2, 1, 2, 1), (P1, 'ksem', 3, 0, 0, 64, 2, 1, 2, 1),
]
# graph, seed, search beam*10, output beam*10, max_active, partial, lengths
DENSE_Q = [(P1, 'dense', 1, 0, 0, 4, g, 1, 80, 80, ma, part, 3)
           for g, ma, part in [(0, 10, 0), (1, 2, 0), (2, 10, 0), (2, 10, 1)]] + [
    (P1, 'dense', 1, 0, 0, 4, 1, 2, 30, 20, 3, 0, 2, 1),
    (P1, 'dense', 1, 0, 0, 16, 1, 3, 40, 20, 10, 0, 25),
    (P1, 'dense', 0, 0, 0, 2, 1, 4, 60, 30, 3, 0, 45),
    (P1, 'dense', 0, 0, 0, 2, 0, 4, 60, 30, 10, 1, 45, 22),
    (P1, 'connect', 1, 0, 0, 2, 1), (P1, 'connect', 1, 0, 0, 2, 2),
    (P1, 'connect', 1, 0, 0, 2, 3), (P1, 'connect', 1, 0, 0, 2, 8),
    (P1, 'connect2', 0, 0, 0, 1, 1, 2),
    (P1, 'dense2', 0, 0, 0, 1, 0, 1, 80, 80, 10, 0, 3),
]
DENSE_T = [(P1, 'dense', 1, 0, 0, 8, g, 1, 80, 80, ma, part, *ls)
           for g in (0, 1, 2) for ma in (2, 10) for part in (0, 1)
           for ls in ((1,), (2, 1), (5,))] + [
    (P1, 'dense', 1, 0, 0, 32, g, 3, 40, 20, 10, p, 45) for g, p in ((0, 0), (1, 0), (1, 1), (2, 1))] + [
    (P1, 'dense', 2, 0, 0, 64, 1, 1, 80, 80, 10, 0, 2)] + [
    (P1, 'connect', 1, 0, 0, 4, w) for w in range(5, 25)] + [
    (P1, 'connect2', 1, 0, 0, 16, 0, 1), (P1, 'dense2', 1, 0, 0, 32, 0, 1, 80, 80, 10, 0, 2)]


def cases(q, t):
    return lambda tier: expand(q + (t if tier == 'thorough' else []))


FAMILIES = [
    Family('pool', cases(POOL_Q, POOL_T), run,
           'the thread pool with 1-3 workers, 1-3 tasks, nested submission, reuse, and destruction without waiting'),
    Family('users', cases(USERS_Q, USERS_T), run,
           'several threads that submit to and wait for one pool; the global pool created by racing threads'),
    Family('semaphores', cases(SEM_Q, SEM_T), run,
           'counting semaphores and k2::Semaphore between 1-2 producers and 1-2 consumers'),
    Family('decoding', cases(DENSE_Q, DENSE_T), run,
           'pruned intersection with its background pruning thread and connect with its parallel passes: one result under every schedule, no data race'),
]
