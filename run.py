#!/usr/bin/env python3
"""run.py ID [--tier quick|thorough] [--seed N] [--runs N] [--keep]
run.py --replay FILE          re-executes a replay file against /repo's tree

Builds the check of one property from /repo's current working tree, searches
seeded simulated executions for a violation, and writes evidence/ID.json.
Exit 0: held on everything explored. Exit 1: violation (replay file printed).
Exit 2: the check itself failed.
"""
import argparse, fcntl, hashlib, json, os, re, shutil, struct, subprocess, sys
import tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('SIM_REPO', '/repo')
SIM = os.path.join(VERIF, 'sim')
CXX = 'g++'
RT_FLAGS = ('-std=c++20 -O2 -g1 -fPIC -fvisibility=hidden -fno-builtin '
            '-fno-tree-loop-distribute-patterns -minline-all-stringops '
            '-U_FORTIFY_SOURCE -D_FORTIFY_SOURCE=0').split()
APP_FLAGS = ('-std=c++23 -O1 -g -fno-omit-frame-pointer -fsanitize=thread -w '
             '-U_FORTIFY_SOURCE -D_FORTIFY_SOURCE=0 -DFMT_HEADER_ONLY=1').split()
RT = ['core.cc', 'sync.cc', 'io.cc', 'runner.cc']


def fail(msg):
    print('ERROR: ' + msg, file=sys.stderr)
    sys.exit(2)


def digest(paths, extra):
    h = hashlib.sha256(repr(extra).encode())
    for p in sorted(paths):
        h.update(p.encode())
        with open(p, 'rb') as f:
            h.update(f.read())
    return h.hexdigest()[:24]


def tree(d):
    return [os.path.join(r, f) for r, _, fs in os.walk(d) for f in fs]


class BuildError(Exception):
    pass


def build(prop, meta):
    # if that does not compile: without the scenarios that use the library with
    # uncommon types (not copyable, not assignable, maps of the user's own, ...)
    for level in range(3):
        try:
            exe = build_with(prop, meta, APP_FLAGS + ([f'-DSIM_PORTABLE={level}'] if level else []))
            if level:
                print('note: built without the scenarios with uncommon types')
            return exe
        except BuildError as e:
            error = e
    fail(str(error))


def build_with(prop, meta, app_flags):
    """Objects are cached under a digest of everything they are made from."""
    cache = os.path.join(VERIF, 'build', 'cache')
    os.makedirs(cache, exist_ok=True)
    rt_src = [os.path.join(SIM, 'rt', f) for f in RT]
    rt_key = digest(tree(os.path.join(SIM, 'rt')), RT_FLAGS)
    so_dir = os.path.join(cache, 'rt-' + rt_key)
    so = os.path.join(so_dir, 'libsimrt.so')
    headers = tree(os.path.join(REPO, 'include'))
    stubs = tree(os.path.join(SIM, 'stubs')) if meta.get('stubs') else []
    lib_src = sorted(f for f in tree(os.path.join(REPO, 'src')) if f.endswith('.cc'))
    src_h = [f for f in tree(os.path.join(REPO, 'src')) if not f.endswith('.cc')]
    prop_src = os.path.join(SIM, 'props', prop + '.cc')
    prop_h = [f for f in tree(os.path.join(SIM, 'props')) if f.endswith('.h')]
    inc = ['-I' + os.path.join(REPO, 'include'), '-I' + os.path.join(SIM, 'rt')]
    if stubs:
        inc.append('-I' + os.path.join(SIM, 'stubs'))
    jobs = []  # (cmd, out)
    objs = []
    rt_objs = []

    def want(src, deps, flags, name):
        key = digest([src] + deps, flags)
        out = os.path.join(cache, name + '-' + key + '.o')
        if not os.path.exists(out):
            tmp = out + '.%d.tmp' % os.getpid()
            jobs.append(([CXX] + flags + ['-c', src, '-o', tmp], tmp, out))
        return out

    if not os.path.exists(so):
        for s in rt_src:
            rt_objs.append(want(s, tree(os.path.join(SIM, 'rt')), RT_FLAGS,
                                'rt_' + os.path.basename(s)))
    objs.append(want(prop_src, headers + prop_h + stubs +
                     [os.path.join(SIM, 'rt', 'sim.h')], app_flags + inc, prop))
    for s in lib_src:
        objs.append(want(s, headers + src_h, APP_FLAGS + inc[:1],
                         'src_' + os.path.basename(s)))
    running = []
    for cmd, tmp, out in jobs:
        running.append((subprocess.Popen(cmd, stdout=subprocess.PIPE,
                                         stderr=subprocess.STDOUT), cmd, tmp, out))
    bad = None
    for p, cmd, tmp, out in running:
        text = p.communicate()[0].decode(errors='replace')
        if p.returncode != 0:
            bad = 'compilation failed: %s\n%s' % (' '.join(cmd), text[-4000:])
        else:
            os.rename(tmp, out)
    if bad:
        raise BuildError(bad)
    if not os.path.exists(so):
        os.makedirs(so_dir, exist_ok=True)
        tmp = so + '.%d.tmp' % os.getpid()
        subprocess.run([CXX, '-shared', '-Wl,-soname,libsimrt.so', '-o', tmp] +
                       rt_objs + ['-ldl'], check=True)
        os.rename(tmp, so)
    exe_key = hashlib.sha256((rt_key + ''.join(sorted(objs))).encode()).hexdigest()[:24]
    exe = os.path.join(cache, prop + '-' + exe_key)
    if not os.path.exists(exe):
        tmp = exe + '.%d.tmp' % os.getpid()
        r = subprocess.run([CXX, '-no-pie', '-o', tmp] + objs +
                           ['-L' + so_dir, '-lsimrt', '-pthread',
                            '-Wl,-rpath,' + so_dir], capture_output=True, text=True)
        if r.returncode != 0:
            raise BuildError('link failed\n' + r.stderr[-4000:])
        os.rename(tmp, exe)
    return exe


def symbolise(exe, text):
    addrs = sorted(set(re.findall(r'<0x([0-9a-f]{6,8})>', text)))
    if not addrs:
        return text
    r = subprocess.run(['addr2line', '-Cfse', exe] + addrs,
                       capture_output=True, text=True)
    lines = r.stdout.splitlines()
    for i, a in enumerate(addrs):
        if 2 * i + 1 < len(lines):
            fn = lines[2 * i]
            fn = re.sub(r'<.*>', '<>', fn)
            if len(fn) > 60:
                fn = fn[:57] + '...'
            text = text.replace('<0x%s>' % a, '[%s %s]' % (fn, lines[2 * i + 1]))
    return re.sub(r' ?<0x7f[0-9a-f]+>', '', text)


def scratch_base():
    for d in ('/dev/shm', '/tmp'):
        if os.path.isdir(d) and os.access(d, os.W_OK):
            return d
    return None


def replay(path):
    prop = None
    with open(path) as f:
        for l in f:
            if l.startswith('property '):
                prop = l.split()[1]
    checks = json.load(open(os.path.join(SIM, 'checks.json')))
    exe = build(prop, checks[prop])
    work = tempfile.mkdtemp(prefix='simutl.', dir=scratch_base())
    try:
        r = subprocess.run([exe, 'replay', os.path.abspath(path), '-v'], cwd=work,
                           capture_output=True, text=True, errors='replace')
        print(symbolise(exe, r.stdout))
        return r.returncode
    finally:
        shutil.rmtree(work, ignore_errors=True)


def union(work, prefix):
    s = set()
    for f in os.listdir(work):
        if re.fullmatch(prefix + r'\d+', f):
            data = open(os.path.join(work, f), 'rb').read()
            s.update(struct.unpack('<%dQ' % (len(data) // 8), data))
    return len(s)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop', nargs='?')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1')))
    ap.add_argument('--runs', type=int)
    ap.add_argument('--secs', type=float)
    ap.add_argument('--replay')
    ap.add_argument('--no-evidence', action='store_true')
    ap.add_argument('--build-only', action='store_true')
    a = ap.parse_args()
    if a.replay:
        sys.exit(replay(a.replay))
    t0 = time.time()
    checks = json.load(open(os.path.join(SIM, 'checks.json')))
    if a.build_only:
        for p in [a.prop] if a.prop else sorted(checks):
            build(p, checks[p])
        return
    if a.prop not in checks:
        fail('unknown property %s' % a.prop)
    meta = checks[a.prop]
    tier = a.tier if a.tier in ('quick', 'thorough') else 'quick'
    exe = build(a.prop, meta)
    t_build = time.time() - t0
    runs = a.runs or (meta['runs'] if tier == 'quick' else meta['runs'] * 1000)
    secs = a.secs or (400.0 if tier == 'quick' else 780.0)
    os.makedirs(os.path.join(VERIF, 'out'), exist_ok=True)
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    rep = os.path.join(VERIF, 'out', '%s-seed%d.replay' % (a.prop, a.seed))
    for f in (rep, rep + '.trace'):
        if os.path.exists(f):
            os.unlink(f)
    work = tempfile.mkdtemp(prefix='simutl.', dir=scratch_base())
    code = 2
    try:
        r = subprocess.run([exe, 'search', '--prop', a.prop, '--seed', str(a.seed),
                            '--runs', str(runs), '--secs', str(secs), '--out',
                            'search.json', '--replay', rep, '--min-secs', '25'],
                           cwd=work, capture_output=True, text=True,
                           errors='replace')
        sys.stdout.write(r.stdout)
        sys.stderr.write(symbolise(exe, r.stderr))
        if r.returncode not in (0, 1):
            fail('search ended with status %d' % r.returncode)
        if r.returncode == 1:
            # the minimised run must happen again in a fresh process, twice
            # (more attempts: the code may use memory it has not initialised)
            again, tries, q = 0, 0, None
            while again < 2 and tries < 2 + 4 * (again < tries):
                tries += 1
                x = subprocess.run([exe, 'replay', rep, '-v'], cwd=work,
                                   capture_output=True, text=True, errors='replace')
                if x.returncode == 1:
                    again += 1
                    q = x
            if again == 0:
                fail('the replay file does not reproduce the violation:\n' +
                     x.stdout[-2000:])
            if again < tries:
                print('note: %d of %d replays reproduced the violation' % (again, tries))
            with open(rep + '.trace', 'w') as f:
                lines = q.stdout.splitlines(True)
                if len(lines) > 4000:
                    lines = lines[:500] + ['...\n'] + lines[-3500:]
                f.write(symbolise(exe, ''.join(lines)))
        tot, probes, faults, scn, samples = {}, {}, {}, {}, []
        for f in sorted(os.listdir(work)):
            if re.fullmatch(r'stat\d+', f):
                d = json.load(open(os.path.join(work, f)))
                for k, v in d.items():
                    if isinstance(v, int):
                        tot[k] = tot.get(k, 0) + v
                for src, dst in ((d['probes'], probes), (d['faults'], faults),
                                 (d['scenarios'], scn)):
                    for k, v in src.items():
                        dst[k] = dst.get(k, 0) + v
                samples += d['samples']
        search_s = json.load(open(os.path.join(work, 'search.json')))['search_s']
        n = tot['runs']
        cov = {
            'evaluations': n,
            'distinct_nontrivial': union(work, 'nontriv'),
            'rule': 'One evaluation is one simulated execution, a pure function '
                    'of its seed (workload, schedule and faults). Two executions '
                    'are distinct if their sequences of workload decisions, '
                    'synchronisation operations per thread (mutex, condition '
                    'variable, atomic, thread start/end/join, each with the '
                    'object concerned) and faults differ; non-trivial if more '
                    'than one control transfer between threads happened or a '
                    'fault was injected.' +
                    (' ' + meta['rule'] if meta.get('rule') else ''),
            'samples': samples[:6] or ['(no sample recorded)'],
            'distinct_interleavings': union(work, 'dist'),
            'runs_per_hour': int(n / max(search_s, 1e-3) * 3600),
            'seeds_per_hour': int(n / max(search_s, 1e-3) * 3600),
            'search_wall_s': search_s,
            'build_wall_s': round(t_build, 2),
            'simulated_time_s': tot['vtime'] / 1e9,
            'scheduling_points': tot['steps'],
            'thread_switches': tot['switches'],
            'threads_started': tot['threads'],
            'faults_injected': faults,
            'wall_clock_sets': tot['jumps'],
            'fault_points_passed': tot['fault_points'],
            'runs_with_faults': tot['runs_with_faults'],
            'runs_executed_twice_and_compared': tot['det_checked'],
            'scenarios': scn,
            'rare_conditions_hit': probes,
            'real_components': meta['real'],
            'stubbed_components': meta['stub'],
        }
        if not a.no_evidence:
            ev = {'property': a.prop, 'tier': tier, 'seed': a.seed,
                  'level': 'exploration', 'coverage': cov,
                  'assumptions': meta.get('assumptions', []),
                  'wall_s': round(time.time() - t0, 2),
                  'violations': 1 if r.returncode == 1 else 0}
            tmp = os.path.join(VERIF, 'evidence', '.%s.tmp' % a.prop)
            with open(tmp, 'w') as f:
                json.dump(ev, f, indent=1)
            os.rename(tmp, os.path.join(VERIF, 'evidence', a.prop + '.json'))
        print('%s: %d runs, %d distinct non-trivial, %.1f s search, %.1f s build' %
              (a.prop, n, cov['distinct_nontrivial'], search_s, t_build))
        if r.returncode == 1:
            print('VIOLATION property=%s replay=%s' % (a.prop, rep))
        code = r.returncode
    finally:
        shutil.rmtree(work, ignore_errors=True)
    sys.exit(code)


if __name__ == '__main__':
    main()
