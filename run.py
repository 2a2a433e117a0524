#!/usr/bin/env python3
"""Driver of the checks:  run.py <property-id> [--tier quick|thorough]
                          run.py --replay <replay-file>

Builds liborocos-bfl from /repo's working tree (both matrix back ends, address and
undefined-behaviour sanitizers, assertions on), builds the property's explorer against
it, runs every scenario exhaustively, writes evidence/<id>.json.

exit 0: property held on everything explored; exit 1 + VIOLATION line: broken.
exit 2: the check itself could not run (neither verdict)."""
import argparse, concurrent.futures as cf, fcntl, json, os, shlex, shutil, signal, struct, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.environ.get('VERIF_BUILD', os.path.join(VERIF, '.build'))
BACKENDS = ['boost', 'eigen']
LIBFLAGS = '-O1 -g1 -fsanitize=address,undefined -fno-sanitize=vptr -fno-sanitize-recover=undefined'
ENV = dict(os.environ, CC='gcc', CXX='g++',
           ASAN_OPTIONS='detect_leaks=0:exitcode=77:abort_on_error=0:detect_odr_violation=0:alloc_dealloc_mismatch=1:allocator_may_return_null=1',
           UBSAN_OPTIONS='print_stacktrace=1:halt_on_error=1:exitcode=77')
NJ = os.cpu_count() or 4

class CheckError(Exception):
    pass

def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=ENV, **kw)
    if r.returncode != 0:
        raise CheckError('command failed: %s\n%s' % (' '.join(map(str, cmd)), r.stdout[-6000:]))
    return r.stdout

PROPS = {json.loads(l)['id']: json.loads(l) for l in open(os.path.join(VERIF, 'properties.jsonl')) if l.strip()}
CHECKS = json.load(open(os.path.join(VERIF, 'checks.json')))

def build_lib(be, ginac):
    d = os.path.join(BUILD, be + ('-ginac' if ginac else ''))
    os.makedirs(d, exist_ok=True)
    if not os.path.exists(os.path.join(d, 'build.ninja')):
        sh(['cmake', '-S', os.path.join(REPO, 'orocos_bfl'), '-B', d, '-G', 'Ninja', '-DMATRIX_LIB=' + be,
            '-DGINAC_SUPPORT=' + ('ON' if ginac else 'OFF'), '-DBUILD_TESTS=OFF', '-DBUILD_EXAMPLES=OFF', '-DLIBRARY_TYPE=shared',
            '-DCMAKE_BUILD_TYPE=RelWithDebInfo', '-DCMAKE_CXX_FLAGS_RELWITHDEBINFO=' + LIBFLAGS, '-Wno-dev'])
    try:
        sh(['ninja', '-C', d, 'orocos-bfl'])
    except CheckError:
        # a stale build directory must not decide anything: configure from scratch once
        shutil.rmtree(d)
        os.makedirs(d)
        sh(['cmake', '-S', os.path.join(REPO, 'orocos_bfl'), '-B', d, '-G', 'Ninja', '-DMATRIX_LIB=' + be,
            '-DGINAC_SUPPORT=' + ('ON' if ginac else 'OFF'), '-DBUILD_TESTS=OFF', '-DBUILD_EXAMPLES=OFF', '-DLIBRARY_TYPE=shared',
            '-DCMAKE_BUILD_TYPE=RelWithDebInfo', '-DCMAKE_CXX_FLAGS_RELWITHDEBINFO=' + LIBFLAGS, '-Wno-dev'])
        sh(['ninja', '-C', d, 'orocos-bfl'])
    return d

def compile_flags(be, libdir, ginac):
    """include paths and defines exactly as the project's own build uses them"""
    out = subprocess.run(['ninja', '-C', libdir, '-t', 'compdb'], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, env=ENV).stdout
    flags, seen = [], set()
    for e in json.loads(out):
        if not e['file'].endswith('.cpp'):
            continue
        toks = shlex.split(e['command'])
        i = 0
        while i < len(toks):
            t = toks[i]
            if t in ('-I', '-isystem', '-D', '-include'):
                f = [t, toks[i + 1]]; i += 1
            elif t.startswith('-I') or t.startswith('-D') or t.startswith('-std') or t.startswith('-isystem'):
                f = [t]
            else:
                i += 1
                continue
            if tuple(f) not in seen and not (f[0].startswith('-Dorocos_bfl_EXPORTS')):
                seen.add(tuple(f)); flags += f
            i += 1
        break
    # relative include directories are relative to the build directory
    res = []
    for f in flags:
        if f.startswith('-I') and len(f) > 2 and not f[2:].startswith('/'):
            f = '-I' + os.path.normpath(os.path.join(libdir, f[2:]))
        res.append(f)
    return res

def build_harness(pid, be, libdir, ginac, src, extra):
    exe = os.path.join(BUILD, '%s-%s' % (pid, be))
    cmd = ['g++', '-std=c++14', '-w', '-O1', '-g1', '-fsanitize=address,undefined', '-fno-sanitize=vptr', '-fno-sanitize-recover=undefined',
           '-DMC_BACKEND_' + be.upper(), '-I' + os.path.join(VERIF, 'harness'), '-I' + os.path.join(REPO, 'orocos_bfl/src')] + extra + [f for f in compile_flags(be, libdir, ginac) if not f.startswith('-std')]
    cmd += [os.path.join(VERIF, 'harness', src), '-o', exe, '-rdynamic', '-L' + libdir + '/src', '-lorocos-bfl', '-Wl,-rpath,' + libdir + '/src']
    if ginac:
        cmd += ['-lginac', '-lcln']
    sh(cmd)
    return exe

def build(pid):
    cfg = CHECKS[pid]
    ginac = cfg.get('ginac', False)
    os.makedirs(BUILD, exist_ok=True)
    bes = cfg.get('backends', BACKENDS)
    exes = {}
    with open(os.path.join(BUILD, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        with cf.ThreadPoolExecutor(2) as ex:
            def one(be):
                d = build_lib(be, ginac)
                return be, build_harness(pid, be, d, ginac, cfg.get('src', pid.lower() + '.cpp'), cfg.get('flags', []))
            for be, exe in ex.map(one, bes):
                exes[be] = exe
        # private copies so that a concurrent check cannot replace them under us
    return exes

def run_one(exe, args, limit, log):
    with open(log, 'w') as lf:
        p = subprocess.Popen([exe] + args, stdout=lf, stderr=subprocess.STDOUT, env=ENV, stdin=subprocess.DEVNULL, start_new_session=True)
        try:
            return p.wait(limit)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            p.wait()
            return 'timeout'

def tail(log, n=3000):
    try:
        d = open(log, errors='replace').read()
    except OSError:
        return ''
    for k in ('ERROR: AddressSanitizer', 'runtime error:', 'Assertion', 'WATCHDOG', 'terminate called'):
        i = d.find(k)
        if i >= 0:
            return d[max(0, i - 200):i + n]
    return d[-n:]

def known_findings(pid):
    f = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(f):
        return []
    return [k for k in json.load(open(f)) if k['property'] == pid and k['status'] == 'open']

def explore(pid, tier, seed):
    t0 = time.time()
    exes = build(pid)
    tb = time.time() - t0
    known = known_findings(pid)
    kids = ','.join(k['id'] for k in known)
    work = os.path.join(BUILD, 'work-%s-%d' % (pid, os.getpid()))
    os.makedirs(work, exist_ok=True)
    jobs = []
    for be, exe in exes.items():
        for l in sh([exe, '--list']).splitlines():
            name, shards = l.split()
            shards = int(shards)
            if tier == 'thorough' and shards > 1:
                shards *= 2
            for s in range(shards):
                jobs.append((be, exe, name, s, shards))
    # many-shard (expensive) scenarios first
    jobs.sort(key=lambda j: -j[4])
    limit = 5400 if tier == 'thorough' else 700
    stop = []
    results, viol = [], []

    def do(j):
        be, exe, name, s, n = j
        if stop:
            return None
        base = os.path.join(work, '%s-%s-%d' % (be, name, s))
        args = ['--scenario', name, '--out', base + '.json', '--states', base + '.st', '--shm', base + '.shm', '--shard', '%d/%d' % (s, n), '--known', kids]
        if tier == 'thorough':
            args.append('--thorough')
        if os.path.exists(base + '.json'):
            os.unlink(base + '.json')
        tj = time.time()
        rc = run_one(exe, args, limit, base + '.log')
        if rc == 0 and os.path.exists(base + '.json'):
            r = json.load(open(base + '.json'))
            r['backend'] = be; r['wall'] = time.time() - tj
            if r['violated']:
                v = dict(backend=be, scenario=name, path=r['path'], msg=r['msg'], trace=r['trace'], tier=tier, shard='%d/%d' % (s, n))
                return ('v', v, base)
            return ('r', r, base)
        if rc == 'timeout':
            return ('e', '%s %s shard %d/%d exceeded %d s' % (be, name, s, n, limit), base)
        # the library crashed / aborted / exited / hung inside one execution
        if rc in (90, 91):
            return ('e', '%s %s: harness error %s: %s' % (be, name, rc, tail(base + '.log')), base)
        path = []
        try:
            d = open(base + '.shm', 'rb').read()
            _, k = struct.unpack_from('ii', d)
            path = list(struct.unpack_from('%di' % k, d, 8))
        except Exception:
            pass
        v = dict(backend=be, scenario=name, path=path, msg='abnormal end of the execution (status %s): %s' % (rc, tail(base + '.log')), trace='', tier=tier, shard='%d/%d' % (s, n))
        return ('v', v, base)

    errors = []
    with cf.ThreadPoolExecutor(NJ) as ex:
        for out in ex.map(do, jobs):
            if out is None:
                continue
            k, v, base = out
            if k == 'r':
                results.append((v, base))
            elif k == 'e':
                errors.append(v)
            else:
                # replay before reporting, alone and with a generous time limit
                rc, txt = replay(exes[v['backend']], v, kids, base + '.replay.log')
                if rc not in (0, 41):
                    v['replay'] = txt
                    viol.append(v); stop.append(1)
                else:
                    # something the library keeps between executions (static data)?  then the whole sequence reproduces it
                    rc, txt = replay_shard(exes[v['backend']], v, kids, base)
                    if rc not in (0, 41):
                        v['replay'] = txt; v['sequence'] = True
                        v['msg'] = 'depends on what the library did for other objects before: ' + v['msg']
                        viol.append(v); stop.append(1)
                    else:
                        errors.append('violation did not reproduce: %s' % v)
    wall = time.time() - t0
    states = set()
    for r, base in results:
        b = open(base + '.st', 'rb').read()
        states.update((r['scenario'], x[0]) for x in struct.iter_unpack('Q', b)) if len(b) < 80_000_000 else None
    shutil.rmtree(work, ignore_errors=True)
    per = {}
    khits = {}
    for r, _ in results:
        p = per.setdefault(r['scenario'], dict(executions=0, transitions=0, checks=0, cpu_s=0.0))
        p['executions'] += r['executions']; p['transitions'] += r['transitions']; p['checks'] += r['checks']; p['cpu_s'] = round(p['cpu_s'] + r['wall'], 2)
        for kk, n in r['known'].items():
            khits[kk] = khits.get(kk, 0) + n
    samples = []
    seen = set()
    for r, _ in results:
        for s in r['samples']:
            if (r['scenario'], s) not in seen and len([1 for x in samples if x['scenario'] == r['scenario']]) < 2:
                seen.add((r['scenario'], s)); samples.append(dict(scenario=r['scenario'], backend=r['backend'], execution=s))
    ev = dict(property=pid, tier=tier, seed=seed, level='model_checking', wall_s=round(wall, 2), violations=len(viol),
              coverage=dict(states=len(states), transitions=sum(p['transitions'] for p in per.values()),
                            traces_validated_against_impl=sum(p['executions'] for p in per.values()),
                            oracle_comparisons=sum(p['checks'] for p in per.values()),
                            exhaustive=not viol and not errors, backends=sorted(exes), scenarios=per,
                            known_finding_hits=khits, build_s=round(tb, 2), samples=samples[:24]),
              assumptions=CHECKS[pid].get('assumptions', []) + [
                  'state = hash of the reference model state reached; transition = operation executed on library and reference model; '
                  'trace = one complete execution of the real library compared step by step with the reference model'])
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    for k in known:
        if khits.get(k['id']):
            print('KNOWN-FINDING: property=%s %s: %s' % (pid, k['id'], k['what']))
    print('%s %s: %d states, %d transitions, %d executions, %d comparisons, %.1f s (build %.1f s)' % (
        pid, tier, len(states), ev['coverage']['transitions'], ev['coverage']['traces_validated_against_impl'], ev['coverage']['oracle_comparisons'], wall, tb))
    if viol:
        os.makedirs(os.path.join(VERIF, 'replays'), exist_ok=True)
        v = min(viol, key=lambda v: len(v['path']))
        rp = os.path.join(VERIF, 'replays', '%s-%s-%s.json' % (pid, v['backend'], v['scenario']))
        json.dump(dict(v, property=pid), open(rp, 'w'), indent=1)
        print('scenario %s (%s): %s\n  execution: %s' % (v['scenario'], v['backend'], v['msg'][:1500], v['trace'][:1500]))
        print('VIOLATION property=%s replay=%s' % (pid, rp))
        return 1
    if errors:
        for e in errors:
            print('CHECK-ERROR', e, file=sys.stderr)
        return 2
    return 0

def replay(exe, v, kids, log):
    args = ['--scenario', v['scenario'], '--known', kids, '--watchdog', '120', '--replay', ','.join(map(str, v['path']))]
    if v['tier'] == 'thorough':
        args.append('--thorough')
    rc = run_one(exe, args, 300, log)
    return rc, tail(log)

def replay_shard(exe, v, kids, base):
    """all executions up to the failing one, as in the exploration"""
    out = base + '.seq.json'
    if os.path.exists(out):
        os.unlink(out)
    args = ['--scenario', v['scenario'], '--known', kids, '--shard', v['shard'], '--watchdog', '120', '--out', out]
    if v['tier'] == 'thorough':
        args.append('--thorough')
    rc = run_one(exe, args, 700, base + '.seq.log')
    if rc == 0 and os.path.exists(out):
        r = json.load(open(out))
        return (40, r['msg']) if r['violated'] else (0, '')
    return (0, '') if rc in ('timeout', 90, 91) else (rc, tail(base + '.seq.log'))

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property', nargs='?')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--replay')
    ap.add_argument('--build-only', action='store_true')
    a = ap.parse_args()
    seed = int(os.environ.get('VERIF_SEED', '1'))
    try:
        if a.replay:
            v = json.load(open(a.replay))
            exes = build(v['property'])
            kids = ','.join(k['id'] for k in known_findings(v['property']))
            if v.get('sequence'):
                rc, txt = replay_shard(exes[v['backend']], v, kids, os.path.join(BUILD, 'replay'))
            else:
                rc, txt = replay(exes[v['backend']], v, kids, os.path.join(BUILD, 'replay.log'))
            print(txt)
            print('replay status:', rc)
            sys.exit(0 if rc in (0, 41) else 1)
        if a.build_only:
            build(a.property)
            return
        sys.exit(explore(a.property, a.tier, seed))
    except CheckError as e:
        print('CHECK-ERROR', e, file=sys.stderr)
        sys.exit(2)

main()
