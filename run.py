#!/usr/bin/env python3
"""Builds /repo's current sources together with harness/<ID>.cpp, explores it exhaustively, and reports.

usage: run.py ID [--tier quick|thorough] [--suite NAME] [--replay FILE] [--all] [--setup]
"""
import sys, os, re, json, time, glob, hashlib, subprocess, shutil, tempfile, concurrent.futures, argparse

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('MC_REPO', '/repo')
BUILD = os.path.join(VERIF, '.build')
KNOWN = os.path.join(VERIF, 'known_findings.txt')
CXX = '/usr/bin/g++'
BASE = ['-std=c++17', '-g1', '-fno-omit-frame-pointer', '-pthread', '-w', '-fmax-errors=3', '-fno-diagnostics-show-caret']
MODES = {
    # address + undefined behaviour sanitizers: memory errors and UB are violations too
    'asan': ['-O1', '-fsanitize=address,undefined', '-fno-sanitize-recover=undefined', '-D_GLIBCXX_ASSERTIONS'],
    # instrumented memory accesses handled by mc/sched.cpp (own runtime: race detector + scheduler)
    'sched': ['-O1', '-fsanitize=thread', '-include', VERIF + '/mc/noextern.h', '-U_FORTIFY_SOURCE', '-fno-builtin-memcpy'],
}
WRAP = ['__cxa_guard_acquire', '__cxa_guard_release', '__cxa_guard_abort', 'memcpy', 'memmove', 'memset', 'memcmp', 'strlen', 'memchr',
        'vsnprintf', 'snprintf', 'vsprintf', 'sprintf', 'strcpy', 'strncpy', 'strcat', 'strcmp', 'strtod', 'strtof', 'localtime_r', 'getcwd', 'readlink', 'gethostname',
        '_ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_', '_ZSt28_Rb_tree_rebalance_for_erasePSt18_Rb_tree_node_baseRS_',
        '_ZSt18_Rb_tree_incrementPSt18_Rb_tree_node_base', '_ZSt18_Rb_tree_incrementPKSt18_Rb_tree_node_base', '_ZSt18_Rb_tree_decrementPSt18_Rb_tree_node_base']
NJ = os.cpu_count() or 8


class Infra(Exception):
    pass


def directives(src):
    d = {}
    for m in re.finditer(r'^// MC:\s*(\S+?)\s*=\s*(.*)$', open(src).read(), re.M):
        d[m[1]] = m[2].strip()
    return d


def tree_hash(flags):
    h = hashlib.sha256()
    for f in sorted(glob.glob(REPO + '/xo/**/*', recursive=True) + glob.glob(REPO + '/contrib/**/*', recursive=True)):
        if f.endswith(('.h', '.cpp', '.hpp', '.inl')):
            h.update(f[len(REPO):].encode() + b'\0')
            h.update(open(f, 'rb').read())
    for f in sorted(glob.glob(VERIF + '/mc/*')):
        h.update(open(f, 'rb').read())
    h.update(' '.join(flags).encode())
    return h.hexdigest()[:16]


def compile_one(args):
    src, obj, flags = args
    tmp = obj + '.%d.tmp' % os.getpid()
    p = subprocess.run([CXX, *flags, '-c', src, '-o', tmp], capture_output=True, text=True)
    if p.returncode:
        return src, p.stderr
    os.replace(tmp, obj)
    return src, None


def build(prop):
    src = f'{VERIF}/harness/{prop}.cpp'
    d = directives(src)
    mode = d.get('mode', 'asan')
    flags = BASE + MODES[mode] + d.get('flags', '').split() + ['-I', REPO, '-I', VERIF + '/mc', '-I', VERIF + '/harness']
    th = tree_hash(BASE + MODES[mode] + d.get('flags', '').split())
    bd = f'{BUILD}/{mode}-{th}'
    os.makedirs(bd, exist_ok=True)
    os.utime(bd)
    jobs, objs = [], []
    for s in sorted(glob.glob(REPO + '/xo/**/*.cpp', recursive=True)):
        o = f'{bd}/lib_' + os.path.relpath(s, REPO).replace('/', '_') + '.o'
        objs.append(o)
        if not os.path.exists(o):
            jobs.append((s, o, flags))
    # the explorer itself is never instrumented
    plain = BASE + ['-O2', '-I', VERIF + '/mc']
    eng = ['mc.cpp'] + (['sched.cpp'] if mode == 'sched' else [])
    for e in eng:
        o = f'{bd}/mc_{e}.o'
        objs.append(o)
        if not os.path.exists(o):
            jobs.append((f'{VERIF}/mc/{e}', o, plain + (['-fno-builtin', '-fno-tree-loop-distribute-patterns'] if e == 'sched.cpp' else [])))
    hh = hashlib.sha256(open(src, 'rb').read() + b''.join(open(f, 'rb').read() for f in sorted(glob.glob(VERIF + '/harness/*.h')))).hexdigest()[:16]
    srcs = [src] + [f'{VERIF}/harness/{x}' for x in d.get('extra', '').split()]
    for x in srcs:
        o = f'{bd}/h_{os.path.basename(x)}-{hh}.o'
        objs.append(o)
        if not os.path.exists(o):
            jobs.insert(0, (x, o, flags))
    if jobs:
        with concurrent.futures.ThreadPoolExecutor(NJ) as ex:
            for s, err in ex.map(compile_one, jobs):
                if err:
                    raise Infra(f'compilation of {s} failed:\n{err[:6000]}')
    exe = f'{bd}/{prop}-{hh}'
    if not os.path.exists(exe):
        link = ['-fsanitize=address,undefined'] if mode == 'asan' else ['-Wl,--wrap=' + w for w in WRAP]
        p = subprocess.run([CXX, *BASE, *link, *objs, '-o', exe + '.tmp', '-ldl', '-rdynamic', *d.get('link', '').split()], capture_output=True, text=True)
        if p.returncode:
            raise Infra('link failed:\n' + p.stderr[:6000])
        os.replace(exe + '.tmp', exe)
    # keep disk use bounded
    dirs = sorted(glob.glob(BUILD + '/*-*'), key=os.path.getmtime, reverse=True)
    for x in dirs[6:]:
        if time.time() - os.path.getmtime(x) > 3600:
            shutil.rmtree(x, ignore_errors=True)
    return exe, d


def known_keys(prop):
    res = {}
    if os.path.exists(KNOWN):
        for l in open(KNOWN, encoding='utf-8'):
            l = l.rstrip('\n')
            if l.startswith('known: '):
                m = re.match(r'known: property=(\S+) what="([^"]*)" key=(.*)$', l)
                if m and m[1] == prop:
                    res[m[3]] = m[2]
    return res


def scratch_dir():
    # in memory where there is room: the harnesses create and remove files at every step
    try:
        v = os.statvfs('/dev/shm')
        return '/dev/shm' if v.f_bavail * v.f_frsize > 2 << 30 and os.access('/dev/shm', os.W_OK) else None
    except OSError:
        return None


def env(scratch):
    e = dict(os.environ)
    e['ASAN_OPTIONS'] = 'detect_leaks=0:quarantine_size_mb=8:thread_local_quarantine_size_kb=64:allocator_may_return_null=0:max_allocation_size_mb=2048:detect_stack_use_after_return=0:exitcode=99:malloc_context_size=8:symbolize=1'
    e['UBSAN_OPTIONS'] = 'print_stacktrace=1:halt_on_error=1:exitcode=99'
    e['MC_SCRATCH'] = scratch
    e['LC_ALL'] = 'C'
    e['TZ'] = 'UTC'
    e['TMP'] = e['TEMP'] = e['TMPDIR'] = scratch + '/tmp'
    e['HOME'] = scratch + '/home'
    os.makedirs(scratch + '/tmp', exist_ok=True)
    os.makedirs(scratch + '/home', exist_ok=True)
    return e


def run(prop, tier, seed, suite=None, time_limit=None):
    t0 = time.time()
    exe, d = build(prop)
    t_build = time.time() - t0
    out = tempfile.mkdtemp(prefix='mc_%s_' % prop, dir=scratch_dir())
    try:
        known = known_keys(prop)
        open(out + '/known.txt', 'w').write(''.join(k + '\n' for k in known))
        scratch = out + '/scratch'
        os.makedirs(scratch)
        e = env(scratch)
        # a safety net only: every suite is sized to finish far below it
        e['MC_TIME_LIMIT'] = str(time_limit or (720 - t_build if tier == 'quick' else 14000))
        cmd = [exe, '--out', out, '--workers', d.get('workers', str(NJ)), '--seed', str(seed), '--known', out + '/known.txt']
        if tier == 'thorough':
            cmd.append('--thorough')
        if suite:
            cmd += ['--suite', suite]
        p = subprocess.run(cmd, env=e, cwd=scratch, capture_output=True, text=True, errors='replace')
        if not os.path.exists(out + '/result.json') or p.returncode not in (0, 1):
            raise Infra(f'harness ended with {p.returncode}\n{p.stdout[-3000:]}\n{p.stderr[-3000:]}')
        res = json.load(open(out + '/result.json'))
        recs, seen = [], set()
        if os.path.exists(out + '/records.jsonl'):
            for l in open(out + '/records.jsonl'):
                r = json.loads(l)
                if r['key'] not in seen:
                    seen.add(r['key'])
                    recs.append(r)
        samples = []
        if os.path.exists(out + '/samples.jsonl'):
            for l in open(out + '/samples.jsonl'):
                r = json.loads(l)
                if r['trace'] and r not in samples:
                    samples.append(r)
        # a spread of samples over the suites
        by = {}
        for s in samples:
            by.setdefault(s['suite'], []).append(s)
        pick = []
        for s in by.values():
            pick += s[-2:]
        crash = open(out + '/crash.txt', errors='replace').read() if os.path.exists(out + '/crash.txt') else ''
        unknown = [r for r in recs if not r['known']]
        knownr = [r for r in recs if r['known']]
        confirmed = []
        os.makedirs(VERIF + '/replays', exist_ok=True)
        for i, r in enumerate(unknown[:12]):
            # reproduce in a fresh process before believing it
            ro = out + '/r%d' % i
            os.makedirs(ro + '/scratch')
            rp = subprocess.run([exe, '--out', ro, '--seed', str(seed), '--replay', r['suite'], ' '.join(map(str, r['choices'])), *(['--thorough'] if tier == 'thorough' else [])],
                                env=env(ro + '/scratch'), cwd=ro + '/scratch', capture_output=True, text=True, errors='replace')
            r['reproduced'] = rp.returncode == 1
            r['property'] = prop
            r['seed'] = seed
            r['replay_output'] = rp.stdout[-5000:]
            f = f'{VERIF}/replays/{prop}-{i}.json'
            json.dump(r, open(f, 'w'), indent=1)
            r['file'] = f
            confirmed.append(r)
        return res, confirmed, knownr, known, pick, crash, t_build, time.time() - t0
    finally:
        shutil.rmtree(out, ignore_errors=True)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--suite')
    ap.add_argument('--replay')
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    tier = 'thorough' if a.tier == 'thorough' else 'quick'
    if a.replay:
        r = json.load(open(a.replay))
        exe, d = build(a.prop)
        out = tempfile.mkdtemp(prefix='mc_replay_')
        try:
            e = env(out)
            p = subprocess.run([exe, '--out', out, '--seed', str(r.get('seed', 1)), '--replay', r['suite'], ' '.join(map(str, r['choices'])), *(['--thorough'] if r.get('tier') == 'thorough' else [])], env=e, cwd=out, text=True, errors='replace', capture_output=True)
            print(p.stdout)
            return 1 if p.returncode == 1 else 0 if p.returncode == 0 else 2
        finally:
            shutil.rmtree(out, ignore_errors=True)
    try:
        res, viol, knownr, known, samples, crash, tb, wall = run(a.prop, tier, seed, a.suite)
    except Infra as e:
        print('ERROR:', e)
        return 2
    ev = {
        'property': a.prop, 'tier': tier, 'seed': seed, 'level': 'model_checking',
        'coverage': {
            'states': res['states'], 'transitions': res['transitions'],
            'traces_validated_against_impl': res['executions'],
            'oracle_comparisons': res['checks'],
            'pruned_at_expanded_state': res['pruned'],
            'longest_choice_sequence': res['max_choices'],
            'suites': res['suites'],
            'exhaustive': res['truncated'] == 0 and res['table_full'] == 0 and not viol and not a.suite,
            'samples': samples[:40],
            'rule': 'every choice sequence of every suite within the bounds in DESIGN.md, executed on the code built from /repo, each compared with the reference model',
        },
        'assumptions': ['bounds and oracles as stated in DESIGN.md for this property', 'the reference models in harness/, the explorer in mc/, gcc and its sanitizer runtimes'],
        'wall_s': round(wall, 3), 'violations': len(viol),
        'known_findings_seen': len(knownr), 'build_s': round(tb, 2),
    }
    if not a.suite:
        os.makedirs(VERIF + '/evidence', exist_ok=True)
        json.dump(ev, open(f'{VERIF}/evidence/{a.prop}.json', 'w'), indent=1)
    for k in {r['key']: 1 for r in knownr}:
        print(f"KNOWN-FINDING: property={a.prop} {known[k]} ({' '.join(k.split(' :: ')[1].split())})")
    print(f"{a.prop} {tier}: {res['executions']} executions, {res['states']} states, {res['transitions']} transitions, {res['checks']} comparisons; build {tb:.1f}s, total {wall:.1f}s" + (' TRUNCATED' if res['truncated'] else ''))
    if a.v:
        for s in res['suites']:
            print('   ', s)
    if crash:
        print(crash[:4000 if a.v else 2500])
    bad = 0
    for r in viol[:5 if a.v else 4]:
        print(f"  {r['suite']}: {r['message'][:700]}\n    trace: {r['trace'][:600]}")
        if not r['reproduced']:
            print('    (not reproduced by its replay)')
    bad = sum(r['reproduced'] for r in viol)
    if viol and not bad:
        print('ERROR: violations were recorded, none could be reproduced from its choice sequence')
    if viol:
        for r in viol[:3]:
            if r['reproduced'] or not bad:
                print(f"VIOLATION property={a.prop} replay={r['file']}")
        return 1
    return 0


if __name__ == '__main__':
    sys.exit(main())
