#!/usr/bin/env python3
"""Runs one check:  run.py check C01 | run.py replay FILE | run.py setup

A check compiles the library from /repo's working tree in the variants the
property asks for, compiles the property's harness, lets several processes
search generated cases (every case is a function of VERIF_SEED and its index),
and, when a case fails, shrinks it, replays it in fresh processes and reports
it.  See DESIGN.md.
"""
import concurrent.futures as cf
import glob, json, os, re, shutil, signal, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.path.join(HERE, 'build')
JOBS = 8


def tool(*names):
    for n in names:
        p = shutil.which(n)
        if p:
            return p
    raise SystemExit('no compiler: ' + names[0])


SAN = ['-fsanitize=address,bounds,unreachable,integer-divide-by-zero,shift-exponent',
       '-fno-sanitize-recover=all', '-fno-omit-frame-pointer']
# variant: (compilers, flags for the library and harness, flags of the library only)
VARIANTS = {
    'asan':     ('clang', ['-O1', '-g1'] + SAN, []),
    'scalar':   ('clang', ['-O1', '-g1'] + SAN, ['-DROARING_DISABLE_X64']),
    'avx2':     ('clang', ['-O1', '-g1'] + SAN, ['-DCROARING_COMPILER_SUPPORTS_AVX512=0']),
    'plain':    ('gcc', ['-O2', '-g1'], []),
    'plainsc':  ('gcc', ['-O2', '-g1'], ['-DROARING_DISABLE_X64']),
    'plainna':  ('gcc', ['-O2', '-g1'], ['-DCROARING_ATOMIC_IMPL=CROARING_ATOMIC_IMPL_NONE']),
    'tsan':     ('clang', ['-O1', '-g1', '-fsanitize=thread'], []),
    'fuzz':     ('clang', ['-O1', '-g1', '-fsanitize=fuzzer-no-link'] + SAN, []),
}
ENV = {
    'ASAN_OPTIONS': 'detect_leaks=0:allocator_may_return_null=1:hard_rss_limit_mb=3500:'
                    'max_malloc_fill_size=4096:malloc_fill_byte=190:quarantine_size_mb=48:'
                    'detect_stack_use_after_return=0:abort_on_error=0:exitcode=77:'
                    'allocation_size_too_big_exit=0:handle_segv=1',
    'UBSAN_OPTIONS': 'print_stacktrace=1',
    'TSAN_OPTIONS': 'halt_on_error=1:exitcode=66:report_signal_unsafe=0:second_deadlock_stack=0',
    'MALLOC_PERTURB_': '165',
}


class BuildError(Exception):
    pass


def sh(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')
    if p.returncode:
        raise BuildError(' '.join(cmd) + '\n' + p.stdout[-4000:])


def compilers(fam):
    if fam == 'clang':
        return tool('clang', 'clang-18'), tool('clang++', 'clang++-18')
    return tool('gcc', 'cc'), tool('g++', 'c++')


def build(cfg, variants, out, libfuzzer=False):
    """Compiles everything in parallel; returns {variant: binary}."""
    os.makedirs(out, exist_ok=True)
    lib_srcs = sorted(glob.glob(REPO + '/src/**/*.c', recursive=True))
    skip = cfg.get('skip_lib', [])
    jobs, links = [], []
    inc = ['-I' + REPO + '/include', '-I' + REPO + '/cpp', '-I' + REPO, '-I' + HERE + '/engine', '-I' + HERE + '/props']
    harness_done = {}
    for v in variants:
        fam, common, libonly = VARIANTS[v]
        cc, cxx = compilers(fam)
        objs = []
        for s in lib_srcs:
            if os.path.relpath(s, REPO) in skip:
                continue
            o = os.path.join(out, v + '_' + os.path.relpath(s, REPO).replace('/', '_') + '.o')
            flags = cfg.get('lib_flags', [])
            jobs.append([cc, '-std=c11', '-D_GNU_SOURCE', '-DNDEBUG', '-w', '-c', s, '-o', o] + common + libonly + flags + inc)
            objs.append(o)
        key = (fam, tuple(common), libfuzzer)
        if key not in harness_done:
            hobjs = []
            for s in cfg['src'] + ['engine/main.cpp']:
                o = os.path.join(out, v + '_h_' + os.path.basename(s) + '.o')
                p = os.path.join(HERE, s)
                if s.endswith('.c'):
                    jobs.append([cc, '-std=c11', '-D_GNU_SOURCE', '-w', '-c', p, '-o', o] + common + cfg.get('flags', []) + inc)
                else:
                    jobs.append([cxx, '-std=c++17', '-w', '-c', p, '-o', o] + common + cfg.get('flags', []) + inc
                                + (['-DPBT_LIBFUZZER'] if libfuzzer else []))
                hobjs.append(o)
            harness_done[key] = hobjs
        binp = os.path.join(out, 'bin_' + v)
        san = [f for f in common if f.startswith('-fsanitize')]
        if libfuzzer:
            san = [f.replace('fuzzer-no-link', 'fuzzer') for f in san]
        links.append([cxx, '-o', binp] + harness_done[key] + objs + san + cfg.get('link', []) + ['-lpthread', '-lm'])
    # big files first
    jobs.sort(key=lambda j: -os.path.getsize(j[j.index('-c') + 1]) * (3 if j[0].endswith('++') else 1))
    with cf.ThreadPoolExecutor(JOBS) as ex:
        list(ex.map(sh, jobs))
        list(ex.map(sh, links))
    return {v: os.path.join(out, 'bin_' + v) for v in variants}


def env():
    e = dict(os.environ)
    e.update(ENV)
    return e


def read_tape(shm):
    import struct
    with open(shm, 'rb') as f:
        idx, n, status = struct.unpack('<QQQ', f.read(24))
        msg = f.read(4096).split(b'\0')[0].decode('utf8', 'replace')
        n = min(n, 1 << 18)
        data = struct.unpack('<%dQ' % n, f.read(8 * n))
    return idx, status, msg, data


def write_tape(path, data):
    with open(path, 'w') as f:
        for i in range(0, len(data), 12):
            f.write(' '.join(map(str, data[i:i + 12])) + '\n')


def replay(binp, pid, tape, seed, tier, cpu, quiet=False):
    try:
        p = subprocess.run([binp, 'replay', '--prop', pid, '--tape', tape, '--seed', str(seed), '--tier', tier,
                            '--cpu', str(cpu)] + (['--quiet', '1'] if quiet else []), env=env(),
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', timeout=240)
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired:
        return 0, 'replay timed out'


def load_known():
    known, path = [], os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(path):
        for l in open(path):
            m = re.match(r'finding: property=(\S+) match=/(.*)/ (.*)', l)
            if m:
                known.append(m.groups())
    return known


def check(pid):
    from checks import CHECKS
    t0 = time.time()
    cfg = CHECKS[pid]
    tier = sys.argv[3] if len(sys.argv) > 3 else os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    work = os.path.join(BUILD, pid)
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    plan = cfg['plan']  # list of (variant, share of cases); one process each
    variants = []
    for v, _ in plan:
        if v not in variants:
            variants.append(v)
    try:
        bins = build(cfg, variants, work)
    except BuildError as e:
        print('BUILD-ERROR', str(e)[-6000:])
        return 2
    t_build = time.time() - t0
    cases = cfg['quick'] if tier == 'quick' else cfg.get('thorough', cfg['quick'] * 10)
    cases = int(os.environ.get('VERIF_CASES', cases))
    budget = 240 if tier == 'quick' else cfg.get('thorough_s', 1500)
    cpu = cfg.get('cpu', 40)
    tot = float(sum(s for _, s in plan))
    procs, start = [], 0
    for k, (v, s) in enumerate(plan):
        n = max(1, int(cases * s / tot))
        shm = os.path.join(work, 'shm%d' % k)
        stats = os.path.join(work, 'stats%d.json' % k)
        err = open(os.path.join(work, 'err%d' % k), 'wb')
        cmd = [bins[v], 'run', '--prop', pid, '--seed', str(seed), '--from', str(start), '--to', str(start + n),
               '--budget', str(budget), '--stats', stats, '--shm', shm, '--tier', tier, '--cpu', str(cpu)]
        p = subprocess.Popen(cmd, env=env(), stdout=err, stderr=err, start_new_session=True)
        procs.append(dict(p=p, v=v, shm=shm, stats=stats, cmd=cmd, start=start, n=n, err=err.name))
        start += n
    failed = []
    deadline = time.time() + budget * 1.5 + 120
    while any(q['p'].poll() is None for q in procs):
        bad = [q for q in procs if q['p'].poll() not in (None, 0)]
        if bad and not failed:
            failed = bad
            grace = time.time() + 2
        if failed and time.time() > grace:
            break
        if time.time() > deadline:
            print('NOTE: worker did not end in time; stopped')
            break
        time.sleep(0.05)
    failed = [q for q in procs if q['p'].poll() not in (None, 0)]
    for q in procs:
        if q['p'].poll() is None:
            try:
                os.killpg(q['p'].pid, signal.SIGKILL)
            except OSError:
                pass
            q['p'].wait()
    violations, known_hits, notes = [], [], []
    known = load_known()
    for q in failed:
        r = handle_failure(pid, q, bins, work, seed, tier, cpu)
        if r is None:
            notes.append('a worker (%s) ended with code %s but no failing case reproduced: %s' % (
                q['v'], q['p'].returncode, open(q['err'], 'rb').read()[-300:].decode('utf8', 'replace')))
            continue
        path, msg, out = r
        hit = [k for k in known if k[0] == pid and re.search(k[1], msg + '\n' + out)]
        if hit:
            known_hits.append(hit[0])
            continue
        violations.append((path, msg, out))
        break
    fuzz = None
    if tier == 'thorough' and not failed and cfg.get('fuzz', True):
        try:
            fuzz, hit = fuzz_stage(pid, cfg, bins, work, seed, tier, cpu)
        except BuildError as e:
            print('BUILD-ERROR', str(e)[-6000:])
            return 2
        if hit and not [k for k in known if k[0] == pid and re.search(k[1], hit[1] + '\n' + hit[2])]:
            violations.append(hit)
    merge_evidence(pid, cfg, tier, seed, procs, t0, t_build, violations, notes, fuzz)
    for n in notes:
        print('NOTE:', n)
    for k in known:
        if k[0] == pid:
            print('KNOWN-FINDING: property=%s %s' % (pid, k[2]))
    if violations:
        path, msg, out = violations[0]
        print(out[-3000:])
        print('%s: %s' % (pid, msg))
        print('VIOLATION property=%s replay=%s' % (pid, path))
        return 1
    if any(q['p'].returncode not in (0,) for q in procs) and not known_hits:
        print('%s: the search could not be completed' % pid)
        return 2
    print('%s: held on everything explored (%.1f s, build %.1f s)' % (pid, time.time() - t0, t_build))
    return 0


def handle_failure(pid, q, bins, work, seed, tier, cpu):
    """Shrinks and confirms; returns (replay path, message, output) or None."""
    try:
        idx, status, msg, data = read_tape(q['shm'])
    except Exception as e:
        return None
    tape = os.path.join(work, 'tape_%s_%d' % (q['v'], idx))
    write_tape(tape, data)
    rc, out = replay(bins[q['v']], pid, tape, seed, tier, cpu, quiet=True)
    outdir = os.path.join(HERE, 'evidence')
    path = os.path.join(outdir, '%s.replay' % pid)
    binp = bins[q['v']]
    if rc == 0:
        # depends on what ran before it in the process: replay the range
        cmd = list(q['cmd'])
        s = cmd.index('--to')
        cmd[s + 1] = str(idx + 1)
        cmd[cmd.index('--shm') + 1] = q['shm'] + '.again'
        cmd[cmd.index('--stats') + 1] = q['stats'] + '.again'
        p = subprocess.run(cmd, env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')
        if p.returncode == 0:
            return None
        with open(path, 'w') as f:
            f.write('# property %s\n# variant %s\n# seed %d tier %s\n# range %d %d\n# %s\n' % (
                pid, q['v'], seed, tier, q['start'], idx + 1, msg.replace('\n', ' ')))
        return path, msg or 'sanitizer report', p.stdout
    small = tape + '.small'
    sb = 45 if tier == 'quick' else 200
    p = subprocess.run([binp, 'shrink', '--prop', pid, '--tape', tape, '--out', small, '--seed', str(seed),
                        '--budget', str(sb), '--tier', tier, '--cpu', str(cpu)], env=env(),
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')
    return confirm(pid, q['v'], binp, [small, tape], msg, seed, tier, cpu)


def confirm(pid, variant, binp, cands, msg, seed, tier, cpu):
    path = os.path.join(HERE, 'evidence', '%s.replay' % pid)
    for t in cands:
        if not os.path.exists(t):
            continue
        rc, out = replay(binp, pid, t, seed, tier, cpu)
        if rc and replay(binp, pid, t, seed, tier, cpu, quiet=True)[0]:
            body = ''.join(l for l in open(t) if not l.startswith('#'))
            m = re.search(r'^RESULT \d+ (.*)', out, re.M)
            m = m.group(1) if m else msg
            if 'sanitizer report' in m:
                s = re.search(r'(SUMMARY: .*|runtime error: .*)', out)
                if s:
                    m = s.group(1)
            with open(path, 'w') as f:
                f.write('# property %s\n# variant %s\n# seed %d tier %s\n# %s\n%s' % (
                    pid, variant, seed, tier, m.replace('\n', ' '), body))
            return path, m, out
    return None


def fuzz_stage(pid, cfg, bins, work, seed, tier, cpu):
    """Coverage-guided search (libFuzzer) over the same property function; its
    byte inputs are read as draws.  Returns (statistics, violation or None)."""
    secs, nproc = int(os.environ.get('VERIF_FUZZ_S', cfg.get('fuzz_s', 240))), JOBS
    fb = build(cfg, ['fuzz'], os.path.join(work, 'fuzz'), libfuzzer=True)['fuzz']
    e = env()
    e['PBT_PROP'] = pid
    e['ASAN_OPTIONS'] = e['ASAN_OPTIONS'].replace('hard_rss_limit_mb=3500:', '')
    procs = []
    for k in range(nproc):
        d = os.path.join(work, 'fuzz', 'p%d' % k)
        os.makedirs(d + '/corpus')
        log = open(d + '/log', 'wb')
        p = subprocess.Popen([fb, '-seed=%d' % (seed * 100 + k), '-max_total_time=%d' % secs, '-max_len=%d' % [512, 4096][k % 2],
                              '-len_control=20', '-timeout=%d' % cpu, '-rss_limit_mb=3500', '-malloc_limit_mb=3500',
                              '-print_final_stats=1', '-artifact_prefix=%s/art-' % d, '-detect_leaks=0', d + '/corpus'],
                             env=e, stdout=log, stderr=log, start_new_session=True)
        procs.append((p, d))
    end = time.time() + secs + 150
    while any(p.poll() is None for p, d in procs) and time.time() < end:
        if any(glob.glob(d + '/art-*') for p, d in procs if p.poll() not in (None, 0)):
            break
        time.sleep(0.2)
    for p, d in procs:
        if p.poll() is None:
            try:
                os.killpg(p.pid, signal.SIGINT if time.time() < end else signal.SIGKILL)
                p.wait(20)
            except (OSError, subprocess.TimeoutExpired):
                os.killpg(p.pid, signal.SIGKILL)
                p.wait()
    st = dict(seconds=secs, processes=nproc, executions=0, covered_edges=0, corpus=0, unconfirmed=0)
    hit = None
    for p, d in procs:
        txt = open(d + '/log', errors='replace').read()
        execs = re.findall(r'^#(\d+)', txt, re.M)
        cov = re.findall(r'cov: (\d+)', txt)
        st['executions'] += int(execs[-1]) if execs else 0
        st['covered_edges'] = max(st['covered_edges'], int(cov[-1]) if cov else 0)
        st['corpus'] += len(os.listdir(d + '/corpus'))
        for a in sorted(glob.glob(d + '/art-*')):
            if 'slow-unit' in a or hit:
                continue
            for v in bins:
                tape = a + '.tape'
                subprocess.run([bins[v], 'replay', '--prop', pid, '--bytes', a, '--rec', tape, '--tier', tier, '--quiet', '1',
                                '--cpu', str(cpu)], env=env(), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
                rc, out = replay(bins[v], pid, tape, seed, tier, cpu, quiet=True)
                if rc:
                    small = tape + '.small'
                    subprocess.run([bins[v], 'shrink', '--prop', pid, '--tape', tape, '--out', small, '--seed', str(seed),
                                    '--budget', '120', '--tier', tier, '--cpu', str(cpu)], env=env(),
                                   stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
                    hit = confirm(pid, v, bins[v], [small, tape], 'found by libFuzzer', seed, tier, cpu)
                    break
            else:
                st['unconfirmed'] += 1
    return st, hit


def merge_evidence(pid, cfg, tier, seed, procs, t0, t_build, violations, notes, fuzz=None):
    ev, nt, hashes, counters, samples, rule = 0, 0, set(), {}, [], ''
    per, stopped, slow, walls = {}, False, 0, []
    for q in procs:
        try:
            s = json.load(open(q['stats']))
        except Exception:
            try:
                idx, status, msg, data = read_tape(q['shm'])
                ev += max(0, idx - q['start'])
            except Exception:
                pass
            continue
        ev += s['evaluations']
        nt += s['nontrivial']
        stopped |= s['stopped']
        hashes.update(s['hashes'])
        rule = s['rule']
        per[q['v']] = per.get(q['v'], 0) + s['evaluations']
        slow = max(slow, s['slowest_s'])
        walls.append('%s:%.0fs' % (q['v'], s['wall_s']))
        for k, n in s['counters'].items():
            counters[k] = counters.get(k, 0) + n
        samples += s['samples'][:1]
    if not rule:
        rule = 'see DESIGN.md; the run ended early'
    e = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': cfg.get('level', 'exploration'),
        'coverage': {
            'evaluations': ev, 'distinct_nontrivial': len(hashes), 'rule': rule, 'samples': samples[:6],
            'counters': counters, 'cases_per_build_variant': per, 'stopped_by_time': stopped,
            'slowest_case_s': slow,
            'build_s': round(t_build, 1), 'notes': notes,
        },
        'assumptions': cfg.get('assumptions', []),
        'wall_s': round(time.time() - t0, 1), 'violations': len(violations),
    }
    if fuzz:
        e['coverage']['libfuzzer'] = fuzz
    if violations:
        e['coverage']['violation'] = violations[0][1]
    if os.environ.get('VERIF_TIMES'):
        print(pid, 'cases', ev, 'nontrivial', len(hashes), 'slowest case', slow, ' '.join(walls))
    with open(os.path.join(HERE, 'evidence', pid + '.json'), 'w') as f:
        json.dump(e, f, indent=1)


def cmd_replay(path):
    from checks import CHECKS
    head = {}
    for l in open(path):
        if not l.startswith('#'):
            break
        w = l[1:].split()
        if len(w) >= 2 and w[0] in ('property', 'variant', 'seed', 'range'):
            head[w[0]] = w[1:]
    pid, v = head['property'][0], head['variant'][0]
    seed, tier = head['seed'][0], head['seed'][2]
    cfg = CHECKS[pid]
    work = os.path.join(BUILD, pid + '_replay')
    shutil.rmtree(work, ignore_errors=True)
    bins = build(cfg, [v], work)
    if 'range' in head:
        a, b = head['range']
        p = subprocess.run([bins[v], 'run', '--prop', pid, '--seed', seed, '--from', a, '--to', b, '--tier', tier], env=env())
        rc = p.returncode
    else:
        rc, out = replay(bins[v], pid, os.path.abspath(path), int(seed), tier, cfg.get('cpu', 40))
        print(out)
    print('reproduced' if rc else 'not reproduced')
    return 1 if rc else 0


def setup():
    from checks import CHECKS
    os.makedirs(BUILD, exist_ok=True)
    tool('clang', 'clang-18'), tool('gcc')
    for pid in CHECKS:
        for s in CHECKS[pid]['src']:
            if not os.path.exists(os.path.join(HERE, s)):
                print('missing', s)
                return 1
    print('ok: %d checks; every check compiles what it needs from %s' % (len(CHECKS), REPO))
    return 0


if __name__ == '__main__':
    sys.path.insert(0, HERE)
    sys.dont_write_bytecode = True
    if len(sys.argv) >= 3 and sys.argv[1] == 'check':
        sys.exit(check(sys.argv[2]))
    if len(sys.argv) >= 3 and sys.argv[1] == 'replay':
        sys.exit(cmd_replay(sys.argv[2]))
    if len(sys.argv) >= 2 and sys.argv[1] == 'setup':
        sys.exit(setup())
    print(__doc__)
    sys.exit(3)
