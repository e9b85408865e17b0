#!/usr/bin/env python3
"""Supervisor of the monitored runs.

check.py C08               decide property C08 (VERIF_SEED, VERIF_TIER from the environment)
check.py --replay FILE     run the one case a replay file describes
check.py --build           build everything (setup)

Exit 0: held on everything observed; 1: VIOLATION line printed; 2: the check itself failed."""
import json, os, re, shutil, signal, struct, subprocess, sys, time, zlib

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = '/repo'
HARNESS = os.path.join(VERIF, 'harness')
TARGET = os.path.join(VERIF, 'target')
SHARDS = 8
TRIPLE = 'x86_64-unknown-linux-gnu'
sys.path.insert(0, os.path.join(VERIF, 'tools'))
from rules import RULES

START = time.time()
class Broken(Exception): pass          # the check cannot answer
class Violation(Exception):
    def __init__(self, message, replay): super().__init__(message); self.message, self.replay = message, replay

def env(**kw):
    e = dict(os.environ)
    for k in ('RUSTFLAGS', 'CARGO_ENCODED_RUSTFLAGS', 'RUSTUP_TOOLCHAIN', 'CARGO_BUILD_TARGET', 'CARGO_TARGET_DIR', 'LLVM_PROFILE_FILE', 'MIRIFLAGS',
              'RUSTC_WRAPPER', 'RUST_BACKTRACE', 'ASAN_OPTIONS', 'TSAN_OPTIONS', 'LSAN_OPTIONS'): e.pop(k, None)
    cb = os.path.expanduser('~/.cargo/bin')
    e['PATH'] = cb + ':' + e.get('PATH', '/usr/bin:/bin')
    e['CARGO_NET_OFFLINE'] = 'true'
    e['RUST_BACKTRACE'] = '0'
    e.update({k: str(v) for k, v in kw.items()})
    return e

def run(cmd, timeout, **kw):
    """Runs a command in a session of its own; on timeout the whole session is killed."""
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, start_new_session=True, text=True, errors='replace', **kw)
    try: out, _ = p.communicate(timeout=timeout); return p.returncode, out
    except subprocess.TimeoutExpired:
        try: os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError: pass
        out, _ = p.communicate()
        return None, out

# ---------------------------------------------------------------- builds

BUILDS = {
    'cov':  dict(tool=[], flags='-C instrument-coverage -C llvm-args=-enable-name-compression=false --cfg gmon_cov', args=['--profile', 'mon', '--bin', 'worker'], exe='mon/worker'),
    'ship': dict(tool=[], flags='-C instrument-coverage -C llvm-args=-enable-name-compression=false --cfg gmon_cov', args=['--profile', 'ship', '--bin', 'worker'], exe='ship/worker'),
    'plain': dict(tool=[], flags='-C instrument-coverage -C llvm-args=-enable-name-compression=false --cfg gmon_cov', args=['--profile', 'plain', '--bin', 'worker'], exe='plain/worker'),
    'asan': dict(tool=['+nightly'], flags='-Zsanitizer=address', args=['--profile', 'mon', '--bin', 'mini', '--target', TRIPLE], exe=TRIPLE + '/mon/mini'),
    'tsan': dict(tool=['+nightly'], flags='-Zsanitizer=thread', args=['--profile', 'mon', '--bin', 'mini', '--target', TRIPLE, '-Zbuild-std'], exe=TRIPLE + '/mon/mini'),
}
def forget(target):
    """Cargo judges by time stamps; make sure the subject is compiled from what is there now."""
    for d, subs, _ in os.walk(target):
        if os.path.basename(d) == '.fingerprint':
            for s in subs:
                if s.startswith('gamma-'): shutil.rmtree(os.path.join(d, s), ignore_errors=True)
            subs[:] = []
def build(kind):
    b = BUILDS[kind]
    target = os.path.join(TARGET, kind)
    forget(target)
    t0 = time.time()
    code, out = run(['cargo'] + b['tool'] + ['build', '--offline'] + b['args'], 600, cwd=HARNESS, env=env(RUSTFLAGS=b['flags'], CARGO_TARGET_DIR=target))
    if code != 0: raise Broken('build %s failed (%s):\n%s' % (kind, code, out[-3000:]))
    return os.path.join(target, b['exe']), time.time() - t0

def constants():
    """Numbers in the subject's source beyond the small ones (the library as it was has none). Workloads
    then also use names and sizes near them. They decide nothing else."""
    found = set()
    for d, _, fs in sorted(os.walk(os.path.join(REPO, 'src'))):
        for f in sorted(fs):
            if not f.endswith('.rs'): continue
            t = open(os.path.join(d, f), errors='replace').read()
            t = re.sub(r'//[^\n]*|/\*.*?\*/|"(?:[^"\\]|\\.)*"', ' ', t, flags=re.S)
            # without test modules
            while True:
                m = re.search(r'#\[cfg\(test\)\]\s*mod\s+\w+\s*\{', t)
                if not m: break
                i, depth = m.end(), 1
                while i < len(t) and depth: depth += {'{': 1, '}': -1}.get(t[i], 0); i += 1
                t = t[:m.start()] + t[i:]
            t = re.sub(r'#!?\[[^\]]*\]', ' ', t)
            lit = r'(?<![\w.])(0x[0-9a-fA-F_]+|0b[01_]+|0o[0-7_]+|[0-9][0-9_]*)(?:[iu](?:8|16|32|64|128|size))?(?![\w.]*[\w])'
            val = lambda x: int(x.replace('_', ''), 0 if x[:2] in ('0x', '0b', '0o') else 10)
            for m in re.finditer(lit, t): found.add(val(m.group(1)))
            for m in re.finditer(lit + r'\s*(<<|>>|\*|\+|-)\s*' + lit, t):
                a, b = val(m.group(1)), val(m.group(3))
                if m.group(2) in ('*', '+', '-') or b < 64: found.add({'<<': lambda: a << b, '>>': lambda: a >> b, '*': lambda: a * b, '+': lambda: a + b, '-': lambda: a - b}[m.group(2)]())
            for m in re.finditer(r'\b([iu])(8|16|32|64|size)::MAX\b(?:\s*(/|>>)\s*' + lit + ')?', t):
                v = (1 << {'size': 64}.get(m.group(2), 0) if m.group(2) == 'size' else 1 << int(m.group(2))) - 1
                if m.group(1) == 'i': v >>= 1
                if m.group(3) and val(m.group(4)): v = v // val(m.group(4)) if m.group(3) == '/' else v >> min(val(m.group(4)), 63)
                found.add(v)
    return sorted(x for x in found if 3 < x < 1 << 64)[:64]

# ---------------------------------------------------------------- worker runs

MEANING = {12: 'memory use without bound (1 GB live)', 13: 'work without bound (no return)', 14: 'the library waits for something that never comes (deadlock)'}
def slot_of(path):
    try:
        with open(path, 'rb') as f: return struct.unpack('<qq', f.read(16))
    except Exception: return (0, 0)

def write_replay(prop, name, data):
    d = os.path.join(VERIF, 'replays')
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, '%s-%s.json' % (prop, name))
    data['property'] = prop
    data['constants'] = os.environ.get('GMON_DICT', '')
    with open(p, 'w') as f: json.dump(data, f, indent=1)
    return p

def workers(name, exe, tier, seed, secs, tag, case=None):
    """Runs all shards. Gives merged results; raises Violation or Broken."""
    prop = name[:3]
    wd = os.path.join(TARGET, 'run', prop + '-' + tag)
    shutil.rmtree(wd, ignore_errors=True)
    os.makedirs(wd)
    procs = []
    for k in range(SHARDS if case is None else 1):
        out, slot = '%s/out%d' % (wd, k), '%s/slot%d' % (wd, k)
        cmd = [exe, name, str(seed), tier, str(k), str(SHARDS), out, slot, str(secs)] + ([] if case is None else [str(case)])
        err = open('%s/err%d' % (wd, k), 'w')
        procs.append((k, subprocess.Popen(cmd, stdout=err, stderr=err, stdin=subprocess.DEVNULL, cwd=wd, start_new_session=True, env=env(LLVM_PROFILE_FILE='%s/%d.profraw' % (wd, k))), out, slot))
    deadline = time.time() + secs + 300
    bad, broken, done, grace = [], [], set(), 0
    try:
        while len(done) < len(procs):
            time.sleep(0.05)
            for k, p, out, slot in procs:
                if k in done or p.poll() is None: continue
                done.add(k)
                rc = p.returncode
                if rc == 0: continue
                at, depth = slot_of(slot)
                errtxt = open('%s/err%d' % (wd, k)).read()[-1500:]
                if rc == 10:
                    r = json.load(open(out)); bad.append((r['case'], r['message'], r.get('inputs', '')))
                elif rc == 11:
                    r = json.load(open(out)); broken.append('harness failed in case %s: %s' % (r['case'], r['message']))
                elif rc in MEANING and depth > 0 and prop != 'C24': bad.append((at - 1, MEANING[rc], ''))
                elif rc in (-signal.SIGABRT, -signal.SIGSEGV, -signal.SIGBUS, -signal.SIGILL, -signal.SIGFPE) and depth > 0:
                    bad.append((at - 1, 'the process was ended by signal %d inside the library: %s' % (-rc, errtxt.strip()), ''))
                else: broken.append('worker %d ended with %d (case %d, depth %d): %s' % (k, rc, at - 1, depth, errtxt))
            if bad or broken:
                # a shorter case may be about to fail in another shard
                grace = grace or time.time() + (2 if bad else 0)
                if time.time() > grace: break
            if time.time() > deadline: broken.append('time limit of the supervisor reached'); break
    finally:
        for k, p, out, slot in procs:
            if p.poll() is None:
                try: os.killpg(p.pid, signal.SIGKILL)
                except ProcessLookupError: pass
                p.wait()
    if bad:
        c, msg, inputs = min(bad)
        rp = write_replay(prop, '%s-seed%d-case%d' % (tag, seed, c), dict(kind='worker', build=tag, cases=name, tier=tier, seed=seed, case=c, message=msg, inputs=inputs))
        raise Violation('case %d: %s\n%s' % (c, msg[:3000], inputs[:3000]), rp)
    if broken: raise Broken('; '.join(broken))
    tot = dict(planned=0, cases=0, evaluations=0, counters={}, maxima={}, samples=[])
    keys = set()
    for k, p, out, slot in procs:
        r = json.load(open(out))
        tot['planned'] = r['planned']
        tot['cases'] += r['cases']
        tot['evaluations'] += r['evaluations']
        for n, v in r['counters'].items(): tot['counters'][n] = tot['counters'].get(n, 0) + v
        for n, v in r['maxima'].items(): tot['maxima'][n] = max(tot['maxima'].get(n, 0), v)
        tot['samples'] += r['samples']
        b = open(out + '.keys', 'rb').read()
        keys.update(struct.unpack('<%dQ' % (len(b) // 8), b))
    tot['keys'] = keys
    tot['dir'] = wd
    return tot

def tool(name):
    for t in ('stable',):
        p = os.path.expanduser('~/.rustup/toolchains/%s-%s/lib/rustlib/%s/bin/%s' % (t, TRIPLE, TRIPLE, name))
        if os.path.exists(p): return p
    code, out = run(['rustc', '--print', 'sysroot'], 60, env=env())
    p = os.path.join(out.strip(), 'lib/rustlib', TRIPLE, 'bin', name)
    return p if os.path.exists(p) else None

def coverage(wd, exe):
    """Which of the subject's regions and functions ran, and how often, from the compiler's counters."""
    pd, lc = tool('llvm-profdata'), tool('llvm-cov')
    raws = [os.path.join(wd, f) for f in os.listdir(wd) if f.endswith('.profraw')]
    if not pd or not lc or not raws: return None
    m = os.path.join(wd, 'all.profdata')
    if run([pd, 'merge', '-sparse', '-o', m] + raws, 120)[0] != 0: return None
    p = subprocess.run([lc, 'export', '-format=text', '-skip-expansions', '-instr-profile', m, exe, '--sources', REPO + '/src'], capture_output=True, timeout=120)
    if p.returncode != 0: return None
    d = json.loads(p.stdout)['data'][0]
    files, funs = {}, {}
    for f in d['files']:
        r = f['summary']['regions']
        files[os.path.relpath(f['filename'], REPO)] = '%d of %d regions' % (r['covered'], r['count'])
    for f in d.get('functions', []):
        n = f['filenames'][0]
        if not n.startswith(REPO + '/src'): continue
        k = '%s:%d' % (os.path.relpath(n, REPO + '/src'), f['regions'][0][0])
        funs[k] = funs.get(k, 0) + f['count']
    return dict(regions=files, executions={k: v for k, v in sorted(funs.items()) if v})

# ---------------------------------------------------------------- sanitizer runs

def parse_done(out):
    m = re.search(r'mini-done (.*)', out)
    return {k: int(v) for k, v in (x.split('=') for x in m.group(1).split())} if m else None

# Complaints of the standard library's and the allocator's own checks.
CORRUPT = ['unsafe precondition(s) violated', 'free(): ', 'malloc(): ', 'realloc(): ', 'double free or corruption', 'corrupted size']
def sanitized(prop, name, mk, jobs, bad, timeout, tries=None):
    """Runs `jobs` (argument lists) in parallel under a sanitizer; mk(args) gives (cmd, env)."""
    procs = []
    for a in jobs:
        cmd, e = mk(a)
        procs.append((a, cmd, e, subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL, start_new_session=True, text=True, errors='replace', env=e, cwd=HARNESS)))
    tot, end = {}, time.time() + timeout
    fails = []
    for a, cmd, e, p in procs:
        try: out, _ = p.communicate(timeout=max(1, end - time.time()))
        except subprocess.TimeoutExpired:
            try: os.killpg(p.pid, signal.SIGKILL)
            except ProcessLookupError: pass
            p.communicate()
            fails.append('%s: no answer in time' % name); continue
        done = parse_done(out)
        if any(b in out for b in bad + CORRUPT) or p.returncode in (-signal.SIGSEGV, -signal.SIGBUS, -signal.SIGILL):
            for _, _, _, q in procs:
                if q.poll() is None:
                    try: os.killpg(q.pid, signal.SIGKILL)
                    except ProcessLookupError: pass
            i = min([out.find(b) for b in bad + CORRUPT if b in out] or [0])
            rp = write_replay(prop, '%s-%s' % (name, '-'.join(a) if len(a) < 6 else '%s-%08x' % (a[0], zlib.crc32(' '.join(a).encode()))), dict(kind='sanitizer', sanitizer=name, args=a, seed=int(os.environ.get('VERIF_SEED', '1') or 1), message=out[max(0, i - 200):i + 4000]))
            raise Violation('%s reports: %s' % (name, out[max(0, i - 100):i + 2500]), rp)
        if p.returncode != 0 or done is None: fails.append('%s ended with %s: %s' % (name, p.returncode, out[-1500:])); continue
        for k, v in done.items(): tot[k] = tot.get(k, 0) + v
    if fails: raise Broken('; '.join(fails))
    return tot

MIRI_BAD = ['Undefined Behavior', 'memory leaked', 'Data race detected']
def miri_env(seed, preempt=False):
    return env(CARGO_TARGET_DIR=os.path.join(TARGET, 'miri'), MIRIFLAGS='-Zmiri-seed=%d' % (seed % 1000003) + (' -Zmiri-preemption-rate=0.1' if preempt else ''))
def miri_cmd(a): return ['cargo', '+nightly', 'miri', 'run', '-q', '--offline', '--bin', 'mini', '--'] + a
def miri_ready():
    forget(os.path.join(TARGET, 'miri'))
    code, out = run(miri_cmd(['play', '0,0']), 400, cwd=HARNESS, env=miri_env(1))
    return (code == 0 and 'mini-done' in out), out[-1500:]
def asan_mk(exe, leaks):
    return lambda a: ([exe] + a, env(ASAN_OPTIONS='detect_leaks=%d:detect_stack_use_after_return=1:strict_string_checks=1' % leaks))
def tsan_mk(exe, fixed):
    return lambda a: ((['setarch', '-R'] if fixed else []) + [exe] + a, env(TSAN_OPTIONS='halt_on_error=1:second_deadlock_stack=1'))
ASAN_BAD = ['ERROR: AddressSanitizer', 'LeakSanitizer: detected memory leaks']
TSAN_BAD = ['WARNING: ThreadSanitizer']

def run_asan(prop, seed, per, first=0):
    exe, _ = build('asan')
    leaks = 1
    code, out = run([exe, 'api', '1', '0', '2'], 60, env=env(ASAN_OPTIONS='detect_leaks=1'))
    if code != 0 and 'LeakSanitizer has encountered a fatal error' in out: leaks = 0
    jobs = [['api', str(seed), str(first + k * per), str(per)] for k in range(SHARDS)]
    r = sanitized(prop, 'asan', asan_mk(exe, leaks), jobs, ASAN_BAD, 400)
    r['leak_detection'] = bool(leaks)
    return r
def run_tsan(prop, seed, per, first=0):
    exe, _ = build('tsan')
    code, out = run([exe, 'race', '1', '0', '1'], 60, env=env())
    fixed = code != 0 and 'FATAL: ThreadSanitizer' in out
    jobs = [['race', str(seed), str(first + k * per), str(per)] for k in range(SHARDS)]
    return sanitized(prop, 'tsan', tsan_mk(exe, fixed), jobs, TSAN_BAD, 400)
def programs(exe, tier, seed, secs):
    """Programs that together execute what many thousands do: first each code region, then each about as
    often as any does; with their costs, cheapest first."""
    os.environ['GMON_DIR'] = wd = os.path.join(TARGET, 'run', 'C24-pick')
    res = workers('C24p', exe, tier, seed, secs, 'pick')
    found = []
    for k in range(SHARDS):
        for l in open('%s/programs%d' % (wd, k)):
            cost, f, words = l.rstrip('\n').split(' ')
            found.append((int(cost), words, frozenset(int(x) for x in f.split(','))))
    shutil.rmtree(wd, ignore_errors=True)
    found.sort(key=lambda x: x[:2])
    out, regions, often, taken = [], set(), set(), set()
    for cost, words, f in found:
        g = {x >> 3 for x in f}
        if g - regions: regions |= g; often |= f; taken.add(words); out.append((cost, words))
    first = len(out)
    for cost, words, f in found:
        if words not in taken and f - often: often |= f; taken.add(words); out.append((cost, words))
    return out, first, dict(programs_considered=res['counters']['programs_considered'], code_regions_executed_by_some=len(regions), programs_needed_to_execute_each_region=first, programs_needed_for_each_about_as_often=len(out))

def run_miri(prop, seed, progs, what, budget):
    """Runs the first of the programs, as many as may execute `budget` regions, in parallel."""
    ok, why = miri_ready()
    if not ok and not any(b in why for b in MIRI_BAD): return dict(unavailable=why)
    jobs, load, total = [[] for _ in range(SHARDS)], [0] * SHARDS, 0
    size = [0] * SHARDS
    for cost, words in progs:
        k = load.index(min(load))
        if total + cost > budget or size[k] + len(words) > 1000000 or len(words) > 100000: continue
        total += cost
        load[k] += cost + 10
        size[k] += len(words) + 10
        jobs[k].append(words)
    r = sanitized(prop, 'miri', lambda a: (miri_cmd(a), miri_env(seed, what == 'duet')), [[what] + j for j in jobs if j], MIRI_BAD, 600 if os.environ.get('VERIF_TIER') != 'thorough' else 7200)
    r['regions_executed_natively_by_these'] = total
    return r

# ---------------------------------------------------------------- findings

def findings(prop):
    out = []
    p = os.path.join(VERIF, 'known-findings')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'known: property=(\S+) (.*)', l.strip())
            if m and m.group(1) == prop: out.append(m.group(2))
    return out

# ---------------------------------------------------------------- main

def check(prop):
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    tier = os.environ.get('VERIF_TIER', 'quick')
    tier = tier if tier in ('quick', 'thorough') else 'quick'
    rule = RULES[prop]
    t0 = time.time()
    os.environ['GMON_DICT'] = ','.join(str(x) for x in constants())
    exe, bt = build('cov')
    secs = 420 if tier == 'quick' else 7200
    ev = {}
    res = workers(prop, exe, tier, seed, secs, 'cov')
    keys = res.pop('keys')
    if tier == 'thorough':
        ship, _ = build('ship')
        r2 = workers(prop, ship, 'quick', seed + 1000003, 1800, 'ship')
        k2 = r2.pop('keys')
        ev['release_build'] = dict(evaluations=r2['evaluations'], distinct_nontrivial=len(k2), counters=r2['counters'])
    wd = res.pop('dir')
    if prop == 'C23':
        plain, _ = build('plain')
        r3 = workers('C23s', plain, tier, seed, secs, 'plain')
        ev['unoptimised_build'] = dict(evaluations=r3['evaluations'], distinct_nontrivial=len(r3['keys']), counters=r3['counters'], largest=r3['maxima'])
    if prop == 'C22': ev['thread_sanitizer'] = run_tsan(prop, seed, 250 if tier == 'quick' else 12000)
    if prop == 'C24':
        ev['address_sanitizer'] = run_asan(prop, seed, 3000 if tier == 'quick' else 120000)
        progs, first, ev['selection'] = programs(exe, tier, seed, secs)
        q = tier == 'quick'
        asan = os.path.join(TARGET, 'asan', BUILDS['asan']['exe'])
        chosen = [w for _, w in progs if len(w) < 100000]
        some = [['play'] + chosen[k::8 * SHARDS] for k in range(8 * SHARDS)]
        ev['address_sanitizer_selected'] = sanitized(prop, 'asan', asan_mk(asan, int(ev['address_sanitizer']['leak_detection'])), [j for j in some if len(j) > 1], ASAN_BAD, 400)
        ev['miri_threads'] = run_miri(prop, seed, progs[:first] if q else progs, 'duet', 200_000 if q else 6_000_000)
        ev['miri'] = run_miri(prop, seed, progs, 'play', 1_200_000 if q else 30_000_000)
    cov = None
    if prop != 'C22':  # there the subject runs in child processes only
        cov = coverage(wd, exe)
    # did the monitors see enough?
    need = rule.get('need', {})
    have = dict(res['counters']); have['evaluations'] = res['evaluations']; have['distinct'] = len(keys)
    for k, v in dict(dict(evaluations=1000, distinct=500, bred_cases=500), **need).items():
        if have.get(k, 0) < v: raise Broken('too little observed: %s is %d, at least %d expected' % (k, have.get(k, 0), v))
    samples = pick(res.pop('samples'))
    coverage_rec = dict(evaluations=res['evaluations'], distinct_nontrivial=len(keys), rule=rule['rule'], samples=samples,
                        constants_of_the_library=[int(x) for x in os.environ['GMON_DICT'].split(',') if x], cases=res['cases'], cases_planned=res['planned'], monitors_observed=res['counters'], largest=res['maxima'])
    coverage_rec.update(ev)
    if cov: coverage_rec['subject_regions_executed'] = cov['regions']; coverage_rec['subject_function_executions'] = cov['executions']
    evidence(prop, tier, seed, coverage_rec, rule, time.time() - t0, 0)
    for f in findings(prop): print('KNOWN-FINDING: property=%s %s' % (prop, f))
    print('%s held: %d evaluations, %d distinct non-trivial, %.0f s' % (prop, res['evaluations'], len(keys), time.time() - t0))
    shutil.rmtree(wd, ignore_errors=True)
    return 0

def pick(s):
    s.sort(key=lambda x: x['case'])
    if len(s) > 6: s = [s[i * (len(s) - 1) // 5] for i in range(6)]
    return s

def evidence(prop, tier, seed, cov, rule, wall, viol):
    d = os.path.join(VERIF, 'evidence')
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, prop + '.json'), 'w') as f:
        json.dump(dict(property=prop, tier=tier, seed=seed, level='exploration', coverage=cov, assumptions=rule['assume'], wall_s=round(wall, 1), violations=viol), f, indent=1)

def replay(path):
    r = json.load(open(path))
    prop = r['property']
    os.environ['GMON_DICT'] = r.get('constants', '')
    try:
        if r['kind'] == 'worker':
            exe, _ = build(r['build'])
            workers(r.get('cases', prop), exe, r['tier'], r['seed'], 600, r['build'], r['case'])
        elif r['sanitizer'] == 'miri':
            miri_ready(); sanitized(prop, 'miri', lambda a: (miri_cmd(a), miri_env(r.get('seed', 1), a[0] == 'duet')), [r['args']], MIRI_BAD, 3600)
        elif r['sanitizer'] == 'asan':
            exe, _ = build('asan'); sanitized(prop, 'asan', asan_mk(exe, 1), [r['args']], ASAN_BAD, 3600)
        else:
            exe, _ = build('tsan'); sanitized(prop, 'tsan', tsan_mk(exe, False), [r['args']], TSAN_BAD, 3600)
    except Violation as v:
        print(v.message); print('VIOLATION property=%s replay=%s' % (prop, v.replay)); return 1
    print('%s: this case holds now' % prop)
    return 0

def main():
    a = sys.argv[1:]
    try:
        if a and a[0] == '--build':
            for k in ('cov', 'plain', 'asan', 'tsan'): print(k, '%.0f s' % build(k)[1])
            print('miri', miri_ready()[0])
            return 0
        if a and a[0] == '--replay': return replay(a[1])
        prop = a[0]
        try: return check(prop)
        except Violation as v:
            seed = int(os.environ.get('VERIF_SEED', '1') or 1)
            evidence(prop, os.environ.get('VERIF_TIER', 'quick'), seed, dict(evaluations=0, distinct_nontrivial=0, rule=RULES[prop]['rule'], samples=[v.message[:2000]]), RULES[prop], time.time() - START, 1)
            print(v.message)
            print('VIOLATION property=%s replay=%s' % (prop, v.replay))
            return 1
    except Broken as b:
        print('CHECK FAILED (no verdict): %s' % b)
        return 2

if __name__ == '__main__': sys.exit(main())
