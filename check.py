#!/usr/bin/env python3
"""Decides one property: check.py <property> [--tier quick|thorough] [--time S] [--cases N] [--keep]

1. compiles /repo's current working tree together with the property's harnesses to LLVM IR, and
   also, the ordinary way, to a replay binary;
2. runs the symbolic executor (engine/) over the harnesses: every path within the bounds, every
   branch decided by z3;
3. replays each counterexample, and a sample of the explored paths, against the replay binary;
4. writes evidence/<property>.json and reports.
Exit 0: held on everything explored. Exit 1: a VIOLATION line. Exit 2: the check itself failed.
"""
import json, os, re, shutil, subprocess, sys, time

V = os.path.dirname(os.path.abspath(__file__))
H = V + '/harness'
TOOLCHAIN = 'stable-x86_64-unknown-linux-gnu'
ENV = dict(os.environ, RUSTUP_TOOLCHAIN=TOOLCHAIN, CARGO_NET_OFFLINE='true', CARGO_TERM_COLOR='never',
           CARGO_INCREMENTAL='0', RUSTC_WRAPPER='')
ENV['PATH'] = '/root/.cargo/bin:/usr/local/bin:' + ENV.get('PATH', '')
for k in ('RUSTFLAGS', 'CARGO_ENCODED_RUSTFLAGS', 'CARGO_TARGET_DIR', 'CARGO_BUILD_TARGET'):
    ENV.pop(k, None)


def die(msg):
    print('ERROR: ' + msg, flush=True)
    sys.exit(2)


def engine():
    p = subprocess.run(['cargo', 'build', '--release', '--offline', '--quiet'], cwd=V + '/engine', env=ENV,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        print(p.stdout[-4000:])
        die('the symbolic executor does not build')
    return V + '/engine/target/release/symex'


def forget(target, profile):
    """Have cargo rebuild the code under test whatever its timestamps say."""
    d = '%s/%s/.fingerprint' % (target, profile)
    if os.path.isdir(d):
        for n in os.listdir(d):
            if re.match(r'(yaml-subset|vh)-', n):
                shutil.rmtree(d + '/' + n, ignore_errors=True)


def ir_cmd(features):
    return ['cargo', 'rustc', '--release', '--offline', '--lib', '--features', features, '--target-dir', H + '/target',
            '--', '--emit=llvm-ir', '-C', 'no-vectorize-loops', '-C', 'no-vectorize-slp', '-Awarnings']


def native_cmd(features):
    return ['cargo', 'build', '--offline', '--features', 'native,' + features, '--bin', 'replay', '--target-dir', H + '/target-native']


def build(features):
    forget(H + '/target', 'release')
    forget(H + '/target-native', 'debug')
    for f in (H + '/target/release/deps/vh.ll', H + '/target-native/debug/replay'):
        if os.path.exists(f):
            os.remove(f)
    ps = [subprocess.Popen(c, cwd=H, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
          for c in (ir_cmd(features), native_cmd(features))]
    for p in ps:
        o = p.communicate()[0]
        if p.returncode:
            print(o[-6000:])
            die('the harnesses do not build against /repo')


def replay(cases, binary=None, timeout=60):
    """cases: [(harness, hex)] -> [(outcome, msg, hexout, reach, known)]; survives crashes and hangs."""
    binary = binary or H + '/target-native/debug/replay'
    out = []
    i = 0
    while i < len(cases):
        chunk = cases[i:]
        try:
            p = subprocess.run([binary], input=''.join('%s %s\n' % c for c in chunk).encode(), timeout=timeout,
                               stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
            got = p.stdout.decode('utf8', 'replace').split('\n')[:-1]
            died = 'crash (exit status %d)' % p.returncode
        except subprocess.TimeoutExpired as e:
            got = (e.stdout or b'').decode('utf8', 'replace').split('\n')[:-1]
            died = 'no termination within %d s' % timeout
        for l in got[:len(chunk)]:
            o, m, x, r, k = l.split('\t')
            out.append((o, m, x, int(r), int(k)))
        i += len(got)
        if i < len(cases):
            out.append(('crash', died, '', 0, 0))
            i += 1
            timeout = min(timeout, 20)
    return out


def known_findings(prop):
    """{(harness, bit): (message, text)} of the findings listed for this property."""
    r = {}
    for l in open(V + '/known-findings.txt'):
        m = re.match(r'finding: property=(\S+) harness=(\S+) region=(\d+) fails="([^"]*)" (.*)', l.strip())
        if m and m.group(1) == prop:
            r[(m.group(2), int(m.group(3)))] = (m.group(4), m.group(5))
    return r


def show(hexs):
    return bytes.fromhex(hexs).decode('utf8', 'backslashreplace')


def main():
    a = sys.argv[1:]
    prop = a[0]
    def opt(k, d):
        return a[a.index(k) + 1] if k in a else d
    tier = opt('--tier', os.environ.get('VERIF_TIER', 'quick'))
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    plan = json.load(open(V + '/plan.json'))[prop]
    deep = tier == 'thorough'
    limit = int(opt('--time', plan.get('time_thorough', 3000) if deep else plan.get('time', 400)))
    t0 = time.time()
    sx = engine()
    features = plan['feature'] + (',deep' if deep else '')
    build(features)
    ll = H + '/target/release/deps/vh.ll'
    text = open(ll).read()
    hs = sorted(set(re.findall(r'^define [^\n]*@(h_\w+)\(', text, re.M)))
    if deep:
        hs += sorted(set(re.findall(r'^define [^\n]*@(t_\w+)\(', text, re.M)))
    del text
    src = open('%s/src/props/%s.rs' % (H, plan['feature'])).read()
    bodies = dict(re.findall(r'^    ([ht]_\w+) \{ (.*) \}$', src, re.M))
    marks = plan.get('marks', {})
    for h in bodies:
        if h not in hs and (deep or not h.startswith('t_')):
            die('harness %s is not in the compiled module' % h)
    t1 = time.time()
    os.makedirs(V + '/out', exist_ok=True)
    oj = '%s/out/%s.json' % (V, prop)
    if os.path.exists(oj):
        os.remove(oj)
    cmd = [sx, '--ll', ll, '--out', oj, '--workers', str(os.cpu_count() or 8), '--time', str(limit), '--seed', str(seed),
           '--samples', '6', '--cases', '12', '--stop-after', '400', '--max-icount', str(plan.get('icount', 60000000))]
    for h in hs:
        cmd += ['--harness', h]
    if deep:
        cmd += ['--confirm-canon']
    p = subprocess.run(cmd, cwd=V, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if not os.path.exists(oj):
        print(p.stdout[-3000:])
        die('the symbolic executor ended with status %d' % p.returncode)
    d = json.load(open(oj))
    t2 = time.time()

    known = known_findings(prop)
    alarms, findings, unreproduced = [], {}, []
    cases = [(f, c) for f in d['failures'] for c in f['cases']]
    res = replay([(f['harness'], c['input']) for f, c in cases])
    # paths the executor could not finish: at least run their concrete input
    errs = d['errors']
    eres = replay([(e['harness'], e['input']) for e in errs])
    def judge(harness, kind, inp, r, trace, loc):
        o, m, x, _, k = r
        if o not in ('fail', 'panic', 'crash'):
            unreproduced.append((harness, kind, inp, r))
            return
        for b in range(64):
            if k >> b & 1 and (harness, b) in known and m.startswith(known[(harness, b)][0]):
                findings.setdefault((harness, b), []).append((inp, x))
                return
        alarms.append(dict(harness=harness, executor=kind, at=loc, input=inp, outcome=o, message=m, output=show(x), trace=trace))
    for (f, c), r in zip(cases, res):
        judge(f['harness'], f['kind'], c['input'], r, c['trace'], f['loc'])
    for e, r in zip(errs, eres):
        if r[0] in ('fail', 'panic', 'crash'):
            judge(e['harness'], 'unsupported', e['input'], r, e['trace'], '')
    # sampled paths: same outcome and same output from the real code
    smp = d['samples']
    sres = replay([(s['harness'], s['input']) for s in smp])
    agree, mism = 0, []
    for s, r in zip(smp, sres):
        want = {'done': 'done', 'fail': 'fail'}[s['outcome']]
        got = 'fail' if r[0] in ('panic', 'crash') else r[0]
        if got == want and (r[2] == s['out'] or r[0] != 'done'):
            agree += 1
        elif s['outcome'] == 'done' and got == 'fail':
            judge(s['harness'], 'sampled path', s['input'], r, '', '')
        else:
            mism.append((s, r))
    # vacuity: each harness must have driven the real code to its marks
    vac = []
    for h in d['harnesses']:
        for k in marks.get(h['name'], [0]):
            if not h['reach'].get(str(k)):
                vac.append('%s never reaches mark %d' % (h['name'], k))
    tot = lambda k: sum(h[k] for h in d['harnesses'])
    incomplete = tot('unexplored') + tot('errors')
    names = d['functions']
    funcs = sorted(set(n for n in demangle(names) if 'yaml_subset' in n))
    status = 'violation' if alarms else 'held'
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'model_checking',
        'coverage': {
            'states': tot('paths'), 'transitions': d['branch_points'],
            'traces_validated_against_impl': agree,
            'samples': [{'harness': s['harness'], 'outcome': s['outcome'], 'output': show(s['out'])[:400]} for s in smp[:24]],
            'exhaustive': incomplete == 0 and not alarms,
            'explanation': 'states are the feasible paths of the real code through the harnesses, each standing for every '
                           'input that satisfies its path condition; transitions are the branch points met with a symbolic condition.',
            'paths_completed': tot('done'), 'paths_cut_by_assumptions': tot('assume'), 'paths_unexplored': tot('unexplored'),
            'paths_with_unsupported_operation': tot('errors'), 'paths_failing': tot('fails'),
            'harnesses': [dict(name=h['name'], bounds=bodies.get(h['name'], ''), paths=h['paths'],
                               completed=h['done'], cut=h['assume'], failing=h['fails'], marks=h['reach']) for h in d['harnesses']],
            'bounds': plan['bounds'],
            'forks': d['forks'], 'queries': d['queries'], 'z3_calls': d['z3_calls'], 'z3_sat': d['z3_sat'], 'z3_unsat': d['z3_unsat'],
            'z3_unknown': d['z3_unknown'], 'z3_seconds': round(d['z3_us'] / 1e6, 2), 'longest_query_seconds': d['max_z3_us'] / 1e6,
            'ir_instructions': d['instructions'], 'build_s': round(t1 - t0, 1), 'explore_s': round(t2 - t1, 1),
            'functions_encoded': len(names), 'yaml_subset_functions_encoded': funcs,
            'sample_mismatches': len(mism), 'known_findings_hit': sorted('%s/%d' % k for k in findings),
            'errors': [dict(harness=e['harness'], msg=e['msg'], count=e['count']) for e in errs],
        },
        'assumptions': plan.get('assumptions', []) + [
            'bounds as listed per harness; inputs outside them are not decided',
            'the allocator never fails; the stack is as deep as needed up to the call depth limit',
            'rustc and LLVM at opt-level 1 compile the code as they do for users'],
        'wall_s': round(time.time() - t0, 1), 'violations': len(alarms),
    }
    os.makedirs(V + '/evidence', exist_ok=True)
    json.dump(ev, open('%s/evidence/%s.json' % (V, prop), 'w'), indent=1)
    print('%s %s: %d harnesses, %d paths (%d completed, %d unexplored, %d unsupported), %d solver queries, %d sampled paths agree; build %.0f s, explore %.0f s'
          % (prop, tier, len(hs), tot('paths'), tot('done'), tot('unexplored'), tot('errors'), d['queries'], agree, t1 - t0, t2 - t1))
    for (h, b), l in sorted(findings.items()):
        print('KNOWN-FINDING: property=%s %s' % (prop, known[(h, b)][1]))
    for e in errs:
        print('note: %d path(s) of %s not finished: %s' % (e['count'], e['harness'], e['msg']))
    if alarms:
        rp = '%s/replays' % V
        os.makedirs(rp, exist_ok=True)
        f = '%s/%s.json' % (rp, prop)
        json.dump(dict(property=prop, how='each case: echo "<harness> <input>" | harness/target-native/debug/replay', cases=alarms[:50]),
                  open(f, 'w'), indent=1)
        for al in alarms[:5]:
            print('  %s: %s %s\n    %r' % (al['harness'], al['outcome'], al['message'][:200], al['output'][:600]))
        print('VIOLATION property=%s replay=%s' % (prop, f), flush=True)
        sys.exit(1)
    if unreproduced:
        for u in unreproduced[:5]:
            print('  not reproduced: %s %s %s %s' % u)
        die('%d counterexamples do not reproduce on the real code' % len(unreproduced))
    if mism:
        for s, r in mism[:5]:
            print('  mismatch: %s executor %s %r real %s %s %r' % (s['harness'], s['outcome'], show(s['out']), r[0], r[1], show(r[2])))
        die('executor and real code disagree on %d sampled paths' % len(mism))
    if vac:
        die('; '.join(vac[:5]))
    sys.exit(0)


def demangle(names):
    """Readable names if c++filt is there (it is part of binutils), else as they are."""
    try:
        p = subprocess.run(['c++filt'], input='\n'.join(names), stdout=subprocess.PIPE, text=True, timeout=60)
        if p.returncode == 0:
            names = p.stdout.split('\n')
    except (OSError, subprocess.SubprocessError):
        pass
    return [re.sub(r'\[[0-9a-f]{16}\]', '', re.sub(r'::h[0-9a-f]{16}$', '', n)) for n in names]


if __name__ == "__main__":
    main()
