#!/usr/bin/env python3
"""check.py PROP [quick|thorough] : decide one property of /repo's current working tree."""
import glob, json, os, re, resource, shutil, signal, subprocess, sys, threading, time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'tools'))
PROP = sys.argv[1]
TIER = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
THOROUGH = TIER == 'thorough'
BUILD = os.path.join(HERE, 'build')
OUT = os.path.join(BUILD, 'out')
EVID = os.path.join(HERE, 'evidence')
T0 = time.time()
LIMIT = 6000 if THOROUGH else 840          # whole check
SYM_LIMIT = 4000 if THOROUGH else 330
SYM_MEM = 26 << 30


def left():
    return LIMIT - (time.time() - T0)


def die(msg, detail=''):
    """An error of the check: no verdict."""
    print('ERROR %s: %s' % (PROP, msg))
    if detail:
        print(detail[-4000:])
    sys.exit(2)


def run(cmd, timeout, cwd=None, env=None, mem=None, stdin=None):
    def pre():
        os.setsid()
        if mem:
            resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
    p = subprocess.Popen(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                         stdin=subprocess.DEVNULL, preexec_fn=pre)
    try:
        out, _ = p.communicate(timeout=max(timeout, 1))
        return p.returncode, out.decode('utf8', 'replace')
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        out, _ = p.communicate()
        return 'timeout', out.decode('utf8', 'replace')


def cargo_env():
    e = dict(os.environ)
    e['RUSTFLAGS'] = '--cap-lints allow'
    e.pop('CARGO_TARGET_DIR', None)
    e['CARGO_NET_OFFLINE'] = 'true'
    return e


def build(spec):
    res = {}

    def conc():
        res['conc'] = run(['cargo', 'build', '--offline', '--release'], left() - 20, HERE + '/conc', cargo_env())

    def other():
        # what users may build instead: no debug assertions and overflow checks; where the property is
        # not about circuits also without any optional feature (no_std paths, 32-bit field backend)
        cmd = ['cargo', 'build', '--offline', '--profile', 'nodebug', '--target-dir', 'target/nd']
        r = run(cmd + ([] if PROP in CIRCUIT else ['--no-default-features', '--features', 'min']), left() - 20, HERE + '/conc', cargo_env())
        if r[0] != 0 and PROP not in CIRCUIT:
            r = run(cmd, left() - 20, HERE + '/conc', cargo_env())
        res['other'] = r

    def sym():
        res['sym'] = run(['cargo', 'build', '--offline', '--release'], left() - 20, HERE + '/sym', cargo_env())

    def sym_other():
        cmd = ['cargo', 'build', '--offline', '--profile', 'nodebug', '--target-dir', 'target/nd']
        res['sym_other'] = run(cmd + ([] if PROP in CIRCUIT else ['--no-default-features', '--features', 'min']),
                               left() - 20, HERE + '/sym', cargo_env())
    # Nothing built from /repo earlier is reused, whatever the modification times say; only dependencies are.
    for d in ('conc', 'sym'):
        for f in glob.glob('%s/%s/target/**/.fingerprint/*' % (HERE, d), recursive=True, include_hidden=True):
            if re.match(r'(poseidon\w*|poseidon-\w+|conc|sym)-[0-9a-f]+$', os.path.basename(f)):
                shutil.rmtree(f, ignore_errors=True)
    shim = run([sys.executable, HERE + '/tools/mkshim.py', BUILD + '/decaf377-shim'], 60)
    if shim[0] != 0:
        die('preparing decaf377 failed', shim[1])
    ts = [threading.Thread(target=f) for f in (conc, sym, other, sym_other)]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    for k in ('conc', 'sym'):
        if res[k][0] != 0:
            die('building %s against /repo failed' % k, res[k][1])
    return res['other'][0] == 0, res['sym_other'][0] == 0


SYM = HERE + '/sym/target/release/sym'
SYM_ND = HERE + '/sym/target/nd/nodebug/sym'
CONC = HERE + '/conc/target/release/conc'
CONC_ND = HERE + '/conc/target/nd/nodebug/conc'
CIRCUIT = ('C05', 'C06')


def run_sym(exe, most):
    out = OUT + '/%s%s.json' % (PROP, '-nd' if exe == SYM_ND else '')
    if os.path.exists(out):
        os.remove(out)
    limit = min(most, left() - 150)
    cmd = [exe, PROP, TIER, str(SEED), out, "", str(int(max(limit - 30, 20)))]
    t = time.time()
    rc, txt = run(cmd, limit, mem=SYM_MEM)
    if os.path.exists(out):
        jobs = json.load(open(out))['jobs']
        for j in jobs:
            j['exe'] = CONC_ND if exe == SYM_ND else CONC
            j['title'] = ('[other build configuration] ' if exe == SYM_ND else '') + j['name']
        return jobs, time.time() - t, ''
    return [], time.time() - t, 'the generator stopped (%s) %s' % (rc, txt[-300:])


def conc_point(job, point, n, exe=None):
    f = OUT + '/%s-point-%d.txt' % (PROP, n)
    with open(f, 'w') as h:
        for k, v in point.items():
            h.write('%s=%s\n' % (k, v))
    rc, txt = run([exe or CONC, 'point', PROP, TIER, job, f], min(120, left() - 30))
    return rc, txt


def literals():
    """Integer literals of the source under test (without the generated constants), for R's sampler."""
    seen = []
    for d in ('poseidon377', 'poseidon-permutation', 'poseidon-parameters'):
        for root, _, files in os.walk('/repo/%s/src' % d):
            for f in sorted(files):
                if not f.endswith('.rs') or re.fullmatch(r'rate_\d+\.rs', f):
                    continue
                t = re.sub(r'//[^\n]*', '', open(os.path.join(root, f), errors='replace').read())
                for m in re.finditer(r'(?<![\w.])(0x[0-9a-fA-F_]+|0b[01_]+|[0-9][0-9_]*)(?:u8|u16|u32|u64|u128|usize|i32|i64|i8|i16)?(?![\w.])|(?<=[\w)])\s*<<\s*(\d+)', t):
                    try:
                        v = int(m.group(1).replace('_', ''), 0) if m.group(1) else 1 << int(m.group(2))
                    except ValueError:
                        continue
                    if 2 < v < 1 << 256 and v not in seen:
                        seen.append(v)
    return ','.join('%x' % v for v in seen[-400:])


def conc_fuzz(n, limit, seed, job='', exe=None):
    return run([exe or CONC, 'fuzz', PROP, TIER, str(n), str(seed), job, str(limit)], limit + 90)


def known():
    k = []
    for l in open(HERE + '/known_findings.txt'):
        m = re.match(r'finding: property=(\S+) job=(.*?) label=(.*?) :: (.*)', l.strip())
        if m and m.group(1) == PROP:
            k.append(m.groups()[1:])
    return k


def replay_file(n, text):
    d = EVID + '/replay'
    os.makedirs(d, exist_ok=True)
    f = '%s/%s-%d.txt' % (d, PROP, n)
    open(f, 'w').write(text)
    return f


def parse(txt):
    job = re.search(r'^JOB (.*)$', txt, re.M)
    return (job.group(1) if job else '', re.findall(r'^FAILED (.*)$', txt, re.M),
            dict(re.findall(r'^VALUE (\S+?)=(0x[0-9a-f]+)$', txt, re.M)))


def confirmed_text(engine, job, labels, txt, point, extra='', exe=None):
    lines = ['property %s' % PROP, 'found by %s' % engine, 'job %s' % job, 'failed obligations:']
    lines += ['  ' + l for l in labels[:60]]
    lines += ['', 'failing input (field elements, hexadecimal):']
    lines += ['  %s=%s' % kv for kv in sorted(point.items())]
    lines += ['', 'output of the replay on the real code (the file of name=value lines above given to',
              "  %s point %s %s '%s' FILE):" % (os.path.relpath(exe or CONC, HERE), PROP, TIER, job), '', txt[:20000], extra]
    return '\n'.join(lines) + '\n'


def main():
    os.makedirs(OUT, exist_ok=True)
    os.makedirs(EVID, exist_ok=True)
    ev = {'property': PROP, 'tier': TIER, 'seed': SEED, 'level': 'proof', 'coverage': {}, 'assumptions': [], 'wall_s': 0.0,
          'violations': 0}
    import engines
    spec = engines.SPEC[PROP]
    side = {}

    def run_side():
        # deductive engines besides S (Verus, Kani) run while the crates build
        for name in spec.get('side', []):
            try:
                side[name] = engines.ENGINES[name](PROP, TIER, run, left)
            except Exception as e:  # a tool error is an undecided obligation, not a verdict
                side[name] = {'error': repr(e), 'obligations': 0, 'discharged': 0, 'failed': [], 'undecided': [repr(e)]}
    th = threading.Thread(target=run_side)
    th.start()
    have_nd, have_sym_nd = build(spec)
    t_build = time.time() - T0
    jobs, t_sym, sym_err = run_sym(SYM, SYM_LIMIT)
    # the other build configuration; when the first run already needed its whole budget there is none left
    jobs_nd, t_nd, nd_err = [], 0.0, ''
    if not have_sym_nd or not have_nd:
        nd_err = 'the build without debug assertions and optional features failed: that configuration was not examined'
    elif sym_err or any(j['unexplored'] or j['n_refuted'] for j in jobs) or left() < 300:
        nd_err = 'S did not examine the build without debug assertions and optional features'
    else:
        jobs_nd, t_nd, nd_err = run_sym(SYM_ND, SYM_LIMIT / 2)
    jobs += jobs_nd

    violations = []      # (labels, replay file, suffix)
    findings = []
    undecided = []
    kn = known()

    def report(engine, job, labels, txt, point, extra='', exe=CONC):
        new = [l for l in labels if not any(k[0] == job and k[1] == l for k in kn)]
        for l in labels:
            for k in kn:
                if k[0] == job and k[1] == l and k[2] not in findings:
                    findings.append(k[2])
        if new:
            f = replay_file(len(violations) + 1, confirmed_text(engine, job, new, txt, point, extra, exe))
            violations.append((new, f, ''))

    # 1. counterexamples of S, replayed on the real code
    open_obl = []        # refuted or undischarged semantic obligations without a confirmed input
    npoint = 0
    for j in jobs:
        if violations and len(violations) >= 3:
            break
        conf = False
        seen = set()
        cands = [(r['label'], r['point'], 'refuted') for r in j['refuted']] + \
                [(u['label'], u['point'], u['why']) for u in j['unknown'] if u['label'] != 'harness']
        for label, point, why in cands:
            key = json.dumps(point, sort_keys=True)
            if key in seen or conf or npoint > 200 or left() < 120:
                continue
            seen.add(key)
            npoint += 1
            rc, txt = conc_point(j['name'], point, npoint, j['exe'])
            if rc == 1:
                _, labels, vals = parse(txt)
                report('S (counterexample of the verification condition)', j['name'], labels, txt, vals, exe=j['exe'])
                conf = True
            elif rc == 'timeout':
                report('S (counterexample of the verification condition)', j['name'],
                       ['termination'], 'the real code does not return on this input within 120 s', point, exe=j['exe'])
                conf = True
        if not conf:
            for r in j['refuted']:
                open_obl.append((j['title'], r['label'], 'refuted'))
        # An obligation that is neither discharged nor refuted is undecided, not violated: S can say
        # neither, e.g. under an assumed equality it has no solution for.  Code that came to depend on
        # the encoding or the ordering of an element is different: nothing discharges its obligations.
        for u in j['unknown']:
            if not conf and u['label'] != 'harness' and re.search('byte encoding|against the sample point', u['why']):
                open_obl.append((j['title'], u['label'], u['why']))
                continue
            undecided.append('%s: %s%s' % (j['title'], '' if u['label'] == 'harness' else u['label'] + ': ', u['why']))
        if j['unexplored']:
            undecided.append('%s: %d paths not explored' % (j['title'], j['unexplored']))
    undecided += [e for e in (sym_err, nd_err) if e]

    # obligations the program verifier (V) no longer discharges
    th.join(max(left() - 200, 1))
    v_open = []
    for name in spec.get('side', []):
        v_open += (side.get(name) or {}).get('open', [])

    os.environ['VX_DICT'] = literals()
    # 2. sampling on the real code: a bounded conformance run, and the search for an input for open obligations
    fuzz_runs = fuzz_checked = 0
    if not violations:
        budget = (120 if THOROUGH else 15) if not (open_obl or undecided or v_open) else (600 if THOROUGH else 90)
        budget = min(budget, max(left() - 150, 5))
        jobs_first = sorted({(j['name'], j['exe']) for j in jobs if j['unknown'] or j['refuted']})[:3]
        plans = [('large', budget / 2, CONC)] + [(j, budget / 4, x) for j, x in jobs_first] + [('', budget, CONC)]
        if have_nd:
            plans += [('', 10, CONC_ND)]
            if PROP not in ('C01', 'C03') or open_obl or v_open:
                plans += [('large', 10, CONC_ND)]
        for job, b, exe in plans:
            n = 2 if job == 'large' else 1000000 if (open_obl or undecided or v_open) else (4000 if THOROUGH else 400)
            rc, txt = conc_fuzz(n, b, SEED + len(job), job, exe)
            m = re.search(r'RUNS (\d+) CHECKED (\d+)', txt)
            if m:
                fuzz_runs += int(m.group(1))
                fuzz_checked += int(m.group(2))
            if rc == 1:
                jb, labels, vals = parse(txt)
                report('R (sampling on the real code%s)' % (', other build configuration' if exe == CONC_ND else ''), jb, labels, txt, vals, exe=exe)
                if violations:
                    break
            elif rc == 'timeout' and job == 'large':
                undecided.append('the large configurations did not finish')
            elif rc == 'timeout':
                f = replay_file(1, 'property %s\nthe real code does not return within %d s in the sampling run\n  %s\n' %
                                (PROP, b + 90, ' '.join([exe, 'fuzz', PROP, TIER, '1', str(SEED), job, '10'])))
                violations.append((['termination'], f, ''))
                break
            elif rc != 0:
                undecided.append('the sampling run ended with %s' % rc)

    # 3. the other deductive engines
    th.join(max(left() - 30, 1))
    for name in spec.get('side', []):
        r = side.get(name) or {'error': 'did not finish', 'obligations': 0, 'discharged': 0, 'failed': [],
                               'undecided': ['%s did not finish' % name]}
        side[name] = r
        for job, point in r.get('points', []):
            npoint += 1
            rc, txt = conc_point(job, point, npoint)
            if rc == 1:
                _, labels, vals = parse(txt)
                report('%s (verifier counterexample)' % name, job, labels, txt, point)
        if r.get('failed') and not violations:
            undecided += ['%s: %s' % (name, x) for x in r['failed']]
        for x in r.get('confirmed', []):
            if not violations:
                f = replay_file(len(violations) + 1, 'property %s\nfound by %s\n%s\n' % (PROP, name, x['text']))
                violations.append(([x['label']], f, ''))
        undecided += ['%s: %s' % (name, u) for u in r.get('undecided', [])]

    # 4. obligations that are not discharged any more and for which no input was found
    if not violations and (open_obl or v_open):
        txt = 'property %s\nobligations generated from the current source that are no longer discharged\n' % PROP
        txt += ''.join('  %s / %s: %s\n' % o for o in open_obl[:200])
        txt += ''.join('  %s: %s\n' % o for o in v_open[:200])
        txt += '\n%d sampled executions of the real code did not exhibit a failing input\n' % fuzz_runs
        for r in side.values():
            if r.get('text'):
                txt += '\noutput of the verifier (line numbers are those of the extracted text):\n' + r['text'][:12000]
        f = replay_file(1, txt)
        violations.append((['%s / %s' % o[:2] for o in open_obl] + ['%s: %s' % o for o in v_open], f, ' no-failing-input-found'))

    # evidence
    exact = sum(j['exact'] for j in jobs)
    prob = sum(j['prob'] for j in jobs)
    bad = sum(j['n_refuted'] for j in jobs) + sum(1 for j in jobs for u in j['unknown'])
    vac = [j['title'] for j in jobs if j['exact'] + j['prob'] + j['n_refuted'] + j['n_unknown'] == 0]
    s_obl, s_dis = exact + prob + bad, exact
    cov = {
        'obligations': s_obl + sum(r.get('obligations', 0) for r in side.values()),
        'discharged': s_dis + sum(r.get('discharged', 0) for r in side.values()),
        'checker_cmd': './check %s %s' % (PROP, TIER),
        'trusted_base': engines.TRUSTED + spec.get('trusted', []),
        'functions_under_contract': spec['functions'],
        'contract': spec['contract'],
        'back_ends': {
            'S: canonical-form decision procedure over F_q': {
                'obligations': s_obl, 'discharged_exactly': exact, 'only_by_random_evaluation': prob,
                'failed_or_undecided': bad, 'jobs': len(jobs), 'paths': sum(j['paths'] for j in jobs),
                'forks': sum(j['forks'] for j in jobs), 'paths_excluded_by_precondition': sum(j['excluded'] for j in jobs),
                'paths_not_explored': sum(j['unexplored'] for j in jobs), 'seconds': round(t_sym + t_nd, 2),
                'of_these_in_the_build_without_debug_assertions_and_optional_features':
                    {'jobs': len(jobs_nd), 'discharged_exactly': sum(j['exact'] for j in jobs_nd)},
                'terms_processed': sum(j['ops'] for j in jobs)},
        },
        'jobs_without_obligations': vac,
        'undecided': undecided[:50],
        'bounded_conformance_run_on_real_code_not_counted_as_proof': {'runs': fuzz_runs, 'postconditions_evaluated': fuzz_checked},
        'build_seconds': round(t_build, 1),
        'scope': spec['scope'],
        'samples': [j['name'] for j in jobs[:5]],
    }
    for k, r in side.items():
        cov['back_ends'][k] = {x: y for x, y in r.items() if x not in ('confirmed', 'text')}
    ev['coverage'] = cov
    ev['assumptions'] = engines.ASSUMPTIONS + spec.get('assumptions', [])
    ev['wall_s'] = round(time.time() - T0, 2)
    ev['violations'] = len(violations)
    with open(EVID + '/%s.json' % PROP, 'w') as h:
        json.dump(ev, h, indent=1)

    for f in findings:
        print('KNOWN-FINDING: property=%s %s' % (PROP, f))
    for u in undecided[:10]:
        print('UNDECIDED (bounded sampling stands in): %s' % u)
    print('%s %s: %d obligations, %d discharged; %d paths; sampled runs %d; %.0f s' %
          (PROP, TIER, cov['obligations'], cov['discharged'], sum(j['paths'] for j in jobs), fuzz_runs, time.time() - T0))
    if violations:
        for labels, f, suffix in violations:
            for l in labels[:5]:
                print('failed obligation: %s' % l)
            print('VIOLATION property=%s replay=%s%s' % (PROP, f, suffix))
        sys.exit(1)
    if cov['discharged'] == 0:
        die('no obligation was discharged')
    sys.exit(0)


if __name__ == '__main__':
    main()
