"""What each check covers, and the deductive engines besides S."""
TRUSTED = [
    'rustc/LLVM; the symx engine (symx/src/lib.rs): canonical forms of polynomials over F_q, path forking',
    'the contracts of decaf377::Fq: field arithmetic is that of F_q (the innermost wrapper of decaf377 0.10.1 is replaced '
    'by one that also carries symbolic elements; everything above it is the unmodified crate)',
    'the harness crates props/ (contracts) and the Rust standard library',
]
ASSUMPTIONS = [
    'decaf377 field arithmetic is correct (external contract; exercised by the conformance run, not proved)',
]
MAT = 'poseidon-parameters/src/matrix.rs'
ARC = 'poseidon-parameters/src/arc_matrix.rs'
MDS = 'poseidon-parameters/src/mds_matrix.rs'
OPS = 'poseidon-parameters/src/matrix_ops.rs'
PERM = 'poseidon-permutation/src/permutation.rs'
R1 = 'poseidon-permutation/src/r1cs.rs'
P377 = 'poseidon377/src/hash.rs'
R377 = 'poseidon377/src/r1cs.rs'
PARAMS = 'poseidon377/src/params.rs and the generated parameter modules'
PERM_F = [PERM + ': Instance::{new, n_to_1_fixed_hash, output_words, unoptimized_n_to_1_fixed_hash, permute, '
          'unoptimized_permute, full_sub_words, partial_sub_words, mix_layer_*}']
HASH_F = PERM_F + [P377 + ': hash_1 .. hash_7', MAT + ', ' + ARC + ', ' + MDS + ': accessors they use']
CIRC_F = [R1 + ': InstanceVar::{n_to_1_fixed_hash, permute, partial_sub_words, full_sub_words, mix_layer_mds}',
          R377 + ': hash_1 .. hash_7']
R1CS = ['ark-relations / ark-r1cs-std 0.4 run as they are; their Rust code is executed, not proved, the emitted matrices are what is judged']

SPEC = {
    'C01': dict(functions=HASH_F, contract='hash_k(d, x) == word 1 of Poseidon(d, x) for all d, x; no panic',
                scope='all field elements, the 7 shipped rates, loops fully unrolled (constant round numbers)'),
    'C02': dict(functions=HASH_F, contract='for every state: optimised and unoptimised permutation return the same element and leave the same words',
                scope='all field elements, the 7 shipped widths'),
    'C03': dict(functions=PERM_F, contract='result and output words are a function of parameters and arguments of the call, whatever the earlier calls',
                scope='all field elements; call histories enumerated up to a length, each with symbolic earlier inputs'),
    'C04': dict(functions=PERM_F, contract='output words determine input words (each layer is undone)',
                scope='all field elements, the 7 shipped widths, both permutations'),
    'C05': dict(functions=CIRC_F, contract='every assignment satisfying the emitted constraints gives the output the value of the native hash',
                scope='all operand values, 7 rates, the enumerated operand kinds', trusted=R1CS),
    'C06': dict(functions=CIRC_F, contract='the honest assignment satisfies every emitted constraint; constraints equal those of key setup and do not depend on values',
                scope='all operand values, 7 rates, the enumerated operand kinds, two optimisation goals', trusted=R1CS),
    'C07': dict(functions=PERM_F, contract='for a symbolic parameter set: unoptimised == Poseidon with that set, optimised == optimised schedule with that set',
                scope='all values of all constants and inputs; the enumerated widths, round numbers and exponents'),
    'C08': dict(functions=[MAT, ARC, MDS, OPS], contract='each operation returns the mathematically defined matrix; set_element changes one element',
                scope='all entries; the enumerated shapes'),
    'C09': dict(functions=[MAT + ': constructors', ARC + ': constructors', MDS + ': constructors', OPS + ': mat_mul, square_mat_mul'],
                contract='inconsistent dimensions panic, consistent ones do not', scope='the enumerated shapes'),
    'C10': dict(functions=[MAT + ': determinant, minors, cofactors'], contract='determinant == Leibniz sum; minors and cofactor signs exact',
                scope='all entries, sizes 1 to 8'),
    'C11': dict(functions=[MAT + ': inverse'], contract='Err iff det == 0, otherwise the two-sided inverse; no panic', scope='all entries, sizes 1 to 8'),
    'C12': dict(functions=[MDS], contract='v, w, hat are the exact sub-blocks; transpose swaps; inverse is the matrix inverse',
                scope='all entries; enumerated widths (views up to 16, inverse up to 8)'),
    'C13': dict(functions=[PARAMS], contract='every stored derived quantity equals the one derived from the base parameters',
                scope='the 7 shipped parameter sets, every stored element'),
    'C14': dict(functions=[PARAMS], contract='every square sub-matrix is invertible; entries are 1/(i+t+j)',
                scope='the 7 shipped matrices, every square sub-matrix'),
    'C15': dict(functions=[PARAMS], contract='level, exponent, round numbers and round constants are those of the published derivation',
                scope='the 7 shipped parameter sets, every constant'),
    'C16': dict(functions=['poseidon-parameters/src/alpha.rs', 'poseidon-parameters/src/round_numbers.rs'],
                contract='to_bytes_le, as f64, full, partial, total, full_mut, partial_mut', scope='all u32 exponents and round numbers'),
}
ENGINES = {}


# ---------------------------------------------------------------- Kani (C16)
import glob, json, os, re, struct, subprocess, time
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KANI_VARS = {'alpha_bytes': ['exponent'], 'alpha_f64': ['exponent'], 'rounds_getters': ['r_P', 'r_F'],
             'rounds_full_mut': ['r_P', 'r_F', 'n'], 'rounds_partial_mut': ['r_P', 'r_F', 'n']}
KANI_HARNESSES = ['alpha_bytes', 'alpha_inverse_bytes', 'alpha_f64', 'alpha_inverse_f64', 'rounds_getters',
                  'rounds_full_mut', 'rounds_partial_mut']


def kani(prop, tier, run, left):
    t = time.time()
    e = dict(os.environ, CARGO_NET_OFFLINE='true')
    e.pop('RUSTFLAGS', None)
    rc, txt = run(['cargo', 'kani', '-Z', 'concrete-playback', '--concrete-playback=print'], min(500, left() - 60), HERE + '/kani', e)
    res = {'harnesses': [], 'obligations': 0, 'discharged': 0, 'failed': [], 'undecided': [], 'confirmed': [], 'points': []}
    if 'Checking harness' not in txt:
        res['undecided'].append('Kani did not run: ' + txt[-400:])
    for blk in re.split(r'^Checking harness ', txt, flags=re.M)[1:]:
        name = blk.split('...')[0].strip()
        short = name.split('::')[-1]
        checks = re.findall(r'^Check \d+: (\S+)\n\s*- Status: (\w+)\n\s*- Description: "(.*)"', blk, re.M)
        real = [c for c in checks if '.cover.' not in c[0]]
        covers = [c for c in checks if '.cover.' in c[0]]
        res['harnesses'].append(short)
        res['obligations'] += len(real)
        res['discharged'] += sum(1 for c in real if c[1] in ('SUCCESS', 'UNREACHABLE'))
        if any(c[1] != 'SATISFIED' for c in covers):
            res['undecided'].append('%s: precondition not reachable (vacuous)' % short)
        for c in real:
            if c[1] not in ('SUCCESS', 'UNREACHABLE'):
                (res['undecided'] if c[1] != 'FAILURE' or 'unwinding' in c[2] else res['failed']).append('%s: %s' % (short, c[2]))
        for cv in re.findall(r'concrete_vals: Vec<Vec<u8>> = vec!\[(.*?)\n    \];', blk, re.S):
            vals = [bytes(int(x) for x in v.split(',') if x.strip()) for v in re.findall(r'vec!\[([\d, ]*)\]', cv)]
            if short in KANI_VARS:
                res['points'].append(('alpha' if short.startswith('alpha') else 'rounds',
                                      {k: '0x%x' % int.from_bytes(v, 'little') for k, v in zip(KANI_VARS[short], vals)}))
    for h in KANI_HARNESSES:
        if h not in res['harnesses']:
            res['undecided'].append('Kani harness %s was not checked' % h)
    res['seconds'] = round(time.time() - t, 1)
    return res


ENGINES['kani'] = kani
SPEC['C16']['side'] = ['kani']
SPEC['C16']['trusted'] = ['Kani 0.68 / CBMC (bit-precise, full domain of u32 and usize arguments, IEEE double)']

TECHNIQUE = ('contracts on the real functions; verification conditions generated from the compiled code on symbolic field '
             'elements and discharged exactly over F_q; counterexamples replayed on the real code')
NOTE = ('Each contract is proved for all field elements, callees included; trusts rustc, the symx engine and decaf377 field '
        'arithmetic.')
SPEC['C16']['technique'] = 'Kani full-domain proof of the postconditions on the real functions; counterexamples replayed'
SPEC['C16']['note'] = 'Bit-precise over all u32 / usize arguments; trusts Kani/CBMC and rustc; total() under the precondition that the sum fits usize.'


# ---------------------------------------------------------------- Verus (V)
VX = HERE + '/vx/target/release/vx'
_MATRIX = r'(Matrix|SquareMatrix|ArcMatrix|OptimizedArcMatrix|MdsMatrix)::'
_CONS = _MATRIX + r'(new|new_from_known|from_elements|new_2x2)'
_ACC = _MATRIX + (r'(elements|get_element|set_element|n_rows|n_cols|transpose|hadamard_product|mul|row_vector|identity|iter_rows'
                  r'|inner_elements)')
_PROD = r'(mat_mul|square_mat_mul|dot_product)'
_PERM_ACC = r'(MdsMatrix::iter_rows|(Square|)Matrix::(iter_rows|elements|get_element)|(Optimized|)ArcMatrix::(elements|get_element|inner_elements|iter_rows))'
_DET = r'(SquareMatrix::(determinant|minors|cofactors)|determinant|minor_matrix)'
_PERM = r'(Instance::.*|RoundNumbers::(full|partial|total))'
# prop -> [(mode, functions whose failed obligations break the property, further functions the proof rests on)]
_HASHES = _PERM + '|' + _PERM_ACC + r'|hash_\d'
VREL = {
    'C01': [('B', None, _HASHES)],
    'C03': [('B', None, _PERM + '|' + _PERM_ACC + '|vx_history')],
    'C05': [('B', None, r'InstanceVar::.*|circuit_hash_\d|RoundNumbers::(full|partial|total)|' + _PERM_ACC)],
    'C07': [('B', _PERM, _PERM_ACC)],
    'C08': [('B', _ACC + '|' + _PROD, _CONS)],
    'C09': [('A', '.*', None), ('B', _CONS + '|' + _PROD + '|' + _MATRIX + '(mul|hadamard_product|transpose)', _ACC)],
    'C10': [('B', None, _DET + '|' + _CONS + '|' + _ACC)],
    'C11': [('B', None, _DET + '|SquareMatrix::inverse|' + _PROD + '|' + _CONS + '|' + _ACC)],
    'C12': [('B', r'MdsMatrix::(v|w|hat|transpose|new|from_elements|new_from_known)',
             'MdsMatrix::inverse|SquareMatrix::inverse|' + _DET + '|' + _CONS + '|' + _ACC)],
    'C16': [('B', r'RoundNumbers::.*', None)],
}
V_GENUINE = re.compile(r'^error: (postcondition not satisfied|precondition not satisfied|precondition not met|invariant not satisfied.*|assertion failed|'
                       r'possible arithmetic underflow/overflow|possible division by zero|decreases not satisfied.*|'
                       r'unable to prove.*|unable to prove assertion safely.*|.*may be out of bounds.*)')


def _vmap(out):
    m = []
    for l in open(out + '.map'):
        a = l.split()
        m.append((int(a[0]), int(a[1]), a[2], a[3]))
    return m


def _verus_mode(mode, tag, run, left, vacuity=False):
    """Extract, verify; functions the verifier does not accept any more are left out (their contracts
    assumed and the property reported as undecided for them) so that the others are still decided."""
    d = HERE + '/build/verus'
    os.makedirs(d, exist_ok=True)
    assume = []
    for rnd in range(5):
        name = 'vx%s_%s' % (mode, tag)
        out = '%s/%s.rs' % (d, name)
        cmd = [VX, os.environ.get('VX_REPO', '/repo'), HERE + '/contracts', mode, out]
        if assume:
            cmd.append('--assume=' + ','.join(assume))
        if vacuity:
            cmd.append('--vacuity')
        rc, txt = run(cmd, 60)
        if rc not in (0, 4):
            return {'error': 'extraction failed: ' + txt[-500:]}
        log = open(out + '.log').read().splitlines()
        js, er = out[:-3] + '.json', out[:-3] + '.err'
        extra = ' --multiple-errors 60' if vacuity else ' --multiple-errors 4'
        rc, txt = run(['bash', '-c', 'cd %s && verus --output-json --time-expanded%s %s.rs >%s.json 2>%s.err' %
                       (d, extra, name, name, name)], max(min(420, left() - 60), 30))
        err = open(er, errors='replace').read() if os.path.exists(er) else ''
        try:
            res = json.load(open(js))
            fb = [f for m in res['times-ms']['smt']['smt-run-module-times'] for f in m['function-breakdown']]
        except Exception:
            res, fb = None, []
        vm = _vmap(out)
        # error blocks: message, functions the quoted lines lie in
        blocks = []
        for b in re.split(r'\n(?=error)', '\n' + err):
            b = b.strip('\n')
            if not b.startswith('error'):
                continue
            lines = [int(x) for x in re.findall(r'--> %s\.rs:(\d+):' % re.escape(name), b)]
            lines += [int(x) for x in re.findall(r'^ *(\d+) \| ', b, re.M)]
            blocks.append((b, sorted({k for s, e, k, _ in vm for l in lines if s <= l <= e})))
        ran = res is not None and res['verification-results']['verified'] > 0
        if ran:
            short = lambda f: f['function'].split('::', 1)[1]
            return dict(ok=[short(f) for f in fb if f['success']], bad=[short(f) for f in fb if not f['success']],
                        modes={short(f): f['mode:'] for f in fb}, blocks=blocks, log=log, map=vm, err=err,
                        verified=res['verification-results']['verified'], errors=res['verification-results']['errors'],
                        ms=res['times-ms']['total'], smt_ms=sum(f['time'] for f in fb), rlimit=sum(f['rlimit'] for f in fb),
                        source=out)
        new = sorted({k for b, ks in blocks for k in ks} - set(assume))
        if not new or left() < 90:
            return {'error': 'Verus did not accept the extracted text: ' + err[:1500]}
        assume += new
    return {'error': 'Verus did not accept the extracted text after 5 rounds'}


def _contract_stats():
    n = {}
    t = ''.join(open(f).read() for f in sorted(glob.glob(HERE + '/contracts/*.rs') + glob.glob(HERE + '/contracts/*.vx')))
    n['assumed_functions (external_body in contracts/)'] = t.count('external_body')
    n['functions whose termination is not proved (exec_allows_no_decreases_clause)'] = t.count('exec_allows_no_decreases_clause')
    n['uninterpreted_functions'] = t.count('uninterp spec fn')
    n['axioms'] = sorted(re.findall(r'axiom fn (\w+)', t))
    return n


def verus(prop, tier, run, left):
    t = time.time()
    res = {'obligations': 0, 'discharged': 0, 'failed': [], 'undecided': [], 'confirmed': [], 'points': [], 'modes': [],
           'open': [], 'text': '', 'assumed_contracts': _contract_stats()}
    e = dict(os.environ, CARGO_NET_OFFLINE='true')
    e.pop('CARGO_TARGET_DIR', None)
    rc, txt = run(['cargo', 'build', '--offline', '--release'], max(left() - 60, 30), HERE + '/vx', e)
    if rc != 0:
        res['undecided'].append('the extractor does not build: ' + txt[-300:])
        return res
    for mode, strict, rest in VREL[prop]:
        r = _verus_mode(mode, prop, run, left)
        if 'error' in r:
            res['undecided'].append('mode %s: %s' % (mode, r['error']))
            continue
        rel = lambda k, x: x is not None and re.fullmatch(x, k) is not None
        assumed = {}
        for l in r['log']:
            if l.startswith('ASSUMED '):
                k, why = l[8:].split(': ', 1)
                assumed[k] = why.strip()
            elif l.startswith('PROBLEM '):
                res['undecided'].append('mode %s: %s' % (mode, l[8:]))
        keys = [k for _, _, k, _ in r['map'] if (rel(k, strict) or rel(k, rest)) and k not in assumed]
        for k, why in assumed.items():
            if rel(k, strict) or rel(k, rest):
                res['undecided'].append('mode %s: %s: %s' % (mode, k, why))
        lem = [f for f in r['ok'] + r['bad'] if r['modes'].get(f, '').startswith('proof')]
        for f in r['bad']:
            msgs = [b for b, ks in r['blocks'] if f in ks]
            # a message that quotes several functions belongs to the failing one of them
            heads = [m.split('\n')[0] for m in msgs]
            if f in lem or not (rel(f, strict) or rel(f, rest)):
                if f in lem:
                    res['undecided'].append('mode %s: lemma %s' % (mode, f))
                continue
            if rel(f, strict) and heads and all(V_GENUINE.match(h) for h in heads):
                res['open'].append(('Verus mode %s, function %s' % (mode, f), '; '.join(sorted(set(h[7:] for h in heads)))))
                res['text'] += '\n'.join(msgs)[:6000] + '\n'
            else:
                res['undecided'].append('mode %s: %s: %s' % (mode, f, '; '.join(sorted(set(heads)))[:300]))
        good = [f for f in r['ok'] if f in keys]
        res['obligations'] += len(good) + len([f for f in r['bad'] if f in keys])
        res['discharged'] += len(good)
        where = {k: w for _, _, k, w in r['map']}
        m = {'mode': {'A': 'partial correctness (a panic does not return)', 'B': 'total correctness (a reachable panic is a failed obligation)'}[mode],
             'functions_verified': ['%s (%s)' % (f, where.get(f, '')) for f in sorted(good)], 'lemmas_verified': len([f for f in lem if f in r['ok']]),
             'queries_verified_in_whole_file': r['verified'], 'errors_in_whole_file': r['errors'], 'wall_ms': r['ms'], 'smt_ms': r['smt_ms'],
             'rlimit': r['rlimit'], 'rewrites': [l[8:] for l in r['log'] if l.startswith('REWRITE')],
             'functions_without_a_query (nothing left to prove)': sorted(set(keys) - set(good) - set(r['bad']))}
        if tier == 'thorough':
            m['dropped'] = [l[8:] for l in r['log'] if l.startswith('DROPPED')]
            v = _verus_mode(mode, prop + '_vac', run, left, vacuity=True)
            if 'error' in v:
                res['undecided'].append('vacuity run, mode %s: %s' % (mode, v['error']))
            else:
                n = open(v['source']).read().count('assert(false); // vacuity canary')
                hit = len(set(re.findall(r'--> \S+\.rs:(\d+):\d+\n.*?\n.*?assert\(false\); // vacuity', v['err'])))
                m['vacuity_canaries'] = {'planted': n, 'failed_as_they_must': hit}
                if hit != n:
                    res['undecided'].append('mode %s: %d of %d vacuity canaries verified' % (mode, n - hit, n))
        res['modes'].append(m)
    res['seconds'] = round(time.time() - t, 1)
    return res


# ---------------------------------------------------------------- Lean (the mathematical lemma V assumes)
def lean(prop, tier, run, left):
    t = time.time()
    f = HERE + '/lean/Adjugate.lean'
    rc, txt = run(['lean', f], max(min(300, left() - 60), 30))
    ok = rc == 0 and 'sorryAx' not in txt and 'error' not in txt and "'Vx.adjugate' depends on axioms: [propext, Classical.choice, Quot.sound]" in txt
    n = len(re.findall(r'^theorem ', open(f).read(), re.M))
    return {'obligations': n, 'discharged': n if ok else 0, 'failed': [], 'confirmed': [], 'points': [],
            'undecided': [] if ok else ['lean/Adjugate.lean: ' + txt[-300:]],
            'theorem': 'Vx.adjugate: the lemma contracts/det.vx assumes, over every field and every size (Mathlib)',
            'axioms': 'propext, Classical.choice, Quot.sound', 'seconds': round(time.time() - t, 1)}


ENGINES['lean'] = lean
ENGINES['verus'] = verus
for _p in VREL:
    SPEC[_p].setdefault('side', []).append('verus')
    SPEC[_p].setdefault('trusted', []).extend([
        'Verus 0.2026.09.13 / Z3; the extractor vx (syn): prints the functions of the repository with the listed rewrites',
        'contracts/prelude.rs: assumed contracts of decaf377::Fq operators (uninterpreted, + and * commutative), slices, arrays, iterators'])
for _p in ('C01', 'C05'):
    SPEC[_p]['trusted'].append(
        'contracts/circuit.vx: the lazily built rate-k parameter sets are assumed to be well formed with a positive exponent '
        '(their values are decided by C13 to C15)')
for _p in ('C11', 'C12'):
    SPEC[_p]['side'].append('lean')
    SPEC[_p]['trusted'].append(
        'contracts/det.vx: the adjugate identity (axiom adjugate) is assumed by Verus and proved in lean/Adjugate.lean from Mathlib; '
        'the `*` operator on matrices is taken to be the method verified as SquareMatrix::mul')
SPEC['C05']['trusted'].append(
    'contracts/circuit.vx: assumed contracts of ark-r1cs-std FpVar (what the constraints of +, *, pow_by_constant and constants '
    'force), for the Verus proofs only; S judges the emitted constraint matrices themselves')
