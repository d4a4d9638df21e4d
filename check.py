#!/usr/bin/env python3
"""Decide one property: check.py ID [quick|thorough]

1. extract the functions the property depends on from /repo (vx) and have Verus
   discharge every obligation of their contracts;
2. run the same contracts, as executable oracles, against the compiled code.

Exit 0: held. Exit 1 and a VIOLATION line: broken.
"""
import json, os, re, shutil, subprocess, sys, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.abspath(__file__))
REPO = '/repo'
sys.path.insert(0, V)
from props import PROPS, UNITS, TRUSTED_BASE, BUILDS  # noqa: E402

PID = sys.argv[1]
TIER = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
SEED = int(os.environ.get('VERIF_SEED', '1') or '1')
P = PROPS[PID]
T0 = time.time()
SCRATCH = tempfile.mkdtemp(prefix='vchk-%s-' % PID)
NW = int(os.environ.get('VERIF_WORKERS', '8'))
QUICK_S = float(os.environ.get('VERIF_SECONDS', P.get('seconds', 12)))
DEEP_S = 50.0
if TIER == 'thorough':
    QUICK_S = P.get('thorough_seconds', 600)
    DEEP_S = 900.0


def log(*a):
    print('[%6.1fs]' % (time.time() - T0), *a, flush=True)


def env_stable():
    e = dict(os.environ)
    for k in ('RUSTUP_TOOLCHAIN', 'CARGO_TARGET_DIR', 'RUSTFLAGS', 'RUSTC_WRAPPER'):
        e.pop(k, None)
    e['CARGO_NET_OFFLINE'] = 'true'
    e['HOME'] = '/root'
    e['PATH'] = '/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:' + e.get('PATH', '')
    return e


TARGET = REPO + '/target' if os.path.isdir(REPO + '/target/debug/deps') else V + '/build/target'


def env_repo():
    e = env_stable()
    e.update(RUSTUP_TOOLCHAIN='1.74', CARGO_INCREMENTAL='1', CARGO_TARGET_DIR=TARGET, CARGO_TERM_COLOR='never',
             TEST_GIT='/usr/bin/git', LANG='C.UTF-8')
    try:
        e['TEST_GIT_EXEC_PATH'] = subprocess.check_output(['/usr/bin/git', '--exec-path'], text=True).strip()
    except Exception:
        pass
    return e


def sh(cmd, env, cwd=V, timeout=700):
    try:
        p = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
        return p.returncode, p.stdout.decode('utf8', 'replace'), p.stderr.decode('utf8', 'replace')
    except subprocess.TimeoutExpired:
        return 124, '', 'timeout'


# ---------------------------------------------------------------- proofs -----
VERIF_ERR = re.compile(
    r'postcondition not satisfied|precondition not satisfied|assertion failed|invariant not satisfied|'
    r'possible arithmetic|decreases not satisfied|possible division|possible bit shift|termination|'
    r'might not be allowed|unable to (prove|show)|requires.*not satisfied|ensures.*not satisfied|'
    r'assert_by_compute|cannot prove|may fail|could not show|must be non-?negative|failed this|underflow|overflow')
RLIMIT = re.compile(r'[Rr]esource limit|rlimit|[Tt]imeout|timed out')


def expand(unit, out, trust=(), probe=None):
    cmd = [VX]
    if probe:
        cmd += ['--probe', probe]
    for t in trust:
        cmd += ['--trust', t]
    cmd += [REPO, out + '.rs', out + '.json'] + [t for t in UNITS[unit]]
    rc, so, se = sh(cmd, env_stable(), cwd=V + '/specs', timeout=120)
    if rc != 0:
        return None, (se or so)[-2000:]
    return json.load(open(out + '.json')), ''


def verus(path, extra=()):
    d = os.path.dirname(path)
    cmd = ['verus', '--output-json', '--time', '--triggers-mode', 'silent', '--multiple-errors', '5',
           '--num-threads', '4', '--error-format', 'json'] + list(extra) + [path]
    t = time.time()
    rc, so, se = sh(cmd, env_stable(), cwd=d, timeout=400)
    diags = []
    for l in se.splitlines():
        l = l.strip()
        if l.startswith('{'):
            try:
                diags.append(json.loads(l))
            except ValueError:
                pass
    try:
        res = json.loads(so)
    except ValueError:
        res = {}
    return rc, res, diags, se, time.time() - t


def fn_of(diag, ranges):
    """the extracted functions a diagnostic points into"""
    out = []
    spans = [s for s in diag.get('spans', []) if s['is_primary']] + [s for s in diag.get('spans', []) if not s['is_primary']]
    for s in spans:
        for (f, a, b) in ranges:
            if a <= s['line_start'] <= b and f not in out:
                out.append(f)
    return out


def run_unit(unit):
    """Verify one unit. Functions whose scaffold does not fit the current code
    are kept as contracts only (their bodies are then covered by the executable
    contracts alone)."""
    out = os.path.join(SCRATCH, unit)
    trust, why = [], {}
    R = dict(unit=unit, failed=[], bounded={}, verified=0, errors=0, functions=[], report=None, ok=False, secs=0.0,
             smt_ms=0, reach=True, output='')
    for _ in range(8):
        rep, err = expand(unit, out, trust)
        if rep is None:
            R.update(reach=False, output='extraction failed: ' + err)
            return R
        R['report'] = rep
        if rep['missing']:
            R.update(reach=False, output='not found in the current source: ' + ', '.join(rep['missing']))
            return R
        if rep['misfit_fns']:
            for f, m in rep['misfit_fns'].items():
                trust.append(f)
                why[f] = m
            continue
        rc, res, diags, raw, secs = verus(out + '.rs', P.get('verus', []))
        R['secs'] += secs
        vr = res.get('verification-results', {})
        errs = [d for d in diags if d.get('level') == 'error' and not d['message'].startswith('aborting due to')]
        compile_errs = [d for d in errs if not VERIF_ERR.search(d['message']) and not RLIMIT.search(d['message'])]
        if compile_errs or (rc != 0 and not errs):
            fs = []
            for d in compile_errs:
                for f in fn_of(d, rep['ranges'])[:1]:
                    if f not in trust and f not in fs:
                        fs.append(f)
                        why[f] = 'outside the verified subset: ' + d['message'].split('\n')[0]
            if not fs:
                R.update(reach=False, output=(raw[-3000:] if not compile_errs else
                                              '\n'.join(d.get('rendered') or d['message'] for d in compile_errs)[:3000]))
                return R
            trust += fs
            continue
        rl = [d for d in errs if RLIMIT.search(d['message']) and not VERIF_ERR.search(d['message'])]
        if rl:
            fs = [f for d in rl for f in fn_of(d, rep['ranges'])[:1] if f not in trust]
            if fs:
                for f in fs:
                    why[f] = 'solver gave no answer within its resource limit'
                trust += list(dict.fromkeys(fs))
                continue
            R.update(reach=False, output='solver resource limit outside the extracted functions')
            return R
        text_only = [d for d in errs if not fn_of(d, rep['ranges'])]
        real = [d for d in errs if fn_of(d, rep['ranges'])]
        if text_only and not real:
            R.update(reach=False, output='lemma of the scaffold does not fit the current types: ' + text_only[0]['message'])
            return R
        for d in real:
            f = fn_of(d, rep['ranges'])[0]
            lines = []
            for s in d.get('spans', []):
                lines.append('%s:%d %s %s' % (unit + '.rs', s['line_start'], ' '.join(t['text'].strip() for t in s['text'])[:300], s.get('label') or ''))
            R['failed'].append(dict(function=f, obligation=d['message'], where=lines, rendered=d.get('rendered', '')))
        R['verified'] = vr.get('verified', 0)
        R['errors'] = vr.get('errors', 0)
        R['smt_ms'] = res.get('times-ms', {}).get('smt', {}).get('total', 0)
        R['ok'] = not errs and rc == 0 and R['verified'] > 0
        R['functions'] = [f for f in rep['functions'] if not f.startswith('type ')]
        R['bounded'] = why
        # what was assumed
        break
    else:
        R.update(reach=False, output='scaffold did not fit the current code')
        return R
    if R['ok']:
        # vacuity: with assert(false) at the start (end) of every body, every body must fail
        R['probe'] = {}
        for probe in (['start', 'end'] if TIER == 'thorough' else ['start']):
            prep, err = expand(unit, out + '_probe', trust, probe)
            if prep is None:
                continue
            rc, res, diags, raw, secs = verus(out + '_probe.rs')
            R['secs'] += secs
            hit = set()
            for d in diags:
                if d.get('level') == 'error' and 'assertion failed' in d['message']:
                    hit.update(fn_of(d, prep['ranges'])[:1])
            names = [f for f in prep['functions'] if not f.startswith('type ')]
            R['probe'][probe] = dict(functions=len(names), refuted=len([f for f in names if f in hit]), vacuous=[f for f in names if f not in hit])
            if probe == 'start' and R['probe'][probe]['vacuous']:
                for f in R['probe'][probe]['vacuous']:
                    R['bounded'][f] = 'vacuity probe not refuted'
                R['functions'] = [f for f in R['functions'] if f in hit]
    return R


def assumed_contracts(unit):
    """external_body / assume_specification items in the unit's templates"""
    out = []
    for t in UNITS[unit]:
        txt = open(V + '/specs/' + t).read()
        for m in re.finditer(r'#\[verifier::external_body\][^{;]*?\b(fn|proof fn|struct|const)\s+(\w+)', txt):
            out.append('%s: %s' % (t, m.group(2)))
        for m in re.finditer(r'assume_specification[^\[]*\[([^\]]+)\]', txt):
            out.append('%s: assume_specification %s' % (t, m.group(1).strip()))
        for m in re.finditer(r'\b(assume|admit)\s*\(', txt):
            out.append('%s: %s' % (t, m.group(1)))
        for m in re.finditer(r'exec_allows_no_decreases_clause', txt):
            out.append('%s: termination of one function not proved' % t)
    return sorted(set(out))


# ------------------------------------------------------------- executables ---
def build(kind):
    b = BUILDS[kind]
    if 'crate' in b:
        lock = V + '/' + b['crate'] + '/Cargo.lock'
        cmd = ['cargo', 'build', '--offline']
        rc, so, se = sh(cmd, env_repo(), cwd=V + '/' + b['crate'], timeout=600)
    else:
        cmd = b['cmd']
        rc, so, se = sh(cmd, env_repo(), cwd=REPO, timeout=600)
    return rc, se[-4000:]


def run_group(kind, group, seconds, seed, tag, workers=NW):
    """run the executable contracts of one group in `workers` processes"""
    b = BUILDS[kind]
    exe = [x.replace('@TARGET', TARGET).replace('@V', V) for x in b['run']]
    procs = []
    for w in range(workers):
        out = os.path.join(SCRATCH, '%s-%s-%d.json' % (tag, group, w))
        sc = os.path.join(SCRATCH, 'w-%s-%s-%d' % (tag, group, w))
        e = env_repo()
        e['VERIF_BIN_DIR'] = TARGET + '/debug'
        e.pop('VERIF_SEED', None)
        cmd = exe + [group, str(seed), str(w), str(seconds), out, sc]
        errf = open(out + '.err', 'wb')
        p = subprocess.Popen(cmd, env=e, cwd=SCRATCH, stdout=subprocess.DEVNULL, stderr=errf, start_new_session=True)
        procs.append((w, p, out, sc, cmd))
    res = dict(evaluations=0, distinct=set(), samples=[], violations=[], cases=0, stats={}, errors=[])
    limit = time.time() + seconds + 60
    for w, p, out, sc, cmd in procs:
        hung = False
        try:
            p.wait(timeout=max(1, limit - time.time()))
        except subprocess.TimeoutExpired:
            hung = True
        try:
            os.killpg(p.pid, 9)
        except OSError:
            pass
        p.wait()
        case = None
        try:
            case = int(open(out + '.progress').read() or 0)
        except Exception:
            pass
        if os.path.exists(out) and p.returncode == 0:
            j = json.load(open(out))
            res['evaluations'] += j['evaluations']
            res['cases'] += j['cases']
            res['distinct'].update(j['distinct'])
            res['samples'] += j['samples'][:2]
            for k, v in j.get('stats', {}).items():
                res['stats'][k] = res['stats'].get(k, 0) + v
            for v in j['violations']:
                v['group'] = group
                v['rerun'] = ' '.join(exe + [group, str(seed), str(w), '0', 'OUT.json', 'SCRATCH_DIR', str(v['case'])])
                res['violations'].append(v)
        else:
            err = open(out + '.err', errors='replace').read()[-1500:]
            if case:
                what = ('did not finish' if hung else 'killed the process (exit %s)' % p.returncode)
                res['violations'].append(dict(key='hang' if hung else 'crash', what='case %d %s %s' % (case, what, err[-300:]), input={'case': case},
                                              seed=seed, worker=w, case=case, group=group,
                                              rerun=' '.join(exe + [group, str(seed), str(w), '0', 'OUT.json', 'SCRATCH_DIR', str(case)])))
            else:
                res['errors'].append('worker %d: exit %s %s' % (w, p.returncode, err))
        shutil.rmtree(sc, ignore_errors=True)
    return res


# ------------------------------------------------------------------- main ----
def main():
    global VX
    VX = V + '/vx/target/debug/vx'
    units = P.get('units', [])
    kinds = sorted({k for k, _ in P.get('exec', [])} | {d for k, _ in P.get('exec', []) for d in BUILDS[k].get('needs', [])})
    jobs = {}
    # build
    built = {}

    def build_vx():
        if not units:
            return
        rc, so, se = sh(['cargo', 'build', '--offline'], env_stable(), cwd=V + '/vx', timeout=300)
        if rc != 0:
            log('vx build failed', se[-1500:])
    tv = threading.Thread(target=build_vx)
    tv.start()

    def build_all():
        for k in kinds:
            built[k] = build(k)
            log('build', k, 'ok' if built[k][0] == 0 else 'FAILED\n' + built[k][1])
    tb = threading.Thread(target=build_all)
    tb.start()
    tv.join()
    log('extractor ready')
    with ThreadPoolExecutor(3) as ex:
        U = list(ex.map(run_unit, units))
    tb.join()
    for r in U:
        log('unit %s: %s functions proved, %d obligations verified, %d failed%s' % (
            r['unit'], len(r['functions']), r['verified'], r['errors'], '' if r['reach'] else ' NOT APPLIED: ' + r['output'][:1500]))
        for f, m in r['bounded'].items():
            log('   bounded only:', f, '--', m[:300])
        for f in r['failed']:
            log('   FAILED obligation in', f['function'], ':', f['obligation'])
    failed = [f for r in U for f in r['failed']]
    known = json.load(open(V + '/known_findings.json'))
    knownkeys = {k['key'] for k in known['findings'] if k['property'] == PID}
    tot = dict(evaluations=0, distinct=0, samples=[], violations=[], cases=0, errors=[], stats={})
    notrun = []

    def execs(seconds, seed, tag):
        groups = [(k, g) for k, g in P.get('exec', []) if all(built[d][0] == 0 for d in [k] + BUILDS[k].get('needs', []))]
        for k, g in P.get('exec', []):
            if (k, g) not in groups and g not in notrun:
                notrun.append(g)
        for k, g in groups:
            r = run_group(k, g, seconds / max(1, len(groups)), seed, tag)
            tot['evaluations'] += r['evaluations']
            tot['distinct'] += len(r['distinct'])
            tot['cases'] += r['cases']
            tot['samples'] += r['samples'][:3]
            tot['violations'] += r['violations']
            tot['errors'] += r['errors']
            for kk, v in r['stats'].items():
                tot['stats'][kk] = tot['stats'].get(kk, 0) + v
            log('executable contract %s: %d comparisons, %d distinct non-trivial, %d violations %s' % (
                g, r['evaluations'], len(r['distinct']), len(r['violations']), r['errors'][:1] or ''))

    execs(QUICK_S, SEED, 'q')
    fresh = [v for v in tot['violations'] if v['key'] not in knownkeys]
    if failed and not fresh:
        log('searching longer for a failing input of the refused obligation')
        execs(DEEP_S, SEED + 7919, 'd')
        fresh = [v for v in tot['violations'] if v['key'] not in knownkeys]
    for k in known['findings']:
        if k['property'] == PID:
            print('KNOWN-FINDING: property=%s %s' % (PID, k['what']), flush=True)

    # ---- evidence
    functions = sorted({f for r in U for f in r['functions']})
    bounded = {f: m for r in U for f, m in r['bounded'].items()}
    for r in U:
        if not r['reach']:
            bounded['unit ' + r['unit']] = r['output'][:400]
    obligations = sum(r['verified'] + r['errors'] for r in U)
    discharged = sum(r['verified'] for r in U)
    assumed = sorted({a for u in units for a in assumed_contracts(u)})
    ev = dict(
        property=PID, tier=TIER, seed=SEED, level=P['level'],
        coverage=dict(
            obligations=obligations, discharged=discharged,
            checker_cmd='verus --triggers-mode silent UNIT.rs (units: %s), back end z3 via Verus' % ', '.join(units),
            trusted_base=TRUSTED_BASE,
            functions_under_contract=functions,
            bounded_only=bounded,
            bounded_note=P.get('bounded', ''),
            solver_ms=sum(r['smt_ms'] for r in U),
            verus_wall_s=round(sum(r['secs'] for r in U), 1),
            vacuity_probes={r['unit']: r.get('probe') for r in U},
            extraction={r['unit']: dict(dropped=(r['report'] or {}).get('dropped'), rewrites=(r['report'] or {}).get('rewrites'),
                                        inlined=(r['report'] or {}).get('inlined')) for r in U},
            evaluations=tot['evaluations'], distinct_nontrivial=tot['distinct'],
            rule=P.get('rule', 'a comparison is non-trivial when the case exercises the contract beyond its empty case; distinct by hash of the case'),
            samples=tot['samples'][:6], exec_cases=tot['cases'], exec_stats=tot['stats'], exec_not_run=notrun, exec_errors=tot['errors'][:3],
        ),
        assumptions=assumed + P.get('assumptions', []),
        violations=len(fresh) + (1 if failed and not fresh else 0),
        wall_s=round(time.time() - T0, 1),
    )
    os.makedirs(V + '/evidence', exist_ok=True)
    json.dump(ev, open(V + '/evidence/%s.json' % PID, 'w'), indent=1, default=str)

    # ---- verdict
    code = 0
    if failed or fresh:
        os.makedirs(V + '/replay', exist_ok=True)
        path = V + '/replay/%s.json' % PID
        json.dump(dict(property=PID, failed_obligations=failed, failing_inputs=fresh,
                       note='failed_obligations: what the verifier refused; failing_inputs: inputs on which the compiled code breaks the contract '
                            '(re-run one with its "rerun" command)'), open(path, 'w'), indent=1, default=str)
        for v in fresh[:5]:
            log('failing input [%s/%s]: %s' % (v['group'], v['key'], v['what'][:600]))
        for f in failed[:5]:
            log('refused obligation:', f['function'], '--', f['obligation'], *f['where'][:2])
        print('VIOLATION property=%s replay=%s%s' % (PID, path, '' if fresh else ' no-failing-input-found'), flush=True)
        code = 1
    else:
        log('held')
    return code


try:
    code = main()
finally:
    shutil.rmtree(SCRATCH, ignore_errors=True)
sys.exit(code)
