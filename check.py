#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]: decides one property of /repo's current working tree.

1. Every proof unit of the property is regenerated from the current source (tools/vx.py) and verified by Verus.
2. A failed obligation is retried with more resources; if it still fails, a concrete input is searched for with the
   bounded oracle; the check reports the input, or the obligation alone (no-failing-input-found).
3. Where a unit cannot be brought in front of the verifier (its code was restructured), the bounded oracle decides.
4. A short bounded run of the oracle complements the proof; it is reported as bounded.
"""
import bisect, concurrent.futures as cf, json, os, re, shutil, subprocess, sys, time
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(V, 'tools'))
import vx, kanirun
from props import PROPS, ORACLE_CFGS

REPO = vx.REPO
T0 = time.time()
PANIC = re.compile(r'overflow|underflow|index|bounds|assertion|precondition|divide|division|shift|decreases|termination|unreachable|recommend|unwrap|negative', re.I)


class Unit:
    def __init__(s, name, work):
        s.name, s.work = name, work
        s.errors, s.undecided, s.fns, s.queries, s.ms, s.rl = [], [], {}, 0, 0, 0
        s.notes, s.changed, s.verified, s.nerr = [], {}, 0, 0


def run_verus(path, extra, timeout, more=4):
    try:
        p = subprocess.run(['verus', os.path.basename(path), '--output-json', '--time-expanded', '--multiple-errors', str(more)] + extra,
                           cwd=os.path.dirname(path), capture_output=True, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        return None, 'timeout'
    try:
        return json.loads(p.stdout), p.stderr
    except ValueError:
        return None, p.stderr


def parse_errors(err, lmap, fname, path=None):
    out = []
    starts = []
    if path and os.path.exists(path):
        for i, l in enumerate(open(path, errors='replace'), 1):
            m = re.match(r'\s*(?:pub(?:\s*\([^)]*\))?\s+)?(?:proof\s+)?fn\s+(\w+)', l)
            if m:
                starts.append((i, m.group(1)))

    def inside(line):
        j = bisect.bisect_right(starts, (line, '~')) - 1
        return starts[j][1] if j >= 0 else None
    for m in re.finditer(r'^error(?:\[(\w+)\])?: (.*?)\n\s+--> (\S+?):(\d+):(\d+)(.*?)(?=^(?:error|warning|note: while|verification results)|\Z)', err, re.M | re.S):
        code, msg, f, line, col, rest = m.groups()
        line = int(line)
        tag = lmap.get(line) if f.endswith(fname) else None
        if tag is None:
            # spans inside contracts of other functions: look at all lines quoted
            for n in re.findall(r'^\s*(\d+) \|', rest, re.M):
                if int(n) in lmap:
                    tag = lmap[int(n)]
                    break
        out.append(dict(code=code, msg=msg, line=line, fn=tag[0] if tag else None, sub=inside(line), kind=tag[1] if tag else None, src=tag[2] if tag else None, text=m.group(0).strip()))
    return out


HARD = re.compile(r'not supported|not yet support|unsupported|cannot find|mismatched|expected|unresolved|borrow|lifetime|cannot use|mode|The verifier does not|must have a decreases|trait bound|type annotations', re.I)


def verify(name, work, timeout=400, extra=(), vac=False):
    u = Unit(name, work)
    path = os.path.join(work, name + ('_vac' if vac else '') + '_gen.rs')
    try:
        x = vx.Unit(os.path.join(V, 'proofs', name + '.rs'))
        lmap = x.emit(path, vacuity=vac)
    except Exception as e:  # the source no longer lexes as expected
        u.undecided.append('extraction: %s' % e)
        return u
    u.blocks = x.blocks
    for b in x.blocks:
        nm = b.alias or b.fpath
        if b.kind == 'fn':
            u.fns[nm] = b.status
        if b.status != 'same':
            u.changed[nm] = vx.token_diff(b)
        if b.status in ('lost', 'lost-anchor', 'restructured'):
            u.undecided.append('%s: %s (%s)' % (nm, b.status, '; '.join(b.notes)))
    if vac:
        # the entry of every function must not be refutable; an answer within few resources is enough
        t = open(path).read()
        open(path, 'w').write(re.sub(r'verifier::rlimit\(\d+\)', 'verifier::rlimit(4)', t))
        extra = list(extra) + ['--rlimit', '4']
    d, err = run_verus(path, list(extra), timeout, 0 if vac else 4)
    u.stderr = err
    if d is None:
        u.undecided.append('verifier gave no result: %s' % err[-300:])
        return u
    vr = d['verification-results']
    u.verified, u.nerr = vr.get('verified', 0), vr.get('errors', 0)
    try:
        for m in d['times-ms']['smt']['smt-run-module-times']:
            for f in m.get('function-breakdown', []):
                u.queries += 1
                u.ms += f['time-micros'] / 1000
                u.rl += f['rlimit']
    except KeyError:
        pass
    es = parse_errors(err, lmap, os.path.basename(path), path)
    for e in es:
        if 'aborting due to' in e['msg']:
            continue
        if e['code'] or vr.get('encountered-vir-error') or (vr.get('encountered-error') and not u.nerr) or HARD.search(e['msg']):
            u.undecided.append('%s: %s' % (e['fn'] or 'unit', e['msg'][:200]))
        elif re.search(r'rlimit|resource limit|timed out', e['text'], re.I):
            if vac:
                u.errors.append(dict(e, kind='vacuity'))
                continue
            u.undecided.append('%s: resource limit' % e['fn'])
        else:
            u.errors.append(e)
    if (u.nerr or vr.get('encountered-error')) and not es:
        u.undecided.append('verifier error: ' + err[-400:])
    if not vac and u.verified == 0 and not u.undecided:
        u.undecided.append('no obligations')
    return u


# ---- bounded oracle -------------------------------------------------------------------------------------------
def build_oracle(cfg):
    tgt = os.path.join(os.environ.get('VERIF_BUILD', '/tmp/verif_build'), 'oracle_' + cfg)
    feats = ORACLE_CFGS[cfg]
    cmd = ['cargo', 'build', '--offline', '--release', '-q'] + (['--features', feats] if feats else [])
    p = subprocess.run(cmd, cwd=os.path.join(V, 'oracle'), env=dict(os.environ, CARGO_TARGET_DIR=tgt, CARGO_NET_OFFLINE='true', RUSTFLAGS=''), capture_output=True, text=True)
    if p.returncode:
        return None, p.stderr[-2000:]
    return os.path.join(tgt, 'release', 'oracle'), ''


def oracle_fuzz(bin_, prop, seed, secs, out, threads=8):
    """-> (stats dict, sample, found [(path, opts, msg, note)], trouble)"""
    try:
        p = subprocess.run([bin_, 'fuzz', prop, str(seed), str(secs), out, str(threads)], capture_output=True, text=True, timeout=secs + 120, errors='replace')
        o, rc = p.stdout, p.returncode
    except subprocess.TimeoutExpired as e:
        o, rc = (e.stdout or b'').decode(errors='replace') if isinstance(e.stdout, bytes) else (e.stdout or ''), 'timeout'
    stats, sample, found, conf = {}, '', [], ''
    for l in o.splitlines():
        f = l.split('\t')
        if f[0] == 'STATS':
            stats = {k: float(v) if '.' in v else int(v) for k, v in (x.split('=') for x in f[1:])}
        elif f[0] == 'SAMPLE':
            sample = f[1] if len(f) > 1 else ''
        elif f[0] == 'INTRINSICS':
            conf = ' [intrinsic contracts compared with the processor: %s]' % f[1]
        elif f[0] == 'FOUND':
            found.append(f[1:5])
    trouble = ''
    if not stats and not found:
        # the process died: find the case it died on
        try:
            subprocess.run([bin_, 'fuzz', prop, str(seed), str(secs), out, str(threads)], capture_output=True, timeout=secs + 120, env=dict(os.environ, ORACLE_TRACE='1'))
        except subprocess.TimeoutExpired:
            pass
        trouble = 'oracle ended with %s' % rc
        for fn in sorted(os.listdir(out)):
            if fn.startswith('current-'):
                opts = open(os.path.join(out, fn)).readline().strip()
                data = os.path.join(out, fn.replace('current-', 'case-')[:-4] + '.jpg')
                try:
                    q = subprocess.run([bin_, 'replay', data] + opts.split(), capture_output=True, text=True, timeout=60, errors='replace')
                    if q.returncode not in (0, 1):
                        found.append([data, opts, 'the process is killed (%s)' % q.returncode, ''])
                    elif q.returncode == 1:
                        found.append([data, opts, q.stdout.strip(), ''])
                except subprocess.TimeoutExpired:
                    found.append([data, opts, 'does not return', ''])
    return stats, sample + conf, found, trouble


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    P = PROPS[prop]
    work = os.path.join(os.environ.get('VERIF_BUILD', '/tmp/verif_build'), 'w_%s_%d' % (prop, os.getpid()))
    os.makedirs(work, exist_ok=True)
    outdir = os.path.join(V, 'replays')
    os.makedirs(outdir, exist_ok=True)
    try:
        rc = decide(prop, tier, seed, P, work, outdir)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    sys.exit(rc)


def small_edit(diffs):
    """a local edit of the checked code: the argument still applies to its structure"""
    for d in diffs:
        if d['del'] + d['ins'] > 24 or d['newcalls']:
            return False
    return True


def decide(prop, tier, seed, P, work, outdir):
    thorough = tier == 'thorough'
    units = P.get('units', {})
    ex = cf.ThreadPoolExecutor(8)
    fu = {n: ex.submit(verify, n, work) for n in units}
    fv = {n: ex.submit(verify, n, work, 400, (), True) for n in units} if not os.environ.get('VERIF_NOVAC') and not P.get('novac') else {}
    fk = {k: ex.submit(kanirun.run, k, work) for k in P.get('kani', [])}
    fo = {c: ex.submit(build_oracle, c) for c, _ in P['oracle']}
    res = {n: f.result() for n, f in fu.items()}
    vac = {n: f.result() for n, f in fv.items()}
    kres = {k: f.result() for k, f in fk.items()}
    bins = {c: f.result() for c, f in fo.items()}
    lines, failed, undecided = [], [], []
    for n, u in res.items():
        sel = units[n]
        chosen = lambda e: sel == '*' or e['fn'] in sel or e['fn'] is None or '%s/%s' % (e['fn'], e.get('sub')) in sel
        mine = lambda e: chosen(e) and (prop != 'C01' or PANIC.search(e['msg']))
        bad = [e for e in u.errors if mine(e)]
        if prop == 'C01':
            # a broken postcondition is no panic by itself, but callers rely on it
            undecided += ['%s: %s: %s' % (n, e['fn'], e['msg'][:120]) for e in u.errors if not mine(e)]
        lim = [x for x in u.undecided if x.endswith('resource limit')]
        if (bad or lim) and len(lim) == len(u.undecided):
            # more resources and another seed before believing a failure
            for ext in (['--rlimit', '60'], ['--rlimit', '60', '--smt-option', 'smt.random_seed=7']):
                left = 590 - (time.time() - T0)
                if left < 30:
                    break
                w = verify(n, work, min(left, 250), ext)
                if w.undecided:
                    continue
                if lim:
                    u.undecided, lim = [], []
                    bad = [e for e in w.errors if mine(e)]
                    u.verified, u.nerr = w.verified, w.nerr
                keep = {(e['fn'], e['msg']) for e in w.errors}
                bad = [e for e in bad if (e['fn'], e['msg']) in keep]
                if not bad:
                    break
        if u.undecided:
            undecided += ['%s: %s' % (n, x) for x in u.undecided]
        failed += [(n, e) for e in bad]
    for k, r in kres.items():
        if r['status'] == 'failed':
            failed.append((k, dict(fn=k, msg=r['msg'], text=r['text'], kind='kani', src=None, replay=r.get('replay'))))
        elif r['status'] != 'ok':
            undecided.append('%s: %s' % (k, r['msg']))
    # --- bounded complement / witness search
    stats, samples, viol, otrouble = {}, [], None, []
    budget = dict(P['oracle'])
    for i, (c, secs) in enumerate(P['oracle']):
        b, err = bins[c]
        if not b:
            otrouble.append('%s: build failed: %s' % (c, err[-300:]))
            continue
        s = secs * (12 if thorough else 1)
        if failed:
            s = max(s, 100 if i == 0 else 40)
        elif undecided:
            s = max(s, 150 if i == 0 else 40)
        rep = os.path.join(outdir, '%s-%s' % (prop, c))
        shutil.rmtree(rep, ignore_errors=True)
        os.makedirs(rep, exist_ok=True)
        for rnd in range(2 if failed else 1):
            st, sm, found, tr = oracle_fuzz(b, prop if rnd == 0 else P.get('witness', prop), seed + 1000 * rnd, s, rep)
            for k, v in st.items():
                stats.setdefault(c, {}).setdefault(k, 0)
                stats[c][k] += v
            if sm:
                samples.append(c + ': ' + sm)
            if tr:
                otrouble.append(c + ': ' + tr)
            if found:
                path, opts, msg, note = (found[0] + ['', '', ''])[:4]
                viol = dict(path=path, opts=opts, msg=msg, note=note, cfg=c)
                break
        if viol:
            break
    replay = os.path.join(outdir, prop + '.txt')
    rc = 0
    if viol:
        with open(replay, 'w') as f:
            f.write('property %s\nconfiguration %s\ninput %s\noptions %s\nobserved %s\ncase %s\n' % (prop, viol['cfg'], viol['path'], viol['opts'], viol['msg'], viol['note']))
            f.write('reproduce: cd %s/oracle && cargo run --offline --release %s -- replay %s %s\n' % (V, '--features ' + ORACLE_CFGS[viol['cfg']] if ORACLE_CFGS[viol['cfg']] else '', viol['path'], viol['opts']))
            for n, e in failed:
                f.write('\nfailed obligation [%s] in %s: %s\n%s\n' % (n, e['fn'], e['msg'], e['text']))
        lines.append('VIOLATION property=%s replay=%s' % (prop, replay))
        rc = 1
    elif failed:
        diffs = []
        for n, e in failed:
            if n in res:
                diffs += list(res[n].changed.values())
        cex = [e for _, e in failed if e.get('replay')]
        if cex or small_edit(diffs) and not undecided:
            with open(replay, 'w') as f:
                f.write('property %s: obligations that no longer hold for the current source\n' % prop)
                for n, e in failed:
                    f.write('\n[%s] %s, source line %s: %s\n%s\n' % (n, e['fn'], e['src'], e['msg'], e['text']))
                    if e.get('replay'):
                        f.write('counterexample: %s\n' % e['replay'])
                for n, u in res.items():
                    for fn, d in u.changed.items():
                        f.write('\nchanged: %s: %s\n' % (fn, d['text']))
            lines.append('VIOLATION property=%s replay=%s%s' % (prop, replay, '' if cex else ' no-failing-input-found'))
            rc = 1
        else:
            undecided += ['%s: obligation of %s (%s) no longer follows after a restructuring; no failing input found' % (n, e['fn'], e['msg']) for n, e in failed]
    # --- known findings
    kf = os.path.join(V, 'known-findings.txt')
    if os.path.exists(kf):
        for l in open(kf):
            m = re.match(r'finding: property=(\S+) input=(\S+) opts="(.*?)" (.*)', l)
            if m and m.group(1) == prop:
                b = next((x for x, _ in bins.values() if x), None)
                if b:
                    q = subprocess.run([b, 'replay', os.path.join(V, m.group(2))] + m.group(3).split() + ['strict=true'], capture_output=True, text=True, timeout=60)
                    if q.returncode == 1:
                        lines.append('KNOWN-FINDING: property=%s %s' % (prop, m.group(4)))
    # --- evidence
    nob = sum(u.verified + u.nerr for u in res.values()) + sum(r.get('checks', 0) for r in kres.values())
    ndis = sum(u.verified for u in res.values()) + sum(r.get('checks', 0) for r in kres.values() if r['status'] == 'ok')
    fns = sorted({'%s (%s)' % (f, n) for n, u in res.items() for f in u.fns if units[n] == '*' or f in units[n] or any(x.startswith(f + '/') for x in units[n])})
    vacfail = []
    for n, u in vac.items():
        hit = {e['fn'] for e in u.errors if e['kind'] == 'vacuity'}
        if not u.undecided and not res[n].undecided:
            vacfail += ['%s: %s' % (n, f) for f in u.fns if f not in hit]
    trusted = sorted({t for n in units for t in vx.trusted(os.path.join(V, 'proofs', n + '.rs'))}) + P.get('trusted', [])
    ev = dict(property=prop, tier=tier, seed=seed, level=P['level'], wall_s=round(time.time() - T0, 1), violations=rc,
              assumptions=trusted + P.get('assumptions', []),
              coverage=dict(
                  obligations=nob, discharged=ndis, checker_cmd='verus <unit>_gen.rs (units: %s) via check.py %s' % (', '.join(units) or '-', prop),
                  trusted_base=trusted, functions_under_contract=fns, solver_queries=sum(u.queries for u in res.values()),
                  solver_ms=round(sum(u.ms for u in res.values())), back_ends={'verus/z3': sum(u.verified for u in res.values()), 'kani/cbmc': sum(r.get('checks', 0) for r in kres.values())},
                  vacuity='every function entry reachable under its precondition' if vac and not vacfail else ('not established: ' + '; '.join(vacfail) if vacfail else 'not run'),
                  undecided_by_proof=undecided, failed_obligations=['%s: %s: %s' % (n, e['fn'], e['msg']) for n, e in failed],
                  source_changed_since_annotation={n + ':' + k: d['text'] for n, u in res.items() for k, d in u.changed.items()},
                  kani={k: {a: b for a, b in r.items() if a != 'text'} for k, r in kres.items()},
                  bounded_complement=dict(note='bounded: random streams compared with an independent reference decoder; never counted as proved', runs=stats, trouble=otrouble),
                  evaluations=int(sum(s.get('evaluations', 0) for s in stats.values())), distinct_nontrivial=int(sum(s.get('distinct', 0) for s in stats.values())),
                  rule='structured random JPEG streams of the kinds this property is about, mutated for the rejection cases; non-trivial: the reference decoder fixes what must happen', samples=samples or ['none']))
    os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
    with open(os.path.join(V, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    for x in undecided:
        print('undecided by proof, bounded search decides: ' + x[:300])
    for x in vacfail:
        print('note: vacuity not excluded: ' + x)
    for x in otrouble:
        print('note: ' + x)
    print('%s: %d/%d obligations, %d queries, bounded complement %s, %.0f s' % (prop, ndis, nob, ev['coverage']['solver_queries'], {c: int(s.get('evaluations', 0)) for c, s in stats.items()}, time.time() - T0))
    for l in lines:
        print(l)
    return rc


if __name__ == '__main__':
    main()
