"""Kani on functions or expressions taken from the current source (kani/NAME.rs). Counterexamples are replayed natively."""
import os, re, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'tools'))
import vx


def run(name, work, timeout=500):
    t0 = time.time()
    d = os.path.join(work, 'kani_' + name)
    os.makedirs(d, exist_ok=True)
    f = os.path.join(d, name + '.rs')
    r = dict(status='undecided', msg='', text='', checks=0, harnesses=0)
    try:
        vx.kani_emit(os.path.join(V, 'kani', name + '.rs'), f)
    except Exception as e:
        r['msg'] = 'extraction: %s' % e
        return r
    opts = re.findall(r'^// kani: (.*)$', open(f).read(), re.M)
    cmd = ['kani', name + '.rs'] + (opts[0].split() if opts else ['--default-unwind', '10'])
    try:
        p = subprocess.run(cmd, cwd=d, capture_output=True, text=True, timeout=timeout, errors='replace')
    except subprocess.TimeoutExpired:
        r['msg'] = 'no answer in %d s' % timeout
        return r
    out = p.stdout
    want = len(re.findall(r'#\[kani::proof', open(f).read()))
    r['checks'] = sum(int(x) for x in re.findall(r'\*\* \d+ of (\d+) failed', out))
    r['harnesses'] = want
    r['seconds'] = round(time.time() - t0, 1)
    ok = re.search(r'Complete - (\d+) successfully verified harnesses, 0 failures, (\d+) total', out)
    if p.returncode == 0 and ok and int(ok.group(1)) == want:
        r['status'] = 'ok'
        return r
    bad = re.findall(r'Checking harness (\S+?)\.\.\.(.*?)VERIFICATION:- FAILED', out, re.S)
    bad = [(h, b.split('Checking harness')[-1]) for h, b in bad]
    if not bad:
        r['msg'] = 'kani gave no result: ' + (p.stderr or out)[-300:]
        return r
    msgs = []
    for part in re.split(r'(?=Checking harness )', out):
        m = re.match(r'Checking harness (\S+?)\.\.\.', part)
        if m and 'VERIFICATION:- FAILED' in part:
            fs = re.findall(r'- Status: FAILURE\s+- Description: "(.*?)"', part)
            if not fs or all('unwinding' in x for x in fs):
                r['msg'] = 'loop bound exceeded in ' + m.group(1)
                return r
            msgs.append((m.group(1), fs))
    r['status'] = 'failed'
    r['msg'] = '; '.join('%s: %s' % (h, ', '.join(sorted(set(x)))) for h, x in msgs)
    r['text'] = out[-3000:]
    # counterexample
    try:
        q = subprocess.run(cmd + ['-Z', 'concrete-playback', '--concrete-playback=print', '--harness', msgs[0][0]], cwd=d, capture_output=True, text=True, timeout=timeout, errors='replace')
        vals = re.findall(r'^\s*// (-?\d+)', q.stdout, re.M)
        subprocess.run(['rustc', '-A', 'warnings', name + '.rs', '-o', 'native'], cwd=d, capture_output=True, timeout=120)
        x = subprocess.run(['./native', msgs[0][0]] + [re.sub(r'[^\d-]', '', v) for v in vals], cwd=d, capture_output=True, text=True, timeout=60)
        if x.returncode == 1 or x.returncode == 101:
            r['replay'] = '%s\nrun on the expression of the current source: %s %s' % (' '.join(vals), x.stdout.strip(), x.stderr.strip()[-300:])
    except Exception as e:
        r['text'] += '\nno counterexample: %s' % e
    return r


if __name__ == '__main__':
    os.makedirs('/tmp/kt', exist_ok=True)
    print(run(sys.argv[1], '/tmp/kt'))
