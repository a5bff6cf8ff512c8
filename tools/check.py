#!/usr/bin/env python3
"""check.py PROP [quick|thorough]: decides one property of /repo's current source.

1. extracts the functions of /repo/src with their contracts (extract/) into one Verus crate;
2. lets Verus discharge every obligation of it; failures are attributed to functions;
3. runs the crate against a reference on generated inputs, to find an input that shows a
   violation (and to cover, bounded, the functions that have no discharged contract).
Exit 0: held. Exit 1 with a VIOLATION line: broken.
"""
import bisect, hashlib, json, os, re, shutil, subprocess, sys, time

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.path.join(V, 'build')
sys.path.insert(0, os.path.join(V, 'tools'))
from props import PROPS, TRUSTED

ENV = dict(os.environ, CARGO_NET_OFFLINE='true', CARGO_TERM_COLOR='never', RUSTC_WRAPPER='')
if os.path.isdir('/root/.cargo/bin'): ENV['PATH'] = '/root/.cargo/bin:' + ENV.get('PATH', '')
ENV.setdefault('HOME', '/root')
ENV['REPO'] = REPO


def run(cmd, cwd=V, timeout=800, **kw):
    env = kw.pop('env', ENV)
    try:
        p = subprocess.run(cmd, cwd=cwd, env=env, capture_output=True, text=True, timeout=timeout, errors='replace', **kw)
        return p.returncode, p.stdout, p.stderr
    except subprocess.TimeoutExpired as e:
        return -9, (e.stdout or b'').decode('utf8', 'replace') if isinstance(e.stdout, bytes) else (e.stdout or ''), 'timeout'


def tree_hash(*roots):
    h = hashlib.sha256()
    for root in roots:
        if os.path.isfile(root):
            h.update(open(root, 'rb').read()); continue
        for d, ds, fs in sorted(os.walk(root)):
            ds.sort()
            for f in sorted(fs):
                p = os.path.join(d, f)
                h.update(p.encode() + b'\0' + open(p, 'rb').read() + b'\0')
    return h.hexdigest()


def cargo(name, watch):
    """builds V/name; cargo looks at times only, so a change of contents drops the fingerprints"""
    target = os.path.join(BUILD, name)
    os.makedirs(target, exist_ok=True)
    mark = os.path.join(target, 'contents')
    now = tree_hash(*watch)
    old = open(mark).read() if os.path.exists(mark) else ''
    if now != old:
        fp = os.path.join(target, 'release', '.fingerprint')
        if os.path.isdir(fp):
            for d in os.listdir(fp):
                if d.startswith(('poreader-', name + '-')): shutil.rmtree(os.path.join(fp, d), ignore_errors=True)
    rc, out, err = run(['cargo', 'build', '--offline', '--release', '--target-dir', target], cwd=os.path.join(V, name))
    if rc == 0: open(mark, 'w').write(now)
    return rc, out + err


def build_extract(): return cargo('extract', [os.path.join(V, 'extract', 'src'), os.path.join(V, 'extract', 'Cargo.toml')])
def build_harness():
    lock = os.path.join(V, 'harness', 'Cargo.lock')
    return cargo('harness', [os.path.join(V, 'harness', 'src'), os.path.join(REPO, 'src'), os.path.join(REPO, 'Cargo.toml'), os.path.join(REPO, 'build.rs')])


# ---- the verifier

PROOF_ERRORS = ('postcondition not satisfied', 'precondition not satisfied', 'assertion failed', 'invariant not satisfied', 'possible arithmetic', 'possible division by zero',
                'decreases not satisfied', 'termination', 'unreachable', 'recommendation', 'possible bit shift', 'loop invariant', 'failed this', 'index out of bounds', 'unable to prove', 'possible',
                'constructed value may fail', 'type invariant', 'ensures not satisfied', 'requires not satisfied', 'unwind', 'could not', 'not satisfied')
RLIMIT = ('Resource limit', 'rlimit', 'out of resources')


class Gen:
    """the generated crate: which function a line belongs to"""
    def __init__(self, path):
        self.marks, stack = [], []
        self.lines = open(path).read().split('\n')
        for n, l in enumerate(self.lines, 1):
            for m in re.finditer(r'/\*@F (\S+?)\*/|/\*@E\*/|/\*@M (\S+)\*/', l):
                if m.group(1): stack.append((m.group(1), n))
                elif m.group(2): self.marks.append((n, 10 ** 9, 'mod ' + m.group(2)))
                elif stack: k, a = stack.pop(); self.marks.append((a, n, k))
        self.marks.sort()

    def key(self, n):
        c = [m for m in self.marks if m[0] <= n <= m[1]]
        return max(c)[2] if c else '?'

    def lemma(self, n):
        for i in range(n - 1, -1, -1):
            m = re.match(r'\s*(?:pub\s+)?(?:broadcast\s+)?(?:proof|open spec|spec|closed spec|exec)?\s*(?:axiom\s+)?fn\s+(\w+)', self.lines[i])
            if m: return m.group(1)
        return '?'


def blocks(text):
    for b in re.split(r'\n(?=error|note|warning)', '\n' + text):
        b = b.strip('\n')
        if b.startswith('error'): yield b


def exit_line(b):
    """the line of the end or exit of a function that a message shows"""
    last = None
    for l in b.split('\n'):
        m = re.match(r'\s*(\d+)\s*\|', l)
        if m: last = int(m.group(1))
        if 'at the end of the function body' in l or 'at this exit' in l: return last
    return None


def verify(tag, timeout=400):
    """-> dict with the state of every function and lemma"""
    out = os.path.join(BUILD, 'gen-' + tag)
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    ext = []
    nogram = False
    notes = []
    res = {'ok': False, 'failed': {}, 'undecided': {}, 'notes': notes, 'solver_s': 0.0, 'functions': {}, 'verified': 0, 'errors': 0, 'meta': None, 'cmd': 'verus gen.rs --output-json --time-expanded'}
    rlimit = 10
    why = {}
    for attempt in range(8):
        cmd = [os.path.join(BUILD, 'extract', 'release', 'extract'), REPO, os.path.join(V, 'contracts'), out]
        if ext: cmd += ['--externalize', ','.join(ext)]
        if nogram: cmd += ['--no-grammar']
        rc, o, e = run(cmd, timeout=60)
        if rc != 0:
            notes.append('extraction refused: ' + (e or o).strip()[-600:])
            res['broken'] = True
            return res
        meta = json.load(open(os.path.join(out, 'meta.json')))
        res['meta'] = meta
        t = time.time()
        rc, o, e = run(['verus', 'gen.rs', '--output-json', '--time-expanded', '--rlimit', str(rlimit)], cwd=out, timeout=timeout)
        res['wall_s'] = round(time.time() - t, 1)
        g = Gen(os.path.join(out, 'gen.rs'))
        bodyless = {f['key'] for f in meta['functions'] if not f.get('body')}
        j = o.find('{')
        try: js = json.loads(o[j:]) if j >= 0 else {}
        except ValueError: js = {}
        vr = js.get('verification-results', {})
        proof, compile_, limits = {}, {}, {}
        # an operator of std for which the verifier has no specification
        noop = {int(m.group(1)) for m in re.finditer(r'as_string = "std_specs/ops\.rs[^\n]*\nerror: precondition not satisfied\n\s*--> gen\.rs:(\d+)', e)}
        for b in blocks(e):
            m = re.search(r'(?:-->|:::) gen\.rs:(\d+)', b)
            if b.startswith('error: aborting') or not m: continue
            head = b.split('\n')[0]
            n = int(m.group(1))
            k = g.key(n)
            if (k.startswith('mod ') and not k.startswith('mod t_')) or k in bodyless:
                # a contract of a trait: the function that breaks it is the one whose end or exit is shown
                e2 = exit_line(b)
                if e2 and not g.key(e2).startswith('mod '): k = g.key(e2)
            if k.startswith('mod ') or k == '?': k = k + '::' + g.lemma(n)
            # a failed precondition or postcondition is reported where it fails
            kind = compile_ if n in noop and 'precondition' in head else limits if any(x in head for x in RLIMIT) else proof if any(x in head for x in PROOF_ERRORS) and not re.match(r'error\[E', head) else compile_
            kind.setdefault(k, []).append(b[:1600])
        res['functions'] = {}
        for mod in js.get('times-ms', {}).get('smt', {}).get('smt-run-module-times', []):
            for f in mod.get('function-breakdown', []):
                res['functions'][f['function']] = {'ms': f.get('time', 0), 'ok': f.get('success', False), 'rlimit': f.get('rlimit', 0), 'module': mod['module'], 'mode': f.get('mode:', '')}
        res['verified'], res['errors'] = vr.get('verified', 0) or 0, vr.get('errors', 0) or 0
        res['solver_s'] = round(js.get('times-ms', {}).get('smt', {}).get('total', 0) / 1000, 2)
        res['total_ms'] = js.get('times-ms', {}).get('total', 0)
        drift = {d['key']: d['why'] for d in meta['drift']}
        # a function whose contract no longer fits it, and whose proof does not go through: its contract is assumed for the others, and it is undecided
        loose = [k for k in list(proof) + list(limits) + list(compile_) if k in drift and k not in ext]
        if loose:
            for k in loose: why[k] = f'{drift[k]}, and the proof does not go through: ' + (proof.get(k) or limits.get(k) or compile_.get(k))[0][:600]
            ext += sorted(set(loose))
            continue
        if compile_ or (not proof and not limits and not vr.get('success')):
            new = [k for k in compile_ if not k.startswith(('mod ', '?')) and k not in ext]
            for k, b in compile_.items(): why[k] = 'not within the verifier\'s reach as it now is: ' + b[0][:400]
            if not nogram and any(k.startswith(('mod grammar', 'mod t_c03', 'mod formula')) for k in compile_):
                nogram = True
                continue
            if not new:
                notes.append('the verifier gave no answer: ' + (e[-800:] if not compile_ else str(list(compile_.items())[:1])[:800]))
                res['broken'] = True
                return res
            ext += new
            continue
        if limits and rlimit < 60:
            rlimit = 60
            continue
        res['drift'] = drift
        for k, b in limits.items(): why[k] = 'resource limit of the solver: ' + b[0][:300]
        res['failed'] = dict(proof)
        res['undecided'] = why
        for k in ext: why.setdefault(k, 'not within reach')
        res['ok'] = True
        return res
    res['broken'] = True
    notes.append('too many attempts')
    return res


def harness(prop, seed, secs, out):
    if os.path.exists(out): os.remove(out)
    rc, o, e = run([os.path.join(BUILD, 'harness', 'release', 'harness'), 'find', prop, str(seed), str(secs), out], timeout=secs + 120)
    try: js = json.loads(o.strip().split('\n')[-1])
    except (ValueError, IndexError): js = {'error': (o + e)[-500:]}
    js['rc'] = rc
    if rc < 0 and 'timeout' not in e: js.update(died(prop, seed, secs, out))
    return js


def died(prop, seed, secs, out):
    """the search was ended by a signal (stack overflow, abort): which input does it?"""
    exe = os.path.join(BUILD, 'harness', 'release', 'harness')
    d = os.path.join(BUILD, 'trace-' + prop)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    rc, o, e = run([exe, 'find', prop, str(seed), str(secs), out], timeout=secs + 120, env=dict(ENV, TRACE=d))
    for f in sorted(os.listdir(d)) if rc < 0 else []:
        r = run([exe, 'replay', os.path.join(d, f)], timeout=60)[0]
        if r < 0:
            shutil.copy(os.path.join(d, f), out)
            return {'found': True, 'rc': 1, 'why': f'the process is ended by signal {-r}'}
    return {}


def match(pats, key): return any(re.fullmatch(p, key) for p in pats)


def clauses(meta_keys):
    """number of clauses of the contracts, by function"""
    out, key, n = {}, None, 0
    for f in sorted(os.listdir(os.path.join(V, 'contracts'))):
        if not f.endswith('.vc'): continue
        for l in open(os.path.join(V, 'contracts', f)):
            m = re.match(r'@@fn (\S+)', l)
            if m: key = m.group(1); out[key] = 0
            elif re.match(r'@@(implitems|moditems|external|drop|end)', l): key = None
            elif key and re.match(r'\s*(ensures|requires|invariant\w*|decreases)\b', l): out[key] += 1
    return out


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    P = PROPS[prop]
    t0 = time.time()
    replay_dir = os.path.join(V, 'evidence', 'replay')
    os.makedirs(replay_dir, exist_ok=True)
    replay = os.path.join(replay_dir, f'{prop}.txt')
    secs = P.get('secs', 8) if tier == 'quick' else 240
    rc, log = build_extract()
    if rc != 0: print(log[-2000:]); sys.exit(3)
    # the two run at the same time
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(2) as ex:
        fv = ex.submit(verify, prop, 500)
        fh = ex.submit(build_harness)
        hrc, hlog = fh.result()
        h = harness(prop, seed, secs, replay) if hrc == 0 else {'error': hlog[-1500:], 'rc': 3, 'found': False}
        v = fv.result()
    meta = v['meta'] or {'functions': [], 'drift': [], 'dropped': [], 'rewrites': {}, 'regexes': []}
    keys = [f['key'] for f in meta['functions']]
    mine = [f for f in meta['functions'] if match(P['functions'], f['key'])]
    expected = set(json.load(open(os.path.join(V, 'contracts', 'baseline.json'))).keys())
    lem = lambda k: k.startswith(('mod ', '?'))
    in_scope = lambda k: match(P['functions'], k) or (lem(k) and any(k.startswith('mod ' + m) for m in P['lemmas']))
    failed = {k: b for k, b in v['failed'].items() if in_scope(k)}
    undecided = {k: w for k, w in v['undecided'].items() if in_scope(k)}
    # helpers that appeared: their bodies are used where they are called, or they are in scope of all
    for d in meta['drift']:
        if d['why'] == 'function without contract' and d['key'] in v['failed']: failed.pop(d['key'], None); undecided[d['key']] = d['why']
        if (d['why'] == 'function under contract not found' or d['why'].startswith('grammar: ')) and match(P['functions'], d['key']): undecided.setdefault(d['key'], d['why'])
        if d['why'] == 'replaces a method of std' and any(match(P['functions'], k) and k.rsplit('::', 1)[0] == d['key'].rsplit('::', 1)[0] for k in keys): undecided.setdefault(d['key'], d['why'])
    if v.get('broken'): undecided['*'] = '; '.join(v['notes'])[:1500]
    # obligations of this property
    inlined = [f['key'] for f in mine if f.get('inlined')]
    unproved = [f['key'] for f in mine if not f.get('proved') and f.get('body') and not f.get('inlined')]
    proved_fns = [f['key'] for f in mine if f.get('proved') and f['key'] not in failed and f['key'] not in undecided]
    lemmas = {n: f for n, f in v['functions'].items() if f['module'] in P['lemmas'] and f['mode'] == 'proof'}
    obligations = len([f for f in mine if f.get('proved')]) + len(lemmas)
    discharged = len(proved_fns) + len([1 for f in lemmas.values() if f['ok']]) if not v.get('broken') else 0
    if not v.get('broken') and not undecided and obligations == 0: print('no obligation was generated'); sys.exit(3)
    found = bool(h.get('found'))
    # no input yet, but an obligation failed: look longer
    extra = None
    if not found and (failed or undecided) and hrc == 0 and tier == 'quick':
        extra = harness(prop, seed + 7919, P.get('extra', 90), replay)
        found = bool(extra.get('found'))
        h = dict(extra, evaluations=h.get('evaluations', 0) + extra.get('evaluations', 0), nontrivial=h.get('nontrivial', 0) + extra.get('nontrivial', 0), small_done=extra.get('small_done', 0)) if not found else extra
    known = [l.strip() for l in open(os.path.join(V, 'known-findings.txt')) if l.startswith(f'finding: property={prop} ')] if os.path.exists(os.path.join(V, 'known-findings.txt')) else []
    cl = clauses(keys)
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': P['level'], 'wall_s': 0,
        'coverage': {
            'obligations': obligations, 'discharged': discharged,
            'checker_cmd': f'{v["cmd"]} (Verus 0.2026.09.13, back end Z3; crate generated from {REPO}/src by extract/)',
            'trusted_base': (TRUSTED + P.get('trusted', []))[:40],
            'functions_under_contract': [f'{f["key"]} ({f["file"]}:{f["line"]}, {cl.get(f["key"], 0)} clauses)' for f in mine if f.get('proved')],
            'functions_not_under_contract': unproved,
            'functions_proved_only_where_they_are_called': inlined,
            'lemmas': sorted(n.split('::', 1)[1] for n in lemmas)[:120],
            'failed_obligations': {k: [x[:500] for x in b][:2] for k, b in failed.items()},
            'undecided': {k: w[:500] for k, w in undecided.items()},
            'obligations_of_the_whole_crate': {'verified': v['verified'], 'errors': v['errors']},
            'solver_s': v['solver_s'], 'verifier_wall_s': v.get('wall_s'),
            'extraction': {'dropped': len(meta['dropped']), 'rewrites': meta['rewrites'], 'drift': meta['drift'][:20], 'regular_expressions': meta.get('regexes', [])},
            'bounded_search': {'evaluations': h.get('evaluations', 0), 'small_cases_done': h.get('small_done', 0), 'small_cases_in_all': h.get('small_total', 0), 'seconds': h.get('seconds', 0), 'error': h.get('error', '')},
            'evaluations': h.get('evaluations', 0), 'distinct_nontrivial': h.get('nontrivial', 0),
            'rule': 'bounded search, not counted as proof: catalogues generated from the structure of the format, laid out and damaged at random, and every short sequence of lines (or pieces of a line, or tokens of a formula); non-trivial when it holds a msgid; the outcome is compared with an independent reference reader',
            'samples': h.get('samples', [])[:3],
        },
    }
    if known and hrc == 0 and not run([os.path.join(BUILD, 'harness', 'release', 'harness'), 'known', prop], timeout=60)[1].strip(): known = []
    ev['coverage']['known_findings'] = known
    rc = 0
    for k in known: print('KNOWN-FINDING: ' + k[len('finding: '):])
    if found:
        rc = 1
        print('found: ' + h.get('why', '')[:1500])
        if failed:
            with open(replay, 'a') as f: f.write('\nfailed obligations:\n' + '\n'.join(k + '\n' + '\n'.join(b) for k, b in failed.items()))
        print(f'VIOLATION property={prop} replay={replay}')
    elif failed:
        rc = 1
        with open(replay, 'w') as f:
            f.write(f'property {prop}\nno failing input was found\nfailed obligations, with the output of the verifier (verus on build/gen-{prop}/gen.rs):\n\n' + '\n\n'.join(f'function {k}\n' + '\n'.join(b) for k, b in failed.items()))
        for k, b in failed.items(): print(f'obligation failed: {k}: {b[0][:700]}')
        print(f'VIOLATION property={prop} replay={replay} no-failing-input-found')
    for k, w in undecided.items(): print(f'undecided by proof (bounded search only): {k}: {w[:300]}')
    if hrc != 0 and rc == 0:
        print('the harness does not build: ' + hlog[-1500:])
        if failed or undecided: rc = 3
    if h.get('rc') not in (0, 1) and rc == 0: print('harness: ' + str(h)[:800]); rc = 3
    ev['wall_s'] = round(time.time() - t0, 2)
    if rc == 0 and undecided: ev['coverage']['note'] = 'some functions could not be decided by proof on this source; see undecided'
    with open(os.path.join(V, 'evidence', prop + '.json'), 'w') as f: json.dump(ev, f, indent=1, ensure_ascii=False)
    print(f'{prop}: {discharged}/{obligations} obligations discharged, {len(unproved)} functions not under contract, {h.get("evaluations", 0)} inputs tried, {ev["wall_s"]} s')
    shutil.rmtree(os.path.join(BUILD, 'gen-' + prop), ignore_errors=True) if rc == 0 else None
    sys.exit(rc)


if __name__ == '__main__': main()
