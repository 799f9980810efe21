#!/usr/bin/env python3
"""check.py ID: decides one property on /repo's current tree.

Proof first: the functions the property depends on are extracted from /repo/src,
their contracts inserted, and every obligation given to Verus. Where an obligation
is not discharged, an input that shows it on the real code is searched for."""
import json, os, re, shutil, signal, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
from vf import props, verify, contracts
from vf.rustlex import lex, blank_comments

REPO = '/repo'
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
TIER = 'thorough' if os.environ.get('VERIF_TIER') == 'thorough' else 'quick'
CORES = max(2, min(8, os.cpu_count() or 8))

def log(*a):
    print(*a, flush=True)

# ---- the search for a failing input ---------------------------------------------

def unescaped(t):
    one = {'n': '\n', 't': '\t', 'r': '\r', '0': '\0'}
    def f(m):
        x = m.group(1)
        if x[0] == 'u': return chr(int(x[2:-1].replace('_', ''), 16))
        if x[0] == 'x': return chr(int(x[1:], 16))
        return one.get(x, x)
    try: return re.sub(r'\\(u\{[0-9a-fA-F_]+\}|x[0-9a-fA-F]{2}|.)', f, t)
    except ValueError: return t

def literals():
    """Numbers and strings of the code that are not in the list of known ones: hints for the search."""
    nums, words = set(), set()
    for d, _, fs in os.walk(os.path.join(REPO, 'src')):
        for f in fs:
            if not f.endswith('.rs'): continue
            try:
                with open(os.path.join(d, f)) as h: t = h.read()
                t = t.split('#[cfg(test)]')[0]
                for k in lex(blank_comments(t)):
                    if k.k in ('str', 'char'): words.add(unescaped(re.sub(r'^b?r?#*["\']|["\']#*$', '', k.t)))
                    m = re.match(r'^(0x[0-9a-fA-F_]+|0b[01_]+|[0-9][0-9_]*)', k.t)
                    if m and len(m.group(1)) < 24:
                        try: nums.add(int(m.group(1).replace('_', ''), 0))
                        except ValueError:
                            try: nums.add(int(m.group(1).replace('_', '')))
                            except ValueError: pass
            except Exception: pass
    return nums, words

class Witness:
    def __init__(self, work):
        self.work = work
        self.dir = os.path.join(work, 'witness')
        self.bin = None
        self.error = None
        shutil.copytree(os.path.join(HERE, 'witness'), self.dir)
        env = dict(os.environ, CARGO_TARGET_DIR=os.path.join(work, 'target'))
        try:
            r = subprocess.run(['cargo', 'build', '--offline'], cwd=self.dir, env=env, capture_output=True, text=True, timeout=300)
            if r.returncode == 0: self.bin = os.path.join(work, 'target', 'debug', 'witness')
            else: self.error = r.stderr[-1500:]
        except subprocess.TimeoutExpired: self.error = 'the build of the search did not end'
        nums, words = literals()
        try:
            with open(os.path.join(HERE, 'vf', 'literals.json')) as f: known = json.load(f)
        except OSError: known = {'n': [], 's': []}
        new_n, new_s = nums - set(known['n']), words - set(known['s'])
        self.dict = os.path.join(work, 'dict')
        with open(self.dict, 'w') as f:
            for n in sorted(new_n)[:40]:
                if n < 1 << 64: f.write('n %d\n' % n)
            for s in sorted(new_s)[:40]:
                f.write('s %s\n' % s.encode('utf-8', 'surrogatepass').hex())
        self.tried = self.distinct = 0
        self.samples = []

    def replay(self, path):
        """Does the recorded input still fail, in a fresh process?"""
        try:
            r = subprocess.run([self.bin, 'replay', path], capture_output=True, text=True, timeout=40, errors='replace')
        except subprocess.TimeoutExpired: return 'the process does not end'
        if r.returncode == 3: return r.stdout
        if r.returncode == 0: return None
        return 'the process dies (%s)' % (r.returncode if r.returncode >= 0 else signal.Signals(-r.returncode).name)

    def one(self, name, seed, secs):
        out = os.path.join(self.work, 'found-%s-%d' % (name.replace(':', '-'), seed))
        limit = secs + 60
        try:
            r = subprocess.run([self.bin, 'search', name, str(seed), str(secs), out, self.dict], capture_output=True, text=True, timeout=limit, errors='replace')
            code = r.returncode
            try:
                d = json.loads(r.stdout.strip().split('\n')[-1])
                self.tried += d['tried']; self.distinct += d['distinct']
                if len(self.samples) < 3: self.samples += d['samples'][:1]
            except (ValueError, KeyError, IndexError): pass
        except subprocess.TimeoutExpired: code = None
        if code == 3 and os.path.exists(out): return out
        if code in (0, 3): return None
        # the process died or hung: its last input is the suspect
        try:
            with open(out + '.cur', 'rb') as f: raw = f.read()
            head, _, body = raw.partition(b'\n')
            kind, n = head.split()
            body = body[:int(n)]
        except (OSError, ValueError): return None
        with open(out, 'w') as f:
            f.write('property: %s\nkind: %s\ninput: %s\nwhat fails:\n%s\n' % (name.split(':')[0], kind.decode(), body.hex(),
                'the process does not end' if code is None else 'the process dies'))
        w = self.replay(out)
        if not w: return None
        with open(out, 'a') as f: f.write(w + '\n')
        return out

    def search(self, name, secs, procs=CORES):
        """Several searches with different seeds; the first input found that fails again."""
        with ThreadPoolExecutor(procs) as ex:
            fs = [ex.submit(self.one, name, SEED * 100 + k, secs) for k in range(procs)]
            found = [x for x in (f.result() for f in fs) if x]
        for x in found:
            w = self.replay(x)
            if w:
                with open(x) as f: return f.read()
        # what fails may depend on what was done before in the same process
        for x in found:
            try:
                with open(x + '.hist') as f: lines = f.read().split('\n')
            except OSError: continue
            before = [l for l in lines if l.startswith('before: ')]
            others = [l for l in lines if not l.startswith('before: ')]
            n = 0
            while True:
                with open(x, 'w') as f: f.write('\n'.join(others[:1] + (before[-n:] if n else []) + others[1:]))
                if self.replay(x):
                    with open(x) as f: return f.read()
                if n >= len(before): break
                n = min(len(before), max(1, 4 * n))
        # or on all that was done before: the same search, once more, fails on the same input
        for k in range(procs):
            x = os.path.join(self.work, 'found-%s-%d' % (name.replace(':', '-'), SEED * 100 + k))
            try:
                with open(x + '.hist') as f: first = [l for l in f.read().split('\n') if not l.startswith('before: ')]
                os.remove(x + '.hist')
            except OSError: continue
            self.one(name, SEED * 100 + k, secs)
            try:
                with open(x + '.hist') as f: again = [l for l in f.read().split('\n') if not l.startswith('before: ')]
            except OSError: continue
            if first == again:
                return '\n'.join(first) + '\nThis input fails after all inputs that the search has tried before it in the same process, and not by itself.\nTo replay that: (cd /verif/witness && cargo run --offline -- search %s %d %d OUT /dev/null)\n' % (name, SEED * 100 + k, secs)
        return None

def audit(work):
    """The assumed contracts over fixed-size input, decided for all inputs by Kani on the real functions: (verified, of, error)."""
    d = os.path.join(work, 'audit')
    shutil.copytree(os.path.join(HERE, 'audit'), d)
    env = dict(os.environ, CARGO_TARGET_DIR=os.path.join(work, 'audit-target'), CARGO_NET_OFFLINE='true')
    try: r = subprocess.run(['cargo', 'kani'], cwd=d, env=env, capture_output=True, text=True, timeout=300)
    except (subprocess.TimeoutExpired, OSError) as e: return 0, 0, str(e)[:200]
    m = re.search(r'Complete - (\d+) successfully verified harnesses, (\d+) failures, (\d+) total', r.stdout)
    return (int(m.group(1)), int(m.group(3)), None) if m else (0, 0, 'no result')

# ---- known findings ---------------------------------------------------------------

def known_findings(pid):
    """Lines `known: property=ID input=HEX what fails`."""
    out = []
    try:
        with open(os.path.join(HERE, 'known_findings.txt')) as f:
            for l in f:
                m = re.match(r'known: property=(\S+) input=(\S+) (.*)', l)
                if m and m.group(1) == pid: out.append((m.group(2), m.group(3).strip()))
    except OSError: pass
    return out

# ---- the check ----------------------------------------------------------------------

def sibling(pid, p):
    """The property decided together with others by the same functions: names for the evidence."""
    return sorted(p.keys)

def main():
    pid = sys.argv[1]
    p = props.P[pid]
    t0 = time.time()
    work = tempfile.mkdtemp(prefix='vf-%s-' % pid, dir=os.environ.get('TMPDIR', '/tmp'))
    try:
        code = decide(pid, p, work, t0)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    sys.exit(code)

def decide(pid, p, work, t0):
    try: tasks = p.tasks()
    except Exception as e:
        log('the tasks could not be made: %s' % e); tasks = []
    probe = verify.Task('vacuity probe', [], 'bf', extra_spec='pub proof fn vacuity_probe() ensures false { }')
    outs = verify.run_all([probe] + tasks, REPO, work, CORES)
    pr, outs = outs[0], outs[1:]
    rl = 60
    if any(o.limit and 'esource limit' in o.limit for o in outs):
        # once more, with more resources
        again = [o.task for o in outs if o.limit and 'esource limit' in o.limit]
        rl = 200
        redo = {o.task.name: o for o in verify.run_all(again, REPO, work, CORES, 200, 300)}
        outs = [redo.get(o.task.name, o) for o in outs]
    if not pr.failures and not pr.limit:
        for o in outs: o.limit = 'the assumptions are contradictory (false is provable)'
    failures, soft, limits = [], [], []
    for o in outs:
        unknown = set(o.uncontracted)
        for f in o.failures:
            k, kind, text = f
            rel = (p.only is None or p.only(k, kind, text)) and 'map_room' not in text
            (soft if unknown or not rel else failures).append((o.task.name, k, kind, text))
        if o.limit: limits.append((o.task.name, o.limit))
    verified = sum(o.verified for o in outs)
    total = sum(o.total for o in outs)
    funcs = sorted(set(k for o in outs for k in o.functions))
    bad = failures + soft
    proved = not bad and not limits and verified > 0
    log('%s: %d of %d verification conditions discharged, %d functions under contract, %.1f s (solver %.1f s)' % (pid, verified, total, len(funcs), time.time() - t0, sum(o.smt for o in outs)))
    for n, k, kind, text in bad: log('  not discharged: %s of %s' % (kind, k))
    for n, l in limits: log('  no answer: %s: %s' % (n, l[:300]))

    found, explained, w, mode = None, None, None, 'proved'
    secs = (45 if TIER == 'quick' else 120)
    if not proved or TIER == 'thorough':
        w = Witness(work)
        if w.bin: found = w.search(p.about or pid, secs)
        else: log('  the search could not be built: %s' % w.error)
    kani = None
    if TIER == 'thorough':
        kani = audit(work)
        log('%s: %d of %d assumed contracts of fixed-size functions confirmed by Kani%s' % (pid, kani[0], kani[1], ' (%s)' % kani[2] if kani[2] else ''))
        if kani[0] < kani[1]: limits.append(('audit', 'an assumed contract does not hold')); proved = False
    known = known_findings(pid)
    code, violations = 0, 0
    replay = os.path.join(HERE, 'replay', pid + '.txt')
    if found:
        inp = re.search(r'^input: (\S*)$', found, re.M)
        hit = [t for h, t in known if inp and inp.group(1) == h]
        if hit:
            log('KNOWN-FINDING: property=%s %s' % (pid, hit[0])); found = None
    if found or (failures and not found):
        if not found and w and w.bin and p.explain:
            explained = w.search('ALL:' + pid, 20)
        if found or not explained:
            os.makedirs(os.path.dirname(replay), exist_ok=True)
            with open(replay, 'w') as f:
                if found: f.write(found + '\n')
                for n, k, kind, text in bad: f.write('obligation not discharged: %s of %s\n%s\n' % (kind, k, text))
                for n, l in limits: f.write('no answer from the verifier: %s: %s\n' % (n, l))
                if found: f.write('\nTo replay: (cd /verif/witness && cargo run --offline -- replay %s)\n' % replay)
            log('VIOLATION property=%s replay=%s%s' % (pid, replay, '' if found else ' no-failing-input-found'))
            code, violations = 1, 1
    if code: mode = 'violated'
    elif proved: mode = 'proved'
    elif explained: mode = 'undecided: the obligations that fail are explained by an input on which another property is broken, not this one'
    else: mode = 'bounded, not proved: the verifier gave no answer for a part of the code, and a search of %d inputs found no violation' % (w.tried if w else 0)
    if code == 0: log('%s: %s' % (pid, mode))

    cov = {
        'obligations': total, 'discharged': verified,
        'checker_cmd': 'verus --edition 2021 FILE --rlimit %d (%d generated files, bodies of /repo/src inserted mechanically)' % (rl, len(outs)),
        'backend': 'Verus 0.2026.09.13 with Z3',
        'trusted_base': trusted(outs),
        'functions_under_contract': funcs,
        'contract_clauses': sum(o.clauses for o in outs),
        'solver_seconds': round(sum(o.smt for o in outs), 2),
        'result': mode,
        'not_discharged': ['%s of %s' % (kind, k) for n, k, kind, text in bad],
        'no_answer': ['%s: %s' % x for x in limits],
        'vacuity_probe': 'false is not provable from the assumptions' if pr.failures else 'NOT CONFIRMED',
        'extraction_notes': sorted(set(n for o in outs for n in o.notes)),
        'used_but_proved_by_other_checks': others(outs, funcs),
    }
    if kani: cov['assumed_contracts_confirmed_by_kani'] = '%d of %d harnesses%s' % (kani[0], kani[1], ', ' + kani[2] if kani[2] else '')
    if w:
        cov.update({'evaluations': w.tried, 'distinct_nontrivial': w.distinct,
            'rule': 'class files, descriptors or push histories: systematic edge cases, then random ones, well-formed or broken on purpose; distinct by hash; bounded search, not counted as proof',
            'samples': [s[:400] for s in w.samples]})
    ev = {'property': pid, 'tier': TIER, 'seed': SEED, 'level': 'proof', 'coverage': cov,
        'assumptions': ASSUMPTIONS + ([p.note] if p.note else []), 'wall_s': round(time.time() - t0, 1), 'violations': violations}
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', pid + '.json'), 'w') as f: json.dump(ev, f, indent=1)
    return code

ASSUMPTIONS = [
    'Verus, its VIR-to-SMT encoding, vstd, and Z3 are correct',
    'the extraction (vf/extract.py, vf/gen.py) keeps the meaning; what it drops or rewrites is listed in DESIGN.md',
    'usize has 64 bits; a slice is at most isize::MAX bytes long',
    'floats are compared by their bits; from_bits is taken as a function of the bits',
    'byteorder, bitflags and the standard library behave as their assumed contracts say',
    'machine integers are not idealised: every arithmetic operation in exec code carries an overflow obligation',
    'the allocator does not fail; the stack suffices for the bounded depth',
]
def trusted(outs):
    names = set(k.split('::')[-1] for k in contracts.C)
    out = set()
    for o in outs:
        for t in o.trusted:
            if t.startswith('external_body: ') and t[15:] in names: continue
            out.add(t)
    return sorted(out) + ['item equality/hash model of HashMap keys (decided by C19)']
def others(outs, funcs):
    names = {}
    for k in contracts.C: names.setdefault(k.split('::')[-1], k)
    out = set()
    for o in outs:
        for t in o.trusted:
            if t.startswith('external_body: ') and t[15:] in names: out.add(names[t[15:]])
    return sorted(out - set(funcs))

if __name__ == '__main__':
    main()
