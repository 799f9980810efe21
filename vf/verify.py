"""Runs Verus on generated files and classifies what it says."""
import json, os, re, subprocess, time
from concurrent.futures import ThreadPoolExecutor
from .gen import Gen, GenError, NoSplit
from .extract import ExtractError
from .rustlex import LexError
from . import contracts

FAILED = ('postcondition not satisfied', 'precondition not satisfied', 'assertion failed', 'assertion not satisfied', 'invariant not satisfied', 'loop invariant not satisfied',
          'possible arithmetic underflow/overflow', 'possible division by zero', 'possible bit shift underflow/overflow', 'decreases not satisfied',
          'unable to prove assertion', 'index out of bounds', 'possible', 'loop ensures not satisfied', 'cannot prove termination', 'could not prove termination',
          'unreached', 'failed this postcondition', 'requires not satisfied', 'constructed value may fail to meet its declared type invariant', 'bitvector', 'value may be out of range', 'cannot show', 'recommendation not met')
LIMIT = ('rlimit', 'resource limit', 'timeout', 'not supported', 'does not yet support', 'unsupported')

class Task:
    def __init__(self, name, keys, mode='bf', **opts):
        self.name, self.keys, self.mode, self.opts = name, list(keys), mode, opts

class Outcome:
    """What became of one task."""
    def __init__(self, task):
        self.task = task
        self.verified = 0           # VCs discharged
        self.total = 0
        self.failures = []          # (function key, kind of obligation, text)
        self.limit = None           # why the verifier gave no answer
        self.seconds = self.smt = 0.0
        self.functions = []         # functions under contract whose VCs were discharged
        self.clauses = 0
        self.notes, self.trusted, self.uncontracted = [], [], []
        self.cmd = ''

def blocks(err):
    return re.findall(r'^error[^\n]*\n(?:(?!error|warning)[^\n]*\n)*', err, flags=re.M)

def trusted_of(text):
    """Everything the verifier is told to believe, read off the generated file."""
    code = re.sub(r'//[^\n]*', '', text)
    out = []
    for m in re.finditer(r'assume_specification[^\[]*\[\s*([^;]*?)\s*\]\s*\(', code): out.append('assumed specification: ' + re.sub(r'\s+', ' ', m.group(1)))
    for m in re.finditer(r'axiom fn (\w+)', code): out.append('axiom: ' + m.group(1))
    for m in re.finditer(r'#\[verifier::external_body\]\s*(?:#\[[^\]]*\]\s*)*pub (?:proof |exec )?fn (\w+)', code): out.append('external_body: ' + m.group(1))
    for m in re.finditer(r'\bassume\s*\(', code): out.append('assume(...)')
    return out

def lemma_at(text, b):
    """The lemma that an error is in."""
    m = re.search(r'(?:-->|:::)\s*[^\n]*?:(\d+):\d+', b)
    names = re.findall(r'\bfn (\w+)', '\n'.join(text.split('\n')[:int(m.group(1))])) if m else []
    return 'lemma ' + names[-1] if names else 'a lemma'

def unread(task, g):
    types = {k.split('::')[0] for k in task.keys if '::' in k}
    if types & {'Pool', 'PoolIter', 'Item'}: types |= {'Pool', 'Item', 'ReferenceKind'}
    if types & {'TypeDescriptor', 'MethodDescriptor'}: types |= {'Type', 'TypeDescriptor', 'MethodDescriptor'}
    return [k for t, k in g.unread if t == '*' or t in types]

def run(task, root, work, rlimit=60, limit=240):
    o = Outcome(task)
    t0 = time.time()
    try:
        g = Gen(root, task.keys, task.mode, **task.opts)
        text, missing = g.emit()
    except NoSplit as e:
        o.limit = 'no case split: %s' % e; return o
    except (GenError, ExtractError, LexError, KeyError, IndexError, AttributeError, TypeError, ValueError, RecursionError, OSError, UnicodeError) as e:
        o.limit = 'extraction: %s: %s' % (type(e).__name__, e); return o
    o.notes = list(g.notes)
    o.uncontracted = [n.split(':  ')[0] for n in g.notes if 'no contract' in n]
    o.uncontracted = [n[:n.index(': no contract')] for n in g.notes if ': no contract' in n]
    path = os.path.join(work, re.sub(r'\W', '_', task.name) + '.rs')
    with open(path, 'w') as f: f.write(text)
    cmd = ['verus', '--edition', '2021', path, '--rlimit', str(rlimit), '--multiple-errors', '3', '--output-json', '--time-expanded', '--num-threads', '2']
    o.cmd = ' '.join(cmd)
    try:
        r = subprocess.run(cmd, capture_output=True, text=True, timeout=limit)
        err, js = r.stderr, r.stdout
    except subprocess.TimeoutExpired as e:
        o.limit = 'the verifier did not end in time'; o.seconds = time.time() - t0; return o
    o.seconds = time.time() - t0
    try: d = json.loads(js)
    except ValueError: d = {}
    res = d.get('verification-results', {})
    crate = os.path.basename(path)[:-3]
    done = {}
    for mod in d.get('times-ms', {}).get('smt', {}).get('smt-run-module-times', []):
        o.smt += mod.get('time-micros', 0) / 1e6
        for fb in mod.get('function-breakdown', []):
            name = fb['function'].split('::', 1)[-1]
            done.setdefault(name, []).append((fb['success'], fb.get('mode:', fb.get('mode'))))
    o.verified = res.get('verified', 0)
    o.total = o.verified + res.get('errors', 0)
    own = set(task.keys) & set(g.by_key)
    for k in sorted(own):
        f = g.by_key[k]
        hit = [n for n in done if n == k or f.trait and n.split('::')[-1] == f.name]
        if k == 'Item::hash': hit = [n for n in done if n == 'hash_pair']
        if hit and all(s for n in hit for s, _ in done[n]): o.functions.append(k)
        c = contracts.C.get(k)
        if c: o.clauses += len([1 for t, _ in c.ensures if t in task.mode])
    tr = trusted_of(text)
    bodies = set(x.split('::')[-1] for x in contracts.C)
    o.trusted = sorted(set(tr))
    def where(b):
        keys = []
        for ln in re.findall(r'(?:-->|:::)\s*[^\n]*?:(\d+):\d+', b):
            for a, z, k in g.lines:
                if a <= int(ln) <= z and k not in keys: keys.append(k)
        return keys
    for b in blocks(err):
        head = b.split('\n')[0]
        if 'aborting due to' in head or 'could not compile' in head: continue
        low = head.lower()
        keys = where(b)
        k = next((x for x in keys if x in g.verify), keys[0] if keys else None)
        if k is None: k = lemma_at(text, b)
        if any(x in low for x in LIMIT) or re.match(r'error\[E\d+\]', head): o.limit = o.limit or head.strip(); o.limit_at = k
        elif any(x in low for x in FAILED): o.failures.append((k, head.replace('error: ', '').strip(), b))
        else: o.limit = o.limit or head.strip()
    if not o.limit and not o.failures:
        if not res.get('success') or o.verified == 0: o.limit = 'the verifier gave no result: ' + err[-300:]
        else:
            lost = [k for k in own if k not in o.functions]
            if missing: o.limit = 'functions under contract are gone: ' + ', '.join(sorted(missing))
            elif unread(task, g): o.limit = 'an implementation that was not read: ' + ', '.join(unread(task, g))
            elif lost: o.limit = 'no obligations were reported for ' + ', '.join(sorted(lost))
    return o

def run_all(tasks, root, work, jobs=8, rlimit=60, limit=240):
    with ThreadPoolExecutor(jobs) as ex:
        return list(ex.map(lambda t: run(t, root, work, rlimit, limit), tasks))
