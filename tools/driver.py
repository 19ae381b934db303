"""Decides one property: extract the real functions, attach the contracts,
let Verus discharge every obligation, and search for a concrete failing input
of the real crate at the same time."""
import json, os, re, shutil, signal, subprocess, sys, threading, time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import deps

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
BUILD = os.path.join(VERIF, 'build')
CONTRACTS = os.path.join(VERIF, 'contracts')
EXT = os.path.join(BUILD, 'ext', 'release', 'vextract')
ENG = os.path.join(BUILD, 'eng', 'release', 'engine')

RULE = ("cases are made by a seeded generator per property (boundary-biased values, histories of edits, damaged and "
        "crafted images, device faults), run against the real crate and compared with an oracle written from the "
        "property; a case is non-trivial when its input (hashed) was not run before")


def run(cmd, timeout=None, env=None, cwd=None):
    e = dict(os.environ)
    e.update(env or {})
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=e, cwd=cwd, start_new_session=True, text=True, errors='replace')
    try:
        o, r = p.communicate(timeout=timeout)
        return p.returncode, o, r
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        o, r = p.communicate()
        return None, o, r


def log(*a):
    print('[%s]' % time.strftime('%H:%M:%S'), *a, file=sys.stderr, flush=True)


def build_extract():
    rc, o, e = run(['cargo', 'build', '--release', '--offline', '--quiet'], 600, {'CARGO_TARGET_DIR': os.path.join(BUILD, 'ext')}, os.path.join(VERIF, 'extract'))
    return rc == 0 and os.path.exists(EXT), e


def build_engine():
    env = {'CARGO_TARGET_DIR': os.path.join(BUILD, 'eng')}
    cwd = os.path.join(VERIF, 'engine')
    # never trust time stamps: the crate under test is always compiled anew
    run(['cargo', 'clean', '--release', '--offline', '--quiet', '-p', 'gpt', '-p', 'engine'], 120, env, cwd)
    if os.path.exists(ENG):
        os.remove(ENG)
    rc, o, e = run(['cargo', 'build', '--release', '--offline', '--quiet'], 600, env, cwd)
    return rc == 0 and os.path.exists(ENG), e


# ---------------------------------------------------------------- extraction

class Fn:
    def __init__(self, key, tags, contract, external, line):
        self.key, self.tags, self.contract, self.external = key, tags, contract, external
        self.start, self.end = line, line
        self.text = ''


def parse_gen(path):
    """-> (list of Fn with line ranges, lines, line no. where the extracted text starts)"""
    fns, cur, first = [], None, 0
    lines = open(path, errors='replace').read().split('\n')
    for i, l in enumerate(lines, 1):
        if l.startswith('//@@file extracted'):
            first = i
        m = re.match(r'//@@fn (.*) tags=(\S*) contract=(\d) external=(\d)', l)
        if m:
            cur = Fn(m[1], set(t for t in m[2].split(',') if t), m[3] == '1', m[4] == '1', i)
            fns.append(cur)
        elif l.startswith('//@@fn '):
            m = re.match(r'//@@fn (.*) tags=(\S*)', l)
            cur = Fn(m[1], set(t for t in m[2].split(',') if t), True, False, i)
            fns.append(cur)
        elif l.startswith('//@@endfn') and cur:
            cur.end = i
            cur.text = '\n'.join(lines[cur.start:i - 1])
            cur = None
    return fns, lines, first


def extract(out, external):
    a = [EXT, os.path.join(REPO, 'src'), CONTRACTS, out]
    for k in sorted(external):
        a += ['--external', k]
    rc, o, e = run(a, 120)
    if rc != 0:
        return None, e
    rep = {'LOST': {}, 'NOCONTRACT': [], 'DROPPED': [], 'SKIPPED': []}
    for l in o.split('\n'):
        w = l.split(' ', 2)
        if w[0] == 'LOST':
            rep['LOST'].setdefault(w[1], []).append(w[2] if len(w) > 2 else '')
        elif w[0] in rep:
            rep[w[0]].append(l.split(' ', 1)[1])
    return rep, ''


def short(key):
    return key.split('::')[-1].rstrip('>')


def owner(key):
    """the type a method belongs to, None for a free function"""
    if '>::' in key:
        h = key[:key.rindex('>::')]
        h = h[h.rindex('for') + 3:] if 'for' in h else h
        return re.split(r'[<:]', h.lstrip('<'))[0].split('::')[-1]
    w = key.split('::')
    return w[-2] if len(w) > 1 and w[-2][:1].isupper() else None


def cone(fns, prop):
    """keys of the functions the property depends on: the tagged ones and
    everything they call, transitively (calls are matched by name, so the cone
    may be too large but not too small)"""
    free, meth, assoc = {}, {}, {}
    for f in fns:
        n, o = short(f.key), owner(f.key)
        if o is None:
            free.setdefault(n, []).append(f)
        else:
            assoc.setdefault((o, n), []).append(f)
            meth.setdefault(n, []).append(f)
    noarg = {f.key: bool(re.search(r'fn\s+\w+\s*(<[^(]*>)?\(\s*&?\s*(mut\s+)?self\s*\)', f.text)) for f in fns}
    types = set(o for o, _ in assoc)
    todo = [f for f in fns if prop in f.tags]
    seen = set(f.key for f in todo)
    while todo:
        f = todo.pop()
        body = '\n'.join(l for l in f.text.split('\n') if not l.lstrip().startswith('//'))
        nxt = []
        for n in set(re.findall(r'\b(\w+)\b', body)):
            nxt += free.get(n, [])
        for t, n in set(re.findall(r'\b(\w+)(?:::<[^;{}()]*?>)?::(\w+)', body)):
            t = owner(f.key) if t == 'Self' else t
            nxt += assoc.get((t, n), [])
            if t not in types:
                nxt += [g for g in meth.get(n, []) if t[:1].isupper() and len(t) <= 2]
        for n, a in set(re.findall(r'\.\s*(\w+)\s*(?:::<[^;{}()]*?>)?\(\s*(\)?)', body)):
            nxt += [g for g in meth.get(n, []) if noarg[g.key] == bool(a)]
        if re.search(r'\binto\(|\btry_into\(|v_try_into|\?', body):
            nxt += [g for n in ('from', 'try_from') for g in meth.get(n, []) if n == 'try_from' or not g.contract or '.into(' in body]
        for g in nxt:
            if g.key not in seen:
                seen.add(g.key)
                todo.append(g)
    return seen


# --------------------------------------------------------------------- verus

class Failure:
    def __init__(self, fn, kind, line, clause, tags, text, soft, edits):
        self.fn, self.kind, self.line, self.clause, self.tags, self.text, self.soft, self.edits = fn, kind, line, clause, tags, text, soft, edits


VERUS_ARGS = ['--crate-type=lib', '--output-json', '--time-expanded', '--error-format=json', '--multiple-errors', '3']


def verus(path, threads, extra=(), timeout=400):
    cmd = ['verus', *VERUS_ARGS, '--num-threads', str(threads), *extra, os.path.basename(path)]
    rc, o, e = run(cmd, timeout, cwd=os.path.dirname(path))
    res = {'cmd': ' '.join(cmd), 'rc': rc, 'json': None, 'diags': [], 'err': e}
    i = o.find('{')
    if i >= 0:
        try:
            res['json'] = json.loads(o[i:])
        except ValueError:
            pass
    for l in e.split('\n'):
        if l.startswith('{'):
            try:
                d = json.loads(l)
            except ValueError:
                continue
            if d.get('level') == 'error':
                res['diags'].append(d)
    return res


VER_ERRS = ('postcondition not satisfied', 'precondition not satisfied', 'invariant not satisfied', 'assertion failed',
            'possible arithmetic', 'possible division by zero', 'possible bit shift', 'Resource limit', 'decreases not satisfied',
            'split assertion failure', 'split precondition failure', 'split postcondition failure', 'possible', 'loop ensures not satisfied',
            'requires not satisfied', 'unable to prove', 'could not prove', 'termination')


def is_ver_err(d):
    return d.get('code') is None and any(d['message'].startswith(v) or v in d['message'] for v in VER_ERRS) and d.get('spans')


def fn_at(fns, line):
    for f in fns:
        if f.start <= line <= f.end:
            return f
    return None


def classify(d, fns, lines, first):
    """one diagnostic -> Failure, or None when it is not a failed obligation"""
    spans = d['spans']
    prim = [s for s in spans if s['is_primary']] or spans
    where = None
    for s in prim + spans:
        f = fn_at(fns, s['line_start'])
        if f:
            where = f
            break
    # a callee's contract may be shown as the primary span
    msg = d['message']
    clause, ctags = '', None
    for s in spans:
        lab = s.get('label') or ''
        if 'failed this' in lab or 'failed precondition' in lab or 'failed' in lab:
            cl = s
            ln = s['line_start'] - 1
            t = [lines[k] for k in range(ln, min(s['line_end'], ln + 12))]
            clause = ' '.join(x.strip() for x in t)[:600]
            if fn_at(fns, s['line_start']):
                for x in t + lines[s['line_end']:s['line_end'] + 1]:
                    m = re.search(r'//@([C\d ]+)', x)
                    if m:
                        ctags = set(m[1].split())
                        break
    soft, edits = False, []
    if 'Resource limit' in msg:
        return Failure(where, 'rlimit', prim[0]['line_start'], '', where.tags if where else set(), d['rendered'], True, [])
    if 'assertion failed' in msg or 'split assertion' in msg:
        # an assertion of a proof hint; rt_assert! of the code is a call
        soft = True
        edits = [(prim[0]['byte_start'], prim[0]['byte_end'], 'true')]
    if msg.startswith('precondition') or 'precondition' in msg:
        # whose precondition?
        lab = [s for s in spans if not s['is_primary']] or spans
        req = fn_at(fns, lab[0]['line_start'])
        call = [s for s in spans if s['is_primary']] or spans
        f = fn_at(fns, call[0]['line_start'])
        if f:
            where = f
        src = ''.join(t['text'][t['highlight_start'] - 1:t['highlight_end'] - 1] for t in call[0].get('text', []))
        if re.match(r'\s*(\w+::)*(lemma|axiom)_', src):
            soft = True
            edits = [(call[0]['byte_start'], call[0]['byte_end'], '()')]
        ctags = None
    if msg.startswith('postcondition'):
        for s in spans:
            f = fn_at(fns, s['line_start'])
            if f:
                where = f
    if where is None:
        return Failure(None, msg, prim[0]['line_start'], clause, set(), d['rendered'], True, [])
    tags = ctags if ctags else where.tags
    if ctags is None and ('invariant' in msg or 'decreases' in msg or 'loop ensures' in msg):
        tags = where.tags
    return Failure(where, msg, prim[0]['line_start'], clause, tags, d['rendered'], soft, edits)


class Proof:
    """outcome of the deductive part"""

    def __init__(self):
        self.ok = False            # every obligation of the cone discharged
        self.hard = []             # failed obligations
        self.undecided = {}        # fn key -> reason (bounded search stands in)
        self.note = ''
        self.verified = 0
        self.errors = 0
        self.fns = []
        self.cone = set()
        self.times = []
        self.cmd = ''
        self.report = {}
        self.smt_ms = 0
        self.trusted = []
        self.clauses = 0


def trusted_base(lines, first):
    out = []
    mod = ''
    for i, l in enumerate(lines, 1):
        inx = i > first
        m = re.match(r'pub mod (\w+) \{', l)
        if m:
            mod = m[1] + '::'
        m = re.search(r'assume_specification\s*(?:<[^\[]*>)?\s*\[\s*([^\]]+)\]', l)
        if m:
            out.append('assumed contract of ' + m[1].strip())
        if 'external_body' in l and not inx:
            for k in range(i - 1, min(i + 6, len(lines))):
                m = re.search(r'\b(fn|struct)\s+(\w+)', lines[k])
                if m:
                    out.append(('trusted axiom ' if m[2].startswith('axiom') else 'trusted (external body) ' + m[1] + ' ') + mod + m[2])
                    break
        if re.search(r'\b(admit|assume)\s*\(', l) and not l.strip().startswith('//'):
            out.append('UNPROVED step in line %d: %s' % (i, l.strip()))
        if 'exec_allows_no_decreases_clause' in l and inx:
            pass
    seen, res = set(), []
    for o in out:
        if o not in seen:
            seen.add(o)
            res.append(o)
    return res


# one obligation, several tries: the solver's answer depends on its seed
ATTEMPTS = [(), ('--rlimit', '60', '--smt-option', 'smt.random_seed=11'), ('--rlimit', '60', '--smt-option', 'smt.random_seed=29')]
NEVER_EXTERNAL = ('partition_types::constants',)


def prove(prop, tier, threads, deadline, whole=False, decided=lambda: False):
    p = Proof()
    wd = os.path.join(BUILD, 'run', prop)
    shutil.rmtree(wd, ignore_errors=True)
    os.makedirs(wd)
    gen = os.path.join(wd, 'gen.rs')
    rep, err = extract(gen, set())
    if rep is None:
        p.note = 'extraction failed: ' + err.strip()[-400:]
        p.undecided['*'] = p.note
        return p
    fns0, lines, first = parse_gen(gen)
    p.cone = set(f.key for f in fns0) if whole else cone(fns0, prop)
    allkeys = set(f.key for f in fns0)
    outside = set(f.key for f in fns0 if f.key not in p.cone and f.contract and f.key not in NEVER_EXTERNAL and not f.key.endswith('CRC_32'))
    p.report = rep
    lost_spec = [k for k in rep['LOST'] if k not in allkeys]
    # functions whose overlay no longer fits are not decided by proof (their
    # obligations are tried all the same: they may still go through)
    forced = {}        # key -> reason: body left out, contract assumed, decided by search only
    proven = set()     # proved in an earlier round (a function's proof uses its callees' contracts only)
    softened = []      # proof hints taken out, by text
    attempt = 0
    rounds = 0
    fails = []
    rep = None
    whole_count = None
    while True:
        rounds += 1
        if rounds > 14 or time.time() > deadline:
            p.note = p.note or 'proof attempts ended'
            if not fails:
                p.undecided['*'] = p.note
            break
        rep, err = extract(gen, outside | set(forced) | proven)
        if rep is None:
            p.note = 'extraction failed: ' + err.strip()[-400:]
            p.undecided['*'] = p.note
            break
        fns, lines, first = parse_gen(gen)
        if softened:
            # hints that did not hold are taken out, by text, at the same place
            txt = open(gen, 'rb').read()
            for old in softened:
                a = txt.find(old[0])
                if a >= 0:
                    txt = txt[:a] + old[1] + txt[a + len(old[0]):]
            open(gen, 'wb').write(txt)
        extra = ATTEMPTS[attempt]
        r = verus(gen, threads, extra, timeout=max(60, deadline - time.time()))
        if rounds == 1:
            p.cmd = r['cmd'] + '   (in ' + os.path.relpath(wd, VERIF) + ', gen.rs written by vextract from /repo/src and /verif/contracts)'
        open(os.path.join(wd, 'verus.%d.log' % rounds), 'w').write(r['cmd'] + '\n' + ('\n'.join(d.get('rendered') or '' for d in r['diags']) or r['err'][-4000:]))
        if r['rc'] is None:
            p.note = 'the verifier did not end in time'
            if not fails:
                p.undecided['*'] = p.note
            else:
                for f in fails:
                    if f.fn:
                        forced.setdefault(f.fn.key, p.note)
                fails = []
            break
        j = r['json'] or {}
        vr = j.get('verification-results') or {}
        other = [d for d in r['diags'] if d.get('spans') and not is_ver_err(d)]
        if other or 'verified' not in vr or vr.get('encountered-vir-error'):
            # not accepted by the front end: leave out the functions concerned
            new = {}
            for d in other:
                for s in d['spans']:
                    f = fn_at(fns, s['line_start'])
                    if f and f.key not in forced and f.key not in outside:
                        new[f.key] = 'outside the verifier\'s language: ' + d['message'][:200]
            if not new:
                p.note = 'the extracted text is not accepted: ' + (other[0]['message'][:300] if other else r['err'][-300:])
                p.undecided['*'] = p.note
                break
            forced.update(new)
            log('left out', new)
            continue
        # verifier's answer
        fails = [classify(d, fns, lines, first) for d in r['diags'] if is_ver_err(d)]
        failing = set(f.fn.key if f.fn else '*' for f in fails)
        if whole_count is None:
            whole_count = vr.get('verified', 0) + vr.get('errors', 0)
            p.fns = fns
            p.report = rep
            p.times = [f for m in j['times-ms']['smt']['smt-run-module-times'] for f in m['function-breakdown']]
            p.smt_ms = j['times-ms']['smt'].get('smt-run', 0)
            p.trusted = trusted_base(lines, first)
            p.clauses = sum(1 for f in fns if f.key in p.cone for l in f.text.split('\n') if re.search(r'//@.*\b' + prop + r'\b', l))
        else:
            p.smt_ms += j['times-ms']['smt'].get('smt-run', 0)
        p.verified, p.errors = whole_count - len(failing) - len(forced), len(failing)
        if not fails and vr.get('errors', 0) == 0:
            p.ok = not forced
            break
        log('round %d: not discharged in %s' % (rounds, sorted(failing)))
        if '*' not in failing:
            proven |= set(f.key for f in fns if f.contract and not f.external and f.key not in failing
                          and f.key in p.cone and f.key not in NEVER_EXTERNAL and not f.key.endswith('CRC_32'))
        if decided():
            # the search has a failing input already: no need to be thorough
            break
        # a solver may fail to find a proof that exists: an obligation counts
        # as failed only after several attempts
        if attempt == 0:
            attempt = 1
            continue
        soft = [f for f in fails if f.soft and f.edits]
        limits = set(f.fn.key if f.fn else '*' for f in fails if f.kind == 'rlimit')
        if soft and len(softened) < 40:
            # proof hints that fail: judge the contracts without them
            txt = open(gen, 'rb').read()
            for f in soft:
                for a, b, t in f.edits:
                    pad = txt[max(0, a - 60):a]
                    softened.append((pad + txt[a:b], pad + t.encode()))
            continue
        if attempt + 1 < len(ATTEMPTS):
            attempt += 1
            continue
        hard = set(f.fn.key for f in fails if not f.soft and f.fn)
        lim = set(k for k in limits if k not in hard)
        if lim:
            for k in lim:
                forced[k] = 'the solver gave no answer within its resource limit'
            if hard or '*' in lim:
                break
            continue
        break
    p.hard = [f for f in fails if not f.soft and f.fn is not None and f.fn.key not in forced]
    p.undecided.update(forced)
    if '*' not in p.undecided:
        for k, v in rep['LOST'].items() if rep else []:
            if k in p.cone and k not in p.undecided and any(f.fn.key == k for f in p.hard):
                p.undecided[k] = 'the overlay no longer fits: ' + '; '.join(v)[:300]
    return p


# -------------------------------------------------------------- dependencies

class Deps(threading.Thread):
    """proves the contracts assumed for simple-bytes, crc and uuid against those crates' source (tools/deps.py)"""
    def __init__(self, prop):
        super().__init__(daemon=True)
        self.wd = os.path.join(BUILD, 'deps', prop)
        self.res = {'crates': 'simple-bytes, crc, uuid', 'status': 'not run'}
        self.start()

    def run(self):
        try:
            shutil.rmtree(self.wd, ignore_errors=True)
            os.makedirs(self.wd)
            gen, out = os.path.join(self.wd, 'gen.rs'), os.path.join(self.wd, 'dep.rs')
            rep, err = extract(gen, set())
            if rep is None:
                raise RuntimeError('extraction failed')
            version, used = deps.main(gen, out, REPO)
            r = verus(out, 2, [x for m in deps.MODULES for x in ('--verify-only-module', m)], timeout=300)
            vr = (r['json'] or {}).get('verification-results') or {}
            self.res.update({
                'crates': version, 'cmd': r['cmd'],
                'obligations': vr.get('verified', 0) + vr.get('errors', 0), 'discharged': vr.get('verified', 0),
                'bodies_taken_from_the_crate': used,
                'status': 'proved' if vr.get('success') else 'not proved: assumed',
                'trusted': ['u8/u16/u32/u64::{to,from}_{le,be}_bytes', 'u32::reverse_bits', 'a Digest of crc stands for the bytes fed to it (relation `fed` of deps/crc.rs.in); a VBuf argument stands for its deref to a slice', 'AsRef<[u8]> of arrays, slices and vectors', 'the forms {..} and urn:uuid:.. of a GUID may be read as anything; derived Clone and PartialEq of uuid::Uuid compare its 16 bytes; Uuid::new_v4 draws from the random generator', 'slices and arrays have at most isize::MAX bytes',
                            'vstd: slice indexing by ranges, get, get_mut, copy_from_slice, Option and Result combinators'],
            })
        except Exception as e:
            self.res['status'] = 'not proved: assumed (%s)' % str(e)[:200]
        shutil.rmtree(self.wd, ignore_errors=True)

    def result(self, secs):
        self.join(max(0, secs))
        return self.res


# -------------------------------------------------------------------- search

class Search:
    def __init__(self, prop, seed, secs, procs, wd, thorough=False, base=0):
        self.procs = []
        for i in range(procs):
            out = os.path.join(wd, 'input.%d.%d.txt' % (base, i))
            a = [ENG, 'search', prop, '--seed', str(seed), '--secs', str(secs), '--from', str(base + i), '--stride', str(procs), '--out', out]
            if thorough:
                a.append('--thorough')
            scratch = os.path.join(wd, 'scratch.%d' % i)
            os.makedirs(scratch, exist_ok=True)
            p = subprocess.Popen(a, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, errors='replace', start_new_session=True,
                                 env=dict(os.environ, ENGINE_SCRATCH=scratch))
            self.procs.append((p, out))
        self.secs = secs
        self.t0 = time.time()

    def found_yet(self):
        return any(p.poll() is not None and p.returncode == 1 for p, _ in self.procs)

    def wait(self):
        """-> (found file or None, why, evaluations, distinct, samples, cases)"""
        found, ev, dis, cases, samples = None, 0, 0, 0, []
        pend = list(self.procs)
        limit = self.t0 + self.secs + 130
        while pend:
            for x in list(pend):
                p, out = x
                if p.poll() is None:
                    continue
                pend.remove(x)
                o = p.stdout.read()
                for l in o.split('\n'):
                    if l.startswith('FOUND') and found is None:
                        found = (out, l[6:])
                    m = re.match(r'CLEAN cases=(\d+) evaluations=(\d+) distinct=(\d+)', l)
                    if m:
                        cases += int(m[1]); ev += int(m[2]); dis += int(m[3])
                    if l.startswith('SAMPLE') and len(samples) < 6:
                        samples.append(l[7:])
            if found or time.time() > limit:
                for p, _ in pend:
                    try:
                        os.killpg(p.pid, signal.SIGKILL)
                    except ProcessLookupError:
                        pass
                    p.wait()
                break
            time.sleep(0.1)
        return found, ev, dis, samples, cases


# ---------------------------------------------------------------------- main

def describe(f):
    return '%s in %s%s' % (f.kind, f.fn.key if f.fn else 'a lemma', (': ' + f.clause) if f.clause else '')


def decide(prop, tier):
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    thorough = tier == 'thorough'
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    os.makedirs(BUILD, exist_ok=True)
    ok_x, err_x = build_extract()
    ok_e, err_e = build_engine()
    if not ok_e:
        log('search engine does not build:', err_e[-800:])
    wd = os.path.join(BUILD, 'search', prop)
    shutil.rmtree(wd, ignore_errors=True)
    os.makedirs(wd)
    log('tools built', round(time.time() - t0, 1))
    s = Search(prop, seed, 240 if thorough else 22, 4 if not thorough else 4, wd, thorough) if ok_e else None
    dep = Deps(prop) if ok_x else None
    if ok_x:
        p = prove(prop, tier, 6, t0 + (800 if thorough else 420), whole=thorough, decided=(s.found_yet if s else lambda: False))
    else:
        p = Proof()
        p.undecided['*'] = 'the extractor does not build: ' + err_x[-300:]
    log('proof: ok=%s verified=%d errors=%d hard=%d undecided=%s' % (p.ok, p.verified, p.errors, len(p.hard), p.undecided))
    for f in p.hard:
        log('failed obligation:', describe(f), '//', sorted(f.tags))
    found, ev, dis, samples, cases = (None, 0, 0, [], 0)
    if s:
        found, ev, dis, samples, cases = s.wait()
    searches = 1
    if not found and ok_e and (not p.ok):
        left = 860 - (time.time() - t0) if not thorough else 3000
        secs = int(max(20, min(110, left - 150)))
        s = Search(prop, seed + 7919, secs, 8, wd, thorough, base=100)
        f2, ev2, dis2, sm2, c2 = s.wait()
        found = f2
        ev, dis, cases = ev + ev2, dis + dis2, cases + c2
        samples = samples or sm2
        searches = 2
    # verdict
    violation, replay, suffix = None, None, ''
    rd = os.path.join(BUILD, 'replay')
    os.makedirs(rd, exist_ok=True)
    replay = os.path.join(rd, prop + '.txt')
    new_helpers = [k for k in p.report.get('NOCONTRACT', []) if k in p.cone and k not in KNOWN_NOCONTRACT]
    mine = [f for f in p.hard if prop in f.tags and f.fn and f.fn.key not in p.undecided]
    if new_helpers:
        # an uncontracted callee: the caller's failed obligation says nothing
        names = set(short(k) for k in new_helpers)
        mine = [f for f in mine if not (names & set(re.findall(r'\w+', f.fn.text)))]
    if found:
        violation = found[1]
        body = open(found[0]).read() if os.path.exists(found[0]) else 'property: %s\n' % prop
        body += '\nfailed obligations:\n' + ''.join('  %s\n%s\n' % (describe(f), f.text) for f in p.hard)
        open(replay, 'w').write(body)
    elif mine:
        violation = describe(mine[0])
        suffix = ' no-failing-input-found'
        body = 'property: %s\nno failing input found\n\nfailed obligations:\n' % prop
        body += ''.join('  %s\n%s\n' % (describe(f), f.text) for f in mine)
        open(replay, 'w').write(body)
    und = {k: v for k, v in p.undecided.items()}
    hard_other = [describe(f) for f in p.hard if f not in mine]
    dep_res = dep.result(840 - (time.time() - t0)) if dep else {'status': 'not run'}
    if dep_res['status'] == 'proved':
        p.trusted = [x for x in p.trusted if ' vsb::' not in x and ' vcrc::' not in x]
    # evidence
    shown = {}
    for f in p.times:
        shown[f['function']] = {'mode': f.get('mode:', ''), 'ms': f['time'], 'success': f['success']}
    cone_fns = sorted(f.key for f in p.fns if f.key in p.cone and f.contract and not f.external)
    coverage = {
        'obligations': p.verified + p.errors + len(und),
        'discharged': p.verified,
        'checker_cmd': p.cmd or 'verus (not reached)',
        'trusted_base': p.trusted,
        'dependency_contracts_proved': dep_res,
        'back_end': 'Verus 0.2026.09.13 (Z3)',
        'contract_clauses_of_this_property': p.clauses,
        'functions_under_contract': cone_fns,
        'functions_without_contract_in_cone': sorted(k for k in p.report.get('NOCONTRACT', []) if k in p.cone),
        'functions_bounded_only': und,
        'failed_obligations': [describe(f) for f in p.hard],
        'failed_obligations_of_other_properties': hard_other,
        'overlay_anchors_lost': {k: v for k, v in p.report.get('LOST', {}).items()},
        'not_extracted': p.report.get('DROPPED', []) + p.report.get('SKIPPED', []),
        'solver_ms': p.smt_ms,
        'solver_ms_by_function': {k: v['ms'] for k, v in sorted(shown.items(), key=lambda x: -x[1]['ms'])[:60]},
        'evaluations': ev,
        'distinct_nontrivial': dis,
        'rule': RULE,
        'samples': samples[:6],
        'search_cases': cases,
        'search_rounds': searches,
        'exhaustive': False,
    }
    if thorough:
        coverage['vacuity_probes'] = vacuity(prop, set(k for k in und if k != '*'))
    evid = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'proof', 'coverage': coverage,
        'assumptions': ASSUMPTIONS, 'wall_s': round(time.time() - t0, 1), 'violations': 1 if violation else 0,
    }
    with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
        json.dump(evid, f, indent=1)
    if ok_e:
        for l in known_lines(prop):
            print(l, flush=True)
    shutil.rmtree(wd, ignore_errors=True)
    if violation:
        print('property %s: %s' % (prop, violation[:1000]))
        print('VIOLATION property=%s replay=%s%s' % (prop, os.path.relpath(replay, VERIF), suffix), flush=True)
        return 1
    if p.ok:
        print('property %s: %d obligations discharged, none failed; %d cases run without a failing input' % (prop, p.verified, cases))
    else:
        print('property %s: %d obligations discharged; decided by bounded search only: %s; %d cases run without a failing input'
              % (prop, p.verified, '; '.join('%s (%s)' % x for x in und.items()) or '; '.join(hard_other), cases))
    return 0


def known_lines(prop):
    res = []
    path = os.path.join(VERIF, 'known-findings.txt')
    if not os.path.exists(path):
        return res
    for l in open(path):
        m = re.match(r'finding: property=(\S+) (.*)', l)
        if m and m[1] == prop:
            rc, o, e = run([ENG, 'known'], 120)
            if o.startswith('KNOWN'):
                res.append('KNOWN-FINDING: property=%s %s' % (prop, m[2].strip()))
    return res


def vacuity(prop, skip):
    """assert(false) at the start of every body of the cone must fail: no
    contract has a contradictory precondition or a contradictory context"""
    wd = os.path.join(BUILD, 'run', prop)
    src = os.path.join(wd, 'whole.rs')
    rep, err = extract(src, skip)
    if rep is None:
        return {}
    fns, lines, first = parse_gen(src)
    out = list(lines)
    probes = 0
    for f in fns:
        if f.external:
            continue
        for k in range(f.start, f.end):
            if lines[k].startswith('{ /*@@body*/') or lines[k].startswith('{/*@@body*/'):
                out[k] = lines[k].replace('/*@@body*/', ' proof { assert(false); } ', 1)
                probes += 1
                break
    g = os.path.join(wd, 'probe.rs')
    open(g, 'w').write('\n'.join(out))
    r = verus(g, 8, timeout=600)
    vac = []
    bad = set()
    for d in r['diags']:
        if is_ver_err(d):
            for s in d['spans']:
                f = fn_at(fns, s['line_start'])
                if f:
                    bad.add(f.key)
    for f in fns:
        if not f.external and any('/*@@body*/' in lines[k] for k in range(f.start, f.end)) and f.key not in bad:
            vac.append(f.key)
    return {'probes': probes, 'rejected_as_expected': len(bad), 'vacuous': vac}


KNOWN_NOCONTRACT = {
    'macros::ResultInsert::insert_ok', 'partition_types::<FromStrforOperatingSystem>::from_str', 'partition_types::constants',
}

ASSUMPTIONS = [
    'the contracts in contracts/10_shim.rs on std (io traits, cursor, strings, files) are assumed; those on BTreeMap and the iterators are proved against those of vstd; those on simple-bytes, crc and uuid are proved against these crates when dependency_contracts_proved says so',
    'devices follow the model of contracts/21_disk.rs: reads do not change bytes, a failed write changes only bytes it was asked to write, a device only grows by writing past its end',
    'the extraction keeps the meaning of the code (DESIGN.md lists every edit it makes)',
    'Verus, its Rust front end and Z3 are correct',
    'memory suffices and usize is 64 bits wide',
    'closures and trait objects of the crate behave as their contracts in the overlay',
]


def setup():
    ok1, e1 = build_extract()
    ok2, e2 = build_engine()
    if not ok1 or not ok2:
        print(e1, e2)
        return 1
    return 0


def main(a):
    if not a:
        print(__doc__ or '')
        return 2
    if a[0] == 'setup':
        return setup()
    if a[0] == 'replay':
        if not os.path.exists(ENG):
            build_engine()
        rc, o, e = run([ENG, 'replay', a[1]], 300)
        print(o)
        return rc if rc is not None else 1
    tier = a[1] if len(a) > 1 else os.environ.get('VERIF_TIER', 'quick')
    return decide(a[0], tier if tier in ('quick', 'thorough') else 'quick')
