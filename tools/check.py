#!/usr/bin/env python3
"""One check = one property.  See DESIGN.md, "How a check decides".

  check.py C06            (VERIF_TIER, VERIF_SEED from the environment)
"""
import difflib, hashlib, json, os, re, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import vgen                                    # noqa: E402
from config import PROPS, ALL_MODULES, is_own  # noqa: E402

VERIF = os.path.dirname(HERE)
REPO = '/repo'
BUILD = os.path.join(VERIF, '.build')
T0 = time.time()
TIER = os.environ.get('VERIF_TIER', 'quick')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
BASELINE = os.path.join(VERIF, 'contracts', 'baseline.json')


def log(*a):
    print('[%6.1fs]' % (time.time() - T0), *a, flush=True)


def build():
    env = dict(os.environ, CARGO_TARGET_DIR=BUILD, CARGO_NET_OFFLINE='true')
    p = subprocess.run(['cargo', 'build', '--offline', '--quiet'], cwd=os.path.join(VERIF, 'harness'), env=env,
                       capture_output=True, text=True)
    if p.returncode:
        print(p.stderr[-3000:])
        raise SystemExit('harness does not build against the current /repo')
    return os.path.join(BUILD, 'debug')


def literals(x):
    ints, strs = set(), set()
    toks = []
    for f in x['fns']:
        toks += f['raw_tokens']
    for c in x['consts']:
        toks += re.findall(r'"(?:[^"\\]|\\.)*"|[\w.]+|\S', c['text'])
    for s in x.get('skipped', []):
        if isinstance(s, dict):
            toks += s.get('raw_tokens', [])
    for t in toks:
        m = re.match(r'^(0x[0-9a-fA-F_]+|[0-9][0-9_]*)(?:[iu](?:8|16|32|64|size))?$', t)
        if m:
            v = int(m.group(1).replace('_', ''), 0) if m.group(1).startswith('0x') else int(m.group(1).replace('_', ''))
            ints.add(v)
            if 0 < v <= 31:
                ints.add(1 << v)
        elif re.match(r'^".*"$', t, re.S) and len(t) < 80:
            try:
                strs.add(json.loads(t))
            except Exception:
                strs.add(t[1:-1])
        elif re.match(r"^'.'$", t):
            strs.add(t[1:-1])
    return ints, strs


def align(old, new):
    """identifiers of the baseline that were consistently renamed in the current body"""
    if old == new:
        return {}
    cand, bad = {}, set()
    sm = difflib.SequenceMatcher(None, old, new, autojunk=False)
    for op, a0, a1, b0, b1 in sm.get_opcodes():
        if op == 'replace' and a1 - a0 == b1 - b0:
            for a, b in zip(old[a0:a1], new[b0:b1]):
                if re.match(r'^[a-z_]\w*$', a) and re.match(r'^[a-z_]\w*$', b):
                    if cand.get(a, b) != b:
                        bad.add(a)
                    cand[a] = b
    nn, oo = set(new), set(old)
    return {a: b for a, b in cand.items() if a not in bad and a not in nn and b not in oo}


def structure(f):
    """what the ghost code of a function is attached to: its loops (and how they are left), closures, parameters"""
    return [[l['kind'] + ''.join(' ' + w for w in ('return', 'break') if re.search(r'\b%s\b' % w, l['body'])) for l in f['loops']],
            len(f['closures']), len(f['params'])]


class Check:
    def __init__(self, prop):
        self.prop = prop
        self.cfg = PROPS[prop]
        self.modules = ['vshim'] + self.cfg['modules']
        self.work = os.path.join(VERIF, 'work', prop)
        os.makedirs(self.work, exist_ok=True)
        self.base = json.load(open(BASELINE)) if os.path.exists(BASELINE) else {'fns': {}, 'ints': [], 'strs': []}
        self.report = {}
        self.unplaced, self.uses_ret = {}, set()

    # ---- the deductive part

    def extract(self):
        self.x = vgen.extract(os.path.join(REPO, 'src'), ALL_MODULES, self.work, os.path.join(self.bin, 'extract'))
        self.fns = {f['key']: f for f in self.x['fns']}
        self.changed = sorted(k for k, b in self.base['fns'].items()
                              if k not in self.fns or self.fns[k]['norm_tokens'] != b['tokens'])
        self.renames = {}
        for k in self.changed:
            if k in self.fns:
                r = align(self.base['fns'][k]['tokens'], self.fns[k]['norm_tokens'])
                if r:
                    self.renames[k] = r
        self.src_changed = self.base.get('raw') != raw_digest(self.x)

    def verus(self, fallback, vac=False, tag='out'):
        g = vgen.Gen(self.x, self.modules, renames=self.renames, fallback=fallback)
        g.vac = vac
        text = g.gen()
        path = os.path.join(self.work, tag + '.rs')
        open(path, 'w').write(text)
        cmd = ['verus', '--triggers-mode', 'silent', '--multiple-errors', '3', '--rlimit', '60', '--num-threads', '8',
               '--output-json', '--time-expanded', '--error-format=json', tag + '.rs']
        if tag == 'out':
            self.cmd = ' '.join(cmd)
        try:
            p = subprocess.run(cmd, capture_output=True, text=True, cwd=self.work, timeout=400)
        except subprocess.TimeoutExpired:
            return g, None, [], 'verus timed out'
        diags = []
        for ln in p.stderr.splitlines():
            try:
                d = json.loads(ln)
            except ValueError:
                continue
            if d.get('level') == 'error' and d.get('spans'):
                diags.append(d)
        try:
            js = json.loads(p.stdout[p.stdout.index('{'):])
        except ValueError:
            js = None
        self.raw_err = p.stderr
        lines = text.split('\n')
        out = []
        for d in diags:
            spans = sorted(d['spans'], key=lambda s: not s['is_primary'])
            where = None
            # a failed precondition is the caller's: look at the non-requires spans first
            for s in spans:
                w = self.locate(g, lines, s['line_start'])
                if w and (where is None or (where[0] == 'text' and w[0] == 'fn')):
                    where = w
            if 'precondition' in d['message']:
                for s in spans:
                    w = self.locate(g, lines, s['line_start'])
                    if w and s.get('label') != 'failed precondition':
                        where = w
                        break
            tags = set()
            for sp in d['spans']:
                for n in range(sp['line_start'], sp['line_end'] + 1):
                    tags.update(t for m in re.findall(r'//#([C\d,]+)', lines[n - 1]) for t in m.split(',')) if n <= len(lines) and sp['line_end'] - sp['line_start'] < 12 else None
            out.append({'where': where, 'tags': sorted(tags), 'message': d['message'], 'code': d.get('code'), 'rendered': d.get('rendered', '')})
        return g, js, out, p.stderr

    def locate(self, g, lines, n):
        for a, b, key, variant in g.ranges:
            if a <= n <= b:
                return ('fn', key, variant)
        for i in range(min(n, len(lines)) - 1, -1, -1):
            m = re.search(r'\bproof fn (\w+)', lines[i])
            if m:
                mod = next((re.match(r'pub mod (\w+) \{', lines[j]).group(1) for j in range(i, -1, -1)
                            if re.match(r'pub mod (\w+) \{', lines[j])), '?')
                return ('lemma', mod + '::' + m.group(1), mod)
            if re.match(r'pub mod \w+ \{', lines[i]):
                break
        return ('text', '?', '')

    PROOF = ('postcondition not satisfied', 'precondition not satisfied', 'invariant not satisfied', 'assertion failed',
             'possible arithmetic', 'possible division', 'decreases not satisfied', 'index', 'unreachable', 'precondition',
             'assertion', 'loop invariant', 'recommendation', 'termination', 'could not prove', 'possible bit shift', 'possible')

    def is_proof_failure(self, d):
        return d['code'] is None and any(m in d['message'] for m in self.PROOF) and 'not supported' not in d['message'] \
            and 'rlimit' not in d['message']

    def prove(self):
        fallback = set()
        lost = {}             # fn -> why it is out of the verifier's reach this run
        for _ in range(12):
            g, js, diags, err = self.verus(fallback)
            hard = [d for d in diags if not self.is_proof_failure(d)]
            if js and js.get('verification-results', {}).get('encountered-vir-error') is False and not \
                    [d for d in hard if 'rlimit' not in d['message'] and 'Resource limit' not in d['message']] and \
                    js['verification-results'].get('verified', 0) + js['verification-results'].get('errors', 0) > 0:
                break
            new = set()
            for d in hard:
                w = d['where']
                if w and w[0] == 'fn' and w[1] not in fallback:
                    new.add(w[1])
                    lost[w[1]] = d['message'][:200]
            if not new:
                # an error outside every function under contract: the data the contracts speak about has changed
                why = hard[0]['message'][:300] if hard else str(err)[-300:]
                return dict(ok=False, total_loss=why, failures=[], lost=lost, g=g, js=None)
            fallback |= new
        else:
            return dict(ok=False, total_loss='no stable fallback set', failures=[], lost=lost, g=g, js=None)
        fails = []
        undecided = []
        for d in diags:
            if 'rlimit' in d['message'] or 'Resource limit' in d['message']:
                undecided.append(d)
            else:
                fails.append(d)
        for k in g.missing:
            if k.startswith('fn '):
                lost[k[3:]] = 'no longer a function of its own'
        self.unplaced, self.uses_ret = g.unplaced, g.uses_ret
        return dict(ok=not fails, total_loss=None, failures=fails, undecided=undecided, lost=lost, g=g, js=js)

    def intact(self, key):
        f, b = self.fns.get(key), self.base['fns'].get(key)
        return bool(f and b and structure(f) == b['structure'] and key not in self.unplaced
                    and (key not in self.uses_ret or f['body'].count('/*@ret_') == b.get('rets')))

    # ---- the bounded part

    def lits(self):
        ints, strs = literals(self.x)
        bi, bs = set(self.base['ints']), set(self.base['strs'])
        p = os.path.join(self.work, 'lits.json')
        json.dump({'ints': sorted(ints), 'strs': sorted(strs), 'new_ints': sorted(ints - bi), 'new_strs': sorted(strs - bs)}, open(p, 'w'))
        return p

    def search(self, secs, cases):
        p = subprocess.run([os.path.join(self.bin, 'replay'), 'search', self.prop, str(SEED), str(secs), str(cases), self.lits()],
                           capture_output=True, text=True, timeout=secs * 3 + 120)
        try:
            return json.loads(p.stdout.strip().split('\n')[-1])
        except Exception:
            # the code under test took the whole process down (abort, stack overflow): that is a failing run
            return {'evaluated': 0, 'distinct': 0, 'exhaustive': False, 'samples': [],
                    'found': {'case': None, 'message': 'the process running the code under test died: rc %s %s' % (p.returncode, p.stderr[-300:])}}

    # ---- verdict

    def run(self):
        self.bin = build()
        log('built harness and extractor against /repo')
        dep = None
        if 'source_map_mappings' in self.modules:
            dep = subprocess.Popen([sys.executable, os.path.join(HERE, 'depgen.py'), 'check', os.path.join(self.work, 'dep')] + (['vac'] if TIER == 'thorough' else []),
                                   stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
        self.extract()
        log('extracted %d functions, %d differ from the baseline: %s' % (len(self.x['fns']), len(self.changed), ', '.join(self.changed)[:300]))
        if self.renames:
            log('renamed locals followed:', self.renames)
        r = self.prove()
        g = r['g']
        own_fail, dep_fail = [], []
        for d in r['failures']:
            w = d['where'] or ('text', '?', '')
            mine = (w[0] == 'fn' and is_own(self.prop, w[1], w[2], d['tags'])) or (w[0] == 'lemma' and w[2] in self.cfg.get('lemmas', []))
            (own_fail if mine else dep_fail).append(d)
        hard = [d for d in own_fail if d['where'][0] == 'lemma' or self.intact(d['where'][1])]
        soft = [d for d in own_fail if d not in hard]
        lost = {k: v for k, v in r['lost'].items()}
        vr = (r['js'] or {}).get('verification-results', {})
        log('verus: %s verified, %s errors; out of reach this run: %s' % (vr.get('verified'), vr.get('errors'), lost or 'none'))
        if r['total_loss']:
            log('the contracts no longer apply to this tree:', r['total_loss'])
        vacuous = []
        if r['ok'] and not r['total_loss']:
            vacuous = self.vacuity(r)
        # the search
        degraded = bool(r['failures'] or lost or r['total_loss'] or r.get('undecided'))
        if TIER == 'thorough':
            secs, cases = 400, 40_000_000
        elif degraded:
            secs, cases = 100, 12_000_000
        elif self.src_changed:
            secs, cases = 45, 3_000_000
        else:
            secs, cases = 20, 40_000
        s = self.search(secs, cases)
        log('bounded search on the real crate: %d cases, %d distinct non-trivial%s' % (s['evaluated'], s['distinct'], ', exhaustive' if s['exhaustive'] else ''))
        self.dep = None
        if dep:
            try:
                self.dep = json.loads(dep.communicate(timeout=700)[0].strip().split('\n')[-1])
            except Exception as e:
                dep.kill()
                self.dep = {'proved': False, 'failed': [str(e)[:200]]}
            log('dependency source-map-mappings: %s' % ('its contracts are discharged on its source (%d items)' % self.dep['verified'] if self.dep['proved']
                else 'its contracts are ASSUMED this run: %s' % self.dep.get('failed')))
        violation = None
        rp = os.path.join(self.work, 'violation.json')
        named = ['%s %s: %s' % (d['where'][0], d['where'][1], d['message']) for d in own_fail + dep_fail if d['where']]
        body = {'property': self.prop, 'obligations_failed': named, 'verifier_output': [d['rendered'] for d in own_fail + dep_fail][:10],
                'repo_src_digest': raw_digest(self.x), 'seed': SEED}
        if s['found']:
            body['case'] = s['found']['case']
            body['message'] = s['found']['message']
            body['rerun'] = '%s/replay run %s' % (os.path.relpath(self.bin, VERIF), os.path.relpath(rp, VERIF))
            violation = 'VIOLATION property=%s replay=%s' % (self.prop, rp)
        elif hard:
            body['message'] = 'an obligation that is discharged on the unchanged tree is not discharged on this one; no failing input was found'
            violation = 'VIOLATION property=%s replay=%s no-failing-input-found' % (self.prop, rp)
        if violation:
            json.dump(body, open(rp, 'w'), indent=1)
        self.evidence(r, s, own_fail, dep_fail, soft, lost, vacuous, 1 if violation else 0)
        for d in dep_fail:
            log('note: obligation of another property fails:', d['where'][1], d['message'][:100])
        for d in soft:
            log('note: not discharged, but the shape of the function changed so its proof hints do not apply (bounded check instead):', d['where'][1])
        if vacuous:
            log('VACUITY: these accept assert(false):', vacuous)
        if violation:
            for n in named[:6]:
                print('failed obligation:', n)
            if s['found']:
                print('failing input:', json.dumps(s['found']['case'])[:1500])
                print('observed:', s['found']['message'][:1500])
            print(violation, flush=True)
            return 1
        print('property=%s held: %d obligations discharged%s; %d cases replayed' % (
            self.prop, vr.get('verified', 0), '' if not degraded else ' (NOT all: see evidence, bounded stand-in used)', s['evaluated']))
        return 0

    def vacuity(self, r):
        """every function under contract must reject assert(false) at its start"""
        g, js, diags, _ = self.verus(set(r['lost']), vac=True, tag='vac')
        hit = set()
        for d in diags:
            w = d['where']
            if w and w[0] == 'fn':
                hit.add((w[1], w[2]))
        self.vac_checked = len(hit)
        return sorted('%s (%s)' % (k, v) for _, _, k, v in g.ranges if k not in g.trusted_keys and k not in g.fallback and (k, v) not in hit)

    def evidence(self, r, s, own_fail, dep_fail, soft, lost, vacuous, nviol):
        g, js = r['g'], r['js'] or {}
        vr = js.get('verification-results', {})
        smt = js.get('times-ms', {}).get('smt', {})
        per = {}
        for m in smt.get('smt-run-module-times', []):
            for f in m.get('function-breakdown', []):
                k = f['function'].replace('out::', '', 1)
                e = per.setdefault(k, {'mode': f.get('mode:', ''), 'ms': 0, 'ok': True})
                e['ms'] += f['time']
                e['ok'] = e['ok'] and f['success']
        tb = ['Verus 0.2026.09.13 and the Z3 bundled with it', 'rustc, std and vstd specifications',
              'tools: harness/src/bin/extract.rs (normal form), tools/vgen.py (assembly)']
        tb += sorted(g.trusted)
        for mod in self.modules:
            t = open(os.path.join(vgen.CONTRACTS, mod + '.vrs')).read()
            if mod == 'source_map_mappings' and self.dep and self.dep['proved']:
                tb += ['dependency source-map-mappings/vlq: its contracts are discharged on its registry source in the same run (coverage.dependency), where assumed: ' + ', '.join(self.dep['assumed']),
                       'dependency: its iterators seen through a slice iterator over what they yield (next is proved to yield exactly that); inputs of parse_mappings shorter than 4 GiB']
                continue
            for m in re.finditer(r'external_body\]\s*(?:#\[[^\]]*\]\s*)*(?:pub )?(?:broadcast )?(?:proof )?fn (\w+)', t):
                tb.append('assumed: %s::%s' % (mod, m.group(1)))
            for m in re.finditer(r'assume_specification(?:<.*?>)?\s*\[\s*(.*?)\s*\]\s*\(', t):
                tb.append('assumed specification: ' + m.group(1))
            for m in re.finditer(r'\b(admit|assume)\s*\(', t):
                tb.append('ASSUME/ADMIT in %s' % mod)
        und = [d['where'][1] for d in r.get('undecided', []) if d['where']]
        ob = vr.get('verified', 0) + vr.get('errors', 0)
        ev = {
            'property': self.prop, 'tier': TIER, 'seed': SEED, 'level': 'proof',
            'coverage': {
                'obligations': ob, 'discharged': vr.get('verified', 0),
                'checker_cmd': 'cd %s && %s' % (self.work, getattr(self, 'cmd', 'verus')),
                'trusted_base': tb,
                'obligation_unit': 'one verified item of Verus: a function body against its contract (with its loops, calls and arithmetic), or a lemma',
                'back_end': 'Verus / Z3',
                'solver_ms': smt.get('smt-run'),
                'functions_under_contract': sorted(k for k in g.under_contract if k not in g.trusted_keys and k not in lost),
                'functions_deciding_this_property': sorted(k for k in g.under_contract if is_own(self.prop, k)),
                'assumed_functions': sorted(g.trusted_keys),
                'per_function': per,
                'failed_own': [d['where'][1] for d in own_fail], 'failed_other': [d['where'][1] for d in dep_fail if d['where']],
                'not_discharged_shape_changed': [d['where'][1] for d in soft],
                'out_of_reach_this_run': lost, 'undecided_rlimit': und, 'contracts_do_not_apply': r['total_loss'],
                'vacuity': {'bodies_that_must_and_do_reject_assert_false': getattr(self, 'vac_checked', 0), 'vacuous': vacuous},
                'extraction_notes': sorted(g.notes),
                'bounded_part': {
                    'label': 'bounded, not counted as proved: executable form of the property on the real crate (validates the assumed contracts and the extraction; searches a failing input when an obligation fails)',
                    'evaluations': s['evaluated'], 'distinct_nontrivial': s['distinct'], 'exhaustive': s['exhaustive'],
                    'rule': 'seeded random cases of harness/src/bin/replay.rs (generate), with the integer and string literals of the current source mixed in; non-trivial = non-empty operation list / document with sources and mappings',
                    'samples': s['samples'][:2],
                },
                'dependency': self.dep,
                'source_changed_since_baseline': self.changed if self.src_changed else [],
            },
            'assumptions': ['String and &str equality, hashing and ordering are those of their character sequences',
                            'clone of std types (String, Option, Box, Vec, HashMap) copies, and a Vec with the same elements is the same value; slice::sort_by sorts stably given a total preorder; HashMap behaves as a map (vstd)',
                            'usize is 64 bits; integer overflow is an error (as in a debug build), never wrapped',
                            'panics end the call: the normal contract proves them unreachable, the refuse contract proves they are the only way out'],
            'wall_s': round(time.time() - T0, 2), 'violations': nviol,
        }
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        json.dump(ev, open(os.path.join(VERIF, 'evidence', self.prop + '.json'), 'w'), indent=1)


def raw_digest(x):
    h = hashlib.sha256()
    for f in sorted(x['fns'], key=lambda f: f['key']):
        h.update(json.dumps([f['key'], f['raw_tokens']]).encode())
    for c in sorted(x['consts'], key=lambda c: (c['module'], c['name'])):
        h.update(c['text'].encode())
    h.update(json.dumps(x['skipped'], sort_keys=True).encode())
    for t in sorted(x['types'], key=lambda t: (t['module'], t['name'])):
        h.update(json.dumps([t['module'], t['name'], t['derives'], t['text']]).encode())
    return h.hexdigest()


def baseline():
    """record the shape of the functions on the tree the contracts were written for"""
    b = build()
    x = vgen.extract(os.path.join(REPO, 'src'), ALL_MODULES, os.path.join(VERIF, 'work', 'baseline'), os.path.join(b, 'extract'))
    keys = set(vgen.contracted(ALL_MODULES))
    ints, strs = literals(x)
    out = {'fns': {f['key']: {'tokens': f['norm_tokens'], 'structure': structure(f), 'rets': f['body'].count('/*@ret_')} for f in x['fns'] if f['key'] in keys},
           'ints': sorted(ints), 'strs': sorted(strs), 'raw': raw_digest(x)}
    json.dump(out, open(BASELINE, 'w'), indent=0, sort_keys=True)
    print('baseline of %d functions' % len(out['fns']), 'missing:', sorted(k for k in keys if k not in {f['key'] for f in x['fns']}))


if __name__ == '__main__':
    if sys.argv[1] == 'baseline':
        baseline()
    else:
        sys.exit(Check(sys.argv[1]).run())
