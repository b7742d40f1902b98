#!/usr/bin/env python3
"""The dependency under contract: builds one Verus file out of the source text of
source-map-mappings 0.5.0 and vlq 0.5.1 in the cargo registry and the template
contracts/dep/mappings.dep.  The template only adds contracts and ghost code; every
change of the dependency's own text is a listed rewrite (`//@~ old ==> new`), and a
rewrite or anchor that does not match the source stops the run."""
import glob
import hashlib
import json
import os
import re
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CRATES = {'lib.rs': 'source-map-mappings-0.5.0/src/lib.rs',
          'comparators.rs': 'source-map-mappings-0.5.0/src/comparators.rs',
          'vlq.rs': 'vlq-0.5.1/src/lib.rs'}


class Changed(Exception):
    pass


def sources():
    lock = os.path.join(HERE, 'harness', 'Cargo.lock')
    if os.path.exists(lock):
        l = open(lock).read()
        for n, v in (('source-map-mappings', '0.5.0'), ('vlq', '0.5.1')):
            got = re.findall(r'name = "%s"\nversion = "([^"]*)"' % n, l)
            if got != [v]:
                raise Changed('the contracts are for %s %s, built is %s' % (n, v, got))
    home = os.environ.get('CARGO_HOME') or os.path.expanduser('~/.cargo')
    out = {}
    for k, p in CRATES.items():
        hits = glob.glob(os.path.join(home, 'registry', 'src', '*', p))
        if not hits:
            raise Changed('no source of ' + p)
        out[k] = open(hits[0]).read()
    return out


def block_end(t, i):
    """index after the block or `;` item starting at i"""
    d = 0
    while i < len(t):
        c = t[i]
        if t.startswith('//', i):
            i = t.index('\n', i)
            continue
        if c == "'" and re.match(r"'(\\.|[^\\'])'", t[i:i + 4]):
            i += len(re.match(r"'(\\.|[^\\'])'", t[i:i + 4]).group(0))
            continue
        if c in '{([':
            d += 1
        elif c in '})]':
            d -= 1
            if d == 0 and c == '}':
                return i + 1
        elif c == ';' and d == 0:
            return i + 1
        i += 1
    raise Changed('unbalanced')


def item(t, head, what):
    n = t.count(head)
    if n != 1:
        raise Changed('%d matches of `%s` in %s' % (n, head, what))
    i = t.index(head)
    return t[i:block_end(t, i)]


def bodystart(t):
    """the index of the brace that opens a function's body"""
    d = 0
    for i, c in enumerate(t):
        if c in '([':
            d += 1
        elif c in ')]':
            d -= 1
        elif c == '{' and d == 0:
            return i
    raise Changed('no body')


STUB = os.path.join(HERE, 'contracts', 'source_map_mappings.vrs')


def stub_spec(name):
    """the requires/ensures text of a contract the repository's code is verified against"""
    t = open(STUB).read()
    m = re.search(r'pub fn %s(?:<O>)?\(.*\n((?:(?!\s*\{ unimplemented).*\n)*)\s*\{ unimplemented!\(\) \}' % name, t)
    return m.group(1)


def stub_theory():
    """its specification functions and lemmas, without the assumed functions and uninterpreted symbols"""
    t = open(STUB).read()
    a = t.index('/// a mapping without its column span')
    t = t[a:]
    # the impl blocks hold the assumed functions only
    while True:
        m = re.search(r'^impl Mappings \{', t, re.M)
        if not m:
            break
        t = t[:m.start()] + t[block_end(t, m.start()):]
    t = re.sub(r'#\[verifier::external_body\]\npub fn parse_mappings(?:.*\n)*?\{ unimplemented!\(\) \}\n', '', t)
    if 'external_body' in t or 'uninterp' in t:
        raise Changed('the theory still assumes something')
    a = t.index('// ---- the reader')
    b = t.index('// ---- nearest mappings')
    return t[:a] + t[b:], t[a:b]


def generate():
    src = sources()
    tpl = open(os.path.join(HERE, 'contracts', 'dep', 'mappings.dep')).read().split('\n')
    out, rewrites, names = [], [], []
    i = 0
    while i < len(tpl):
        l = tpl[i]
        if l.startswith('//@theory'):
            out.append(stub_theory()[1 if 'reader' in l else 0])
            i += 1
        elif l.startswith('//@ '):
            f, head = l[4:].split(" ", 1)
            head = head.replace("\\n", "\n")
            t = item(src[f], head, f)
            spec, attrs = '', ''
            i += 1
            while not tpl[i].startswith('//@end'):
                l = tpl[i]
                if l.startswith('//@~ '):
                    a, b = l[5:].split(' ==> ', 1) if ' ==> ' in l else (l[5:].replace(' ==>', ''), '')
                    a, b = a.replace('\\n', '\n'), b.replace('\\n', '\n')
                    if a not in t:
                        raise Changed('`%s` not in %s' % (a, head))
                    t = t.replace(a, b)
                    rewrites.append((head, a, b))
                    i += 1
                elif l.startswith('//@+ ') or l.startswith('//@- '):
                    a = l[5:].replace('\\n', '\n')
                    if t.count(a) != 1:
                        raise Changed('%d matches of anchor `%s` in %s' % (t.count(a), a, head))
                    i += 1
                    g = []
                    while not tpl[i].startswith('//@'):
                        g.append(tpl[i])
                        i += 1
                    k = t.index(a) + (len(a) if l[3] == '+' else 0)
                    t = t[:k] + '\n' + '\n'.join(g) + '\n' + t[k:]
                elif l.startswith('//@attr '):
                    attrs += l[8:] + '\n'
                    i += 1
                elif l.startswith('//@spec'):
                    frm = re.match(r'//@spec (\w+)', l)
                    if frm:
                        spec += stub_spec(frm.group(1))
                    i += 1
                    while not tpl[i].startswith('//@'):
                        spec += tpl[i] + '\n'
                        i += 1
                elif l.startswith('//@subst '):
                    a, b = l[9:].split(' ==> ', 1) if ' ==> ' in l else (l[9:].replace(' ==>', ''), '')
                    if a not in spec:
                        raise Changed('`%s` not in the contract of %s' % (a, head))
                    spec = spec.replace(a, b)
                    i += 1
                else:
                    raise Changed('template: ' + l)
            i += 1
            if re.search(r'\bfn \w', head):
                k = bodystart(t)
                sig, body = t[:k].rstrip(), t[k:]
                wh = re.search(r'\n\s*where\b', sig)
                sg, where = (sig[:wh.start()], sig[wh.start():]) if wh else (sig, '')
                sg = re.sub(r'->\s*(.*)$', lambda m: '-> (r: %s)' % m.group(1).strip(), sg.strip(), flags=re.S)
                t = attrs + sg + where + '\n' + spec + '{ /*body*/' + body[1:]
                names.append(re.search(r'fn (\w+)', head).group(1))
            else:
                t = attrs + t
                names += ['%s (%s)' % (f, head.split('{')[0].strip()) for f in re.findall(r'(?<!spec )\bfn (\w+)', t)] if head.startswith('impl') else []
            out.append(t)
        else:
            out.append(l)
            i += 1
    return '\n'.join(out), rewrites, names


def with_false(t, names):
    """the same file with assert(false) at the start of every function body that has a contract"""
    n = 0
    out = []
    for l in t.split('\n'):
        out.append(l)
    t = '\n'.join(out)
    for m in reversed(list(re.finditer(r'/\*body\*/', t))):
        k = m.end()
        h = re.match(r'\s*hide\([^\n]*\n', t[k:])
        j = re.search(r'^\s*hide\([^\n]*\n', t[k:k + 400], re.M)
        k = k + j.end() if j else k
        t = t[:k] + ' proof { assert(false); } ' + t[k:]
        n += 1
    return t, n


def run(path, extra=()):
    cmd = ['verus', '--triggers-mode', 'silent', '--multiple-errors', '3', '--smt-option', 'smt.random_seed=7', '--output-json', '--time-expanded',
           '--error-format=json', os.path.basename(path)] + list(extra)
    p = subprocess.run(cmd, capture_output=True, text=True, cwd=os.path.dirname(path), timeout=500)
    diags = []
    for ln in p.stderr.splitlines():
        try:
            d = json.loads(ln)
        except ValueError:
            continue
        if d.get('level') == 'error' and d.get('spans'):
            diags.append(d)
    try:
        js = json.loads(p.stdout[p.stdout.index('{'):])
    except ValueError:
        js = {}
    return js, diags, p.stderr


def check(work, vac):
    """prove the dependency's contracts on its source in the registry; never raises"""
    try:
        os.makedirs(work, exist_ok=True)
        t, rewrites, names = generate()
        path = os.path.join(work, 'dep.rs')
        open(path, 'w').write(t)
        js, diags, err = run(path)
        vr = js.get('verification-results', {})
        ok = bool(vr.get('success')) and vr.get('errors') == 0 and vr.get('verified', 0) > 0
        tpl = open(os.path.join(HERE, 'contracts', 'dep', 'mappings.dep')).read()
        out = {'proved': ok, 'verified': vr.get('verified', 0), 'errors': vr.get('errors'), 'functions': names,
               'rewrites': ['%s: `%s` -> `%s`' % (h.strip()[:60], a, b) for h, a, b in rewrites],
               'assumed': [re.sub(r'\s+', ' ', m.group(1)) for m in re.finditer(r'assume_specification(?:<.*?>)?\s*\[\s*(.*?)\s*\]\s*\(', tpl)]
               + re.findall(r'external_body\]\s*(?:pub )?fn (\w+)', tpl) + ['derive(Clone) of Mapping copies'],
               'solver_ms': js.get('times-ms', {}).get('smt', {}).get('smt-run'),
               'sources': {p: hashlib.sha256(s.encode()).hexdigest() for p, s in zip(CRATES.values(), [sources()[k] for k in CRATES])},
               'failed': [d['message'] for d in diags][:5] if not ok else []}
        if not ok and not diags:
            out['failed'] = [err[-400:]]
        if ok and vac:
            tv, n = with_false(t, names)
            pv = os.path.join(work, 'depvac.rs')
            open(pv, 'w').write(tv)
            jv, dv, _ = run(pv)
            lines = tv.split('\n')
            hit = {s['line_start'] for d in dv for s in d['spans'] if 'assert(false)' in lines[s['line_start'] - 1]}
            out['vacuity'] = {'bodies': n, 'reject_assert_false': len(hit)}
        return out
    except Exception as e:
        return {'proved': False, 'failed': ['%s: %s' % (type(e).__name__, str(e)[:300])]}


if __name__ == '__main__':
    if sys.argv[1:2] == ['check']:
        print(json.dumps(check(sys.argv[2], 'vac' in sys.argv[3:])))
        sys.exit(0)
    t, rw, names = generate()
    os.makedirs('/tmp/dep', exist_ok=True)
    open('/tmp/dep/out.rs', 'w').write(t)
    print(len(rw), 'rewrites,', len(names), 'functions')
    p = subprocess.run(['verus', '--triggers-mode', 'silent', '--multiple-errors', '10', '/tmp/dep/out.rs'] + sys.argv[1:], capture_output=True, text=True, cwd='/tmp/dep')
    print((p.stdout + p.stderr)[-9000:])
