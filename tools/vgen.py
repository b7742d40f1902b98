"""Assembles the Verus crate: contracts (contracts/*.vrs) + code extracted from /repo/src."""
import json, re, os, subprocess

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CONTRACTS = os.path.join(VERIF, 'contracts')


# template -> the module of /repo/src it is about, where the two have different names
REPO_MODULE = {'util_url': 'util'}


def parse_template(name):
    """-> list of segments ('text',s) ('type',name,opts) ('const',name) ('fn',key,{section:text})"""
    path = os.path.join(CONTRACTS, name + '.vrs')
    segs, cur, fn, sec = [], [], None, None
    for ln in open(path):
        m = re.match(r'\s*//@(\.?)\s*(\S+)\s*(.*)$', ln)
        if not m:
            if fn is not None:
                fn[2].setdefault(sec, []).append(ln)
            else:
                cur.append(ln)
            continue
        dot, word, rest = m.group(1), m.group(2), m.group(3).strip()
        if dot:
            assert fn is not None, (name, ln)
            sec = word + ((' ' + rest) if rest else '')
            fn[2].setdefault(sec, [])
            continue
        if word == 'end':
            fn = None
            continue
        if cur:
            segs.append(('text', ''.join(cur)))
            cur = []
        if word == 'fn':
            fn = ('fn', rest, {})
            sec = 'spec'
            segs.append(fn)
        elif word == 'type':
            p = rest.split()
            segs.append(('type', p[0], p[1:]))
        elif word == 'const':
            segs.append(('const', rest))
        elif word == 'use':
            segs.append(('use', rest))
        elif word == 'hasstub':          # names the template itself defines (assumed contracts)
            segs.append(('stub', rest.split()))
        elif word == 'include':
            segs.append(('text', open(os.path.join(CONTRACTS, rest)).read()))
        else:
            raise SystemExit('bad directive %s in %s' % (word, name))
    if cur:
        segs.append(('text', ''.join(cur)))
    return segs


def contracted(modules):
    out = []
    for m in modules:
        for s in parse_template(m):
            if s[0] == 'fn':
                out.append(s[1])
            elif s[0] == 'stub':
                out += s[1]
    return out


def expand_use(tree, prefix=''):
    """'crate::a::{b,c::d}' -> ['crate::a::b','crate::a::c::d']"""
    tree = tree.strip()
    i = tree.find('{')
    if i < 0:
        t = prefix + tree
        return [t[:-6]] if t.endswith('::self') else [t]
    pre = prefix + tree[:i]
    inner = tree[i + 1:tree.rindex('}')]
    parts, d, last = [], 0, 0
    for k, ch in enumerate(inner):
        if ch == '{':
            d += 1
        elif ch == '}':
            d -= 1
        elif ch == ',' and d == 0:
            parts.append(inner[last:k])
            last = k + 1
    parts.append(inner[last:])
    r = []
    for p in parts:
        if p.strip():
            r += expand_use(p, pre)
    return r


CLONE = '''
#[verifier::external]
impl Clone for %(n)s {
    fn clone(&self) -> Self { unimplemented!() }
}
pub assume_specification[ <%(n)s as Clone>::clone ](a: &%(n)s) -> (r: %(n)s)
    %(post)s;
'''


class Gen:
    def __init__(self, extracted, modules, renames=None, fallback=()):
        self.x = extracted
        self.modules = modules
        self.fns = {f['key']: f for f in extracted['fns']}
        self.types = {(t['module'], t['name']): t for t in extracted['types']}
        self.consts = {(t['module'], t['name']): t for t in extracted['consts']}
        self.out = []
        self.line = 1
        self.ranges = []        # (start, end, key, variant)
        self.missing = []
        self.fallback = set(fallback)
        self.renames = renames or {}
        self.under_contract = []
        self.trusted = []
        self.notes = set()
        self.unplaced = {}      # fn -> positions its proof refers to that its body no longer has
        self.uses_ret = set()   # functions whose proof refers to a return by its number
        self.vac = False
        self.ghost = {}         # module -> names of its spec and proof functions
        for m in modules:
            t = ''.join(x[1] for x in parse_template(m) if x[0] == 'text')
            self.ghost[m] = set(re.findall(r'^(?:pub )?(?:broadcast )?(?:open |closed |uninterp )?(?:spec|proof) fn (\w+)', t, re.M))
        self.trusted_keys = set()

    def w(self, s):
        self.out.append(s)
        self.line += s.count('\n')

    def gen(self):
        self.w('#![allow(unused, dead_code, non_snake_case)]\n')
        self.w('use vstd::prelude::*;\n')
        emitted = {}
        for m in self.modules:
            for s in parse_template(m):
                if s[0] in ('type', 'const'):
                    emitted.setdefault(m, set()).add(s[1].split()[0])
        for m in self.modules:
            self.module(m, emitted)
        self.w('fn main() {}\n')
        return ''.join(self.out)

    def module(self, m, emitted):
        segs = parse_template(m)
        self.w('pub mod %s {\nuse vstd::prelude::*;\n' % m)
        uses = set()
        for s in segs:
            if s[0] == 'use':
                uses.add(s[1])
        fnnames = {}
        for mm in self.modules:
            for s in parse_template(mm):
                if s[0] == 'fn' and s[1].split('::')[0] == mm:
                    fnnames.setdefault(mm, set()).add(s[1].split('::')[1])
                if s[0] == 'stub':
                    for q in s[1]:
                        fnnames.setdefault(q.split('::')[0], set()).add(q.split('::')[1])
        for t in self.x['uses'].get(REPO_MODULE.get(m, m), []):
            for leaf in expand_use(t):
                if m in REPO_MODULE:
                    leaf = leaf.replace('crate::%s::' % REPO_MODULE[m], 'crate::%s::' % m)
                segs_ = leaf.split('::')
                if segs_[0] in ('std', 'core', 'alloc'):
                    uses.add(leaf)
                elif segs_[0] == 'crate' and len(segs_) >= 2 and segs_[1] in self.modules:
                    if len(segs_) == 2:
                        uses.add(leaf)
                    elif segs_[2] == '*' or segs_[2].split('as')[0] in emitted.get(segs_[1], ()) or segs_[2] in fnnames.get(segs_[1], ()):
                        uses.add(re.sub(r'^(.*\w)as(\w+)$', r'\1 as \2', leaf) if False else leaf)
                elif segs_[0] == 'source_map_mappings' and 'source_map_mappings' in self.modules:
                    uses.add('crate::' + leaf)
        if m != 'source_map_mappings' and 'source_map_mappings' in self.modules:
            uses.add('crate::source_map_mappings')
        uses.add('crate::vshim::*') if m != 'vshim' else None
        seen = set()
        for u in sorted(uses):
            last = u.split('::')[-1]
            if last != '*' and last in seen:
                continue
            seen.add(last)
            self.w('use %s;\n' % u)
        self.w('verus! {\n')
        for s in segs:
            if s[0] == 'text':
                self.w(s[1])
            elif s[0] == 'type':
                t = self.types.get((REPO_MODULE.get(m, m), s[1]))
                if t is None:
                    self.missing.append('type %s::%s' % (m, s[1]))
                    continue
                if 'struct_attr' in s[2]:
                    pass
                if 'eq' in s[2] and 'PartialEq' in t['derives']:
                    self.w('#[derive(PartialEq, Eq, Structural)]\n')
                self.w(t['text'] + '\n')
                name = s[1].split()[0]
                mine = lambda n: (self.fns.get('%s::%s' % (name, n)) or {}).get('module') == t['module']
                post = [x[2]['spec'] for x in segs if x[0] == 'fn' and x[1] == name + '::derived_clone']
                if mine('derived_clone') and post:
                    # clone() has the contract that the body of the Clone implementation is proved to have
                    self.w(CLONE % {'n': name, 'post': re.sub(r'\bself\b', 'a', ''.join(post[0])).strip().rstrip(',')})
                    if 'Copy' in t['derives']:
                        self.w('impl Copy for %s {}\n' % name)
                if mine('derived_default') and ('default_post(r: %s)' % name in ''.join(x[1] for x in segs if x[0] == 'text')
                                                or 'Default' in t['derives']) and not any(x[0] == 'fn' and x[1] == name + '::default' for x in segs):
                    self.default_impl(t)
                if 'PartialEq' in t['derives']:
                    pass
            elif s[0] == 'const':
                names = [n for (mm, n) in self.consts if mm == REPO_MODULE.get(m, m)] if s[1] == '*' else [s[1]]
                for n in names:
                    c = self.consts.get((REPO_MODULE.get(m, m), n))
                    if c is None:
                        self.missing.append('const %s::%s' % (m, n))
                        continue
                    self.w(self.fold(m, c) + '\n')
            elif s[0] == 'fn':
                self.fn(m, s[1], {k: ''.join(v) for k, v in s[2].items()})
        if m == 'vshim':
            self.w(self.std())
        self.w('} // verus!\n}\n')

    def std(self):
        """specifications of std functions (contracts/std.vrs) that the extracted code of this run calls"""
        code = '\n'.join(f['body'] for f in self.x['fns'])
        called = set(re.findall(r'(?:\.|::)\s*(\w+)\s*(?:::\s*<[^()]*>)?\s*\(', code))
        out = []
        for p in re.split(r'(?m)^//@std ', open(os.path.join(CONTRACTS, 'std.vrs')).read())[1:]:
            name, text = p.split('\n', 1)
            if any(n in called or '::' in n and re.search(r'\b%s\b' % n, code) for n in name.strip().split('|')):
                out.append(text)
                self.trusted += ['assumed: vshim::' + x for x in re.findall(r'external_body\]\s*fn (\w+)', text)]
                self.trusted += ['assumed specification: ' + x for x in re.findall(r'assume_specification(?:<.*?>)?\s*\[\s*(.*?)\s*\]\s*\(', text)]
        return ''.join(out)

    def fold(self, m, c):
        """integer constant expressions are evaluated (Verus does not evaluate `1 << K`)"""
        mm = re.match(r'pub const (\w+): (u8|u16|u32|u64|usize|i8|i16|i32|i64|isize) = (.*);\s*$', c['text'].strip(), re.S)
        if not mm:
            return c['text']
        env = {}
        for _ in range(4):
            for (mod, n), k in self.consts.items():
                km = re.match(r'pub const (\w+): \w+ = (.*);\s*$', k['text'].strip(), re.S)
                if mod == m and km and n not in env:
                    v = self.ev(km.group(2), env)
                    if v is not None:
                        env[n] = v
        v = env.get(mm.group(1))
        if v is None:
            return c['text']
        return 'pub const %s: %s = %d;' % (mm.group(1), mm.group(2), v)

    @staticmethod
    def ev(e, env):
        e = re.sub(r'\bas\s+\w+', '', e)
        e = re.sub(r'(\d[\d_]*)(?:u8|u16|u32|u64|usize|i8|i16|i32|i64|isize)\b', r'\1', e).replace('_', '') if re.match(r'^[\d_\s]', e) and not re.search('[A-Za-z]', re.sub(r'[ui](?:8|16|32|64|size)\b', '', e)) else e
        if not re.match(r'^[\w\s()+\-*<>|&^%]+$', e):
            return None
        names = set(re.findall(r'[A-Za-z_]\w*', e))
        if not names <= set(env):
            return None
        try:
            v = eval(e, {'__builtins__': {}}, env)
            return v if isinstance(v, int) else None
        except Exception:
            return None

    def default_impl(self, t):
        """the derived Default, as the macro expansion gives it"""
        f = self.fns[t['name'] + '::derived_default']
        self.under_contract.append(f['key'])
        start = self.line
        self.w('impl Default for %s {\n fn default() -> (r: Self)\n ensures %s::default_post(r),\n {\n%s%s\n}\n}\n' % (t['name'], t['name'], 'proof { assert(false); }\n' if self.vac else '', re.sub(r'/\*@\w+@\*/', '', f['body'])))
        self.ranges.append((start, self.line - 1, f['key'], 'normal'))

    # ---- functions

    def fn(self, m, key, sec):
        f = self.fns.get(key)
        if f is None:
            self.missing.append('fn ' + key)
            return
        self.under_contract.append(key)
        ren = self.renames.get(key, {})
        if ren:
            def sub(txt):
                return re.sub(r'(?<![\w.])([A-Za-z_]\w*)\b(?!\s*!)', lambda mm: ren.get(mm.group(1), mm.group(1)), txt)
            sec = {k: (sub(v) if (k != 'spec' and k != 'refuse') else v) for k, v in sec.items()}
            # `at let_x` anchors follow the renaming as well
            sec = {re.sub(r'^at let_(\w+?)(_\d+)?$', lambda mm: 'at let_' + ren.get(mm.group(1), mm.group(1)) + (mm.group(2) or ''), k): v for k, v in sec.items()}
        trusted = 'trusted' in sec or key in self.fallback
        if 'trusted' in sec:
            self.trusted.append('assumed contract: ' + key)
            self.trusted_keys.add(key)
        self.emit(m, f, sec, 'normal', trusted)
        if 'refuse' in sec and not trusted:
            self.emit(m, f, sec, 'refuse', False)

    def qualify(self, m, txt):
        """ghost functions by their full name: a local variable of the code may have the same name"""
        names = {}
        for s in parse_template(m):
            mm = re.match(r'crate::(\w+)::\*$', s[1]) if s[0] == 'use' else None
            if mm:
                names.update({n: mm.group(1) for n in self.ghost.get(mm.group(1), ())})
        names.update({n: m for n in self.ghost[m]})
        return re.sub(r'(?<![\w.:])([a-z]\w*)(?=\()', lambda mm: 'crate::%s::%s' % (names[mm.group(1)], mm.group(1)) if mm.group(1) in names else mm.group(1), txt)

    def emit(self, m, f, sec, variant, trusted):
        key = f['key']
        sec = {k: self.qualify(m, v) if k not in ('head', 'attr', 'refuse_calls') else v for k, v in sec.items()}
        attrs = ['#[verifier::loop_isolation(false)]'] if f['loops'] else []
        if any(k.startswith('loop ') and re.search(r'invariant_except_break|\bensures\b', v) for k, v in sec.items()):
            attrs.append('#[verifier::allow_complex_invariants]')
        if 'attr' in sec:
            attrs += sec['attr'].split('\n')
        nodec = any(l['kind'] != 'for' and not self.idxname(l) and 'decreases' not in sec.get('loop %d' % i, '') for i, l in enumerate(f['loops']))
        if nodec:
            attrs.append('#[verifier::exec_allows_no_decreases_clause]')
        if trusted:
            attrs = ['#[verifier::external_body]']
        name = f['name'] + ('__refuse' if variant == 'refuse' else '')
        params = []
        if f['recv']:
            params.append(f['recv'])
        for p in f['params']:
            params.append('%s: %s' % (p['pat'], p['ty']))
        ret = ' -> (r: %s)' % f['ret'] if f['ret'] else ''
        if variant == 'normal':
            spec = sec.get('spec', '')
        else:
            spec = sec['refuse'].rstrip() + '\n    ensures false,\n'
        if f['self_ty']:
            self.w('impl %s {\n' % f['self_ty'])
        start = self.line
        for a in attrs:
            if a.strip():
                self.w(a.strip() + '\n')
        self.w('pub fn %s%s(%s)%s %s\n%s' % (name, f['generics'], ', '.join(params), ret, f['where'], spec))
        if trusted:
            self.w('{ unimplemented!() }\n')
        else:
            body = self.body(f, sec, variant)
            self.w('{\n' + body + '\n}\n')
        self.ranges.append((start, self.line - 1, key, variant))
        if f['self_ty']:
            self.w('}\n')
        self.notes.update(f['notes'])
        if f['inlined']:
            self.notes.add('%s: inlined %s' % (key, ', '.join(sorted(set(f['inlined'])))))

    def idxname(self, l):
        mm = re.match(r'__idx(\d+) <', l['head'])
        return mm.group(1) if (l['kind'] == 'while' and mm) else None

    @staticmethod
    def counters(f, k):
        """locals that count the rounds of loop k by hand: start at 0, one `x += 1` at the end of its body, no other assignment"""
        l = f['loops'][k]
        plain = re.sub(r'/\*@\w+@?\*/|__l!\([^)]*\);?', '', l['body']).strip()
        m = re.search(r'(?:^|[;}\s])([a-z_]\w*)\s*\+=\s*1\s*;?\s*\}?$', plain)
        if not m or re.search(r'\bcontinue\b', l['body']):
            return []
        x = m.group(1)
        whole = f['body'] + ' ' + ' '.join(o['head'] + ' ' + o['body'] for o in f['loops'])
        if len(re.findall(r'\blet mut %s\s*(?::\s*\w+\s*)?=\s*0\w*\s*;' % x, whole)) != 1 or len(re.findall(r'\blet (?:mut )?%s\b' % x, whole)) != 1:
            return []
        if len(re.findall(r'(?<![\w.])%s\s*(?:[-+*/%%|&^]|<<|>>)?=(?!=)' % x, whole)) != 1 + (1 if re.search(r'\blet mut %s\s*=' % x, whole) else 0):
            return []
        if re.search(r'&\s*mut\s+%s\b' % x, whole):
            return []
        # declared next to the loop, not outside a loop around it
        if not any('/*@loop_%d@*/' % k in t and re.search(r'\blet mut %s\b' % x, t) for t in [f['body']] + [o['body'] for o in f['loops']]):
            return []
        return [x]

    def body(self, f, sec, variant):
        def fill(txt, depth=0):
            def rep(mm):
                t = mm.group(1)
                k = re.match(r'loop_(\d+)$', t)
                if k:
                    return loop(int(k.group(1)))
                k = re.match(r'closure_(\d+)$', t)
                if k:
                    return closure(int(k.group(1)))
                return mark(t)
            return re.sub(r'/\*@(\w+)@\*/', rep, txt)

        placed = set()
        if any(re.match(r'at(_\w+)? ret_', k) for k in sec):
            self.uses_ret.add(f['key'])

        def mark(t):
            placed.add(t)
            s = sec.get('at ' + t, '') + sec.get('at_%s %s' % (variant, t), '')
            return ('\n' + s + '\n') if s else ''

        def subst(txt):
            def r(mm):
                k = int(mm.group(1))
                if k >= len(f['loops']):
                    return '0int'
                l = f['loops'][k]
                if l['kind'] == 'for':
                    return '(__it%d.index@ as int)' % k
                idx = self.idxname(l)
                return '(__idx%s as int)' % idx if idx else '0int'
            def vec(mm):
                # the slice a loop over indices runs over
                k = int(mm.group(1))
                h = re.match(r'0\s*\.\.\s*(.*)\.len\(\)$', f['loops'][k]['head'].strip()) if k < len(f['loops']) else None
                return '(%s@)' % h.group(1).strip() if h else 'Seq::empty()'
            txt = re.sub(r'\$i(\d+)', r, txt)
            def end(mm):
                # where the counting ends
                k = int(mm.group(1))
                l = f['loops'][k] if k < len(f['loops']) else {'kind': '', 'head': ''}
                h = re.match(r'0\s*\.\.\s*(.*)$', l['head'].strip())
                return '(__end%s as int)' % self.idxname(l) if self.idxname(l) else '((%s) as int)' % h.group(1) if h else '0int'
            txt = re.sub(r'\$end(\d+)', end, txt)
            txt = re.sub(r'\$vec(\d+)', vec, txt)
            txt = re.sub(r'\$seq(\d+)', r'__it\1.seq()', txt)
            return txt

        def loop(k):
            l = f['loops'][k]
            inv = subst(sec.get('loop %d' % k, ''))
            idx = self.idxname(l)
            if l['kind'] == 'for' or idx:
                for x in self.counters(f, k):
                    if not re.search(r'(?<![\w.$])%s\b' % x, inv):
                        cond = '%s as int == %s' % (x, subst('$i%d' % k))
                        inv = re.sub(r'\binvariant\b', 'invariant ' + cond + ',', inv, count=1) if re.search(r'\binvariant\b', inv) else 'invariant ' + cond + ',\n' + inv
            if idx:
                inv = self.add_inv(inv, '0 <= __idx%s <= __end%s' % (idx, idx), '__end%s - __idx%s' % (idx, idx))
            ls = mark('ls_%d' % k)
            le = mark('le_%d' % k)
            body = '{\n%s%s%s\n}' % (ls, fill(l['body']), le)
            lab = (l['label'].replace(' ', '') + ' ') if l['label'] else ''
            if l['kind'] == 'for':
                return '%sfor %s in __it%d: %s\n%s%s' % (lab, l['pat'], k, fill(l['head']), inv, body)
            if l['kind'] == 'while':
                return '%swhile %s\n%s%s' % (lab, fill(l['head']), inv, body)
            return '%sloop\n%s%s' % (lab, inv, body)

        def closure(k):
            c = f['closures'][k]
            hdr = None
            for s in sec:
                mm = re.match(r'closure %d (.*)$' % k, s)
                if mm:
                    hdr = (mm.group(1), sec[s])
            mv = 'move ' if c['move'] else ''
            if hdr is None:
                b = fill(c['body'])
                return '%s|%s| %s %s' % (mv, ', '.join(c['pats']), c['ret'], b)
            mm = re.match(r'\((.*)\)\s*->\s*(.*)$', hdr[0])
            names = [p.split(':')[0].strip() for p in split_top(mm.group(1))]
            lets = ''.join('let %s = %s; ' % (p, n) for p, n in zip(c['names'], names) if p and p != n)
            return '%s|%s| -> (r: %s)\n%s { %s%s }' % (mv, mm.group(1), mm.group(2), hdr[1], lets, fill(c['body']))

        body = f['body']
        lits = set(re.findall(r'"(?:[^"\\\\]|\\\\.)*"', ' '.join(f['norm_tokens'])))
        for (mm, n), c in self.consts.items():
            if n in f['norm_tokens']:
                lits |= set(re.findall(r'"(?:[^"\\\\]|\\\\.)*"', c['text']))
        rev = 'proof { %s }\n' % ' '.join('reveal_strlit(%s);' % l for l in sorted(lits)) if lits else ''
        txt = mark('start') + fill(body)
        txt = rev + subst(txt)
        lost = {k.split(' ', 1)[1] for k in sec if re.match(r'at(_%s)? ' % variant, k)} - placed
        if lost:
            self.unplaced.setdefault(f['key'], set()).update(lost)
        if self.vac:
            txt = 'proof { assert(false); }\n' + txt
        txt = sec.get('head', '') + txt
        if variant == 'refuse':
            # calls that are themselves expected to refuse: the callee's refuse contract is used
            for callee in sec.get('refuse_calls', '').split():
                txt = re.sub(r'\b%s\s*\(' % re.escape(callee).replace('::', r'\s*::\s*'), callee + '__refuse(', txt)
            chk = sec.get('panic', '')
            if not chk:
                # an unwrap of nothing refuses as well
                txt = re.sub(r'\.\s*unwrap\s*\(\s*\)', '.v_unwrap()', txt)
                txt = re.sub(r'\.\s*expect\s*\((?=\s*["&\w])', '.v_expect(', txt)
            txt = txt.replace('crate::vshim::vpanic()', '{ proof { %s } crate::vshim::vpanic_ok() }' % chk if chk else 'crate::vshim::vpanic_ok()')
        return txt

    @staticmethod
    def add_inv(inv, cond, dec):
        if re.search(r'\binvariant\b', inv):
            inv = re.sub(r'\binvariant\b', 'invariant ' + cond + ',', inv, count=1)
        else:
            inv = 'invariant ' + cond + ',\n' + inv
        if 'decreases' not in inv:
            inv = inv.rstrip() + '\n decreases ' + dec + ',\n'
        return inv


def split_top(s):
    parts, d, last = [], 0, 0
    for k, ch in enumerate(s):
        if ch in '(<[':
            d += 1
        elif ch in ')>]':
            d -= 1
        elif ch == ',' and d == 0:
            parts.append(s[last:k])
            last = k + 1
    parts.append(s[last:])
    return [p for p in parts if p.strip()]


def expand(src, bindir, out):
    """the sources after macro expansion (for the code serde's derives generate); '' if rustc cannot"""
    deps = os.path.join(bindir, 'deps')
    cmd = ['rustc', '--edition', '2018', '--crate-name', 'rusty_source_map', '--crate-type', 'lib', '-Zunpretty=expanded',
           '-L', 'dependency=' + deps]
    for n in ('source_map_mappings', 'url', 'regex', 'lazy_static', 'serde_json', 'serde', 'rayon'):
        c = sorted((f for f in os.listdir(deps) if f.startswith('lib%s-' % n) and f.endswith('.rlib')),
                   key=lambda f: os.path.getmtime(os.path.join(deps, f)))
        if c:
            cmd += ['--extern', '%s=%s' % (n, os.path.join(deps, c[-1]))]
    if os.path.exists(out):
        os.remove(out)
    p = subprocess.run(cmd + [os.path.join(src, 'lib.rs'), '-o', out], env=dict(os.environ, RUSTC_BOOTSTRAP='1'),
                       capture_output=True, text=True)
    if not os.path.exists(out):
        open(out, 'w').write('')
        print('macro expansion failed:', p.stderr[-500:])
    return out


def extract(src, modules, work, binary):
    os.makedirs(work, exist_ok=True)
    cf = os.path.join(work, 'contracted.txt')
    open(cf, 'w').write('\n'.join(contracted(modules)) + '\n')
    of = os.path.join(work, 'extracted.json')
    ef = expand(src, os.path.dirname(binary), os.path.join(work, 'expanded.rs'))
    subprocess.run([binary, src, cf, of, ef], check=True)
    return json.load(open(of))


if __name__ == '__main__':
    import sys
    mods = ['vshim'] + sys.argv[1].split(',')
    work = '/tmp/vw'
    x = extract('/repo/src', mods, work, '/verif/.build/debug/extract')
    g = Gen(x, mods)
    t = g.gen()
    open(work + '/out.rs', 'w').write(t)
    print('missing', g.missing)
    cmd = ['verus', '--triggers-mode', 'silent', '--multiple-errors', '12', work + '/out.rs'] + sys.argv[2:]
    p = subprocess.run(cmd, capture_output=True, text=True, cwd=work)
    print((p.stdout + p.stderr)[-9000:])
