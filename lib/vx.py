"""Contract overlay: takes functions out of /repo's current source and puts contracts on them for Verus.

What the extraction does, and nothing else (every drop is recorded in Unit.drops and ends up in the evidence):
  * a struct/enum is copied as it stands; field visibility is widened to `pub`, derive lists are dropped
    (`Clone` of a plain-data struct is re-stated as its field-wise definition);
  * a function is copied with its body verbatim; methods of trait impls become inherent methods of the same
    type (`Self::Item` and friends are replaced by what the impl binds them to); the return value gets a name;
    `requires`/`ensures`, loop invariants and ghost prologues are inserted, they are erased by the verifier;
  * `assert!(c, ..)` becomes a call whose precondition is `c` (so: proved never to panic), `panic!`,
    `unreachable!`, `unimplemented!` become calls whose precondition is `false`; `debug_assert!` is dropped;
  * `format!`/`write_fmt(format_args!(..))` become the concatenation of their literal pieces and of the
    `Display`/`Debug` text of their arguments;
  * calls to std functions that vstd has no contract for go to a stand-in of the same meaning whose contract
    is assumed (table STD), listed as such;
  * a call to a function of the same source file that has no contract here (for instance a helper that a
    refactoring just extracted) is replaced by its body.
"""
import json, os, re, subprocess, time, hashlib, shutil
import rs
from rs import Unsupported, Node

REPO = os.environ.get('OAK_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

PRELUDE = r'''#![allow(unused_imports, dead_code, unused_variables, unused_mut, unused_parens, unused_braces, non_snake_case, unused_assignments, unreachable_code, unused_must_use)]
#![cfg_attr(verus_keep_ghost, verifier::allow(undeclared_external_trait))]
use vstd::prelude::*;
use vstd::utf8::*;
use std::cmp::Ordering;
use std::ops::Range;
use vstd::std_specs::cmp::*;
'''

VX_STD = r'''
#[verifier::external_body]
pub fn vx_string(s: &str) -> (r: String) ensures r@ == s@ { String::from(s) }
pub fn vx_assert(c: bool) requires c { }
#[verifier::external_body] pub fn vx_unreached() -> ! requires false { panic!() }
pub assume_specification<T> [std::cmp::min] (a: T, b: T) -> (r: T)
  where T: std::cmp::Ord + std::marker::Destruct
  ensures T::obeys_cmp_spec() ==> r == (if OrdSpec::cmp_spec(&a, &b) == Ordering::Greater { b } else { a });
pub assume_specification<T> [std::cmp::max] (a: T, b: T) -> (r: T)
  where T: std::cmp::Ord + std::marker::Destruct
  ensures T::obeys_cmp_spec() ==> r == (if OrdSpec::cmp_spec(&a, &b) == Ordering::Greater { a } else { b });
'''

class LostAnchor(Unsupported):
    pass

class Fn:
    def __init__(self, unit, file, ty, name, spec='', proof='', loops=(), trait=None, free=None, extra='', ret='r', rename=None, trusted=False, generics=None, mcalls=None, calls=None, after=None, emitter=None, attr='', params=None, nowhere=False, path_sub=None, subst=(), closures=()):
        self.__dict__.update(locals())
        self.pnames = []
    def place(self, t):
        """$1, $2, ..: the names of the parameters"""
        return re.sub(r'\$(\d)', lambda m: re.sub(r'^mut ', '', self.pnames[int(m.group(1)) - 1]), t)

class Loop:
    """contract of the n-th loop of a function; `kind` is for/while/loop and must still be what is there"""
    def __init__(self, kind, inv, pre='', body='', after='', it=None, hoist=False, pre2='', wrap=None, tail='', own=False, ety=None, clone=None, fin=None, head=''):
        self.__dict__.update(locals())

class Unit:
    def __init__(self, name):
        self.name = name
        self.files = {}
        self.out = []          # pieces: str or Fn
        self.drops = set()
        self.assumed = set()
        self.lines = []
        self.fns = []          # functions under contract
        self.inlined = []
        self.uncontracted = [] # calls left without contract
        self.mcalls = {}       # method name -> handler(self, node, emit) -> text
        self.calls = {}        # function path -> handler
        self.macros = {}
        self.str_ranges = False
        self.text_sub = []     # (regex, repl) applied to signatures and types
        self.struct_subst = []
        self.no_use = set()
        self.trust_all = False
        self.iter_vars = False
        self.cmp_hook = None
        self.node_hook = None
    def file(self, path):
        if path not in self.files:
            p = os.path.join(REPO, path)
            if not os.path.exists(p):
                raise LostAnchor('file %s is gone' % path)
            self.files[path] = rs.File(p)
        return self.files[path]
    def raw(self, text):
        self.out.append(text)
    # ---- items
    def find_item(self, file, kind, name):
        F = self.file(file)
        for it in F.items:
            if it.kind == kind and it.a.get('name') == name:
                return F, it
        raise LostAnchor('%s %s not found in %s' % (kind, name, file))
    def struct(self, file, name, clone=None, derive=''):
        F, it = self.find_item(file, 'struct', name)
        body = F.src[it.body_s:it.body_e]
        body = re.sub(r'//[^\n]*', '', body)
        body = re.sub(r'\bpub(\([^)]*\))?\s+', '', body)
        if body.startswith('{'):
            fields = split_top(body[1:-1])
            body = '{ ' + ', '.join('pub ' + f.strip() for f in fields if f.strip()) + ' }'
        for a, b in self.text_sub + self.struct_subst:
            body = re.sub(a, b, body)
        self.out.append('%spub struct %s%s %s %s\n' % (derive, name, it.generics, it.where, body))
        self.drops.add('%s: derive list and field privacy of struct %s' % (file, name))
        return it
    def enum(self, file, name, derive='', subst=()):
        F, it = self.find_item(file, 'enum', name)
        body = re.sub(r'//[^\n]*', '', F.src[it.body_s:it.body_e])
        for a, b in list(subst) + self.text_sub:
            body = re.sub(a, b, body)
        self.out.append('%spub enum %s%s %s %s\n' % (derive, name, it.generics, it.where, body))
        return it
    def derives(self, it, trait):
        return any(re.match(r'#\[derive\(', a) and re.search(r'\b%s\b' % trait, a) for a in it.attrs)
    def impls(self, file, tyname):
        F = self.file(file)
        for it in F.items:
            if it.kind == 'impl' and not rs.is_test(it) and ty_head(it.ty) == tyname:
                yield F, it
    def lookup(self, file, ty, name, trait=None):
        F = self.file(file)
        if ty is None:
            for it in F.items:
                if it.kind == 'fn' and it.name == name:
                    return F, None, it
        else:
            for F, im in self.impls(file, ty):
                if trait is not None and ty_head(im.trait or '') != trait:
                    continue
                for f in im.items:
                    if f.kind == 'fn' and f.name == name and f.body is not None:
                        return F, im, f
        raise LostAnchor('fn %s%s not found in %s' % ((ty + '::') if ty else '', name, file))
    def fn(self, file, ty, name, **kw):
        f = Fn(self, file, ty, name, **kw)
        F, im, node = self.lookup(file, ty, name, f.trait)
        f.F, f.im, f.node = F, im, node
        self.out.append(f)
        self.fns.append(f)
        if self.trust_all:
            f.trusted = True
        return f
    def std_uses(self):
        """the `use std::..` lines of the source files, so that the copied bodies resolve the same names"""
        names = {}
        have = {'Ordering', 'Range'} | self.no_use
        for F in self.files.values():
            for m in re.finditer(r'(?m)^(?:pub )?use (std::[\w:]+)(?:::\{([^}]*)\})?;', F.src):
                leafs = [m.group(1) + '::' + x.strip() for x in m.group(2).split(',')] if m.group(2) else [m.group(1)]
                for l in leafs:
                    n = l.split('::')[-1]
                    if n == 'self':
                        l = l[:-6]
                        n = l.split('::')[-1]
                    if re.match(r'\w+$', n) and n not in have:
                        names[n] = l
        return ''.join('use %s;\n' % l for l in sorted(names.values()))
    # ---- emission
    def is_contracted(self, ty, name):
        return any(f.ty == ty and f.name == name for f in self.fns)
    def moved(self, im):
        """generic parameters that only the trait mentions: they (and the where clause) move to the method"""
        g = im.generics.strip()
        ps = [x.strip() for x in split_top(g[1:-1])] if g else []
        name = lambda x: re.match(r"('?\w+)", x).group(1)
        mv = [x for x in ps if not re.search(r"(?<!\w)%s\b" % re.escape(name(x)), im.ty)]
        # a parameter bound to the type's own ones by an associated type (`S: Iterator<Item=I>`) stays constrained
        return [x for x in ps if x not in mv], [x for x in mv]
    def impl_header(self, im):
        keep, mv = self.moved(im)
        h = 'impl%s %s %s' % ('<%s>' % ', '.join(keep) if keep else '', im.ty, '' if mv else im.where)
        for a, b in self.text_sub:
            h = re.sub(a, b, h)
        return h
    def fn_text(self, f, canary=False):
        F, im, node = f.F, f.im, f.node
        assoc = {}
        if im is not None:
            for it in im.items:
                if it.kind == 'type':
                    m = re.match(r'type\s+(\w+)\s*=\s*(.*?);', F.text(it), re.S)
                    if m:
                        assoc['Self::' + m.group(1)] = m.group(2)
        def sub(t):
            for a, b in assoc.items():
                t = t.replace(a, b)
            for a, b in list(f.subst) + self.text_sub:
                t = re.sub(a, b, t)
            return t
        params = ', '.join(sub(x) for x in f.params) if f.params is not None else ', '.join(sub(F.text(p)) if p.selfp is None or not f.free else f.free for p in node.params)
        mutself = any((p.selfp or '').split() == ['mut', 'self'] for p in node.params) and not f.free
        if mutself:
            params = re.sub(r'^mut self', 'self', params)
            f.path_sub = dict(f.path_sub or {}, self='vx_self')
        if f.extra:
            params = ', '.join(x for x in (params, f.extra) if x)
        ret = sub(F.text(node.ret)) if node.ret else '()'
        gen = f.generics if f.generics is not None else (im.generics if f.free and im is not None else node.generics)
        where = '' if f.nowhere else node.where
        if im is not None and not f.free and not f.nowhere:
            keep, mv = self.moved(im)
            if mv and f.generics is None:
                gen = '<%s>' % ', '.join([x.strip() for x in split_top(gen.strip()[1:-1])] + mv)
                where = im.where + (', ' + node.where.strip()[5:] if node.where.strip() else '')
        head = f.attr + 'pub fn %s%s(%s) -> (%s: %s) %s' % (f.rename or node.name, gen, params, f.ret, ret, sub(where))
        names = [F.text(p.pat) for p in node.params if p.selfp is None]
        if '_' in names and f.params is None:     # nameless parameters get a name, for the contract
            names = ['vx_p%d' % (k + 1) if x == '_' else x for k, x in enumerate(names)]
            ps = [sub(F.text(p)) for p in node.params]
            ps = [re.sub(r'^_\s*:', names[k - (len(ps) - len(names))] + ':', x) if x.startswith('_') and re.match(r'_\s*:', x) else x for k, x in enumerate(ps)]
            head = head.replace('(' + params + ')', '(' + ', '.join(ps) + ')', 1)
        f.pnames = names[1:] if f.params is not None else names     # (walk_*: the first one is `self` now)
        spec = f.place(f.spec).strip()
        if f.trusted:   # proved in its own unit; here only its contract is used
            return '#[verifier::external_body]\n%s\n  %s\n{ unimplemented!() }' % (head, spec.replace('\n', '\n  '))
        em = f.emitter(self, f, sub) if f.emitter else Emitter(self, f, sub)
        em.canary = canary
        body = em.block_inner(node.body)
        nloops = em.loop_no
        if nloops != len(f.loops):
            raise LostAnchor('%s has %d loops, its contract knows %d' % (f.name, nloops, len(f.loops)))
        proof = f.place(f.proof).strip()
        if canary:
            # (conditional where loops see the context of the function: the canary must not silence those that follow)
            proof = ('proof { if vx_c(0) { assert(false); /* vx_canary */ } }\n' if f.attr else 'proof { assert(false); /* vx_canary */ }\n') + proof
        pre = '  ' + proof + '\n' if proof else ''
        if mutself:
            pre = 'let mut vx_self = self;\n' + pre
        return '%s\n  %s\n{\n%s%s\n}' % (head, spec.replace('\n', '\n  '), pre, body)
    def render(self, canary=False):
        chunks = [PRELUDE, self.std_uses(), 'verus! {\n', VX_STD]
        self.map = []
        names = []
        cur = None
        for p in self.out:
            if isinstance(p, Fn):
                t = self.fn_text(p, canary)
                if p.im is not None and not p.free:
                    t = self.impl_header(p.im) + ' {\n' + t + '\n}\n'
                chunks.append(('fn', p, t + '\n'))
            else:
                chunks.append(p if not isinstance(p, str) else p + '\n')
        if canary and not any(isinstance(c, str) and 'spec fn vx_c(' in c for c in chunks):
            chunks.append('pub uninterp spec fn vx_c(k: int) -> bool;\n')
        chunks.append('} // verus!\nfn main() {}\n')
        out = []
        line = 1
        for c in chunks:
            if isinstance(c, tuple):
                _, p, t = c
                n = t.count('\n')
                if p.trusted:
                    out.append(t)
                    line += n
                    continue
                label = (p.ty + '::' if p.ty else '') + p.name
                self.map.append((line, line + n, label, p))
                out.append(t)
                line += n
            else:
                out.append(c)
                line += c.count('\n')
        return ''.join(out)

def pure_place(n):
    """a path to a field: evaluating it again changes nothing"""
    return n.kind == 'path' or n.kind == 'field' and pure_place(n.x)

def split_top(s, sep=','):
    out, depth, cur = [], 0, ''
    prev = ''
    for ch in s:
        if ch in '([{<':
            depth += 1
        elif ch in ')]}' or (ch == '>' and prev not in '-='):
            depth -= 1
        if ch == sep and depth == 0:
            out.append(cur)
            cur = ''
        else:
            cur += ch
        prev = ch
    if cur.strip():
        out.append(cur)
    return out

def ty_head(t):
    t = t.strip()
    t = re.sub(r"^&\s*('\w+\s*)?(mut\s+)?", '', t)
    m = re.match(r'(?:[\w]+::)*(\w+)', t)
    return m.group(1) if m else t

class Emitter:
    def __init__(self, unit, f, sub):
        self.u = unit; self.f = f; self.sub = sub
        self.F = f.F
        self.src = f.F.src
        self.loop_no = 0
        self.depth = 0
        self.fresh = 0
        self.in_ref_pat = False
    def block_inner(self, b):
        return emit_range(self, b)
    def e(self, n):
        return rs.emit(self.src, n, self.hook)
    def hook(self, n, rec):
        k = n.kind
        if self.u.node_hook:
            r = self.u.node_hook(self, n)
            if r is not None:
                return r
        if k in ('for', 'while', 'loop'):
            return self.loop(n)
        if k == 'macro':
            return self.macro(n)
        if k == 'mcall':
            if n.name in CHAIN_ENDS and any(L.kind == 'chain' for L in self.f.loops):
                r = self.chain(n)
                if r is not None:
                    return r
            h = (self.f.mcalls or {}).get(n.name) or self.u.mcalls.get(n.name)
            if h is not None:
                r = h(self, n)
                if r is not None:
                    return r
            if n.x.kind == 'path' and n.x.text == 'self' and self.f.ty:
                return self.maybe_inline(self.f.ty, n.name, n.args, True)
            return None
        if k == 'call' and n.f.kind == 'path':
            path = n.f.text
            if path == 'String::from':
                self.u.assumed.add('String::from(&str) copies the text')
                return 'vx_string(%s)' % self.e(n.args[0])
            c = getattr(self, 'bound', {}).get(path)
            if c is not None:      # a closure of this function: its body stands where it is called
                if len(c.params) != len(n.args):
                    raise Unsupported('closure %s' % path)
                self.fresh += 1
                j = self.fresh
                out = ''.join('let vx_k%d_%d = %s; ' % (j, i, self.e(x)) for i, x in enumerate(n.args))
                out += ''.join('let %s = vx_k%d_%d; ' % (self.e(q.pat), j, i) for i, q in enumerate(c.params))
                return '({ %s%s })' % (out, self.e(c.body))
            h = (self.f.calls or {}).get(path) or self.u.calls.get(path)
            if h is not None:
                r = h(self, n)
                if r is not None:
                    return r
            parts = path.split('::')
            if len(parts) == 1:
                return self.maybe_inline(None, path, n.args, False)
            if len(parts) == 2 and (parts[0] == 'Self' or parts[0] == self.f.ty):
                return self.maybe_inline(self.f.ty, parts[1], n.args, False)
            return None
        if k == 'ref' and n.x.kind == 'index' and n.x.ix.kind == 'range' and not n.mut and self.u.str_ranges:
            return self.str_range(n.x) or None
        if k == 'index' and n.ix.kind == 'range' and self.u.str_ranges:
            r = self.str_range(n)
            return '(*%s)' % r if r else None
        if k == 'let' and n.a.get('init') is not None and n.init.kind == 'closure' and n.pat.kind == 'pat_ident' and self.only_called(n.pat.name) and not any(x.kind in ('return', 'try') for x in walk_no_closure(n.init.body)):
            self.bound = dict(getattr(self, 'bound', {}))
            self.bound[n.pat.name] = n.init
            return ''
        if k == 'path' and self.f.path_sub and n.text in self.f.path_sub:
            return self.f.path_sub[n.text]
        if k == 'path' and n.text == 'self' and self.f.free:
            return 'vx_self'
        if k == 'pat_ref':      # `&A(ref x)` against a reference is `A(x)` (default binding modes)
            saved, self.in_ref_pat = self.in_ref_pat, True
            r = self.e(n.pat)
            self.in_ref_pat = saved
            return r
        if k == 'pat_ident' and self.in_ref_pat and n.ref and not n.mut and n.sub is None:
            return n.name
        if k == 'binary' and self.u.cmp_hook:
            r = self.u.cmp_hook(self, n)
            if r is not None:
                return r
        if k == 'type':
            return self.sub(self.src[n.s:n.e])
        return None
    def only_called(self, name):
        uses = calls = 0
        def go(n):
            nonlocal uses, calls
            if n.kind == 'path' and n.text == name:
                uses += 1
            if n.kind == 'call' and n.f.kind == 'path' and n.f.text == name:
                calls += 1
            for c in n.children():
                go(c)
        go(self.f.node.body)
        return uses == calls
    def str_range(self, n):
        """indexing of a `str` by a range (vstd has the precondition of this operation but not its result)"""
        b = n.x
        if b.kind == 'mcall' and b.name in ('as_bytes', 'as_slice'):
            return None
        base = self.str_range(b) if b.kind == 'index' and b.ix.kind == 'range' else self.e(b)
        r = n.ix
        if r.op != '..':
            raise Unsupported('inclusive range of a string')
        self.u.assumed.add('str indexing by a byte range: panics unless both ends are character boundaries in order, else yields these bytes')
        if r.lo is not None and r.hi is not None:
            return 'vx_str_range(%s, %s, %s)' % (base, self.e(r.lo), self.e(r.hi))
        if r.lo is not None:
            return 'vx_str_from(%s, %s)' % (base, self.e(r.lo))
        if r.hi is not None:
            return 'vx_str_to(%s, %s)' % (base, self.e(r.hi))
        return base
    def maybe_inline(self, ty, name, args, is_self):
        if self.u.is_contracted(ty, name):
            return None
        cands = []
        if ty is None:
            cands = [(None, it) for it in self.F.items if it.kind == 'fn' and it.name == name and it.body is not None]
        else:
            for F, im in self.u.impls(self.f.file, ty):
                cands += [(im, it) for it in im.items if it.kind == 'fn' and it.name == name and it.body is not None]
        if not cands:
            return None
        im, g = cands[0]
        if self.depth > 6:
            raise Unsupported('recursive helper %s has no contract' % name)
        bad = [x for x in walk_no_closure(g.body) if x.kind in ('return', 'try')]
        if bad:
            raise Unsupported('helper %s returns early and has no contract' % name)
        params = [p for p in g.params if p.selfp is None]
        if len(params) != len(g.params) and not is_self:
            raise Unsupported('helper %s is called in an unusual way' % name)
        if len(params) != len(args):
            raise Unsupported('helper %s: argument count' % name)
        self.depth += 1
        self.fresh += 1
        k = self.fresh
        out = '{ '
        for i, a in enumerate(args):
            out += 'let vx_h%d_%d = %s; ' % (k, i, self.e(a))
        for i, p in enumerate(params):
            out += 'let %s: %s = vx_h%d_%d; ' % (self.src[p.pat.s:p.pat.e], self.sub(self.src[p.ty.s:p.ty.e]), k, i)
        out += emit_range(self, g.body)
        out += ' }'
        self.depth -= 1
        self.u.inlined.append(name)
        return out
    def loop(self, n):
        i = self.loop_no
        self.loop_no += 1
        if i >= len(self.f.loops):
            raise LostAnchor('%s: a loop without invariant' % self.f.name)
        L = self.f.loops[i]
        if L.kind != n.kind:
            raise LostAnchor('%s: loop %d is a `%s` now, its invariant was written for a `%s`' % (self.f.name, i, n.kind, L.kind))
        inv = L.inv.strip()
        pre = L.pre
        cl = ''
        if n.a.get('label'):
            cl = n.label + ': '
        if n.kind == 'for':
            pat = self.src[n.pat.s:n.pat.e]
            if n.it.kind == 'mcall' and n.it.name == 'zip' and n.pat.kind == 'pat_tuple':
                return self.zip_loop(n, L, i, cl)
            it = self.e(n.it)
            if L.wrap:
                it = L.wrap(it)
            if L.hoist:   # the iterated vector gets a name, so that the invariant can talk about it
                pre += 'let vx_v%d = %s; let ghost vx_q%d = vx_v%d@;\n' % (i, it, i, i) + L.pre2
                it = 'vx_v%d' % i
            head = 'for %s in %s%s' % (pat, (L.it + ': ') if L.it else '', it)
        elif n.kind == 'while':
            head = 'while ' + self.e(n.cond)
        else:
            head = 'loop'
        body = emit_range(self, n.body)
        var = ''
        if n.kind == 'for':
            var = pat.lstrip('&').strip()
        lbody = L.body
        if self.canary:
            lbody = 'proof { assert(false); /* vx_canary */ }\n' + lbody
        tail = L.tail
        if tail and n.body.a.get('tail') is not None or (tail and not body.rstrip().endswith((';', '}'))):
            body = body + ';'
        if L.head and n.kind == 'while' and n.cond.kind == 'letcond':    # `while let`, with ghost code before each test
            s = '%s\n%sloop\n  %s\n{ %s\nmatch %s { %s => { %s\n%s\n%s }, _ => { break; } }\n}\n%s' % (pre, cl, inv, L.head, self.e(n.cond.x), self.e(n.cond.pat), lbody, body, tail, L.after)
            return self.f.place(s.replace('$var', var))
        s = '%s\n%s%s\n  %s\n{ %s\n%s\n%s\n}\n%s' % (pre, cl, head, inv, lbody, body, tail, L.after)
        return self.f.place(s.replace('$var', var))
    def zip_loop(self, n, L, i, cl):
        """`for (p, q) in A.into_iter().zip(B.into_iter())` over two vectors, as the loop over their common length"""
        sides = []
        for x in (n.it.x, n.it.args[0]):
            if x.kind == 'mcall' and x.name in ('into_iter', 'iter') and not x.args:
                sides.append((x.name, self.e(x.x)))
            elif x.kind == 'mcall' and x.name == 'iter_mut' and not x.args and pure_place(x.x):
                sides.append((x.name, self.e(x.x)))
            else:
                raise Unsupported('zip of something else than vectors')
        pats = n.pat.children()
        if len(pats) != 2:
            raise Unsupported('zip pattern')
        names = ['vx_za%d' % i, 'vx_zb%d' % i]
        names = [t if k == 'iter_mut' else m for m, (k, t) in zip(names, sides)]     # what is written to stays in its place
        out = ''.join('let %s = %s%s;\n' % (m, '&' if k == 'iter' else '', t) for m, (k, t) in zip(names, sides) if k != 'iter_mut')
        place = lambda t: self.f.place(t.replace('$i', 'vx_zi%d' % i).replace('$a', names[0]).replace('$b', names[1]))
        old_sub = self.f.path_sub
        for p, m, (k, _) in zip(pats, names, sides):
            if k == 'iter_mut':
                if p.kind != 'pat_ident':
                    raise Unsupported('pattern over iter_mut')
                self.f.path_sub = dict(self.f.path_sub or {}, **{p.name: '%s[vx_zi%d - 1]' % (m, i)})
        body = emit_range(self, n.body)
        self.f.path_sub = old_sub
        lets = ''.join('' if k == 'iter_mut' else 'let %s = %s%s[vx_zi%d]%s; ' % (self.e(p), '&' if k == 'iter' else '', m, i, '.clone()' if L.clone and k != 'iter' else '') for p, m, (k, _) in zip(pats, names, sides))
        lbody = ('proof { assert(false); /* vx_canary */ }\n' if self.canary else '') + place(L.body)
        if L.tail and not body.rstrip().endswith((';', '}')):
            body += ';'
        return '%slet mut vx_zi%d: usize = 0;\n%s\n%swhile vx_zi%d < %s.len() && vx_zi%d < %s.len()\n  %s\n{ %s\n%svx_zi%d += 1;\n%s\n%s\n}\n%s' % (
            out, i, place(L.pre), cl, i, names[0], i, names[1], place(L.inv), lbody, lets, i, body, place(L.tail), place(L.after))
    def bind(self, p, arg):
        """`let PAT = ARG;` with reference patterns resolved to default binding modes"""
        if p.kind == 'pat_ref' and arg == '&vx_x':
            p, arg = p.pat, 'vx_x'
        if p.kind == 'pat_ref' and p.pat.kind == 'pat_ident' and not p.pat.ref:
            return 'let %s = *%s; ' % (p.pat.name, arg)
        return 'let %s = %s; ' % (self.e(p), arg)
    def chain(self, n):
        """an iterator chain `src.iter()[.rev()][.map(f)|.filter(f)|.cloned()].end(..)` as the loop it stands for"""
        stages = []
        x = n.x
        if n.name == 'collect' and x.kind == 'mcall' and x.name == 'chain':
            return self.concat(n)
        while x.kind == 'mcall' and x.name in ('map', 'filter', 'cloned', 'copied', 'rev', 'take_while', 'enumerate', 'skip_while', 'flat_map'):
            stages.append(x)
            x = x.x
        rng = x.x if x.kind == 'paren' else x
        if rng.kind == 'range' and rng.op == '..' and rng.lo is not None and rng.hi is not None:
            return self.range_chain(n, rng, stages[::-1])
        if x.kind == 'path' and self.u.iter_vars:      # an iterator that is held in a variable: the sequence of what it has left
            x = rs.Node('mcall', x.s, x.e, x=x, name='into_iter', args=[])
        if x.kind != 'mcall' or x.name not in ('iter', 'into_iter') or x.args:
            return None
        stages.reverse()
        i = self.loop_no
        self.loop_no += 1
        if i >= len(self.f.loops) or self.f.loops[i].kind != 'chain':
            raise LostAnchor('%s: an iterator chain where its contract knows a loop' % self.f.name)
        L = self.f.loops[i]
        names = [s.name for s in stages] + [n.name]
        if L.it is not None and names != L.it.split('.'):
            raise LostAnchor('%s: iterator chain %s, its contract was written for %s' % (self.f.name, '.'.join(names), L.it))
        src = self.e(x.x)
        k = i
        elem = ('&vx_s%d[vx_i%d]' if x.name == 'iter' else 'vx_s%d[vx_i%d]') % (k, k)
        rev = any(s.name == 'rev' for s in stages)
        if rev:
            elem = elem.replace('vx_i%d' % k, 'vx_s%d.len() - 1 - vx_i%d' % (k, k))
        go = 'vx_go%d' % k
        if L.clone:   # elements are copied out of the vector
            elem = '%s(&%s)' % (L.clone, elem.lstrip('&'))
        fuse = any(s.name == 'take_while' for s in stages) or n.name in ('any', 'all', 'find', 'position')
        step = 'let vx_x = %s; ' % elem
        close = ''
        def clos(c, arg):
            if c.kind == 'closure':
                ps = c.params
                if len(ps) != 1:
                    raise Unsupported('closure of an iterator chain')
                return self.bind(ps[0].pat, arg), self.e(c.body)
            return '', '%s(%s)' % (self.e(c), arg)
        for s in stages:
            if s.name in ('cloned', 'copied'):
                step += '' if L.clone else 'let vx_x = vx_x.clone(); '
            elif s.name == 'map':
                a, b = clos(s.args[0], 'vx_x')
                step += 'let vx_x = { %s%s }; ' % (a, b)
            elif s.name == 'filter':
                a, b = clos(s.args[0], '&vx_x')
                step += 'if { %s%s } { ' % (a, b)
                close += ' }'
            elif s.name == 'take_while':
                a, b = clos(s.args[0], '&vx_x')
                step += 'if !{ %s%s } { %s = false; } else { ' % (a, b, go)
                close += ' }'
            elif s.name == 'flat_map' and s is stages[-1] and n.name == 'collect':     # the elements of vectors, one after the other
                c = s.args[0]
                b = c.body if c.kind == 'closure' and len(c.params) == 1 else None
                if b is None or b.kind != 'mcall' or b.name != 'into_iter' or b.args:
                    raise Unsupported('flat_map')
                step += 'let mut vx_more = { %s%s }; ' % (self.bind(c.params[0].pat, 'vx_x'), self.e(b.x))
            elif s.name != 'rev':
                raise Unsupported('iterator stage %s' % s.name)
        end = ''
        var = 'vx_o%d' % k
        if n.name == 'collect':
            init = 'let mut %s%s = Vec::new();' % (var, ': ' + L.ety if L.ety else '')
            step += '%s.append(&mut vx_more); ' % var if stages and stages[-1].name == 'flat_map' else '%s.push(vx_x); ' % var
            end = L.fin % var if L.fin else var
        elif n.name in ('any', 'all'):
            init = 'let mut %s = %s;' % (var, 'false' if n.name == 'any' else 'true')
            a, b = clos(n.args[0], 'vx_x')
            step += '%sif %s{ %s } { %s = %s; %s = false; } ' % (a, '' if n.name == 'any' else '!', b, var, 'true' if n.name == 'any' else 'false', go)
            end = var
        elif n.name == 'find':
            init = 'let mut %s%s = None;' % (var, ': Option<%s>' % L.ety if L.ety else '')
            a, b = clos(n.args[0], '&vx_x')
            step += 'if { %s%s } { %s = Some(vx_x); %s = false; } ' % (a, b, var, go)
            end = var
        elif n.name == 'extend':     # onto a vector that is there already
            init = ''
            step += '%s.push(vx_x); ' % self.extend_into
            end = '()'
        elif n.name == 'fold' and n.args[1].kind == 'closure' and len(n.args[1].params) == 2 and all(q.pat.kind == 'pat_ident' for q in n.args[1].params):
            c = n.args[1]
            init = 'let mut %s = %s;' % (var, self.e(n.args[0]))
            step += '%s = { let %s = %s; let %s = vx_x; %s }; ' % (var, self.e(c.params[0].pat), var, self.e(c.params[1].pat), self.e(c.body))
            end = var
        elif n.name == 'for_each':
            init = ''
            a, b = clos(n.args[0], 'vx_x')
            step += '%s%s; ' % (a, b)
            end = '()'
        else:
            return None
        if L.own:     # the elements are moved out of the vector
            if fuse or rev or x.name != 'into_iter':
                raise Unsupported('iterator chain over owned elements')
            own = lambda t: t.replace('$i', 'vx_it%d.index@' % k).replace('$s@', 'vx_q%d' % k).replace('$o', var)
            cn = 'proof { assert(false); /* vx_canary */ }\n' if self.canary else ''
            return self.f.place('({ let vx_s%d = %s; let ghost vx_q%d = vx_s%d@; %s %s\nfor vx_x in vx_it%d: vx_s%d\n  %s\n{ %s\n%s%s%s\n%s }\n%s\n%s })' % (
                k, src, k, k, init, own(L.pre), k, k, own(L.inv), cn, own(L.body), step.replace('let vx_x = %s; ' % elem, '', 1), close, own(L.tail), own(L.after), end))
        loop = 'while vx_i%d < vx_s%d.len()%s' % (k, k, ' && ' + go if fuse else '')
        inv = L.inv.replace('$i', 'vx_i%d' % k).replace('$s', 'vx_s%d' % k).replace('$o', var).replace('$go', go)
        sub = lambda t: t.replace('$i', 'vx_i%d' % k).replace('$s', 'vx_s%d' % k).replace('$o', var).replace('$go', go)
        body = sub(L.body)
        if self.canary:
            body = 'proof { assert(false); /* vx_canary */ }\n' + body
        ref = '&' if x.name == 'iter' else ''
        return self.f.place('({ let vx_s%d = %s%s; let mut vx_i%d: usize = 0; %s%s\n%s\n%s\n  %s\n{ %s\n%s%s\n%s\nvx_i%d += 1; }\n%s\n%s })' % (
            k, ref, src, k, init, ' let mut %s = true;' % go if fuse else '', sub(L.pre), loop, inv, body, step, close, sub(L.tail), k, sub(L.after), end))
    def concat(self, n):
        """`a.chain(b)..collect()`: what a gives, then what b gives"""
        parts, x = [], n.x
        while x.kind == 'mcall' and x.name == 'chain' and len(x.args) == 1:
            parts.append(x.args[0])
            x = x.x
        parts.append(x)
        out = []
        for q in reversed(parts):
            if q.kind == 'mcall' and q.name == 'into_iter' and not q.args:
                out.append(self.e(q.x))
            else:
                t = self.chain(rs.Node('mcall', q.s, q.e, x=q, name='collect', args=[]))
                if t is None:
                    raise Unsupported('chain of iterators')
                out.append(t)
        self.concats = getattr(self, 'concats', 0) + 1
        c = 'vx_cat%d' % self.concats
        return '({ let mut %s = %s; %s %s })' % (c, out[0], ' '.join('let mut vx_more = %s; %s.append(&mut vx_more);' % (y, c) for y in out[1:]), c)
    def macro_args(self, n):
        inner = self.src[n.body_s:n.body_e]
        parts = split_top_macro(inner)
        out = []
        for p in parts:
            out.append(rs.parse_expr(p))
        return parts, out
    def sub_expr(self, text):
        """emit an expression that was parsed from a separate piece of text"""
        x = rs.parse_expr(text)
        return self.sub_node(text, x)
    def sub_node(self, text, x):
        saved = self.src
        self.src = text
        try:
            return rs.emit(text, x, self.hook)
        finally:
            self.src = saved
    def macro(self, n):
        h = self.u.macros.get(n.name)
        if h is not None:
            return h(self, n)
        inner = self.src[n.body_s:n.body_e]
        if n.name.startswith('debug_assert'):
            self.u.drops.add('%s: debug_assert! in %s' % (self.f.file, self.f.name))
            return '()'
        if n.name in ('assert', 'assert_eq', 'assert_ne'):
            parts = split_top_macro(inner)
            if n.name == 'assert':
                return 'vx_assert(%s)' % self.sub_expr(parts[0])
            op = '==' if n.name == 'assert_eq' else '!='
            return 'vx_assert((%s) %s (%s))' % (self.sub_expr(parts[0]), op, self.sub_expr(parts[1]))
        if n.name in ('panic', 'unreachable', 'unimplemented', 'todo'):
            return 'vx_unreached()'
        if n.name == 'vec':
            if ';' in inner:
                raise Unsupported('vec![x; n]')
            parts = split_top_macro(inner)
            return 'vec![%s]' % ', '.join(self.sub_expr(p) for p in parts)
        if n.name == 'format':
            return self.format(inner)
        if n.name == 'matches':
            parts = split_top_macro(inner)
            return '(match %s { %s => true, _ => false })' % (self.sub_expr(parts[0]), parts[1])
        raise Unsupported('macro %s!' % n.name)
    def range_chain(self, n, rng, stages):
        """`(a..b).map(f).collect()` as a loop"""
        if [x.name for x in stages] != ['map'] or n.name != 'collect' or stages[0].args[0].kind != 'closure':
            raise Unsupported('iterator chain over a range')
        k = self.loop_no
        self.loop_no += 1
        if k >= len(self.f.loops) or self.f.loops[k].kind != 'chain':
            raise LostAnchor('%s: an iterator chain where its contract knows a loop' % self.f.name)
        L = self.f.loops[k]
        c = stages[0].args[0]
        sub = lambda t: t.replace('$i', 'vx_i%d' % k).replace('$hi', 'vx_hi%d' % k).replace('$lo', 'vx_lo%d' % k).replace('$o', 'vx_o%d' % k)
        body = ('proof { assert(false); /* vx_canary */ }\n' if self.canary else '') + sub(L.body)
        return self.f.place('({ let vx_lo%d: usize = %s; let vx_hi%d: usize = %s; let mut vx_i%d: usize = vx_lo%d; let mut vx_o%d%s = Vec::new(); %s\nwhile vx_i%d < vx_hi%d\n  %s\n{ %s\n%svx_o%d.push({ %s });\n%s\nvx_i%d += 1; }\n%s\nvx_o%d })' % (
            k, self.e(rng.lo), k, self.e(rng.hi), k, k, k, ': ' + L.ety if L.ety else '', sub(L.pre), k, k, sub(L.inv), body, self.bind(c.params[0].pat, 'vx_i%d' % k), k, self.e(c.body), sub(L.tail), k, sub(L.after), k))
    def format(self, inner):
        parts = split_top_macro(inner)
        lit = parts[0].strip()
        if not lit.startswith('"'):
            raise Unsupported('format! without a literal')
        pieces = fmt_pieces(lit)
        args = parts[1:]
        k = 0
        out = 'vx_fmt_new()'
        for kind, v in pieces:
            if kind == 'lit':
                out = 'vx_fmt_lit(%s, "%s")' % (out, v)
            else:
                name, spec = v
                if name == '':
                    a = args[k]; k += 1
                elif name.isdigit():
                    a = args[int(name)]
                else:
                    a = name
                if spec not in ('', '?'):
                    raise Unsupported('format spec {:%s}' % spec)
                out = 'vx_fmt_%s(%s, &(%s))' % ('dbg' if spec else 'arg', out, self.sub_expr(a))
        return out

CHAIN_ENDS = ('collect', 'any', 'all', 'find', 'position', 'for_each', 'fold')

def fmt_pieces(lit):
    body = lit[1:-1]
    body = re.sub(r'\\\n\s*', '', body)
    out, cur, i = [], '', 0
    while i < len(body):
        c = body[i]
        if c in '{}' and body[i + 1:i + 2] == c:
            cur += c
            i += 2
            continue
        if c == '\\':
            cur += body[i:i + 2]
            i += 2
            continue
        if c == '{':
            j = body.index('}', i)
            if cur:
                out.append(('lit', cur))
            cur = ''
            nm, _, sp = body[i + 1:j].partition(':')
            out.append(('arg', (nm.strip(), sp.strip())))
            i = j + 1
            continue
        cur += c
        i += 1
    if cur:
        out.append(('lit', cur))
    return out

def split_top_macro(s):
    p = rs.Parser(s)
    out = []
    start = 0
    while p.at().k != 'eof':
        t = p.at()
        if t.t in rs.OPEN and t.k == 'p':
            p.skip_group()
            continue
        if t.t == ',' and t.k == 'p':
            out.append(s[start:t.s])
            start = t.e
        p.i += 1
    if s[start:].strip():
        out.append(s[start:])
    return out

def walk_no_closure(n):
    yield n
    for c in n.children():
        if c.kind == 'closure':
            continue
        yield from walk_no_closure(c)

def emit_range(em, b):
    """inside of a block, braces dropped, transformed"""
    out = []
    pos = b.s + 1
    for c in b.children():
        if c.s < pos:
            continue
        out.append(em.src[pos:c.s])
        out.append(em.e(c))
        pos = c.e
    out.append(em.src[pos:b.e - 1])
    return ''.join(out)

# ------------------------------------------------------------------ running the verifier
SEMANTIC = ('postcondition not satisfied', 'precondition not satisfied', 'assertion failed', 'invariant not satisfied',
            'possible arithmetic', 'possible division by zero', 'decreases not satisfied', 'constructed value may fail',
            'possible bit shift', 'assertion not', 'unable to prove assertion', 'requires not satisfied', 'loop invariant',
            'loop ensures not satisfied', 'split assertion failure', 'type invariant', 'failed to satisfy', 'could not prove', 'recommendation')
LIMIT = ('Resource limit', 'rlimit', 'timed out', 'solver', 'not supported', 'unsupported')

class Result:
    pass

def verus_env():
    env = dict(os.environ)
    for k in ('RUSTUP_TOOLCHAIN', 'RUSTC_BOOTSTRAP', 'CARGO_TARGET_DIR', 'RUSTC_WRAPPER'):
        env.pop(k, None)
    return env

def run_verus(path, extra=(), timeout=600):
    t0 = time.time()
    cmd = ['verus', path, '--output-json', '--time-expanded', '--multiple-errors', '20', '--num-threads', str(min(8, os.cpu_count() or 2))] + list(extra) + ['--', '--error-format=json']
    R = Result()
    R.cmd = ' '.join(cmd)
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=verus_env(), timeout=timeout, cwd=os.path.dirname(path))
        so, se = p.stdout.decode('utf-8', 'replace'), p.stderr.decode('utf-8', 'replace')
    except subprocess.TimeoutExpired as ex:
        so, se = '', '{"message":"verifier timed out","level":"error","spans":[],"rendered":"verifier timed out"}'
    R.wall = time.time() - t0
    R.stdout, R.stderr = so, se
    R.verified = R.errors = 0
    R.smt_ms = 0
    R.functions = []
    try:
        j = json.loads(so)
        vr = j.get('verification-results', {})
        R.verified = vr.get('verified', 0)
        R.errors = vr.get('errors', 0)
        R.success = vr.get('success', False)
        R.encountered_vir_error = vr.get('encountered-vir-error', False)
        R.smt_ms = j.get('times-ms', {}).get('smt', {}).get('total', 0) if isinstance(j.get('times-ms', {}).get('smt', {}), dict) else 0
        for m in j.get('times-ms', {}).get('smt', {}).get('smt-run-module-times', []):
            R.functions += m.get('function-breakdown', [])
        R.verus_version = j.get('verus', {}).get('version')
    except Exception:
        R.success = False
    R.diags = []
    for l in se.splitlines():
        l = l.strip()
        if not l.startswith('{'):
            continue
        try:
            d = json.loads(l)
        except Exception:
            continue
        if d.get('level') != 'error' or d.get('message', '').startswith('aborting due to'):
            continue
        R.diags.append(d)
    return R

def classify(R, base):
    """-> (semantic failures [(line, message, rendered)], tool limits [...])"""
    sem, lim = [], []
    for d in R.diags:
        msg = d['message']
        line = None
        spans = [s for s in d.get('spans', []) if s['file_name'].endswith(base)]
        prim = [s for s in spans if s.get('is_primary')] or spans
        if prim:
            line = prim[0]['line_start']
        item = (line, msg, d.get('rendered', msg), spans)
        if d.get('code') is None and any(msg.startswith(s) or s in msg for s in SEMANTIC) and not any(s in msg for s in LIMIT):
            sem.append(item)
        else:
            lim.append(item)
    return sem, lim
