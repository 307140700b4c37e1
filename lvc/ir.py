"""Front end: C translation unit from /repo -> clang LLVM IR text -> Python objects.

The text that is verified is produced on every run from the current working
tree by `clang -O0 -emit-llvm` followed by LLVM's `mem2reg` (promotion of
scalar locals to SSA).  No optimisation pass that could exploit undefined
behaviour is run.
"""
import hashlib
import os
import re
import subprocess
import tempfile

REPO = os.environ.get('VERIF_REPO', '/repo')
CLANG = 'clang-18'
OPT = '/usr/lib/llvm-18/bin/opt'

CONFIGS = {
    # portable C, 64-bit limbs through unsigned __int128
    'c64': ['-DTORSION_HAVE_CONFIG', '-DTORSION_HAVE_INT128'],
    # portable C, 32-bit limbs
    'c32': ['-DTORSION_HAVE_CONFIG'],
}


class FrontendError(Exception):
    pass


def compile_ll(src, config='c64', extra=()):
    """Returns the mem2reg'ed LLVM text of a source (path or literal C text)."""
    with tempfile.TemporaryDirectory(prefix='lvc-') as d:
        if '\n' in src:
            cfile = os.path.join(d, 'unit.c')
            with open(cfile, 'w') as f:
                f.write(src)
        else:
            cfile = src
        out = os.path.join(d, 'a.ll')
        out2 = os.path.join(d, 'b.ll')
        cmd = [CLANG, '-std=gnu11', '-w', '-O0', '-Xclang', '-disable-O0-optnone',
               '-fno-discard-value-names', '-gline-tables-only', '-S',
               '-emit-llvm', '-I%s/include' % REPO, '-I%s/src' % REPO]
        cmd += CONFIGS[config] + list(extra) + [cfile, '-o', out]
        r = subprocess.run(cmd, capture_output=True, text=True)
        if r.returncode != 0:
            raise FrontendError('clang failed: ' + r.stderr[-2000:])
        r = subprocess.run([OPT, '-S', '-passes=mem2reg', out, '-o', out2],
                           capture_output=True, text=True)
        if r.returncode != 0:
            raise FrontendError('opt failed: ' + r.stderr[-2000:])
        with open(out2) as f:
            return f.read()


# ---------------------------------------------------------------- types

class Ty:
    __slots__ = ('k', 'n', 'elt', 'elts', 'name', 'packed', '_lay')

    def __init__(self, k, n=0, elt=None, elts=None, name=None, packed=False):
        self.k, self.n, self.elt, self.elts = k, n, elt, elts
        self.name, self.packed, self._lay = name, packed, None

    def __repr__(self):
        if self.k == 'i':
            return 'i%d' % self.n
        if self.k == 'arr':
            return '[%d x %r]' % (self.n, self.elt)
        if self.k == 'named':
            return self.name
        if self.k == 'struct':
            return '{%s}' % ','.join(map(repr, self.elts))
        return self.k


PTR = Ty('ptr')
VOID = Ty('void')
_ints = {}


def IntTy(n):
    if n not in _ints:
        _ints[n] = Ty('i', n)
    return _ints[n]


TOK = re.compile(r'''
    \s+ | ;[^\n]* |
    (?P<str>c?"(?:[^"\\]|\\[0-9a-fA-F]{2}|\\\\)*") |
    (?P<loc>%(?:"[^"]*"|[-a-zA-Z$._0-9]+)) |
    (?P<glo>@(?:"[^"]*"|[-a-zA-Z$._0-9]+)) |
    (?P<meta>![-a-zA-Z$._0-9]*) |
    (?P<attr>\#[0-9]+) |
    (?P<num>-?[0-9]+(?:\.[0-9]+(?:e[+-]?[0-9]+)?)?) |
    (?P<word>[a-zA-Z_][-a-zA-Z0-9_.]*) |
    (?P<dots>\.\.\.) |
    (?P<p>[()\[\]{}<>,=*:|])
''', re.X)


def tokenize(s):
    out = []
    i = 0
    n = len(s)
    while i < n:
        m = TOK.match(s, i)
        if not m:
            raise FrontendError('lex: ' + s[i:i + 40])
        k = m.lastgroup
        if k:
            out.append((k, m.group(k)))
        i = m.end()
    return out


class Instr:
    __slots__ = ('op', 'res', 'ty', 'a', 'line', 'x')

    def __init__(self, op, res=None, ty=None, a=(), x=None, line=0):
        self.op, self.res, self.ty, self.a, self.x = op, res, ty, a, x
        self.line = line

    def __repr__(self):
        return '%s = %s %r %r %r' % (self.res, self.op, self.ty, self.a, self.x)


class Block:
    __slots__ = ('name', 'ins', 'phis', 'succ', 'preds')

    def __init__(self, name):
        self.name = name
        self.ins = []
        self.phis = []
        self.succ = []
        self.preds = []


class Func:
    def __init__(self, name, ret, params, mod):
        self.name, self.ret, self.params, self.mod = name, ret, params, mod
        self.blocks = {}
        self.order = []
        self._ana = None

    def analyse(self):
        if self._ana is None:
            self._ana = Analysis(self)
        return self._ana


class Analysis:
    """dominators, post-dominators, natural loops."""

    def __init__(self, f):
        blocks = f.order
        for b in blocks:
            b.preds = []
        for b in blocks:
            for s in b.succ:
                f.blocks[s].preds.append(b.name)
        names = [b.name for b in blocks]
        entry = names[0]
        # reachable
        seen = set()
        post = []
        stack = [(entry, iter(f.blocks[entry].succ))]
        seen.add(entry)
        while stack:
            n, it = stack[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    stack.append((s, iter(f.blocks[s].succ)))
                    break
            else:
                post.append(n)
                stack.pop()
        rpo = post[::-1]
        self.rpo = {n: i for i, n in enumerate(rpo)}
        self.idom = self._dom(rpo, entry, lambda n: [p for p in f.blocks[n].preds if p in seen])
        # post dominators with virtual exit
        exits = [n for n in rpo if not f.blocks[n].succ]
        VX = '<exit>'
        rsucc = {n: list(f.blocks[n].preds) for n in rpo}
        # only ret blocks count as exits; "unreachable" blocks are ignored so
        # that aborting paths do not destroy join points
        rets = [n for n in exits if f.blocks[n].ins and f.blocks[n].ins[-1].op == 'ret']
        rsucc[VX] = rets or exits
        seen2 = set([VX])
        post2 = []
        stack = [(VX, iter(rsucc[VX]))]
        while stack:
            n, it = stack[-1]
            for s in it:
                if s in self.rpo and s not in seen2:
                    seen2.add(s)
                    stack.append((s, iter(rsucc[s])))
                    break
            else:
                post2.append(n)
                stack.pop()
        rpo2 = post2[::-1]

        def psucc(n):
            if n == VX:
                return []
            r = [s for s in f.blocks[n].succ if s in seen2]
            if n in rsucc[VX]:
                r.append(VX)
            return r
        self.ipdom = self._dom(rpo2, VX, psucc)
        self.VX = VX
        # natural loops
        self.loops = {}
        for n in rpo:
            for s in f.blocks[n].succ:
                if self.dominates(s, n):
                    body = self.loops.setdefault(s, set([s]))
                    st = [n]
                    while st:
                        x = st.pop()
                        if x in body:
                            continue
                        body.add(x)
                        st.extend(p for p in f.blocks[x].preds if p in seen)
        hs = sorted(self.loops, key=lambda h: self.rpo[h])
        self.loopno = {h: i for i, h in enumerate(hs)}

    def _dom(self, rpo, entry, preds):
        num = {n: i for i, n in enumerate(rpo)}
        idom = {entry: entry}
        changed = True
        while changed:
            changed = False
            for n in rpo:
                if n == entry:
                    continue
                new = None
                for p in preds(n):
                    if p in idom:
                        if new is None:
                            new = p
                        else:
                            a, b = p, new
                            while a != b:
                                while num[a] > num[b]:
                                    a = idom[a]
                                while num[b] > num[a]:
                                    b = idom[b]
                            new = a
                if new is not None and idom.get(n) != new:
                    idom[n] = new
                    changed = True
        return idom

    def dominates(self, a, b):
        while True:
            if a == b:
                return True
            if b not in self.idom:
                return False
            nb = self.idom[b]
            if nb == b:
                return False
            b = nb


class Global:
    __slots__ = ('name', 'ty', 'init', 'const')

    def __init__(self, name, ty, init, const):
        self.name, self.ty, self.init, self.const = name, ty, init, const


class Module:
    def __init__(self, text):
        self.types = {}
        self.globals = {}
        self.funcs = {}
        self.decls = {}
        self.lines = {}
        self.text_sha = hashlib.sha256(text.encode()).hexdigest()
        self.parse(text)

    # ---- layout
    def resolve(self, t):
        while t.k == 'named':
            t = self.types[t.name]
        return t

    def size_align(self, t):
        if t._lay is not None:
            return t._lay[0], t._lay[1]
        r = t
        if t.k == 'named':
            r = self.types[t.name]
        if r.k == 'i':
            n = (r.n + 7) // 8
            s = 1
            while s < n:
                s *= 2
            lay = (s, min(s, 16), None)
        elif r.k == 'ptr':
            lay = (8, 8, None)
        elif r.k == 'arr':
            s, a = self.size_align(r.elt)
            lay = (s * r.n, a, None)
        elif r.k == 'struct':
            off = 0
            al = 1
            offs = []
            for e in r.elts:
                s, a = self.size_align(e)
                if r.packed:
                    a = 1
                off = (off + a - 1) // a * a
                offs.append(off)
                off += s
                al = max(al, a)
            off = (off + al - 1) // al * al
            lay = (off, al, offs)
        elif r.k in ('double', 'float'):
            lay = (8, 8, None)
        else:
            raise FrontendError('size of %r' % r)
        t._lay = lay
        r._lay = lay
        return lay[0], lay[1]

    def sizeof(self, t):
        return self.size_align(t)[0]

    def offsets(self, t):
        t = self.resolve(t)
        self.size_align(t)
        return t._lay[2]

    # ---- parse
    def parse(self, text):
        lines = text.split('\n')
        # debug locations
        dl = {}
        for ln in lines:
            if ln.startswith('!'):
                m = re.match(r'^!(\d+) = (?:distinct )?!DILocation\(line: (\d+)', ln)
                if m:
                    dl[m.group(1)] = int(m.group(2))
        self.dl = dl
        i = 0
        n = len(lines)
        pend = []
        while i < n:
            ln = lines[i]
            if ln.startswith('%') and ' = type ' in ln:
                toks = tokenize(ln)
                p = P(self, toks, 0)
                name = p.next()[1]
                p.expect('=')
                p.expect('type')
                if p.peek()[1] == 'opaque':
                    self.types[name] = Ty('struct', elts=[])
                else:
                    self.types[name] = p.type()
            elif ln.startswith('@'):
                pend.append(ln)
            elif ln.startswith('declare'):
                m = re.search(r'@("[^"]*"|[-a-zA-Z$._0-9]+)\(', ln)
                self.decls[m.group(1)] = ln
            elif ln.startswith('define'):
                j = i + 1
                while lines[j] != '}':
                    j += 1
                self.parse_func(lines[i], lines[i + 1:j])
                i = j
            i += 1
        for ln in pend:
            self.parse_global(ln)

    def parse_global(self, ln):
        toks = tokenize(ln)
        p = P(self, toks, 0)
        name = p.next()[1][1:]
        p.expect('=')
        const = False
        while True:
            k, v = p.peek()
            if v in ('private', 'internal', 'dso_local', 'external', 'global',
                     'constant', 'unnamed_addr', 'local_unnamed_addr', 'common',
                     'thread_local', 'hidden', 'weak', 'linkonce_odr'):
                if v == 'constant':
                    const = True
                if v == 'external':
                    self.globals[name] = Global(name, None, None, False)
                p.next()
                if v == 'thread_local' and p.peek()[1] == '(':
                    while p.next()[1] != ')':
                        pass
                if v in ('global', 'constant'):
                    break
            else:
                raise FrontendError('global: ' + ln[:80])
        ty = p.type()
        init = None
        if p.i < len(toks) and p.peek()[1] != ',':
            init = p.const(ty)
        self.globals[name] = Global(name, ty, init, const)

    def parse_func(self, head, body):
        toks = tokenize(head)
        p = P(self, toks, 1)
        skip = {'dso_local', 'internal', 'hidden', 'noundef', 'zeroext', 'signext',
                'noalias', 'nonnull', 'weak', 'linkonce_odr', 'local_unnamed_addr',
                'unnamed_addr', 'private'}
        while p.peek()[1] in skip:
            p.next()
        ret = p.type()
        name = p.next()[1][1:].strip('"')
        p.expect('(')
        params = []
        idx = 0
        while p.peek()[1] != ')':
            if p.peek()[1] == ',':
                p.next()
                continue
            if p.peek()[0] == 'dots':
                p.next()
                continue
            t = p.type()
            while p.peek()[0] == 'word':
                w = p.next()[1]
                if w in ('align', 'dereferenceable'):
                    if p.peek()[1] == '(':
                        while p.next()[1] != ')':
                            pass
                    else:
                        p.next()
                elif w in ('byval', 'sret'):
                    while p.next()[1] != ')':
                        pass
            if p.peek()[0] == 'loc':
                pn = p.next()[1]
            else:
                pn = '%' + str(idx)
            idx += 1
            params.append((pn, t))
        f = Func(name, ret, params, self)
        cur = None
        buf = None
        first = True
        for ln in body:
            if not ln or ln.startswith(';'):
                continue
            if not ln.startswith(' '):
                lab = ln.split(':')[0].strip('"')
                cur = Block(lab)
                f.blocks[lab] = cur
                f.order.append(cur)
                first = False
                continue
            if first:
                cur = Block('entry')
                f.blocks['entry'] = cur
                f.order.append(cur)
                first = False
            s = ln.strip()
            if buf is not None:
                buf += ' ' + s
                if ']' in s:
                    self.parse_instr(f, cur, buf)
                    buf = None
                continue
            if s.startswith('switch') and ']' not in s:
                buf = s
                continue
            self.parse_instr(f, cur, s)
        self.funcs[name] = f

    def parse_instr(self, f, blk, s):
        line = 0
        m = re.search(r', !dbg !(\d+)', s)
        if m:
            line = self.dl.get(m.group(1), 0)
            s = s[:m.start()]
        m = re.search(r', ![a-z]', s)
        if m:
            s = s[:m.start()]
        if 'asm ' in s and 'call' in s:
            res = None
            m = re.match(r'(%\S+) = ', s)
            if m:
                res = m.group(1)
            blk.ins.append(Instr('asm', res, None, x=s, line=line))
            return
        toks = tokenize(s)
        p = P(self, toks, 0)
        res = None
        if toks[0][0] == 'loc' and toks[1][1] == '=':
            res = toks[0][1]
            p.i = 2
        op = p.next()[1]
        ins = None
        if op in ('tail', 'musttail', 'notail'):
            op = p.next()[1]
        if op in ('add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl',
                  'lshr', 'ashr', 'and', 'or', 'xor'):
            flags = set()
            while p.peek()[1] in ('nsw', 'nuw', 'exact', 'disjoint'):
                flags.add(p.next()[1])
            ty = p.type()
            a = p.value(ty)
            p.expect(',')
            b = p.value(ty)
            ins = Instr(op, res, ty, (a, b), flags)
        elif op == 'icmp':
            pred = p.next()[1]
            ty = p.type()
            a = p.value(ty)
            p.expect(',')
            b = p.value(ty)
            ins = Instr('icmp', res, ty, (a, b), pred)
        elif op in ('zext', 'sext', 'trunc', 'ptrtoint', 'inttoptr', 'bitcast'):
            while p.peek()[1] in ('nneg', 'nuw', 'nsw'):
                p.next()
            ty = p.type()
            a = p.value(ty)
            p.expect('to')
            t2 = p.type()
            ins = Instr(op, res, t2, (a,), ty)
        elif op == 'alloca':
            ty = p.type()
            cnt = None
            if p.more() and p.peek()[1] == ',' and p.peek(1)[1] != 'align':
                p.next()
                ct = p.type()
                cnt = p.value(ct)
            ins = Instr('alloca', res, ty, (), cnt)
        elif op == 'load':
            vol = False
            if p.peek()[1] == 'volatile':
                p.next()
                vol = True
            ty = p.type()
            p.expect(',')
            pt = p.type()
            a = p.value(pt)
            ins = Instr('load', res, ty, (a,), vol)
        elif op == 'store':
            if p.peek()[1] == 'volatile':
                p.next()
            ty = p.type()
            v = p.value(ty)
            p.expect(',')
            pt = p.type()
            a = p.value(pt)
            ins = Instr('store', None, ty, (v, a))
        elif op == 'getelementptr':
            while p.peek()[1] in ('inbounds', 'nuw', 'nusw'):
                p.next()
            ty = p.type()
            p.expect(',')
            pt = p.type()
            base = p.value(pt)
            idx = []
            while p.more() and p.peek()[1] == ',':
                p.next()
                it = p.type()
                idx.append((it, p.value(it)))
            ins = Instr('gep', res, ty, (base,), idx)
        elif op == 'br':
            if p.peek()[1] == 'label':
                p.next()
                l = p.next()[1][1:].strip('"')
                ins = Instr('br', None, None, (), (l,))
                blk.succ = [l]
            else:
                ty = p.type()
                c = p.value(ty)
                p.expect(',')
                p.expect('label')
                a = p.next()[1][1:].strip('"')
                p.expect(',')
                p.expect('label')
                b = p.next()[1][1:].strip('"')
                ins = Instr('condbr', None, None, (c,), (a, b))
                blk.succ = [a, b] if a != b else [a]
        elif op == 'switch':
            ty = p.type()
            v = p.value(ty)
            p.expect(',')
            p.expect('label')
            d = p.next()[1][1:].strip('"')
            p.expect('[')
            cases = []
            while p.peek()[1] != ']':
                t = p.type()
                cv = p.value(t)
                p.expect(',')
                p.expect('label')
                cases.append((cv[1] & ((1 << ty.n) - 1), p.next()[1][1:].strip('"')))
            ins = Instr('switch', None, ty, (v,), (d, cases))
            su = [d]
            for _, l in cases:
                if l not in su:
                    su.append(l)
            blk.succ = su
        elif op == 'ret':
            ty = p.type()
            if ty.k == 'void':
                ins = Instr('ret', None, ty, ())
            else:
                ins = Instr('ret', None, ty, (p.value(ty),))
        elif op == 'phi':
            ty = p.type()
            inc = {}
            while True:
                p.expect('[')
                v = p.value(ty)
                p.expect(',')
                l = p.next()[1][1:].strip('"')
                p.expect(']')
                inc[l] = v
                if p.more() and p.peek()[1] == ',':
                    p.next()
                else:
                    break
            ins = Instr('phi', res, ty, (), inc)
            ins.line = line
            blk.phis.append(ins)
            return
        elif op == 'select':
            ct = p.type()
            c = p.value(ct)
            p.expect(',')
            ty = p.type()
            a = p.value(ty)
            p.expect(',')
            t2 = p.type()
            b = p.value(t2)
            ins = Instr('select', res, ty, (c, a, b))
        elif op == 'freeze':
            ty = p.type()
            ins = Instr('freeze', res, ty, (p.value(ty),))
        elif op == 'call':
            skip = {'noundef', 'zeroext', 'signext', 'noalias', 'nonnull', 'fastcc',
                    'inreg'}
            while p.peek()[1] in skip:
                p.next()
            rt = p.type()
            if p.peek()[1] == '(':      # vararg signature
                d = 0
                while True:
                    v = p.next()[1]
                    if v == '(':
                        d += 1
                    elif v == ')':
                        d -= 1
                        if d == 0:
                            break
            k, v = p.peek()
            callee = p.value(PTR)
            p.expect('(')
            args = []
            while p.peek()[1] != ')':
                if p.peek()[1] == ',':
                    p.next()
                    continue
                t = p.type()
                if t.k == 'metadata':
                    args = []
                    break
                while p.peek()[0] == 'word' and p.peek()[1] not in (
                        'null', 'undef', 'true', 'false', 'poison', 'zeroinitializer',
                        'getelementptr', 'none', 'inttoptr', 'ptrtoint'):
                    w = p.next()[1]
                    if w == 'align':
                        p.next()
                    elif w in ('dereferenceable', 'byval', 'sret'):
                        while p.next()[1] != ')':
                            pass
                args.append((t, p.value(t)))
            ins = Instr('call', res, rt, tuple(args), callee)
        elif op == 'unreachable':
            ins = Instr('unreachable')
        else:
            ins = Instr('unsupported', res, None, (), s)
        ins.line = line
        blk.ins.append(ins)


class P:
    """token cursor"""

    def __init__(self, mod, toks, i):
        self.mod, self.t, self.i = mod, toks, i

    def more(self):
        return self.i < len(self.t)

    def peek(self, k=0):
        return self.t[self.i + k] if self.i + k < len(self.t) else ('', '')

    def next(self):
        x = self.t[self.i]
        self.i += 1
        return x

    def expect(self, v):
        x = self.next()
        if x[1] != v:
            raise FrontendError('expected %s got %s in %r' % (v, x[1], self.t[:40]))

    def type(self):
        k, v = self.next()
        if k == 'word':
            if v[0] == 'i' and v[1:].isdigit():
                return IntTy(int(v[1:]))
            if v == 'ptr':
                return PTR
            if v == 'void':
                return VOID
            return Ty(v)
        if k == 'loc':
            return self.named(v)
        if v == '[':
            n = int(self.next()[1])
            self.expect('x')
            e = self.type()
            self.expect(']')
            return Ty('arr', n, e)
        if v == '{':
            el = []
            while self.peek()[1] != '}':
                if self.peek()[1] == ',':
                    self.next()
                    continue
                el.append(self.type())
            self.next()
            return Ty('struct', elts=el)
        if v == '<':
            if self.peek()[1] == '{':
                t = self.type()
                t.packed = True
                self.expect('>')
                return t
            n = int(self.next()[1])
            self.expect('x')
            e = self.type()
            self.expect('>')
            return Ty('vec', n, e)
        raise FrontendError('type ' + v)

    def named(self, v):
        d = self.mod.__dict__.setdefault('_named', {})
        if v not in d:
            d[v] = Ty('named', name=v)
        return d[v]

    def value(self, ty):
        """('c', int) | ('r', reg) | ('g', name) | ('null',) | ('undef',) | ('gep',..)"""
        k, v = self.next()
        if k == 'num':
            return ('c', int(v))
        if k == 'loc':
            return ('r', v)
        if k == 'glo':
            return ('g', v[1:].strip('"'))
        if v == 'null':
            return ('null',)
        if v in ('undef', 'poison'):
            return ('undef',)
        if v == 'true':
            return ('c', 1)
        if v == 'false':
            return ('c', 0)
        if v == 'zeroinitializer':
            return ('zero',)
        if v == 'getelementptr':
            while self.peek()[1] in ('inbounds', 'nuw', 'nusw'):
                self.next()
            self.expect('(')
            t = self.type()
            self.expect(',')
            pt = self.type()
            base = self.value(pt)
            idx = []
            while self.peek()[1] == ',':
                self.next()
                it = self.type()
                idx.append((it, self.value(it)))
            self.expect(')')
            return ('gep', t, base, idx)
        if v in ('ptrtoint', 'inttoptr', 'bitcast'):
            self.expect('(')
            t = self.type()
            a = self.value(t)
            self.expect('to')
            t2 = self.type()
            self.expect(')')
            return (v, t, a, t2)
        raise FrontendError('value %r in %r' % (v, self.t[:30]))

    def const(self, ty):
        k, v = self.peek()
        if k == 'str' and v[0] == 'c':
            self.next()
            s = v[2:-1]
            b = bytearray()
            i = 0
            while i < len(s):
                if s[i] == '\\':
                    if s[i + 1] == '\\':
                        b.append(0x5c)
                        i += 2
                        continue
                    b.append(int(s[i + 1:i + 3], 16))
                    i += 3
                else:
                    b.append(ord(s[i]))
                    i += 1
            return ('str', bytes(b))
        if v == '[':
            self.next()
            el = []
            while self.peek()[1] != ']':
                if self.peek()[1] == ',':
                    self.next()
                    continue
                t = self.type()
                el.append(self.const(t))
            self.next()
            return ('agg', el)
        if v in ('{', '<'):
            self.next()
            if v == '<':
                self.expect('{')
            el = []
            while self.peek()[1] != '}':
                if self.peek()[1] == ',':
                    self.next()
                    continue
                t = self.type()
                el.append(self.const(t))
            self.next()
            if v == '<':
                self.expect('>')
            return ('agg', el)
        return self.value(ty)


_cache = {}


def load(src, config='c64', extra=()):
    key = (src, config, tuple(extra))
    if key not in _cache:
        _cache[key] = Module(compile_ll(src, config, extra))
    return _cache[key]
