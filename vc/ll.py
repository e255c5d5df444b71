"""Reader for the subset of textual LLVM IR (clang/opt 18) that the VC generator consumes.

Functions are parsed lazily.  Anything that is not understood raises Unsupported when (and only
when) a function containing it is actually executed symbolically.
"""
import re, subprocess


class Unsupported(Exception):
    pass


# ---------------------------------------------------------------- tokens
TOK = re.compile(r'''
   (?P<ws>\s+)
 | (?P<cstr>c"(?:[^"\\]|\\.)*")
 | (?P<qid>[%@$]"[^"]*")
 | (?P<id>[%@$][-A-Za-z$._0-9]+)
 | (?P<str>"[^"]*")
 | (?P<attr>\#\d+)
 | (?P<meta>![A-Za-z0-9_.]*)
 | (?P<hex>0x[KLMHR]?[0-9A-Fa-f]+)
 | (?P<num>-?\d+(?:\.\d+)?(?:[eE][-+]?\d+)?)
 | (?P<dots>\.\.\.)
 | (?P<word>[A-Za-z_][-A-Za-z0-9_.]*)
 | (?P<p>[()\[\]{}<>,=*:|])
''', re.X)


def tokenize(s):
    out = []
    i = 0
    n = len(s)
    while i < n:
        if s[i] == ';':
            break
        m = TOK.match(s, i)
        if not m:
            raise Unsupported('token at %r' % s[i:i + 40])
        k = m.lastgroup
        if k != 'ws':
            t = m.group()
            if k == 'qid':
                t = t[0] + t[2:-1]
                k = 'id'
            out.append((k, t))
        i = m.end()
    return out


# ---------------------------------------------------------------- types
def tstr(t):
    if isinstance(t, str):
        return t
    if t[0] == 'i':
        return 'i%d' % t[1]
    if t[0] == 'arr':
        return '[%d x %s]' % (t[1], tstr(t[2]))
    if t[0] == 'st':
        return '%' + t[1]
    return str(t)


ORDERS = ('unordered', 'monotonic', 'acquire', 'release', 'acq_rel', 'seq_cst')


def order(c):
    """memory order of an atomic access (the success order of a compare-exchange)"""
    for o in range(12):
        if c.peek(o) in ORDERS:
            return c.peek(o)
        if c.peek(o) is None:
            return None
    return None


class Cur:
    """token cursor"""
    __slots__ = ('t', 'i', 'mod')

    def __init__(self, toks, mod):
        self.t = toks
        self.i = 0
        self.mod = mod

    def peek(self, o=0):
        return self.t[self.i + o][1] if self.i + o < len(self.t) else None

    def kind(self, o=0):
        return self.t[self.i + o][0] if self.i + o < len(self.t) else None

    def next(self):
        x = self.t[self.i][1]
        self.i += 1
        return x

    def accept(self, *xs):
        if self.peek() in xs and self.kind() != 'cstr':
            return self.next()
        return None

    def expect(self, x):
        y = self.next()
        if y != x:
            raise Unsupported('expected %r got %r in %r' % (x, y, ' '.join(a for _, a in self.t)[:300]))

    # --- types
    def type(self):
        k, t = self.t[self.i]
        self.i += 1
        if k == 'word':
            if re.fullmatch(r'i\d+', t):
                r = ('i', int(t[1:]))
            elif t in ('ptr', 'void', 'double', 'float', 'label', 'metadata', 'x86_fp80', 'half', 'token'):
                r = t
            elif t == 'opaque':
                r = 'opaque'
            else:
                raise Unsupported('type %s' % t)
        elif k == 'id':
            r = ('st', t[1:])
        elif t == '[':
            n = int(self.next())
            self.expect('x')
            e = self.type()
            self.expect(']')
            r = ('arr', n, e)
        elif t == '{':
            r = self._struct('}', False)
        elif t == '<':
            if self.peek() == '{':
                self.next()
                r = self._struct('}', True)
                self.expect('>')
            else:
                n = int(self.next())
                self.expect('x')
                e = self.type()
                self.expect('>')
                r = ('vec', n, e)
        else:
            raise Unsupported('type at %s' % t)
        # function types
        if self.peek() == '(' and r is not None:
            # only "ret (args)" used in call with varargs
            j = self.i
            self.next()
            args = []
            va = False
            ok = True
            try:
                while self.peek() != ')':
                    if self.peek() == '...':
                        self.next()
                        va = True
                    else:
                        args.append(self.type())
                    if not self.accept(','):
                        break
                self.expect(')')
            except Unsupported:
                ok = False
            if ok:
                r = ('fn', r, tuple(args), va)
            else:
                self.i = j
        return r

    def _struct(self, close, packed):
        fs = []
        while self.peek() != close:
            fs.append(self.type())
            if not self.accept(','):
                break
        self.expect(close)
        return ('lst', tuple(fs), packed)

    # --- values (type known)
    def value(self, ty):
        k, t = self.t[self.i]
        self.i += 1
        if k == 'id':
            return ('loc', t[1:]) if t[0] == '%' else ('glob', t[1:])
        if k == 'num':
            if ty in ('double', 'float'):
                return ('fp', float(t))
            return ('int', int(t))
        if k == 'hex':
            return ('fp', t)
        if k == 'cstr':
            return ('cstr', _unesc(t[2:-1]))
        if t == 'true':
            return ('int', 1)
        if t == 'false':
            return ('int', 0)
        if t in ('null', 'undef', 'poison', 'none'):
            return (t,)
        if t == 'zeroinitializer':
            return ('zero',)
        if t == '[' or t == '{' or t == '<':
            packed = False
            if t == '<' and self.peek() == '{':
                self.next()
                packed = True
            close = {'[': ']', '{': '}', '<': '}' if packed else '>'}[t]
            el = []
            while self.peek() != close:
                et = self.type()
                el.append((et, self.value(et)))
                if not self.accept(','):
                    break
            self.expect(close)
            if packed:
                self.expect('>')
            return ('agg', el)
        if t == 'getelementptr':
            while self.accept('inbounds', 'nuw', 'nusw'):
                pass
            if self.accept('inrange'):
                raise Unsupported('inrange')
            self.expect('(')
            et = self.type()
            self.expect(',')
            bt = self.type()
            base = self.value(bt)
            idx = []
            while self.accept(','):
                self.accept('inrange')
                it = self.type()
                idx.append((it, self.value(it)))
            self.expect(')')
            return ('cgep', et, base, idx)
        if t in ('bitcast', 'inttoptr', 'ptrtoint', 'addrspacecast', 'trunc'):
            self.expect('(')
            ft = self.type()
            v = self.value(ft)
            self.expect('to')
            tt = self.type()
            self.expect(')')
            return ('ccast', t, ft, v, tt)
        if t in ('sub', 'add'):
            while self.accept('nsw', 'nuw'):
                pass
            self.expect('(')
            ft = self.type()
            a = self.value(ft)
            self.expect(',')
            ft2 = self.type()
            b = self.value(ft2)
            self.expect(')')
            return ('cbin', t, ft, a, b)
        raise Unsupported('value %s' % t)

    def skip_attrs(self):
        """parameter/return attributes"""
        ATTR = ('noundef', 'dead_on_unwind', 'writable', 'nosync', 'convergent', 'willreturn', 'cold', 'nonnull', 'signext', 'zeroext', 'noalias', 'nocapture', 'readonly', 'readnone',
                'writeonly', 'returned', 'inreg', 'immarg', 'nofree', 'noreturn', 'nounwind', 'dso_local',
                'local_unnamed_addr', 'unnamed_addr', 'swiftself', 'nest', 'mustprogress', 'allocptr')
        while True:
            p = self.peek()
            if p in ATTR:
                self.next()
                continue
            if p == 'align':
                self.next()
                if self.accept('('):
                    self.next()
                    self.expect(')')
                else:
                    self.next()
                continue
            if p in ('dereferenceable', 'dereferenceable_or_null', 'sret', 'byval', 'elementtype', 'range', 'captures', 'memory', 'allocsize', 'allockind', 'nofpclass', 'vscale_range', 'byref', 'preallocated', 'inalloca') and self.peek(1) == '(':
                self.next()
                d = 0
                while True:
                    x = self.next()
                    if x == '(':
                        d += 1
                    elif x == ')':
                        d -= 1
                        if d == 0:
                            break
                continue
            return


def _unesc(s):
    out = bytearray()
    i = 0
    while i < len(s):
        if s[i] == '\\':
            if s[i + 1] == '\\':
                out.append(92)
                i += 2
            else:
                out.append(int(s[i + 1:i + 3], 16))
                i += 3
        else:
            out += s[i].encode('latin-1', 'replace')
            i += 1
    return bytes(out)


class Inst:
    __slots__ = ('op', 'res', 'a', 'line')

    def __init__(self, op, res, a, line):
        self.op, self.res, self.a, self.line = op, res, a, line

    def __repr__(self):
        return self.line.strip()


class Func:
    def __init__(self, mod, name, header, body):
        self.mod, self.name, self._h, self._b = mod, name, header, body
        self._parsed = False

    @property
    def mod_exc(self):
        return getattr(self.mod, 'exc', False)

    def parse(self):
        if self._parsed:
            return self
        self._parsed = True
        c = Cur(tokenize(self._h), self.mod)
        c.expect('define')
        LINK = ('linkonce_odr', 'dso_local', 'internal', 'weak_odr', 'hidden', 'private', 'available_externally', 'weak', 'linkonce', 'external', 'fastcc', 'ccc', 'coldcc')
        while c.accept(*LINK):
            pass
        c.skip_attrs()
        self.ret = c.type()
        gname = c.next()
        assert gname[0] == '@', gname
        c.expect('(')
        self.params = []
        self.vararg = False
        n = 0
        while c.peek() != ')':
            if c.accept('...'):
                self.vararg = True
            else:
                t = c.type()
                sret = 'sret' in [c.peek()]
                c.skip_attrs()
                if c.kind() == 'id':
                    nm = c.next()[1:]
                else:
                    nm = str(n)
                n += 1
                self.params.append((t, nm))
            if not c.accept(','):
                break
        self.blocks = {}
        self.order = []
        cur = None
        lines = self._b
        # unnamed entry block: number following the params
        entry = str(len(self.params)) if not any(not p.isdigit() for _, p in self.params) else 'entry'
        i = 0
        while i < len(lines):
            ln = lines[i]
            i += 1
            st = ln.strip()
            if not st or st.startswith(';'):
                continue
            m = re.match(r'^(?:"([^"]+)"|([-A-Za-z$._0-9]+)):', ln)
            if m:
                cur = m.group(1) or m.group(2)
                self.blocks[cur] = []
                self.order.append(cur)
                continue
            if cur is None:
                cur = entry
                self.blocks[cur] = []
                self.order.append(cur)
            # join multi-line constructs
            if re.match(r'^\s*switch .*\[\s*$', ln) or (st.startswith('switch') and not st.rstrip().endswith(']')):
                while not lines[i].strip().startswith(']'):
                    ln += ' ' + lines[i].strip()
                    i += 1
                ln += ' ]'
                i += 1
            elif ' invoke ' in (' ' + st) and ' unwind label ' not in st:
                ln += ' ' + lines[i].strip()
                i += 1
            elif ' landingpad ' in ' ' + st or st.endswith('landingpad { ptr, i32 }'):
                while i < len(lines) and re.match(r'^\s+(cleanup|catch|filter)\b', lines[i]):
                    ln += ' ; ' + lines[i].strip()
                    i += 1
            self.blocks[cur].append(self.inst(ln))
        self.entry = self.order[0]
        self._cfg()
        return self

    def succs(self, b):
        t = self.blocks[b][-1]
        if t.op == 'br':
            return [t.a['t']] if t.a['c'] is None else [t.a['t'], t.a['f']]
        if t.op == 'switch':
            return [t.a['d']] + [l for _, l in t.a['cases']]
        if t.op == 'invoke':
            return [t.a['normal']] + ([t.a['unwind']] if self.mod_exc else [])          # exceptional edges are modelled on request only
        return []

    def _cfg(self):
        # reachable blocks (normal edges only), reverse post order, dominators, loops
        succ = {}
        seen = []
        st = set()

        def dfs(root):
            stack = [(root, iter(dict.fromkeys(self.succs(root))))]
            st.add(root)
            while stack:
                b, it = stack[-1]
                for s in it:
                    if s not in st:
                        st.add(s)
                        stack.append((s, iter(dict.fromkeys(self.succs(s)))))
                        break
                else:
                    seen.append(b)
                    stack.pop()
        dfs(self.entry)
        rpo = seen[::-1]
        num = {b: i for i, b in enumerate(rpo)}
        preds = {b: [] for b in rpo}
        for b in rpo:
            for s in dict.fromkeys(self.succs(b)):
                preds[s].append(b)
        idom = {self.entry: self.entry}
        ch = True
        while ch:
            ch = False
            for b in rpo[1:]:
                ps = [p for p in preds[b] if p in idom]
                n = ps[0]
                for p in ps[1:]:
                    a, c = p, n
                    while a != c:
                        while num[a] > num[c]:
                            a = idom[a]
                        while num[c] > num[a]:
                            c = idom[c]
                    n = a
                if idom.get(b) != n:
                    idom[b] = n
                    ch = True

        def dom(a, b):
            while True:
                if a == b:
                    return True
                if b == self.entry:
                    return False
                b = idom[b]
        loops = {}
        for b in rpo:
            for s in dict.fromkeys(self.succs(b)):
                if dom(s, b):
                    body = loops.setdefault(s, {s})
                    work = [b]
                    while work:
                        x = work.pop()
                        if x not in body:
                            body.add(x)
                            work += preds[x]
                elif num[s] <= num[b]:
                    raise Unsupported('irreducible control flow in ' + self.name)
        self.rpo, self.num, self.preds, self.loops = rpo, num, preds, loops

    # ------------------------------------------------------------ instructions
    def inst(self, ln):
        try:
            return self._inst(ln)
        except (Unsupported, IndexError, ValueError) as e:
            return Inst('unsupported', None, {'why': str(e)}, ln)

    def _inst(self, ln):
        s = re.sub(r',\s*![a-zA-Z0-9_.]+\s+![0-9]+', '', ln)
        c = Cur(tokenize(s), self.mod)
        res = None
        if c.kind() == 'id' and c.peek(1) == '=':
            res = c.next()[1:]
            c.next()
        op = c.next()
        if op in ('tail', 'musttail', 'notail'):
            op = c.next()
        a = {}
        if op in ('add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor'):
            fl = set()
            while c.peek() in ('nsw', 'nuw', 'exact', 'disjoint'):
                fl.add(c.next())
            t = c.type()
            x = c.value(t)
            c.expect(',')
            y = c.value(t)
            a = dict(t=t, x=x, y=y, fl=fl)
        elif op in ('fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
            while c.kind() == 'word' and c.peek() not in ('double', 'float', 'x86_fp80'):
                c.next()
            t = c.type()
            x = c.value(t)
            c.expect(',')
            y = c.value(t)
            a = dict(t=t, x=x, y=y)
        elif op == 'fneg':
            t = c.type()
            a = dict(t=t, x=c.value(t))
        elif op in ('icmp', 'fcmp'):
            while c.peek() in ('samesign', 'fast', 'nnan', 'ninf', 'nsz'):
                c.next()
            p = c.next()
            t = c.type()
            x = c.value(t)
            c.expect(',')
            y = c.value(t)
            a = dict(p=p, t=t, x=x, y=y)
        elif op in ('trunc', 'zext', 'sext', 'bitcast', 'ptrtoint', 'inttoptr', 'fptoui', 'fptosi', 'uitofp', 'sitofp', 'fpext', 'fptrunc', 'addrspacecast'):
            while c.peek() in ('nneg', 'nsw', 'nuw'):
                c.next()
            t = c.type()
            x = c.value(t)
            c.expect('to')
            a = dict(t=t, x=x, tt=c.type())
        elif op == 'alloca':
            t = c.type()
            n = ('int', 1)
            if c.accept(','):
                if c.peek() != 'align':
                    nt = c.type()
                    n = c.value(nt)
            a = dict(t=t, n=n)
        elif op == 'load':
            at = bool(c.accept('atomic'))
            c.accept('volatile')
            t = c.type()
            c.expect(',')
            c.type()
            p = c.value('ptr')
            a = dict(t=t, p=p, atomic=at, order=order(c))
        elif op == 'store':
            at = bool(c.accept('atomic'))
            c.accept('volatile')
            t = c.type()
            v = c.value(t)
            c.expect(',')
            c.type()
            p = c.value('ptr')
            a = dict(t=t, v=v, p=p, atomic=at, order=order(c))
        elif op == 'getelementptr':
            inb = False
            while c.peek() in ('inbounds', 'nuw', 'nusw'):
                c.next()
                inb = True
            et = c.type()
            c.expect(',')
            c.type()
            base = c.value('ptr')
            idx = []
            while c.accept(','):
                it = c.type()
                idx.append((it, c.value(it)))
            a = dict(et=et, base=base, idx=idx, inb=inb)
        elif op == 'phi':
            while c.kind() == 'word' and not re.fullmatch(r'i\d+|ptr|double|float', c.peek()):
                c.next()
            t = c.type()
            inc = []
            while True:
                c.expect('[')
                v = c.value(t)
                c.expect(',')
                l = c.next()[1:]
                c.expect(']')
                inc.append((v, l))
                if not c.accept(','):
                    break
            a = dict(t=t, inc=inc)
        elif op == 'select':
            c.type()
            cv = c.value(('i', 1))
            c.expect(',')
            t = c.type()
            x = c.value(t)
            c.expect(',')
            c.type()
            y = c.value(t)
            a = dict(c=cv, t=t, x=x, y=y)
        elif op == 'br':
            if c.accept('label'):
                a = dict(c=None, t=c.next()[1:])
            else:
                c.type()
                v = c.value(('i', 1))
                c.expect(',')
                c.expect('label')
                t = c.next()[1:]
                c.expect(',')
                c.expect('label')
                f = c.next()[1:]
                a = dict(c=v, t=t, f=f)
        elif op == 'switch':
            t = c.type()
            v = c.value(t)
            c.expect(',')
            c.expect('label')
            d = c.next()[1:]
            c.expect('[')
            cases = []
            while c.peek() != ']':
                ct = c.type()
                cv = c.value(ct)
                c.expect(',')
                c.expect('label')
                cases.append((cv[1], c.next()[1:]))
            a = dict(t=t, v=v, d=d, cases=cases)
        elif op == 'ret':
            t = c.type()
            a = dict(t=t, v=None if t == 'void' else c.value(t))
        elif op in ('call', 'invoke'):
            while c.peek() in ('fastcc', 'ccc', 'fast', 'nnan', 'ninf', 'nsz', 'reassoc', 'contract', 'afn', 'arcp'):
                c.next()
            c.skip_attrs()
            t = c.type()
            if isinstance(t, tuple) and t[0] == 'fn':
                t = t[1]
            callee = None
            if c.peek() == 'asm':
                raise Unsupported('inline asm')
            callee = c.value('ptr')
            c.expect('(')
            args = []
            while c.peek() != ')':
                at = c.type()
                c.skip_attrs()
                if at == 'metadata':
                    while c.peek() not in (',', ')'):
                        c.next()
                    args.append((at, ('undef',)))
                else:
                    args.append((at, c.value(at)))
                if not c.accept(','):
                    break
            c.expect(')')
            a = dict(t=t, callee=callee, args=args)
            if op == 'invoke':
                while c.peek() != 'to':
                    c.next()
                c.next()
                c.expect('label')
                a['normal'] = c.next()[1:]
                c.expect('unwind')
                c.expect('label')
                a['unwind'] = c.next()[1:]
        elif op == 'unreachable':
            pass
        elif op == 'atomicrmw':
            c.accept('volatile')
            o = c.next()
            c.type()
            p = c.value('ptr')
            c.expect(',')
            t = c.type()
            v = c.value(t)
            a = dict(rop=o, p=p, t=t, v=v, order=order(c))
        elif op == 'cmpxchg':
            weak = bool(c.accept('weak'))
            c.accept('volatile')
            c.type()
            p = c.value('ptr')
            c.expect(',')
            t = c.type()
            e = c.value(t)
            c.expect(',')
            c.type()
            n = c.value(t)
            a = dict(p=p, t=t, e=e, n=n, weak=weak, order=order(c))
        elif op == 'extractvalue':
            t = c.type()
            v = c.value(t)
            ix = []
            while c.accept(','):
                ix.append(int(c.next()))
            a = dict(t=t, v=v, ix=ix)
        elif op == 'insertvalue':
            t = c.type()
            v = c.value(t)
            c.expect(',')
            et = c.type()
            e = c.value(et)
            ix = []
            while c.accept(','):
                ix.append(int(c.next()))
            a = dict(t=t, v=v, et=et, e=e, ix=ix)
        elif op == 'freeze':
            t = c.type()
            a = dict(t=t, x=c.value(t))
        elif op == 'fence':
            pass
        elif op == 'landingpad':
            a = dict(clauses=re.findall(r'catch ptr (null|@[^\s,]+)', ln), other=' filter ' in ln)
        elif op == 'resume':
            pass
        else:
            raise Unsupported('opcode ' + op)
        return Inst(op, res, a, ln)


class Module:
    def __init__(self, text):
        self.types = {}
        self.globals = {}
        self.funcs = {}
        self.decls = set()
        self.text = text
        lines = text.split('\n')
        i = 0
        n = len(lines)
        self._gl = {}
        while i < n:
            ln = lines[i]
            if ln.startswith('%'):
                m = re.match(r'^%(?:"([^"]+)"|(\S+)) = type (.*)$', ln)
                if m:
                    self.types[m.group(1) or m.group(2)] = m.group(3)
            elif ln.startswith('@'):
                m = re.match(r'^@(?:"([^"]+)"|([-A-Za-z$._0-9]+)) = (.*)$', ln)
                if m:
                    self._gl[m.group(1) or m.group(2)] = m.group(3)
            elif ln.startswith('define'):
                m = re.search(r'@(?:"([^"]+)"|([-A-Za-z$._0-9]+))\(', ln)
                nm = m.group(1) or m.group(2)
                j = i + 1
                while lines[j] != '}':
                    j += 1
                hdr = ln
                # header may carry trailing "{" and attributes
                self.funcs[nm] = Func(self, nm, hdr[:hdr.rindex('{')], lines[i + 1:j])
                i = j
            elif ln.startswith('declare'):
                m = re.search(r'@(?:"([^"]+)"|([-A-Za-z$._0-9]+))\(', ln)
                if m:
                    self.decls.add(m.group(1) or m.group(2))
            i += 1
        self._tc = {}
        self._lay = {}
        self._demangle()
        self._constg = {}

    def _demangle(self):
        names = list(self.funcs) + list(self.decls)
        p = subprocess.run(['c++filt'], input='\n'.join(names), capture_output=True, text=True)
        dn = p.stdout.split('\n')
        self.dem = dict(zip(names, dn))
        self.byname = {}
        for m, d in self.dem.items():
            if m in self.funcs:
                self.byname.setdefault(basename(d), []).append(m)

    def find(self, base, pred=None):
        """mangled names of the defined functions with the qualified base name `base`"""
        r = self.byname.get(base, [])
        if pred:
            r = [x for x in r if pred(self.dem[x])]
        return r

    # --- types
    def sdef(self, name):
        r = self._tc.get(name)
        if r is None:
            s = self.types.get(name)
            if s is None or s == 'opaque':
                raise Unsupported('opaque type ' + name)
            r = Cur(tokenize(s), self).type()
            self._tc[name] = r
        return r

    def resolve(self, t):
        while isinstance(t, tuple) and t[0] == 'st':
            t = self.sdef(t[1])
        return t

    def layout(self, t):
        """(size, align, offsets or None)"""
        k = t
        r = self._lay.get(k)
        if r is not None:
            return r
        if t == 'ptr' or t == 'double':
            r = (8, 8, None)
        elif t == 'float':
            r = (4, 4, None)
        elif t == 'x86_fp80':
            r = (16, 16, None)
        elif isinstance(t, tuple) and t[0] == 'i':
            b = max(1, (t[1] + 7) // 8)
            p = 1
            while p < b:
                p *= 2
            r = (p, min(p, 16), None)
        elif isinstance(t, tuple) and t[0] == 'arr':
            s, al, _ = self.layout(t[2])
            r = (s * t[1], al, None)
        elif isinstance(t, tuple) and t[0] == 'st':
            r = self.layout(self.sdef(t[1]))
        elif isinstance(t, tuple) and t[0] == 'lst':
            off = 0
            al = 1
            offs = []
            for f in t[1]:
                s, a, _ = self.layout(f)
                if t[2]:
                    a = 1
                off = (off + a - 1) // a * a
                offs.append(off)
                off += s
                al = max(al, a)
            off = (off + al - 1) // al * al
            r = (off, al, offs)
        else:
            raise Unsupported('layout ' + str(t))
        self._lay[k] = r
        return r

    def size(self, t):
        return self.layout(t)[0]

    # --- globals
    def gdef(self, name):
        """(type, init value or None, is_constant)"""
        g = self.globals.get(name)
        if g is None:
            s = self._gl.get(name)
            if s is None:
                raise Unsupported('global ' + name)
            s = re.sub(r',\s*(align|comdat|section).*$', '', s)
            c = Cur(tokenize(s), self)
            const = None
            ext = False
            while True:
                x = c.next()
                if x in ('constant', 'global'):
                    const = x == 'constant'
                    break
                if x in ('external', 'extern_weak'):
                    ext = True
                if x == 'thread_local' and c.peek() == '(':
                    while c.next() != ')':
                        pass
            t = c.type()
            v = None
            if not ext and c.peek() is not None:
                v = c.value(t)
            g = (t, v, const)
            self.globals[name] = g
        return g

    def never_stored(self, name):
        """True if the only uses of the global in the whole module are direct loads"""
        r = self._constg.get(name)
        if r is None:
            pat = re.compile(r'@(?:"%s"|%s)(?![-A-Za-z$._0-9])' % (re.escape(name), re.escape(name)))
            r = True
            for m in pat.finditer(self.text):
                ls = self.text.rfind('\n', 0, m.start()) + 1
                line = self.text[ls:self.text.find('\n', m.start())]
                if line.startswith('@') and m.start() == ls:
                    continue
                if line.startswith('$'):
                    continue
                if re.match(r'^\s+%\S+ = load [^,]+, ptr @', line):
                    continue
                r = False
                break
            self._constg[name] = r
        return r

    def const_int(self, name):
        t, v, _ = self.gdef(name)
        if v[0] == 'zero':
            return 0
        return v[1]


def basename(dem):
    """qualified name without return type, template arguments and parameters"""
    r = _bn.get(dem)
    if r is None:
        r = _bn[dem] = _basename(dem)
    return r


_bn = {}


def _basename(dem):
    s = dem.replace('(anonymous namespace)', '@anon@')
    res = ''
    i = d = 0       # d: depth inside <>, () or {}; groups collapse to nothing, () and {lambda}
    while i < len(s):
        if s.startswith('operator', i) and d == 0 and (i == 0 or s[i - 1] in ': ') and not re.match(r'operator\w', s[i:]):
            m = re.match(r'operator(<<=|>>=|<=>|->\*|<<|>>|<=|>=|->|<|>|\(\)|\[\]| (?:new|delete)(?:\[\])?|[^\w\s(<]+| [\w: ]+[*&]*)?', s[i:])
            res += m.group().replace(' ', '\x01')
            i += m.end()
            continue
        ch = s[i]
        if ch in '<({':
            if d == 0 and ch != '<':
                res += '(' if ch == '(' else '{'
            d += 1
        elif ch in '>)}':
            if not (ch == '>' and s[i - 1] == '-'):
                d -= 1
                if d == 0 and ch != '>':
                    res += ')' if ch == ')' else '}'
        elif d == 0:
            res += ch
        i += 1
    toks = res.replace(' ()', '()').split()
    pick = [t for t in toks if t.endswith('()')]
    t = pick[-1][:-2] if pick else (toks[-1] if toks else dem)
    return t.replace('\x01', ' ').replace('@anon@', '(anon)')
