"""Parser for the subset of textual LLVM IR (clang 18, opaque pointers) that the verifier executes."""
import re

TOK = re.compile(r'''\s*(?:(?P<str>c?"(?:[^"\\]|\\.)*")|(?P<id>[%@!$#][-a-zA-Z$._0-9]+|[%@]"[^"]*")|(?P<num>-?\d+\.\d+(?:e[+-]?\d+)?|0x[KLMHR]?[0-9A-Fa-f]+|-?\d+)|(?P<word>[a-zA-Z_][-a-zA-Z0-9_.]*)|(?P<p>\.\.\.|[(){}\[\]<>,=*:|]))''')


class ParseError(Exception):
    pass


def tokenize(s):
    out, i, n = [], 0, len(s)
    while i < n:
        m = TOK.match(s, i)
        if not m:
            if s[i:].strip() == "":
                break
            if s[i:].lstrip().startswith("!"):
                # metadata literal such as !{...}: ignore the rest
                break
            raise ParseError("token: " + s[i:i + 60])
        out.append(m.group(0).strip())
        i = m.end()
    return out


# ---- types -------------------------------------------------------------------------------------------
class T:
    """kind: int(w) fp(name) ptr void array(n,t) struct(ts) label metadata vec(n,t)"""
    __slots__ = ("k", "w", "n", "t", "ts", "packed")

    def __init__(self, k, w=0, n=0, t=None, ts=None, packed=False):
        self.k, self.w, self.n, self.t, self.ts, self.packed = k, w, n, t, ts, packed

    def __repr__(self):
        return {"int": f"i{self.w}", "fp": f"f{self.w}", "array": f"[{self.n} x {self.t}]", "vec": f"<{self.n} x {self.t}>",
                "struct": "{" + ", ".join(map(repr, self.ts or [])) + "}"}.get(self.k, self.k)

    def __eq__(self, o):
        return repr(self) == repr(o)

    def __hash__(self):
        return hash(repr(self))

    def align(self):
        if self.k == "int":
            b = 1
            while b * 8 < self.w:
                b *= 2
            return min(b, 16)
        if self.k == "fp":
            return {32: 4, 64: 8, 80: 16, 16: 2, 128: 16}[self.w]
        if self.k == "ptr":
            return 8
        if self.k in ("array",):
            return self.t.align()
        if self.k == "vec":
            return self.size()
        if self.k == "struct":
            return 1 if self.packed else max([t.align() for t in self.ts] or [1])
        raise ParseError("align " + self.k)

    def size(self):
        if self.k == "int":
            b = 1
            while b * 8 < self.w:
                b *= 2
            return b if b <= 8 else (self.w + 63) // 64 * 8
        if self.k == "fp":
            return {32: 4, 64: 8, 80: 16, 16: 2, 128: 16}[self.w]
        if self.k == "ptr":
            return 8
        if self.k == "array":
            return self.n * self.t.size()
        if self.k == "vec":
            return self.n * self.t.size()
        if self.k == "struct":
            return self.offsets()[1]
        raise ParseError("size " + self.k)

    def offsets(self):
        o, off = 0, []
        for t in self.ts:
            if not self.packed:
                a = t.align()
                o = (o + a - 1) // a * a
            off.append(o)
            o += t.size()
        if not self.packed:
            a = self.align()
            o = (o + a - 1) // a * a
        return off, o


I1 = T("int", 1)
PTR = T("ptr")


class Ins:
    __slots__ = ("op", "res", "ty", "a", "line")

    def __init__(self, op, res, ty, a, line):
        self.op, self.res, self.ty, self.a, self.line = op, res, ty, a, line


class Func:
    def __init__(self, name, ret, params):
        self.name, self.ret, self.params = name, ret, params
        self.blocks = {}      # label -> [Ins]
        self.order = []


PARAM_ATTR = {"noundef", "nocapture", "readonly", "writeonly", "noalias", "nonnull", "signext", "zeroext", "returned",
              "immarg", "readnone", "nofree", "inreg", "swiftself", "nest", "noreturn", "dead_on_unwind", "writable"}
CC = {"fastcc", "ccc", "coldcc", "tail", "musttail", "notail"}
FAST = {"fast", "nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc", "nuw", "nsw", "exact", "disjoint", "nneg",
        "inbounds", "volatile", "samesign", "nusw"}


class P:
    def __init__(self, toks, mod, line):
        self.t, self.i, self.mod, self.line = toks, 0, mod, line

    def peek(self, k=0):
        return self.t[self.i + k] if self.i + k < len(self.t) else None

    def next(self):
        self.i += 1
        return self.t[self.i - 1]

    def eat(self, x):
        if self.peek() != x:
            raise ParseError(f"expected {x!r} got {self.peek()!r} in {self.line[:160]}")
        self.i += 1

    def maybe(self, x):
        if self.peek() == x:
            self.i += 1
            return True
        return False

    def type(self):
        t = self.next()
        if t == "ptr":
            if self.peek() == "addrspace":
                raise ParseError("addrspace")
            r = PTR
        elif re.fullmatch(r"i\d+", t):
            r = T("int", int(t[1:]))
        elif t == "double":
            r = T("fp", 64)
        elif t == "float":
            r = T("fp", 32)
        elif t == "x86_fp80":
            r = T("fp", 80)
        elif t in ("void", "label", "metadata", "token"):
            r = T(t)
        elif t == "opaque":
            r = T("struct", ts=[])
        elif t == "[":
            n = int(self.next())
            self.eat("x")
            e = self.type()
            self.eat("]")
            r = T("array", n=n, t=e)
        elif t == "<":
            if self.peek() == "{":
                self.next()
                ts = self._types("}")
                self.eat(">")
                r = T("struct", ts=ts, packed=True)
            else:
                n = int(self.next())
                self.eat("x")
                e = self.type()
                self.eat(">")
                r = T("vec", n=n, t=e)
        elif t == "{":
            r = T("struct", ts=self._types("}"))
        elif t.startswith("%"):
            r = self.mod.named_type(t)
        else:
            raise ParseError(f"type {t!r} in {self.line[:200]}")
        if self.peek() == "(":  # function type
            d = 0
            while True:
                x = self.next()
                d += (x == "(") - (x == ")")
                if d == 0:
                    break
        return r

    def _types(self, end):
        ts = []
        if self.maybe(end):
            return ts
        while True:
            ts.append(self.type())
            if self.maybe(end):
                return ts
            self.eat(",")

    def skip_attrs(self):
        while True:
            t = self.peek()
            if t in PARAM_ATTR:
                self.next()
            elif t == "align":
                self.next()
                if self.peek() == "(":
                    self.paren()
                else:
                    self.next()
            elif t in ("dereferenceable", "dereferenceable_or_null", "sret", "byval", "noundef", "elementtype", "captures",
                       "nofpclass", "range", "initializes", "memory", "allocsize") and self.peek(1) == "(":
                self.next()
                self.paren()
            else:
                return

    def paren(self):
        d = 0
        while True:
            x = self.next()
            d += (x == "(") - (x == ")")
            if d == 0:
                return

    def value(self, ty):
        """-> ('local',name) ('const',python) ('global',name) ('undef',) ('null',) ('zero',) ('agg',[...]) ('ce',...)"""
        t = self.next()
        if t.startswith("%"):
            return ("local", t[1:].strip('"'))
        if t.startswith("@"):
            return ("global", t[1:].strip('"'))
        if t == "true":
            return ("int", 1)
        if t == "false":
            return ("int", 0)
        if t == "null":
            return ("null",)
        if t in ("undef", "poison"):
            return ("undef",)
        if t == "zeroinitializer":
            return ("zero",)
        if t == "none":
            return ("undef",)
        if t.startswith('c"'):
            s = t[2:-1]
            b = bytearray()
            i = 0
            while i < len(s):
                if s[i] == "\\":
                    b.append(int(s[i + 1:i + 3], 16))
                    i += 3
                else:
                    b.append(ord(s[i]))
                    i += 1
            return ("agg", [("int", x) for x in b])
        if ty.k == "fp":
            if t.startswith("0x"):
                if t[2] in "KLMHR":
                    return ("fpraw", t)
                import struct
                return ("fp", struct.unpack(">d", bytes.fromhex(t[2:].rjust(16, "0")))[0])
            return ("fp", float(t))
        if re.fullmatch(r"-?\d+", t):
            return ("int", int(t))
        if t in ("[", "{", "<"):
            end = {"[": "]", "{": "}", "<": ">"}[t]
            if t == "<" and self.peek() == "{":
                self.next()
                vs = self._vals("}")
                self.eat(">")
                return ("agg", vs)
            return ("agg", self._vals(end))
        if t == "getelementptr":
            while self.peek() in FAST or self.peek() == "inrange":
                if self.next() == "inrange" and self.peek() == "(":
                    self.paren()
            self.eat("(")
            bt = self.type()
            self.eat(",")
            self.type()
            base = self.value(PTR)
            idx = []
            while self.maybe(","):
                it = self.type()
                idx.append((it, self.value(it)))
            self.eat(")")
            return ("gep", bt, base, idx)
        if t in ("bitcast", "ptrtoint", "inttoptr", "trunc", "zext", "sext", "addrspacecast"):
            self.eat("(")
            st = self.type()
            v = self.value(st)
            self.eat("to")
            dt = self.type()
            self.eat(")")
            return ("cast", t, st, v, dt)
        if t in ("sub", "add"):
            while self.peek() in FAST:
                self.next()
            self.eat("(")
            at = self.type()
            av = self.value(at)
            self.eat(",")
            btt = self.type()
            bv = self.value(btt)
            self.eat(")")
            return ("cebin", t, at, av, bv)
        if t == "dso_local_equivalent":
            return self.value(ty)
        raise ParseError(f"value {t!r} in {self.line[:200]}")

    def _vals(self, end):
        vs = []
        if self.maybe(end):
            return vs
        while True:
            t = self.type()
            vs.append(self.value(t))
            if self.maybe(end):
                return vs
            self.eat(",")

    def tv(self):
        t = self.type()
        self.skip_attrs()
        return t, self.value(t)


class Module:
    def __init__(self, text):
        self.types = {}      # name -> source string, parsed lazily
        self._named = {}
        self.funcs = {}
        self.globals = {}    # name -> (T, init or None, is_const)
        self.text = text
        self.fn_src = {}
        self.decls = set()
        lines = text.split("\n")
        i = 0
        while i < len(lines):
            ln = lines[i]
            if ln.startswith("%") and " = type " in ln:
                a, b = ln.split(" = type ", 1)
                self.types[a] = b
            elif ln.startswith("@") and " = " in ln:
                self._global_line(ln)
            elif ln.startswith("define "):
                j = i
                while lines[j] != "}":
                    j += 1
                m = re.search(r"@(\"[^\"]+\"|[-a-zA-Z$._0-9]+)\(", ln)
                self.fn_src[m.group(1).strip('"')] = lines[i:j + 1]
                i = j
            elif ln.startswith("declare "):
                m = re.search(r"@(\"[^\"]+\"|[-a-zA-Z$._0-9]+)\(", ln)
                self.decls.add(m.group(1).strip('"'))
            i += 1
        self._glob_cache = {}

    def named_type(self, t):
        if t not in self._named:
            src = self.types.get(t)
            if src is None:
                raise ParseError("unknown type " + t)
            self._named[t] = T("struct", ts=[])  # recursion guard
            self._named[t] = P(tokenize(src), self, src).type()
        return self._named[t]

    def _global_line(self, ln):
        m = re.match(r"@(\"[^\"]+\"|[-a-zA-Z$._0-9]+) = (.*)", ln)
        self.globals[m.group(1).strip('"')] = m.group(2)

    def global_def(self, name):
        """-> (T, init value or None, constant?)"""
        if name in self._glob_cache:
            return self._glob_cache[name]
        src = self.globals.get(name)
        if src is None:
            return None
        m = re.search(r"\b(global|constant)\s", src)
        if not m:
            return None
        const = m.group(1) == "constant"
        external = bool(re.match(r"external|extern_weak", src))
        p = P(tokenize(src[m.end():]), self, src)
        ty = p.type()
        init = None
        if not external and p.peek() not in (None, ","):
            init = p.value(ty)
        self._glob_cache[name] = (ty, init, const)
        return self._glob_cache[name]

    def func(self, name):
        if name in self.funcs:
            return self.funcs[name]
        if name not in self.fn_src:
            return None
        src = self.fn_src[name]
        head = src[0]
        m = re.search(r"@(\"[^\"]+\"|[-a-zA-Z$._0-9]+)\(", head)
        pre = head[:m.start()]
        # return type: last type in the prefix
        toks = tokenize(pre)
        rett = None
        for st in range(len(toks)):
            try:
                p = P(toks[st:], self, pre)
                ty = p.type()
                if p.peek() is None:
                    rett = ty
                    break
            except (ParseError, IndexError):
                continue
        if rett is None:
            raise ParseError("return type " + pre)
        depth, k = 0, m.end() - 1
        while True:
            depth += (head[k] == "(") - (head[k] == ")")
            if depth == 0:
                break
            k += 1
        p = P(tokenize(head[m.end():k]), self, head)
        params = []
        while p.peek() is not None:
            if p.peek() == "...":
                p.next()
                continue
            ty = p.type()
            p.skip_attrs()
            nm = p.next()[1:].strip('"') if p.peek() and p.peek().startswith("%") else str(len(params))
            params.append((nm, ty))
            if p.peek() == ",":
                p.next()
        f = Func(name, rett, params)
        cur = None
        nunnamed = sum(1 for nm, _ in params if nm.isdigit())
        body = src[1:-1]
        i = 0
        while i < len(body):
            ln = body[i]
            i += 1
            s = ln.split(";", 1)[0].rstrip() if not ('"' in ln) else ln.rstrip()
            if not s.strip():
                continue
            lm = re.match(r'^("[^"]+"|[-a-zA-Z$._0-9]+):', ln)
            if lm and not ln.startswith(" "):
                cur = lm.group(1).strip('"')
                f.blocks[cur] = []
                f.order.append(cur)
                continue
            if cur is None:
                cur = str(nunnamed)
                f.blocks[cur] = []
                f.order.append(cur)
            st = s.strip()
            if st.startswith("switch ") and "]" not in st:
                while "]" not in st:
                    st += " " + body[i].strip()
                    i += 1
            if " landingpad " in " " + st or st.startswith(("cleanup", "catch ", "filter ")):
                if "landingpad" in st:
                    f.blocks[cur].append(Ins("landingpad", st.split(" = ")[0][1:], None, None, st))
                continue
            if re.match(r"(%\S+ = )?invoke ", st) and " unwind label" not in st:
                st += " " + body[i].strip()
                i += 1
            f.blocks[cur].append(self._ins(st))
        self.funcs[name] = f
        return f

    def _ins(self, st):
        # strip metadata attachments
        st0 = st
        st = re.sub(r",?\s*![a-zA-Z.]+ ![0-9]+", "", st)
        st = re.sub(r",\s*!nosanitize !\d+", "", st)
        res = None
        m = re.match(r'^%("[^"]+"|[-a-zA-Z$._0-9]+) = (.*)$', st)
        if m:
            res, st = m.group(1).strip('"'), m.group(2)
        p = P(tokenize(st), self, st0)
        op = p.next()
        if op in ("tail", "musttail", "notail"):
            op = p.next()
        A = lambda ty, *a: Ins(op, res, ty, a, st0)

        def fast():
            fl = set()
            while p.peek() in FAST:
                fl.add(p.next())
            return fl
        if op == "ret":
            t = p.type()
            return A(t, None if t.k == "void" else p.value(t))
        if op == "br":
            if p.peek() == "label":
                p.next()
                return A(None, p.next()[1:].strip('"'))
            t, c = p.tv()
            p.eat(",")
            p.eat("label")
            a = p.next()[1:].strip('"')
            p.eat(",")
            p.eat("label")
            b = p.next()[1:].strip('"')
            return A(None, c, a, b)
        if op == "switch":
            t, v = p.tv()
            p.eat(",")
            p.eat("label")
            d = p.next()[1:].strip('"')
            p.eat("[")
            cases = []
            while not p.maybe("]"):
                ct = p.type()
                cv = p.value(ct)
                p.eat(",")
                p.eat("label")
                cases.append((cv[1], p.next()[1:].strip('"')))
            return A(t, v, d, cases)
        if op in ("unreachable", "resume"):
            return A(None)
        if op in ("add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "shl", "lshr", "ashr", "and", "or", "xor", "fadd",
                  "fsub", "fmul", "fdiv", "frem"):
            fl = fast()
            t = p.type()
            a = p.value(t)
            p.eat(",")
            b = p.value(t)
            return A(t, a, b, fl)
        if op == "fneg":
            fast()
            t, a = p.tv()
            return A(t, a)
        if op in ("icmp", "fcmp"):
            fast()
            pr = p.next()
            t = p.type()
            a = p.value(t)
            p.eat(",")
            b = p.value(t)
            return A(t, pr, a, b)
        if op in ("zext", "sext", "trunc", "bitcast", "ptrtoint", "inttoptr", "sitofp", "uitofp", "fptosi", "fptoui", "fpext",
                  "fptrunc"):
            fast()
            t, a = p.tv()
            p.eat("to")
            return A(p.type(), a, t)
        if op == "select":
            fast()
            ct, c = p.tv()
            p.eat(",")
            t, a = p.tv()
            p.eat(",")
            _, b = p.tv()
            return A(t, c, a, b)
        if op == "phi":
            fast()
            t = p.type()
            inc = []
            while True:
                p.eat("[")
                v = p.value(t)
                p.eat(",")
                inc.append((v, p.next()[1:].strip('"')))
                p.eat("]")
                if not p.maybe(","):
                    break
            return A(t, inc)
        if op == "alloca":
            p.maybe("inalloca")
            t = p.type()
            n = None
            if p.maybe(",") and p.peek() != "align":
                nt, n = p.tv()
            return A(t, n)
        if op == "load":
            at = p.maybe("atomic")
            p.maybe("volatile")
            t = p.type()
            p.eat(",")
            pt, a = p.tv()
            return A(t, a)
        if op == "store":
            p.maybe("atomic")
            p.maybe("volatile")
            t, v = p.tv()
            p.eat(",")
            pt, a = p.tv()
            return A(t, v, a)
        if op == "getelementptr":
            fast()
            bt = p.type()
            p.eat(",")
            _, base = p.tv()
            idx = []
            while p.maybe(","):
                it = p.type()
                idx.append((it, p.value(it)))
            return A(bt, base, idx)
        if op in ("call", "invoke"):
            while True:
                x = p.peek()
                if x in FAST or x in CC or x in PARAM_ATTR or x in ("fastcc",):
                    p.next()
                elif x in ("dereferenceable", "align", "dereferenceable_or_null", "range", "nofpclass"):
                    p.skip_attrs()
                else:
                    break
            t = p.type()
            callee = p.value(PTR)
            p.eat("(")
            args = []
            if not p.maybe(")"):
                while True:
                    if p.peek() == "metadata":
                        # skip
                        d = 0
                        while not (d == 0 and p.peek() in (",", ")")):
                            x = p.next()
                            d += (x in "({") - (x in ")}")
                        args.append((T("metadata"), ("undef",)))
                    else:
                        args.append(p.tv())
                    if p.maybe(")"):
                        break
                    p.eat(",")
            dest = None
            if op == "invoke":
                while p.peek() != "to":
                    p.next()
                p.next()
                p.eat("label")
                dest = p.next()[1:].strip('"')
            return A(t, callee, args, dest)
        if op == "extractvalue":
            t, a = p.tv()
            ix = []
            while p.maybe(","):
                ix.append(int(p.next()))
            return A(t, a, ix)
        if op == "insertvalue":
            t, a = p.tv()
            p.eat(",")
            t2, b = p.tv()
            ix = []
            while p.maybe(","):
                ix.append(int(p.next()))
            return A(t, a, b, ix)
        if op == "freeze":
            t, a = p.tv()
            return A(t, a)
        if op in ("extractelement", "insertelement", "shufflevector", "fence", "atomicrmw", "cmpxchg", "va_arg"):
            return Ins("unsupported", res, None, (op,), st0)
        raise ParseError("instruction " + st0[:200])


# ---- loops -------------------------------------------------------------------------------------------
def succs(f, b):
    last = f.blocks[b][-1]
    if last.op == "br":
        return [last.a[0]] if len(last.a) == 1 else [last.a[1], last.a[2]]
    if last.op == "switch":
        return [last.a[1]] + [l for _, l in last.a[2]]
    if last.op == "invoke":
        return [last.a[2]]
    return []


def natural_loops(f):
    """header -> set of blocks (natural loops, merged per header); raises on irreducible control flow."""
    if hasattr(f, "_loops"):
        return f._loops
    entry = f.order[0]
    # iterative dominators
    order, seen = [], set()

    stack = [(entry, iter(succs(f, entry)))]
    seen.add(entry)
    while stack:
        b, it = stack[-1]
        for s in it:
            if s not in seen:
                seen.add(s)
                stack.append((s, iter(succs(f, s))))
                break
        else:
            order.append(b)
            stack.pop()
    rpo = order[::-1]
    num = {b: i for i, b in enumerate(rpo)}
    preds = {b: [] for b in rpo}
    for b in rpo:
        for s in succs(f, b):
            preds[s].append(b)
    idom = {entry: entry}
    ch = True
    while ch:
        ch = False
        for b in rpo[1:]:
            new = None
            for p_ in preds[b]:
                if p_ in idom:
                    if new is None:
                        new = p_
                    else:
                        x, y = p_, new
                        while x != y:
                            while num[x] > num[y]:
                                x = idom[x]
                            while num[y] > num[x]:
                                y = idom[y]
                        new = x
            if idom.get(b) != new:
                idom[b] = new
                ch = True

    def dom(a, b):
        while True:
            if a == b:
                return True
            if b == entry:
                return False
            b = idom[b]
    loops = {}
    for b in rpo:
        for s in succs(f, b):
            if num[s] <= num[b]:
                if not dom(s, b):
                    raise ParseError("irreducible loop in " + f.name)
                body = loops.setdefault(s, {s})
                st = [b]
                while st:
                    x = st.pop()
                    if x not in body:
                        body.add(x)
                        st += preds[x]
    f._loops = loops
    return loops
