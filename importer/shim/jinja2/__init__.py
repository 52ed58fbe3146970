"""Stand-in for the subset of Jinja2 that code templates use (Jinja2 itself is not installable here).

Implements the documented semantics: {{ }} output, {# #} comments, {% if/elif/else/for/set/include/raw/macro/with %},
whitespace control with '-', trim_blocks/lstrip_blocks, filters, tests, loop variables, undefined values that render
as nothing and are false, and removal of one trailing newline of a template."""
import os, re

class TemplateError(Exception): pass
class TemplateSyntaxError(TemplateError): pass
class TemplateNotFound(TemplateError, IOError): pass
class UndefinedError(TemplateError): pass

class Undefined(object):
    def __init__(self, name=None): self._n = name
    def _fail(self, *a, **k): raise UndefinedError("%r is undefined" % (self._n,))
    def __str__(self): return ""
    def __bool__(self): return False
    def __iter__(self): return iter(())
    def __len__(self): return 0
    def __eq__(self, o): return isinstance(o, Undefined)
    def __ne__(self, o): return not self == o
    def __hash__(self): return id(type(self))
    def __getattr__(self, n):
        if n[:2] == "__": raise AttributeError(n)
        self._fail()
    __getitem__ = __call__ = __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __truediv__ = _fail
    __floordiv__ = __mod__ = __lt__ = __gt__ = __le__ = __ge__ = __int__ = __float__ = _fail
class StrictUndefined(Undefined):
    __str__ = __bool__ = __iter__ = __len__ = Undefined._fail

# ---------------------------------------------------------------------------------------------- expressions
TOK = re.compile(r"""\s*(?:(?P<num>\d+\.\d+(?:[eE][+-]?\d+)?|\d+[eE][+-]?\d+|\d+)|(?P<name>[A-Za-z_]\w*)
    |(?P<str>"(?:\\.|[^"\\])*"|'(?:\\.|[^'\\])*')|(?P<op>\*\*|//|==|!=|<=|>=|[-+*/%~<>=()\[\]{},.:|]))""", re.X | re.S)

def tokenize(s):
    out, i = [], 0
    s = s.rstrip()
    while i < len(s):
        # 'a.0.1' : digits after a dot are integer subscripts
        if out and out[-1] == ("op", "."):
            m = re.compile(r"\s*(\d+)").match(s, i)
            if m: out.append(("num", m.group(1))); i = m.end(); continue
        m = TOK.match(s, i)
        if not m: raise TemplateSyntaxError("unexpected %r in %r" % (s[i:i + 10], s))
        out.append((m.lastgroup, m.group(m.lastgroup))); i = m.end()
    return out + [("end", "")]

class Parser(object):
    def __init__(self, s, env): self.t, self.i, self.env, self.s = tokenize(s), 0, env, s
    @property
    def cur(self): return self.t[self.i]
    def next(self): self.i += 1; return self.t[self.i - 1]
    def is_op(self, *v): return self.cur[0] == "op" and self.cur[1] in v
    def is_kw(self, *v): return self.cur[0] == "name" and self.cur[1] in v
    def accept(self, v):
        if self.is_op(v) or self.is_kw(v): self.next(); return True
        return False
    def expect(self, v):
        if not self.accept(v): raise TemplateSyntaxError("expected %r in %r, got %r" % (v, self.s, self.cur[1]))
    def end(self):
        if self.cur[0] != "end": raise TemplateSyntaxError("unexpected %r in %r" % (self.cur[1], self.s))
    def ident(self):
        k, v = self.next()
        if k != "name": raise TemplateSyntaxError("expected a name in %r" % self.s)
        return v

    def expr(self, cond=True):
        a = self.or_()
        while cond and self.is_kw("if"):
            self.next(); c = self.or_(); b = None
            if self.accept("else"): b = self.expr()
            a = (lambda a, c, b: lambda x: a(x) if c(x) else (b(x) if b else Undefined()))(a, c, b)
        return a
    def or_(self):
        a = self.and_()
        while self.accept("or"):
            b = self.and_(); a = (lambda a, b: lambda x: a(x) or b(x))(a, b)
        return a
    def and_(self):
        a = self.not_()
        while self.accept("and"):
            b = self.not_(); a = (lambda a, b: lambda x: a(x) and b(x))(a, b)
        return a
    def not_(self):
        if self.accept("not"):
            a = self.not_(); return lambda x: not a(x)
        return self.compare()
    def compare(self):
        first, ops = self.add(), []
        cmp = {"==": lambda a, b: a == b, "!=": lambda a, b: a != b, "<": lambda a, b: a < b, ">": lambda a, b: a > b,
               "<=": lambda a, b: a <= b, ">=": lambda a, b: a >= b}
        while True:
            if self.is_op(*cmp): ops.append((cmp[self.next()[1]], self.add()))
            elif self.is_kw("in"): self.next(); ops.append((lambda a, b: a in b, self.add()))
            elif self.is_kw("not") and self.t[self.i + 1] == ("name", "in"):
                self.next(); self.next(); ops.append((lambda a, b: a not in b, self.add()))
            else: break
        if not ops: return first
        def run(x):
            a = first(x)
            for f, e in ops:
                b = e(x)
                if not f(a, b): return False
                a = b
            return True
        return run
    def binary(self, sub, ops):
        a = sub()
        while self.is_op(*ops):
            f = ops[self.next()[1]]; b = sub(); a = (lambda f, a, b: lambda x: f(a(x), b(x)))(f, a, b)
        return a
    def add(self): return self.binary(self.concat, {"+": lambda a, b: a + b, "-": lambda a, b: a - b})
    def concat(self): return self.binary(self.mul, {"~": lambda a, b: str(a) + str(b)})
    def mul(self): return self.binary(self.pow, {"*": lambda a, b: a * b, "/": lambda a, b: a / b, "//": lambda a, b: a // b, "%": lambda a, b: a % b})
    def pow(self): return self.binary(self.unary, {"**": lambda a, b: a ** b})
    def unary(self, filt=True):
        if self.is_op("-"): self.next(); a = self.unary(False); r = lambda x: -a(x)
        elif self.is_op("+"): self.next(); a = self.unary(False); r = lambda x: +a(x)
        else: r = self.primary()
        r = self.postfix(r)
        return self.filters(r) if filt else r
    def primary(self):
        k, v = self.next()
        if k == "num":
            n = int(v) if v.isdigit() else float(v); return lambda x: n
        if k == "str":
            s = "".join(self._unq(v))
            while self.cur[0] == "str": s += self._unq(self.next()[1])
            return lambda x: s
        if k == "name":
            lit = {"true": True, "True": True, "false": False, "False": False, "none": None, "None": None}
            if v in lit: return lambda x: lit[v]
            return lambda x: x.lookup(v)
        if v == "(":
            if self.accept(")"): return lambda x: ()
            e = self.tuple_(); self.expect(")"); return e
        if v == "[":
            items = []
            while not self.is_op("]"):
                items.append(self.expr())
                if not self.accept(","): break
            self.expect("]"); return lambda x: [e(x) for e in items]
        if v == "{":
            items = []
            while not self.is_op("}"):
                a = self.expr(); self.expect(":"); items.append((a, self.expr()))
                if not self.accept(","): break
            self.expect("}"); return lambda x: {a(x): b(x) for a, b in items}
        raise TemplateSyntaxError("unexpected %r in %r" % (v, self.s))
    @staticmethod
    def _unq(v): return re.sub(r"\\(.)", lambda m: {"n": "\n", "t": "\t"}.get(m.group(1), m.group(1)), v[1:-1], flags=re.S)
    def tuple_(self):
        items, tup = [self.expr()], False
        while self.accept(","):
            tup = True
            if self.is_op(")") or self.cur[0] == "end": break
            items.append(self.expr())
        return (lambda x: tuple(e(x) for e in items)) if tup else items[0]
    def args(self):
        pos, kw = [], []
        while not self.is_op(")"):
            if self.cur[0] == "name" and self.t[self.i + 1] == ("op", "="):
                n = self.ident(); self.next(); kw.append((n, self.expr()))
            else: pos.append(self.expr())
            if not self.accept(","): break
        self.expect(")")
        return lambda x: ([p(x) for p in pos], {n: e(x) for n, e in kw})
    def postfix(self, r):
        while True:
            if self.accept("."):
                k, v = self.next()
                if k == "num": r = (lambda r, i: lambda x: subscript(r(x), i))(r, int(v))
                elif k == "name": r = (lambda r, n: lambda x: attribute(r(x), n))(r, v)
                else: raise TemplateSyntaxError("bad attribute in %r" % self.s)
            elif self.accept("["):
                lo = hi = st = None; sl = False
                if not self.is_op(":"): lo = self.tuple_()
                if self.accept(":"):
                    sl = True
                    if not self.is_op(":", "]"): hi = self.expr()
                    if self.accept(":") and not self.is_op("]"): st = self.expr()
                self.expect("]")
                if sl: r = (lambda r, l, h, s: lambda x: r(x)[slice(l and l(x), h and h(x), s and s(x))])(r, lo, hi, st)
                else: r = (lambda r, l: lambda x: subscript(r(x), l(x)))(r, lo)
            elif self.is_op("("):
                self.next(); a = self.args()
                def call(x, r=r, a=a):
                    p, k = a(x); return r(x)(*p, **k)
                r = call
            else: return r
    def filters(self, r):
        while True:
            if self.accept("|"):
                n = self.ident()
                while self.accept("."): n += "." + self.ident()
                a = (lambda x: ([], {}))
                if self.accept("("): a = self.args()
                if n not in self.env.filters: raise TemplateSyntaxError("no filter named %r" % n)
                def run(x, r=r, a=a, f=self.env.filters[n]):
                    p, k = a(x); return f(r(x), *p, **k)
                r = run
            elif self.is_kw("is"):
                self.next(); neg = self.accept("not"); n = self.ident()
                a = (lambda x: ([], {}))
                if self.accept("("): a = self.args()
                elif self.cur[0] in ("num", "str") or (self.cur[0] == "name" and self.cur[1] not in ("and", "or", "if", "else", "is", "not", "in")) or self.is_op("[", "{"):
                    e = self.postfix(self.primary()); a = (lambda e: lambda x: ([e(x)], {}))(e)
                if n not in self.env.tests: raise TemplateSyntaxError("no test named %r" % n)
                def run(x, r=r, a=a, f=self.env.tests[n], neg=neg):
                    p, k = a(x); return bool(f(r(x), *p, **k)) != neg
                r = run
            else: return r

def attribute(o, n):
    try: return getattr(o, n)
    except AttributeError: pass
    try: return o[n]
    except (TypeError, LookupError, AttributeError, IndexError): return Undefined(n)
def subscript(o, i):
    try: return o[i]
    except (TypeError, LookupError, AttributeError, IndexError): pass
    if isinstance(i, str):
        try: return getattr(o, i)
        except AttributeError: pass
    return Undefined(i)

def _round(v, precision=0, method="common"):
    import math
    if method == "common": return round(v, precision)
    f = {"ceil": math.ceil, "floor": math.floor}[method]; return f(v * 10 ** precision) / 10 ** precision
def _int(v, default=0, base=10):
    try: return int(v, base) if isinstance(v, str) else int(v)
    except (TypeError, ValueError):
        try: return int(float(v))
        except (TypeError, ValueError): return default
def _float(v, default=0.0):
    try: return float(v)
    except (TypeError, ValueError): return default
def _default(v, d="", boolean=False): return d if isinstance(v, Undefined) or (boolean and not v) else v
def _map(v, *a, **k):
    if "attribute" in k: return [attribute(x, k["attribute"]) for x in v]
    return [FILTERS[a[0]](x, *a[1:]) for x in v]
def _indent(s, width=4, first=False):
    r = ("\n" + " " * width).join(s.split("\n")); return " " * width + r if first else r
def _sel(neg, attr):
    def f(v, *a):
        v = list(v); get = (lambda x: attribute(x, a[0])) if attr else (lambda x: x); a = a[1:] if attr else a
        t = TESTS[a[0]] if a else (lambda x, *r: bool(x))
        return [x for x in v if bool(t(get(x), *a[1:])) != neg]
    return f
def _slice(v, n): v = list(v); q, r = divmod(len(v), n); o = []; i = 0; [o.append(None) for _ in range(0)]; return [v[k * q + min(k, r):(k + 1) * q + min(k + 1, r)] for k in range(n)]
FILTERS = {"length": lambda v: len(v), "count": lambda v: len(v), "join": lambda v, d="", attribute=None: str(d).join(str(x if attribute is None else globals()["attribute"](x, attribute)) for x in v),
    "int": _int, "float": _float, "string": str, "lower": lambda s: str(s).lower(), "upper": lambda s: str(s).upper(), "title": lambda s: str(s).title(),
    "capitalize": lambda s: str(s).capitalize(), "trim": lambda s, c=None: str(s).strip(c), "replace": lambda s, a, b, n=-1: str(s).replace(a, b, n),
    "default": _default, "d": _default, "first": lambda v: next(iter(v), Undefined()), "last": lambda v: list(v)[-1] if len(list(v)) else Undefined(),
    "list": list, "sum": lambda v, attribute=None, start=0: sum(v, start), "min": lambda v: min(v), "max": lambda v: max(v), "abs": abs, "round": _round,
    "sort": lambda v, reverse=False: sorted(v, reverse=reverse), "reverse": lambda v: v[::-1] if isinstance(v, str) else list(v)[::-1],
    "unique": lambda v: list(dict.fromkeys(v)), "map": _map, "format": lambda s, *a, **k: s % (a or k), "indent": _indent, "safe": lambda s: s,
    "tojson": lambda v: __import__("json").dumps(v), "items": lambda d: d.items(), "dictsort": lambda d: sorted(d.items()),
    "select": _sel(False, False), "reject": _sel(True, False), "selectattr": _sel(False, True), "rejectattr": _sel(True, True), "slice": _slice,
    "batch": lambda v, n: [list(v)[i:i + n] for i in range(0, len(list(v)), n)], "wordcount": lambda s: len(s.split()), "attr": lambda o, n: getattr(o, n, Undefined(n))}
FILTERS["e"] = FILTERS["escape"] = lambda s: str(s).replace("&", "&amp;").replace("<", "&lt;").replace(">", "&gt;").replace('"', "&#34;").replace("'", "&#39;")
TESTS = {"defined": lambda v: not isinstance(v, Undefined), "undefined": lambda v: isinstance(v, Undefined), "none": lambda v: v is None,
    "true": lambda v: v is True, "false": lambda v: v is False, "boolean": lambda v: isinstance(v, bool), "number": lambda v: isinstance(v, (int, float)), "integer": lambda v: isinstance(v, int) and not isinstance(v, bool),
    "float": lambda v: isinstance(v, float), "string": lambda v: isinstance(v, str), "iterable": lambda v: hasattr(v, "__iter__"), "mapping": lambda v: isinstance(v, dict),
    "sequence": lambda v: hasattr(v, "__len__") and hasattr(v, "__getitem__"), "odd": lambda v: v % 2 == 1, "even": lambda v: v % 2 == 0, "divisibleby": lambda v, n: v % n == 0,
    "equalto": lambda a, b: a == b, "eq": lambda a, b: a == b, "ne": lambda a, b: a != b, "lt": lambda a, b: a < b, "le": lambda a, b: a <= b, "gt": lambda a, b: a > b, "ge": lambda a, b: a >= b,
    "in": lambda a, b: a in b, "sameas": lambda a, b: a is b, "lower": lambda s: str(s).islower(), "upper": lambda s: str(s).isupper(), "callable": callable}
TESTS["=="], TESTS["!="] = TESTS["eq"], TESTS["ne"]

# ---------------------------------------------------------------------------------------------- templates
class Scope(object):
    def __init__(self, env, vars, parent=None): self.env, self.vars, self.parent = env, vars, parent
    def lookup(self, n):
        s = self
        while s is not None:
            if n in s.vars: return s.vars[n]
            s = s.parent
        return self.env.globals[n] if n in self.env.globals else self.env.undefined(n)
    def flat(self):
        d = self.parent.flat() if self.parent else {}
        d.update(self.vars); return d

class Loop(object):
    def __init__(self, items, parent_depth=0):
        self._i, self._items, self.length = -1, items, len(items)
        self.depth0 = parent_depth; self.depth = parent_depth + 1
    index0 = property(lambda s: s._i)
    index = property(lambda s: s._i + 1)
    first = property(lambda s: s._i == 0)
    last = property(lambda s: s._i == s.length - 1)
    revindex = property(lambda s: s.length - s._i)
    revindex0 = property(lambda s: s.length - s._i - 1)
    previtem = property(lambda s: s._items[s._i - 1] if s._i else Undefined("previtem"))
    nextitem = property(lambda s: s._items[s._i + 1] if s._i + 1 < s.length else Undefined("nextitem"))
    def cycle(self, *a): return a[self._i % len(a)]

class Namespace(object):
    def __init__(self, **k): self.__dict__.update(k)

def assign(scope, names, v):
    if len(names) == 1 and not names[0].endswith(","): scope.vars[names[0]] = v
    else:
        names = [n.rstrip(",") for n in names]
        v = list(v)
        if len(v) != len(names): raise ValueError("cannot unpack")
        for n, w in zip(names, v): scope.vars[n] = w

class Template(object):
    def __new__(cls, source="", **kw):
        return Environment(**kw).from_string(source)
    @classmethod
    def _make(cls, env, source, name=None):
        self = object.__new__(cls)
        self.environment, self.name = env, name
        source = source.replace("\r\n", "\n").replace("\r", "\n")
        if not env.keep_trailing_newline and source.endswith("\n"): source = source[:-1]
        self.tokens = list(self._lex(source)); self.pos = 0
        self.body, end = self._block(())
        return self
    def __init__(self, *a, **k): pass
    def _lex(self, s):
        env, i, trim, after_block = self.environment, 0, False, False
        for m in re.finditer(r"\{%([-+]?)\s*raw\s*([-+]?)%\}(.*?)\{%([-+]?)\s*endraw\s*([-+]?)%\}|\{\{([-+]?)((?:\"(?:\\.|[^\"\\])*\"|'(?:\\.|[^'\\])*'|.)*?)([-+]?)\}\}|\{%([-+]?)(.*?)([-+]?)%\}|\{#([-+]?)(.*?)([-+]?)#\}", s, re.S):
            text = s[i:m.start()]
            g = m.groups()
            raw = g[2] is not None
            kind = "raw" if raw else "out" if g[6] is not None else "blk" if g[9] is not None else "com"
            l = g[0] if raw else g[5] if kind == "out" else g[8] if kind == "blk" else g[11]
            r = g[4] if raw else g[7] if kind == "out" else g[10] if kind == "blk" else g[13]
            if trim: text = text.lstrip()
            elif after_block and env.trim_blocks and text.startswith("\n"): text = text[1:]
            if l == "-": text = text.rstrip()
            elif env.lstrip_blocks and kind in ("blk", "com") and l != "+":
                line = text.rfind("\n") + 1
                if (line or i == 0 or text[:0] == "\n") and not text[line:].strip(): text = text[:line]
            if text: yield ("text", text)
            if raw: yield ("text", g[2])
            elif kind == "out": yield ("out", g[6].strip())
            elif kind == "blk": yield ("blk", g[9].strip())
            trim, after_block, i = r == "-", kind in ("blk", "com", "raw") and r != "+", m.end()
        text = s[i:]
        if trim: text = text.lstrip()
        elif after_block and env.trim_blocks and text.startswith("\n"): text = text[1:]
        if text: yield ("text", text)
    def _block(self, stop):
        out = []
        while self.pos < len(self.tokens):
            k, v = self.tokens[self.pos]; self.pos += 1
            if k == "text": out.append((lambda v: lambda x: v)(v))
            elif k == "out":
                p = Parser(v, self.environment); e = p.tuple_(); p.end()
                out.append((lambda e: lambda x: self._str(e(x)))(e))
            else:
                w = (re.match(r"\w+", v) or [""])[0]
                if w in stop: return out, v
                out.append(self._stmt(w, v[len(w):].strip()))
        if stop: raise TemplateSyntaxError("missing %s" % (stop,))
        return out, None
    def _str(self, v):
        f = self.environment.finalize
        v = f(v) if f else v
        return str(v)
    @staticmethod
    def run(body, x): return "".join(f(x) for f in body)
    def expr(self, s):
        p = Parser(s, self.environment); e = p.tuple_(); p.end(); return e
    def _stmt(self, w, rest):
        if w == "if":
            arms, cond = [], self.expr(rest)
            while True:
                body, end = self._block(("elif", "else", "endif"))
                arms.append((cond, body))
                if end.startswith("elif"): cond = self.expr(end[4:])
                elif end.startswith("else"): cond = lambda x: True
                else: break
            def run(x):
                for c, b in arms:
                    if c(x): return self.run(b, x)
                return ""
            return run
        if w == "for":
            m = re.match(r"(.+?)\s+in\s+(.*)$", rest, re.S)
            names = [n.strip() for n in m.group(1).strip("() ").split(",")]
            if len(names) > 1 or m.group(1).strip().endswith(","): names = [n + "," for n in names if n]
            p = Parser(m.group(2), self.environment); it = p.or_(); cond = None
            if p.accept("if"): cond = p.expr()
            p.accept("recursive"); p.end()
            body, end = self._block(("else", "endfor")); other = []
            if end.startswith("else"): other, _ = self._block(("endfor",))
            def run(x):
                items = list(it(x))
                if cond is not None:
                    keep = []
                    for v in items:
                        s = Scope(x.env, {}, x); assign(s, names, v)
                        if cond(s): keep.append(v)
                    items = keep
                if not items: return self.run(other, x)
                lp, out = Loop(items), []
                for lp._i, v in enumerate(items):
                    s = Scope(x.env, {"loop": lp}, x); assign(s, names, v)
                    out.append(self.run(body, s))
                return "".join(out)
            return run
        if w == "set":
            m = re.match(r"([\w.\s,]+?)\s*=(?!=)\s*(.*)$", rest, re.S)
            if not m:
                name = rest.strip(); body, _ = self._block(("endset",))
                def run(x): x.vars[name] = self.run(body, x); return ""
                return run
            target, e = m.group(1).strip(), self.expr(m.group(2))
            def run(x):
                v = e(x)
                if "." in target:
                    a, b = target.split("."); setattr(x.lookup(a), b, v)
                else:
                    names = [n.strip() for n in target.split(",")]
                    assign(x, [n + "," for n in names if n] if "," in target else names, v)
                return ""
            return run
        if w == "include":
            ign = re.search(r"\s+ignore missing\s*$", rest)
            e = self.expr(re.sub(r"(\s+ignore missing)?(\s+with(out)? context)?\s*$", "", rest))
            def run(x):
                try: t = self.environment.get_template(e(x))
                except TemplateNotFound:
                    if ign: return ""
                    raise
                return self.run(t.body, Scope(x.env, {}, x))
            return run
        if w in ("import", "from"):
            m = re.match(r"(.+?)\s+import\s+(.*)$", rest) if w == "from" else re.match(r"(.+?)\s+as\s+(\w+)$", rest)
            e, what = self.expr(m.group(1)), re.sub(r"\s+with(out)? context$", "", m.group(2))
            def run(x):
                s = Scope(x.env, {}, None); self.run(self.environment.get_template(e(x)).body, s)
                if w == "import": x.vars[what] = Namespace(**s.vars)
                else:
                    for p in what.split(","):
                        q = p.split(" as "); x.vars[q[-1].strip()] = s.vars[q[0].strip()]
                return ""
            return run
        if w == "macro":
            m = re.match(r"(\w+)\s*\((.*)\)$", rest, re.S); name = m.group(1); params = []
            for a in filter(None, (a.strip() for a in m.group(2).split(","))):
                n, _, d = a.partition("="); params.append((n.strip(), self.expr(d) if d else None))
            body, _ = self._block(("endmacro",))
            def run(x):
                def call(*a, **k):
                    s = Scope(x.env, {}, x)
                    for i, (n, d) in enumerate(params):
                        s.vars[n] = a[i] if i < len(a) else k[n] if n in k else d(x) if d else Undefined(n)
                    return self.run(body, s)
                x.vars[name] = call; return ""
            return run
        if w == "with":
            binds = []
            if rest:
                p = Parser(rest, self.environment)
                while True:
                    n = p.ident(); p.expect("="); binds.append((n, p.expr()))
                    if not p.accept(","): break
                p.end()
            body, _ = self._block(("endwith",))
            return lambda x: self.run(body, Scope(x.env, {n: e(x) for n, e in binds}, x))
        if w == "do":
            e = self.expr(rest); return lambda x: (e(x), "")[1]
        raise TemplateSyntaxError("unknown tag %r" % w)
    def render(self, *a, **k):
        return self.run(self.body, Scope(self.environment, dict(*a, **k)))

class BaseLoader(object): pass
class FileSystemLoader(BaseLoader):
    def __init__(self, searchpath, encoding="utf-8", followlinks=False):
        self.searchpath = [searchpath] if isinstance(searchpath, (str, os.PathLike)) else list(searchpath)
    def source(self, name):
        for p in self.searchpath:
            f = os.path.join(str(p), name)
            if os.path.isfile(f): return open(f, encoding="utf-8").read()
        raise TemplateNotFound(name)
class DictLoader(BaseLoader):
    def __init__(self, mapping): self.mapping = mapping
    def source(self, name):
        if name not in self.mapping: raise TemplateNotFound(name)
        return self.mapping[name]

class Environment(object):
    def __init__(self, loader=None, trim_blocks=False, lstrip_blocks=False, keep_trailing_newline=False, undefined=Undefined, autoescape=False, finalize=None, **kw):
        self.loader, self.trim_blocks, self.lstrip_blocks, self.keep_trailing_newline = loader, trim_blocks, lstrip_blocks, keep_trailing_newline
        self.undefined, self.finalize = undefined, finalize
        self.filters, self.tests, self._cache = dict(FILTERS), dict(TESTS), {}
        self.globals = {"range": range, "dict": dict, "namespace": Namespace, "lipsum": lambda *a, **k: ""}
    def get_template(self, name, *a, **k):
        if name not in self._cache: self._cache[name] = Template._make(self, self.loader.source(name), name)
        return self._cache[name]
    def from_string(self, source): return Template._make(self, source)
def select_autoescape(*a, **k): return False
