"""A small SQL reader: enough of SQLite's grammar to judge what a statement does, not how it is laid
out.  Predicates are compared as boolean functions over normalised atoms."""
import itertools, re

TOK = re.compile(r"""\s+|--[^\n]*|(?P<hole>\u27e6(?:[^\u27e6\u27e7]|\u27e6[^\u27e7]*\u27e7)*\u27e7)
|(?P<str>'(?:[^']|'')*')|(?P<num>\d+(?:\.\d+)?)|(?P<id>[A-Za-z_][A-Za-z_0-9$]*|`[^`]*`|"[^"]*"|\[[^\]]*\])
|(?P<bind>\?\d*|[:$@][A-Za-z_0-9]+)|(?P<op>\|\||<<|>>|<=|>=|<>|!=|==|[-+*/%&|<>=(),.;~])""", re.X)

def scan_hole(s, i):
    d = 0
    for j in range(i, len(s)):
        if s[j] == "\u27e6": d += 1
        elif s[j] == "\u27e7":
            d -= 1
            if d == 0: return j + 1
    return len(s)

def tokens(s):
    out, i = [], 0
    while i < len(s):
        if s[i] == "\u27e6":
            j = scan_hole(s, i)
            out.append(("hole", s[i:j])); i = j; continue
        m = TOK.match(s, i)
        if not m: raise SyntaxError("SQL: %r" % s[i:i+30])
        i = m.end()
        k = m.lastgroup
        if k is None: continue
        v = m.group()
        if k == "id":
            if v[0] in "`\"[": v = v[1:-1]
            else: v = v.lower()
        out.append((k, v))
    return out

class P:
    def __init__(self, s):
        self.t = tokens(s); self.i = 0
    def peek(self, k=0):
        return self.t[self.i + k] if self.i + k < len(self.t) else ("eof", "")
    def nxt(self):
        x = self.peek(); self.i += 1; return x
    def kw(self, *ws):
        for j, w in enumerate(ws):
            x = self.peek(j)
            if not (x[0] in ("id", "op") and x[1] == w): return False
        self.i += len(ws)
        return True
    def want(self, w):
        if not self.kw(w): raise SyntaxError("SQL: expected %s at %r" % (w, self.t[self.i:self.i+5]))

    # expressions
    def expr(self): return self.or_()
    def or_(self):
        xs = [self.and_()]
        while self.kw("or"): xs.append(self.and_())
        return xs[0] if len(xs) == 1 else ("or", xs)
    def and_(self):
        xs = [self.not_()]
        while self.kw("and"): xs.append(self.not_())
        return xs[0] if len(xs) == 1 else ("and", xs)
    def not_(self):
        if self.peek() == ("id", "not") and self.peek(1)[1] != "exists":
            self.nxt()
            return ("not", self.not_())
        return self.cmp()
    def cmp(self):
        a = self.add()
        while True:
            if self.kw("is", "not", "null"): a = ("not", ("isnull", a)); continue
            if self.kw("is", "null"): a = ("isnull", a); continue
            if self.kw("isnull"): a = ("isnull", a); continue
            if self.kw("notnull"): a = ("not", ("isnull", a)); continue
            if self.kw("is", "not"): a = ("not", ("eq", a, self.add())); continue
            if self.kw("is"): a = ("eq", a, self.add()); continue
            neg = False
            if self.peek() == ("id", "not") and self.peek(1)[1] in ("in", "like", "between", "match"):
                self.nxt(); neg = True
            x = self.peek()
            if x[0] == "op" and x[1] in ("=", "==", "<>", "!=", "<", ">", "<=", ">="):
                self.nxt()
                b = self.add()
                if x[1] in ("=", "=="): a = ("eq", a, b)
                elif x[1] in ("<>", "!="): a = ("not", ("eq", a, b))
                elif x[1] == "<": a = ("lt", a, b)
                elif x[1] == ">": a = ("lt", b, a)
                elif x[1] == "<=": a = ("not", ("lt", b, a))
                else: a = ("not", ("lt", a, b))
                continue
            if x == ("id", "in"):
                self.nxt()
                if self.kw("("):
                    if self.peek()[1] in ("select", "with", "values"):
                        r = ("sel", self.select())
                    else:
                        r = ("list", [] if self.peek()[1] == ")" else self.elist())
                    self.want(")")
                else:
                    y = self.nxt()
                    r = ("name", y[1]) if y[0] == "id" else ("hole", y[1])
                a = ("in", a, r)
                if neg: a = ("not", a)
                continue
            if x[0] == "id" and x[1] in ("like", "match", "glob"):
                self.nxt()
                a = (x[1], a, self.add())
                if neg: a = ("not", a)
                continue
            if x == ("id", "between"):
                self.nxt()
                lo = self.add(); self.want("and"); hi = self.add()
                a = ("and", [("not", ("lt", a, lo)), ("not", ("lt", hi, a))])
                if neg: a = ("not", a)
                continue
            return a
    def add(self):
        a = self.unary()
        while self.peek()[0] == "op" and self.peek()[1] in ("+", "-", "*", "/", "%", "&", "|", "||", "<<", ">>"):
            o = self.nxt()[1]
            a = ("bin", o, a, self.unary())
        return a
    def unary(self):
        x = self.peek()
        if x == ("op", "-"): self.nxt(); return ("neg", self.unary())
        if x == ("op", "+") or x == ("op", "~"): self.nxt(); return ("un", x[1], self.unary())
        return self.prim()
    def elist(self):
        xs = [self.expr()]
        while self.kw(","): xs.append(self.expr())
        return xs
    def prim(self):
        k, v = self.nxt()
        if k == "num": return ("lit", int(v) if "." not in v else float(v))
        if k == "str": return ("lit", v[1:-1].replace("''", "'"))
        if k == "bind": return ("bind",)
        if k == "hole": return ("hole", v)
        if k == "op" and v == "*": return ("star",)
        if k == "op" and v == "(":
            if self.peek()[1] in ("select", "with", "values"):
                r = ("sel", self.select())
            else:
                xs = self.elist()
                r = xs[0] if len(xs) == 1 else ("row", xs)
            self.want(")")
            return r
        if k == "id":
            if v == "null": return ("lit", None)
            if v == "not" and self.kw("exists"):
                self.want("("); s = self.select(); self.want(")")
                return ("not", ("exists", s))
            if v == "exists" and self.kw("("):
                s = self.select(); self.want(")")
                return ("exists", s)
            if v == "case":
                base = None if self.peek()[1] == "when" or self.peek()[0] == "hole" else self.expr()
                arms, el = [], None
                while True:
                    if self.peek()[0] == "hole": arms.append((("hole", self.nxt()[1]), None)); continue
                    if self.kw("when"):
                        c = self.expr(); self.want("then"); arms.append((c, self.expr())); continue
                    break
                if self.kw("else"): el = self.expr()
                self.want("end")
                return ("case", base, arms, el)
            if v == "cast" and self.kw("("):
                e = self.expr(); self.want("as"); t = self.nxt()[1]; self.want(")")
                return ("cast", e, t)
            if self.kw("("):
                dis = self.kw("distinct")
                args = [] if self.peek()[1] == ")" else self.elist()
                self.want(")")
                return ("call", v, args) if not dis else ("call", v + " distinct", args)
            if self.kw("."):
                k2, v2 = self.nxt()
                if self.kw("."):
                    k3, v3 = self.nxt()
                    return ("col", v2, v3)
                return ("star",) if v2 == "*" else ("col", v, v2)
            return ("col", None, v)
        raise SyntaxError("SQL: unexpected %r" % (v,))

    # statements
    def with_(self):
        out = []
        if self.kw("with"):
            self.kw("recursive")
            while True:
                name = self.nxt()[1]
                cols = None
                if self.kw("("):
                    cols = [self.nxt()[1]]
                    while self.kw(","): cols.append(self.nxt()[1])
                    self.want(")")
                self.want("as"); self.want("(")
                out.append((name, cols, self.select()))
                self.want(")")
                if not self.kw(","): break
        return out
    def select(self):
        w = self.with_()
        s = self.core()
        s["with"] = w
        s["compound"] = []
        while True:
            if self.kw("union", "all"): s["compound"].append(("union all", self.core()))
            elif self.kw("union"): s["compound"].append(("union", self.core()))
            elif self.kw("intersect"): s["compound"].append(("intersect", self.core()))
            elif self.kw("except"): s["compound"].append(("except", self.core()))
            else: break
        s["order"] = []
        if self.kw("order", "by"):
            while True:
                e = self.expr(); d = "asc"
                if self.kw("desc"): d = "desc"
                else: self.kw("asc")
                s["order"].append((e, d))
                if not self.kw(","): break
        s["limit"] = self.expr() if self.kw("limit") else None
        return s
    def core(self):
        if self.kw("values"):
            rows = []
            while True:
                if self.peek()[0] == "hole": rows.append(("hole", self.nxt()[1]))
                else:
                    self.want("("); rows.append(("row", self.elist())); self.want(")")
                if not self.kw(","): break
            return {"k": "values", "rows": rows, "from": [], "where": None, "cols": [], "group": []}
        self.want("select")
        s = {"k": "select", "distinct": self.kw("distinct"), "cols": [], "from": [], "where": None, "group": []}
        self.kw("all")
        while True:
            if self.kw("*"): s["cols"].append((("star",), None))
            else:
                e = self.expr(); al = None
                if self.kw("as"): al = self.nxt()[1]
                elif self.peek()[0] == "id" and self.peek()[1] not in ("from", "where", "union", "order", "group", "limit", "intersect", "except"):
                    al = self.nxt()[1]
                s["cols"].append((e, al))
            if not self.kw(","): break
        if self.kw("from"): s["from"] = self.from_()
        if self.kw("where"): s["where"] = self.expr()
        if self.kw("group", "by"): s["group"] = self.elist()
        if self.kw("having"): s["having"] = self.expr()
        return s
    def source(self):
        if self.kw("("):
            if self.peek()[1] in ("select", "with", "values"): src = ("sel", self.select())
            else: src = ("join", self.from_())
            self.want(")")
        else:
            x = self.nxt()
            if x[0] == "hole": src = ("hole", x[1])
            else:
                n = x[1]
                if self.kw("."): n = self.nxt()[1]
                src = ("tab", n)
        al = None
        if self.kw("as"): al = self.nxt()[1]
        elif self.peek()[0] == "id" and self.peek()[1] not in ("where", "left", "inner", "join", "on", "order", "group", "union", "limit", "cross", "natural", "set", "intersect", "except", "using", "having"):
            al = self.nxt()[1]
        return src, al
    def from_(self):
        out = []
        src, al = self.source()
        out.append([src, al, "from", None])
        while True:
            if self.kw(",") or self.kw("cross", "join"): j = "inner"
            elif self.kw("left", "outer", "join") or self.kw("left", "join"): j = "left"
            elif self.kw("inner", "join") or self.kw("join"): j = "inner"
            else: break
            src, al = self.source()
            on = self.expr() if self.kw("on") else None
            out.append([src, al, j, on])
        return out
    def table(self):
        n = self.nxt()[1]
        if self.kw("."): n = self.nxt()[1]
        return n
    def stmt(self):
        i0 = self.i
        w = self.with_()
        x = self.peek()[1]
        if x in ("select", "values"):
            s = self.select()
            s["with"] = w + s["with"]
            s["kind"] = "select"
            return s
        if x in ("insert", "replace"):
            self.nxt()
            s = {"kind": "insert", "or": None, "with": w}
            if x == "replace": s["or"] = "replace"
            if self.kw("or"): s["or"] = self.nxt()[1]
            self.want("into")
            s["table"] = self.table()
            s["cols"] = None
            if self.kw("("):
                s["cols"] = [self.nxt()[1]]
                while self.kw(","): s["cols"].append(self.nxt()[1])
                self.want(")")
            s["source"] = self.select()
            return s
        if x == "update":
            self.nxt()
            s = {"kind": "update", "with": w}
            if self.kw("or"): s["or"] = self.nxt()[1]
            s["table"] = self.table(); self.want("set")
            s["sets"] = []
            while True:
                c = self.nxt()[1]; self.want("=")
                s["sets"].append((c, self.expr()))
                if not self.kw(","): break
            s["where"] = self.expr() if self.kw("where") else None
            return s
        if x == "delete":
            self.nxt(); self.want("from")
            s = {"kind": "delete", "with": w, "table": self.table()}
            s["where"] = self.expr() if self.kw("where") else None
            return s
        if x == "create":
            self.nxt()
            s = {"kind": "create", "unique": self.kw("unique"), "temp": self.kw("temp") or self.kw("temporary"), "virtual": self.kw("virtual")}
            s["what"] = self.nxt()[1]
            self.kw("if", "not", "exists")
            s["table"] = self.table()
            s["rest"] = self.t[self.i:]
            if s["what"] == "index":
                self.want("on")
                s["on"] = self.table()
                self.want("(")
                s["cols"] = [self.expr()]
                while self.kw(","): s["cols"].append(self.expr())
                self.want(")")
                s["where"] = self.expr() if self.kw("where") else None
            elif s["what"] == "view":
                self.want("as")
                s["select"] = self.select()
            elif s["what"] == "trigger":
                pass
            elif not s["virtual"] and self.kw("("):
                s["cols"] = self.coldefs()
            return s
        if x == "drop":
            self.nxt()
            s = {"kind": "drop", "what": self.nxt()[1]}
            self.kw("if", "exists")
            s["table"] = self.table()
            return s
        return {"kind": x, "rest": self.t[i0:]}
    def coldefs(self):
        """[(name, [tokens])] split at depth-0 commas."""
        out, cur, d = [], [], 0
        while True:
            k, v = self.nxt()
            if k == "eof": break
            if (k, v) == ("op", "("): d += 1
            if (k, v) == ("op", ")"):
                if d == 0: break
                d -= 1
            if (k, v) == ("op", ",") and d == 0:
                out.append((cur[0][1], cur[1:])); cur = []; continue
            cur.append((k, v))
        if cur: out.append((cur[0][1], cur[1:]))
        return out

def parse(s):
    p = P(s)
    st = p.stmt()
    if st["kind"] in ("select", "insert", "update", "delete") and p.i < len(p.t) and not all(x == ("op", ";") for x in p.t[p.i:]):
        raise SyntaxError("SQL: trailing %r" % (p.t[p.i:p.i+6],))
    return st

def parse_expr(s):
    p = P(s)
    e = p.expr()
    if p.i != len(p.t): raise SyntaxError("SQL: trailing in expression %r" % (s,))
    return e

# ---- normalisation --------------------------------------------------------------------------------
def aliases(sel):
    """alias/table name -> canonical source name for a SELECT's FROM list."""
    m, cnt = {}, {}
    for src, al, j, on in sel["from"]:
        base = src[1] if src[0] == "tab" else "(%s)" % src[0]
        n = cnt.get(base, 0); cnt[base] = n + 1
        name = base if n == 0 else "%s#%d" % (base, n)
        m[al or base] = name
    return m

def canon(e, al=None, single=False):
    """Hashable normal form."""
    k = e[0]
    r = lambda x: canon(x, al, single)
    if k == "col":
        q = e[1]
        if q is not None and al is not None: q = al.get(q, q)
        if single: q = None
        return ("col", q, e[2])
    if k in ("lit", "bind", "star", "hole"): return tuple(e[:2])
    if k == "eq":
        a, b = r(e[1]), r(e[2])
        if b == ("lit", None): return ("isnull", a)
        if a == ("lit", None): return ("isnull", b)
        return ("eq",) + tuple(sorted((a, b), key=repr))
    if k == "lt": return ("lt", r(e[1]), r(e[2]))
    if k in ("and", "or"): return (k,) + tuple(r(x) for x in e[1])
    if k in ("not", "isnull", "neg"): return (k, r(e[1]))
    if k == "in":
        y = e[2]
        if y[0] == "list":
            xs = [r(x) for x in y[1]]
            if len(xs) == 1: return ("eq",) + tuple(sorted((r(e[1]), xs[0]), key=repr))
            return ("in", r(e[1]), ("list",) + tuple(sorted(set(xs), key=repr)))
        if y[0] == "sel": return ("in", r(e[1]), ("sel", selkey(y[1])))
        return ("in", r(e[1]), tuple(y))
    if k in ("like", "match", "glob"): return (k, r(e[1]), r(e[2]))
    if k == "bin":
        a, b = r(e[2]), r(e[3])
        if e[1] in ("&", "|", "+", "*"): a, b = sorted((a, b), key=repr)
        return ("bin", e[1], a, b)
    if k == "call": return ("call", e[1]) + tuple(r(x) for x in e[2])
    if k == "cast": return ("cast", r(e[1]), e[2])
    if k == "exists": return ("exists", selkey(e[1]))
    if k == "sel": return ("sel", selkey(e[1]))
    if k == "row": return ("row",) + tuple(r(x) for x in e[1])
    if k == "case": return ("case", None if e[1] is None else r(e[1]),
                            tuple((r(c), None if v is None else r(v)) for c, v in e[2]), None if e[3] is None else r(e[3]))
    if k == "un": return ("un", e[1], r(e[2]))
    return ("?", repr(e))

def conj(e):
    """Flatten a canonical expression into its top-level conjuncts."""
    if e is None: return frozenset()
    if e[0] == "and":
        out = frozenset()
        for x in e[1:]: out |= conj(x)
        return out
    if e[0] == "not" and e[1][0] == "not": return conj(e[1][1])
    return frozenset([e])

def selkey(s):
    """Order-insensitive (for joins/conjuncts) normal form of a SELECT."""
    if s["k"] == "values": return ("values", repr(s["rows"]))
    al = aliases(s)
    single = len(al) == 1
    cs = tuple((canon(e, al, single), a) for e, a in s["cols"])
    conjs = set()
    src = []
    for f in s["from"]:
        base = f[0][1] if f[0][0] in ("tab", "hole") else selkey(f[0][1]) if f[0][0] == "sel" else repr(f[0])
        on = conj(canon(f[3], al, single)) if f[3] is not None else frozenset()
        if f[2] == "left": src.append(("left", base, on))
        else:
            src.append(("inner", base, frozenset())); conjs |= on
    if s["where"] is not None: conjs |= conj(canon(s["where"], al, single))
    return ("select", s["distinct"], cs, tuple(sorted(src, key=repr)), frozenset(conjs),
            tuple(canon(e, al, single) for e in s["group"]),
            tuple((o, selkey(x)) for o, x in s.get("compound", [])),
            tuple((canon(e, al, single), d) for e, d in s.get("order", [])),
            None if s.get("limit") is None else canon(s["limit"]),
            tuple((n, tuple(c) if c else None, selkey(x)) for n, c, x in s.get("with", [])))

def atoms(e, out=None):
    if out is None: out = set()
    if e[0] in ("and", "or"):
        for x in e[1:]: atoms(x, out)
    elif e[0] == "not": atoms(e[1], out)
    else: out.add(e)
    return out

def ev(e, m):
    if e[0] == "and": return all(ev(x, m) for x in e[1:])
    if e[0] == "or": return any(ev(x, m) for x in e[1:])
    if e[0] == "not": return not ev(e[1], m)
    return m[e]

def consistent(m, binary=()):
    """Assignments that contradict themselves are not counted: one column equal to two literals; a
    two-valued column equal to neither of its values; a null equal to something."""
    eqs = {}
    for a, v in m.items():
        if a[0] == "eq":
            lit = [x for x in a[1:] if x[0] == "lit"]
            col = [x for x in a[1:] if x[0] != "lit"]
            if len(lit) == 1 and len(col) == 1:
                eqs.setdefault(col[0], {})[lit[0][1]] = v
    for c, d in eqs.items():
        if sum(1 for v in d.values() if v) > 1: return False
        if c[0] == "col" and c[2] in binary and len(d) == 2 and not any(d.values()): return False
        if ("isnull", c) in m and m[("isnull", c)] and any(d.values()): return False
    return True

def bool_diff(a, b, binary=(), assume=None):
    """None when the canonical predicates a and b agree on every consistent assignment of their atoms,
    else a witness {atom: bool} where they differ."""
    T = ("and",)
    a, b = a or T, b or T
    at = sorted(atoms(a) | atoms(b) | (atoms(assume) if assume else set()), key=repr)
    if len(at) > 14: return {"too many atoms": True}
    for vals in itertools.product((False, True), repeat=len(at)):
        m = dict(zip(at, vals))
        if not consistent(m, binary): continue
        if assume is not None and not ev(assume, m): continue
        if ev(a, m) != ev(b, m): return m
    return None

def show(e):
    k = e[0]
    if k == "col": return (e[1] + "." if e[1] else "") + e[2]
    if k == "lit": return repr(e[1])
    if k == "bind": return "?"
    if k == "hole": return e[1]
    if k == "eq": return "%s=%s" % (show(e[1]), show(e[2]))
    if k == "lt": return "%s<%s" % (show(e[1]), show(e[2]))
    if k == "not": return "NOT(%s)" % show(e[1])
    if k == "isnull": return "%s IS NULL" % show(e[1])
    if k in ("and", "or"): return "(" + (" %s " % k.upper()).join(show(x) for x in e[1:]) + ")"
    if k == "bin": return "(%s%s%s)" % (show(e[2]), e[1], show(e[3]))
    if k == "call": return "%s(%s)" % (e[1], ", ".join(show(x) for x in e[2:]))
    return repr(e)[:120]

def witness(m):
    return ", ".join("%s is %s" % (show(a) if isinstance(a, tuple) else a, v) for a, v in m.items())

def tables_read(st):
    """Names of tables/views a statement reads (not its own CTEs)."""
    out = set()
    def sel(s, ctes):
        c2 = ctes | {n for n, _, _ in s.get("with", [])}
        for n, _, x in s.get("with", []): sel(x, c2)
        for f in s["from"]: src(f[0], c2); 
        for e in [x for x, _ in s["cols"]] + [s["where"]] + s.get("group", []) + [f[3] for f in s["from"]]: ex(e, c2)
        if s["k"] == "values":
            for r in s["rows"]:
                if r[0] == "row":
                    for e in r[1]: ex(e, c2)
        for _, x in s.get("compound", []): sel(x, c2)
    def src(x, c):
        if x[0] == "tab" and x[1] not in c: out.add(x[1])
        elif x[0] == "sel": sel(x[1], c)
        elif x[0] == "join":
            for f in x[1]: src(f[0], c)
        elif x[0] == "hole": out.add(x[1])
    def ex(e, c):
        if e is None or not isinstance(e, (tuple, list)): return
        if e and e[0] in ("sel", "exists") and isinstance(e[1], dict): sel(e[1], c); return
        if e and e[0] == "in" and e[2][0] == "name" and e[2][1] not in c: out.add(e[2][1])
        for x in e:
            if isinstance(x, (tuple, list)): ex(x, c)
            elif isinstance(x, dict): sel(x, c)
    ctes = {n for n, _, _ in st.get("with", [])} if isinstance(st.get("with"), list) else set()
    for n, _, x in st.get("with", []) or []: sel(x, ctes)
    if st["kind"] == "select": sel(st, ctes)
    elif st["kind"] == "insert": sel(st["source"], ctes)
    elif st["kind"] in ("update", "delete"):
        if st.get("where") is not None: ex(st["where"], ctes)
        for _, e in st.get("sets", []): ex(e, ctes)
    elif st["kind"] == "create" and "select" in st: sel(st["select"], set())
    return out
