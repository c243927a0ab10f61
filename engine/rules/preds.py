"""Predicates and functions of a query: what each one is by name, and what it holds the rows to."""
import re
from ctx import *
from trace import walk
from registry import rule
from rules.cache import answers
from rules.pull import split

CR = "mentat_query_algebrizer"
SHUT = re.compile(r"::(resolve_\w+|bind_column_to_var|constrain_\w+|next_alias_for_table|potential_types|known_type_set|known_type|bound_value|bind_value|typed_value_from_arg|mark_known_empty|push_computed|supported_types|add_intersection|from_datalog_operator|apply_(inequality|ground_value|ground_var|ground_place|fulltext|ground|tx_data|tx_ids)|collect_named_bindings|from_keyword|add_type_requirement|is_known_empty)$")
FNARG = {"Variable": None, "SrcVar": None, "EntidOrInteger": None, "IdentOrKeyword": None, "Constant": ("Boolean", "BigInteger", "Float", "Text", "Instant", "Uuid"), "Vector": None}

def alg(c, rl, name, least=1):
    fs = [f for f in c.P.fns if f.crate == CR and f.body is not None and f.kind != "closure" and f.name == name and not re.search(r"::test(s|ing)?::", f.path)]
    c.floor(rl, name, len(fs), least)
    c.see(*fs)
    return fs

def opened(c, f, *keep):
    g = c.graph(f, None, small=0, keep=True, same_crate=False, extra=lambda x: x.crate == CR and not SHUT.search(strip_generics(x.path)) and len(x.body.blocks) < 60 and x.h != f.h)
    g.conv = True
    g.T.opaque = lambda n: SHUT.search(n) is not None or re.search(r"ValueTypeSet::\w+$|Iterator::next$|TypedValue::value_type$|ValueType::\w+$|Binding::(is_empty|is_valid)$", n) is not None
    return g

def sub(t, by):
    """The term with the calls at known sites replaced by names."""
    if isinstance(t, frozenset): return frozenset(sub(x, by) for x in t)
    if not isinstance(t, tuple) or not t: return t
    if t[0] == "call" and len(t) > 3 and t[3] in by: return ("p", by[t[3]])
    return tuple(sub(x, by) if isinstance(x, (tuple, frozenset)) else x for x in t)

class Named:
    """Renders operands with the k-th element taken from a list, or alias made, named for what it is."""
    def __init__(self, g, pat):
        self.g, self.by = g, {}
        evs = g.events(lambda ev: ev.kind == "call" and re.search(pat, ev.callee) is not None)
        per = {}
        for ev in evs:
            for t in self.result(ev):
                if t[0] == "call" and len(t) > 3: per.setdefault(rset(t[2][0]) if t[1].endswith("next") else "alias", {})[t[3]] = ev
        for src, m in per.items():
            before = lambda a, b: a is not b and g.search(is_ev(b), start=is_ev(a)) is not None
            o = sorted(m, key=lambda s: sum(1 for x in m if x != s and before(m[x], m[s])))
            for k, s in enumerate(o): self.by[s] = "%s#%d" % (src, k)
    def result(self, ev):
        d = ev.data["d"]
        return self.g.T.place(ev.frame, d[0], ()) if len(d) == 1 else ()
    def args(self, ev): return [rset(sub(frozenset(self.g.T.operand(ev.frame, o)), self.by)) for o in ev.data["a"]]
    def of(self, fr, o): return rset(sub(frozenset(self.g.T.operand(fr, o)), self.by))

def calls(N, name, *pats):
    """Predicate: a call of `name` whose arguments, self aside, are rendered ~pats (each of what one may be)."""
    def p(ev):
        if ev.kind != "call" or not re.search(r"::(%s)$" % name, ev.callee): return False
        a = N.args(ev)[1:]
        return len(a) >= len(pats) and all(x is None or re.fullmatch(x, y) is not None or all(re.fullmatch(x, z) is not None for z in split(y)) for x, y in zip(pats, a))
    return p

def is_text(subject, v, others):
    """Edge predicate: edges that cannot be taken when the text `subject` is v."""
    return any_of(*[contradicts(r"(?:\w+::)*eq\(%s, '%s'\)$" % (subject, re.escape(o)), "1" if o == v else "0") for o in others])

OPS = {"<": "LessThan", "<=": "LessThanOrEquals", ">": "GreaterThan", ">=": "GreaterThanOrEquals", "!=": "NotEquals", "unpermute": "Unpermute", "differ": "Differ", "tx-after": "TxAfter", "tx-before": "TxBefore"}
FNS = {"fulltext": "apply_fulltext", "ground": "apply_ground", "tx-data": "apply_tx_data", "tx-ids": "apply_tx_ids"}
EMPTY = lambda ev: ev.kind == "call" and ev.callee.endswith("::mark_known_empty")
OKTY = r"^(?!Result::Err)"

@rule("Q06")
def q06_name(c):
    c.rule("Q06.name", "a predicate or function is the one its name names; a name that names none is refused; each is for its own types of value")
    for f in alg(c, "Q06.name", "from_datalog_operator"):
        s = f.body.name(1)
        for nm in list(OPS) + ["no-such-name"]:
            g = opened(c, f)
            got = answers(g, is_text(s, nm, OPS))
            want = ["Inequality::%s{}" % OPS[nm]] if nm in OPS else ["Option::None{}"]
            got = [re.sub(r"^Option::Some\{0: (.*)\}$", r"\1", x) for x in got]
            c.ob("Q06.name", f, got == want, "the predicate %s is %s" % (nm, got), key="op:" + nm)
            c.done(g)
    for f in alg(c, "Q06.name", "apply_where_fn"):
        w = f.body.name(f.body.argc)
        for nm in list(FNS) + ["no-such-name"]:
            g = opened(c, f)
            got = answers(g, is_text(r"%s\.operator\.0" % w, nm, FNS))
            want = r"(?:\w+::)*%s\(self, \w+, %s\)" % (FNS[nm], w) if nm in FNS else r"Result::Err\{0: AlgebrizerError::UnknownFunction\{.*\}\}"
            c.ob("Q06.name", f, len(got) == 1 and re.fullmatch(want, got[0]) is not None, "the function %s is %s" % (nm, got), key="fn:" + nm)
            c.done(g)
    for f in alg(c, "Q06.name", "apply_predicate"):
        p = f.body.name(f.body.argc)
        g = opened(c, f)
        op = r"Inequality::from_datalog_operator\(%s\.operator\.0\)" % p
        got = answers(g, opt(op, True))
        c.ob("Q06.name", f, bool(got) and all(re.fullmatch(r"(?:\w+::)*apply_inequality\(self, \w+, %s(\.0)?, %s\)" % (op, p), x) for x in got), "a known predicate gives %s" % got, key="known")
        got = answers(g, opt(op, False))
        c.ob("Q06.name", f, bool(got) and all(x.startswith("Result::Err") for x in got), "an unknown predicate gives %s" % got, key="unknown")
        c.done(g)
    for f in alg(c, "Q06.name", "supported_types"):
        for v in OPS.values():
            g = opened(c, f)
            got = answers(g, choice(re.escape(f.body.name(1)), "Inequality", v))
            ins = lambda ev: ev.kind == "call" and re.search(r"ValueTypeSet::(insert|union)$", ev.callee) is not None
            given = choice(re.escape(f.body.name(1)), "Inequality", v)
            if v in ("Unpermute", "Differ", "TxAfter", "TxBefore"):
                q = g.search(ins, given=given)
                c.ob("Q06.name", f, got == ["ValueTypeSet::of_one(ValueType::Ref{})"] and q is None, "%s is for %s" % (v, got), key="types:" + v)
            else:
                one = lambda ev: ins(ev) and re.search(r"ValueType::Instant\{\}", args_of(g, ev)[1]) is not None
                q = g.search(ret_of(g, "Ok"), block=one, given=given)
                q2 = g.search(lambda ev: ins(ev) and not one(ev), given=given)
                union = len(got) == 1 and re.fullmatch(r"ValueTypeSet::union\((?:ValueTypeSet::of_numeric_types\(\), ValueTypeSet::of_one\(ValueType::Instant\{\}\)|ValueTypeSet::of_one\(ValueType::Instant\{\}\), ValueTypeSet::of_numeric_types\(\))\)", got[0]) is not None
                c.ob("Q06.name", f, union or (got == ["ValueTypeSet::of_numeric_types()"] and q is None and q2 is None), "%s is for %s" % (v, got), key="types:" + v)
            c.done(g)
    for f in alg(c, "Q06.name", "apply_type_anno"):
        g = opened(c, f)
        a = f.body.name(f.body.argc)
        kw = r"ValueType::from_keyword\(%s\.value_type\)" % a
        N = Named(g, r"Iterator::next$")
        req = calls(N, "add_type_requirement", r"%s\.variable" % a, r"ValueTypeSet::of_one\(%s(\.0)?\)" % kw)
        q = g.search(ret_of(g, "Ok"), block=req)
        c.ob("Q06.name", f, bool(g.events(req)) and q is None, "a variable isn't held to the type it's annotated with: %s" % fmt_path(q or []), key="annotation")
        got = answers(g, opt(kw, False))
        c.ob("Q06.name", f, bool(got) and all(x.startswith("Result::Err") for x in got), "an unknown type gives %s" % got, key="annotation:unknown")
        c.done(g)

def arg(p, k): return r"(?:%s\.args#%d|(?:\w+::)*index\(%s\.args, %d\)|%s\.args\[\])" % (p, k, p, k, p)

@rule("Q06", "a Long and a Double compare in SQLite as the numbers they are")
def q06_compare(c):
    c.rule("Q06.compare", "a comparison of two arguments holds the rows to exactly that comparison of them, in their order, by the types both can have; it's empty only if they can have none in common, refused if it isn't for an argument's types")
    for f in alg(c, "Q06.compare", "apply_inequality"):
        g = opened(c, f)
        N = Named(g, r"Iterator::next$")
        p = next(f.body.name(i) for i in range(1, f.body.argc + 1) if f.body.ty(i).endswith("Predicate"))
        cmp_ = next(f.body.name(i) for i in range(1, f.body.argc + 1) if f.body.ty(i).endswith("Inequality"))
        done = ret_of(g, "Ok")
        two = lambda ev: ev.kind == "edge" and relation(ev, r"len\(%s\.args\)$" % p, r"^2$") == "Eq"
        q = g.search(done, block=two)
        c.ob("Q06.compare", f, q is None, "takes other than two arguments: %s" % fmt_path(q or []), key="arity")
        R = lambda k: r"\{?(?:\|?(?:\w+::)*resolve_(?:numeric|instant|ref)_argument\(self, (?:\w+\.schema, )?%s\.operator, %d, %s\))+\}?" % (p, k, arg(p, k))
        W = r"ColumnConstraint::Inequality\{operator: %s, left: %s, right: %s\}" % (cmp_, R(0), R(1))
        anyw = calls(N, "add_intersection|push")
        good = calls(N, "add_intersection", W)
        bad = [N.args(ev)[1][:300] for ev in g.events(anyw) if not good(ev)]
        c.ob("Q06.compare", f, bool(g.events(good)) and not bad, "holds the rows to %s" % bad, key="constraint")
        q = g.search(done, block=any_of(good, EMPTY))
        c.ob("Q06.compare", f, q is None, "doesn't hold the rows to anything: %s" % fmt_path(q or []), key="held")
        T = lambda k: r"ValueTypeSet::intersection\((?:(?:\w+::)*potential_types\(self, \w+\.schema, %s\), (?:\w+::)*supported_types\(%s\)|(?:\w+::)*supported_types\(%s\), (?:\w+::)*potential_types\(self, \w+\.schema, %s\))\)" % (arg(p, k), cmp_, cmp_, arg(p, k))
        S = r"ValueTypeSet::intersection\((?:%s, %s|%s, %s)\)" % (T(0), T(1), T(1), T(0))
        def named(ev):
            """Truth of a test on an edge: (rendered call, truth)."""
            if ev.kind != "edge": return []
            out = []
            for t in g.T.operand(ev.frame, ev.data["o"]):
                truth = str(ev.tag[2]) == "1"
                t = sub(t, N.by)
                while t[0] == "un" and t[1] == "Not": truth = not truth; t = t[2]
                out.append((rset(t), truth))
            for op, a, b, truth in cond(ev):
                if op in ("Eq", "Ne"): out.append(("eq(%s, %s)" % (rset(sub(a, N.by)), rset(sub(b, N.by))), truth == (op == "Eq")))
            return out
        test = lambda pat, yes: (lambda ev: any(re.fullmatch(pat, x) and t == yes for x, t in named(ev)))
        empty = lambda s: r"(?:\w+::)*is_empty\(%s\)" % s
        q = g.search(EMPTY, block=test(empty(S), True))
        c.ob("Q06.compare", f, q is None, "is found empty though the arguments can be compared: %s" % fmt_path(q or []), key="empty")
        q = g.search(done, block=any_of(EMPTY, test(empty(S), False)))
        c.ob("Q06.compare", f, q is None, "what can't be compared isn't found empty: %s" % fmt_path(q or []), key="empty:tested")
        for k in (0, 1):
            q = g.search(done, block=test(empty(T(k)), False))
            c.ob("Q06.compare", f, q is None, "argument %d may be of no type the predicate is for: %s" % (k, fmt_path(q or [])), key="types:%d" % k)
            long_ = r"(?:\w+::)*contains\(%s, ValueType::Long\{\}\)" % T(k)
            ins = lambda ev: ev.kind == "call" and re.search(r"ValueTypeSet::insert$", ev.callee) is not None and re.fullmatch(T(k), N.args(ev)[0]) and "ValueType::Double{}" in N.args(ev)[1]
            meet = lambda ev: ev.kind == "call" and re.search(r"ValueTypeSet::intersection$", ev.callee) is not None and any(re.fullmatch(T(0) + "|" + T(1), x) for x in N.args(ev))
            q = g.search(meet, block=any_of(ins, test(long_, False)))
            c.ob("Q06.compare", f, q is None, "a long as argument %d isn't compared with a double: %s" % (k, fmt_path(q or [])), key="widened:%d" % k)
            q = g.search(ins, block=test(long_, True))
            c.ob("Q06.compare", f, q is None, "argument %d is taken for a double though it's no number: %s" % (k, fmt_path(q or [])), key="number:%d" % k)
        one = lambda t: r"(?:\w+::)*eq\((?:%s(?:\.0)?, ValueTypeSet::of_one\(ValueType::%s\{\}\)(?:\.0)?|ValueTypeSet::of_one\(ValueType::%s\{\}\)(?:\.0)?, %s(?:\.0)?)\)" % (S, t, t, S)
        for nm, t in (("resolve_instant_argument", one("Instant")), ("resolve_ref_argument", one("Ref")), ("resolve_numeric_argument", r"(?:\w+::)*is_only_numeric\(%s\)" % S)):
            r_ = lambda ev: ev.kind == "call" and ev.callee.endswith("::" + nm)
            q = g.search(r_, block=test(t, True))
            c.ob("Q06.compare", f, bool(g.events(r_)) and q is None, "%s whatever the types: %s" % (nm, fmt_path(q or [])), key=nm)
        c.done(g)

def variants():
    for v, inner in FNARG.items():
        if inner is None: yield v, None
        else:
            for k in inner: yield v, k

@rule("Q06")
def q06_argument(c):
    c.rule("Q06.argument", "an argument stands for itself as a value of the type asked for, a variable for its value or its column; anything else is refused")
    n = 0
    VAL = {"numeric": {"EntidOrInteger": r"QueryValue::TypedValue\{0: TypedValue::Long\{0: A\.0\}\}", "Float": r"QueryValue::TypedValue\{0: TypedValue::Double\{0: A\.0\.0\}\}"},
           "instant": {"Instant": r"QueryValue::TypedValue\{0: TypedValue::Instant\{0: A\.0\.0\}\}"},
           "ref": {"EntidOrInteger": r"QueryValue::(?:TypedValue\{0: TypedValue::Ref|Entid)\{0: A\.0\}+", "IdentOrKeyword": r"QueryValue::(?:TypedValue\{0: TypedValue::Ref|Entid)\{0: .*get(?:_entid)?\(.*ident_map, A\.0\).*\}+"}}
    for kind, table in VAL.items():
        for f in alg(c, "Q06.argument", "resolve_%s_argument" % kind):
            a = f.body.name(f.body.argc)
            g = opened(c, f)
            N = Named(g, r"Iterator::next$")
            for v, k in variants():
                if v == "Variable": continue
                n += 1
                gv = [choice(a, "FnArg", v)] + ([choice(a + r"\.0", "NonIntegerConstant", k)] if k else [])
                got = answers(g, *gv)
                ok = [x for x in got if not x.startswith("Result::Err")]
                w = table.get(k or v)
                if w is None: c.ob("Q06.argument", f, bool(got) and not ok, "a %s taken as %s is %s" % (k or v, kind, ok), key="%s:%s" % (kind, k or v))
                else: c.ob("Q06.argument", f, len(ok) == 1 and re.fullmatch(w.replace("A", a), ok[0]) is not None, "a %s taken as %s is %s" % (k or v, kind, ok), key="%s:%s" % (kind, k or v))
            bound = r"(?:\w+::)*bound_value\(self, %s\.0\)" % a
            var = choice(a, "FnArg", "Variable")
            col = r"QueryValue::Column\{0: (?:\w+::)*(?:first|get|index)\(.*self\.column_bindings, %s\.0\).*\}" % a
            got = [x for x in answers(g, var, opt(bound, False)) if not x.startswith("Result::Err")]
            c.ob("Q06.argument", f, len(got) == 1 and re.fullmatch(col, got[0]) is not None, "a variable without a value stands for %s" % got, key=kind + ":column")
            got = [x for x in answers(g, var, opt(bound, True)) if not x.startswith("Result::Err")]
            want = r"QueryValue::(?:TypedValue\{0: (?:%s|TypedValue::\w+\{0: %s\.0\})\}|Entid\{0: %s\.0\})" % (bound, bound, bound)
            if kind != "ref": c.ob("Q06.argument", f, len(got) == 1 and re.fullmatch(want, got[0]) is not None, "a variable that has a value stands for %s" % got, key=kind + ":value")
            else: c.ob("Q06.argument", f, any(re.fullmatch(want, x) for x in got) and all(re.fullmatch(want + "|" + col, x) for x in got), "a variable that has a value stands for %s" % got, key=kind + ":value")
            cons = calls(N, "constrain_var_to_numeric", a + r"\.0") if kind == "numeric" else calls(N, "constrain_var_to_type", a + r"\.0", r"ValueType::%s\{\}" % {"instant": "Instant", "ref": "Ref"}[kind])
            q = g.search(ret_of(g, "Ok"), block=cons, given=any_of(var, opt(bound, False)))
            c.ob("Q06.argument", f, bool(g.events(cons)) and q is None, "a variable isn't held to the type: %s" % fmt_path(q or []), key=kind + ":held")
            if kind == "numeric":
                num = lambda ev: ev.kind == "edge" and any(re.search(r"is_numeric\(.*%s" % bound, rset(t)) for t in g.T.operand(ev.frame, ev.data["o"])) and str(ev.tag[2]) == "1"
                q = g.search(ret_of(g, "Ok"), block=num, given=any_of(var, opt(bound, True)))
                c.ob("Q06.argument", f, q is None, "a variable whose value isn't a number is taken for one: %s" % fmt_path(q or []), key=kind + ":type")
            if kind == "instant":
                q = g.search(ret_of(g, "Ok"), given=any_of(var, opt(bound, True), choice(bound + r"(\.0)?", "TypedValue", "Long")))
                c.ob("Q06.argument", f, q is None, "a variable whose value isn't an instant is taken for one: %s" % fmt_path(q or []), key=kind + ":type")
            c.done(g)
    for f in alg(c, "Q06.argument", "resolve_tx_argument"):
        g = opened(c, f)
        got = answers(g)
        a = f.body.name(f.body.argc)
        c.ob("Q06.argument", f, bool(got) and all(re.fullmatch(r"(?:\w+::)*resolve_ref_argument\(self, \w+, \w+, \w+, %s\)" % a, x) for x in got), "a transaction argument is %s" % got, key="tx")
        c.done(g)
    c.floor("Q06.argument", "kinds of argument", n, 30)

def places(c, rl, f, g, N, w, least, most):
    """A function takes its own number of arguments, and binds something, each variable once."""
    done = ret_of(g, "Ok")
    ar = lambda ev: ev.kind == "edge" and relation(ev, r"len\(%s\.args\)$" % w, r"^%d$" % most) == "Eq"
    q = g.search(done, block=ar)
    c.ob(rl, f, q is None, "takes other than %d arguments: %s" % (most, fmt_path(q or [])), key=f.name + ":arity")
    for nm, yes, why in (("is_empty", "0", "binds nothing"), ("is_valid", "1", "binds a variable twice")):
        q = g.search(done, block=lambda ev: ev.kind == "edge" and truth_of(g, ev, r"(?:\w+::)*%s\(%s\.binding\)" % (nm, w)) == yes)
        c.ob(rl, f, q is None, "%s: %s" % (why, fmt_path(q or [])), key="%s:%s" % (f.name, nm))

def truth_of(g, ev, pat):
    for t in g.T.operand(ev.frame, ev.data["o"]):
        truth = str(ev.tag[2]) == "1"
        while t[0] == "un" and t[1] == "Not": truth = not truth; t = t[2]
        if re.fullmatch(pat, rset(t)): return "1" if truth else "0"
    return None

def source(c, rl, f, g, N, w):
    q = g.search(ret_of(g, "Ok"), given=choice(arg(w, 0).replace("#0", r"#0|.*next\(%s\.args\)" % w), "FnArg", "Vector"))
    c.ob(rl, f, q is None, "takes something other than a source first: %s" % fmt_path(q or []), key=f.name + ":source")

def bound_to(c, rl, f, g, N, w, table, ent):
    """Each place of the binding is bound to its own column, as its own type."""
    done = ret_of(g, "Ok")
    for k, (alias, column, ty) in enumerate(table):
        V = r"%s\.binding\.0#%d\.0" % (w, k)
        raw = r"(?:\w+::)*next\(%s\.binding\.0\)" % w
        bind = calls(N, "bind_column_to_var", None, alias, column, V)
        cons = calls(N, "constrain_var_to_type", V, r"ValueType::%s\{\}" % ty) if ty else None
        other = lambda ev: ev.kind == "call" and re.search(r"::(bind_column_to_var|bind_value)$", ev.callee) is not None and any(re.fullmatch(V, x) for x in N.args(ev)) and not bind(ev)
        if column is None:
            bind = calls(N, "bind_value", V, alias)
        c.ob(rl, f, bool(g.events(bind)) and not [ev for ev in g.events(other) if not bind(ev)], "place %d is bound to %s" % (k, [N.args(ev)[1:] for ev in g.events(other)]), key="%s:place:%d" % (f.name, k))
        if cons is not None:
            q = g.search(bind, block=cons)
            c.ob(rl, f, q is None, "place %d isn't held to its type: %s" % (k, fmt_path(q or [])), key="%s:type:%d" % (f.name, k))
        nonempty = lambda ev: ev.kind == "edge" and truth_of(g, ev, r"(?:\w+::)*is_known_empty\(self\)") == "1"
        isvar = lambda ev: ev.kind == "edge" and variant_of(g, N, ev) == (V[:-3].replace("\\", ""), "Variable")
        q = g.search(done, start=isvar, block=any_of(bind, nonempty))
        c.ob(rl, f, bool(g.events(isvar)) and q is None, "a variable in place %d isn't bound: %s" % (k, fmt_path(q or [])), key="%s:bound:%d" % (f.name, k))

def variant_of(g, N, ev):
    """(subject, variant) of an edge of a match."""
    if ev.kind != "edge": return None
    for t in g.T.operand(ev.frame, ev.data["o"]):
        if t[0] != "discr": continue
        s = rset(sub(t[1], N.by))
        if str(ev.tag[1]).endswith("::VariableOrPlaceholder") and not s.startswith("VariableOrPlaceholder::"): return s, {"!Placeholder": "Variable", "!Variable": "Placeholder"}.get(ev.tag[2], ev.tag[2])
    return None

TXCOL = lambda d: r"(?:Column::Transactions\{0: )?TransactionsColumn::%s\{\}\}?" % d
AL = r"alias#0"
QA = lambda a, col: r"QualifiedAlias::QualifiedAlias\{0: %s, 1: %s\}" % (a, col)

def pushes(N, what): return lambda ev: ev.kind == "call" and ev.callee.endswith("::push") and N.args(ev)[0] == "self.from" and re.fullmatch(what, N.args(ev)[1]) is not None

@rule("Q06")
def q06_log(c):
    c.rule("Q06.log", "tx-ids ranges over the ids of the transactions from the first up to but not including the second; tx-data over the datoms of its own transaction, each place its own column")
    for nm in ("apply_tx_ids", "apply_tx_data"):
        for f in alg(c, "Q06.log", nm):
            g = opened(c, f)
            N = Named(g, r"Iterator::next$|::next_alias_for_table$")
            w = f.body.name(f.body.argc)
            done = ret_of(g, "Ok")
            places(c, "Q06.log", f, g, N, w, 1, 3 if nm == "apply_tx_ids" else 2)
            source(c, "Q06.log", f, g, N, w)
            TX = lambda k: r"(?:\w+::)*resolve_(?:tx|ref)_argument\(self, \w+\.schema, %s\.operator, %d, %s\)" % (w, k, arg(w, k))
            tx = r"QueryValue::Column\{0: %s\}" % QA(AL, r"Column::Transactions\{0: TransactionsColumn::Tx\{\}\}")
            I = lambda op, l, r: r"ColumnConstraint::Inequality\{operator: Inequality::(?:%s)\{\}, left: %s, right: %s\}" % (op, l, r)
            if nm == "apply_tx_ids":
                want = {"from": "%s|%s" % (I("LessThanOrEquals", TX(1), tx), I("GreaterThanOrEquals", tx, TX(1))), "to": "%s|%s" % (I("LessThan|TxBefore|Unpermute", tx, TX(2)), I("GreaterThan|TxAfter", TX(2), tx))}
            else: want = {"own": r"ColumnConstraint::Equals\{0: %s, 1: %s\}" % (QA(AL, r"Column::Transactions\{0: TransactionsColumn::Tx\{\}\}"), TX(1))}
            al = [N.args(ev)[1:] for ev in g.events(calls(N, "next_alias_for_table"))]
            c.ob("Q06.log", f, al == [["DatomsTable::Transactions{}"]], "reads %s" % al, key=nm + ":table")
            fr = pushes(N, r"SourceAlias::SourceAlias\{0: DatomsTable::Transactions\{\}, 1: %s\}" % AL)
            empty = lambda ev: ev.kind == "edge" and truth_of(g, ev, r"(?:\w+::)*is_known_empty\(self\)") == "1"
            q = g.search(done, block=any_of(fr, empty))
            c.ob("Q06.log", f, q is None, "what it ranges over isn't read: %s" % fmt_path(q or []), key=nm + ":from")
            alls = g.events(calls(N, "add_intersection"))
            for k, pat in want.items():
                h = calls(N, "add_intersection", pat)
                q = g.search(done, block=any_of(h, empty))
                c.ob("Q06.log", f, bool(g.events(h)) and q is None, "the rows aren't held to the transactions asked for (%s): %s" % (k, fmt_path(q or [])), key="%s:%s" % (nm, k))
            rest = [N.args(ev)[1][:300] for ev in alls if not any(re.fullmatch(p_, N.args(ev)[1]) for p_ in want.values())]
            c.ob("Q06.log", f, not rest, "holds the rows to %s as well" % rest, key=nm + ":only")
            if nm == "apply_tx_ids":
                V = r"\{?(?:\|?%s\.binding\.0(?:#0\.0|\[\]\.0)?)+\}?" % w
                bind = calls(N, "bind_column_to_var", None, AL, TXCOL("Tx"), V)
                cons = calls(N, "constrain_var_to_type", V, r"ValueType::Ref\{\}")
                q = g.search(done, block=any_of(bind, empty))
                c.ob("Q06.log", f, bool(g.events(bind)) and q is None and len(g.events(calls(N, "bind_column_to_var"))) == len(g.events(bind)), "the ids aren't bound: %s" % fmt_path(q or []), key=nm + ":bound")
                q = g.search(bind, block=cons)
                c.ob("Q06.log", f, q is None, "the ids aren't refs: %s" % fmt_path(q or []), key=nm + ":type")
            else:
                bound_to(c, "Q06.log", f, g, N, w, [(AL, TXCOL("Entity"), "Ref"), (AL, TXCOL("Attribute"), "Ref"), (AL, TXCOL("Value"), None), (AL, TXCOL("Tx"), "Ref"), (AL, TXCOL("Added"), "Boolean")], 5)
            c.done(g)

@rule("Q06", "SQLite's full-text match")
def q06_fulltext(c):
    c.rule("Q06.fulltext", "fulltext matches its own text among the values of its own attribute, each place its own column; without a fulltext attribute there are no answers")
    for f in alg(c, "Q06.fulltext", "apply_fulltext"):
        g = opened(c, f)
        N = Named(g, r"Iterator::next$|::next_alias_for_table$")
        w = f.body.name(f.body.argc)
        done = ret_of(g, "Ok")
        places(c, "Q06.fulltext", f, g, N, w, 1, 3)
        source(c, "Q06.fulltext", f, g, N, w)
        al = {}
        for ev in g.events(calls(N, "next_alias_for_table")):
            for t in N.result(ev):
                if t[0] == "call" and t[3] in N.by: al.setdefault(N.args(ev)[1].split("::")[-1].rstrip("{}"), set()).add(N.by[t[3]])
        c.ob("Q06.fulltext", f, {k: len(v) for k, v in al.items()} == {"FulltextValues": 1, "Datoms": 1}, "reads %s" % al, key="tables")
        FT, DT = ("(?:%s)" % "|".join(sorted(al.get(k, {"none"}))) for k in ("FulltextValues", "Datoms"))
        for k, a in (("FulltextValues", FT), ("Datoms", DT)):
            fr = pushes(N, r"SourceAlias::SourceAlias\{0: DatomsTable::%s\{\}, 1: %s\}" % (k, a))
            q = g.search(done, block=any_of(EMPTY, fr))
            c.ob("Q06.fulltext", f, q is None, "%s aren't read: %s" % (k, fmt_path(q or [])), key="from:" + k)
        att = r"\{?.*%s\.args#1.*\}?" % w
        at = calls(N, "constrain_attribute", DT, att)
        q = g.search(done, block=any_of(EMPTY, at))
        c.ob("Q06.fulltext", f, bool(g.events(at)) and q is None, "any attribute's values match: %s" % fmt_path(q or []), key="attribute")
        V = r"Column::Fixed\{0: DatomsColumn::Value\{\}\}"
        R, X = (r"Column::Fulltext\{0: FulltextColumn::%s\{\}\}" % k for k in ("Rowid", "Text"))
        QC = lambda a, col: r"QueryValue::Column\{0: %s\}" % QA(a, col)
        join = calls(N, "add_intersection", r"ColumnConstraint::Equals\{0: %s, 1: %s\}|ColumnConstraint::Equals\{0: %s, 1: %s\}" % (QA(DT, V), QC(FT, R), QA(FT, R), QC(DT, V)))
        bv = r"(?:\w+::)*bound_value\(self, %s\.args#2\.0\)" % w
        text = r"(?:QueryValue::TypedValue\{0: (?:%s|TypedValue::String\{0: %s\.args#2\.0\.0\}|\{(?:\|?(?:%s|TypedValue::String\{0: %s\.args#2\.0\.0\}))+\})\}|QueryValue::Column\{0: .*self\.column_bindings, %s\.args#2\.0\).*\})" % (bv, w, bv, w, w)
        match = calls(N, "add_intersection", r"ColumnConstraint::Matches\{0: %s, 1: (?:%s|\{(?:\|?%s)+\})\}" % (QA(FT, X), text, text))
        for k, h in (("joined", join), ("matched", match)):
            q = g.search(done, block=any_of(EMPTY, h))
            c.ob("Q06.fulltext", f, bool(g.events(h)) and q is None, "the text isn't %s: %s" % (k, fmt_path(q or [])), key=k)
        rest = [N.args(ev)[1][:300] for ev in g.events(calls(N, "add_intersection")) if not (join(ev) or match(ev))]
        c.ob("Q06.fulltext", f, not rest, "holds the rows to %s as well" % rest, key="only")
        ful = lambda yes: (lambda ev: ev.kind == "edge" and truth_of(g, ev, r".*\.fulltext") == yes)
        q = g.search(EMPTY, block=ful("0"))
        c.ob("Q06.fulltext", f, q is None, "a fulltext attribute's values are found empty: %s" % fmt_path(q or []), key="empty")
        q = g.search(done, block=any_of(EMPTY, ful("1")))
        c.ob("Q06.fulltext", f, q is None, "an attribute that isn't fulltext is matched: %s" % fmt_path(q or []), key="fulltext")
        bound_to(c, "Q06.fulltext", f, g, N, w, [(DT, r"(?:Column::Fixed\{0: )?DatomsColumn::Entity\{\}\}?", "Ref"), (FT, r"(?:Column::Fulltext\{0: )?FulltextColumn::Text\{\}\}?", "String"), (DT, r"(?:Column::Fixed\{0: )?DatomsColumn::Tx\{\}\}?", "Ref"), (r"TypedValue::Double\{0: .*\}", None, "Double")], 4)
        c.done(g)

@rule("Q06")
def q06_ground(c):
    c.rule("Q06.ground", "ground binds each variable to its own constant, or to each of the constants or rows given, as values of its type; a constant a variable can't be leaves no answer for it")
    for f in alg(c, "Q06.ground", "apply_ground"):
        g = opened(c, f)
        N = Named(g, r"Iterator::next$")
        w = f.body.name(f.body.argc)
        done = ret_of(g, "Ok")
        places(c, "Q06.ground", f, g, N, w, 1, 1)
        is_ = lambda v: choice(r"%s\.binding" % w, "Binding", v)
        A = arg(w, 0)
        sc = calls(N, "apply_ground_var", None, r"%s\.binding\.0" % w, A)
        q = g.search(done, block=sc, given=is_("BindScalar"))
        c.ob("Q06.ground", f, bool(g.events(sc)) and q is None, "a scalar isn't bound: %s" % fmt_path(q or []), key="scalar")
        same = lambda ev: ev.kind == "edge" and any(truth and op == "Eq" or not truth and op == "Ne" for op, a, b, truth in cond(ev) if {re.sub(r"^.*len\((.*)\)$", r"\1", rset(sub(x, N.by))) for x in (a, b)} == {"%s.args#0.0" % w, "%s.binding.0" % w})
        q = g.search(done, block=same, given=is_("BindTuple"))
        c.ob("Q06.ground", f, q is None, "a tuple of another length is bound: %s" % fmt_path(q or []), key="tuple:length")
        pl = [N.args(ev)[2:] for ev in g.events(calls(N, "apply_ground_place"))]
        c.ob("Q06.ground", f, bool(pl) and all(re.search(r"%s\.binding\.0" % w, a[0]) and a[0].endswith(".0") and a[1].endswith(".1") and a[0][:-2] == a[1][:-2] or (re.search(r"#\d+$", a[0]) is not None and a[0] == "%s.binding.0#%s" % (w, a[0].split("#")[-1]) and re.search(r"%s\.args.*\.0#%s$" % (w, a[0].split("#")[-1]), a[1]) is not None) or (a[0] == "%s.binding.0[]" % w and re.fullmatch(A + r"\.0\[\]", a[1])) for a in pl), "a tuple's places are bound to %s" % pl, key="tuple")
        skip = any_of(opt(r".*zip.*|.*next\(.*", False))
        cn = calls(N, "collect_named_bindings")
        for v in ("BindColl", "BindRel"):
            q = g.search(done, block=any_of(cn, EMPTY), given=is_(v))
            c.ob("Q06.ground", f, q is None, "%s isn't bound: %s" % (v, fmt_path(q or [])), key=v)
        q = g.search(any_of(cn, EMPTY), given=is_("BindScalar")) or g.search(any_of(cn, EMPTY), given=is_("BindTuple"))
        c.ob("Q06.ground", f, q is None, "a single row is taken for several: %s" % fmt_path(q or []), key="single")
        mk = [ev for ev in g.events(EMPTY)]
        for ev in mk:
            ve = lambda e: e.kind == "edge" and any(re.match(r"(?:\w+::)*is_empty\(", rset(t)) for t in unnot(g, e)[0]) and unnot(g, e)[1]
            q = g.search(is_ev(ev), block=ve)
            c.ob("Q06.ground", f, q is None, "is found empty though a constant can be bound: %s" % fmt_path(q or []), key="empty")
        ordered(c, f, g)
        tvfa = lambda ev: ev.kind == "call" and ev.callee.endswith("::typed_value_from_arg")
        lens = lambda ev: [({re.sub(r"^.*len\((.*)\)$", r"\1", rset(sub(x, N.by))) for x in (a, b)}, op, truth) for op, a, b, truth in cond(ev)] if ev.kind == "edge" else []
        width = lambda ev: any(op == "Eq" and truth or op == "Ne" and not truth for ab, op, truth in lens(ev) if "%s.binding.0" % w in ab and any("%s.args" % w in x for x in ab))
        q = g.search(tvfa, block=width, given=is_("BindRel"))
        c.ob("Q06.ground", f, q is None, "a row of another length is bound: %s" % fmt_path(q or []), key="rel:length")
        err = lambda ev: ev.kind == "stmt" and ev.data[1].get("r") == "agg" and ev.data[1].get("var") == "Err"
        ins = lambda ev: ev.kind == "call" and re.search(r"ValueTypeSet::insert$", ev.callee) is not None
        fine = lambda ev: ev.kind == "edge" and (truth_of(g, ev, r"ValueTypeSet::insert\(.*\)") == "0" or truth_of(g, ev, r"ValueTypeSet::is_unit\(.*\)") == "1")
        for v in ("BindColl", "BindRel"):
            ev_ = [ev for ev in g.events(ins) if g.search(is_ev(ev), given=is_(v)) is not None]
            for ev in ev_:
                q = g.search(cn, start=is_ev(ev), block=any_of(fine, err), given=is_(v))
                c.ob("Q06.ground", f, q is None, "values of several types are bound: %s" % fmt_path(q or []), key=v + ":types")
        q = g.search(cn, start=lambda ev: ev.kind == "edge" and ev.tag[2] == "Impossible", given=is_("BindRel"), block=lambda ev: ev.kind == "call" and ev.callee.endswith("Iterator::next") and "tuple{" not in N.args(ev)[0])
        c.ob("Q06.ground", f, q is None, "rows after one that can't be bound are lost: %s" % fmt_path(q or []), key="rel:rest")
        ty = [N.args(ev)[3] for ev in g.events(cn)]
        c.ob("Q06.ground", f, bool(ty) and not any(re.search(r"exemplar\((?:\w+::)*known_type_set\(", x) for x in ty), "the values are taken to be of the type %s" % [x[:200] for x in ty], key="own types")
        tv = [N.args(ev) for ev in g.events(tvfa)]
        c.ob("Q06.ground", f, len(tv) >= 2 and all(re.search(r"known_type_set\(self, ", a[4]) for a in tv), "converts with types %s" % [a[4][:200] for a in tv], key="types")
        c.done(g)
    for f in alg(c, "Q06.ground", "apply_ground_place"):
        g = opened(c, f)
        v, a = f.body.name(f.body.argc - 1), f.body.name(f.body.argc)
        got = answers(g, choice(v, "VariableOrPlaceholder", "Variable"))
        c.ob("Q06.ground", f, len(got) == 1 and re.fullmatch(r"(?:\w+::)*apply_ground_var\(self, \w+, %s\.0, %s\)" % (v, a), got[0]) is not None, "a variable is bound: %s" % got, key="place")
        c.done(g)
    for f in alg(c, "Q06.ground", "apply_ground_var"):
        g = opened(c, f)
        N = Named(g, r"Iterator::next$")
        v, a = f.body.name(f.body.argc - 1), f.body.name(f.body.argc)
        conv = r"(?:\w+::)*typed_value_from_arg\(self, \w+, %s, %s, (?:\w+::)*known_type_set\(self, %s\)\)" % (v, a, v)
        bind = calls(N, "apply_ground_value", v, conv + r"(?:\.0)?\.0|" + conv)
        can = choice(conv + r"(\.0)?", "ValueConversion", "Val")
        cannot = choice(conv + r"(\.0)?", "ValueConversion", "Impossible")
        q = g.search(ret_of(g, "Ok"), block=bind, given=can)
        c.ob("Q06.ground", f, bool(g.events(bind)) and q is None, "a constant isn't bound: %s" % fmt_path(q or []), key="value")
        q = g.search(EMPTY, given=can)
        c.ob("Q06.ground", f, q is None, "is found empty though a constant can be bound: %s" % fmt_path(q or []), key="value:empty")
        q = g.search(ret_of(g, "Ok"), block=EMPTY, given=cannot)
        c.ob("Q06.ground", f, q is None, "a constant that can't be goes unnoticed: %s" % fmt_path(q or []), key="impossible")
        c.done(g)
    for f in alg(c, "Q06.ground", "apply_ground_value"):
        g = opened(c, f)
        N = Named(g, r"Iterator::next$")
        v, x = f.body.name(f.body.argc - 1), f.body.name(f.body.argc)
        bv = r"(?:\w+::)*bound_value\(self, %s\)" % v
        bind = calls(N, "bind_value", v, x)
        pair = r"(?:%s(?:\.0)*, %s(?:\.0)*|%s(?:\.0)*, %s(?:\.0)*)" % (bv, x, x, bv)
        differ = lambda ev: ev.kind == "edge" and (truth_of(g, ev, r"(?:\w+::)*ne\(%s\)" % pair) == "1" or truth_of(g, ev, r"(?:\w+::)*eq\(%s\)" % pair) == "0")
        q = g.search(ret_of(g, "Ok"), block=bind, given=opt(bv, False))
        c.ob("Q06.ground", f, bool(g.events(bind)) and q is None, "a variable without a value isn't given it: %s" % fmt_path(q or []), key="bind")
        q = g.search(bind, given=opt(bv, True))
        c.ob("Q06.ground", f, q is None, "a variable's value is replaced: %s" % fmt_path(q or []), key="kept")
        q = g.search(EMPTY, block=differ)
        c.ob("Q06.ground", f, bool(g.events(EMPTY)) and q is None, "is found empty though the values agree: %s" % fmt_path(q or []), key="agree")
        q = g.search(ret_of(g, "Ok"), start=differ, block=EMPTY)
        c.ob("Q06.ground", f, bool(g.events(differ)) and q is None, "two values that differ both hold: %s" % fmt_path(q or []), key="differ")
        c.done(g)
    for f in alg(c, "Q06.ground", "collect_named_bindings"):
        g = opened(c, f)
        N = Named(g, r"Iterator::next$")
        ns, ts, vs = (f.body.name(i) for i in range(f.body.argc - 2, f.body.argc + 1))
        tb = r"(?:\w+::)*push_computed\(self\.computed_tables, ComputedTable::NamedValues\{names: %s, values: %s\}\)" % (ns, vs)
        al = r"(?:\w+::)*next_alias_for_table\(self, %s\)" % tb
        none = lambda ev: ev.kind == "edge" and truth_of(g, ev, r"(?:\w+::)*is_empty\(%s\)" % vs) == "1"
        fr = pushes(N, r"SourceAlias::SourceAlias\{0: %s, 1: %s\}" % (tb, al))
        q = g.search(lambda ev: ev.kind == "ret", block=any_of(fr, none))
        c.ob("Q06.ground", f, bool(g.events(fr)) and q is None, "the values aren't read: %s" % fmt_path(q or []), key="from")
        ordered(c, f, g)
        b = [N.args(ev)[2:] for ev in g.events(calls(N, "bind_column_to_var"))]
        c.ob("Q06.ground", f, bool(b) and all(re.fullmatch(al, a[0]) and a[1] == "VariableColumn::Variable{0: %s}" % a[2] and ns in a[2] for a in b), "the values are bound as %s" % b, key="columns")
        t = [N.args(ev)[1:] for ev in g.events(calls(N, "constrain_var_to_type"))]
        c.ob("Q06.ground", f, bool(t) and all((a[0].endswith(".0") and a[1].endswith(".1") and a[0][:-2] == a[1][:-2] and re.search(r"0: %s\[\], 1: %s\[\]" % (ns, ts), a[0])) or (re.search(r"^%s\[\]" % ns, a[0]) and re.search(r"^%s\[\]" % ts, a[1])) for a in t), "the values are typed as %s" % t, key="typed")
        c.done(g)

def ordered(c, f, g):
    bad = sorted({ev.callee.split("::")[-1] for ev in g.events(lambda ev: ev.kind == "call" and re.search(r"::(rev|skip|skip_while|take|take_while|step_by|reverse|sort\w*|dedup\w*|swap|rotate_\w+|shuffle|cycle|next_back|pop)$", ev.callee) is not None)})
    c.ob("Q06.ground", f, not bad, "what is given is taken out of order: %s" % bad, key=f.name + ":order")

def unnot(g, ev):
    ts, truth = list(g.T.operand(ev.frame, ev.data["o"])), str(ev.tag[2]) == "1"
    if len(ts) == 1:
        t = ts[0]
        while t[0] == "un" and t[1] == "Not": truth = not truth; t = t[2]
        ts = [t]
    return ts, truth

@rule("Q06")
def q06_convert(c):
    c.rule("Q06.convert", "a constant becomes the value of its own type that its variable may have: an integer a long, or an entity where only that can be, a keyword a keyword, or the entity it names; it's impossible only where it can be neither, refused if it's no value")
    for f in alg(c, "Q06.convert", "typed_value_from_arg"):
        g = opened(c, f)
        v, a, k = (f.body.name(i) for i in range(f.body.argc - 2, f.body.argc + 1))
        is_empty = r"(?:\w+::)*is_empty\(%s\)" % k
        has = lambda t, yes: contradicts(r"(?:\w+::)*contains\(.*%s.*, ValueType::%s\{\}\)$" % (k, t), "1" if yes else "0")
        some = contradicts(is_empty, "0")
        val = lambda xs: sorted(x for x in xs if x.startswith("ValueConversion::Val"))
        bad = lambda xs: [x for x in xs if not x.startswith("ValueConversion::Val")]
        got = answers(g, contradicts(is_empty, "1"))
        c.ob("Q06.convert", f, not val(got), "a variable that has no possible type is given %s" % val(got), key="none")
        for t, ty in (("Boolean", "Boolean"), ("Float", "Double"), ("Text", "String"), ("Instant", "Instant"), ("Uuid", "Uuid")):
            gv = [some, choice(a, "FnArg", "Constant"), choice(a + r"\.0", "NonIntegerConstant", t)]
            got = answers(g, *(gv + [has(ty, True)]))
            c.ob("Q06.convert", f, val(got) == got and len(got) == 1 and re.fullmatch(r"ValueConversion::Val\{0: TypedValue::%s\{0: %s\.0\.0(\.0)?\}\}" % (ty, a), got[0]) is not None, "a %s becomes %s" % (t, got), key=t)
            got = answers(g, *(gv + [has(ty, False)]))
            c.ob("Q06.convert", f, bool(got) and not val(got), "a %s a variable can't be becomes %s" % (t, got), key=t + ":impossible")
        acc = lambda yes: contradicts(r"(?:\w+::)*accommodates_integer\(ValueType::Ref\{\}, %s\.0\)$" % a, "1" if yes else "0")
        for ok in (True, False):
            for r in (True, False):
                for l in (True, False):
                    got = answers(g, some, choice(a, "FnArg", "EntidOrInteger"), acc(ok), has("Ref", r), has("Long", l))
                    want = "Long" if l else "Ref" if r and ok else None
                    right = (bool(got) and not val(got)) if want is None else got == ["ValueConversion::Val{0: TypedValue::%s{0: %s.0}}" % (want, a)]
                    c.ob("Q06.convert", f, right, "an integer that %s be an entity, for a variable that can be %s, becomes %s" % ("can" if ok else "can't", [x for x, y in (("a ref", r), ("a long", l)) if y], got), key="EntidOrInteger")
        kw = [some, choice(a, "FnArg", "IdentOrKeyword")]
        for r in (True, False):
            got = answers(g, *(kw + [has("Keyword", True), has("Ref", r)]))
            c.ob("Q06.convert", f, len(got) == 1 and re.fullmatch(r"ValueConversion::Val\{0: (?:TypedValue::Keyword\{0: .*%s\.0.*\}|TypedValue::from\(%s\.0\))\}" % (a, a), got[0]) is not None, "a keyword becomes %s" % got, key="keyword")
        got = answers(g, *(kw + [has("Keyword", False), has("Ref", False)]))
        c.ob("Q06.convert", f, bool(got) and not val(got), "a keyword a variable can't be becomes %s" % got, key="keyword:impossible")
        ent = r"(?:TypedValue::Ref\{0: )?(?:Option::map\()?(?:BTreeMap::get\(schema\.ident_map, %s\.0\)|(?:\w+::)*get_entid\(schema, %s\.0\)).*" % (a, a)
        found = [ev for ev in g.events(lambda ev: ev.kind == "edge") if any(t[0] == "discr" and re.match(ent, rset(t[1])) for t in g.T.operand(ev.frame, ev.data["o"]))]
        kg = kw + [has("Keyword", False), has("Ref", True)]
        made = lambda ev: ev.kind == "stmt" and ev.data[1].get("r") == "agg" and ev.data[1].get("var") == "Val"
        none = lambda ev: ev.kind == "edge" and ev in found and ev.tag[2] in ("None", "!Some")
        unnamed = lambda ev: ev.kind == "edge" and ev.tag[2] in ("None", "!Some") and any(t[0] == "discr" and re.match(ent, rset(t[1])) for t in g.T.operand(ev.frame, ev.data["o"]))
        named_ = lambda ev: ev.kind == "edge" and ev.tag[2] in ("Some", "!None") and any(t[0] == "discr" and re.match(ent, rset(t[1])) for t in g.T.operand(ev.frame, ev.data["o"]))
        q = g.search(made, block=named_, given=any_of(*kg))
        c.ob("Q06.convert", f, q is None, "a keyword that names no entity becomes one: %s" % fmt_path(q or []), key="ident")
        q = g.search(ret_of(g, "Ok"), block=any_of(made, unnamed), given=any_of(*kg))
        c.ob("Q06.convert", f, q is None, "a keyword that names an entity is impossible: %s" % fmt_path(q or []), key="ident:named")
        got = answers(g, some, choice(a, "FnArg", "Variable"))
        bv = r"(?:\w+::)*bound_value\(self, %s\.0\)" % a
        c.ob("Q06.convert", f, len(val(got)) == 1 and re.fullmatch(r"ValueConversion::Val\{0: %s(\.0)?\}" % bv, val(got)[0]) is not None and all(x.startswith("Result::Err") for x in bad(got)), "a variable becomes %s" % got, key="variable")
        for w in ("SrcVar", "Vector", "BigInteger"):
            got = answers(g, some, choice(a, "FnArg", "Constant" if w == "BigInteger" else w), choice(a + r"\.0", "NonIntegerConstant", "BigInteger"))
            c.ob("Q06.convert", f, bool(got) and all(x.startswith("Result::Err") for x in got), "a %s becomes %s" % (w, got), key=w)
        c.done(g)
    for f in [x for x in alg(c, "Q06.convert", "potential_types", 2) if "ConjoiningClauses" not in x.path]:
        g = opened(c, f)
        a = f.body.name(1)
        T = {"Boolean": "Boolean", "Float": "Double", "Text": "String", "Instant": "Instant", "Uuid": "Uuid"}
        for v, k in variants():
            gv = [choice(a, "FnArg", v)] + ([choice(a + r"\.0", "NonIntegerConstant", k)] if k else [])
            got = set(answers(g, *gv))
            one = lambda t: "ValueTypeSet::of_one(ValueType::%s{})" % t
            if k in T: want = {one(T[k])}
            elif v == "Variable": want = {"ValueTypeSet::any()"}
            elif v == "EntidOrInteger": want = {"ValueTypeSet::of_longs()", one("Long")}
            elif v == "IdentOrKeyword": want = {"ValueTypeSet::of_keywords()", one("Keyword")}
            else: want = None
            c.ob("Q06.convert", f, (bool(got) and all(x.startswith("Result::Err") for x in got)) if want is None else got == want, "a %s may be %s" % (k or v, sorted(got)), key="types:" + (k or v))
        acc = lambda yes: contradicts(r"(?:\w+::)*accommodates_integer\(ValueType::Ref\{\}, %s\.0\)$" % a, "1" if yes else "0")
        for yes, want in ((True, "ValueTypeSet::of_longs()"), (False, "ValueTypeSet::of_one(ValueType::Long{})")):
            got = answers(g, choice(a, "FnArg", "EntidOrInteger"), acc(yes))
            c.ob("Q06.convert", f, got == [want], "an integer that %s be an entity may be %s" % ("can" if yes else "can't", got), key="types:integer:%s" % yes)
        c.done(g)
