"""What a query's SQL says: the text each kind of expression becomes, and the expression each kind of clause becomes."""
import re
import lang, sqltext
from ctx import *
from model import Place
from trace import Tracer
from registry import rule
from rules.cache import within, answers

BUILD = r"(.*::)?(QueryBuilder|SQLiteQueryBuilder|<.* as .*QueryBuilder>)::(push_\w+)"
ITEM = r"(.*::)?(QueryFragment|<.* as .*QueryFragment>)::push_sql"

def fragments(c):
    """Ways a query's expressions are written as SQL."""
    return [f for f in c.P.fns if f.body is not None and re.search(r" as .*QueryFragment>::push_sql$", f.path) and f.crate == "mentat_query_sql"]

def fgraph(c, f):
    shut = {x.h for x in fragments(c)} - {f.h}
    return c.graph(f, None, small=0, keep=True, extra=lambda fn: (fn.crate == f.crate and fn.h not in shut and c.P.root_of(fn).h not in shut) or re.fullmatch(r"&(?:'\w+ )?str|&.*Variable|alloc::string::String", fn.body.ty(0)) is not None and fn.crate.startswith("mentat_query"))

def pieces(x):
    """Symbols of a text with ⟦holes⟧."""
    out = []
    for p in re.split("(\u27e6.*?\u27e7)", x):
        if p.startswith("\u27e6"): out.append("raw " + p[1:-1])
        else: out.extend(p)
    return out

def emits(T, ops=BUILD):
    def emit(ev):
        m = re.fullmatch(ops, ev.callee) or re.fullmatch(ops, ev.callee_impl)
        if m and len(ev.data["a"]) > 1:
            n = m.group(m.lastindex)
            ts = T.operand(ev.frame, ev.data["a"][1])
            if n == "push_sql": return [pieces(x) for x in sorted(sqltext.texts(ts, T))]
            return [["%s %s" % (n[5:], re.sub("^\u27e6([^\u27e6\u27e7]*)\u27e7$", r"\1", x))] for x in sorted(sqltext.texts(ts, T))]
        if re.fullmatch(ITEM, ev.callee): return [["sql " + rset(T.operand(ev.frame, ev.data["a"][0]))]]
    return emit

def language(g, *given, ops=BUILD):
    T = within(g, *given) if given else g.T
    T.lossy = True
    return lang.emitted(g, emits(T, ops), any_of(*given) if given else None)

def cases(*xs):
    return [(x[0], x[1] if isinstance(x[1], tuple) else (x[1],), x[2] if len(x) > 2 else None, x[3] if len(x) > 3 else {}) for x in xs]

def says(c, name, site, g, given, specs, wide, items, key, ops=BUILD):
    n = lang.rename(language(g, *given, ops=ops), items)
    why = None
    for s in specs:
        p = lang.pattern(s, items)
        if wide is None: d = lang.diff(n, p)
        else:
            d = lang.diff(n, lang.pattern(wide, items), subset=True)
            if d is None:
                d = lang.diff(p, n, subset=True)
                if d is not None: d = (d[0], "spec")
        if d is None: return c.ob(name, site, True, "", key=key)
        why = why or d
    got = lang.words(n, 3)
    c.ob(name, site, False, "%s `%s` (writes %s)" % ("writes" if why[1] == "code" else "never writes", why[0][:160], [x[:100] for x in got]), key=key)

def listed(src, head=False):
    """Items that are the elements of ~src, whichever way it is gone over."""
    return r"(%s\[\]|Index::index\(%s, RangeFrom::RangeFrom\{start: 1\}\)\[\]|Iterator::skip\(%s, 1\)\[\]|slice::split_first\(%s\)(\.0)*\.1\[\]%s)" % ((src,) * 4 + (r"|Index::index\(%s, 0\)|slice::(split_)?first\(%s\)(\.0)*" % (src, src) if head else "",))

def inf(item, sep): return "%s«%s%s»⋆" % (item, sep, item)

QA = r"%s\.0\.0"

def seq(*xs): return any_of(*xs)

@rule("Q02", "what an `Iterator` of std yields is in the order of its collection")
def q02_text(c):
    c.rule("Q02.text", "the SQL written for every kind of constraint, table, projection, order and limit says what that kind means, whatever it holds")
    frs = {f.self_ty.split("::")[-1]: f for f in fragments(c) if f.self_ty}
    c.floor("Q02.text", "kinds of SQL fragment", len(frs), 13)
    def go(ty, var, specs, wide=None, items={}, given=(), tag=""):
        f = frs.get(ty)
        if f is None: return c.ob("Q02.text", "%s" % ty, False, "has no SQL", key=ty)
        g = fgraph(c, f)
        gv = ([choice("self", ty, var)] if var else []) + list(given)
        says(c, "Q02.text", f, g, gv, specs if isinstance(specs, list) else [specs], wide, items, "%s%s%s" % (ty, "." + var if var else "", tag))
        c.done(g)
    empty = lambda src, yes: contradicts(r"::is_empty\(%s\)$" % src, "1" if yes else "0")
    C = {"c": r"sql " + listed(r"self\.constraints")}
    for var, word, none in (("And", " AND ", "1"), ("Or", " OR ", "0")):
        full = "(%s)" % inf("{c}", word)
        go("Constraint", var, full, "(«%s¦»)" % inf("{c}", word), C, [empty(r"self\.constraints", False)], tag=":some")
        go("Constraint", var, none, "%s¦(«%s¦»)" % (none, inf("{c}", word)), C, [empty(r"self\.constraints", True)], tag=":none")
    go("Constraint", "Infix", "{l} {o} {r}", None, {"l": r"sql self\.left", "o": r"(sql|raw) self\.op(\.0)?", "r": r"sql self\.right"})
    go("Constraint", "In", "{l} IN (%s)" % inf("{x}", ", "), "{l} IN («%s¦»)" % inf("{x}", ", "), {"l": r"sql self\.left", "x": "sql " + listed(r"self\.list")})
    V = {"v": r"sql self\.value", "q": r"sql self\.subquery"}
    go("Constraint", "IsNull", "{v} IS NULL", None, V)
    go("Constraint", "IsNotNull", "{v} IS NOT NULL", None, V)
    go("Constraint", "NotExists", "NOT EXISTS {q}", None, V)
    for a in ("Null", "Integer", "Real", "Text", "Blob"):
        go("Constraint", "TypeCheck", "typeof({v}) = '%s'" % a.lower(), None, V, [choice(r"self\.affinity", "SQLTypeAffinity", a)], tag=":" + a)
    go("Op", None, "{o}", None, {"o": r"raw self\.0"})
    go("JoinOp", None, " JOIN ")
    go("Join", None, "{l}{o}{r}", None, {"l": r"sql self\.left", "o": r"sql self\.op", "r": r"sql self\.right"})
    go("TableList", None, inf("{t}", ", "), "«%s¦»" % inf("{t}", ", "), {"t": "sql " + listed(r"self\.0")})
    T = {"q": "sql " + listed(r"self\.0"), "s": r"sql self\.0(\.0)?", "a": r"identifier self\.1", "a0": r"identifier self\.0\.1"}
    go("TableOrSubquery", "Union", "(%s) AS {a}" % inf("{q}", " UNION "), "(«%s¦») AS {a}" % inf("{q}", " UNION "), T)
    go("TableOrSubquery", "Subquery", "({s})", None, T)
    go("TableOrSubquery", "Values", "({s}) AS {a}", None, T)
    for v, n in (("Datoms", "datoms"), ("FulltextValues", "fulltext_values"), ("FulltextDatoms", "fulltext_datoms"), ("AllDatoms", "all_datoms"), ("Transactions", "transactions")):
        f = [x for x in c.P.fns if re.search(r"::DatomsTable::name$", x.path)]
        got = [x for x in answers(c.graph(f[0], None, keep=True), choice("self", "DatomsTable", v))] if f else []
        c.ob("Q02.text", f[0] if f else "DatomsTable", got == [repr(n)], "the table %s is called %s" % (v, got), key="table:" + v)
    go("TableOrSubquery", "Table", "{n} AS {a0}", "«{n}¦{k}» AS {a0}", dict(T, n=r"identifier (\w+::name\(self\.0\.0\)|'?datoms'?)", k=r"identifier '?\w+'?"), tag="")
    N = {"n": r"identifier .*self\.0\[\]\.0(\.0)*", "v": r"typed_value .*chunks\(self\.1, .*len\(self\.0\)\)\[\]\[\]", "u": r"typed_value .*chunks\(self\.1, self\.0\)\[\]\[\]"}
    row = lambda v: inf("(%s)" % inf(v, ", "), ", ")
    wrow = lambda v: "«%s¦»" % inf("(«%s¦»)" % inf(v, ", "), ", ")
    go("Values", "Named", "SELECT %s WHERE 0 UNION ALL VALUES %s" % (inf("0 AS {n}", ", "), row("{v}")), "SELECT «%s¦» WHERE 0 UNION ALL VALUES %s" % (inf("0 AS {n}", ", "), wrow("{v}")), N)
    go("Values", "Unnamed", "VALUES " + row("{u}"), "VALUES " + wrow("{u}"), N)
    go("FromClause", "TableList", "« FROM {t}¦»", None, {"t": r"sql self\.0"})
    go("FromClause", "TableList", " FROM {t}", None, {"t": r"sql self\.0"}, [contradicts(r"::is_empty\(self\.0(\.0)?\)$", "0")], tag=":some")
    go("FromClause", "Join", " FROM {t}", None, {"t": r"sql self\.0"})
    go("FromClause", "Nothing", "")
    P = {"c": "sql " + listed(r"self\.0", True) + r"\.0", "n": "identifier " + listed(r"self\.0", True) + r"\.1"}
    go("Projection", "Columns", inf("{c} AS {n}", ", "), "«%s¦»" % inf("{c} AS {n}", ", "), P)
    go("Projection", "Columns", [inf("{c} AS {n}", ", "), "«%s¦»" % inf("{w} AS {wn}", ", "), inf("{w} AS {wn}", ", "), "{h} AS {hn}«, {r} AS {rn}»⋆"], None,
       {"h": r"sql (Index::index\(self\.0, 0\)|slice::(split_)?first\(self\.0\)(\.0)*)\.0", "hn": r"identifier (Index::index\(self\.0, 0\)|slice::(split_)?first\(self\.0\)(\.0)*)\.1",
        "w": r"sql (\w+::iter\()?self\.0\)?\[\]\.0", "wn": r"identifier (\w+::iter\()?self\.0\)?\[\]\.1", "r": r"sql .*\[\]\.0", "rn": r"identifier .*\[\]\.1", **P}, tag=":order")
    go("Projection", "Star", "*")
    go("Projection", "One", "1")
    go("Expression", "Unary", "{f}({a})", None, {"f": r"raw self\.sql_op", "a": r"sql self\.arg"})
    for v, n, it in (("Entid", "{x}", r"raw self\.0"), ("Integer", "{x}", r"raw self\.0"), ("Long", "{x}", r"raw self\.0"), ("Value", "{x}", r"typed_value self\.0"),
                     ("ExistingColumn", "{x}", r"identifier self\.0"), ("NullableAggregate", "{x}", r"sql self\.0(\.0)?"), ("Expression", "{x}", r"sql self\.0(\.0)?")):
        go("ColumnOrExpression", v, n, None, {"x": it})
    go("GroupBy", "ProjectedColumn", "{x}", None, {"x": r"identifier self\.0"})
    # columns, wherever they are written
    for ty, var in (("ColumnOrExpression", "Column"), ("GroupBy", "QueryColumn")):
        sub = r"self\.0\.1"
        items = {"t": r"identifier self\.0\.0", "n": r"identifier self\.0\.1\.0(\.0)*", "tag": r"identifier raw.*|identifier ⟦self\.0\.1\.0(\.0)*⟧_value_type_tag"}
        for col, adt, m in (("Fixed", "DatomsColumn", dict(Entity="e", Attribute="a", Value="v", Tx="tx", ValueTypeTag="value_type_tag")),
                            ("Fulltext", "FulltextColumn", dict(Rowid="rowid", Text="text")),
                            ("Transactions", "TransactionsColumn", dict(Entity="e", Attribute="a", Value="v", Tx="tx", Added="added", ValueTypeTag="value_type_tag")),
                            ("Variable", "VariableColumn", dict(Variable="{n}", VariableTypeTag="{tag}"))):
            for v, text in m.items():
                go(ty, var, "{t}." + text, None, items, [choice(sub, "Column", col), choice(sub + r"\.0", adt, v)], tag=":%s.%s" % (col, v))

@rule("Q02")
def q02_select(c):
    c.rule("Q02.select", "a query's SQL has its columns, all its tables and constraints, its grouping, its order in the directions asked and its limit, each where SQL expects it")
    fs = [f for f in fragments(c) if (f.self_ty or "").endswith("::SelectQuery")]
    c.floor("Q02.select", "writers of a select", len(fs), 1)
    for f in fs:
        g = fgraph(c, f)
        I = {"p": r"sql self\.projection", "f": r"sql self\.from", "c": "sql " + listed(r"self\.constraints"), "g": "sql " + listed(r"self\.group_by"),
             "o": r"identifier (⟦)?%s\.1\.0(\.0)*(⟧)?" % listed(r"self\.order"), "t": r"identifier ⟦%s\.1\.0(\.0)*⟧_value_type_tag" % listed(r"self\.order"), "n": r"raw self\.limit\.0",
             "v": r"bind_param .*self\.limit\.0.*"}
        empty = lambda src, yes: contradicts(r"::is_empty\(self\.%s\)$" % src, "1" if yes else "0")
        parts = {"select": ("«SELECT ¦SELECT DISTINCT »", {"1": ("SELECT DISTINCT ", contradicts(r"^self\.distinct$", 1)), "0": ("SELECT ", contradicts(r"^self\.distinct$", 0))}),
                 "where": ("« WHERE «%s¦»¦»" % inf("{c}", " AND "), {"some": (" WHERE " + inf("{c}", " AND "), empty("constraints", False)), "none": ("", empty("constraints", True))}),
                 "group": ("« GROUP BY «%s¦»¦»" % inf("{g}", ", "), {"some": (" GROUP BY " + inf("{g}", ", "), empty("group_by", False)), "none": ("", empty("group_by", True))}),
                 "order": ("« ORDER BY «%s¦»¦»" % inf("«{o}¦{t}»« ASC¦ DESC»", ", "), {
                     "some": (" ORDER BY " + inf("«{o}¦{t}»« ASC¦ DESC»", ", "), empty("order", False)), "none": ("", empty("order", True)),
                     "up": (" ORDER BY " + inf("«{o}¦{t}» ASC", ", "), any_of(empty("order", False), choice(listed(r"self\.order") + r"\.0", "Direction", "Ascending"))),
                     "down": (" ORDER BY " + inf("«{o}¦{t}» DESC", ", "), any_of(empty("order", False), choice(listed(r"self\.order") + r"\.0", "Direction", "Descending"))),
                     "variable": (" ORDER BY " + inf("{o}« ASC¦ DESC»", ", "), any_of(empty("order", False), choice(listed(r"self\.order") + r"\.1", "VariableColumn", "Variable"))),
                     "tag": (" ORDER BY " + inf("{t}« ASC¦ DESC»", ", "), any_of(empty("order", False), choice(listed(r"self\.order") + r"\.1", "VariableColumn", "VariableTypeTag")))}),
                 "limit": ("« LIMIT {n}¦ LIMIT {v}¦»", {"none": ("", choice(r"self\.limit", "Limit", "None")), "fixed": (" LIMIT {n}", choice(r"self\.limit", "Limit", "Fixed")), "variable": (" LIMIT {v}", choice(r"self\.limit", "Limit", "Variable"))})}
        order = ["select", "where", "group", "order", "limit"]
        for p in order:
            for k, (text, given) in parts[p][1].items():
                def line(which, wide):
                    out = ""
                    for q in order:
                        t = parts[q][0] if q != p else (text if not wide else text.replace(" WHERE ", " WHERE «").replace("{c}»⋆", "{c}»⋆¦»") if p == "where" and k == "some" else text)
                        out += t + ("{p}{f}" if q == "select" else "")
                    return out
                wide = line(p, True)
                if p in ("group", "order") and text:
                    kw = " GROUP BY " if p == "group" else " ORDER BY "
                    wide = wide.replace(text, kw + "«" + text[len(kw):] + "¦»")
                narrow = "".join((NARROW[q] if q != p else text) + ("{p}{f}" if q == "select" else "") for q in order)
                says(c, "Q02.select", f, g, [given], [narrow], wide, I, "%s:%s" % (p, k))
        c.done(g)

NARROW = {"select": "«SELECT ¦SELECT DISTINCT »", "where": "« WHERE %s¦»" % inf("{c}", " AND "), "group": "« GROUP BY %s¦»" % inf("{g}", ", "),
          "order": "« ORDER BY %s¦»" % inf("«{o}¦{t}»« ASC¦ DESC»", ", "), "limit": "« LIMIT {n}¦ LIMIT {v}¦»"}

OPQ = r"(.*::)?(accommodates_integer|value_type_tag|for_associated_type_tag|sql_representation|to_sql_operator|cc_to_exists|cc_to_select_query|to_constraint|affinity_count|projected_column_for_var)"

def pgraph(c, f, shut=OPQ, deep=()):
    """f and its helpers, with the named functions left as calls."""
    g = c.graph(f, None, small=0, keep=True, extra=lambda fn: not re.fullmatch(shut, fn.path.split("::")[-1] if fn.kind != "closure" else "-") and fn.crate in ("mentat_query_projector", "mentat_query_sql", "mentat_query_algebrizer") and (fn.h in deep or fn.kind == "closure" or len([b for b in fn.body.blocks if not b.get("cl")]) <= 60))
    g.conv = True
    g.T.opaque = lambda n: re.fullmatch(shut, n.split("::")[-1]) is not None or re.search(r"ValueTypeSet::\w+$", n) is not None
    return g

def constrainers(c):
    """{kind of clause: the function that makes its constraint}."""
    return {f.body.ty(1).split("::")[-1]: f for f in c.P.fns if f.body is not None and f.kind != "closure" and f.crate == "mentat_query_projector" and f.body.argc == 1
            and f.body.ty(0).endswith("mentat_query_sql::Constraint") and re.search(r"mentat_query_algebrizer::types::Column\w+$", f.body.ty(1))}

INFIX = lambda op, l, r: r"Constraint::Infix\{op: Op::Op\{0: %s\}, left: %s, right: %s\}" % (op, l, r)
COL = lambda x: r"ColumnOrExpression::Column\{0: %s\}" % x
TAGCOL = lambda q: r"QualifiedAlias::QualifiedAlias\{0: %s, 1: (DatomsColumn::ValueTypeTag\{\}|Column::Fixed\{0: DatomsColumn::ValueTypeTag\{\}\})\}" % q

@rule("Q02")
def q02_constraint(c):
    c.rule("Q02.constraint", "every kind of constraint on a query's columns becomes the expression that says the same, of the same columns and values, each in its place")
    fs = constrainers(c)
    c.floor("Q02.constraint", "kinds of constraint on columns", len(fs), 4)
    def go(ty, tag, want, *given):
        f = fs.get(ty)
        if f is None: return c.ob("Q02.constraint", ty, False, "has no expression", key=ty)
        g = pgraph(c, f, deep={f.h})
        got = answers(g, *[x(f.body.name(1)) for x in given])
        want = want if isinstance(want, list) else [want]
        s = re.escape(f.body.name(1))
        c.ob("Q02.constraint", f, len(got) == len(want) and all(any(re.fullmatch(w.replace("%s", s), x) for x in got) for w in want), "%s becomes %s" % (tag or ty, [x[:300] for x in got]), key="%s:%s" % (ty, tag))
        c.done(g)
    inner = lambda x: r"(\w+::to_constraint\(%s\))" % x
    go("ColumnIntersection", "", r"Constraint::And\{constraints: \[\{?(Constraint::Or\{constraints: \[(Constraint::And\{constraints: \[)?%s(\]\})?\]\}|%s|\|)+\}?\]\}" % (inner(r"%s(\.0)?\[\]\.0(\[\])+(\.0)?(\[\])?"), inner(r"%s(\.0)?\[\](\.0)?")))
    go("ColumnAlternation", "", r"Constraint::Or\{constraints: \[(Constraint::And\{constraints: \[%s\]\}|%s)\]\}" % (inner(r"%s(\.0)?\[\](\.0)?\[\](\.0)?"), inner(r"%s(\.0)?\[\]")))
    V = lambda v: lambda s: choice(re.escape(s), "ColumnConstraintOrAlternation", v)
    go("ColumnConstraintOrAlternation", "one", inner(r"%s\.0"), V("Constraint"))
    go("ColumnConstraintOrAlternation", "alternation", r"(%s|Constraint::Or\{constraints: \[(Constraint::And\{constraints: \[%s\]\}|%s)\]\})" % (inner(r"%s\.0"), inner(r"%s\.0(\.0)?\[\](\.0)?\[\](\.0)?"), inner(r"%s\.0(\.0)?\[\]")), V("Alternation"))
    K = lambda v: lambda s: choice(re.escape(s), "ColumnConstraint", v)
    QV = lambda fld, v: lambda s: choice(re.escape(s) + r"\." + fld, "QueryValue", v)
    left = COL(r"%s\.0")
    become = {"Column": COL, "Entid": lambda x: r"ColumnOrExpression::(Entid|Long)\{0: %s\}" % x, "TypedValue": lambda x: r"ColumnOrExpression::Value\{0: %s\}" % x,
              "PrimitiveLong": lambda x: r"ColumnOrExpression::(Long\{0: %s\}|Value\{0: TypedValue::Long\{0: %s\}\})" % (x, x)}
    for v in ("Column", "Entid", "TypedValue"):
        go("ColumnConstraint", "Equals:" + v, INFIX("'='", left, become[v](r"%s\.1\.0")), K("Equals"), QV("1", v))
    plain = INFIX("'='", left, become["PrimitiveLong"](r"%s\.1\.0"))
    nobool = INFIX("'<>'", COL(r"\w+::for_associated_type_tag\(%s\.0\)(\.0)?"), r"ColumnOrExpression::Integer\{0: (\w+::value_type_tag\(ValueType::Boolean\{\}\)|1)\}")
    both = r"Constraint::And\{constraints: array\{0: (%s, 1: %s|%s, 1: %s)\}\}" % (plain, nobool, nobool, plain)
    acc = r"::accommodates_integer\(ValueType::Boolean\{\}, .*\.1\.0\)$"
    go("ColumnConstraint", "Equals:PrimitiveLong", plain, K("Equals"), QV("1", "PrimitiveLong"), lambda s: contradicts(acc, 0))
    go("ColumnConstraint", "Equals:PrimitiveLong:boolean", both, K("Equals"), QV("1", "PrimitiveLong"), lambda s: contradicts(acc, 1))
    for side in ("left", "right"):
        for v, b in become.items():
            want = INFIX(r"(\w+::to_sql_operator\(%s\.operator\))", b(r"%s\.left\.0") if side == "left" else r"\{?.*%s\.left\.0.*\}?", b(r"%s\.right\.0") if side == "right" else r"\{?.*%s\.right\.0.*\}?")
            go("ColumnConstraint", "Inequality:%s:%s" % (side, v), want, K("Inequality"), QV(side, v))
    for v, b in become.items():
        go("ColumnConstraint", "Matches:" + v, INFIX("'MATCH'", left, b(r"%s\.1\.0")), K("Matches"), QV("1", v))
    tag = lambda n: INFIX("'='", COL(TAGCOL(r"%s\.value")), r"ColumnOrExpression::Integer\{0: %s\}" % n)
    go("ColumnConstraint", "HasTypes", r"Constraint::Or\{constraints: \[%s\]\}" % tag(r"(\w+::value_type_tag\(%s\.value_types(\.0)?\[\]\)|\w+::sql_representation\(%s\.value_types(\.0)?\[\]\)\.0)"), K("HasTypes"), lambda s: contradicts("^" + re.escape(s) + r"\.check_value$", 0))
    go("ColumnConstraint", "NotExists", r"Constraint::NotExists\{subquery: TableOrSubquery::Subquery\{0: \w+::cc_to_exists\(%s\.0\.0(\.0)?\)\}\}|Constraint::NotExists\{subquery: \w+::table_for_computed\(%s\.0, .*\)\}", K("NotExists"), lambda s: choice(re.escape(s) + r"\.0", "ComputedTable", "Subquery"))
    # the operators, and the integers that stand for booleans
    for f in [f for f in c.P.fns if f.body is not None and f.name == "to_sql_operator" and f.body.ty(1).endswith("::Inequality")]:
        for v, o in {"LessThan": "<", "LessThanOrEquals": "<=", "GreaterThan": ">", "GreaterThanOrEquals": ">=", "NotEquals": "<>", "Unpermute": "<", "Differ": "<>", "TxAfter": ">", "TxBefore": "<"}.items():
            g = c.graph(f, None, keep=True)
            got = answers(g, choice(re.escape(f.body.name(1)), "Inequality", v))
            c.ob("Q02.constraint", f, got == [repr(o)], "%s is written %s" % (v, got), key="operator:" + v)
    for f in [f for f in c.P.fns if f.body is not None and f.name == "accommodates_integer" and f.body.argc == 2]:
        s, n = (re.escape(f.body.name(i)) for i in (1, 2))
        for v in (0, 1):
            g = c.graph(f, None, keep=True)
            T = within(g, choice(s, "ValueType", "Boolean"), contradicts("^%s$" % n, v))
            got = {("1" if evalop(t, v) else "0") for t in T.place(g.rootf, 0, ())}
            c.ob("Q02.constraint", f, got == {"1"}, "%d %s the way a boolean is stored" % (v, "isn't" if got == {"0"} else "may not be"), key="boolean:%d" % v)

def evalop(t, v):
    """A comparison of the input with constants, when the input is v."""
    if t[0] == "c": return t[1] not in (0, "0", False)
    if t[0] == "un" and t[1] == "Not": return not evalop(t[2], v)
    if t[0] == "op":
        x, y = (next(iter(z))[1] if isinstance(z, frozenset) else z[1] for z in (t[2], t[3]))
        x, y = (int(z) if re.fullmatch(r"-?\d+", str(z)) else v for z in (x, y))
        return {"Eq": x == y, "Ne": x != y, "Lt": x < y, "Le": x <= y, "Gt": x > y, "Ge": x >= y}[t[1]]
    return None

def returning(c, ty, *params, crate="mentat_query_projector"):
    """Functions of the crate with this result that take these."""
    return [f for f in c.P.fns if f.body is not None and f.kind != "closure" and f.crate == crate and re.search(ty, f.body.ty(0)) and all(any(re.search(p, f.body.ty(i)) for i in range(1, f.body.argc + 1)) for p in params)]

def pname(f, ty):
    return next(f.body.name(i) for i in range(1, f.body.argc + 1) if re.search(ty, f.body.ty(i)))

@rule("Q02")
def q02_types(c):
    c.rule("Q02.types", "a variable's required types become a test of its tag, and of how the value is stored exactly for the types that share a tag with others that aren't allowed")
    f = constrainers(c).get("ColumnConstraint")
    if f is None: return c.floor("Q02.types", "functions that test types", 0, 1)
    g = pgraph(c, f, deep={f.h})
    s = re.escape(f.body.name(1))
    given = (choice(s, "ColumnConstraint", "HasTypes"), contradicts("^%s\\.check_value$" % s, 1))
    T = within(g, *given)
    TS, REP = r"%s\.value_types(\.0)?\[\]" % s, r"\w+::sql_representation\(%s\.value_types(\.0)?\[\]\)" % s
    tags = r"(\w+::value_type_tag\(%s\)|%s\.0)" % (TS, REP)
    MAP = r"((Hash|BTree)Map::(with_capacity\(.*\)|new\(\))|Default::default\(\))"
    ent = lambda ev: ev.kind == "call" and ev.callee.endswith("Map::entry") and re.fullmatch(MAP, rset(T.operand(ev.frame, ev.data["a"][0]))) is not None
    blk = any_of(*given)
    es = g.events(ent, block=blk)
    c.floor("Q02.types", "groupings of types by tag", len(es), 1)
    for ev in es:
        k = rset(T.operand(ev.frame, ev.data["a"][1]))
        c.ob("Q02.types", ev, re.fullmatch(tags, k) is not None, "the types are grouped by %s" % k, key="group")
    pushes = g.events(lambda ev: ev.kind == "call" and ev.callee.endswith("::push") and "Map::entry" in rset(T.operand(ev.frame, ev.data["a"][0])), block=blk)
    c.floor("Q02.types", "affinities kept", len(pushes), 1)
    for ev in pushes:
        v = rset(T.operand(ev.frame, ev.data["a"][1]))
        c.ob("Q02.types", ev, re.fullmatch(REP + r"\.1(\.0)?", v) is not None, "the affinity kept is %s" % v, key="affinity")
    if pushes:
        some = opt(REP + r"\.1", True)
        e = any_of(*[is_ev(e) for e in es])
        q = g.search(any_of(e, ret_of(g)), start=e, block=any_of(*[is_ev(x) for x in pushes]), given=any_of(blk, some))
        c.ob("Q02.types", f, q is None, "an affinity is left out on %s" % fmt_path(q or []), key="every")
    tagis = lambda ev_n: INFIX("'='", COL(TAGCOL(s + r"\.value")), r"ColumnOrExpression::Integer\{0: %s\[\]\.0\}" % ev_n)
    chk = r"Constraint::And\{constraints: array\{0: %s, 1: Constraint::Or\{constraints: \[Constraint::TypeCheck\{value: ColumnOrExpression::Column\{0: QualifiedAlias::QualifiedAlias\{0: (…|%s\.value), 1: (…|.*DatomsColumn::Value\{\}\}?)\}\}, affinity: %s\[\]\.1\[\]\}\]\}\}\}" % (tagis(MAP), s, r".*")
    got = sorted(rend(t) for t in T.place(g.rootf, 0, ()) if t != ("err",))
    want = r"Constraint::Or\{constraints: \[\{?(%s|%s|\|)+\}?\]\}" % (chk, tagis(MAP))
    c.ob("Q02.types", f, len(got) == 1 and re.fullmatch(want, got[0]) is not None, "types become %s" % [x[:500] for x in got], key="test")
    own = lambda ev: ev.kind == "stmt" and ev.data[1].get("r") == "agg" and str(ev.data[1].get("adt", "")).endswith("::Constraint") and ev.data[1].get("var") == "TypeCheck"
    cs = g.events(own, block=blk)
    c.floor("Q02.types", "tests of how a value is stored", len(cs), 1)
    for ev in cs:
        x = rset(T.operand(ev.frame, dict(zip(ev.data[1].get("f") or (), ev.data[1]["a"]))["value"]))
        c.ob("Q02.types", ev, re.fullmatch(r"ColumnOrExpression::Column\{0: QualifiedAlias::QualifiedAlias\{0: %s\.value(\.0)?, 1: (Column::Fixed\{0: )?DatomsColumn::Value\{\}\}*" % s, x) is not None, "how %s is stored is tested" % x, key="stored")
    # the representation is left untested only when it can't tell anything apart
    plain = lambda ev: ev.kind == "stmt" and ev.data[1].get("r") == "agg" and str(ev.data[1].get("adt", "")).endswith("::Option") and ev.data[1].get("var") == "None" and "SQLTypeAffinity" in ev.frame.body.ty(ev.data[0][0])
    ok = any_of(empty_edge(r"Map.*\[\]\.1"), lambda ev: relation(ev, r"::len\(.*\[\]\.1\)", r"affinity_count\(.*\[\]\.0\)") in ("Eq", "Ge"))
    ps = g.events(plain, block=blk)
    c.floor("Q02.types", "tests of the tag alone", len(ps), 1)
    q = g.search(plain, block=ok, given=blk)
    c.ob("Q02.types", f, q is None, "how the value is stored isn't tested on %s" % fmt_path(q or []), key="untested")
    for h in [h for h in c.P.fns if h.name == "affinity_count" and h.body is not None]:
        gh = c.graph(h, None, small=20, keep=True)
        gh.T.opaque = lambda n: re.search(r"ValueTypeSet::\w+$|value_type_tag$", n) is not None
        gh.events(lambda ev: False)
        cmp_ = sorted({rend(t) for fr in gh.frames if fr.fn.kind == "closure" for t in gh.T.place(fr, 0, ())})
        got = answers(gh)
        c.ob("Q02.types", h, bool(cmp_) and all(re.fullmatch(r"\((\w+::value_type_tag\(ValueTypeSet::any\(\)\[\]\) Eq tag|tag Eq \w+::value_type_tag\(ValueTypeSet::any\(\)\[\]\))\)", x) for x in cmp_) and all(re.fullmatch(r"\w+::count\(.*ValueTypeSet::any\(\).*\)", x) for x in got),
             "types of a tag are counted as %s where %s" % (got, cmp_), key="count")
    c.done(g)

@rule("Q02")
def q02_table(c):
    c.rule("Q02.table", "every table of a query is selected from: a stored one under its alias, a computed one as what it computes, with each arm of a union giving each shared variable its value and, where needed, its type")
    c.rule("Q02.query", "a query's select has its projection, every table, every constraint, its grouping and order, and its limit unless it is known to be empty; nesting for aggregates moves the grouping, order and limit outwards")
    ft = returning(c, r"::TableOrSubquery$", r"ComputedTable$")
    c.floor("Q02.table", "makers of computed tables", len(ft), 1)
    for f in ft:
        s, al = re.escape(pname(f, "ComputedTable$")), re.escape(pname(f, r"^alloc::string::String$|TableAlias$"))
        g = pgraph(c, f, deep={f.h})
        def go(v, want):
            got = answers(g, choice(s, "ComputedTable", v))
            c.ob("Q02.table", f, len(got) == 1 and re.fullmatch(want, got[0]) is not None, "%s becomes %s" % (v, [x[:400] for x in got]), key="computed:" + v)
        go("Subquery", r"TableOrSubquery::Subquery\{0: \w+::cc_to_exists\(%s\.0(\.0)?\)\}" % s)
        go("NamedValues", r"TableOrSubquery::Values\{0: Values::Named\{0: %s\.names, 1: %s\.values\}, 1: %s\}" % (s, s, al))
        go("Union", r"TableOrSubquery::Union\{0: \[\w+::cc_to_select_query\(Projection::Columns\{0: .*\}, %s\.arms\[\], [01], Vec::new\(\), Option::None\{\}, Limit::None\{\}\)\], 1: %s\}" % (s, al))
        U = choice(s, "ComputedTable", "Union")
        var = r"(\w+::iter\(%s\.projection\)|%s\.projection)\[\]" % (s, s)
        arm = r"%s\.arms\[\]" % s
        proj = r"\w+::projected_column_for_var\(%s, %s\)" % (var, arm)
        T = within(g, U)
        T.lossy = True
        push = lambda pat: (lambda ev: ev.kind == "call" and ev.callee.endswith("::push") and len(ev.data["a"]) == 2 and re.fullmatch(pat, rset(T.operand(ev.frame, ev.data["a"][1]))) is not None)
        value = push(proj + r"\.0(\.0)?")
        tagn = r"(fmt::format\(.*5f76616c75655f747970655f746167.*%s.*\)|\w+::column_name\(VariableColumn::VariableTypeTag\{0: %s\}\))" % (var, var)
        known, col = r"ColumnOrExpression::Integer\{0: \w+::unique_type_tag\(%s\.1\)(\.0)?\}" % proj, r"ColumnOrExpression::Column\{0: \w+::get\(%s\.extracted_types, %s\)(\.0)?\}" % (arm, var)
        tagged = push(r"ProjectedColumn::ProjectedColumn\{0: \{?(%s|%s|\|)+\}?, 1: %s\}" % (known, col, tagn))
        for ev in g.events(lambda ev: ev.kind == "call" and ev.callee.endswith("::push") and re.search(r"ProjectedColumn", ev.frame.body.ty(op_local(ev.data["a"][1]))) is not None, block=U):
            c.ob("Q02.table", ev, value(ev) or tagged(ev), "an arm is given a column of %s" % rset(T.operand(ev.frame, ev.data["a"][1]))[:300], key="column")
        c.floor("Q02.table", "columns given to arms", len(g.events(any_of(value, tagged), block=U)), 2)
        from rules.joins import loops_
        ls = loops_(g, r"%s$" % var)
        c.ob("Q02.table", f, bool(ls), "the arms aren't given the variables of the union", key="variables")
        for some, none in ls.values():
            again = any_of(some, none, ret_of(g))
            q = g.search(again, start=some, block=value, given=U)
            c.ob("Q02.table", f, q is None, "a variable isn't given its value on %s" % fmt_path(q or []), key="each:value")
            has = r"::contains\(%s\.type_extraction, .*\)$" % s
            q = g.search(again, start=some, block=tagged, given=any_of(U, contradicts(has, 1)))
            c.ob("Q02.table", f, q is None, "a variable isn't given its type on %s" % fmt_path(q or []), key="each:type")
            q = g.search(tagged, given=any_of(U, contradicts(has, 0)))
            c.ob("Q02.table", f, q is None, "a variable is given a type nothing asks for on %s" % fmt_path(q or []), key="only:type")
            break
        for some, want in ((True, known), (False, col)):
            o = opt(r".*::unique_type_tag\(.*\)", some)
            T2 = within(g, U, o)
            got = {rset(T2.operand(ev.frame, ev.data["a"][1])) for ev in g.events(tagged, block=any_of(U, o))}
            c.ob("Q02.table", f, bool(got) and all(re.match(r"ProjectedColumn::ProjectedColumn\{0: %s, " % want, x) for x in got), "a type that is %sknown is given as %s" % ("" if some else "not ", sorted(got)[:1]), key="type:%s" % some)
        c.done(g)
    fs = [f for f in returning(c, r"::SelectQuery$", r"ConjoiningClauses$", r"::Projection$")]
    c.floor("Q02.query", "makers of a query's select", len(fs), 1)
    for f in fs:
        n = {k: re.escape(pname(f, t)) for k, t in dict(cc=r"ConjoiningClauses$", p=r"::Projection$", d=r"^bool$", g=r"Vec<.*GroupBy", o=r"OrderBy", l=r"Limit$").items()}
        g = pgraph(c, f, shut=OPQ + "|table_for_computed", deep={f.h})
        g.T.lossy = True
        src = r"%s\.from\[\]" % n["cc"]
        tab = {"stored": r"TableOrSubquery::Table\{0: (%s|SourceAlias::SourceAlias\{0: %s\.0, 1: %s\.1\})\}" % (src, src, src),
               "computed": r"\w+::table_for_computed\(\w+::index(_mut)?\(%s\.computed_tables(\.inner)?, %s\.0\.0\)(\.0)?, %s\.1\)" % (n["cc"], src, src)}
        limit = r"\{?(Limit::Fixed\{0: 0\}|%s|\|)+\}?" % n["l"]
        whole = r"SelectQuery::SelectQuery\{distinct: %s, projection: %s, from: \{?(FromClause::Nothing\{\}\|)?FromClause::TableList\{0: TableList::TableList\{0: \[%%s\]\}\}\}?, constraints: \[\w+::to_constraint\(%s\.wheres\[\](\.0)?\)\], group_by: %s, order: %s(\.0)?, limit: %%s\}" % (n["d"], n["p"], n["cc"], n["g"], n["o"])
        for v, k in (("Datoms", "stored"), ("FulltextValues", "stored"), ("FulltextDatoms", "stored"), ("AllDatoms", "stored"), ("Transactions", "stored"), ("Computed", "computed")):
            got = answers(g, choice(src + r"\.0", "DatomsTable", v))
            c.ob("Q02.query", f, len(got) == 1 and re.fullmatch(whole % (tab[k], limit), got[0]) is not None, "with a %s table: %s" % (v, [x[:700] for x in got]), key="table:" + v)
        for e, want in ((True, r"Limit::Fixed\{0: 0\}"), (False, n["l"])):
            got = answers(g, opt(n["cc"] + r"\.empty_because", e))
            c.ob("Q02.query", f, len(got) == 1 and re.fullmatch(r".*limit: %s\}" % want, got[0]) is not None, "a query that is %sknown empty has the %s" % ("" if e else "not ", [x[-60:] for x in got]), key="limit:%s" % e)
        no = lambda ev: ev.kind == "stmt" and ev.data[1].get("r") == "agg" and str(ev.data[1].get("adt", "")).endswith("::FromClause") and ev.data[1].get("var") == "Nothing"
        q = g.search(no, block=empty_edge(n["cc"] + r"\.from"))
        c.ob("Q02.query", f, q is None, "its tables are left out on %s" % fmt_path(q or []), key="nothing")
        c.done(g)
    fx = [f for f in returning(c, r"::SelectQuery$", r"ConjoiningClauses$") if f.body.argc == 1]
    c.floor("Q02.query", "makers of a test for rows", len(fx), 1)
    for f in fx:
        cc = re.escape(f.body.name(1))
        g = pgraph(c, f, deep={f.h})
        got = answers(g, contradicts(r"::is_known_empty\(%s\)$" % cc, 0), opt(cc + r"\.empty_because", False))
        got = [x for x in got if not re.fullmatch(r"SelectQuery::SelectQuery\{distinct: [01], projection: Projection::One\{\}, from: FromClause::Nothing\{\}, constraints: Vec::new\(\), .*\}", x)] if len(got) > 1 else got
        c.ob("Q02.query", f, len(got) == 1 and re.fullmatch(r"\w+::cc_to_select_query\(Projection::\w+\{\}, %s, [01], Vec::new\(\), Option::None\{\}, Limit::(None\{\}|Fixed\{0: 1\})\)" % cc, got[0]) is not None, "a test for rows is %s" % [x[:300] for x in got], key="exists")
        q = g.search(ret_of(g), block=any_of(call_to(r".*::cc_to_select_query")), given=any_of(contradicts(r"::is_known_empty\(%s\)$" % cc, 0), opt(cc + r"\.empty_because", False)))
        c.ob("Q02.query", f, q is None, "a test for rows doesn't ask on %s" % fmt_path(q or []), key="asks")
        c.done(g)
    fr = [f for f in returning(c, r"::SelectQuery$", r"::SelectQuery$", r"::Projection$") if f.body.argc == 2]
    c.floor("Q02.query", "makers of a nested select", len(fr), 1)
    for f in fr:
        i, p = re.escape(pname(f, r"::SelectQuery$")), re.escape(pname(f, r"::Projection$"))
        g = pgraph(c, f, deep={f.h})
        col = lambda ps, n: [rset(g.T.operand(ev.frame, dict(zip(ev.data[1].get("f") or (), ev.data[1]["a"]))[n])) for ev in ps]
        aggs = g.events(lambda ev: ev.kind == "stmt" and ev.data[1].get("r") == "agg" and str(ev.data[1].get("adt", "")).endswith("::SelectQuery"))
        nested = [ev for ev, x in zip(aggs, col(aggs, "projection")) if re.fullmatch(p, x)]
        outer = [ev for ev in aggs if ev not in nested]
        c.floor("Q02.query", "nested selects", len(nested), 1)
        some = lambda fld, also="": r"\{?((%s\.%s|Vec::new\(\)|Limit::None\{\}|1|0|Default::default\(\))\|?)+\}?" % (i, fld)
        for ev in nested:
            for fld in ("group_by", "limit"):
                x = col([ev], fld)[0]
                c.ob("Q02.query", ev, re.fullmatch(some(fld), x) is not None and re.search(i + r"\." + fld, x) is not None, "nesting leaves the %s as %s" % (fld, x), key="nested:" + fld)
            x = col([ev], "from")[0]
            c.ob("Q02.query", ev, re.fullmatch(r"FromClause::TableList\{0: TableList::TableList\{0: array\{0: TableOrSubquery::Subquery\{0: .*%s.*\}\}\}\}" % i, x) is not None, "nesting selects from %s" % x, key="nested:from")
        for fld in ("group_by", "order", "limit", "distinct"):
            at = lambda p: any(x.startswith("." + fld + "@") and strip_generics(x).endswith("::SelectQuery") for x in p[1:])
            rd = lambda ev: ev.kind == "stmt" and any(at(o.get("c") or o.get("m") or [0]) for o in list(ev.data[1].get("a") or []) + ([ev.data[1]["o"]] if "o" in ev.data[1] else []) if isinstance(o, dict))
            wr = lambda ev: ev.kind == "stmt" and at(ev.data[0])
            q = g.search(wr, block=any_of(rd, mut_borrow("::SelectQuery", fld)))
            c.ob("Q02.query", f, q is None, "the %s is overwritten before it is moved outwards on %s" % (fld, fmt_path(q or [])), key="kept:" + fld)
            q = g.search(rd, start=wr)
            c.ob("Q02.query", f, q is None, "the %s is read only once overwritten on %s" % (fld, fmt_path(q or [])), key="first:" + fld)
        from rules.orjoin import shrunk
        bad = shrunk(g, r"(.*\W)?" + i + r"\..*")
        c.ob("Q02.query", f, not bad, "the nested select loses parts: %s" % bad[:1], key="whole")
        for ev in nested:
            if not outer or not any(g.search(is_ev(o), start=is_ev(ev)) for o in outer): continue
            for v in ("Fixed", "Variable"):
                Tl = within(g, choice(some("limit"), "Limit", v))
                x = rset(Tl.operand(ev.frame, dict(zip(ev.data[1].get("f") or (), ev.data[1]["a"]))["order"]))
                c.ob("Q02.query", ev, re.fullmatch(some("order"), x) is not None and re.search(i + r"\.order", x) is not None, "a limited select has the order %s" % x, key="inner:order:" + v)
        for q0 in outer:
            x = col([q0], "from")[0]
            c.ob("Q02.query", q0, "TableOrSubquery::Subquery{0: SelectQuery::SelectQuery{" in x and re.search(r"projection: %s" % p, x) is not None, "the outer select is from %s" % x[:200], key="outer:from")
            x = col([q0], "projection")[0]
            c.ob("Q02.query", q0, x == "Projection::Star{}", "the outer select projects %s" % x, key="outer:projection")
            x = col([q0], "limit")[0]
            c.ob("Q02.query", q0, x == "Limit::None{}", "the outer select has the limit %s" % x, key="outer:limit")
            x = col([q0], "order")[0]
            c.ob("Q02.query", q0, re.search(i + r"\.order", x) is not None, "the outer select has the order %s" % x, key="outer:order")
            null = choice(p + r"\.0\[\]\.0", "ColumnOrExpression", "NullableAggregate")
            Tn = within(g, null, choice(p, "Projection", "Columns"))
            x = rset(Tn.operand(q0.frame, dict(zip(q0.data[1].get("f") or (), q0.data[1]["a"]))["constraints"]))
            c.ob("Q02.query", q0, re.search(r"^\[\{?Constraint::IsNotNull\{value: ColumnOrExpression::ExistingColumn\{0: %s\.0\[\]\.1\}\}\]" % p, x) is not None, "the outer select keeps rows where %s" % x, key="outer:null")
        for ev in nested:
            direct = g.search(ret_of(g), start=is_ev(ev), block=any_of(*[is_ev(o) for o in outer]) if outer else None) is not None
            x = col([ev], "order")[0]
            if direct and ev.frame is g.rootf and not any(g.search(is_ev(o), start=is_ev(ev)) for o in outer):
                c.ob("Q02.query", ev, re.fullmatch(some("order"), x) is not None and re.search(i + r"\.order", x) is not None, "nesting leaves the order as %s" % x, key="nested:order")
        c.done(g)
    fq = returning(c, r"Result<.*ProjectedSelect", r"AlgebraicQuery$")
    c.floor("Q02.query", "makers of a query's SQL", len(fq), 1)
    for f in fq:
        q = re.escape(pname(f, "AlgebraicQuery$"))
        g = pgraph(c, f, shut=OPQ + "|re_project|query_projection", deep={f.h})
        P = r"\w+::query_projection\(\w+, %s\)(\.0)*" % q
        sel = lambda proj: r"\w+::cc_to_select_query\(%s\.%s, %s\.cc, %s\.distinct, %s\.group_by_cols, %s\.order, %s\.limit\)" % (P, proj, q, P, P, q, q)
        for pre in (True, False):
            got = answers(g, opt(P + r"\.pre_aggregate_projection", pre))
            s = r"\w+::re_project\(%s, %s\.sql_projection\)" % (sel(r"pre_aggregate_projection(\.0)?"), P) if pre else sel("sql_projection")
            ok = [re.fullmatch(r"ProjectedSelect::Constant\{0: %s\}|ProjectedSelect::Query\{query: %s, projector: %s\.datalog_projector\}" % (P, s, P), x) for x in got]
            c.ob("Q02.query", f, len(got) == 2 and all(ok), "a query that is %snested becomes %s" % ("" if pre else "not ", [x[:500] for x, o in zip(got, ok) if not o]), key="query:%s" % pre)
        c.done(g)
    fv = returning(c, r"Result<\(.*ProjectedColumn, .*ValueTypeSet\)", r"&.*Variable$", r"&.*ConjoiningClauses$")
    c.floor("Q02.query", "projections of a variable", len(fv), 1)
    for f in fv:
        v, cc = re.escape(pname(f, r"Variable$")), re.escape(pname(f, r"ConjoiningClauses$"))
        g = pgraph(c, f, shut=OPQ.replace("|projected_column_for_var", "") + "|value_type|known_type_set", deep={f.h})
        got = answers(g)
        name = r"(%s|\w+::column_name\(VariableColumn::Variable\{0: %s\}\))(\.0)*" % (v, v)
        bound = r"\w+::get\(%s\.value_bindings, %s\)(\.0)?" % (cc, v)
        want = [r"tuple\{0: ProjectedColumn::ProjectedColumn\{0: ColumnOrExpression::Value\{0: %s\}, 1: %s\}, 1: ValueTypeSet::of_one\(TypedValue::value_type\(%s\)\)\}" % (bound, name, bound),
                r"tuple\{0: ProjectedColumn::ProjectedColumn\{0: ColumnOrExpression::Column\{0: (slice|Vec)::(get\(\w+::get\(%s\.column_bindings, %s\)(\.0)?, 0\)|first\(\w+::get\(%s\.column_bindings, %s\)(\.0)?\))(\.0)?\}, 1: %s\}, 1: (ConjoiningClauses|\w+)::known_type_set\(%s, %s\)\}" % (cc, v, cc, v, name, cc, v)]
        c.ob("Q02.query", f, len(got) == 2 and all(any(re.fullmatch(w, x) for x in got) for w in want), "a variable is projected as %s" % [x[:300] for x in got if not any(re.fullmatch(w, x) for w in want)], key="variable")
        c.done(g)

def op_local(o):
    p = o.get("p") or o.get("m") or o.get("c")
    return p[0] if p else 0

SQLOUT = r"(.*String)::(push_str|push|write_str|add_assign|write_fmt)"

@rule("Q02", "`String::push_str` appends; rusqlite binds a named argument to every place of that name")
def q02_value(c):
    c.rule("Q02.value", "every value in a query is written as it is stored: numbers, booleans, instants and doubles exactly, text and identifiers so that nothing in them is read as SQL")
    c.rule("Q02.args", "every argument named in a query's SQL is bound to the value it was named for, and no two values share a name")
    fs = {f.name: f for f in c.P.fns if f.body is not None and re.search(r" as .*QueryBuilder>::\w+$", f.path) and f.crate == "mentat_sql"}
    c.floor("Q02.value", "builders of SQL text", len(fs), 5)
    def go(name, items, specs, given=(), wide=None, tag=""):
        f = fs.get(name)
        if f is None: return c.ob("Q02.value", name, False, "there is no such writer", key=name)
        g = c.graph(f, None, small=0, keep=True, extra=lambda fn: fn.crate == f.crate or fn.name in ("to_micros",))
        out = r"self\.sql"
        T = within(g, *given) if given else g.T
        def emit(ev):
            if not re.fullmatch(SQLOUT, ev.callee): return None
            if re.fullmatch(out, rset(T.operand(ev.frame, ev.data["a"][0]))) is None: return None
            return [pieces(x) for x in sorted(sqltext.texts(T.operand(ev.frame, ev.data["a"][1]), T))]
        n = lang.rename(lang.emitted(g, emit, any_of(*given) if given else None), items)
        bad = None
        for s in specs:
            d = lang.diff(n, lang.pattern(s, items)) if wide is None else (lang.diff(n, lang.pattern(wide, items), subset=True) or lang.diff(lang.pattern(s, items), n, subset=True))
            if d is None: bad = None; break
            bad = bad or d
        c.ob("Q02.value", f, bad is None, "%s is written %s" % (tag or name, lang.words(n, 4)), key="%s:%s" % (name, tag))
        return g
    P = lambda n: re.escape(fs[n].body.name(2)) if n in fs else "x"
    go("push_sql", {"x": "raw " + P("push_sql")}, ["{x}"])
    go("push_identifier", {"x": r"raw str::replace\(%s, '`', '``'\)" % P("push_identifier")}, ["`{x}`"])
    go("push_bind_param", {"x": "raw " + P("push_bind_param")}, ["${x}"])
    v = P("push_typed_value")
    V = lambda k: choice(v, "TypedValue", k)
    go("push_typed_value", {"x": r"raw %s\.0" % v}, ["{x}"], [V("Ref")], tag="Ref")
    go("push_typed_value", {"x": r"raw %s\.0" % v}, ["{x}"], [V("Long")], tag="Long")
    for b in "01": go("push_typed_value", {}, [b], [V("Boolean"), contradicts("^%s\\.0$" % v, b)], tag="Boolean:" + b)
    go("push_typed_value", {"x": r"raw (\w+::to_micros\(%s\.0\)|\(\(DateTime::timestamp\(%s\.0\) Mul 1000000\) Add DateTime::timestamp_subsec_micros\(%s\.0\)\))" % (v, v, v)}, ["{x}"], [V("Instant")], tag="Instant")
    E = {"e": r"raw Argument::new_lower_exp\(%s\.0\.0\)" % v}
    lit = "{e}¦NULL¦9e999¦-9e999"
    go("push_typed_value", E, ["{e}"], [V("Double")], wide=lit, tag="Double")
    nan, infi = (lambda y: contradicts(r"::is_nan\(%s\.0\.0\)$" % v, y)), (lambda y: any_of(contradicts(r"::is_infinite\(%s\.0\.0\)$" % v, y), contradicts(r"::is_finite\(%s\.0\.0\)$" % v, 1 - y)))
    go("push_typed_value", E, ["{e}"], [V("Double"), nan(0), infi(0)], tag="Double:finite")
    go("push_typed_value", E, ["NULL"], [V("Double"), nan(1)], tag="Double:nan", wide="NULL")
    go("push_typed_value", E, ["9e999¦-9e999"], [V("Double"), nan(0), infi(1)], tag="Double:infinite", wide="9e999¦-9e999")
    f = fs.get("push_typed_value")
    if f is None: return
    name = r"raw .*"
    for k, store in (("String", r"self\.string_args"), ("Keyword", r"self\.args"), ("Uuid", r"self\.byte_args")):
        g = c.graph(f, None, small=0, keep=True, extra=lambda fn: fn.crate == f.crate)
        T = within(g, V(k))
        key = r"(\w+::as_bytes\(%s\.0\)|%s\.0)" % (v, v)
        val = r"(\w+::(to_vec|from|into)\()*%s\)*" % key
        pushed = {}
        for ev in g.events(lambda ev: ev.kind == "call" and re.fullmatch(SQLOUT, ev.callee) is not None and re.fullmatch(r"self\.sql", rset(T.operand(ev.frame, ev.data["a"][0]))) is not None, block=V(k)):
            ts = T.operand(ev.frame, ev.data["a"][1])
            for t in ts: pushed.setdefault("known" if re.fullmatch(r"HashMap::get\(%s, %s\)(\.0)?" % (store, key), rend(t)) else "new", set()).add(t)
        c.ob("Q02.args", f, "new" in pushed, "a %s isn't an argument" % k, key="new:" + k)
        kept = set()
        def keeps(ev):
            if ev.kind != "call" or not re.search(r"::(insert|push)$", ev.callee): return False
            a = [T.operand(ev.frame, x) for x in ev.data["a"]]
            if not re.fullmatch(store, rset(a[0])): return False
            if len(a) == 3: n, x = a[2], a[1]
            else:
                fl = [dict(t[3]) for t in a[1] if t[0] == "agg"]
                if not fl: return False
                n, x = (frozenset().union(*[q.get(i, frozenset()) for q in fl]) for i in ("0", "1"))
            kept.update(n)
            r = rset(x)
            return re.fullmatch(val, r) is not None or re.fullmatch(r"Value::(Text|Blob)\{0: %s\}" % val, r) is not None
        ks = g.events(keeps, block=V(k))
        c.ob("Q02.args", f, bool(ks), "the value of a %s isn't kept" % k, key="kept:" + k)
        c.ob("Q02.args", f, kept == pushed.get("new", set()), "a %s is named %s but kept as %s" % (k, sorted(map(rend, pushed.get("new", [])))[:2], sorted(map(rend, kept))[:2]), key="name:" + k)
        mk = lambda ev: ev.kind == "call" and ev.callee.endswith("fmt::format")
        q = g.search(ret_of(g), start=mk, block=keeps, given=V(k))
        c.ob("Q02.args", f, q is None, "a %s is given a name but not kept on %s" % (k, fmt_path(q or [])), key="every:" + k)
        for ev in g.events(mk, block=V(k)):
            used = {n for x in sqltext.texts(T.operand(ev.frame, {"c": ev.data["d"]}), T) for n in re.findall("\u27e6(.*?)\u27e7", x)}
            ctr = {n for n in used if re.search(r"self\.\w*counter", n)}
            c.ob("Q02.args", f, bool(ctr), "a %s is named %s" % (k, sorted(used)), key="counted:" + k)
            if ctr:
                fld = re.search(r"self\.(\w*counter)", sorted(ctr)[-1]).group(1)
                up = lambda e: field_write("SQLiteQueryBuilder", fld)(e) and re.search(r"Add 1\)(\.0)?$", rset(T.rvalue(e.frame, e.data[1], (), 0))) is not None
                q = g.search(ret_of(g), start=is_ev(ev), block=up, given=V(k))
                c.ob("Q02.args", f, q is None, "two arguments may have one name: %s" % fmt_path(q or []), key="distinct:" + k)
        c.done(g)
    f = fs.get("finish")
    if f is not None:
        g = c.graph(f, None, small=0, keep=True, extra=lambda fn: fn.crate == f.crate)
        g.T.lossy = True
        got = answers(g)
        c.ob("Q02.args", f, len(got) == 1 and re.fullmatch(r"SQLQuery::SQLQuery\{sql: self\.sql, args: \{?(self\.args|\|)+\}?\}", got[0]) is not None, "the finished query is %s" % got, key="finish")
        for fld, kind in (("string_args", "Text"), ("byte_args", "Blob")):
            ext = lambda ev: ev.kind == "call" and re.search(r"::(extend|push)$", ev.callee) is not None and (lambda a: a[0] == "self.args" and re.search(r"tuple\{0: self\.%s\[\]\.1, 1: (Rc::new\()?Value::%s\{0: self\.%s\[\]\.0\}" % (fld, kind, fld), a[1]) is not None)(args_of(g, ev))
            es = g.events(ext)
            loop = any(ev.callee.endswith("::push") for ev in es)
            q = None if loop else g.search(ret_of(g), block=ext)
            c.ob("Q02.args", f, bool(es) and q is None, "the %s arguments are left out%s" % (kind, " on " + fmt_path(q) if q else ""), key="finish:" + fld)
        bad = [ev.callee for ev in g.events(lambda ev: ev.kind == "call" and re.search(r"::(truncate|pop|remove|swap_remove|clear|drain|retain|split_off|dedup\w*)$", ev.callee) is not None)]
        c.ob("Q02.args", f, not bad, "arguments are dropped: %s" % bad, key="finish:all")
        c.done(g)
