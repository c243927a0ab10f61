"""Results: their shape, how rows become values, distinctness, limits; aggregates; pull expressions."""
import re
from ctx import *
from ctx import _undiscr
from flow import Ev
from registry import rule
from rules.cache import within, answers, among, each
from rules.idents import loops
from rules.joins import loops_, nexts
from rules.orjoin import aggs, makes
from rules.render import returning, pname
from rules.pattern import col

PJ = "mentat_query_projector"
SHAPES = {"FindScalar": "Scalar", "FindTuple": "Tuple", "FindColl": "Coll", "FindRel": "Rel"}
LOOK = r"(?:TypedIndex::lookup|TypedSQLValue::from_sql_value_pair|TypedValue::from_sql_value_pair)"
ROW = r"(?:Rows::next\(rows\)|FallibleIterator::next\(rows\))"
OPQ = re.compile(r"TypedSQLValue>?::from_sql|::Puller::|TypedIndex::lookup$")

def own(c, *crates): return [f for f in c.P.fns if f.crate in crates and f.kind != "closure" and f.body is not None and not re.search(r"::tests?::", f.path)]
def projectors(c): return [f for f in own(c, PJ) if f.name == "project" and re.search(r" as [\w:]*Projector>", f.path)]
def rgraph(c, f, small=60):
    g = c.graph(f, None, small=small, keep=True)
    g.T.opaque = lambda n: OPQ.search(n) is not None
    return g
def adt_of(f): return re.match(r"<([\w:]+)", f.path).group(1).split("::")[-1]
def shape_of(g):
    return {m for t in answers(g) for m in re.findall(r"QueryResults::(\w+)\{", t)}
def result(g, *given):
    out = set()
    for x in answers(g, *given):
        m = re.match(r"QueryOutput::QueryOutput\{spec: ([^{}]*), results: (.*)\}$", x)
        if m is None: out.add(x); continue
        r = m.group(2)
        depth, parts, cur = 0, [], ""
        for ch in (r[1:-1] if r[0] == "{" else r):
            if ch == "|" and depth == 0: parts.append(cur); cur = ""; continue
            depth += (ch in "({[") - (ch in ")}]")
            cur += ch
        out |= set(parts + [cur])
    return sorted(out)

@rule("Q08", "rusqlite's `Rows::next` yields every row of a statement once, in order, and then None")
def q08_rows(c):
    c.rule("Q08.rows", "a collection or relation has the values of every row, in order, and a scalar or tuple those of the first row, or nothing when there is none")
    fs = [f for f in projectors(c) if adt_of(f) != "ConstantProjector"]
    c.floor("Q08.rows", "ways of turning rows into results", len(fs), 8)
    for f in fs:
        c.see(f)
        g = rgraph(c, f)
        who = adt_of(f)
        sh = shape_of(g)
        if not c.ob("Q08.rows", f, len(sh) == 1, "results have the shapes %s" % sorted(sh), key="shape:" + who): c.done(g); continue
        sh = next(iter(sh))
        fields = {n: t for n, t, _ in next(a for p, a in c.P.adts.items() if p.endswith("::" + who))["vars"][0]["f"]}
        tmpl = next((n for n, t in fields.items() if re.search(r"TypedIndex$", t)), None)
        tmpls = next((n for n, t in fields.items() if re.search(r"Vec<.*TypedIndex>", t)), None)
        val = r"TypedIndex::lookup\(self\.%s(?:\[\])?, %s\)" % (tmpl or tmpls, ROW)
        ent = r"Row::get\(%s, %%s\)" % ROW
        ok = ret_of(g, "Ok")
        if sh in ("Scalar", "Tuple"):
            none = result(g, opt("^%s$" % ROW, False))
            c.ob("Q08.rows", f, none == ["QueryResults::%s{0: Option::None{}}" % sh], "no rows give %s" % none, key="none:" + who)
            some = result(g, opt("^%s$" % ROW, True))
            if tmpl or tmpls: want = val if tmpl else r"\[%s\]" % val
            else: want = r"Binding::Map\{0: BTreeMap::get\(Puller::pull\(self\.puller, schema, sqlite, once::once\(%s\)\), %s\)\}" % (ent % "0", ent % "0")
            fits = len(some) == 1 and re.fullmatch(r"QueryResults::%s\{0: (?:Option::Some\{0: )?%s\}+" % (sh, want), some[0]) is not None
            if not fits and tmpls and len(some) == 1 and re.fullmatch(r"QueryResults::Tuple\{0: (?:Option::Some\{0: )?Vec::(?:new|with_capacity)\(.*\)\}+", some[0]):
                adds = lambda ev: ev.kind == "call" and re.search(r"::push$", ev.callee) is not None and re.fullmatch(val, args_of(g, ev)[1]) is not None
                fits = each(g, r"self\.%s" % tmpls, adds, ok, given=opt("^%s$" % ROW, True)) is None
            c.ob("Q08.rows", f, fits, "the first row gives %s" % [x[:200] for x in some], key="first:" + who)
            nx = [ev for ev in g.events(call_to(r".*(Rows|FallibleIterator.*)::next"))]
            for ev in nx:
                q = g.search(is_ev(ev), start=is_ev(ev))
                c.ob("Q08.rows", f, q is None and len(nx) == 1, "more than the first row is read: %s" % fmt_path(q or []), key="once:" + who)
            c.done(g); continue
        ls = loops(g, ROW)
        if not c.floor("Q08.rows", "iterations over the rows in " + who, len(ls), 1): c.done(g); continue
        for some, none in ls.values():
            q = g.search(ok, block=none)
            c.ob("Q08.rows", f, q is None, "not every row is read: %s" % fmt_path(q or []), key="all:" + who)
            nxt = any_of(some, none, ok)
            if tmpl:
                op = lambda ev: ev.kind == "call" and re.search(r"::push$", ev.callee) is not None and re.fullmatch(val, args_of(g, ev)[1]) is not None
                q = g.search(nxt, start=some, block=op)
                c.ob("Q08.rows", f, q is None, "a row adds nothing to the results: %s" % fmt_path(q or []), key="adds:" + who)
            elif tmpls:
                op = lambda ev: ev.kind == "call" and re.search(r"::push$", ev.callee) is not None and re.fullmatch(val, args_of(g, ev)[1]) is not None
                inner = loops(g, r"(?:%s|self\.%s\[\])" % (val, tmpls))
                bulk = lambda ev: ev.kind == "call" and re.search(r"::(extend|append)$", ev.callee) is not None and re.search(val, args_of(g, ev)[1]) is not None
                ends = []
                for s2, n2 in inner.values():
                    q = g.search(any_of(s2, n2, ok), start=s2, block=op)
                    if q is None: ends.append(n2)
                    else: c.ob("Q08.rows", f, False, "a column's value is left out: %s" % fmt_path(q), key="column:" + who)
                q = g.search(nxt, start=some, block=any_of(bulk, *ends))
                c.ob("Q08.rows", f, q is None, "a row adds nothing to the results: %s" % fmt_path(q or []), key="adds:" + who)
            if "pull" in " ".join(fields) or not (tmpl or tmpls):
                pulls = next((n for n, t in fields.items() if re.search(r"Vec<.*PullTemplate>", t)), None)
                idx = r".*\.indices\.sql_index|0"
                op = lambda ev: ev.kind == "call" and re.search(r"Set::insert$", ev.callee) is not None and re.fullmatch(ent % ("(?:%s)" % idx), args_of(g, ev)[1]) is not None
                if pulls is None: q = g.search(nxt, start=some, block=op)
                else:
                    ends = [n2 for s2, n2 in loops_any_(g, r"[^|]*\.%s\[\]\.indices.*" % pulls) if g.search(any_of(s2, n2, ok), start=s2, block=op) is None]
                    q = g.search(nxt, start=some, block=any_of(*ends)) if ends else []
                c.ob("Q08.rows", f, q is None, "the entity to pull isn't taken from every row: %s" % fmt_path(q or []), key="entity:" + who)
        if tmpl or tmpls:
            vec = {args_of(g, ev)[0] for ev in g.events(lambda ev: ev.kind == "call" and re.search(r"::(push|extend|append)$", ev.callee) is not None and re.search(val, args_of(g, ev)[1]) is not None)}
            got = result(g)
            want = [r"QueryResults::Coll\{0: %s\}"] if sh == "Coll" else [r"QueryResults::Rel\{0: RelResult::RelResult\{width: self\.len, values: %s\}\}"]
            c.ob("Q08.rows", f, len(vec) == 1 and len(got) == 1 and any(re.fullmatch(w % re.escape(next(iter(vec))), got[0]) for w in want), "what's returned, %s, is not what the rows gave (%s)" % ([x[:160] for x in got], sorted(vec)), key="returned:" + who)
        c.done(g)

def loops_any_(g, src):
    return list(loops(g, r"(?:\w+::(?:iter|iter_mut|into_iter)\()?%s" % src).values())

def elem_is(sub, v): return choice("^(%s)$" % sub, "query::Element", v)
def spec_is(sub, v): return choice("^(%s)$" % sub, "query::FindSpec", v)

@rule("Q08")
def q08_shape(c):
    c.rule("Q08.shape", "each kind of find specification gives results of its own kind, and the kind meant for an empty or a known result too")
    c.rule("Q08.pull", "pull expressions, and only they, go to a projector that pulls")
    c.rule("Q08.known", "an answer is given without asking the store only when the query is known to be empty, or when nothing is to be asked and every result is known")
    by = {adt_of(f): (shape_of(rgraph(c, f)), f) for f in projectors(c)}
    fs = [f for f in own(c, PJ) if re.search(r"Either<.*ConstantProjector, .*CombinedProjection>", f.body.ty(0))]
    c.floor("Q08.shape", "functions that choose a projector", len(fs), 1)
    for f in fs:
        c.see(f)
        g = c.graph(f, None, small=60, keep=True, extra=lambda x: x.crate == "mentat_query_algebrizer" and "AlgebraicQuery" in str(x.self_ty) and x.body.ty(0) == "bool" and x.name != "is_known_empty")
        keep = re.compile(r"::(project_elements|is_known_empty|from_constants|empty_factory)$")
        g.T.opaque = lambda n: keep.search(n) is not None or OPQ.search(n) is not None
        q_ = next(f.body.name(i) for i in range(1, f.body.argc + 1) if "AlgebraicQuery" in f.body.ty(i))
        FS = r"%s\.find_spec" % q_
        el = FS + r"\.0(?:\[\])?"
        pulls = {p for p in by if any(re.search(r"Puller|Pull(Template|Operation)", t) for _, t, _ in next(a for k, a in c.P.adts.items() if k.endswith("::" + p))["vars"][0]["f"])}
        for v, sh in SHAPES.items():
            for kind in ("Variable", "Pull", "Aggregate", "Corresponding"):
                pull = "1" if kind == "Pull" else "0"
                given = [spec_is(FS, v), elem_is(el, kind), contradicts(r"any\(.*%s.*\)$" % FS, pull)]
                built_ = set()
                for p in by:
                    if p == "ConstantProjector": continue
                    for ev, _ in aggs(g, p, None):
                        if g.search(is_ev(ev), given=any_of(*given)) is not None: built_.add(p)
                shapes = {s for p in built_ for s in by[p][0]}
                c.ob("Q08.shape", f, shapes == {sh}, "%s gives results of the shapes %s" % (v, sorted(shapes)), key="shape:%s:%s" % (v, kind))
                c.ob("Q08.pull", f, bool(built_) and all((p in pulls) == (kind == "Pull") for p in built_), "with a %s, %s goes to %s" % (kind, v, sorted(built_)), key="pull:%s:%s" % (v, kind))
        # answers that need no rows
        known = lambda ev: ev.kind == "call" and re.search(r"::from_constants$", ev.callee) is not None
        empty = lambda ev: ev.kind == "call" and re.search(r"::empty_factory$", ev.callee) is not None
        none_ = lambda ev: ev.kind == "stmt" and ev.data[1].get("r") == "agg" and str(ev.data[1].get("adt", "")).endswith("::ConstantProjector")
        c.floor("Q08.known", "known answers", len(g.events(known)), 1)
        q = g.search(none_, block=any_of(known, empty))
        c.ob("Q08.known", f, q is None, "a constant answer that's neither known nor empty: %s" % fmt_path(q or []), key="none")
        for label, given in (("a constraint", contradicts(r"is_empty\(.*\bwheres\b.*\)$", "0")), ("a table", contradicts(r"is_empty\(.*\bfrom\b.*\)$", "0")), ("an unknown result", contradicts(r"all\(.*%s.*\)$" % FS, "0"))):
            q = g.search(known, given=given)
            c.ob("Q08.known", f, q is None, "a query with %s is answered without asking: %s" % (label, fmt_path(q or [])), key="known:" + label)
        q = g.search(empty, given=contradicts(r"is_known_empty\(%s\)$" % q_, "0"))
        c.ob("Q08.known", f, q is None, "a query not known to be empty is answered as empty: %s" % fmt_path(q or []), key="empty")
        c.done(g)
    # a query's results are known when all its variables are bound, and nothing else ever is
    fs = [f for f in own(c, "mentat_query_algebrizer") if f.name == "is_fully_bound"]
    for f in [x for x in c.P.fns if x.kind == "closure" and x.body is not None and c.P.root_of(x) in fs]:
        c.see(f)
        g = c.graph(f, None, small=10, keep=True)
        g.T.opaque = lambda n: n.endswith("::is_value_bound")
        a = f.body.name(2) or "_2"
        for v in ("Variable", "Corresponding", "Pull", "Aggregate"):
            got = answers(g, choice("", "query::Element", v))
            want = r".*is_value_bound\(.*, \w+\.0\)" if v in ("Variable", "Corresponding") else "0"
            c.ob("Q08.known", f, len(got) == 1 and re.fullmatch(want, got[0]) is not None, "a %s counts as known when %s" % (v, got), key="bound:" + v)
        c.done(g)
    # empty results
    for f in own(c, PJ):
        if not (re.fullmatch(r".*QueryOutput(<.*>)?", f.body.ty(0)) and f.body.argc == 1 and "FindSpec" in f.body.ty(1)): continue
        c.see(f)
        g = c.graph(f, None, small=20, keep=True)
        s = f.body.name(1)
        for v, want in (("FindScalar", r"QueryResults::Scalar\{0: Option::None\{\}\}"), ("FindTuple", r"QueryResults::Tuple\{0: Option::None\{\}\}"),
                        ("FindColl", r"QueryResults::Coll\{0: Vec::new\(\)\}"), ("FindRel", r"QueryResults::Rel\{0: RelResult::RelResult\{width: Vec::len\(%s\.0\), values: Vec::new\(\)\}\}" % s)):
            got = result(g, spec_is(s, v))
            c.ob("Q08.shape", f, len(got) == 1 and re.fullmatch(want, got[0]) is not None, "an empty %s is %s" % (v, got), key="empty:" + v)
        c.done(g)

@rule("Q08")
def q08_decode(c):
    c.rule("Q08.decode", "a value is read from its own column with the type known for it, or with the type in the column next to it")
    fs = [f for f in own(c, PJ) if f.self_ty and f.self_ty.endswith("TypedIndex") and re.search(r"Result<.*Binding", f.body.ty(0))]
    c.floor("Q08.decode", "ways of reading a value", len(fs), 1)
    for f in fs:
        c.see(f)
        g = c.graph(f, None, small=4, keep=True)
        g.T.opaque = lambda n: "from_sql_value_pair" in n
        for v, want in (("Known", r"Row::get\(row, self\.0\), self\.1"), ("Unknown", r"Row::get\(row, self\.0\), Row::get\(row, self\.1\)")):
            got = [x for x in answers(g, choice("^self$", "TypedIndex", v)) if not x.startswith("Result::Err")]
            c.ob("Q08.decode", f, len(got) == 1 and re.fullmatch(r"(?:Binding::Scalar\{0: |From::from\(|Into::into\()*(?:\w+::)*from_sql_value_pair\(%s\)[)}]*(\.0)?" % want, got[0]) is not None, "a %s column is read as %s" % (v, got), key=v)
        c.done(g)

@rule("Q08")
def q08_distinct(c):
    c.rule("Q08.distinct", "collections and relations are made distinct unless every column has only one value or the query aggregates; scalars and tuples need not be; and only a limit of one makes distinctness moot")
    n = 0
    for f in own(c, PJ):
        if f.name == "combine" and re.search(r"CombinedProjection", f.body.ty(0)) and any(re.search(r"ProjectedElements$", f.body.ty(i)) for i in range(1, f.body.argc + 1)) and not any("Box<dyn" in f.body.ty(i) for i in range(1, f.body.argc + 1)):
            n += 1
            c.see(f)
            g = c.graph(f, None, small=30, keep=True)
            who = f.self_ty.split("::")[-1]
            pr = next((x for x in projectors(c) if adt_of(x) == who), None)
            if pr is None: continue
            gp = rgraph(c, pr); sh = shape_of(gp); c.done(gp)
            e = pname(f, "ProjectedElements")
            pre = lambda some: any_of(opt(r"^%s\.pre_aggregate_projection$" % e, some), contradicts(r"is_some\(.*pre_aggregate_projection\)$", "1" if some else "0"), contradicts(r"is_none\(.*pre_aggregate_projection\)$", "0" if some else "1"))
            ways = {"all": {True}, "any": {False}}
            for ev in g.events(call_to(r".*Iterator::(all|any)$")):
                for t in g.T.operand(ev.frame, ev.data["a"][1]):
                    pol = polarity(c, t[1]) if t[0] == "closure" else None
                    c.ob("Q08.distinct", f, pol in ways[ev.callee.rsplit("::", 1)[-1]], "columns are told from those with only one value by %s of another test" % ev.callee, key="test:" + who)
            unit = lambda v: any_of(contradicts(r"^(?:\w+::)*all\(.*\)$", v), contradicts(r"^(?:\w+::)*any\(.*\)$", "1" if v == "0" else "0"))
            cases = {"aggregated": ([pre(True)], "0"), "single": ([pre(False), unit("1")], "0"), "plain": ([pre(False), unit("0")], "1")}
            for k, (given, want) in cases.items():
                if sh & {"Scalar", "Tuple"}: want = "0"
                T = within(g, *given)
                got = set()
                for ev in g.events(lambda ev: ev.kind == "stmt" and ev.data[1].get("r") == "agg" and str(ev.data[1].get("adt", "")).endswith("::CombinedProjection")):
                    if (ev.frame.id, ev.block) not in T.only: continue
                    i = ev.data[1]["f"].index("distinct")
                    got |= {rend(t) for t in T.operand(ev.frame, ev.data[1]["a"][i])}
                val = {truth(x, unit_=("1" if k == "single" else "0" if k == "plain" else None)) for x in got}
                c.ob("Q08.distinct", f, val == {want}, "when %s, %s is made distinct: %s" % (k, sorted(sh), sorted(got)), key="%s:%s" % (who, k))
            c.done(g)
    c.floor("Q08.distinct", "projections", n, 8)
    # the elements that have only one value
    fs = [f for f in own(c, "edn") if f.self_ty and f.self_ty.endswith("query::Element") and f.body.argc == 1 and f.body.ty(0) == "bool"]
    c.floor("Q08.distinct", "tests of an element", len(fs), 1)
    for f in fs:
        g = c.graph(f, None, small=4, keep=True)
        for v in ("Variable", "Pull"):
            got = answers(g, choice("^self$", "query::Element", v))
            c.ob("Q08.distinct", f, got == ["0"], "a %s counts as having only one value" % v, key="unit:" + v)
        c.done(g)
    # limits
    fs = [f for f in own(c, PJ) if any("edn::query::Limit" in f.body.ty(i) for i in range(1, f.body.argc + 1)) and "CombinedProjection" in f.body.ty(0)]
    c.floor("Q08.distinct", "functions that look at the limit", len(fs), 1)
    for f in fs:
        c.see(f)
        g = c.graph(f, None, small=20, keep=True)
        off = lambda ev: field_write("CombinedProjection", "distinct")(ev) or (ev.kind == "stmt" and ev.data[1].get("r") == "agg" and str(ev.data[1].get("adt", "")).endswith("::CombinedProjection"))
        lim = next(f.body.name(i) for i in range(1, f.body.argc + 1) if "query::Limit" in f.body.ty(i))
        me = pname(f, "CombinedProjection") + r"\.distinct"
        alter = lambda ev: ev.kind == "stmt" and ((ev.data[1].get("r") == "use" and not re.fullmatch(me, rset(T.operand(ev.frame, ev.data[1]["o"])))) or (ev.data[1].get("r") == "agg" and not re.fullmatch(me, rset(T.operand(ev.frame, ev.data[1]["a"][ev.data[1]["f"].index("distinct")])))) or ev.data[1].get("r") not in ("use", "agg"))
        c.floor("Q08.distinct", "places that drop distinctness", len(g.events(off)), 1)
        def isnt(ev):
            """Edges not taken when the limit isn't one."""
            if relation(ev, "^%s$" % lim, r"^Limit::Fixed\{0: 1\}$") == "Eq" or relation(ev, r"^%s\.0$" % lim, "^1$") == "Eq": return True
            return ev.kind == "edge" and ev.tag is not None and str(ev.tag[2]) == "1" and rset(g.T.operand(ev.frame, ev.data["o"])) == lim + ".0"
        T = within(g, isnt)
        q = g.search(lambda ev: off(ev) and alter(ev), block=isnt)
        c.ob("Q08.distinct", f, q is None, "distinctness is dropped for a limit that isn't one: %s" % fmt_path(q or []), key="limit")
        c.done(g)
    # who may drop it: only collections and relations, whose limit is that of the query
    # the limit of scalars and tuples is one
    fs = [f for f in own(c, "edn") if f.self_ty and f.self_ty.endswith("query::FindSpec") and f.body.argc == 1]
    for name, want in (("is_unit_limited", {"FindScalar": "1", "FindTuple": "1", "FindColl": "0", "FindRel": "0"}),
                       ("expected_column_count", {"FindScalar": "1", "FindTuple": "Vec::len(self.0)", "FindColl": "1", "FindRel": "Vec::len(self.0)"}),
                       ("columns", {"FindScalar": "once::once(self.0)", "FindTuple": "self.0", "FindColl": "once::once(self.0)", "FindRel": "self.0"})):
        f = next((x for x in fs if x.name == name), None)
        if f is None: continue
        c.see(f)
        g = c.graph(f, None, small=8, keep=True)
        for v, w in want.items():
            got = answers(g, spec_is("self", v))
            c.ob("Q08.distinct", f, got == [w], "%s of %s is %s" % (name, v, got), key="%s:%s" % (name, v))
        c.done(g)

def polarity(c, h):
    """Whether a closure tells the elements that have only one value (True), the others (False), or neither (None)."""
    f = c.P.by_h.get(h)
    if f is None: return None
    g = c.graph(f, None, small=6, keep=True, extra=lambda x: x.crate == "edn" and x.body.ty(0) == "bool" and str(x.self_ty).endswith("query::Element"))
    got = tuple(tuple(truth(x) for x in answers(g, elem_is(r"[\w.]+", v))) for v in ("Aggregate", "Corresponding", "Variable", "Pull"))
    c.done(g)
    return {(("1",), ("1",), ("0",), ("0",)): True, (("0",), ("0",), ("1",), ("1",)): False}.get(got)

def truth(x, unit_=None):
    """A rendered boolean, given whether every column has only one value."""
    n = 0
    while True:
        m = re.match(r"Not\((.*)\)$", x)
        if m is None: break
        x = m.group(1); n ^= 1
    if re.match(r"[\w:]*all\(", x): x = unit_
    elif re.match(r"[\w:]*any\(", x): x = None if unit_ is None else "1" if unit_ == "0" else "0"
    if re.match(r"[\w:]*is_some\(", x): x = "1" if unit_ is None else "0"
    if x not in ("0", "1"): return x
    return str(int(x) ^ n)

def tally(g, emit, start, stop, given=None, cap=12):
    """What can happen between a `start` and the next `stop`: the multisets of symbols that emit(ev) gives."""
    g.trans = []
    try:
        g._walk(g._init(), None, given)
        tr = g.trans
    finally: g.trans = None
    out = {}
    for a, b, ev in tr: out.setdefault(a, []).append((b, ev))
    todo = [(b, ()) for a, b, ev in tr if ev is not None and start(ev)]
    seen, res = set(todo), set()
    while todo:
        s, v = todo.pop()
        fr, blk, si = s[:3]
        stmts = fr.body.blocks[blk]["s"]
        for i in range(si, len(stmts)):
            x = emit(Ev(g, "stmt", fr, blk, i, stmts[i]))
            if x: v = tuple(sorted(v + (x,)))[:cap]
        for b, ev in out.get(s, ()):
            w = v
            if ev is not None:
                if stop(ev): res.add(v); continue
                if ev.kind == "ret" and ev.frame is g.rootf: continue
                x = emit(ev)
                if x: w = tuple(sorted(v + (x,)))[:cap]
            if (b, w) not in seen: seen.add((b, w)); todo.append((b, w))
    return res

def op_ty(ev, i):
    from rules.render import op_local
    try: return ev.frame.body.ty(op_local(ev.data["a"][i]))
    except Exception: return ""

@rule("Q08")
def q08_columns(c):
    c.rule("Q08.columns", "every element of the find specification takes its own column, and the next one its type when it isn't known, in the order of the elements")
    c.rule("Q08.group", "an aggregating query groups by exactly the variables it shows or orders by (not those in `the`), and their types where needed, all of them taken from the inner query with the `:with` variables")
    from rules.terms import home
    fs = [f for f in own(c, PJ) if re.search(r"ProjectedElements", f.body.ty(0)) and "Result" in f.body.ty(0)]
    c.floor("Q08.columns", "functions that lay out columns", len(fs), 1)
    for f in fs:
        c.see(f)
        g = c.graph(f, None, small=10, keep=True)
        shut = re.compile(r"::(projected_column_for_(var|simple_aggregate)|candidate_(type_)?column|column_name|known_type_set|bound_value|(has_)?unique_type_tag|is_value_bound|to_simple)$")
        g.T.opaque = lambda n: shut.search(n) is not None
        q_ = next(f.body.name(i) for i in range(1, f.body.argc + 1) if "AlgebraicQuery" in f.body.ty(i))
        E = r"elements\[\]"
        els = loops(g, E)
        if not c.floor("Q08.columns", "iterations over the elements", len(els), 1): c.done(g); continue
        push = lambda ev: ev.kind == "call" and re.search(r"Vec::(push|insert)$", ev.callee) is not None
        ins = lambda ev: ev.kind == "call" and re.search(r"IndexSet::insert$", ev.callee) is not None
        kn = {"".join(sorted(rset(g.T.operand(ev.frame, ev.data[1]["a"][0])))): rset(g.T.operand(ev.frame, ev.data[1]["a"][0])) for ev in g.events(lambda ev: ev.kind == "stmt" and ev.data[1].get("r") == "agg" and str(ev.data[1].get("adt", "")).endswith("TypedIndex"))}
        c.ob("Q08.columns", f, len(kn) == 1, "columns are counted as %s" % sorted(kn.values()), key="index")
        idx = next(iter(kn.values()), "")
        counted_ = " Add " in idx
        ih = {home(g, ev.frame, ev.data[1]["a"][0]) for ev in g.events(lambda ev: ev.kind == "stmt" and ev.data[1].get("r") == "agg" and str(ev.data[1].get("adt", "")).endswith("TypedIndex"))}
        V = r"(?:%s\.0(?:\.var)?|(?:\w+::)*to_simple\(%s\.0\)\.var|BTreeSet::iter\(%s\.\w+\)\[\]|IndexSet::new\(\)\[\]|%s\.\w+\[\])" % (E, E, q_, q_)
        var = r"(?:\w+::)*projected_column_for_var\(%s, %s\.cc\)\.0|ProjectedColumn::ProjectedColumn\{0: (?:\w+::)*candidate_column\(%s\.cc, %s\)\.0, 1: (?:\w+::)*candidate_column\(%s\.cc, %s\)\.1\}" % (V, q_, q_, V, q_, V)
        typ = r"ProjectedColumn::ProjectedColumn\{0: (?:(?:\w+::)*candidate_type_column\(%s\.cc, %s\)\.0|ColumnOrExpression::Column\{0: BTreeMap::get\(%s\.cc\.extracted_types, %s\)\}), 1: .*\}" % (q_, V, q_, V)
        vname = r"Either::Left\{0: (?:(?:\w+::)*projected_column_for_var\(%s, %s\.cc\)\.0\.1|(?:\w+::)*candidate_column\(%s\.cc, %s\)\.1)\}" % (V, q_, q_, V)
        tname = r"Either::Left\{0: (?:\w+::)*candidate_type_column\(%s\.cc, %s\)\.1\}" % (q_, V)
        agg = r"Either::Right\{0: (?:\w+::)*projected_column_for_simple_aggregate\(.*, %s\.cc\)\.0\}" % q_
        pulled = [ev for ev in g.events(ins) if re.fullmatch(E + r"\.0\.var", args_of(g, ev)[1])]
        outer = {home(g, ev.frame, ev.data["a"][0]) for ev in pulled}
        memo = {}
        def sym(ev):
            if push(ev):
                t, a = op_ty(ev, 1), args_of(g, ev)[1]
                if "TypedIndex" in t:
                    m = re.match(r"TypedIndex::(Known|Unknown)\{", a)
                    return "known" if m and m.group(1) == "Known" else "unknown"
                if "PullTemplate" in t: return "pull"
                if "GroupBy" in t:
                    m = re.fullmatch(r"GroupBy::ProjectedColumn\{0: (?:\w+::)*column_name\(VariableColumn::(Variable|VariableTypeTag)\{0: (.*)\}\)\}", a)
                    return "group:" + ("type" if m and m.group(1) != "Variable" else "var" if m else a[:60])
                if "Either<" in t: return "outer:" + next((k for k, r in (("var", vname), ("type", tname), ("agg", agg)) if re.fullmatch(r, a)), a[:80])
                if "ProjectedColumn" in t: return "inner:" + next((k for k, r in (("var", var), ("type", typ)) if re.fullmatch(r, a)), a[:80])
                return None
            if ins(ev): return "grouped" if home(g, ev.frame, ev.data["a"][0]) in outer else "the"
            if ev.kind == "stmt" and counted_ and len(ev.data[0]) == 1 and ev.data[1].get("r") == "use" and ev.frame.body.name(ev.data[0][0]):
                if (ev.frame.id, ev.data[0][0]) not in ih: return None
                ks = {m.group(1) if m else "?" for m in (re.search(r" Add (\d+)\)$", rend(t)) for t in g.T.operand(ev.frame, ev.data[1]["o"]))}
                return "+" + "/".join(sorted(ks))
            return None
        def emit(ev):
            k = (ev.frame.id, ev.block, ev.kind, str(ev.data[:2]) if ev.kind == "stmt" else "")
            if ev.kind not in ("call", "stmt"): return None
            if k not in memo: memo[k] = sym(ev)
            return memo[k]
        some = any_of(*[s for s, n in els.values()]); nxt = any_of(*[x for p in els.values() for x in p])
        tag = lambda yes: opt(r"^(?:\w+::)*unique_type_tag\(.*\)$", yes)
        fresh = lambda yes: contradicts(r"BTreeSet::contains\(.*\)$", "0" if yes else "1")
        n1, n2 = (("+1",), ("+2",)) if counted_ else ((), ())
        cases = []
        for v, extra in (("Variable", ("grouped",)), ("Corresponding", ("the",))):
            cases.append((v + ":typed", [elem_is(E, v), tag(True)], ("inner:var", "known", "outer:var") + extra + n1))
            cases.append((v + ":untyped", [elem_is(E, v), tag(False)], ("inner:var", "inner:type", "unknown", "outer:var", "outer:type") + extra + n2))
        cases.append(("Pull", [elem_is(E, "Pull"), tag(True)], ("inner:var", "known", "pull", "outer:var", "grouped") + n1))
        hasu = lambda yes: any_of(tag(yes), contradicts(r"is_none\(.*unique_type_tag\(.*\)\)$", "0" if yes else "1"), contradicts(r"is_some\(.*unique_type_tag\(.*\)\)$", "1" if yes else "0"), contradicts(r"^[\w:]*has_unique_type_tag\(.*\)$", "1" if yes else "0"))
        A = [elem_is(E, "Aggregate"), opt(r"^(?:\w+::)*to_simple\(.*\)$", True)]
        cases += [("Aggregate:again", A + [fresh(False)], ("known", "outer:agg") + n1),
                  ("Aggregate:typed", A + [fresh(True), hasu(True)], ("inner:var", "known", "outer:agg") + n1),
                  ("Aggregate:untyped", A + [fresh(True), hasu(False)], ("inner:type", "inner:var", "known", "outer:agg") + n1)]
        for k, given, want in cases:
            got = tally(g, emit, some, nxt, any_of(*given))
            c.ob("Q08.columns", f, got == {tuple(sorted(want))}, "for %s: %s" % (k, sorted(got)), key=k)
        # types and places
        for ev in g.events(push):
            a = args_of(g, ev)[1]
            if a.startswith("TypedIndex::Unknown"):
                at = re.escape(idx)
                ok = all(re.fullmatch(r"\((.*) Add 1\)", x) for x in [rend(t) for o in [ev.data["a"][1]] for t in second(g, ev)])
                c.ob("Q08.columns", f, ok, "a value's type is read from %s" % a[:160], key="type")
            if a.startswith("PullTemplate"):
                c.ob("Q08.columns", f, re.search(r"output_index: (Vec::len\(Vec::new\(\)\)|#)[,}]", a) is not None and ("sql_index: " + idx) in a, "a pull goes from and to %s" % a[:160], key="pull:place")
        rj = lambda ev: ev.kind == "ret" and ev.tag == "Err"
        # what can't be projected is refused
        seenv = lambda who: None
        cont = [ev for ev in g.events(call_to(r".*IndexSet::contains$")) if re.search(E, args_of(g, ev)[1])]
        for v in ("Variable", "Corresponding"):
            for h in sorted({home(g, ev.frame, ev.data["a"][0]) for ev in cont}, key=str):
                mine = {(ev.frame.id, ev.block) for ev in cont if home(g, ev.frame, ev.data["a"][0]) == h}
                q = g.search(nxt, start=some, given=any_of(elem_is(E, v), branch_of(g, mine, "1")))
                c.ob("Q08.columns", f, q is None, "a variable already %s is accepted again as a %s: %s" % ("shown" if h in outer else "in `the`", v, fmt_path(q or [])), key="twice:%s:%s" % (v, h in outer))
        c.ob("Q08.columns", f, {home(g, ev.frame, ev.data["a"][0]) in outer for ev in cont} == {True, False}, "variables aren't looked for among both those shown and those in `the`", key="twice")
        # ordering, grouping, :with
        bound = contradicts(r"is_value_bound\(.*\)$", "0")
        names = loops(g, r"(?:\w+::)?(?:iter\()?%s\.named_projection\)?\[\]" % q_)
        c.floor("Q08.group", "iterations over the variables ordered by", len(names), 1)
        notthere = any_of(contradicts(r"IndexSet::contains\(.*\)$", "0"), bound)
        for s, n in names.values():
            nx = any_of(s, n)
            for k, given, want in (("typed", [fresh(True), hasu(True)], ("inner:var", "outer:var", "grouped")), ("untyped", [fresh(True), hasu(False)], ("inner:type", "inner:var", "outer:type", "outer:var", "grouped")),
                                   ("there", [fresh(False), hasu(True)], ("outer:var", "grouped"))):
                got = tally(g, emit, s, nx, any_of(notthere, *given))
                c.ob("Q08.group", f, got == {tuple(sorted(want))}, "for a variable ordered by (%s): %s" % (k, sorted(got)), key="order:" + k)
            for k, given in (("shown", contradicts(r"IndexSet::contains\(.*\)$", "1")),):
                got = tally(g, emit, s, nx, given)
                c.ob("Q08.group", f, got <= {()}, "a variable ordered by that's %s: %s" % (k, sorted(got)), key="order:" + k)
        gl = [ev for ev in g.events(push) if "GroupBy" in op_ty(ev, 1)]
        if c.floor("Q08.group", "places that group", len(gl), 1):
            ls = {k: v for k, v in itered(g, r".*IndexSet::new\(\)\[\].*").items() if any(g.search(is_ev(e), start=v[0], block=any_of(*v)) is not None for e in gl)}
            flag = lambda v: any_of(contradicts(r"^repeat::repeat\([01]\)\[\](\.\d)?$|^[\w.\[\]]*group$", v), boolean(r"\{?(repeat::repeat\([01]\)\[\](\.\d)?\|?)+\}?|group", v))
            for s, n in ls.values():
                nx = any_of(s, n)
                for k, given, want in (("typed", [flag("1"), fresh(False), hasu(True)], ("group:var",)), ("untyped", [flag("1"), fresh(False), hasu(False)], ("group:type", "group:var")), ("the", [flag("0"), fresh(False)], ())):
                    got = tally(g, emit, s, nx, any_of(bound, *given))
                    c.ob("Q08.group", f, got == {tuple(sorted(want))}, "for a variable that's %s: %s" % (k, sorted(got)), key="group:" + k)
            c.floor("Q08.group", "iterations that group", len(ls), 1)
            zs = [ev for ev in g.events(call_to(r".*Iterator::zip$")) if re.search(r"repeat\(([01])\)", args_of(g, ev)[1])]
            for ev in zs:
                src = ev.data["a"][0]
                h = home(g, ev.frame, into_iter_of(ev.frame, src))
                one = re.search(r"repeat\(([01])\)", args_of(g, ev)[1]).group(1) == "1"
                c.ob("Q08.group", f, (h in outer) == one, "variables %s are%s grouped by" % ("shown" if h in outer else "in `the`", "" if one else "n't"), key="flag:%s" % (h in outer))
        ws = loops(g, r"(?:\w+::)?(?:iter\()?%s\.with\)?\[\]" % q_)
        c.floor("Q08.group", "iterations over the :with variables", len(ws), 1)
        for s, n in ws.values():
            nx = any_of(s, n)
            for k, given, want in (("typed", [fresh(True), hasu(True)], ("inner:var",)), ("untyped", [fresh(True), hasu(False)], ("inner:type", "inner:var")), ("there", [fresh(False)], ())):
                got = tally(g, emit, s, nx, any_of(bound, *given))
                c.ob("Q08.group", f, got == {tuple(sorted(want))}, "for a :with variable (%s): %s" % (k, sorted(got)), key="with:" + k)
        c.done(g)

def second(g, ev):
    """What the second field of a TypedIndex pushed is."""
    out = set()
    for e in g.events(lambda e: e.kind == "stmt" and e.data[1].get("r") == "agg" and str(e.data[1].get("adt", "")).endswith("TypedIndex") and e.data[1].get("var") == "Unknown"):
        out |= set(g.T.operand(e.frame, e.data[1]["a"][1]))
    return out

def into_iter_of(fr, o):
    ds = fr.body.defs()
    p = op_place(o)
    for d in ds.get(p.local, []) if p is not None else []:
        t = d[2]
        if isinstance(t, dict) and t.get("k") == "call" and t["a"]: return t["a"][0]
    return o

def boolean(pat, v):
    """Edges that cannot be taken when the boolean rendered `pat` is v."""
    r = re.compile(pat)
    def p(ev):
        if ev.kind != "edge" or ev.tag is None or ev.tag[1] is not None: return False
        return r.fullmatch(rset(ev.g.T.operand(ev.frame, ev.data["o"]))) is not None and str(ev.tag[2]) not in (v, "else" if v == "1" else v) and str(ev.tag[2]) != v
    return p

def branch_of(g, calls, v):
    """Edges that cannot be taken when the calls at these places answer v."""
    def p(ev):
        if ev.kind != "edge" or ev.tag is None: return False
        pl = op_place(ev.data["o"])
        ds = ev.frame.body.defs().get(pl.local, []) if pl is not None else []
        if not any(d[1] < 0 and (ev.frame.id, d[0]) in calls for d in ds): return False
        return (str(ev.tag[2]) == "0") == (v == "1")
    return p

def itered(g, src):
    """Like loops, of what comes straight from an iterator."""
    ok = {(ev.frame.id, ev.block) for ev in g.events(lambda e: e.kind == "edge" and e.tag is not None and e.tag[2] == "Some") if nexts(g, ev)}
    return {k: v for k, v in loops(g, src).items() if k in ok}

@rule("Q08")
def q08_limit(c):
    c.rule("Q08.limit", "a scalar or tuple takes one row; any other query keeps its limit, a limit given by a variable becomes that variable's value, and one that isn't a positive whole number is refused")
    c.rule("Q08.order", "rows are ordered by each variable of the order clause in turn, in its direction, by type first where there can be several; only variables with one fixed value are left out")
    AL = "mentat_query_algebrizer"
    n = 0
    for f in own(c, AL):
        if "AlgebraicQuery" not in f.body.ty(0): continue
        mk = makes(f, "AlgebraicQuery", "AlgebraicQuery")
        if mk:
            n += 1
            c.see(f)
            p = pname(f, "FindQuery")
            g = c.graph(f, None, small=2, keep=True)
            g.T.opaque = lambda x: "ConjoiningClauses" in x or x.endswith("simplify_order") or "simplify_limit" in x or x.endswith("is_unit_limited")
            unit = lambda v: contradicts(r"is_unit_limited\(%s\.find_spec\)$" % p, v)
            for k, v, want in (("one", "1", r"Limit::Fixed\{0: 1\}"), ("asked", "0", r"%s\.limit" % p)):
                T = within(g, unit(v))
                got = set()
                for ev in g.events(lambda ev: ev.kind == "stmt" and ev.data[1].get("r") == "agg" and str(ev.data[1].get("adt", "")).endswith("::AlgebraicQuery")):
                    flds = dict(zip(ev.data[1]["f"], ev.data[1]["a"]))
                    if (ev.frame.id, ev.block) in T.only:
                        got |= {rend(t) for t in T.operand(ev.frame, flds["limit"])}
                        for fld, w in (("find_spec", r"(?:Rc::new\()?%s\.find_spec\)?" % p), ("with", r"%s\.with" % p), ("order", r".*%s\.order\)?\.0|.*%s\.order.*" % (p, p)), ("named_projection", r".*%s\.order.*" % p)):
                            x = rset(T.operand(ev.frame, flds[fld]))
                            c.ob("Q08.limit" if fld in ("find_spec",) else "Q08.order", f, re.fullmatch(w, x) is not None, "the query's %s is %s" % (fld, x[:160]), key="field:" + fld)
                c.ob("Q08.limit", f, len(got) == 1 and re.fullmatch(want, next(iter(got))) is not None, "the limit is %s" % sorted(got), key="limit:" + k)
            c.done(g)
        elif f.body.argc == 1 and "AlgebraicQuery" in f.body.ty(1):
            n += 1
            c.see(f)
            q_ = f.body.name(1)
            g = c.graph(f, None, small=4, keep=True)
            g.T.opaque = lambda x: x.endswith("::bound_value")
            L = r"%s\.limit" % q_
            def kind(want):
                def p(ev):
                    if ev.kind != "edge" or ev.tag is None or not str(ev.tag[1]).endswith("query::Limit"): return False
                    if not any(re.fullmatch(L, rend(_undiscr(t))) for t in ev.g.T.operand(ev.frame, ev.data["o"])): return False
                    tg = str(ev.tag[2])
                    return want in tg[1:].split(",") if tg.startswith("!") else tg != want
                return p
            var = kind("Variable")
            B = r"(?:\w+::)*bound_value\(%s\.cc, %s\.0\)" % (q_, L)
            ok = ret_of(g, "Ok")
            fixed = g.events(lambda ev: ev.kind == "stmt" and ev.data[1].get("r") == "agg" and ev.data[1].get("var") == "Fixed" and str(ev.data[1].get("adt", "")).endswith("::Limit"))
            c.floor("Q08.limit", "limits made of values", len(fixed), 1)
            for ev in fixed:
                x = rset(g.T.operand(ev.frame, ev.data[1]["a"][0]))
                c.ob("Q08.limit", f, re.fullmatch(B + r"\.0", x) is not None, "a variable limit becomes %s" % x, key="value")
            store = any_of(*[is_ev(e) for e in fixed])
            n_ = "^%s\\.0$" % B
            long_ = choice("^%s$" % B, "TypedValue", "Long")
            q = g.search(ok, given=any_of(var, opt("^%s$" % B, True), long_, neg_false(n_)))
            c.ob("Q08.limit", f, q is None, "a limit that isn't positive is accepted: %s" % fmt_path(q or []), key="positive")
            for other in ("Double", "String", "Ref", "Boolean"):
                q = g.search(ok, given=any_of(var, opt("^%s$" % B, True), choice("^%s$" % B, "TypedValue", other)))
                c.ob("Q08.limit", f, q is None, "a %s is accepted as a limit: %s" % (other, fmt_path(q or [])), key="type")
            q = g.search(ok, block=any_of(store, field_write("AlgebraicQuery", "limit")), given=any_of(var, opt("^%s$" % B, True), long_))
            c.ob("Q08.limit", f, q is None, "a variable limit isn't used: %s" % fmt_path(q or []), key="used")
            for other in ("Fixed", "None"):
                q = g.search(field_write("AlgebraicQuery", "limit"), given=kind(other))
                c.ob("Q08.limit", f, q is None, "a limit is replaced: %s" % fmt_path(q or []), key="kept")
            c.done(g)
    c.floor("Q08.limit", "places that settle a limit", n, 2)
    m = 0
    for f in own(c, AL):
        if not (any(re.search(r"Option<.*Vec<.*query::Order>", f.body.ty(i)) for i in range(1, f.body.argc + 1)) and "OrderBy" in f.body.ty(0)): continue
        m += 1
        c.see(f)
        g = c.graph(f, None, small=4, keep=True)
        g.T.opaque = lambda x: re.search(r"::(bound_value|is_value_bound|known_type(_set)?|has_unique_type_tag|unique_type_tag)$", x) is not None
        o = next(f.body.name(i) for i in range(1, f.body.argc + 1) if "query::Order>" in f.body.ty(i))
        cc = pname(f, "ConjoiningClauses")
        O = o + r"\[\]"
        ls = itered(g, O)
        if not c.floor("Q08.order", "iterations over the order", len(ls), 1): c.done(g); continue
        def sym(ev):
            if ev.kind != "call": return None
            a = args_of(g, ev) if re.search(r"::(push|insert|push_back)$", ev.callee) else []
            if len(a) < 2: return None
            x = re.fullmatch(r"OrderBy::OrderBy\{0: %s\.0, 1: VariableColumn::(Variable|VariableTypeTag)\{0: %s\.1\}\}" % (O, O), a[1])
            if x: return {"Variable": "value", "VariableTypeTag": "type"}[x.group(1)]
            if re.fullmatch(O + r"\.1", a[1]): return "named"
            return a[1][:100]
        unbound = any_of(contradicts(r"is_some\(.*bound_value\(.*\)\)$", "0"), contradicts(r"is_none\(.*bound_value\(.*\)\)$", "1"), opt(r"^(?:\w+::)*bound_value\(.*\)$", False), contradicts(r"is_value_bound\(.*\)$", "0"))
        bound = any_of(contradicts(r"is_some\(.*bound_value\(.*\)\)$", "1"), contradicts(r"is_none\(.*bound_value\(.*\)\)$", "0"), opt(r"^(?:\w+::)*bound_value\(.*\)$", True), contradicts(r"is_value_bound\(.*\)$", "1"))
        there = contradicts(r"contains_key\(%s\.column_bindings, .*\)$" % cc, "1")
        tag = lambda yes: any_of(opt(r"^(?:\w+::)*unique_type_tag\(.*\)$", yes), contradicts(r"^[\w:]*has_unique_type_tag\(.*\)$", "1" if yes else "0"), contradicts(r"is_none\(.*unique_type_tag\(.*\)\)$", "0" if yes else "1"), contradicts(r"is_some\(.*unique_type_tag\(.*\)\)$", "1" if yes else "0"))
        for s, e in ls.values():
            nx = any_of(s, e)
            for k, given, want in (("typed", [unbound, there, tag(True)], ("named", "value")), ("untyped", [unbound, there, tag(False)], ("named", "type", "value")), ("bound", [bound], ())):
                got = tally(g, sym, s, nx, any_of(*given))
                c.ob("Q08.order", f, got == {tuple(sorted(want))}, "for a variable that's %s: %s" % (k, sorted(got)), key=k)
            typ = lambda ev: sym(ev) == "type"
            val = lambda ev: sym(ev) == "value"
            q = g.search(typ, start=val, block=nx)
            c.ob("Q08.order", f, q is None, "ordered by type only after the value: %s" % fmt_path(q or []), key="first")
            q = g.search(ret_of(g, "Ok"), block=e, given=opt("^%s$" % o, True))
            c.ob("Q08.order", f, q is None, "not all of the order is looked at: %s" % fmt_path(q or []), key="all")
            q = g.search(any_of(nx, ret_of(g, "Ok")), start=s, given=any_of(unbound, contradicts(r"contains_key\(%s\.column_bindings, .*\)$" % cc, "0")))
            c.ob("Q08.order", f, q is None, "ordering by a variable that isn't bound is accepted: %s" % fmt_path(q or []), key="unbound")
        c.done(g)
    c.floor("Q08.order", "functions that settle an order", m, 1)

def neg_false(n):
    """Edges that cannot be taken when the number is zero or less."""
    def p(ev):
        for z, bad in (("0", ("Gt",)), ("1", ("Ge", "Gt"))):
            if relation(ev, n, "^%s$" % z) in bad: return True
        return False
    return p

@rule("Q08")
def q08_convert(c):
    c.rule("Q08.convert", "results are handed out as the shape they have, or not at all; a tuple's or row's values in order, and none invented or lost")
    R = "QueryResults"
    fs = [f for f in own(c, PJ) if f.self_ty and re.search(r"::Query(Results|Output)$", f.self_ty) and f.body.argc == 1 and not f.body.ty(1).startswith("&") and "Result<" in f.body.ty(0)]
    kinds = {"Scalar": r"Option<(?:core_traits::)?Binding>", "Coll": r"Vec<(?:core_traits::)?Binding>", "Tuple": r"Option<.*(Vec<(?:core_traits::)?Binding>|B)>", "Rel": r"RelResult<"}
    n = 0
    for f in fs:
        t = re.sub(r"alloc::vec::", "", f.body.ty(0))
        m = re.match(r"[\w:]*Result<(.*)$", t)
        mine = "Rel" if "RelResult<" in t else "Coll" if re.match(r"[\w:]*Vec<", m.group(1)) else "Tuple" if re.match(r"[\w:]*Option<(?:[\w:]*Vec<|B\b)", m.group(1)) else "Scalar"
        c.see(f)
        g = c.graph(f, None, small=20, keep=True)
        g.T.opaque = lambda x: x.endswith("from_binding_vec")
        sub = r"self(?:\.results)?"
        n += 1
        for v in kinds:
            got = [x for x in answers(g, choice("^%s$" % sub, R, v))]
            oks = [x for x in got if not x.startswith("Result::Err")]
            if "from_binding_vec" in " ".join(oks): oks = [x for x in oks]; good = all(re.fullmatch(r"(?:\w+::)*from_binding_vec\(.*self\.results\.0.*\)|.*", x) for x in oks)
            elif v == mine: good = got == oks and len(oks) == 1 and re.fullmatch(sub + r"\.0", oks[0]) is not None
            else: good = not oks
            if mine == "Tuple" and f.self_ty.endswith("QueryOutput"): continue
            c.ob("Q08.convert", f, good, "a %s handed out as %s is %s" % (v, mine, got), key="%s:%s:%s" % (f.self_ty.split("::")[-1], mine, v))
        c.done(g)
    c.floor("Q08.convert", "conversions of results", n, 8)
    # tuples
    bs = [f for f in own(c, PJ) if f.name == "from_binding_vec" and re.search(r"BindingTuple>", f.path)]
    c.floor("Q08.convert", "kinds of tuple", len(bs), 7)
    for f in bs:
        c.see(f)
        g = c.graph(f, None, small=4, keep=True)
        k = len(re.findall(r"core_traits::Binding", re.match(r"<(.*) as ", f.path).group(1)))
        vec = "Vec<" in f.path.split(" as ")[0]
        e, v = f.body.name(1), f.body.name(2)
        some = opt("^%s$" % v, True)
        got = [x for x in answers(g, opt("^%s$" % v, False)) if not x.startswith("Result::Err")]
        c.ob("Q08.convert", f, got == ["Option::None{}"], "no tuple becomes %s" % got, key="none:%d" % k)
        got = [x for x in answers(g, some) if not x.startswith("Result::Err")]
        item = re.escape(v) + r"\[\]"
        want = re.escape(v) if vec else r"(?:Option::Some\{0: )?tuple\{%s\}+" % ", ".join(r"%d: (%s|.*\(%s, %d\)(?:\.0)?)" % (i, item, re.escape(v), i) for i in range(k))
        c.ob("Q08.convert", f, len(got) == 1 and re.fullmatch(want, got[0]) is not None, "a tuple becomes %s" % got, key="some:%d" % k)
        if not vec:
            for ev in g.events(lambda ev: ev.kind == "stmt" and ev.data[1].get("r") == "agg" and ev.data[1].get("k") == "tuple" and len(ev.data[1]["a"]) == k):
                src = [next_of(ev.frame, o) for o in ev.data[1]["a"]]
                if None in src: continue
                for i in range(k - 1):
                    at = lambda b: (lambda x, b=b: x.kind == "call" and x.frame is ev.frame and x.block == b)
                    q = g.search(at(src[i + 1]), block=at(src[i]))
                    c.ob("Q08.convert", f, src[i] != src[i + 1] and q is None, "the values of a tuple are out of order", key="order:%d" % k)
            good = r"^%s$" % e
            q = g.search(ret_of(g, "Ok"), given=any_of(some, lambda ev: relation(ev, good, "^%d$" % k) == "Eq", lambda ev: relation(ev, good, r"^Vec::len\(%s\)$" % v) == "Ne"))
            c.ob("Q08.convert", f, q is None, "a tuple of another length is accepted: %s" % fmt_path(q or []), key="length:%d" % k)
        q = g.search(ret_of(g, "Ok"), given=any_of(some, lambda ev: relation(ev, "^%s$" % e, r"^Vec::len\(%s\)$" % v) == "Eq"))
        c.ob("Q08.convert", f, q is None, "a tuple that isn't as long as expected is accepted: %s" % fmt_path(q or []), key="expected:%d" % k)
        c.done(g)
    # what's known without asking
    for f in own(c, PJ):
        if f.name != "from_constants": continue
        c.see(f)
        g = c.graph(f, None, small=20, keep=True)
        s, b = f.body.name(1), f.body.name(2)
        for v, want in (("FindScalar", r"QueryResults::Scalar\{0: (?:Option::Some\{0: )?BTreeMap::get\(%s, %s\.0\.0\)\}+" % (b, s)), ("FindTuple", r"QueryResults::Tuple\{0: (?:Option::Some\{0: )?\[BTreeMap::get\(%s, %s\.0\[\]\.0\)\]\}+" % (b, s)),
                        ("FindColl", r"QueryResults::Coll\{0: (?:array\{0: |\[)BTreeMap::get\(%s, %s\.0\.0\)[\]}]+" % (b, s)), ("FindRel", r"QueryResults::Rel\{0: RelResult::RelResult\{width: Vec::len\(%s\.0\), values: \[BTreeMap::get\(%s, %s\.0\[\]\.0\)\]\}\}" % (s, b, s))):
            got = answers(g, spec_is(s, v))
            c.ob("Q08.convert", f, len(got) == 1 and re.fullmatch(want, got[0]) is not None, "known values of %s are %s" % (v, got), key="constants:" + v)
        c.done(g)
    # rows of a relation
    for f in own(c, PJ):
        if not (f.self_ty and re.search(r"::RelResult<", f.self_ty)) or f.impl_of: continue
        c.see(f)
        g = c.graph(f, None, small=2, keep=True)
        got = answers(g)
        if f.name == "row_count": c.ob("Q08.convert", f, got == ["(Vec::len(self.values) Div self.width)"], "the number of rows is %s" % got, key="row_count")
        if f.name == "rows": c.ob("Q08.convert", f, len(got) == 1 and re.fullmatch(r"slice::chunks(_exact)?\(self\.values, self\.width\)", got[0]) is not None, "the rows are %s" % got, key="rows")
        c.done(g)

def next_of(fr, o):
    """The call of `next` an operand was unwrapped from."""
    for _ in range(8):
        p = op_place(o)
        if p is None: return None
        ds = fr.body.defs().get(p.local, [])
        if len(ds) != 1: return None
        d = ds[0]
        if d[1] >= 0:
            r = d[2][1]
            if r.get("r") in ("use", "cast"): o = r["o"]; continue
            return None
        t = d[2]
        if t.get("k") != "call": return None
        n = callee_fn(t["f"].get("k") or {}) or ""
        if n.endswith("::next") or n.endswith("::remove") or n.endswith("::pop"): return d[0]
        if not t["a"]: return None
        o = t["a"][0]
    return None

# ---- Q09: aggregates -------------------------------------------------------------------------------
TR = "query_projector_traits"
OPS = {"Avg": "avg", "Count": "count", "Max": "max", "Min": "min", "Sum": "sum"}
OPADT = "SimpleAggregationOp"
VT = ("Ref", "Boolean", "Instant", "Long", "Double", "String", "Keyword", "Uuid")
WORLDS = [frozenset(x) for x in [()] + [(v,) for v in VT] + [("Double", "Long"), ("Long", "String"), ("Long", "Instant"), ("Double", "Long", "Ref"), ("Keyword", "String"), VT]]

def aggregate(op, w):
    """The type an aggregate has over values of types w, or None where it's refused."""
    if not w: return None
    if op == "Count": return "Long"
    num = w <= {"Double", "Long"}
    if op == "Avg": return "Double" if num else None
    if op == "Sum" or len(w) > 1: return ("Double" if "Double" in w else "Long") if num else None
    t = next(iter(w))
    return t if t not in ("Keyword", "Ref", "Uuid") else None

def typeset(p, w):
    """Edges that cannot be taken when the type set rendered `p` is w."""
    S = r"^(?:[\w:]*ValueTypeSet(?:::\w+)?::|[\w:]*)"
    ps = [contradicts(S + r"is_empty\(%s(?:\.0)?\)$" % p, "0" if w else "1"),
          contradicts(S + r"is_only_numeric\(%s\)$" % p, "1" if w and w <= {"Double", "Long"} else "0"),
          contradicts(S + r"(?:is_unit|has_unique_type)\(%s\)$" % p, "1" if len(w) == 1 else "0"),
          contradicts(S + r"len\(%s(?:\.0)?\)$" % p, len(w))]
    ps += [contradicts(S + r"contains\(%s(?:\.0)?, ValueType::%s\{\}\)$" % (p, v), "1" if v in w else "0") for v in VT]
    one = r"(?:[\w:]*(?:exemplar|unique_type)\(%s\))(?:\.0)?" % p
    if not w: ps.append(opt("^%s$" % one, False))
    elif len(w) == 1: ps += [choice("^%s" % one, "ValueType", next(iter(w))), contradicts("^%s$" % one, next(iter(w)))]
    return any_of(*ps)

@rule("Q09")
def q09_types(c):
    c.rule("Q09.types", "an aggregate is refused unless it makes sense for every type its variable can have, and has the type that follows from them: a count is a whole number, an average a double, a sum, maximum or minimum a double if any of the values can be one")
    c.rule("Q09.names", "each aggregate is written and read under its own name, and only a count is a number over no rows")
    n = 0
    for f in own(c, TR):
        b = f.body
        if "ValueTypeSet" in " ".join(b.ty(i) for i in range(1, b.argc + 1)) and re.search(r"Result<(?:[\w:]*::)?ValueType\b", b.ty(0)):
            n += 1
            c.see(f)
            me = next(b.name(i) for i in range(1, b.argc + 1) if OPADT in b.ty(i))
            p = next(b.name(i) for i in range(1, b.argc + 1) if "ValueTypeSet" in b.ty(i))
            g = c.graph(f, None, small=12, keep=True)
            g.T.opaque = lambda x: "ValueTypeSet" in x
            for op in OPS:
                for w in WORLDS:
                    given = [choice("^(?:%s)" % me, OPADT, op), contradicts("^%s$" % me, op), typeset(p, w)]
                    got = {"error" if x.startswith("Result::Err{") else re.sub(r"^[\w:]*(?:exemplar|unique_type)\(%s\)(?:\.0)?$" % p, next(iter(w)) if len(w) == 1 else "any", x) for x in answers(g, *given)}
                    q = g.search(ret_of(g, "Ok"), given=any_of(*given))
                    t = aggregate(op, w)
                    if q is None: got = {"error"}
                    else: got -= {"error"}
                    want = {"error"} if t is None else {"ValueType::%s{}" % t}
                    if t is not None and len(w) == 1 and t in w: want.add(t)
                    name = "any" if len(w) == len(VT) else "+".join(sorted(w)) or "nothing"
                    c.ob("Q09.types", f, bool(got) and got <= want, "%s of %s is %s" % (op, name, sorted(got)), key="%s:%s" % (op, name))
            c.done(g)
        elif b.argc == 1 and OPADT in b.ty(1) and "str" in b.ty(0) and f.path.startswith(TR):
            n += 1
            c.see(f)
            tb = value_table(c, f, "^%s$" % b.name(1), OPS)
            for op, w in OPS.items(): c.ob("Q09.names", f, set(tb[op]) == {"'%s'" % w}, "%s is written %s" % (op, sorted(tb[op])), key="to:" + op)
        elif "Option<" in b.ty(0) and b.ty(0).rstrip(">").endswith(OPADT):
            n += 1
            c.see(f)
            g = c.graph(f, None, small=12, keep=True)
            for w in list(OPS.values()) + ["mode"]:
                got = set(answers(g, contradicts(r"^\{?.*\b%s\b.*$" % b.name(1), w))) - {"Option::None{}"}
                got = {re.sub(r"^Option::Some\{0: (.*)\}$", r"\1", x) for x in got}
                want = {"%s::%s{}" % (OPADT, k) for k, v in OPS.items() if v == w}
                c.ob("Q09.names", f, got == want, "%s is read as %s" % (w, sorted(got)), key="from:" + w)
                q = g.search(ret_of(g, "None"), given=contradicts(r"^\{?.*\b%s\b.*$" % b.name(1), w)) if want else None
                c.ob("Q09.names", f, q is None, "%s may not be known" % w, key="from:" + w)
            c.done(g)
        elif b.ty(0) == "bool" and b.argc == 1 and "::SimpleAggregate" in b.ty(1) and "Nullable" not in b.ty(1) and re.search(r"::SimpleAggregate\b", b.ty(1)) and not f.path.startswith("<"):
            n += 1
            c.see(f)
            g = c.graph(f, None, small=12, keep=True)
            for op in OPS:
                got = set(answers(g, choice(r"^(?:%s\.op)" % b.name(1), OPADT, op), contradicts(r"^%s\.op$" % b.name(1), op)))
                want = "0" if op == "Count" else "1"
                me = re.escape(b.name(1) + ".op")
                def asked(m): return str(int((m.group(1) == "eq") == (op in m.groups()[1:])))
                got = {truth(re.sub(r"PartialEq::(eq|ne)\((?:%s, SimpleAggregationOp::(\w+)\{\}|SimpleAggregationOp::(\w+)\{\}, %s)\)" % (me, me), asked, x)) for x in got}
                c.ob("Q09.names", f, got == {want}, "whether %s may be missing: %s" % (op, sorted(got)), key="null:" + op)
            c.done(g)
    c.floor("Q09.types", "tables of aggregates", n, 4)

@rule("Q09")
def q09_column(c):
    c.rule("Q09.column", "an aggregate is its own function, applied to its variable's column or known value over all rows, and of the type it was found to have; it is one of one variable")
    n = 0
    OPQ2 = re.compile(r"::(known_type_set|bound_value|is_applicable_to_types|column_name|is_nullable|to_sql)$")
    for f in own(c, TR):
        b = f.body
        if "ProjectedColumn" in b.ty(0):
            n += 1
            c.see(f)
            s, cc = pname(f, "SimpleAggregate"), pname(f, "ConjoiningClauses")
            g = c.graph(f, None, small=20, keep=True)
            g.T.opaque = lambda x: OPQ2.search(x) is not None
            V = r"[\w:]*bound_value\(%s, %s\.var\)" % (cc, s)
            T = r"[\w:]*is_applicable_to_types\(%s\.op, [\w:]*known_type_set\(%s, %s\.var\)\)" % (s, cc, s)
            null = lambda v: contradicts(r"is_nullable\(%s\)$" % s, v)
            for bound in (True, False):
                for nl in (True, False):
                    E = r"Expression::Unary\{sql_op: [\w:]*to_sql\(%s\.op\), arg: ColumnOrExpression::%s\}" % (s, (r"Value\{0: %s(?:\.0)?" % V if bound else r"ExistingColumn\{0: [\w:]*column_name\(VariableColumn::Variable\{0: %s\.var\}\)" % s) + r"\}")
                    want = r"tuple\{0: ProjectedColumn::ProjectedColumn\{0: ColumnOrExpression::%s\{0: (?:Box::new\()?%s\)?, 1: %s\}, 1: [\w:]*column_name\(%s\)\}, 1: %s\}" % ("NullableAggregate" if nl else "Expression", E, T, s, T)
                    got = [x for x in answers(g, opt("^%s$" % V, bound), contradicts(r"^(?:Option::)?is_some\(%s\)$" % V, "1" if bound else "0"), null("1" if nl else "0")) if not x.startswith("Result::Err")]
                    c.ob("Q09.column", f, len(got) == 1 and re.fullmatch(want, got[0]) is not None, "the column is %s" % got, key="%s:%s" % (bound, nl))
            q = g.search(ret_of(g, "Ok"), block=succeeded(r".*is_applicable_to_types"))
            c.ob("Q09.column", f, q is None, "an aggregate of types it doesn't apply to: %s" % fmt_path(q or []), key="checked")
            c.done(g)
        elif "Option<" in b.ty(0) and b.ty(0).rstrip(">").endswith("::SimpleAggregate"):
            n += 1
            c.see(f)
            me = b.name(1)
            g = c.graph(f, None, small=20, keep=True)
            g.T.opaque = lambda x: re.search(r"::(for_function|as_variable)$", x) is not None
            some = ret_of(g, "Some")
            for k in (0, 2, 3):
                q = g.search(some, given=contradicts(r"len\(%s\.args\)$" % me, k))
                c.ob("Q09.column", f, q is None, "an aggregate of %d arguments: %s" % (k, fmt_path(q or [])), key="args")
            got = set(answers(g, contradicts(r"len\(%s\.args\)$" % me, 1))) - {"Option::None{}"}
            A = r"[\w:]*(?:index\(%s\.args, 0\)|first\(%s\.args\)(?:\.0)?|get\(%s\.args, 0\)(?:\.0)?)" % (me, me, me)
            want = r"(?:Option::Some\{0: )?SimpleAggregate::SimpleAggregate\{op: [\w:]*for_function\(%s\.func\)(?:\.0)?, var: [\w:]*as_variable\(%s\)(?:\.0)?\}+" % (me, A)
            c.ob("Q09.column", f, len(got) == 1 and re.fullmatch(want, next(iter(got))) is not None, "the aggregate is %s" % sorted(got), key="simple")
            c.done(g)
    c.floor("Q09.column", "places that make an aggregate's column", n, 2)

@rule("Q09")
def q09_layers(c):
    c.rule("Q09.layers", "a query aggregates in an outer query exactly if it has an aggregate, over an inner one of its columns")
    c.rule("Q09.the", "`the` needs exactly one minimum or maximum to correspond to")
    from rules.terms import home
    fs = [f for f in own(c, PJ) if re.search(r"ProjectedElements", f.body.ty(0)) and "Result" in f.body.ty(0)]
    c.floor("Q09.layers", "functions that lay out columns", len(fs), 1)
    for f in fs:
        c.see(f)
        g = c.graph(f, None, small=10, keep=True)
        shut = re.compile(r"::(projected_column_for_(var|simple_aggregate)|candidate_(type_)?column|column_name|known_type_set|bound_value|(has_)?unique_type_tag|is_value_bound|to_simple)$")
        g.T.opaque = lambda n: shut.search(n) is not None
        E = r"elements\[\]"
        els = loops(g, E)
        some = any_of(*[s for s, n in els.values()]); nxt = any_of(*[x for p in els.values() for x in p]); end = any_of(*[n for s, n in els.values()])
        made = g.events(lambda ev: ev.kind == "stmt" and ev.data[1].get("r") == "agg" and str(ev.data[1].get("adt", "")).endswith("::ProjectedElements"))
        if not c.floor("Q09.layers", "layouts", len(made), 2): c.done(g); continue
        def layer(ev):
            a = dict(zip(ev.data[1]["f"], ev.data[1]["a"]))
            ts = [rend(t) for t in g.T.operand(ev.frame, a["pre_aggregate_projection"])]
            return {"None" if t == "Option::None{}" else "Some" for t in ts}
        one = lambda k: (lambda ev: any(ev.frame.id == e.frame.id and ev.block == e.block and ev.kind == "stmt" and ev.data == e.data for e in made if k in layer(e)))
        A = elem_is(E, "Aggregate")
        op = lambda v: choice(r"^(?:\w+::)*to_simple\(.*\)\.op", OPADT, v)
        # an aggregate seen
        seen_ = lambda ev: ev.kind == "call" and re.search(r"projected_column_for_simple_aggregate$", ev.callee) is not None
        q = g.search(one("None"), start=seen_)
        c.ob("Q09.layers", f, q is None, "a query with an aggregate isn't aggregated: %s" % fmt_path(q or []), key="some")
        c.ob("Q09.layers", f, g.search(one("Some"), start=seen_) is not None, "a query with an aggregate is never aggregated", key="some!")
        q = g.search(one("Some"), block=seen_)
        c.ob("Q09.layers", f, q is None, "a query without aggregates is aggregated: %s" % fmt_path(q or []), key="none")
        q = g.search(nxt, start=some, block=seen_, given=A)
        c.ob("Q09.layers", f, q is None, "an aggregate isn't looked at: %s" % fmt_path(q or []), key="looked")
        for ev in made:
            a = dict(zip(ev.data[1]["f"], ev.data[1]["a"]))
            over, under_ = (rset(g.T.operand(ev.frame, a[k])) for k in ("sql_projection", "pre_aggregate_projection"))
            c.ob("Q09.layers", f, ("ExistingColumn" in over) == (layer(ev) == {"Some"}) and "ExistingColumn" not in under_, "what's projected is %s over %s" % (over[:80], under_[:80]), key="columns")
        # `the`
        by = {}
        for ev in g.events(lambda ev: ev.kind == "stmt" and len(ev.data[0]) == 1 and ev.data[1].get("r") == "use" and ev.frame.body.name(ev.data[0][0])):
            for t in g.T.operand(ev.frame, ev.data[1]["o"]):
                m = re.search(r"^\([<>rec(){}|01 Ad]* Add (\d+)\)$", rend(t))
                if m: by.setdefault((ev.frame.id, ev.data[0][0]), set()).add(m.group(1))
        ih = {home(g, ev.frame, ev.data[1]["a"][0]) for ev in g.events(lambda ev: ev.kind == "stmt" and ev.data[1].get("r") == "agg" and str(ev.data[1].get("adt", "")).endswith("TypedIndex"))}
        ctrs = {k for k, v in by.items() if v == {"1"} and k not in ih}
        if not c.floor("Q09.the", "counts of minimums and maximums", len(ctrs), 1): c.done(g); continue
        def more(ev):
            if ev.kind == "stmt" and len(ev.data[0]) == 1 and ev.data[1].get("r") == "use" and (ev.frame.id, ev.data[0][0]) in ctrs and any(" Add " in rend(t) for t in g.T.operand(ev.frame, ev.data[1]["o"])): return "+"
        for v in OPS:
            got = tally(g, more, some, nxt, any_of(A, op(v)))
            c.ob("Q09.the", f, got == ({("+",)} if v in ("Max", "Min") else {()}), "of %s, %s are counted" % (v, sorted(got)), key="count:" + v)
        for v in ("Variable", "Corresponding", "Pull"):
            got = tally(g, more, some, nxt, elem_is(E, v))
            c.ob("Q09.the", f, got <= {()}, "of %s, %s are counted" % (v, sorted(got)), key="count:" + v)
        CNT, LEN = r"^[({]*(?:0|<rec>)(?:[ |(){}]|Add 1(?!\d)|0|<rec>)*$", r"^IndexSet::len\(IndexSet::new\(\)\)$"
        for n in (0, 1, 2, 3):
            for k in (0, 1, 2):
                q = g.search(ret_of(g, "Ok"), start=end, given=any_of(contradicts(CNT, n), contradicts(LEN, k)))
                ok = k == 0 or n == 1
                c.ob("Q09.the", f, (q is not None) == ok, "%d of `the` with %d of minimums and maximums %s: %s" % (k, n, "is refused" if ok else "is accepted", fmt_path(q or [])), key="the:%d:%d" % (n, k))
        c.done(g)
