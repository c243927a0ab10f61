"""Reading: which data, schema and cache an answer comes from, and what is run."""
import re
from ctx import *
from registry import rule
from rules.cache import within, answers, among
from rules.idents import loops
from rules.pull import args_in, split, filled, turns

def having(c, pat):
    """The functions whose path has a match of `pat`."""
    fs = [f for f in c.P.fns if re.search(pat, strip_generics(f.path)) and f.kind != "closure" and f.body is not None]
    c.floor("R01." + ("lookup" if "fetch" in pat else "run" if "run" in pat else "inputs"), "functions " + re.sub(r"[^\w: ]", "", pat), len(fs), 1)
    c.see(*fs)
    return fs

def out_(g):
    return lambda ev: ev.kind == "ret" and ev.frame.id == g.rootf.id

PUB = ("mentat_transaction", "mentat_query_pull")

def engines(c):
    """The functions that answer a read: given a connection and what is known about the store."""
    return [f for f in c.P.fns if f.vis == "Public" and f.kind != "closure" and not f.impl_of and not f.self_ty and f.body is not None and f.crate in PUB
            and any("rusqlite::Connection" in f.body.ty(i) for i in range(1, f.body.argc + 1))]

def facades(c):
    """What users read by: methods of the reading traits, and of a connection given a database."""
    out = []
    for f in c.P.fns:
        if f.kind == "closure" or f.body is None or not f.self_ty: continue
        if f.impl_of and re.search(r"::(Queryable|Pullable)\b", str(f.impl_of)): out.append(f)
        elif f.crate == "mentat" and f.vis == "Public" and re.search(r"conn::Conn$", str(f.self_ty)) and any(f.body.ty(i) == "&rusqlite::Connection" for i in range(1, f.body.argc + 1)): out.append(f)
    return out

OWN = {"Conn": ("%s", r"Mutex::lock\(self\.\w+\)"), "Store": (r"self\.\w+", r"Mutex::lock\(self\.\w+\.\w+\)"), "InProgress": (r"self\.\w+", r"self"), "InProgressRead": (r"self\.\w+\.\w+", r"self\.\w+")}

@rule("R01", "two fields of the same type of a value a user reads by don't exist")
def r01_route(c):
    c.rule("R01.route", "every way to read answers with what its name says, run on the reader's own data, under its own schema and cache, for what was asked")
    es, fs = engines(c), facades(c)
    eh = {f.h for f in es}
    fh = {f.h for f in fs}
    if not (c.floor("R01.route", "functions that answer reads", len(es), 8) and c.floor("R01.route", "ways to read", len(fs), 25)): return
    for f in fs:
        c.see(f)
        g = c.graph(f, None, same_crate=False, keep=True, extra=lambda x: x.h not in eh and (x.h in fh or x.crate in ("mentat", "mentat_transaction", "mentat_query_algebrizer") and len(x.body.blocks) <= 40))
        who = re.sub(r"<.*", "", str(f.self_ty)).split("::")[-1]
        conn = next((f.body.name(i) for i in range(2, f.body.argc + 1) if "rusqlite::Connection" in f.body.ty(i)), None)
        rest = [f.body.name(i) for i in range(2, f.body.argc + 1) if f.body.name(i) != conn]
        g.T.opaque = lambda n: any(re.search(r"(^|::)%s$" % re.escape(e.path.split("::", 1)[1]), n) for e in es)
        db, home = OWN.get(who, (None, None))
        if db is None: c.ob("R01.route", f, False, "an unknown kind of reader", key="kind:" + who); continue
        db = re.escape(conn) if conn else db
        runs = [ev for ev in g.events(lambda ev: ev.kind == "call") if any(x.h in eh for x in (c.P.targets(ev.k) if ev.k else ()))]
        key = "%s:%s:" % (who, f.name)
        c.ob("R01.route", f, bool(runs), "nothing answers this read", key=key + "runs")
        is_run = lambda ev: any(is_ev(r)(ev) for r in runs)
        ok = ret_of(g, "Ok")
        q = g.search(ok, block=is_run)
        c.ob("R01.route", f, q is None, "answers without looking: %s" % fmt_path(q or []), key=key + "all")
        for ev in runs:
            e = next(x for x in c.P.targets(ev.k) if x.h in eh)
            same = {f.name} | ({"q_uncached"} if f.name == "q_once" else {"q_once"} if f.name == "q_uncached" else set())
            c.ob("R01.route", f, e.name in same, "answers with %s" % e.name, key=key + "name")
            a = args_of(g, ev)
            tys = [e.body.ty(i) for i in range(1, e.body.argc + 1)]
            mine = []
            for x, t in zip(a, tys):
                if "rusqlite::Connection" in t: c.ob("R01.route", f, re.fullmatch(db, x) is not None, "runs on %s" % x, key=key + "data")
                elif "Known" in t:
                    m = re.fullmatch(r"Known::Known\{schema: (%s\.\w+), cache: (?:Option::Some\{0: )?(%s\.\w+|Option::None\{\})\}*" % (home, home), x)
                    c.ob("R01.route", f, m is not None, "knows %s" % x[:200], key=key + "known")
                elif "mentat_core::Schema" in t: c.ob("R01.route", f, re.fullmatch(home + r"\.\w+", x) is not None, "uses the schema %s" % x[:200], key=key + "schema")
                else: mine.append(x)
            c.ob("R01.route", f, mine == rest, "asks for %s" % mine, key=key + "asked")
        c.done(g)

ALG = r"mentat_query_algebrizer::algebrize_with_inputs|algebrize_with_inputs"
KEEP = re.compile(r"(query_to_select|parse_find_string|algebrize_with_inputs|to_sql_query|unbound_variables|is_known_empty|fetch_values|lookup_attribute)$")

def egraph(c, f, small=150):
    g = c.graph(f, None, same_crate=False, keep=True, extra=lambda x: x.crate == "mentat_transaction" and len(x.body.blocks) <= small and not re.search(r"fetch_values$|lookup_attribute$", x.path))
    g.T.opaque = lambda n: KEEP.search(n) is not None
    g.T.lossy = True
    return g

def base_of(f):
    """(connection, what's known, schema) of a function that answers reads."""
    ps = [(f.body.name(i), f.body.ty(i)) for i in range(1, f.body.argc + 1)]
    conn = next((n for n, t in ps if "rusqlite::Connection" in t), None)
    kn = next((n for n, t in ps if "Known" in t), None)
    sc = next((n for n, t in ps if re.search(r"Schema$", t)), None)
    text = next((n for n, t in ps if t == "&str"), None)
    if kn: return conn, re.escape(kn), re.escape(kn) + r"\.schema", text
    return conn, r"Known::Known\{schema: %s, cache: [^{}]*(?:\{\})?\}" % sc, r"(?:Known::Known\{schema: )?%s(?:, cache: .*\}\.schema)?" % sc, text

@rule("R01", "rusqlite binds named parameters by their names")
def r01_run(c):
    c.rule("R01.what", "what is run is the query given, read under the reader's own knowledge, with the inputs given; a query with an input that isn't given is refused")
    c.rule("R01.run", "a query's rows are those of its own statement with every argument bound; a query known to be empty, or constant, answers as that, and only then")
    es = [f for f in engines(c) if f.crate == "mentat_transaction"]
    nq = 0
    for f in es:
        c.see(f)
        conn, known, schema, text = base_of(f)
        if text is None or "Keyword" in text: continue
        nq += 1
        g = egraph(c, f)
        inp = f.body.name(f.body.argc)
        alg = r"(?:\{Result::Err\{.*?\}\|)?[\w:]*algebrize_with_inputs\(%s, [\w:]*parse_find_string\(%s\), \d+, %s\)\}?" % (known, text, inp)
        calls = g.events(lambda ev: ev.kind == "call" and re.search(r"algebrize_with_inputs$", ev.callee) is not None)
        c.floor("R01.what", "places where %s reads its query" % f.name, len(calls), 1)
        for ev in calls:
            a = args_of(g, ev)
            c.ob("R01.what", f, re.fullmatch(known, a[0]) is not None, "the query is read knowing %s" % a[0][:120], key=f.name + ":known")
            c.ob("R01.what", f, re.fullmatch(r"[\w:]*parse_find_string\(%s\)" % text, a[1]) is not None, "what's run is %s" % a[1][:120], key=f.name + ":query")
            c.ob("R01.what", f, re.fullmatch(r"(?:Option::unwrap_or\w*\()?%s(?:\.0)?(?:, .*\))?|\{.*\b%s\b.*\}" % (inp, inp), a[3]) is not None, "the inputs are %s" % a[3][:120], key=f.name + ":inputs")
        lacks = any_of(contradicts(r"^[\w:]*(?:BTreeSet|Sub|Iterator)\w*::is_empty\(.*unbound_variables\(%s\)\)$" % alg, "0"), contradicts(r"^(?:Not )?\w+::len\(.*unbound_variables\(%s\)\)$" % alg, "1"))
        ok = ret_of(g, "Ok")
        st = g.events(lambda ev: ev.kind == "edge" and lacks(ev))
        q = g.search(ok, given=lacks) if st else []
        c.ob("R01.what", f, bool(st) and q is None, "a query with an input that isn't given is answered: %s" % fmt_path(q or []), key=f.name + ":unbound")
        # what each kind of query answers
        runner(c, g, f, alg, conn, schema)
        c.done(g)
    c.floor("R01.what", "ways to run a query's text", nq, 4)
    for f in having(c, r"(^|::)PreparedQuery(::<.*>)?::run$"):
        g = egraph(c, f)
        ran(c, g, f, r"self\.projector(?:\.0)?", r"self\.schema", r"self\.connection", r"self\.statement", r"self\.args")
        for v, want, what in (("Empty", r"QueryOutput::QueryOutput\{spec: self\.find_spec, .*\}", "nothing"), ("Constant", r"QueryOutput::QueryOutput\{spec: self\.select\.spec, .*call\(self\.select\..*\)\}", "its constant"), ("Bound", r"Projector::project\(self\.projector.*\)", "its rows")):
            got = answers(g, choice("^self$", "PreparedQuery", v))
            c.ob("R01.run", f, bool(got) and all(re.fullmatch(want, x) for x in got), "a prepared query that has %s answers %s" % (what, sorted(got)[:2]), key="run:" + v)
        c.done(g)

def runner(c, g, f, alg, conn, schema):
    sel = r"[\w:]*query_to_select\(%s, %s\)" % (schema, alg)
    sql = r"SelectQuery::to_sql_query\(%s\.query(?:\.0)?\)" % sel
    empty = lambda yes: contradicts(r"^[\w:]*is_known_empty\(%s(?:\.cc)?\)$" % alg, "1" if yes else "0")
    kind = lambda v: choice("^%s$" % sel, "ProjectedSelect", v)
    E = r"QueryOutput::QueryOutput\{spec: %s\.find_spec, results: .*\}|PreparedQuery::Empty\{find_spec: %s\.find_spec\}|QueryExplanation::KnownEmpty\{0: %s\.cc\.empty_because(?:\.0)?\}" % (alg, alg, alg)
    K = r"QueryOutput::QueryOutput\{spec: %s\.0\.spec, .*call\(%s\.0\..*\)\}|PreparedQuery::Constant\{select: %s\.0\}|QueryExplanation::KnownConstant\{\}" % (sel, sel, sel)
    st = r"Connection::prepare\(%s, %s\.sql\)" % (conn, sql)
    B = r"Projector::project\(%s\.projector(?:\.0)?, .*\)|PreparedQuery::Bound\{statement: %s, schema: %s, connection: %s, args: %s\.args, projector: %s\.projector\}|QueryExplanation::ExecutionPlan\{query: %s, steps: .*\}" % (sel, st, schema, conn, sql, sel, sql)
    for k, given, want, what in (("empty", (empty(True),), E, "is known to be empty"), ("constant", (empty(False), kind("Constant")), K, "is constant"), ("rows", (empty(False), kind("Query")), B, "must be run")):
        got = {x for x in answers(g, *given) if not x.startswith("Result::Err")}
        c.ob("R01.run", f, bool(got) and all(re.fullmatch(want, x) for x in got), "a query that %s gives %s" % (what, [x[-300:] for x in sorted(got) if not re.fullmatch(want, x)][:2]), key="%s:%s" % (f.name, k))
    if g.events(call_to(r".*Projector::project")):
        ran(c, g, f, r"%s\.projector(?:\.0)?" % sel, schema, conn, st, r"%s\.args" % sql)

def mapped(g, text, src, k, v, done):
    """Is the map `text` a new one that gets (~k, ~v) from every element of ~src?"""
    if not re.fullmatch(r"BTreeMap::new\(\)|Default::default\(\)", text): return False
    put = lambda ev: ev.kind == "call" and re.search(r"Map::insert$", ev.callee) is not None and args_of(g, ev)[0] == text
    fit = lambda ev: put(ev) and re.fullmatch(k, args_of(g, ev)[1]) is not None and re.fullmatch(v, args_of(g, ev)[2]) is not None
    ls = loops(g, src + r"\[\]")
    ends = turns(g, ls, fit, done)
    return bool(ls) and not g.events(lambda ev: put(ev) and not fit(ev)) and g.search(done, block=ends) is None

def ran(c, g, f, proj, schema, conn, st, args):
    runs = g.events(lambda ev: ev.kind == "call" and re.search(r"Projector::project$", ev.callee) is not None)
    c.floor("R01.run", "places where %s reads rows" % f.name, len(runs), 1)
    any_ = r"Statement::query\(%s, [^()]*\)" % st
    named = r"Statement::query_named\(%s, \[tuple\{0: %s\[\]\.0, 1: %s\[\]\.1\}\]\)" % (st, args, args)
    none = contradicts(r"^Vec::is_empty\(%s\)$|^slice::is_empty\(%s\)$" % (args, args), "0")
    for ev in runs:
        a = args_of(g, ev)
        c.ob("R01.run", f, re.fullmatch(proj, a[0]) is not None, "the rows are read by %s" % a[0][:120], key=f.name + ":projector")
        c.ob("R01.run", f, re.fullmatch(schema, a[1]) is not None, "the rows are read under %s" % a[1][:120], key=f.name + ":schema")
        c.ob("R01.run", f, re.fullmatch(conn, a[2]) is not None, "what's pulled comes from %s" % a[2][:120], key=f.name + ":data")
        built = lambda x: filled(g, r"tuple\{0: (?:%s)\[\]\.0, 1: (?:%s)\[\]\.1\}" % (args, args), "(?:%s)" % args, lambda ev: ev.kind == "call" and ev.callee.endswith("query_named"), re.sub(r"^.*, (Vec::\w+\(.*\))\)$", r"\1", x)) if re.fullmatch(r"Statement::query_named\(%s, Vec::\w+\(.*\)\)" % st, x) else False
        c.ob("R01.run", f, all(re.fullmatch(any_ + "|" + named, x) or built(x) for x in split(a[3])), "the rows are those of %s" % a[3][:200], key=f.name + ":rows")
        T = within(g, none)
        if (ev.frame.id, ev.block) in T.only:
            x = rset(T.operand(ev.frame, ev.data["a"][3]))
            c.ob("R01.run", f, re.fullmatch(named, x) is not None or built(x), "with arguments, the rows are those of %s" % x[:200], key=f.name + ":args")

@rule("R01", "`keep_intersected_keys` keeps exactly the entries whose keys are in the set")
def r01_inputs(c):
    c.rule("R01.inputs", "each input value is bound to its own variable with its own type; a type that disagrees with its value is refused, and only inputs the query names count")
    VAR = r"(?:Variable::Variable\{0: (?:PlainSymbol::PlainSymbol\{0: )?var\}*|Variable::from_valid_name\(var\))"
    VTY = {"bind_value": r"value", "bind_ref_from_kw": r"TypedValue::Ref\{0: .*get\(Mutex::lock\(self(?:\.\w+)+\)\.schema\.ident_map, value\).*\}", "bind_ref": r"TypedValue::Ref\{0: value\}", "bind_long": r"TypedValue::Long\{0: value\}",
           "bind_instant": r"(?:TypedValue::Instant\{0: )?TimeZone::timestamp\(Utc::Utc\{\}, num::div_euclid\(value, 1000000\), \(num::rem_euclid\(value, 1000000\) Mul 1000\)\)\}?|(?:TypedValue::instant|FromMicros::from_micros)\(value\)", "bind_date_time": r"TypedValue::Instant\{0: value\}", "bind_type": r"value_type"}
    fs = [f for f in c.P.fns if re.search(r"QueryBuilder(::<.*>)?::bind_\w+$", f.path) and f.kind != "closure"]
    c.floor("R01.inputs", "ways to bind an input", len(fs), 6)
    for f in fs:
        g = c.graph(f, None, small=40, same_crate=False, keep=True, extra=lambda x: x.crate in ("mentat", "mentat_core", "core_traits", "edn") and len(x.body.blocks) <= 30)
        ins = g.events(lambda ev: ev.kind == "call" and re.search(r"Map::insert$", ev.callee) is not None)
        p = [f.body.name(i) for i in range(1, f.body.argc + 1)]
        q = g.search(ret_of(g, "Ok") if "Result" in f.body.ty(0) else out_(g), block=lambda ev: any(is_ev(i)(ev) for i in ins))
        c.ob("R01.inputs", f, bool(ins) and q is None, "%s binds nothing: %s" % (f.name, fmt_path(q or [])), key=f.name + ":all")
        for ev in ins:
            a = args_of(g, ev)
            want = VTY.get(f.name, r".*\b%s\b.*" % p[-1]).replace("value_type", p[-1]) if f.name == "bind_type" else re.sub(r"\bvalue\b", p[-1], VTY.get(f.name, r".*\bvalue\b.*"))
            c.ob("R01.inputs", f, re.fullmatch(r"self\.types" if f.name == "bind_type" else r"self\.values", a[0]) is not None, "%s puts it in %s" % (f.name, a[0][:80]), key=f.name + ":in")
            c.ob("R01.inputs", f, re.fullmatch(VAR.replace("var", p[1]), a[1]) is not None, "%s binds %s" % (f.name, a[1][:80]), key=f.name + ":var")
            c.ob("R01.inputs", f, re.fullmatch(want, a[2]) is not None, "%s binds to %s" % (f.name, a[2][:160]), key=f.name + ":value")
        c.done(g)
    # the builder runs its own query with what was bound
    for f in [f for f in c.P.fns if re.search(r"QueryBuilder(::<.*>)?::execute(_\w+)?$", f.path) and f.kind != "closure"]:
        g = c.graph(f, None, small=25, keep=True)
        runs = g.events(call_to(r".*::(q_once|q_uncached)"))
        c.ob("R01.inputs", f, bool(runs), "%s runs nothing" % f.name, key=f.name + ":runs")
        for ev in runs:
            a = args_of(g, ev)
            c.ob("R01.inputs", f, a[1] == "self.query", "%s runs %s" % (f.name, a[1][:80]), key=f.name + ":query")
            c.ob("R01.inputs", f, re.fullmatch(r"(?:Option::Some\{0: )?QueryInputs::new\((?:mem::\w+\()?self\.types(?:, .*?\)|\))?, (?:mem::\w+\()?self\.values(?:, .*?\)|\))?\)\}?", a[2]) is not None or re.fullmatch(r"(?:Option::Some\{0: )?QueryInputs::QueryInputs\{types: self\.types, values: self\.values\}\}?", a[2]) is not None, "%s runs with %s" % (f.name, a[2][:200]), key=f.name + ":inputs")
        if f.name != "execute":
            into = g.events(call_to(r".*QueryOutput::into_\w+"))
            c.ob("R01.inputs", f, bool(into) and all(ev.callee.endswith("into_" + f.name[8:]) for ev in into), "%s gives %s" % (f.name, [ev.callee for ev in into]), key=f.name + ":shape")
        c.done(g)
    # inputs and their types
    QI = r"(^|::)QueryInputs::"
    ty_of = r"(?:TypedValue::value_type\(%s\)|\{(?:ValueType::\w+\{\}\|?)+\})"
    for f in having(c, QI + "with_values$"):
        g = c.graph(f, None, small=25, keep=True)
        g.T.opaque = lambda n: n.endswith("value_type")
        v = f.body.name(1)
        got = answers(g)
        want = r"QueryInputs::QueryInputs\{types: \[tuple\{0: (?:BTreeMap::iter\()?%s\)?\[\]\.0, 1: TypedValue::value_type\((?:BTreeMap::iter\()?%s\)?\[\]\.1\)\}\], values: %s\}" % (v, v, v)
        one = r"(?:BTreeMap::iter\()?%s\)?\[\]" % v
        fit = lambda x: re.fullmatch(want, x) or (re.fullmatch(r"QueryInputs::QueryInputs\{types: .*\(\), values: %s\}" % v, x) and mapped(g, x[len("QueryInputs::QueryInputs{types: "):x.index(", values")], one[:-4], one + r"\.0", r"TypedValue::value_type\(%s\.1\)" % one, out_(g)))
        c.ob("R01.inputs", f, bool(got) and all(fit(x) for x in got), "values are taken as %s" % sorted(got)[:2], key="with_values")
        c.done(g)
    for f in having(c, QI + "new$"):
        g = c.graph(f, None, small=25, keep=True)
        g.T.opaque = lambda n: n.endswith("value_type")
        t, v = f.body.name(1), f.body.name(2)
        el = r"(?:BTreeMap::iter\()?%s\)?\[\]" % v
        put = lambda ev: ev.kind == "call" and re.search(r"BTreeMap::insert$", ev.callee) is not None and args_of(g, ev)[0] == t and re.fullmatch(el + r"\.0", args_of(g, ev)[1]) is not None and re.fullmatch(r"TypedValue::value_type\(%s\.1\)" % el, args_of(g, ev)[2]) is not None
        ok = ret_of(g, "Ok")
        ls = loops(g, el)
        c.floor("R01.inputs", "walks over the values given", len(ls), 1)
        for s, n in ls.values():
            q = g.search(any_of(s, n, ok), start=s, block=put)
            c.ob("R01.inputs", f, q is None, "a value's type isn't noted: %s" % fmt_path(q or []), key="new:type")
            q = g.search(ok, block=n)
            c.ob("R01.inputs", f, q is None, "a value isn't looked at: %s" % fmt_path(q or []), key="new:each")
        old = r"(?:BTreeMap::insert\(%s, .*?\)|BTreeMap::get\(%s, .*?\))(?:\.0)?" % (t, t)
        ne = lambda ev: relation(ev, old, r"TypedValue::value_type\(%s\.1\)" % el)
        is_ = lambda r: (lambda ev: ev.kind == "edge" and ne(ev) == r)
        st = g.events(is_("Ne"))
        q = g.search(ok, start=is_("Ne"))
        c.ob("R01.inputs", f, bool(st) and q is None, "a type that disagrees with its value is accepted: %s" % fmt_path(q or []), key="new:disagree")
        st = g.events(is_("Eq"))
        q = g.search(ok, start=is_("Eq"))
        c.ob("R01.inputs", f, bool(st) and q is not None, "a type that agrees with its value is refused", key="new:agree")
        got = answers(g)
        got = {x for x in got if not x.startswith("Result::Err")}
        c.ob("R01.inputs", f, got == {"QueryInputs::QueryInputs{types: %s, values: %s}" % (t, v)}, "inputs are %s" % sorted(got), key="new:what")
        c.done(g)
    for f in having(c, r"::with_inputs_and_alias_counter$"):
        g = c.graph(f, None, small=12, keep=True)
        g.T.opaque = lambda n: n.endswith(("of_one", "keep_intersected_keys"))
        iv, ip = f.body.name(1), f.body.name(2)
        got = answers(g, among(r"^%s$" % ip, True))
        ok = bool(got)
        for x in got:
            ok = ok and re.search(r"input_variables: %s, " % iv, x) is not None and re.search(r"value_bindings: \{?%s(\.0)?\.values" % ip, x) is not None
        c.ob("R01.inputs", f, ok, "a query starts with %s" % [x[-400:] for x in got][:2], key="cc:values")
        for w in ("types", "values"):
            cut = lambda ev, w=w: ev.kind == "call" and re.search(r"keep_intersected_keys$|BTreeMap::retain$", ev.callee) is not None and re.search(r"\.%s$" % w, args_of(g, ev)[0]) is not None and iv in args_of(g, ev)[1]
            q = g.search(out_(g), block=cut, given=among(r"^%s$" % ip, True))
            c.ob("R01.inputs", f, bool(g.events(cut)) and q is None, "inputs the query doesn't name count: %s" % fmt_path(q or []), key="cc:named:" + w)
        ext = lambda ev: ev.kind == "call" and re.search(r"Extend::extend$|BTreeMap::insert$", ev.callee) is not None and re.search(r"%s(\.0)?\.types\)?\[\]\.1" % ip, " ".join(args_of(g, ev)[1:])) is not None and re.search(r"%s(\.0)?\.types\)?\[\]\.0" % ip, " ".join(args_of(g, ev)[1:])) is not None
        ls = loops(g, r"(?:BTreeMap::\w+\()?%s(?:\.0)?\.types\)?\[\]" % ip)
        q = g.search(out_(g), block=any_of(ext, turns(g, ls, ext, out_(g))) if ls else ext, given=among(r"^%s$" % ip, True))
        c.ob("R01.inputs", f, bool(g.events(ext)) and q is None, "an input's type isn't known to the query: %s" % fmt_path(q or []), key="cc:types")
        c.done(g)
    for f in having(c, r"(^|::)algebrize_with_inputs$"):
        g = c.graph(f, None, small=2, keep=True)
        mk = g.events(call_to(r".*::with_inputs_and_alias_counter"))
        c.floor("R01.inputs", "queries given their inputs", len(mk), 1)
        for ev in mk:
            a = args_of(g, ev)
            c.ob("R01.inputs", f, re.fullmatch(r"\w+\.in_vars", a[0]) is not None and re.fullmatch(r"inputs|%s" % f.body.name(4), a[1]) is not None, "a query's inputs are %s of %s" % (a[1], a[0]), key="algebrize")
        c.done(g)
    for f in having(c, r"::unbound_variables$"):
        g = c.graph(f, None, small=30, same_crate=False, keep=True, extra=lambda x: x.crate == f.crate and len(x.body.blocks) <= 20)
        got = answers(g)
        c.ob("R01.inputs", f, bool(got) and all(re.search(r"input_variables", x) and re.search(r"value_bindings\)?\[?", x) for x in got), "the inputs not given are %s" % sorted(got), key="unbound")
        c.done(g)
    for f in having(c, r"::from_parsed_query$"):
        g = c.graph(f, None, small=20, keep=True)
        ok = ret_of(g, "Ok")
        for w in ("in_vars", "with"):
            dup = lambda ev, w=w: ev.kind == "edge" and contradicts(r"^BTreeSet::insert\(.*parsed\.%s\[\]\)$" % w, "1")(ev)
            e = g.events(dup)
            q = g.search(ok, start=dup)
            c.ob("R01.inputs", f, bool(e) and q is None, "a variable named twice in :%s is accepted: %s" % (w, fmt_path(q or [])), key="twice:" + w)
        got = {x for x in answers(g) if not x.startswith("Result::Err")}
        good = bool(got)
        for x in got:
            for w in ("find_spec", "in_sources", "limit", "where_clauses", "order", "default_source"):
                good = good and "%s: parsed.%s" % (w, w) in x
        c.ob("R01.inputs", f, good, "a parsed query becomes %s" % sorted(got)[:1], key="parsed")
        c.done(g)

@rule("R01")
def r01_lookup(c):
    c.rule("R01.lookup", "looking up an entity's values answers with exactly what that entity has for that attribute, and names no attribute that doesn't exist")
    for f in having(c, r"::query::fetch_values$"):
        g = c.graph(f, None, small=60, same_crate=False, keep=True, extra=lambda x: x.crate in ("mentat_transaction", "mentat_query_algebrizer", "edn") and len(x.body.blocks) <= 25 and not re.search(r"run_algebrized_query|algebrize_with_inputs", x.path))
        g.T.opaque = lambda n: re.search(r"algebrize_with_inputs$|run_algebrized_query$", n) is not None
        p = {t: f.body.name(i) for i in range(1, f.body.argc + 1) for t in [f.body.ty(i)]}
        ids = [f.body.name(i) for i in range(1, f.body.argc + 1) if f.body.ty(i) == "i64"]
        one = p.get("bool")
        pat = r"Pattern::(?:new\(|Pattern\{source: )Option::None\{\}, (?:entity: )?PatternNonValuePlace::Entid\{0: %s\}, (?:attribute: )?PatternNonValuePlace::Entid\{0: %s\}, (?:value: )?PatternValuePlace::Variable\{0: (.*?)\}, (?:tx: )?PatternNonValuePlace::Placeholder\{\}[)}]" % tuple(ids[:2])
        for yes in (True, False):
            T = within(g, contradicts("^%s$" % one, "1" if yes else "0"))
            got = set()
            for ev in g.events(lambda ev: ev.kind == "call" and re.search(r"algebrize_(with_inputs|query)$", ev.callee) is not None):
                if (ev.frame.id, ev.block) in T.only: got.add(rset(T.operand(ev.frame, ev.data["a"][1])))
            want = r"FindQuery::FindQuery\{find_spec: FindSpec::%s\{0: Element::Variable\{0: (.*?)\}\}, default_source: .*, limit: Limit::None\{\}, where_clauses: .*%s.*\}" % ("FindScalar" if yes else "FindColl", pat)
            ms = [re.fullmatch(want, x) for x in got]
            c.ob("R01.lookup", f, bool(ms) and all(m and m.group(1).startswith(m.group(2)[:20]) for m in ms), "what's asked for is %s" % sorted(got), key="fetch:" + ("one" if yes else "all"))
        c.done(g)
    n = 0
    for f in engines(c):
        if not re.match(r"lookup_values?$", f.name): continue
        n += 1
        g = c.graph(f, None, small=25, keep=True)
        g.T.opaque = lambda nm: re.search(r"fetch_values$|Known.*::\w+$", nm) is not None
        ps = [f.body.name(i) for i in range(1, f.body.argc + 1)]
        for ev in g.events(lambda ev: ev.kind == "call" and re.search(r"fetch_values$", ev.callee) is not None):
            a = args_of(g, ev)
            want = [ps[0], ps[1], ps[2], ps[3], "0" if f.name.endswith("s") else "1"]
            c.ob("R01.lookup", f, a == want, "the store is asked for %s" % a, key=f.name + ":store")
        got = answers(g)
        c.ob("R01.lookup", f, any("fetch_values(" in x for x in got), "the store's answer isn't given: %s" % sorted(got)[:3], key=f.name + ":gives")
        cold = contradicts(r"is_attribute_cached_forward\(.*\)$", "0")
        got = {x for x in answers(g, cold) if not x.startswith("Result::Err")}
        bad = [x for x in got if "fetch_values(" not in x and x != "Option::None{}"]
        q = g.search(out_(g), block=lambda ev: ev.kind == "call" and re.search(r"fetch_values$", ev.callee) is not None, given=cold)
        c.ob("R01.lookup", f, bool(got) and not bad and q is None, "what isn't cached is answered by %s %s" % (sorted(bad)[:2], fmt_path(q or [])), key=f.name + ":cold")
        c.done(g)
    c.floor("R01.lookup", "lookups", n, 2)
    n = 0
    for f in engines(c):
        m = re.match(r"(lookup_values?)_for_attribute$", f.name)
        if not m: continue
        n += 1
        g = c.graph(f, None, small=25, keep=True)
        g.T.opaque = lambda nm: re.search(r"lookup_values?$", nm) is not None
        ps = [f.body.name(i) for i in range(1, f.body.argc + 1)]
        ent = r"Option::map\(BTreeMap::get\(%s\.schema\.ident_map, %s\), [\w:]+\)|BTreeMap::get\(%s\.schema\.ident_map, %s\)|[\w<> :]*get_entid\(%s\.schema, %s\)" % ((ps[1], ps[3]) * 3)
        lack = opt(r"^(?:%s)" % ent, False)
        st = g.events(lambda ev: ev.kind == "call" and re.search(r"ok_or(_else)?$", ev.callee) is not None) or g.events(lambda ev: ev.kind == "edge" and lack(ev))
        c.ob("R01.lookup", f, bool(st), "whether there's such an attribute isn't looked at", key=f.name + ":known")
        for ev in g.events(lambda ev: ev.kind == "call" and re.search(r"::lookup_values?$", ev.callee) is not None):
            a = args_of(g, ev)
            c.ob("R01.lookup", f, ev.callee.endswith("::" + m.group(1)), "answers with %s" % ev.callee, key=f.name + ":which")
            c.ob("R01.lookup", f, a[:3] == ps[:3] and re.fullmatch(r"(?:%s)(?:\.0)*" % ent, a[3]) is not None, "looks up %s" % a, key=f.name + ":args")
        c.done(g)
    c.floor("R01.lookup", "lookups by name", n, 2)

@rule("R01")
def r01_current(c):
    c.rule("R01.current", "the schema, cache, last transaction and idents a reader is told are those of what it reads")
    TX = r"\(Index::index\(%s\.partition_map, ':db\.part/tx'\)\.next_entid_to_allocate Sub 1\)"
    G = r"Mutex::lock\(self(?:\.conn)?\.\w+\)"
    n = 0
    for f in c.P.fns:
        if f.kind == "closure" or f.body is None or not f.self_ty or f.crate not in ("mentat", "mentat_transaction"): continue
        who = re.sub(r"<.*", "", str(f.self_ty)).split("::")[-1]
        if who not in OWN: continue
        home = {"Conn": G, "Store": G, "InProgress": "self", "InProgressRead": r"self\.\w+"}[who]
        sch = f.impl_of and re.search(r"::HasSchema\b", str(f.impl_of))
        if not (sch or f.name in ("last_tx_id", "current_schema", "current_cache")): continue
        n += 1
        g = c.graph(f, None, small=25, same_crate=False, keep=True, extra=lambda x: x.crate in ("mentat", "mentat_transaction", "mentat_db", "db_traits") and len(x.body.blocks) <= 25 and not re.search(r"Schema as ", x.path))
        if sch: g.T.opaque = lambda nm: re.search(r"HasSchema(>|::).*::?%s$" % f.name, nm) is not None
        got = answers(g)
        if f.name == "last_tx_id": want = TX % home
        elif f.name == "current_schema": want = home + r"\.schema"
        elif f.name == "current_cache": want = home + r"\.attribute_cache(\..*)?"
        else:
            rest = "".join(", " + re.escape(f.body.name(i)) for i in range(2, f.body.argc + 1))
            want = r"[\w:<> ]*%s\((?:%s\.schema|%s)%s\)" % (f.name, home, home if who == "InProgressRead" else "-", rest)
        c.ob("R01.current", f, bool(got) and all(re.fullmatch(want, x) for x in got), "%s of %s is %s" % (f.name, who, [x[:200] for x in sorted(got)][:2]), key="%s:%s" % (who, f.name))
        c.done(g)
    c.floor("R01.current", "what readers are told", n, 14)
