"""Pull expressions: what is asked for, fetched, and given back for each entity."""
import re
from ctx import *
from flow import Ev
from registry import rule
from rules.cache import within, answers, among
from rules.idents import loops
from rules.render import returning, pname, says, listed, inf
from rules.vocab import against_rel
from rules.project import own, projectors, tally, adt_of, PJ, ROW

PL, DB = "mentat_query_pull", "mentat_db"
NEWSET = r"(?:Default::default|BTreeMap::new|BTreeSet::new|BTreeSet::with_capacity)\(\)"

def args_in(g, pred, i, *given):
    """Renderings of argument i of the calls ~pred that can happen under `given`."""
    T = within(g, *given)
    return {rset(T.operand(ev.frame, ev.data["a"][i])) for ev in g.events(pred) if (ev.frame.id, ev.block) in T.only}

def split(x):
    """The alternatives of a rendered set."""
    if not (x.startswith("{") and x.endswith("}")): return [x]
    out, depth, cur = [], 0, ""
    for ch in x[1:-1]:
        if ch == "|" and depth == 0: out.append(cur); cur = ""; continue
        depth += (ch in "({[") - (ch in ")}]")
        cur += ch
    return out + [cur]

def homes(g, fr, o, only):
    """The locals an operand can be (a reference to) along the blocks in `only`."""
    from rules.terms import home
    h = home(g, fr, o)
    if h is None or len(h) != 2: return {h}
    f2 = next((x for x in g.frames if x.id == h[0]), None) if not isinstance(g.frames, dict) else g.frames.get(h[0])
    ds = [d for d in f2.body.defs().get(h[1], []) if (h[0], d[0]) in only] if f2 is not None else []
    out = set()
    for d in ds:
        r = d[2][1] if d[1] >= 0 and not isinstance(d[2], dict) else None
        if r is None or r["r"] not in ("ref", "use", "cast"): return {h}
        out |= homes(g, f2, {"c": r["p"]} if r["r"] == "ref" else r["o"], only)
    return out or {h}

def filled(g, item, src, done, text):
    """Is the list `text` a new one that gets ~item from every element of ~src?"""
    if not re.fullmatch(r"Vec::(?:new\(\)|with_capacity\(.*\))", text): return False
    adds = lambda ev: ev.kind == "call" and re.search(r"Vec::push$", ev.callee) is not None and args_of(g, ev)[0] == text and re.fullmatch(item, args_of(g, ev)[1]) is not None
    other = g.events(lambda ev: ev.kind == "call" and re.search(r"Vec::\w+$", ev.callee) is not None and len(ev.data["a"]) > 1 and args_of(g, ev)[0] == text and not adds(ev))
    ends = turns(g, loops(g, src + r"\[\]"), adds, done)
    return not other and g.search(done, start=lambda ev: ev.kind == "call" and rend_call(g, ev, text), block=ends) is None

def rend_call(g, ev, text):
    return re.search(r"Vec::(new|with_capacity)$", ev.callee) is not None and text.startswith("Vec::" + ev.callee.split("::")[-1] + "(")

def turns(g, ls, op, done, given=None):
    """Predicate: ends of the iterations `ls` every turn of which performs op."""
    ends = [n for s, n in ls.values() if g.search(any_of(s, n, done), start=s, block=op, given=given) is None and g.search(s, given=given) is not None]
    return any_of(*ends) if ends else (lambda ev: False)

@rule("P01", "what an `Iterator` of std yields is each element of its collection once")
def p01_names(c):
    c.rule("P01.names", "every attribute named, and for a wildcard every attribute there is, is asked for under its alias or its own name, whatever it is named along with; one without a name is refused")
    c.rule("P01.id", "the entity's own id is given exactly when asked for, under its alias or its own name, and asking twice is refused")
    fs = returning(c, r"Result<.*Puller", r"Vec<.*PullAttributeSpec", crate=PL)
    c.floor("P01.names", "functions that prepare a pull", len(fs), 1)
    for f in fs:
        c.see(f)
        g = c.graph(f, None, small=30, keep=True)
        kept = re.compile(r"(AttributeSpec::specified|HasSchema(>|::).*(get_ident|get_entid)|Schema::(get_ident|get_entid))$")
        g.T.opaque = lambda n: kept.search(n) is not None
        A = next(f.body.name(i) for i in range(1, f.body.argc + 1) if "PullAttributeSpec" in f.body.ty(i))
        S = next(f.body.name(i) for i in range(1, f.body.argc + 1) if "Schema" in f.body.ty(i))
        el = A + r"\[\]"
        at = el + r"\.0\.attribute"
        ident = lambda k: r"(?:BTreeMap::get\(%s\.entid_map, %s\)|[\w<> ]+::get_ident\(%s, %s\))(?:\.0)?" % (S, k, S, k)
        entid = r"(?:Option::map\()?(?:BTreeMap::get\(%s\.ident_map, %s\.0\)|[\w<> ]+::get_entid\(%s, %s\.0\))(?:, [\w:]+\))?(?:\.0)*" % (S, at, S, at)
        dbid = r"(?:Rc::try_unwrap\()?Keyword::namespaced\('db', 'id'\)\)?"
        alias = r"(?:Rc::try_unwrap\()?%s\.alias\)?(?:\.0)?" % (el + r"\.0")
        ok = ret_of(g, "Ok")
        outer = loops(g, el)
        if not c.floor("P01.names", "iterations over what is asked for", len(outer), 1): c.done(g); continue
        some, none = next(iter(outer.values()))
        nxt = any_of(some, none, ok)
        q = g.search(ok, block=none)
        c.ob("P01.names", f, q is None, "what follows is ignored: %s" % fmt_path(q or []), key="all")
        pick = lambda v: choice("^%s$" % el, "PullAttributeSpec", v)
        spec = lambda v: (lambda ev, p=pick(v): p(ev) and str(ev.tag[1]).endswith("PullAttributeSpec"))
        conc = lambda v: choice("^%s$" % at, "PullConcreteAttribute", v)
        isid = lambda yes: (lambda ev: relation(ev, r"%s\.0$" % at, r"^%s$" % dbid) == ("Ne" if yes else "Eq"))
        ali = lambda yes: opt(r"^(?:Option::map\()?%s(?:, [\w:<> ]+\))?" % alias, yes)
        def emit(ev):
            if ev.kind != "call": return None
            if re.search(r"Set::insert$", ev.callee): return "attr"
            if re.search(r"Map::insert$", ev.callee): return "name"
            if re.search(r"(Entry|Map)::(or_insert\w*|try_insert)$", ev.callee): return "keep"
        names = lambda ev: emit(ev) in ("name", "keep")
        attrs = lambda ev: emit(ev) == "attr"
        both = {("attr", "name")}
        # a wildcard
        inner = loops(g, r"(?:BTreeMap::(?:iter|keys|into_iter)\()?%s\.attribute_map\)?(?:\[\])(?:\.0)?" % S)
        if c.floor("P01.names", "iterations over every attribute", len(inner), 1):
            for s, n in inner.values():
                q = g.search(nxt, start=some, block=n, given=spec("Wildcard"))
                c.ob("P01.names", f, q is None, "a wildcard doesn't ask for every attribute: %s" % fmt_path(q or []), key="wildcard:all")
                for there, want in ((False, [("attr", "name"), ("attr", "keep")]), (True, [("attr",), (), ("attr", "keep"), ("keep",)])):
                    has = any_of(contradicts(r"Set::insert\(.*attribute_map.*\)$", "0" if there else "1"), contradicts(r"::(contains|contains_key)\(.*attribute_map.*\)$", "1" if there else "0"), opt(r"::get\(%s, .*attribute_map.*\)" % NEWSET, there))
                    got = tally(g, emit, s, any_of(s, n, nxt), any_of(spec("Wildcard"), has))
                    c.ob("P01.names", f, bool(got) and got <= set(want), "an attribute a wildcard finds %s gives %s" % ("already asked for" if there else "not yet asked for", sorted(got)), key="wildcard:" + ("again" if there else "first"))
        # an attribute
        cases = [("entid:alias", [conc("Entid"), ali(True)], both, at + r"\.0", alias),
                 ("entid", [conc("Entid"), ali(False)], both, at + r"\.0", ident(at + r"\.0")),
                 ("ident:alias", [conc("Ident"), isid(False), opt("^" + entid, True), ali(True)], both, entid, alias),
                 ("ident", [conc("Ident"), isid(False), opt("^" + entid, True), ali(False)], both, entid, r"(?:Rc::try_unwrap\()?%s\.0\)?" % at),
                 ("id:alias", [conc("Ident"), isid(True), ali(True)], {()}, None, None),
                 ("id", [conc("Ident"), isid(True), ali(False)], {()}, None, None)]
        for k, given, want, key, name in cases:
            given = [spec("Attribute")] + given
            got = tally(g, emit, some, nxt, any_of(*given))
            if key is None:
                c.ob("P01.id", f, got == want, "asking for the id asks for %s" % sorted(got), key=k + ":only")
                sp = answers(g, *given)
                fields = {next(iter(re.findall(r"db_id_alias: (.*)\}$", x)), x) for x in sp if x.startswith("Puller")}
                parts = {p for x in fields for p in split(x)} - {"Option::None{}"}
                mine, other = (alias, dbid) if "alias" in k else (dbid, alias)
                fit = lambda rx: {p for p in parts if re.fullmatch(r"(?:Option::Some\{0: )?%s\}?" % rx, p)}
                c.ob("P01.id", f, bool(fit(mine)) and not parts - fit(mine) - fit(other), "the id is given as %s" % sorted(parts), key=k)
                continue
            c.ob("P01.names", f, got == want, "naming an attribute leads to %s" % sorted(got), key=k + ":asked")
            ks = args_in(g, any_of(attrs, names), 1, *given) if not g.events(lambda ev: emit(ev) == "keep") else args_in(g, attrs, 1, *given) | args_in(g, lambda ev: emit(ev) == "name", 1, *given)
            c.ob("P01.names", f, bool(ks) and all(re.fullmatch(key, x) for x in ks), "an attribute named is asked for as %s" % sorted(ks), key=k + ":which")
            ns = args_in(g, lambda ev: emit(ev) == "name", 2, *given)
            # what's chosen by a combinator of the alias is either
            both_ = [alias, ident(at + r"\.0") if "entid" in k else r"(?:Rc::try_unwrap\()?%s\.0\)?" % at]
            wrap = r"(?:Option::map\(%s, [\w:<> ]+\)|%s)"
            ns_ = {p for x in ns for p in split(x)}
            mine = {p for p in ns_ if re.fullmatch(wrap % (name, name), p)}
            rest = {p for p in ns_ - mine if not any(re.fullmatch(wrap % (x, x), p) for x in both_)}
            c.ob("P01.names", f, bool(mine) and not rest, "an attribute named is called %s" % sorted(ns), key=k + ":name")
        ks = args_in(g, attrs, 1, spec("Wildcard"))
        ns = {(rset(within(g, spec("Wildcard")).operand(ev.frame, ev.data["a"][-1]))) for ev in g.events(names) if (ev.frame.id, ev.block) in within(g, spec("Wildcard")).only}
        wk = r"(?:BTreeMap::(?:iter|keys)\()?%s\.attribute_map\)?\[\](?:\.0)?" % S
        c.ob("P01.names", f, bool(ks) and all(re.fullmatch(wk, x) for x in ks), "a wildcard asks for %s" % sorted(ks), key="wildcard:which")
        c.ob("P01.names", f, bool(ns) and all(re.fullmatch(ident(wk), x) or x.startswith("<closure") for x in ns), "a wildcard's attributes are called %s" % sorted(ns), key="wildcard:name")
        # no name, no pull
        for k, given in (("entid", [spec("Attribute"), conc("Entid"), ali(False), among(ident(at + r"\.0"), False)]), ("wildcard", [spec("Wildcard"), among(ident(wk), False)])):
            lack = opt(ident(at + r"\.0") if k == "entid" else ident(wk), True)
            st = [e for e in g.events(lambda ev: ev.kind == "edge" and lack(ev))]
            c.ob("P01.names", f, bool(st), "whether an attribute has a name isn't looked at", key="noname:" + k)
        # asking for the id twice
        def held(yes):
            def p(ev):
                if ev.kind != "edge" or ev.tag is None: return False
                r = rset(ev.g.T.operand(ev.frame, ev.data["o"]))
                if not re.search(r"Keyword::namespaced\('db', 'id'\)", r) or "eq(" in r or "Option::None" not in r: return False
                if ev.tag[2] in ("Some", "None"): return ev.tag[2] == ("Some" if yes else "None")
                m = re.match(r"(Not\()*Option::is_(some|none)\(", r)
                return m is not None and (str(ev.tag[2]) == "1") == (((m.group(2) == "some") != (r.count("Not(") % 2 == 1)) == yes)
            return p
        gid = any_of(spec("Attribute"), conc("Ident"), isid(True))
        q = g.search(nxt, start=some, block=any_of(held(True), held(False)), given=gid)
        c.ob("P01.id", f, q is None, "whether the id was asked for already isn't looked at: %s" % fmt_path(q or []), key="twice:seen")
        q = g.search(nxt, start=held(True), given=gid)
        c.ob("P01.id", f, q is None, "asking for the id twice is accepted: %s" % fmt_path(q or []), key="twice")
        got = answers(g)
        got = [x for x in got if x.startswith("Puller")]
        fits = [x for x in got if re.match(r"Puller::Puller\{attributes: %s, attribute_spec: [\w:]*AttributeSpec>?::specified\((?:%s|\[?BTreeMap::keys.*|\[%s.*\]), %s\), db_id_alias: " % (NEWSET, NEWSET, NEWSET, S), x)]
        c.ob("P01.names", f, bool(got) and len(got) == len(fits), "a pull is prepared as %s" % [x[:200] for x in got], key="prepared")
        c.done(g)

@rule("P01")
def p01_values(c):
    c.rule("P01.values", "every entity gets, under the name asked for, what was fetched of every attribute asked for, and its id if that was asked for; nothing else is added, and only what is missing is left out")
    fs = returning(c, r"Result<alloc::collections::btree::map::BTreeMap<i64, .*StructuredMap", r"Puller\b", crate=PL)
    c.floor("P01.values", "functions that pull", len(fs), 1)
    for f in fs:
        c.see(f)
        g = c.graph(f, None, small=30, keep=True)
        kept = re.compile(r"(make_cache_for_entities_and_attributes|forward_attribute_cache_for_attribute|binding_for_e)$")
        g.T.opaque = lambda n: kept.search(n) is not None
        prm = {re.sub(r"^&(mut )?", "", f.body.ty(i)).split("<")[0].split("::")[-1]: f.body.name(i) for i in range(1, f.body.argc + 1)}
        S, D, E = prm.get("Schema"), prm.get("Connection"), f.body.name(f.body.argc)
        es = r"(?:BTreeSet::iter\(|slice::iter\()?%s\)?" % E
        made = r"[\w:]*make_cache_for_entities_and_attributes\(%s, %s, self\.attribute_spec, %s\)" % (S, D, E)
        calls = g.events(call_to(r".*make_cache_for_entities_and_attributes"))
        c.ob("P01.values", f, len(calls) == 1 and re.fullmatch(made, "make_cache_for_entities_and_attributes(%s)" % ", ".join(args_of(g, calls[0]))) is not None, "what is fetched is %s" % [args_of(g, e) for e in calls], key="fetched")
        fwd = r"[\w:]*forward_attribute_cache_for_attribute\(%s, %s, (?:BTreeMap::\w+\()?self\.attributes\)?\[\]\.0\)" % (made, S)
        bind = r"[\w:<> ]*binding_for_e\(%s(?:\.0)?, %s\[\]\)(?:\.0)?" % (fwd, es)
        ok = ret_of(g, "Ok")
        ents = loops(g, r"%s\[\]" % es)
        ats = loops(g, r"(?!AttributeCaches)(?:tuple\{0: )?(?:BTreeMap::\w+\()?self\.attributes.*")
        c.floor("P01.values", "iterations over the entities", len(ents), 2)
        c.floor("P01.values", "iterations over the attributes", len(ats), 1)
        ins = lambda ev: ev.kind == "call" and re.search(r"(StructuredMap|IndexMap)::insert$", ev.callee) is not None
        into = r".*entry\(%s, %s\[\]\).*" % (NEWSET, es)
        isid = lambda ev: ins(ev) and re.fullmatch(r"self\.db_id_alias(\.0)?", args_of(g, ev)[1]) is not None
        evs = g.events(ins)
        for ev in evs:
            a = args_of(g, ev)
            c.ob("P01.values", f, re.fullmatch(into, a[0]) is not None, "goes to the map of %s" % a[0][:200], key="whose:" + ("id" if isid(ev) else "value"))
            if isid(ev): c.ob("P01.values", f, re.fullmatch(r"(?:Binding::Scalar\{0: )?TypedValue::Ref\{0: %s\[\]\}\}?" % es, a[2]) is not None, "the id is given as %s" % a[2][:200], key="id")
            else: c.ob("P01.values", f, re.fullmatch(r"(?:BTreeMap::\w+\()?self\.attributes\)?\[\]\.1", a[1]) is not None and re.fullmatch(bind, a[2]) is not None, "%s is given as %s" % (a[1][:120], a[2][:200]), key="value")
        def complete(op, orders, given, key, what):
            for first, second in orders:
                inner = turns(g, second, op, ok, given)
                if first is None: q = g.search(ok, block=inner, given=given)
                else: q = g.search(ok, block=turns(g, first, inner, ok, given), given=given)
                if q is None: return c.ob("P01.values", f, True, "", key=key)
            c.ob("P01.values", f, False, "%s: %s" % (what, fmt_path(q)), key=key)
        asked = opt(r"^self\.db_id_alias", True)
        complete(isid, [(None, ents)], asked, "id:all", "an entity's id is left out")
        q = g.search(isid, given=opt(r"^self\.db_id_alias", False))
        c.ob("P01.values", f, q is None, "the id is given unasked: %s" % fmt_path(q or []), key="id:unasked")
        given = any_of(among(fwd, True), opt("^" + bind, True))
        complete(lambda ev: ins(ev) and not isid(ev), [(ats, ents), (ents, ats)], given, "value:all", "a value is left out")
        got = answers(g)
        c.ob("P01.values", f, bool(got) and all(re.fullmatch(NEWSET, x) for x in got), "what's returned is %s" % [x[:160] for x in got], key="returned")
        c.done(g)
    # the functions that pull attributes by their ids
    fs = [x for x in own(c, PL) if x not in fs and x.vis == "Public" and re.search(r"Result<.*StructuredMap", x.body.ty(0))]
    c.floor("P01.values", "ways to pull attributes by id", len(fs), 2)
    for f in fs:
        c.see(f)
        g = c.graph(f, None, small=30, keep=True)
        g.T.opaque = lambda n: re.search(r"Puller::(prepare|pull)$", n) is not None
        g.T.lossy = True
        ps = [(f.body.name(i), f.body.ty(i)) for i in range(1, f.body.argc + 1)]
        S = next(n for n, t in ps if "Schema" in t); D = next(n for n, t in ps if "Connection" in t)
        ent, attr = [n for n, t in ps if n not in (S, D)]
        one = next(t for n, t in ps if n == ent) == "i64"
        want = r"Puller::pull\(Puller::prepare\(%s, \[PullAttributeSpec::Attribute\{0: (?:NamedPullAttribute::NamedPullAttribute\{attribute: )?PullConcreteAttribute::Entid\{0: %s\[\]\}(?:, alias: Option::None\{\}\})?\}\]\), %s, %s, %s\)" % (S, attr, S, D, r"(?:once::once\(%s\)|array\{0: %s\}|Option::Some\{0: %s\}|\[%s\])" % ((ent,) * 4) if one else ent)
        if one: want = r"(?:%s\[\]\.1|BTreeMap::(?:get|remove)\(%s, %s\)(?:\.0)?)" % (want, want, ent)
        got = answers(g)
        m = {x: re.search(r"Puller::prepare\(%s, (Vec::(?:new\(\)|with_capacity\([^,]*\)))\)" % S, x) for x in got}
        main = [x for x in got if re.fullmatch(want, x) or m[x] and re.fullmatch(want, x.replace(m[x].group(1), "[PullAttributeSpec::Attribute{0: PullConcreteAttribute::Entid{0: %s[]}}]" % attr)) and filled(g, r"PullAttributeSpec::Attribute\{0: (?:NamedPullAttribute::NamedPullAttribute\{attribute: )?PullConcreteAttribute::Entid\{0: %s\[\]\}(?:, alias: Option::None\{\}\})?\}" % attr, attr, ret_of(g, "Ok"), m[x].group(1))]
        rest = [x for x in got if x not in main and not re.fullmatch(r"(?:StructuredMap::StructuredMap\{0: )?Default::default\(\)\}?|[\w:<> ]*::default\(\)", x)]
        c.ob("P01.values", f, bool(main) and not rest, "gives %s" % [x[:200] for x in got], key="by-id:" + ("one" if one else "many"))
        c.done(g)

@rule("P01")
def p01_fetch(c):
    c.rule("P01.fetch", "what is fetched is every value of the attributes asked for of the entities asked about, from the table that holds it, each attribute's together")
    c.rule("P01.cell", "what was fetched of an entity's attribute is given whole: all the values if it has many, the one otherwise")
    takes = [f for f in own(c, DB) if f.body.argc > 1 and re.match(r"&mut .*AttributeCaches$", f.body.ty(1)) and any("AttributeSpec" in f.body.ty(i) for i in range(2, f.body.argc + 1))]
    hs = {f.h for f in takes}
    fs = [f for f in takes if not any(t.h in hs for _, _, k in f.body.calls() if k is not None for t in c.P.targets(k))]
    c.floor("P01.fetch", "functions that fetch what is asked for", len(fs), 1)
    for f in fs:
        c.see(f)
        g = c.graph(f, None, small=0, keep=True)
        X = next(f.body.name(i) for i in range(1, f.body.argc + 1) if "AttributeSpec" in f.body.ty(i))
        E = next(f.body.name(i) for i in range(1, f.body.argc + 1) if re.search(r"\[i64\]|Vec<i64>", f.body.ty(i)))
        lst = lambda s: r"(raw|sql|bind) (?:\w+::to_string\()?" + listed(s, True) + r"\)?"
        I = {"e": lst(E), "n": lst(X + r"\.non_fts"), "f": lst(X + r"\.fts")}
        cols = "SELECT a, e, v, value_type_tag FROM "
        EN = "«%s¦»" % inf("{e}", ", ")
        one = lambda t, x: "%s%s WHERE e IN (%s) AND a IN («%s¦»)" % (cols, t, EN, inf("{%s}" % x, ", "))
        by = " ORDER BY a ASC, e ASC"
        spec = lambda v: choice("^%s$" % X, "AttributeSpec", v)
        none = lambda w, yes: contradicts(r"::is_empty\(%s\.%s\)$" % (X, w), "1" if yes else "0")
        N, F = one("datoms", "n"), one("fulltext_datoms", "f")
        says(c, "P01.fetch", f, g, [spec("All")], [cols + "all_datoms WHERE e IN (" + EN + ")" + by], None, I, "all")
        says(c, "P01.fetch", f, g, [spec("Specified"), none("fts", True), none("non_fts", False)], [N + by], None, I, "plain")
        says(c, "P01.fetch", f, g, [spec("Specified"), none("fts", False), none("non_fts", True)], [F + by], None, I, "fulltext")
        says(c, "P01.fetch", f, g, [spec("Specified"), none("fts", False), none("non_fts", False)], [N + " UNION ALL " + F + by], None, I, "both")
        c.done(g)
    from rules.terms import home
    for f in fs:
        g = c.graph(f, None, small=30, keep=True)
        g.T.blank = lambda n: n.endswith("SQLiteQueryBuilder::new")
        g.T.lossy = True
        X = next(f.body.name(i) for i in range(1, f.body.argc + 1) if "AttributeSpec" in f.body.ty(i))
        S = next(f.body.name(i) for i in range(1, f.body.argc + 1) if "Schema" in f.body.ty(i))
        ok, run = ret_of(g, "Ok"), lambda ev: ev.kind == "call" and re.search(r"rusqlite::Connection::prepare(_cached)?$", ev.callee) is not None
        marks = lambda src: lambda ev: ev.kind == "call" and re.search(r"::extend$", ev.callee) is not None and args_of(g, ev)[0] == "self.forward_cached_attributes" and re.fullmatch(r"\[?(?:slice::iter\(|Vec::\w+\(|BTreeMap::keys\()?%s\)?(?:\[\]\.0)?\]?" % src, args_of(g, ev)[1]) is not None
        single = lambda src: lambda ev: ev.kind == "call" and re.search(r"Set::insert$", ev.callee) is not None and args_of(g, ev)[0] == "self.forward_cached_attributes" and re.fullmatch(r"(?:\w+::\w+\()?%s\)?\[\](\.0)?" % src, args_of(g, ev)[1]) is not None
        spec = lambda v: choice("^%s$" % X, "AttributeSpec", v)
        none = lambda w, yes: contradicts(r"::is_empty\(%s\.%s\)$" % (X, w), "1" if yes else "0")
        for k, src, given in (("all", S + r"\.attribute_map", spec("All")), ("plain", X + r"\.non_fts", any_of(spec("Specified"), none("non_fts", False))), ("fulltext", X + r"\.fts", any_of(spec("Specified"), none("fts", False)))):
            ends = turns(g, loops(g, r"(?:\w+::\w+\()?%s\)?\[\](\.0)?" % src), single(src), ok, given)
            q = g.search(ok, block=any_of(marks(src), ends), given=given)
            c.ob("P01.fetch", f, q is None, "attributes fetched can't be looked up: %s" % fmt_path(q or []), key="marked:" + k)
            q = g.search(ok, block=run, given=given)
            c.ob("P01.fetch", f, q is None, "attributes asked for aren't fetched: %s" % fmt_path(q or []), key="run:" + k)
        takes_rows = lambda ev: ev.kind == "call" and re.match(r"mentat_db::", ev.callee) is not None and re.search(r"prepare(_cached)?\(", " ".join(args_of(g, ev)))is not None and any(re.match(r"AccumulationBehavior::Add\{", a) for a in args_of(g, ev)) and S in args_of(g, ev) and "self" in args_of(g, ev)
        q = g.search(ok, start=run, block=takes_rows)
        c.ob("P01.fetch", f, q is None, "what was fetched isn't kept: %s" % fmt_path(q or []), key="kept")
        c.done(g)
    fs = [f for f in returning(c, r"(^|::)AttributeSpec$", r"BTreeSet<i64>", crate=DB)]
    c.floor("P01.fetch", "functions that tell fulltext attributes from others", len(fs), 1)
    for f in fs:
        c.see(f)
        g = c.graph(f, None, small=30, keep=True)
        prm = {"S" if "Schema" in f.body.ty(i) else "A": f.body.name(i) for i in range(1, f.body.argc + 1)}
        el = r"(?:BTreeSet::\w+\()?%s\)?\[\]" % prm["A"]
        ls = loops(g, el)
        if not c.floor("P01.fetch", "iterations over the attributes asked for", len(ls), 1): c.done(g); continue
        some, none = next(iter(ls.values()))
        ret = lambda ev: ev.kind == "ret" and ev.frame is g.rootf
        q = g.search(ret, block=none)
        c.ob("P01.fetch", f, q is None, "an attribute is left out: %s" % fmt_path(q or []), key="split:all")
        push = lambda ev: ev.kind == "call" and re.search(r"::(push|insert)$", ev.callee) is not None and re.fullmatch(el, args_of(g, ev)[1]) is not None
        made = {}
        for ev in g.events(lambda ev: ev.kind == "stmt" and ev.data[1].get("r") == "agg"):
            r = ev.data[1]
            if {"fts", "non_fts"} <= set(r.get("f") or []):
                for n, o in zip(r["f"], r["a"]): made.setdefault(n, set()).add("to %s" % (home(g, ev.frame, o),))
        known = opt(r"^BTreeMap::get\(%s\.attribute_map, %s\)" % (prm["S"], el), True)
        for v, n in ((1, "fts"), (0, "non_fts")):
            only = within(g, known, contradicts(r"\.fulltext$", str(v))).only
            emit = lambda ev: "to %s" % "|".join(sorted(map(str, homes(g, ev.frame, ev.data["a"][0], only)))) if push(ev) else None
            got = tally(g, emit, some, any_of(some, none, ret), any_of(known, contradicts(r"\.fulltext$", str(v))))
            c.ob("P01.fetch", f, len(got) == 1 and len(made.get(n, ())) == 1 and set(next(iter(got))) == made[n] and len(next(iter(got))) == 1, "an attribute with fulltext %s goes %s, not %s" % (v, sorted(got), sorted(made.get(n, ()))), key="split:" + n)
        c.done(g)
    fs = [f for f in c.P.fns if f.body is not None and f.crate == DB and f.kind != "closure" and re.search(r"Option<&.*dyn .*AttributeCache>", f.body.ty(0))]
    c.floor("P01.cell", "functions that find what was fetched of an attribute", len(fs), 1)
    for f in fs:
        c.see(f)
        g = c.graph(f, None, small=30, keep=True)
        a = next(f.body.name(i) for i in range(1, f.body.argc + 1) if f.body.ty(i) == "i64")
        S = next(f.body.name(i) for i in range(1, f.body.argc + 1) if "Schema" in f.body.ty(i))
        isin = lambda yes: contradicts(r"Set::contains\(self\.forward_cached_attributes, %s\)$" % a, "1" if yes else "0")
        got = answers(g, isin(False))
        c.ob("P01.cell", f, got == ["Option::None{}"], "an attribute that wasn't fetched has %s" % got, key="unfetched")
        for v, m in ((1, "multi_vals"), (0, "single_vals")):
            got = answers(g, isin(True), opt(r"^BTreeMap::get\(%s\.attribute_map, %s\)" % (S, a), True), contradicts(r"\.multival$", str(v)))
            rest = [x for x in got if not re.fullmatch(r"(?:Option::Some\{0: )?BTreeMap::get\(self\.%s, %s\)(?:\.0)?\}?" % (m, a), x)]
            c.ob("P01.cell", f, len(got) > len(rest) and set(rest) <= {"Option::None{}"}, "an attribute with %s values has %s" % ("many" if v else "one", got), key="fetched:" + m)
        c.done(g)
    fs = [f for f in c.P.fns if f.body is not None and f.crate == DB and f.kind != "closure" and f.body.argc == 2 and f.body.ty(2) == "i64" and re.fullmatch(r"core::option::Option<core_traits::Binding>", f.body.ty(0))]
    c.floor("P01.cell", "ways to give what an entity has", len(fs), 2)
    for f in fs:
        c.see(f)
        g = c.graph(f, None, small=30, keep=True)
        g.T.lossy = True
        e, who = f.body.name(2), (re.match(r"<([\w:]+)", f.path) or re.match(r"([\w:]+)::", f.path)).group(1).split("::")[-1]
        ad = next((a for p, a in c.P.adts.items() if p.endswith("::" + who)), None)
        fld = ad["vars"][0]["f"][-1] if ad else None
        many = bool(fld) and "Vec<" in fld[1]
        got = [x for x in answers(g) if x != "Option::None{}"]
        cell = r"BTreeMap::get\(self\.\w+, %s\)(?:\.0)*" % e
        want = r"(?:Option::Some\{0: )?Binding::Vec\{0: \[(?:Binding::Scalar\{0: )?(?:slice::iter\()?%s\)?\[\]\}?\]\}+" % cell if many else r"(?:Option::Some\{0: )?(?:Binding::Scalar\{0: )?%s\}*" % cell
        item = r"(?:Binding::Scalar\{0: )?(?:slice::iter\()?%s\)?\[\]\}?" % cell
        anyret = lambda ev: ev.kind == "ret" and ev.frame is g.rootf
        fits = lambda x: re.fullmatch(want, x) is not None or many and filled(g, item, r"(?:slice::iter\()?%s\)?" % cell, anyret, re.sub(r"^(?:Option::Some\{0: )?Binding::Vec\{0: (.*?)\}+$", r"\1", x))
        c.ob("P01.cell", f, bool(got) and all(map(fits, got)), "gives %s" % [x[:160] for x in got], key="binding:" + ("many" if many else "one"))
        c.done(g)

@rule("P01", "rusqlite's `Row::get` reads the column at an index")
def p01_found(c):
    c.rule("P01.found", "each pull expression of a query takes its entities from its own column of every row, pulls what it names, and puts each entity's map in the place of that entity, an empty one if there is nothing")
    cons = [p for p, a in c.P.adts.items() if p.startswith(PJ) and a["kind"] != "enum" and any(re.search(r"Puller$", t) for v in a["vars"] for _, t, _ in v["f"]) and any("PullIndices" in t for v in a["vars"] for _, t, _ in v["f"])]
    if not c.floor("P01.found", "consumers of pulls", len(cons), 1): return
    C = cons[0]; short = C.split("::")[-1]
    ms = [f for f in own(c, PJ) if f.self_ty and f.self_ty.split("<")[0].endswith(short)]
    fld = {re.sub(r"<.*", "", t).split("::")[-1]: n for n, t, _ in c.P.adts[C]["vars"][0]["f"]}
    ix, pu, sc = (fld.get(k) for k in ("PullIndices", "Puller", "Schema"))
    sc = sc or next(n for n, t, _ in c.P.adts[C]["vars"][0]["f"] if "Schema" in t)
    ent = next(n for n, t, _ in c.P.adts[C]["vars"][0]["f"] if re.search(r"(Set|Vec)<i64>", t))
    res = next(n for n, t, _ in c.P.adts[C]["vars"][0]["f"] if "StructuredMap" in t)
    pick = lambda ret, *prm: [f for f in ms if re.search(ret, f.body.ty(0)) and f.body.argc == len(prm) and all(re.search(p, f.body.ty(i + 1)) for i, p in enumerate(prm))]
    G = lambda f: c.graph(f, None, small=30, keep=True)
    ret = lambda g: lambda ev: ev.kind == "ret" and ev.frame is g.rootf
    # from a row
    fs = pick(r".", r"^&mut ", r"rusqlite::row::Row")
    c.floor("P01.found", "ways to take a row's entity", len(fs), 1)
    for f in fs:
        c.see(f); g = G(f)
        r = f.body.name(2)
        col = r"Row::get(?:_unwrap)?\(%s, self\.%s\.sql_index\)" % (r, ix)
        add = lambda ev: ev.kind == "call" and re.search(r"::(insert|push)$", ev.callee) is not None and args_of(g, ev)[0] == "self." + ent and re.fullmatch(col, args_of(g, ev)[1]) is not None
        q = g.search(ret(g), block=add)
        c.ob("P01.found", f, q is None, "a row's entity isn't kept: %s" % fmt_path(q or []), key="collect")
        c.done(g)
    fs = pick(r"Result<\(\)", r"^&mut ", r"rusqlite::Connection")
    c.floor("P01.found", "ways to pull the entities", len(fs), 1)
    for f in fs:
        c.see(f); g = G(f)
        g.T.opaque = lambda n: n.endswith("Puller::pull")
        g.T.lossy = True
        want = r"Puller::pull\(self\.%s, self\.%s, %s, (?:BTreeSet::\w+\()?self\.%s\)?\)" % (pu, sc, f.body.name(2), ent)
        wr = [ev for ev in g.events(lambda ev: ev.kind == "stmt" and field_write(C, res)(ev))]
        vals = {rset(g.T.rvalue(ev.frame, ev.data[1], (), 0)) for ev in wr}
        c.ob("P01.found", f, bool(vals) and all(re.fullmatch(want, v) for v in vals), "what's pulled is %s" % sorted(v[:200] for v in vals), key="pull")
        q = g.search(ret_of(g, "Ok"), block=lambda ev: ev.kind == "stmt" and field_write(C, res)(ev))
        c.ob("P01.found", f, q is None, "nothing is pulled: %s" % fmt_path(q or []), key="pulled")
        c.done(g)
    # into a row
    fs = pick(r"^\(\)$", r"^&", r"^&mut \[.*Binding\]")
    c.floor("P01.found", "ways to put a map into a row", len(fs), 1)
    for f in fs:
        c.see(f); g = G(f)
        b = f.body.name(2)
        def idx(ev):
            if ev.kind != "stmt" or len(ev.data[0]) < 2: return None
            pl = ev.data[0]
            if ev.frame is not g.rootf and not re.search(r"Binding", str(ev.frame.body.ty(pl[0]))): return None
            m = [x for x in pl[1:] if isinstance(x, str) and re.match(r"\[_\d+\]", x)]
            return rset(g.T.place(ev.frame, int(m[0][2:-1]), ())) if m and re.search(r"Binding", ev.frame.body.ty(pl[0])) else None
        wr = lambda ev: idx(ev) is not None
        ws = g.events(wr)
        c.floor("P01.found", "writes of a map into a row", len(ws), 1)
        spot = r"self\.%s\.output_index" % ix
        for ev in ws:
            c.ob("P01.found", f, re.fullmatch(spot, idx(ev)) is not None, "a map is put at %s" % idx(ev), key="where")
        isref = any_of(choice(r"^%s\[\]$" % b, "core_traits::Binding", "Scalar"), choice(r"^%s\[\]\.0$" % b, "TypedValue", "Ref"))
        q = g.search(ret(g), block=wr, given=isref)
        c.ob("P01.found", f, q is None, "an entity keeps its place: %s" % fmt_path(q or []), key="written")
        have = r"BTreeMap::get\(self\.%s, %s\[\]\.0\.0\)(?:\.0)?" % (res, b)
        for yes, want in ((True, r"Binding::Map\{0: %s\}" % have), (False, r"Binding::Map\{0: (?:StructuredMap::StructuredMap\{0: )?Default::default\(\)\}+")):
            gv = (isref, opt("^" + have, yes))
            T = within(g, *gv)
            got = {p for ev in ws if (ev.frame.id, ev.block) in T.only and g.search(is_ev(ev), given=any_of(*gv)) is not None for p in split(rset(T.rvalue(ev.frame, ev.data[1], (), 0)))}
            got = {"Binding::Map{0: %s}" % y for p in got for y in split(re.sub(r"^Binding::Map\{0: (.*)\}$", r"\1", p))}
            mine = {p for p in got if re.fullmatch(want, p)}
            c.ob("P01.found", f, bool(mine) and (got == mine or got - mine <= {p for p in got if re.fullmatch(r"Binding::Map\{0: (?:%s|(?:StructuredMap::StructuredMap\{0: )?Default::default\(\)\}?)\}" % have, p)}), "an entity with %s gets %s" % ("something" if yes else "nothing", sorted(got)), key="map:" + ("some" if yes else "none"))
        c.done(g)
    fs = pick(r"Vec<core_traits::Binding>", r".")
    c.floor("P01.found", "ways to give all maps", len(fs), 1)
    for f in fs:
        c.see(f); g = G(f)
        g.T.lossy = True
        got = answers(g)
        c.ob("P01.found", f, len(got) == 1 and re.fullmatch(r"Iterator::map\(\[self\.%s\[\]\.1\], [\w:]*Binding::Map\)|\[Binding::Map\{0: self\.%s\[\]\.1\}\]" % (res, res), got[0]) is not None, "gives %s" % got, key="coll")
        c.done(g)
    # made for what the query says
    fs = [f for f in ms if re.search(r"Result<.*%s" % short, f.body.ty(0))]
    c.floor("P01.found", "ways to make a consumer", len(fs), 2)
    for f in fs:
        c.see(f); g = G(f)
        g.T.opaque = lambda n: n.endswith("Puller::prepare")
        S = next(f.body.name(i) for i in range(1, f.body.argc + 1) if "Schema" in f.body.ty(i))
        X = next(f.body.name(i) for i in range(1, f.body.argc + 1) if "Schema" not in f.body.ty(i))
        tmpl = "Template" in next(f.body.ty(i) for i in range(1, f.body.argc + 1) if f.body.name(i) == X)
        got = answers(g)
        want = {ix: X + r"\.indices" if tmpl else r"PullIndices::PullIndices\{sql_index: 0, output_index: 0\}", sc: S, pu: r"Puller::prepare\(%s, %s%s\.0\)" % (S, X, r"\.op" if tmpl else "")}
        for x in got:
            for n, w in want.items():
                c.ob("P01.found", f, re.search(r"[{ ]%s: %s[,}]" % (n, w), x) is not None, "%s is made as %s" % (n, x[:300]), key="made:%s:%s" % (n, "template" if tmpl else "operation"))
        c.done(g)
    # the projectors use them
    fs = [f for f in projectors(c) if any(re.search(r"Puller|Pull(Template|Operation)", t) for _, t, _ in next(a for k, a in c.P.adts.items() if k.endswith("::" + adt_of(f)))["vars"][0]["f"])]
    c.floor("P01.found", "projectors that pull", len(fs), 4)
    hs = {x.h for x in ms}
    for f in fs:
        who = adt_of(f)
        fields = next(a for k, a in c.P.adts.items() if k.endswith("::" + who))["vars"][0]["f"]
        if any(t.endswith("Puller") for _, t, _ in fields): continue
        c.see(f)
        g = c.graph(f, None, small=60, keep=True)
        g.T.opaque = lambda n: short + "::" in n
        via = lambda names: lambda ev: ev.kind == "call" and any(t.h in names for k in [ev.data["f"].get("k")] if k for t in c.P.targets(k))
        H = lambda xs: {x.h for x in xs}
        mk, col_, pl, ex, al = H([x for x in ms if re.search(r"Result<.*%s" % short, x.body.ty(0))]), H(pick(r".", r"^&mut ", r"rusqlite::row::Row")), H(pick(r"Result<\(\)", r"^&mut ", r"rusqlite::Connection")), H(pick(r"^\(\)$", r"^&", r"^&mut \[.*Binding\]")), H(pick(r"Vec<core_traits::Binding>", r"."))
        many = next((n for n, t, _ in fields if re.search(r"Vec<.*PullTemplate>", t)), None)
        ok = ret_of(g, "Ok")
        rows = {k: v for k, v in loops(g, ROW).items() if g.search(v[0], start=v[0]) is not None}
        each_c = loops(g, r"(?:slice::iter_mut\(|slice::iter\()?\[?%s::\w+\(.*self\.%s\[\].*\]?\)?(?:\[\])?" % (short, many)) if many else {}
        for ev in g.events(via(mk)):
            a = args_of(g, ev)
            c.ob("P01.found", f, re.search(r"^self\.%s" % (many + r"\[\]" if many else r"\w+"), a[-1]) is not None and "schema" in a, "a pull is made of %s" % a, key="made:" + who)
        def all_(op, start, stop, what, key, given=None):
            blk = turns(g, each_c, op, ok, given) if many else op
            q = g.search(stop, start=start, block=blk, given=given)
            c.ob("P01.found", f, q is None, "%s: %s" % (what, fmt_path(q or [])), key="%s:%s" % (key, who))
        nxt = any_of(ok, *[x for s, n in rows.values() for x in (s, n)])
        first = lambda ev: ev.kind == "edge" and ev.tag is not None and ev.tag[2] == "Some" and re.fullmatch(r"discr\(%s\)" % ROW, rset(g.T.operand(ev.frame, ev.data["o"]))) is not None
        all_(via(col_), first, nxt, "a row's entity isn't pulled", "collect")
        none = any_of(*[n for s, n in rows.values()]) if rows else None
        all_(via(pl), none or first, ok, "what's found isn't pulled", "pull")
        q = g.search(via(col_), start=via(pl), given=None)
        c.ob("P01.found", f, q is None, "an entity is taken up after pulling: %s" % fmt_path(q or []), key="late:" + who)
        if ex & {t.h for ev in g.events(lambda e: e.kind == "call" and e.data["f"].get("k")) for t in c.P.targets(ev.data["f"]["k"])}:
            chunks = loops(g, r"slice::chunks(?:_exact)?_mut\(.*, self\.len\)\[\]")
            if chunks:
                blk = turns(g, chunks, turns(g, each_c, via(ex), ok), ok)
                blk2 = turns(g, each_c, turns(g, chunks, via(ex), ok), ok)
                q = g.search(ok, block=blk) and g.search(ok, block=blk2)
                c.ob("P01.found", f, q is None, "a row keeps an entity in place of its map: %s" % fmt_path(q or []), key="expand:" + who)
            else: all_(via(ex), via(pl), ok, "a row keeps an entity in place of its map", "expand")
        else:
            q = g.search(ok, block=via(al))
            c.ob("P01.found", f, q is None, "what was pulled isn't returned: %s" % fmt_path(q or []), key="expand:" + who)
        c.done(g)
