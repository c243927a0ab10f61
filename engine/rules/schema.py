"""Bootstrap tables, the metadata views and lists, and the legality of attributes and alterations."""
import re, itertools
from ctx import *
from registry import rule
import sqlx
from sqlx import canon, conj, show
from rules.logsql import runs, writes, where, E, tables, sqlev, decode, colnames, kind, EXEMPT, in_sites, ins, transactors

# ---- values of statics -------------------------------------------------------------------------
def tracer(c):
    if getattr(c, "_st", None) is None:
        g = Graph(c.P, c.P.fns[0], lambda f: False)
        g.ctx = c
        c._st = Tracer(g)
    return c._st

def val(t, T=None):
    """Python value of a constant term: int, str, keyword 'ns/name', list, tuple; None if unknown."""
    if isinstance(t, (frozenset, set)):
        vs = {repr(val(x, T)): val(x, T) for x in t}
        return next(iter(vs.values())) if len(vs) == 1 else None
    k = t[0]
    if k == "c": return t[1]
    if k == "op":
        a, b = val(t[2], T), val(t[3], T)
        if isinstance(a, int) and isinstance(b, int):
            return {"Add": a + b, "Sub": a - b, "Mul": a * b}.get(t[1].replace("WithOverflow", "").replace("Unchecked", ""))
        return None
    if k == "agg":
        f = t[3]
        if t[1] == "array": return [val(x, T) for _, x in sorted(f, key=lambda y: int(y[0]))]
        if t[1] == "tuple": return tuple(val(x, T) for _, x in sorted(f, key=lambda y: int(y[0])))
        if len(f) == 1: return val(f[0][1], T)
        if not f: return t[2]
        return None
    if k == "static" and T is not None: return val(T.static(t[1]), T)
    if k == "call":
        n = t[1].split("::")[-1]
        if t[1].endswith("Keyword::namespaced"):
            a, b = val(t[2][0], T), val(t[2][1], T)
            return ":%s/%s" % (a, b) if a is not None and b is not None else None
        if n in ("len",):
            x = val(t[2][0], T)
            return len(x) if isinstance(x, (list, tuple, str)) else None
        if n == "format":
            return fmtval(t, T)
        if n in ("max_value", "MAX"): return (1 << 63) - 1
        if t[2] and n in ("clone", "to_string", "to_owned", "into", "from", "as_str", "as_ref", "deref", "borrow", "new_display", "String", "must_use", "new", "iter", "into_iter", "into_boxed_slice", "into_vec"):
            return val(t[2][0], T)
    if k == "f": return val(t[1], T)
    return None

def fmtval(t, T):
    """Integers displayed by a format!() call."""
    out = []
    for x in walk(frozenset([t])):
        if x[0] == "agg" and x[1] == "array":
            out = [val(y, T) for _, y in sorted(x[3], key=lambda y: int(y[0]))]
    return out

def static(c, path):
    T = tracer(c)
    try: return val(T.static(path), T)
    except Exception: return None

# ---- a reader for the EDN constant the core schema is written in ----------------------------------
def edn(s):
    tok = re.findall(r';[^\n]*|"(?:\\.|[^"\\])*"|[{}\[\]()]|[^\s,{}\[\]()";]+', s)
    tok = [t for t in tok if not t.startswith(";")]
    pos = 0
    def one():
        nonlocal pos
        t = tok[pos]; pos += 1
        if t == "{":
            d = []
            while tok[pos] != "}":
                k = one(); v = one(); d.append((k, v))
            pos += 1
            return dict(d) if len(dict((str(k), 1) for k, _ in d)) == len(d) else ("dup", d)
        if t in "[(":
            l = []
            while tok[pos] not in "])": l.append(one())
            pos += 1
            return l
        if t in ("true", "false"): return t == "true"
        if re.fullmatch(r"-?\d+", t): return int(t)
        if t.startswith('"'): return t[1:-1]
        return t
    return one()

def strings(ts):
    return [t[1] for t in walk(ts) if t[0] == "c" and isinstance(t[1], str)]

def bootstrap(c):
    """(idents {name: entid}, pairs, parts, core, symbolic)"""
    if getattr(c, "_boot", None) is None:
        pairs = static(c, "mentat_db::bootstrap::V1_IDENTS") or []
        pairs = [p for p in pairs if isinstance(p, tuple) and len(p) == 2]
        parts = static(c, "mentat_db::bootstrap::V1_PARTS") or []
        core = static(c, "mentat_db::bootstrap::V1_CORE_SCHEMA") or []
        try:
            ss = sorted({s for s in strings(tracer(c).static("mentat_db::bootstrap::V1_SYMBOLIC_SCHEMA")) if "{" in s})
            sym = edn(ss[0]) if len(ss) == 1 else {}
        except Exception: sym = {}
        c._boot = (dict(pairs), pairs, parts, core, sym if isinstance(sym, dict) else {})
    return c._boot

TYPES = {":db.type/ref": "Ref", ":db.type/keyword": "Keyword", ":db.type/long": "Long", ":db.type/double": "Double",
         ":db.type/string": "String", ":db.type/uuid": "Uuid", ":db.type/boolean": "Boolean", ":db.type/instant": "Instant"}
# what the transactor itself does with each attribute fixes the type the core schema must give it
NEEDS = {":db/ident": ":db.type/keyword", ":db/valueType": ":db.type/ref", ":db/cardinality": ":db.type/ref",
         ":db/unique": ":db.type/ref", ":db/isComponent": ":db.type/boolean", ":db/index": ":db.type/boolean",
         ":db/fulltext": ":db.type/boolean", ":db/noHistory": ":db.type/boolean", ":db/txInstant": ":db.type/instant",
         ":db.schema/version": ":db.type/long", ":db.schema/attribute": ":db.type/ref", ":db/doc": ":db.type/string"}
FIELD = {":db/valueType": "value_type", ":db/cardinality": "multival", ":db/unique": "unique", ":db/isComponent": "component",
         ":db/index": "index", ":db/fulltext": "fulltext", ":db/noHistory": "no_history"}

@rule("S01", "the bootstrap constants parse as the EDN reader of the product parses them")
def s01(c):
    c.rule("S01.idents", "the built-in idents are distinct, have distinct entids, and lie in the database partition below its next free id")
    c.rule("S01.parts", "the initial partitions are disjoint, ordered ranges, each with its next id inside, and a transaction partition that follows every other")
    c.rule("S01.schema", "every built-in attribute is a built-in ident described by built-in attributes whose values have the described attribute's type, with a value type and a cardinality, and legal")
    c.rule("S01.core", "the core vocabulary lists exactly the attributes of the core schema")
    c.rule("S01.names", "every :db keyword the product names in code is a built-in ident")
    c.rule("S01.boot", "a new store is created by transacting all three tables into the partitions of the bootstrap map")
    idents, pairs, parts, core, sym = bootstrap(c)
    c.floor("S01.idents", "built-in idents", len(pairs), 30)
    ok = all(isinstance(a, str) and a.startswith(":") and isinstance(b, int) for a, b in pairs)
    c.ob("S01.idents", "V1_IDENTS", ok, "every row is a keyword and an entid", key="shape")
    if not ok: return
    dup = {a for a, _ in pairs if [x for x, _ in pairs].count(a) > 1} | {b for _, b in pairs if [y for _, y in pairs].count(b) > 1}
    c.ob("S01.idents", "V1_IDENTS", not dup, "repeated: %s" % sorted(map(str, dup)), key="distinct")
    rng = {p[0]: p for p in parts if isinstance(p, tuple) and len(p) == 5}
    c.floor("S01.parts", "partitions", len(rng), 3)
    if ":db.part/db" in rng:
        _, s, e, n, _x = rng[":db.part/db"]
        out = [a for a, b in pairs if not (isinstance(s, int) and isinstance(n, int) and s <= b < n)]
        c.ob("S01.idents", "V1_IDENTS", not out, "outside the allocated part of the database partition [%s, %s): %s" % (s, n, out), key="range")
    rows = sorted((p[1:4] + (p[0],) for p in rng.values()), key=lambda r: (r[0] is None, r[0] if r[0] is not None else 0))
    for i, (s, e, n, nm) in enumerate(rows):
        c.ob("S01.parts", nm, all(isinstance(x, int) for x in (s, e, n)) and s <= n <= e, "start %s, next %s, end %s" % (s, n, e), key="in:" + nm)
        if i + 1 < len(rows) and isinstance(e, int):
            c.ob("S01.parts", nm, e < rows[i + 1][0], "ends at %s, the next partition starts at %s" % (e, rows[i + 1][0]), key="disjoint:" + nm)
    c.ob("S01.parts", "V1_PARTS", set(rng) == {":db.part/db", ":db.part/user", ":db.part/tx"} and rows[-1][3] == ":db.part/tx", "partitions %s" % sorted(rng), key="names")
    tx0 = [f for f in c.P.by_path.get("mentat_db::bootstrap::TX0", ())]
    # ---- the core schema --------------------------------------------------------------------
    c.floor("S01.schema", "core schema attributes", len(sym), 10)
    for a, d in sorted(sym.items(), key=lambda x: str(x[0])):
        key = str(a)
        if not isinstance(d, dict):
            c.ob("S01.schema", key, False, "described twice or not by a map", key=key); continue
        bad = []
        if a not in idents: bad.append("is not a built-in ident")
        for k, v in d.items():
            if k not in idents: bad.append("%s is not a built-in ident" % k)
            t = NEEDS.get(k)
            if k not in sym: bad.append("%s is not itself an attribute" % k)
            if t == ":db.type/ref" and (v not in idents or not isinstance(v, str)): bad.append("%s %s does not name a built-in entity" % (k, v))
            if t == ":db.type/boolean" and not isinstance(v, bool): bad.append("%s %s is not a boolean" % (k, v))
            if k not in FIELD: bad.append("%s is not a schema-defining attribute" % k)
        if d.get(":db/valueType") not in TYPES: bad.append("no value type")
        if d.get(":db/cardinality") not in (":db.cardinality/one", ":db.cardinality/many"): bad.append("no cardinality")
        if ":db/unique" in d and d[":db/unique"] not in (":db.unique/value", ":db.unique/identity"): bad.append("unknown uniqueness")
        if ":db/unique" in d and d.get(":db/index") is not True: bad.append("unique without index")
        if d.get(":db/fulltext") is True and (d.get(":db/valueType") != ":db.type/string" or d.get(":db/index") is not True): bad.append("fulltext without string type and index")
        if d.get(":db/isComponent") is True and d.get(":db/valueType") != ":db.type/ref": bad.append("component without ref type")
        if a in NEEDS and d.get(":db/valueType") != NEEDS[a]: bad.append("type %s, but the transactor treats it as %s" % (d.get(":db/valueType"), NEEDS[a]))
        if a in (":db/ident", ":db/valueType", ":db/cardinality", ":db/unique", ":db/index", ":db/fulltext", ":db/isComponent", ":db/noHistory", ":db/txInstant", ":db.schema/version") and d.get(":db/cardinality") != ":db.cardinality/one": bad.append("must be cardinality one")
        if a == ":db/ident" and d.get(":db/unique") != ":db.unique/identity": bad.append("idents must be unique identities")
        c.ob("S01.schema", key, not bad, "; ".join(bad), key=key)
    for a in NEEDS:
        c.ob("S01.schema", a, a in sym, "is part of the core schema", key="has:" + a)
    c.ob("S01.core", "V1_CORE_SCHEMA", len(core) == len(set(map(str, core))) and set(core) == set(sym), "differs: %s" % sorted(map(str, set(core) ^ set(sym))), key="core")
    # ---- names ------------------------------------------------------------------------------
    n = 0
    seen = set()
    for f, i, t, k in c.callsites(r"edn::symbols::Keyword::namespaced"):
        if f.path.startswith("mentat_db::bootstrap") or re.match(EXEMPT, f.path): continue
        c.see(f)
        T = Tracer(Graph(c.P, f, lambda x: False))
        fr = T.g.rootf
        vs = [val(T.operand(fr, a), tracer(c)) for a in t["a"]]
        if all(isinstance(x, str) for x in vs) and (vs[0] == "db" or vs[0].startswith("db.")):
            name = ":%s/%s" % tuple(vs)
            if name in seen: continue
            seen.add(name); n += 1
            # :db/id is syntax, :db/tx and friends name no entity
            c.ob("S01.names", "%s in %s" % (name, f.path), name in idents or name in (":db/id",), "names no built-in entity", key="name:" + name)
    c.floor("S01.names", "built-in keywords named in code", n, 20)
    # ---- who transacts them -------------------------------------------------------------------
    boot = c.find(r"mentat_db::db::create_current_version")
    c.floor("S01.boot", "store creation", len(boot), 1)
    for f in boot:
        R = c.P.reach_from([f])
        names = set()
        for x in R:
            c.see(x)
            for s in statics_of(x): names.add(s.split("::")[-1])
        for s in ("V1_IDENTS", "V1_CORE_SCHEMA", "V1_SYMBOLIC_SCHEMA", "V1_PARTS"):
            c.ob("S01.boot", f, s in names, "does not use %s" % s, key=s)

def statics_of(f):
    out = set()
    def rec(x):
        if isinstance(x, dict):
            for v in x.values(): rec(v)
        elif isinstance(x, (list, tuple)):
            for v in x: rec(v)
        elif isinstance(x, str) and re.search(r"::V1_\w+", x): out.add(re.search(r"[\w:]*::V1_\w+", x).group(0))
    for b in f.body.blocks: rec(b)
    return out

# ---- S02 ----------------------------------------------------------------------------------------
SCHEMA_ATTRS = (":db/valueType", ":db/cardinality", ":db/unique", ":db/isComponent", ":db/index", ":db/fulltext", ":db/noHistory")

def in_list(w, colname):
    """Integer literals of the `col IN (…)` / `col = n` conjuncts of a canonical predicate."""
    for x in conj(w) if w is not None else ():
        if x[0] == "in" and x[1][0] == "col" and x[1][2] == colname and x[2][0] == "list":
            return {e[1] for e in x[2][1:] if e[0] == "lit"} if all(e[0] == "lit" for e in x[2][1:]) else None
        if x[0] == "eq":
            for a, b in ((x[1], x[2]), (x[2], x[1])):
                if a[0] == "col" and a[2] == colname and b[0] == "lit": return {b[1]}
    return None

def setters(g, assume):
    """{(field, value)} of the attribute-builder fields set through a reference under the given branch facts."""
    return {(ev.data[0][-1].split("@")[0][1:], rset(g.T.rvalue(ev.frame, ev.data[1], (), 0)))
            for ev in g.events(field_write("AttributeBuilder"), block=any_of(*assume)) if ev.data[0][1:][:1] == ["*"]}

@rule("S02", "SQLite runs the rewrite statements as written")
def s02(c):
    c.rule("S02.lists", "every list of schema or metadata attributes - SQL texts and predicates - holds exactly the attributes the schema reader understands, plus :db/ident where idents count")
    c.rule("S02.when", "a transaction that touches one of those attributes always re-derives the schema from what it wrote, and writes the views when the schema changed")
    c.rule("S02.views", "the idents and schema tables are emptied and refilled from the current datoms whenever the report says idents or attributes changed")
    c.rule("S02.open", "opening a store rebuilds the schema from those two tables, complete and type-decoded")
    c.rule("S02.alter", "each recorded alteration of an attribute is applied to its stored datoms: the flag column gets the new schema's value for exactly that attribute, and narrowing cardinality is refused when some entity has two values")
    idents = bootstrap(c)[0]
    want = {idents.get(a) for a in SCHEMA_ATTRS}
    ident = {idents.get(":db/ident")}
    c.floor("S02.lists", "schema attributes with entids", len([x for x in want if isinstance(x, int)]), 7)
    # the reader: which attributes does the schema updater understand?
    up = c.one("S02.lists", r"mentat_db::metadata::update_attribute_map_from_entid_triples")
    if up is not None:
        g = c.graph(up, None, small=12, keep=True)
        a2, a3 = up.body.name(2), up.body.name(3)
        A = r"^%s\[\]\.1$" % a2
        nor = contradicts(r"^%s\[\]\.1$" % a3, 10 ** 9)
        got = {a for a in range(1, 60) if setters(g, [nor, contradicts(A, a)])}
        c.ob("S02.lists", up, got == want, "attributes understood: %s, schema attributes: %s" % (sorted(got), sorted(want)), key="reader")
        c.done(g)
    n = 0
    for nm, w in (("might_update_metadata", want | ident), ("is_a_schema_attribute", None)):
        for f in c.find(r"mentat_db::entids::" + nm):
            n += 1
            tb = value_table(c, f, "^%s$" % f.body.name(1), range(0, 80))
            got = {k for k, v in tb.items() if v != frozenset(["0"])}
            exact = all(v in (frozenset(["0"]), frozenset(["1"])) for v in tb.values())
            if w is None: c.ob("S02.lists", f, exact and got - ident == want, "true for %s" % sorted(got), key=nm)
            else: c.ob("S02.lists", f, exact and got == w, "true for %s" % sorted(got), key=nm)
    c.floor("S02.lists", "attribute predicates", n, 2)
    m = 0
    for s, x, st in runs(c):
        if st["kind"] == "select" and [f[0] for f in st["from"]] == [("tab", "transactions")] and s.fn.crate == "mentat_db":
            l = in_list(canon(st["where"], None, True) if st["where"] else None, "a")
            if l is None: continue
            m += 1
            c.ob("S02.lists", s.where(), l == want | ident, "metadata attributes read back: %s" % sorted(l), key="committed")
        if st["kind"] == "insert" and st["table"] in ("idents", "schema"):
            w = where(st, None, False)
            l = in_list(w, "a")
            m += 1
            t = want if st["table"] == "schema" else ident
            c.ob("S02.lists", s.where(), l == t, "the %s table takes attributes %s, not %s" % (st["table"], sorted(l or ()), sorted(t)), key="view:" + st["table"])
            cols = [canon(e, None, True)[2] for e, _ in st["source"]["cols"] if canon(e, None, True)[0] == "col"]
            src = {f[0] for f in st["source"]["from"]}
            ctes = {("tab", n_): sel for n_, _, sel in (st["with"] + st["source"]["with"])}
            c.ob("S02.views", s.where(), cols == ["e", "a", "v", "value_type_tag"] and ("tab", "datoms") in src, "columns %s from %s" % (cols, sorted(map(str, src))), key="cols:" + st["table"])
            for x_ in src - {("tab", "datoms")}:
                sel = ctes.get(x_)
                ok = sel is not None and [f[0] for f in sel["from"]] == [("tab", "datoms")] and [show(canon(e, None, True)) for e, _ in sel["cols"]] == ["e"] \
                    and in_list(canon(sel["where"], None, True), "a") in ({idents.get(":db/valueType")}, {idents.get(":db/cardinality")})
                c.ob("S02.views", s.where(), ok, "entities are restricted to %s" % (sel,), key="restrict:" + st["table"])
            rest = [y for y in conj(w) if in_list(("and", y), "a") is None]
            ok = all(y[0] == "eq" and y[1][0] == "col" and y[2][0] == "col" and y[1][2] == "e" and y[2][2] == "e" for y in rest)
            c.ob("S02.views", s.where(), ok, "further conditions %s" % [show(y) for y in rest], key="conds:" + st["table"])
    # metadata resolved from search rows
    for s, x, st in runs(c):
        if s.fn.crate != "mentat_db" or st["kind"] != "select": continue
        for y in sqlwalk(st):
            if isinstance(y, dict) and y.get("k") == "select" and y.get("where") is not None and [f[0] for f in y["from"]] == [("tab", "search_results")]:
                l = in_list(canon(y["where"], None, True), "a0")
                if l is not None:
                    m += 1
                    c.ob("S02.lists", s.where(), l == want | ident, "metadata attributes resolved: %s" % sorted(l), key="resolved")
    c.floor("S02.lists", "attribute lists in SQL", m, 4)
    # ---- when -------------------------------------------------------------------------------
    roots, _ = transactors(c)
    inner = [f for f in roots if not any(x.h != f.h and x in roots for x in c.P.reach_from([f]))]
    c.floor("S02.when", "transaction bodies", len(inner), 1)
    for f in inner:
        pu = fnpred(r".*::(update_schema_from_entid_quadruples|might_update_metadata|update_metadata|committed_metadata_assertions)")
        g = c.graph(f, pu, small=3)
        keep_calls(g, r"might_update_metadata|(committed|resolved)_metadata_assertions")
        ok = ret_of(g, "Ok")
        ups = call_to(r".*::update_schema_from_entid_quadruples")
        yes = lambda ev: ev.kind == "edge" and str(ev.tag[2]) == "1" and re.search(r"might_update_metadata\(", rset(g.T.operand(ev.frame, ev.data["o"]))) is not None
        c.floor("S02.when", "metadata tests", len(g.events(yes)), 1)
        q = g.search(ok, start=yes, block=ups)
        c.ob("S02.when", f, q is None, "metadata changes are ignored: %s" % fmt_path(q or []), key="derive")
        # every attribute is tested before the queue is done
        args = {rset(g.T.operand(ev.frame, ev.data["a"][0])) for ev in g.events(call_to(r".*::might_update_metadata"))}
        c.ob("S02.when", f, bool(args) and all(re.search(r"into_aev_trie|aev_trie|\.0", a) for a in args), "tested on %s" % sorted(args), key="subject")
        eq = lambda ev, tr: any((o == "Eq") == tr for o in [relation(ev, r"schema", r"schema")] if o in ("Eq", "Ne"))
        q = g.search(ok, start=ups, block=any_of(call_to(r".*::update_metadata"), lambda ev: eq(ev, True)))
        c.ob("S02.when", f, q is None, "a changed schema is not written: %s" % fmt_path(q or []), key="write")
        for ev in g.events(ups):
            a = args_of(g, ev)
            c.ob("S02.when", ev, re.search(r"committed_metadata_assertions|resolved_metadata_assertions", " ".join(a)) is not None, "schema derived from %s" % a, key="from")
        for ev in g.events(call_to(r".*::committed_metadata_assertions")):
            a = args_of(g, ev)
            c.ob("S02.when", ev, re.search(r"(^|\.)tx_id$", a[-1]) is not None, "metadata read back for transaction %s" % a[-1], key="txid")
        c.done(g)
    # ---- views --------------------------------------------------------------------------------
    um = c.one("S02.views", r"mentat_db::db::update_metadata")
    if um is not None:
        alls = sqlev(c, lambda st: True)
        g = c.graph(um, in_sites(alls), small=12, keep=True)
        ok = ret_of(g, "Ok")
        for tab, conds in (("idents", ["idents_altered"]), ("schema", ["attributes_installed", "attributes_altered", "idents_altered"])):
            i_, d_ = sqlev(c, ins(tab)), sqlev(c, kind("delete", tab))
            for x in conds:
                q = g.search(ok, block=any_of(i_, empty_edge(r"\.%s\)?$" % x)))
                c.ob("S02.views", um, q is None, "%s changed but the %s table is not refilled: %s" % (x, tab, fmt_path(q or [])), key="fill:%s:%s" % (tab, x))
            q = g.search(i_, block=d_)
            c.ob("S02.views", um, q is None, "the %s table is refilled without being emptied: %s" % (tab, fmt_path(q or [])), key="empty:" + tab)
            q = g.search(d_, start=i_)
            c.ob("S02.views", um, q is None, "the %s table is emptied after being refilled: %s" % (tab, fmt_path(q or [])), key="order:" + tab)
            for s, x, st in runs(c):
                if st["kind"] == "delete" and st["table"] == tab:
                    c.ob("S02.views", s.where(), st["where"] is None, "only part of the %s table is emptied" % tab, key="all:" + tab)
        # ---- alterations ---------------------------------------------------------------------------
        nxt = any_of(ok, lambda ev: ev.kind == "call" and ev.callee == "core::iter::traits::iterator::Iterator::next")
        ALT = "AttributeAlteration"
        for var, col_, fld in (("Index", "index_avet", "index"), ("Unique", "unique_value", "unique")):
            u = sqlev(c, lambda st, col_=col_: st["kind"] == "update" and st["table"] == "datoms" and [x for x, _ in st["sets"]] == [col_])
            es = g.events(u)
            c.floor("S02.alter", "updates of %s" % col_, len(es), 1)
            q = g.search(nxt, start=variant_edge(ALT, var), block=u)
            c.ob("S02.alter", um, q is None, "an alteration of %s leaves datoms.%s alone: %s" % (fld, col_, fmt_path(q or [])), key="skip:" + var)
            other = [v for v in ("Index", "Unique", "Cardinality", "NoHistory", "IsComponent") if v != var]
            for o in other:
                pass
            for ev in es:
                q = g.search(is_ev(ev), block=variant_edge(ALT, var))
                c.ob("S02.alter", ev, q is None, "datoms.%s is updated for another alteration: %s" % (col_, fmt_path(q or [])), key="only:" + var)
                vals, ent = {}, set()
                for some in (True, False):
                    # the value bound for the flag, by the attribute's new state
                    blk = opt(r"attribute_map.*\.unique", some) if var == "Unique" else contradicts(r"attribute_map.*\.index$", "1" if some else "0")
                    T = under_blk(g, blk)
                    for t in T.operand(ev.frame, ev.data["a"][-1]):
                        mm = dict(t[3]) if t[0] == "agg" else {}
                        vals.setdefault(some, set()).update(boolconst(c, y) for y in mm.get("0", ()))
                        ent |= {rend(y) for y in mm.get("1", ())}
                if var == "Index":
                    good = all(re.search(r"BTreeMap::get\(%s\.attribute_map, .*\)\.index$" % um.body.name(3), str(y)) for v in vals.values() for y in v)
                else:
                    good = vals == {True: {True}, False: {False}}
                c.ob("S02.alter", ev, good, "datoms.%s is set to %s" % (col_, vals), key="value:" + var)
                c.ob("S02.alter", ev, len(ent) == 1 and re.search(r"attributes_altered\[\]\.0$", next(iter(ent))) is not None, "for attribute %s" % sorted(ent), key="attr:" + var)
        # NOTE a failed update must fail the whole: the error is never swallowed
        u = sqlev(c, kind("update", "datoms"))
        for ev in g.events(u):
            q = g.search(any_of(ok), start=lambda e: failed_is(e, ev))
            c.ob("S02.alter", ev, q is None, "a failed update is ignored: %s" % fmt_path(q or []), key="fail:%s" % alls.sites[(ev.frame.fn.h, ev.block)][0]["sets"][0][0])
        pr = [(s, st) for s, x, st in runs(c) if s.fn.h == um.h and st["kind"] == "select"]
        c.floor("S02.alter", "cardinality conflict probes", len(pr), 1)
        pe = sqlev(c, lambda st: any(st is y for _, y in pr))
        multi = lambda ev: ev.kind == "edge" and str(ev.tag[2]) == "1" and re.search(r"\.multival$", rset(g.T.operand(ev.frame, ev.data["o"]))) is not None
        q = g.search(nxt, start=variant_edge(ALT, "Cardinality"), block=any_of(pe, multi))
        c.ob("S02.alter", um, q is None, "cardinality narrows without looking for conflicts: %s" % fmt_path(q or []), key="probe")
        hit = lambda ev: ev.kind == "edge" and str(ev.tag[2]) == "1" and any(t[0] == "call" and t[1].split("::")[-1] in ("query_row", "exists") for t in g.T.operand(ev.frame, ev.data["o"]))
        c.floor("S02.alter", "tests of the probe", len(g.events(hit)), 1)
        q = g.search(ok, start=hit)
        c.ob("S02.alter", um, q is None, "a conflict does not refuse the alteration: %s" % fmt_path(q or []), key="refuse")
        for ev in g.events(pe):
            a = [t for o in ev.data["a"] for t in g.T.operand(ev.frame, o) if t[0] == "agg" and t[1] == "array"]
            ent = {rset(v) for t in a for _, v in t[3]}
            c.ob("S02.alter", ev, len(ent) == 1 and re.search(r"attributes_altered\[\]\.0$", next(iter(ent))) is not None, "conflicts are looked for in attribute %s" % sorted(ent), key="probe:attr")
        for s, st in pr:
            ex = [e[1] for e, _ in st["cols"] if e[0] == "exists"] or [st]
            for e in ex:
                al = sqlx.aliases(e)
                tabs = [f[0] for f in e["from"]]
                w = canon(e["where"], None, False) if e["where"] else None
                names = [f[1] for f in e["from"]]
                good = False
                if tabs == [("tab", "datoms")] * 2 and w is not None and all(names):
                    l, r = names
                    L = lambda n_, l=l: ("col", l, n_)
                    R = lambda n_, r=r: ("col", r, n_)
                    cj = set(map(repr, conj(w)))
                    def has(op, a, b): return repr((op, a, b)) in cj or repr((op, b, a)) in cj
                    nev = any(repr(x_) in cj for x_ in (("not", ("eq", L("v"), R("v"))), ("not", ("eq", R("v"), L("v")))))
                    good = has("eq", L("a"), R("a")) and has("eq", L("e"), R("e")) and nev and len(cj) == 4 and (has("eq", ("bind",), L("a")) or has("eq", ("bind",), R("a")))
                c.ob("S02.alter", s.where(), good, "the conflict probe asks for two different values of one entity and attribute", key="probe:sql")
        c.done(g)
    # ---- open -----------------------------------------------------------------------------------
    rd = [f for f in c.P.fns if f.crate == "mentat_db" and re.search(r"read_(ident|attribute)_map$", f.path)]
    views = set()
    mv = c.find(r"mentat_db::db::read_materialized_view")
    for f, i, t, k in c.callsites(r"mentat_db::db::read_materialized_view"):
        T = Tracer(Graph(c.P, f, lambda x: False))
        views |= {x[1] for x in T.operand(T.g.rootf, t["a"][1]) if x[0] == "c"}
    direct = {f0[0][1] for s, x, st in runs(c) if st["kind"] == "select" for f0 in st["from"] if f0[0][0] == "tab" and s.fn.crate == "mentat_db"}
    for tab in ("idents", "schema"):
        c.ob("S02.open", tab, tab in views | direct, "the %s table is read when a store opens (views read: %s)" % (tab, sorted(views)), key="read:" + tab)
    op = c.find(r"mentat_db::db::read_db")
    c.floor("S02.open", "store opening", len(op), 1)
    for f in op:
        R = {x.path for x in c.P.reach_from([f])}
        c.ob("S02.open", f, any("from_ident_map_and_attribute_map" in x for x in R) and any(x.endswith("validate_attribute_map") for x in R), "the schema read is validated", key="validated")

def under_blk(g, blk):
    seen = set()
    def goal(ev):
        seen.add((ev.frame.id, ev.block))
        return False
    g._walk(g._init(), goal, blk)
    return Tracer(g, only=seen)

def keep_calls(g, names):
    """Do not look through calls of these functions when tracing values."""
    r = re.compile(r"(?:%s)$" % names)
    g.T.into = lambda f: len(f.body.blocks) <= 40 and not r.search(f.path)

def boolconst(c, t):
    if t[0] == "c" and t[1] in (0, 1, True, False): return bool(t[1])
    if t[0] == "u":
        for f in c.P.by_path.get(t[1], ()):
            T = Tracer(Graph(c.P, f, lambda x: False))
            vs = {x[1] for x in T.place(T.g.rootf, 0) if x[0] == "c"}
            if len(vs) == 1: return bool(vs.pop())
    return rend(t)

def failed_is(e, ev):
    """Edge on which the result of the call `ev` is known to be an error."""
    if e.kind != "edge": return False
    for t in e.g.T.operand(e.frame, e.data["o"]):
        x = t
        neg = False
        while x[0] == "un" and x[1] == "Not": neg = not neg; x = x[2]
        if x[0] == "discr" and x[1][0] == "call" and x[1][3] == ev.frame.fn.path + "@%d" % ev.block and e.tag[2] in FAILS: return True
        if x[0] == "call" and x[1].endswith(("::is_err", "::is_ok")):
            for y in x[2][0]:
                if y[0] == "call" and y[3] == ev.frame.fn.path + "@%d" % ev.block:
                    bad = (str(e.tag[2]) == "1") != neg
                    if x[1].endswith("is_ok"): bad = not bad
                    if bad: return True
    return False

def sqlwalk(x):
    yield x
    if isinstance(x, dict):
        for y in x.values(): yield from sqlwalk(y)
    elif isinstance(x, (tuple, list)):
        for y in x: yield from sqlwalk(y)

# ---- S03 ----------------------------------------------------------------------------------------
VT_OF = {":db.type/boolean": "Boolean", ":db.type/double": "Double", ":db.type/instant": "Instant", ":db.type/keyword": "Keyword",
         ":db.type/long": "Long", ":db.type/ref": "Ref", ":db.type/string": "String", ":db.type/uuid": "Uuid"}
ALTERS = {"multival": "Cardinality", "unique": "Unique", "index": "Index", "component": "IsComponent", "no_history": "NoHistory"}

@rule("S03")
def s03(c):
    c.rule("S03.legal", "an attribute is accepted exactly when: unique implies indexed, fulltext implies string-typed and indexed, component implies ref-typed (full decision table)")
    c.rule("S03.set", "each schema assertion sets exactly the property of the attribute it names, to the asserted value; any other value or attribute is an error")
    c.rule("S03.unset", "only uniqueness and componenthood can be retracted, and only by naming the current value; every other schema retraction is an error unless the whole attribute goes")
    c.rule("S03.build", "a new attribute takes each property from the assertion for that property; an alteration changes only properties that were mentioned and differ, records each one, and never the value type or fulltext")
    c.rule("S03.gate", "no attribute is installed before the install checks and the legality check passed, none is altered before the alteration checks passed, and an altered attribute is legal")
    c.rule("S03.drop", "an attribute leaves the schema only when its value type, its cardinality and its ident are all retracted together")
    idents = bootstrap(c)[0]
    ent = lambda n: idents.get(n, -1)
    # ---- legality table -----------------------------------------------------------------------
    vs = [f for f in c.P.fns if f.path.endswith("AttributeValidation>::validate") and f.crate == "mentat_db"]
    c.see(*vs)
    c.floor("S03.legal", "attribute legality check", len(vs), 1)
    for f in vs:
        g = c.graph(f, None, small=10, keep=True)
        s = "^" + f.body.name(1)
        bad = []
        for u in (None, "Value", "Identity"):
            for ix, ft, co in itertools.product("01", "01", "01"):
                for vt in ("Boolean", "Double", "Instant", "Keyword", "Long", "Ref", "String", "Uuid"):
                    ps = [contradicts(s + r"\.index$", ix), contradicts(s + r"\.fulltext$", ft), contradicts(s + r"\.component$", co), contradicts(s + r"\.value_type$", vt),
                          choice(s + r"\.unique", "Unique", u)]
                    got = {ev.tag for ev in g.events(ret_of(g), block=any_of(*ps))}
                    want = "Err" if (u is not None and ix == "0") or (ft == "1" and (vt != "String" or ix == "0")) or (co == "1" and vt != "Ref") else "Ok"
                    if got != {want}: bad.append("unique=%s index=%s fulltext=%s component=%s type=%s -> %s, expected %s" % (u, ix, ft, co, vt, sorted(map(str, got)), want))
        c.ob("S03.legal", f, not bad, "%d rows differ, e.g. %s" % (len(bad), bad[:2]), key="table")
        c.done(g)
    # ---- assertions -----------------------------------------------------------------------------
    up = c.one("S03.set", r"mentat_db::metadata::update_attribute_map_from_entid_triples")
    if up is None: return
    g = c.graph(up, None, small=12, keep=True)
    a2, a3 = up.body.name(2), up.body.name(3)
    nor = contradicts(r"^%s\[\]\.1$" % a3, 10 ** 9)
    noa = contradicts(r"^%s\[\]\.1$" % a2, 10 ** 9)
    unhelp = contradicts(r"\.helpful$", "0")
    A, V, W = r"^%s\[\]\.1$" % a2, r"^%s\[\]\.2$" % a2, r"^%s\[\]\.2\.0$" % a2
    kinds = ("Ref", "Boolean", "Long", "Double", "Instant", "String", "Keyword", "Uuid", "Bytes")
    def rows(attr):
        """(value entid or None, TypedValue variant) -> expected {(field, value)}"""
        if attr == ":db/valueType": return {(ent(k), "Ref"): {("value_type", "ValueType::%s{}" % v)} for k, v in VT_OF.items()}
        if attr == ":db/cardinality": return {(ent(":db.cardinality/many"), "Ref"): {("multival", "1")}, (ent(":db.cardinality/one"), "Ref"): {("multival", "0")}}
        if attr == ":db/unique": return {(ent(":db.unique/value"), "Ref"): {("unique", "Unique::Value{}")}, (ent(":db.unique/identity"), "Ref"): {("unique", "Unique::Identity{}")}}
        return {(None, "Boolean"): {(FIELD[attr], "%s[].2.0" % a2)}}
    nxt = any_of(ret_of(g, "Ok"), lambda ev: ev.kind == "call" and ev.callee == "core::iter::traits::iterator::Iterator::next" and ev.frame is g.rootf)
    entid_pool = sorted({v for v in idents.values()})
    for attr in SCHEMA_ATTRS:
        bad = []
        ex = rows(attr)
        isref = attr in (":db/valueType", ":db/cardinality", ":db/unique")
        for kind_ in kinds:
            for e in (entid_pool if kind_ == "Ref" and isref else [None]):
                ps = [nor, unhelp, contradicts(A, ent(attr)), contradicts(V, kind_)]
                if e is not None: ps.append(contradicts(W, e))
                got = setters(g, ps)
                if e is not None:
                    cmp_ = re.compile(r"\((?:%s\[\]\.2\.0 (Eq|Ne) (\d+)|(\d+) (Eq|Ne) %s\[\]\.2\.0)\)" % (a2, a2))
                    said = lambda m: str(int((int(m.group(2) or m.group(3)) == e) == ((m.group(1) or m.group(4)) == "Eq")))
                    got = {(x, said(m)) if m else (x, y) for x, y in got for m in [cmp_.fullmatch(y)]}
                want = ex.get((e, kind_), set())
                if got != want: bad.append("%s %s %s sets %s, expected %s" % (attr, kind_, e, sorted(got), sorted(want)))
                if not want and (e is None or e % 3 == 0):
                    q = g.search(ret_of(g, "Ok"), start=lambda ev: ev.kind == "edge" and ev.tag[2] == "Some" and rset(g.T.operand(ev.frame, ev.data["o"])).startswith("discr(%s[" % a2), block=any_of(*ps))
                    if q is not None: bad.append("%s %s %s is accepted: %s" % (attr, kind_, e, fmt_path(q)))
        c.ob("S03.set", up, not bad, "; ".join(bad[:3]), key="set:" + attr)
    other = [a for a in range(0, 60) if a not in {ent(x) for x in SCHEMA_ATTRS}]
    q = None
    for a in other[:12]:
        q = q or g.search(ret_of(g, "Ok"), start=lambda ev: ev.kind == "edge" and ev.tag[2] == "Some" and rset(g.T.operand(ev.frame, ev.data["o"])).startswith("discr(%s[" % a2), block=any_of(nor, contradicts(A, a)))
    c.ob("S03.set", up, q is None, "an unknown schema attribute is accepted: %s" % fmt_path(q or []), key="set:unknown")
    # ---- retractions ----------------------------------------------------------------------------
    RA, RV, RW = r"^%s\[\]\.1$" % a3, r"^%s\[\]\.2$" % a3, r"^%s\[\]\.2\.0$" % a3
    started = lambda ev: ev.kind == "edge" and ev.tag[2] == "Some" and rset(g.T.operand(ev.frame, ev.data["o"])).startswith("discr(%s[" % a3)
    for attr in SCHEMA_ATTRS:
        got = set()
        for kind_ in kinds: got |= setters(g, [noa, unhelp, contradicts(RA, ent(attr)), contradicts(RV, kind_)])
        want = {":db/unique": {("unique", "Option::None{}")}, ":db/isComponent": {("component", "0")}}.get(attr, set())
        norm = {(f_, v) for f_, v in got}
        ok = {f_ for f_, _ in norm} == {f_ for f_, _ in want} and all(v in ("0", "None", "Option::None{}") for _, v in norm)
        c.ob("S03.unset", up, ok, "retracting %s sets %s" % (attr, sorted(norm)), key="unset:" + attr)
        if not want:
            q = g.search(ret_of(g, "Ok"), start=started, block=any_of(noa, contradicts(RA, ent(attr))))
            c.ob("S03.unset", up, q is None, "retracting %s is accepted: %s" % (attr, fmt_path(q or [])), key="refuse:" + attr)
        elif attr == ":db/unique":
            for e in (":db.unique/value", ":db.unique/identity"):
                o = ":db.unique/identity" if e.endswith("value") else ":db.unique/value"
                cur = "Value" if e.endswith("value") else "Identity"
                wrong = "Identity" if cur == "Value" else "Value"
                S = r"unique$"
                w1 = setters(g, [noa, unhelp, contradicts(RA, ent(attr)), contradicts(RV, "Ref"), contradicts(RW, ent(e)), choice(r"unique", "Unique", wrong)])
                w2 = setters(g, [noa, unhelp, contradicts(RA, ent(attr)), contradicts(RV, "Ref"), contradicts(RW, ent(e)), choice(r"unique", "Unique", cur)])
                c.ob("S03.unset", up, not w1 and len(w2) == 1, "retracting %s unsets %s when the attribute is %s, %s when it is %s" % (e, sorted(w1), wrong, sorted(w2), cur), key="current:" + e)
    # ---- the gate -----------------------------------------------------------------------------------
    g2 = c.graph(up, fnpred(r".*::(validate_install_attribute|validate_alter_attribute|mutate|build|validate)|.*(VacantEntry|BTreeMap).*::insert.*"), small=0, keep=True)
    keep_calls(g2, r"validate_install_attribute|validate_alter_attribute|mutate|build|validate")
    ok2 = ret_of(g2, "Ok")
    inst = lambda ev: ev.kind == "call" and re.search(r"(VacantEntry|BTreeMap).*::(insert|insert_entry|or_insert\w*)$", ev.callee) is not None and any("AttributeBuilder::build" in rset(g2.T.operand(ev.frame, a)) or "build(" in rset(g2.T.operand(ev.frame, a)) for a in ev.data["a"])
    ie = g2.events(inst)
    c.floor("S03.gate", "attribute installations", len(ie), 1)
    for nm, what in ((r".*::validate_install_attribute", "its install checks"), (r".*::validate", "its legality check")):
        okk = succeeded(nm)
        q = g2.search(inst, block=okk)
        c.ob("S03.gate", up, q is None, "an attribute is installed without passing %s: %s" % (what, fmt_path(q or [])), key="install:" + what)
        for ev in ie:
            q = g2.search(is_ev(ev), start=lambda e, ev=ev: e.kind == "edge" and e.tag[2] == "Some" and e.frame is g2.rootf and "builders" in rset(g2.T.operand(e.frame, e.data["o"])) or (e.kind == "call" and e.callee.endswith("BTreeMap::entry") and e.frame is g2.rootf), block=okk)
            c.ob("S03.gate", up, q is None, "the checks of an earlier attribute are taken for this one's (%s): %s" % (what, fmt_path(q or [])), key="each:" + what)
    mut = call_to(r".*::AttributeBuilder::mutate")
    me = g2.events(mut)
    c.floor("S03.gate", "attribute alterations", len(me), 1)
    q = g2.search(mut, block=succeeded(r".*::validate_alter_attribute"))
    c.ob("S03.gate", up, q is None, "an attribute is altered without passing the alteration checks: %s" % fmt_path(q or []), key="alter")
    q = g2.search(ok2, start=mut, block=call_to(r".*::validate|.*::validate_attribute_map"))
    c.ob("S03.gate", up, q is None, "an altered attribute is not checked for legality: %s" % fmt_path(q or []), key="altered-legal")
    c.done(g2)
    for nm, conds in (("validate_install_attribute", {"value_type": None}), ("validate_alter_attribute", {"value_type": 1, "fulltext": 1})):
        for f in c.find(r".*AttributeBuilder::%s" % nm):
            gg = c.graph(f, None, small=10, keep=True)
            s = "^" + f.body.name(1)
            bad = []
            for vt, ft in itertools.product((True, False), (True, False)):
                got = {ev.tag for ev in gg.events(ret_of(gg), block=any_of(opt(s + r"\.value_type", vt), opt(s + r"\.fulltext", ft)))}
                want = "Err" if (nm.startswith("validate_install") and not vt) or (nm.startswith("validate_alter") and (vt or ft)) else "Ok"
                if got != {want}: bad.append("valueType %s, fulltext %s -> %s" % (vt, ft, sorted(map(str, got))))
            c.ob("S03.gate", f, not bad, "; ".join(bad), key=nm)
            c.done(gg)
    # ---- build / mutate ------------------------------------------------------------------------------
    FIELDS = ("value_type", "multival", "unique", "index", "fulltext", "component", "no_history")
    bf = c.find(r".*AttributeBuilder::build")
    c.floor("S03.build", "attribute construction", len(bf), 1)
    for f in bf:
        gg = c.graph(f, None, small=6, keep=True)
        s = f.body.name(1)
        for fld in FIELDS:
            T = under_blk(gg, opt("^%s\\.%s" % (s, fld), True))
            # the last value the field can have when the builder mentions it
            vals = set()
            for ev in gg.events(field_write("Attribute", fld)):
                vals.add(rset(gg.T.rvalue(ev.frame, ev.data[1], (), 0)))
            agg = {rend(x) for t in T.place(gg.rootf, 0) if t[0] == "agg" and str(t[1]).endswith("Attribute") for n_, v in t[3] if n_ == fld for x in v}
            direct = {"%s.%s" % (s, fld)}
            q = None
            if vals:
                w = field_write("Attribute", fld)
                q = gg.search(ret_of(gg), block=any_of(w, opt("^%s\\.%s" % (s, fld), True)))
            c.ob("S03.build", f, (vals == direct or (not vals and direct <= agg)) and q is None, "%s is built from %s" % (fld, sorted(vals | agg)), key="build:" + fld)
        c.done(gg)
    mf = c.find(r".*AttributeBuilder::mutate")
    c.floor("S03.build", "attribute alteration", len(mf), 1)
    for f in mf:
        gg = c.graph(f, None, small=6, keep=True)
        s, at = f.body.name(1), f.body.name(2)
        written = set()
        for ev in gg.events(field_write("Attribute")):
            fld = [x for x in ev.data[0][1:] if x.startswith(".")][-1].split("@")[0][1:]
            written.add(fld)
            v = rset(gg.T.rvalue(ev.frame, ev.data[1], (), 0))
            c.ob("S03.build", ev, v == "%s.%s" % (s, fld), "%s is altered to %s" % (fld, v), key="alter:" + fld)
            q = gg.search(is_ev(ev), block=lambda e, fld=fld: e.kind == "edge" and opt("^%s\\.%s" % (s, fld), False)(e))
            c.ob("S03.build", ev, q is None, "%s is altered although not mentioned: %s" % (fld, fmt_path(q or [])), key="mention:" + fld)
            var = ALTERS.get(fld)
            def push(e, var=var):
                return e.kind == "call" and e.callee.endswith(("Vec::push", "::insert")) and any(t[0] == "agg" and t[2] == var for a in e.data["a"] for t in gg.T.operand(e.frame, a))
            q = gg.search(ret_of(gg), start=is_ev(ev), block=push)
            c.ob("S03.build", ev, q is None, "altering %s is not recorded: %s" % (fld, fmt_path(q or [])), key="record:" + fld)
        c.ob("S03.build", f, written == set(ALTERS), "alterations can change %s" % sorted(written), key="alterable")
        for fld in ALTERS:
            # mentioned and different => written
            def same_(e, fld=fld):
                cs = cond(e)
                if not cs or not any("%s.%s" % (at, fld) in rset(x) for _, a, b, _ in cs for x in (a, b)): return False
                return all((op if tr else NEG[op]) == "Eq" for op, a, b, tr in cs)
            q = gg.search(ret_of(gg), block=any_of(field_write("Attribute", fld), same_, opt("^%s\\.%s" % (s, fld), True)))
            c.ob("S03.build", f, q is None, "a mentioned, different %s is left alone: %s" % (fld, fmt_path(q or [])), key="applied:" + fld)
        c.done(gg)
    # ---- drop -----------------------------------------------------------------------------------------
    n = 0
    cand = {}
    for f, i, t, k in c.callsites(r".*BTreeMap::<?.*remove", ("mentat_db", "mentat_core")):
        if "core_traits::Attribute" in str([f.body.ty(op_place(a).local) for a in t["a"] if op_place(a) is not None]): cand[f.h] = f
    for f in cand.values():
        if re.match(EXEMPT, f.path): continue
        c.see(f)
        gg = c.graph(f, None, small=4, keep=True)
        for ev in gg.events(call_to(r".*::BTreeMap::remove")):
            if "core_traits::Attribute" not in str(ev.frame.body.ty(op_place(ev.data["a"][0]).local)): continue
            n += 1
            for nm in (":db/valueType", ":db/cardinality"):
                def has(e, nm=nm):
                    if e.kind != "edge" or str(e.tag[2]) != "1": return False
                    for t in gg.T.operand(e.frame, e.data["o"]):
                        if t[0] == "call" and t[1].split("::")[-1] in ("contains", "contains_key") and str(ent(nm)) in {rend(x) for x in t[2][1]}: return True
                    return any(o == "Eq" for o in [relation(e, r"\.1$", r"^%d$" % ent(nm))] if o)
                q = gg.search(is_ev(ev), block=has)
                c.ob("S03.drop", ev, q is None, "an attribute is dropped without its %s being retracted: %s" % (nm, fmt_path(q or [])), key="needs:" + nm)
            q = gg.search(is_ev(ev), block=lambda e: e.kind == "edge" and (str(e.tag[2]) == "1" or e.tag[2] == "Some") and re.search(r"(contains_key|get)\(%s" % (gg.root.body.name(3) if gg.root.body.argc >= 3 else "ident"), rset(gg.T.operand(e.frame, e.data["o"]))) is not None)
            c.ob("S03.drop", ev, q is None, "an attribute is dropped without its ident being retracted: %s" % fmt_path(q or []), key="needs:ident")
        c.done(gg)
    c.floor("S03.drop", "attribute removals", n, 1)
    c.done(g)

