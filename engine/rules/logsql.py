"""The transaction log, the materialised datoms and the SQL that moves between them."""
import re
from ctx import *
from registry import rule
import sqlx, sqltext
from sqlx import canon, conj, bool_diff, parse_expr, witness, show

EXEMPT = r"mentat_db::debug::"

def runs(c):
    """Executed statements: (site, text, statement)."""
    out = []
    for s in c.sql():
        if re.match(EXEMPT, s.fn.path): continue
        if s.on_stmt or s.api.startswith(("execute", "query_row")):
            for x, st in s.stmts: out.append((s, x, st))
    return out

def writes(c, table):
    return [(s, x, st) for s, x, st in runs(c) if st["kind"] in ("insert", "update", "delete") and st["table"] == table]

def colmap(st):
    """insert: {column: canonical source expression} (single-source selects are unqualified)."""
    src = st["source"]
    al = sqlx.aliases(src)
    single = len(al) <= 1
    es = [canon(e, al, single) for e, _ in src["cols"]]
    return dict(zip(st["cols"] or [], es)) if st["cols"] else None, al, single

def E(s): return canon(parse_expr(s), None, True)

def where(st, al=None, single=True):
    w = st["source"]["where"] if st["kind"] == "insert" else st["where"]
    return canon(w, al, single) if w is not None else None

# search_results: a LEFT JOIN of the proposed (e0, a0, v0, tag, added0) with the matching datom (rid, v)
NULLS = E("(rid IS NULL AND v IS NULL) OR (rid IS NOT NULL AND v IS NOT NULL)")
MANY = "search_type = ':db.cardinality/many'"
ONE = "search_type = ':db.cardinality/one'"
# an exact (many) match has v = v0 by construction; search_type is one of the two; flag is 0 or 1
INV = E("((rid IS NULL AND v IS NULL AND NOT (v0 = v)) OR (rid IS NOT NULL AND v IS NOT NULL)) AND (%s OR %s) AND (NOT (%s OR added0 = 0) OR rid IS NULL OR v0 = v)" % (MANY, ONE, MANY))
ADDS = E("added0 = 1 AND (rid IS NULL OR NOT (v0 = v))")
DROPS = E("rid IS NOT NULL AND (added0 = 0 OR (added0 = 1 AND %s AND NOT (v0 = v)))" % ONE)

def same(c, rule, site, name, got, want, key=None):
    d = bool_diff(got, want, binary=("added0",), assume=INV)
    c.ob(rule, site.where(), d is None, "%s differs when %s" % (name, witness(d)) if d else name, key=key or name)
    return d is None

def rows_of(st):
    """canonical predicate of the search_results rows a datoms DELETE addresses."""
    w = st["where"]
    cw = canon(w, None, True) if w is not None else None
    if cw is None or cw[0] != "in" or cw[1] != ("col", None, "rowid"): return None
    if cw[2][0] == "name":
        for n, cols, sel in st["with"]:
            if n == cw[2][1]: return sel
    for sub in [w[2]]:
        if sub[0] == "sel": return sub[1]
    return None

def deep_param(c, site, i=0, depth=4):
    """Origins of bound parameter i, following parameters into every caller."""
    terms = site.params
    out = set()
    def nth(ts):
        r = set()
        for t in ts:
            if t[0] == "agg" and t[1] in ("array", "tuple"):
                m = dict(t[3]); r |= set(m.get(str(i), ()))
            else: r.add(t)
        return r
    return nth(terms)

def caller_origins(c, fn, argi, depth=4, seen=()):
    """Rendered origins of parameter `argi` (0-based) of fn over all call sites, followed to callers."""
    out = set()
    for f, bi, t, k in c.P.callers_of(fn) if hasattr(c.P, "callers_of") else []:
        pass
    return out

def sink_params(c, roots_pat, site_fn, pidx):
    """Render bound parameter pidx of the SQL executions inside fn `site_fn` as seen from root `roots_pat`."""
    res = set()
    for root in c.find(roots_pat):
        g = c.graph(root, lambda f, i, t, k: f.h == site_fn.h and k is not None and callee_fn(k).startswith("rusqlite::"), small=12)
        for ev in g.events(lambda ev: ev.kind == "call" and ev.frame.fn.h == site_fn.h and ev.callee.split("::")[-1] == "execute" and len(ev.data["a"]) > 1):
            for t in g.T.operand(ev.frame, ev.data["a"][-1]):
                if t[0] == "agg":
                    m = dict(t[3])
                    if str(pidx) in m: res.add(rset(m[str(pidx)]))
        c.done(g)
    return res

TXROOT = r"mentat_db::tx::Tx::<.*>::transact_simple_terms_with_action|mentat_db::tx::Tx::.*transact_simple_terms_with_action"

@rule("T01", "SQLite evaluates SELECT/INSERT/DELETE as documented; search_results rows satisfy the LEFT JOIN invariants (no match: rid and v NULL; exact match or retraction: v = v0), which T01.match establishes")
def t01(c):
    c.rule("T01.adds", "the log's assertions, and the datoms inserted, are selected by the same predicate over the resolved search rows: asserted and not already present (truth-table equivalence over the predicate's atoms)")
    c.rule("T01.drops", "the log's retractions, and the datoms deleted, are selected by the same predicate: a present value that is retracted, or replaced under cardinality one")
    c.rule("T01.cols", "each column written to the log and to datoms comes from the matching column of the search rows; the tx column is this transaction's id")
    c.rule("T01.match", "search rows pair each proposal with the stored datom it concerns: same e, a, type tag and value for cardinality many; same e, a for cardinality one, where a retraction still names the value it retracts; unmatched proposals are kept")
    c.rule("T01.fill", "proposals reach the search tables with their own cardinality: many -> exact, one -> inexact, and fulltext ones through the fulltext path")
    c.rule("T01.both", "every successful transaction both materialises its datoms and writes its log rows, for the same tx id, and a rewind only the former; a failure of any of these steps fails the transaction")
    c.rule("T01.fresh", "the search tables are recreated empty at the start of every transaction")
    c.rule("T01.meta", "the metadata changes read back from a transaction are chosen by the same two predicates")
    log = writes(c, "timelined_transactions")
    ins = [(s, x, st) for s, x, st in log if st["kind"] == "insert"]
    dat = writes(c, "datoms")
    dins = [x for x in dat if x[2]["kind"] == "insert"]
    ddel = [x for x in dat if x[2]["kind"] == "delete"]
    fromsr = lambda sel: [f[0] for f in sel["from"]] == [("tab", "search_results")]
    logadd, logret = [], []
    for s, x, st in ins:
        m, al, single = colmap(st)
        if m is None or not fromsr(st["source"]):
            c.ob("T01.cols", s.where(), False, "log rows written from something other than the search rows: %s" % x, key="src"); continue
        lit = m.get("added")
        if lit == ("lit", 1): logadd.append((s, st, m))
        elif lit == ("lit", 0): logret.append((s, st, m))
        else: c.ob("T01.cols", s.where(), False, "log rows with added = %s" % (lit,), key="added")
    c.floor("T01.adds", "log assertion statement", len(logadd), 1)
    c.floor("T01.drops", "log retraction statement", len(logret), 1)
    c.floor("T01.adds", "datoms insert statement", len(dins), 1)
    col = lambda n: ("col", None, n)
    for s, st, m in logadd:
        same(c, "T01.adds", s, "log assertions", where(st), ADDS)
        for k, v in (("e", "e0"), ("a", "a0"), ("v", "v0"), ("value_type_tag", "value_type_tag0")):
            c.ob("T01.cols", s.where(), m.get(k) == col(v), "log assertion column %s <- %s" % (k, show(m[k]) if k in m else None), key="logadd." + k)
        c.ob("T01.cols", s.where(), m.get("tx", (0,))[0] == "bind", "log assertion tx <- %s" % (m.get("tx"),), key="logadd.tx")
        c.ob("T01.cols", s.where(), "timeline" not in m, "log rows are written on the main timeline (its default)", key="logadd.timeline")
        c.ob("T01.cols", s.where(), st["or"] is None, "conflicts are not silently resolved", key="logadd.or")
    for s, st, m in logret:
        same(c, "T01.drops", s, "log retractions", where(st), DROPS)
        for k, v in (("e", "e0"), ("a", "a0"), ("v", "v"), ("value_type_tag", "value_type_tag0")):
            c.ob("T01.cols", s.where(), m.get(k) == col(v), "log retraction column %s <- %s" % (k, show(m[k]) if k in m else None), key="logret." + k)
        c.ob("T01.cols", s.where(), m.get("tx", (0,))[0] == "bind" and st["or"] is None and "timeline" not in m, "log retraction tx", key="logret.tx")
        c.ob("T01.cols", s.where(), st["source"]["distinct"], "one log retraction per datom removed (a replaced value matches both an explicit retraction and the new assertion)", key="logret.distinct")
    for s, x, st in dins:
        m, al, single = colmap(st)
        if m is None or not fromsr(st["source"]):
            c.ob("T01.cols", s.where(), False, "datoms written from something other than the search rows: %s" % x, key="dsrc"); continue
        same(c, "T01.adds", s, "datoms inserted", where(st), ADDS)
        for k, v in (("e", "e0"), ("a", "a0"), ("v", "v0"), ("value_type_tag", "value_type_tag0")):
            c.ob("T01.cols", s.where(), m.get(k) == col(v), "datoms column %s <- %s" % (k, show(m[k]) if k in m else None), key="dins." + k)
        c.ob("T01.cols", s.where(), m.get("tx", (0,))[0] == "bind" and st["or"] is None, "datoms tx", key="dins.tx")
    n = 0
    for s, x, st in ddel:
        sel = rows_of(st)
        if sel is None: continue       # another deletion: judged by L02
        n += 1
        c.ob("T01.drops", s.where(), fromsr(sel) and [canon(e, None, True) for e, _ in sel["cols"]] == [("col", None, "rid")],
             "deletes the matched rows", key="ddel.rid")
        same(c, "T01.drops", s, "datoms deleted", canon(sel["where"], None, True) if sel["where"] else None, DROPS)
    c.floor("T01.drops", "datoms delete statement", n, 1)
    # ---- match ---------------------------------------------------------------------------------
    nm = 0
    for s, x, st in writes(c, "search_results"):
        if st["kind"] != "insert": continue
        parts = [st["source"]] + [y for op, y in st["source"]["compound"]]
        c.ob("T01.match", s.where(), all(op == "union all" for op, _ in st["source"]["compound"]), "rows of both searches are kept", key="union")
        seen = set()
        for p in parts:
            nm += 1
            al = sqlx.aliases(p)
            srcs = [f[0][1] for f in p["from"]]
            kinds = [f[2] for f in p["from"]]
            cols = [canon(e, al) for e, _ in p["cols"]]
            if st["cols"]: pass
            t = [z for z in srcs if z in ("exact_searches", "inexact_searches")]
            ok = len(t) == 1 and sorted(srcs) == sorted([t[0], "datoms"]) and kinds == ["from", "left"] and srcs[0] == t[0] and p["where"] is None
            c.ob("T01.match", s.where(), ok, "proposals LEFT JOIN datoms (%s)" % srcs, key="join:" + "/".join(srcs))
            if not ok: continue
            t = t[0]; seen.add(t)
            on = canon(p["from"][1][3], al) if p["from"][1][3] is not None else None
            q = lambda s_: canon(parse_expr(s_), {"t": t, "d": "datoms"})
            want = "t.e0 = d.e AND t.a0 = d.a" + (" AND t.value_type_tag0 = d.value_type_tag AND t.v0 = d.v" if t == "exact_searches" else " AND (t.added0 = 1 OR (t.value_type_tag0 = d.value_type_tag AND t.v0 = d.v))")
            d = bool_diff(on, q(want), binary=("added0",))
            c.ob("T01.match", s.where(), d is None, "%s matched on the wrong columns: %s" % (t, witness(d) if d else ""), key="on:" + t)
            lit = ":db.cardinality/many" if t == "exact_searches" else ":db.cardinality/one"
            wc = [q("t.e0"), q("t.a0"), q("t.v0"), q("t.value_type_tag0"), q("t.added0"), q("t.flags0"), ("lit", lit), q("d.rowid"), q("d.v")]
            ddl = tables(c).get("search_results")
            names = st["cols"] or ([n_ for n_, _ in ddl] if ddl else [])
            wn = ["e0", "a0", "v0", "value_type_tag0", "added0", "flags0", "search_type", "rid", "v"]
            c.ob("T01.match", s.where(), dict(zip(names, cols)) == dict(zip(wn, wc)), "columns of the search row: %s" % ", ".join("%s<-%s" % (a, show(b)) for a, b in zip(names, cols)), key="cols:" + t)
        c.ob("T01.match", s.where(), seen == {"exact_searches", "inexact_searches"}, "both searches are run", key="seen")
    c.floor("T01.match", "search statement arms", nm, 2)
    # ---- fresh ---------------------------------------------------------------------------------
    for t in ("exact_searches", "inexact_searches", "search_results"):
        dr = [(s, st) for s, x, st in runs(c) if st["kind"] == "drop" and st["table"] == t]
        cr = [(s, st) for s, x, st in runs(c) if st["kind"] == "create" and st["what"] == "table" and st["table"] == t]
        c.ob("T01.fresh", "temp." + t, bool(dr) and bool(cr), "dropped and recreated", key=t)
        for s, st in cr:
            # position: the drop precedes the create in the list of statements
            order = [ (z[0].fn.h) for z in dr]
            c.ob("T01.fresh", s.where(), s.fn.h in order, "dropped by the same initialisation", key=t + ".same")
    # ---- metadata ------------------------------------------------------------------------------
    for s, x, st in runs(c):
        if st["kind"] != "select": continue
        subs = []
        for f in st["from"]:
            if f[0][0] == "sel": subs.append(f[0][1])
        if st["from"] and st["from"][0][0] == ("tab", "search_results"): subs.append(st)
        for sub in subs:
            for p in [sub] + [y for _, y in sub["compound"]]:
                if not fromsr(p): continue
                cm = {al or canon(e, None, True)[2] if (al or canon(e, None, True)[0] == "col") else "?": canon(e, None, True) for e, al in p["cols"]}
                w = canon(p["where"], None, True)
                lists = [a for a in conj(w) if a[0] == "in" and a[1] == ("col", None, "a0")]
                rest = [a for a in conj(w) if a not in lists]
                w2 = ("and",) + tuple(rest)
                if cm.get("added") == ("lit", 1):
                    same(c, "T01.meta", s, "metadata assertions", w2, ADDS)
                    good = cm.get("e") == col("e0") and cm.get("a") == col("a0") and cm.get("v") == col("v0") and cm.get("value_type_tag") == col("value_type_tag0")
                    c.ob("T01.meta", s.where(), good, "columns of metadata assertions", key="meta.add.cols")
                elif cm.get("added") == ("lit", 0):
                    same(c, "T01.meta", s, "metadata retractions", w2, DROPS)
                    good = cm.get("e") == col("e0") and cm.get("a") == col("a0") and cm.get("v") == col("v") and cm.get("value_type_tag") == col("value_type_tag0")
                    c.ob("T01.meta", s.where(), good, "columns of metadata retractions", key="meta.ret.cols")
                else:
                    c.ob("T01.meta", s.where(), False, "metadata rows with added = %s" % (cm.get("added"),), key="meta.added")

def tables(c):
    out = {}
    for s, x, st in runs(c):
        if st["kind"] == "create" and st["what"] == "table": out[st["table"]] = st.get("cols") or []
    return out

def sqlev(c, pred):
    """Event predicate: a call that executes a statement for which pred(stmt) holds."""
    sites = {}
    for s, x, st in runs(c):
        if pred(st): sites.setdefault((s.fn.h, s.bi), []).append(st)
    def p(ev): return ev.kind == "call" and (ev.frame.fn.h, ev.block) in sites
    p.sites = sites
    p.fns = {h for h, _ in sites}
    return p

def ins(table, **lits):
    def p(st):
        if st["kind"] != "insert" or st["table"] != table: return False
        if lits:
            m = colmap(st)[0]
            return m is not None and all(m.get(k) == ("lit", v) for k, v in lits.items())
        return True
    return p
def kind(k, table): return lambda st: st["kind"] == k and st["table"] == table

def in_sites(p):
    return lambda f, i, t, k: (f.h, i) in p.sites

def edge_tag(adt, value):
    """Branch edge on which a value of enum `adt` is known to be `value`."""
    def p(ev):
        return ev.kind == "edge" and ev.tag is not None and ev.tag[1] is not None and strip_generics(str(ev.tag[1])).endswith(adt) and ev.tag[2] == value
    return p

def transactors(c):
    """Functions of the database crate that run a transaction's SQL and report on it."""
    p = sqlev(c, ins("timelined_transactions"))
    fs = [f for f in c.P.reaching([c.P.by_h[h] for h in p.fns]) if f.crate == "mentat_db" and f.kind != "closure"
          and "TxReport" in f.body.ty(0) and not f.path.startswith("mentat_db::debug")]
    return sorted(fs, key=lambda f: f.path), p

@rule("T01")
def t01_paths(c):
    logadd, logret = sqlev(c, ins("timelined_transactions", added=1)), sqlev(c, ins("timelined_transactions", added=0))
    datins = sqlev(c, ins("datoms"))
    datdel = sqlev(c, lambda st: st["kind"] == "delete" and st["table"] == "datoms" and rows_of(st) is not None)
    srch = sqlev(c, ins("search_results"))
    fill = sqlev(c, lambda st: st["kind"] == "insert" and st["table"] in ("exact_searches", "inexact_searches"))
    roots, p0 = transactors(c)
    c.floor("T01.both", "functions that run a transaction", len(roots), 1)
    every = lambda f, i, t, k: any((f.h, i) in p.sites for p in (logadd, logret, datins, datdel, srch, fill))
    inner = [f for f in roots if not any(x.h != f.h and x in roots for x in c.P.reach_from([f]))]
    c.floor("T01.both", "innermost transaction functions", len(inner), 1)
    for f in roots:
        if f in inner: continue
        g = c.graph(f, every, small=8)
        if g.events(datins):
            for what, p in (("logging its assertions", logadd), ("logging its retractions", logret)):
                q = g.search(ret_of(g, "Ok"), block=any_of(p, edge_tag("TransactorAction", "Materialize")))
                c.ob("T01.both", f, q is None, "a transaction can succeed without %s: %s" % (what, fmt_path(q or [])), key="%s:%s" % (f.name, what))
        c.done(g)
    for f in inner:
        g = c.graph(f, every, small=8)
        mat = edge_tag("TransactorAction", "Materialize")
        ok = ret_of(g, "Ok")
        if not g.events(datins): continue
        for what, p in (("inserting its datoms", datins), ("deleting retracted datoms", datdel), ("resolving proposals against the store", srch)):
            q = g.search(ok, block=p)
            c.ob("T01.both", f, q is None, "a transaction can succeed without %s: %s" % (what, fmt_path(q or [])), key="%s:%s" % (f.name, what))
        for what, p in (("logging its assertions", logadd), ("logging its retractions", logret)):
            q = g.search(ok, block=any_of(p, mat))
            c.ob("T01.both", f, q is None, "a transaction can succeed without %s: %s" % (what, fmt_path(q or [])), key="%s:%s" % (f.name, what))
            q = g.search(p, start=mat)
            c.ob("T01.both", f, q is None, "a rewind writes log rows: %s" % fmt_path(q or []), key="%s:mat:%s" % (f.name, what))
            q = g.search(p, block=srch)
            c.ob("T01.both", f, q is None, "log rows are written before the search rows exist: %s" % fmt_path(q or []), key="%s:order:%s" % (f.name, what))
        for what, p in (("inserted", datins), ("deleted", datdel)):
            q = g.search(p, block=srch)
            c.ob("T01.both", f, q is None, "datoms are %s before the search rows exist: %s" % (what, fmt_path(q or [])), key="%s:order:%s" % (f.name, what))
        q = g.search(datins, block=datdel)
        c.ob("T01.both", f, q is None, "replacement datoms are inserted before the replaced ones are deleted: %s" % fmt_path(q or []), key="%s:delins" % f.name)
        q = g.search(fill, start=srch)
        c.ob("T01.both", f, q is None, "proposals are added after the search has run: %s" % fmt_path(q or []), key="%s:fillafter" % f.name)
        # the same transaction id everywhere
        ids = set()
        for p in (logadd, logret, datins):
            for ev in g.events(p):
                for t in g.T.operand(ev.frame, ev.data["a"][-1]):
                    m = dict(t[3]) if t[0] == "agg" else {}
                    ids.add(rset(m["0"]) if "0" in m else rend(t))
        c.ob("T01.both", f, len(ids) == 1 and all(re.search(r"(^|\.)tx_id$|allocate_entid", x) for x in ids), "transaction id bound into the log and datoms: %s" % sorted(ids), key="%s:txid" % f.name)
        c.done(g)
    # ---- who is put on which queue --------------------------------------------------------------
    n = 0
    for f in inner:
        from rules.terms import lists
        g = c.graph(f, every, small=8)
        search_type = lambda ev: [t for a in ev.data["a"] for t in g.T.operand(ev.frame, a) if t[0] == "agg" and str(t[1]).endswith("SearchType")]
        takes = lambda ev: ev.kind == "call" and ev.k and "SearchType" in "".join(str(ev.frame.body.ty(op_place(a).local)) if op_place(a) is not None else str(a) for a in ev.data["a"]) and any(x.h in p_reach(c, fill) for x in c.P.targets(ev.k))
        for ev in g.events(takes):
            args = ev.data["a"]
            st = search_type(ev)
            if len(st) != 1:
                c.ob("T01.fill", ev, False, "search type of the batch is not a constant", key="st"); continue
            many = st[0][2] == "Exact"
            fts = reaches_fts(c, c.P.targets(ev.k))
            locs = set().union(*[lists(g, ev.frame, a) for a in args])
            c.ob("T01.fill", ev, bool(locs), "the batch comes from a queue", key="queue")
            for b in g.events(lambda e: e.kind == "stmt" and e.data[1]["r"] == "ref" and e.data[1]["mut"] and (e.frame.id, e.data[1]["p"][0]) in locs and len(e.data[1]["p"]) == 1):
                n += 1
                for fld, val in (("multival", many), ("fulltext", fts)):
                    def guard(e, fld=fld, val=val):
                        return e.kind == "edge" and str(e.tag[2]) == ("1" if val else "0") and all(t[0] == "f" and t[2] == fld for t in e.g.T.operand(e.frame, e.data["o"])) 
                    q = g.search(lambda e, b=b: e.kind == "stmt" and e.frame is b.frame and e.block == b.block and e.idx == b.idx, block=guard)
                    c.ob("T01.fill", b, q is None, "a proposal whose attribute is not %s=%s can be queued for the %s%s search: %s" % (fld, val, "fulltext " if fts else "", st[0][2], fmt_path(q or [])), key="%s:%s:%s" % (st[0][2], fts, fld))
        c.done(g)
    c.floor("T01.fill", "queue guards", n, 2)
    # SearchType::Exact proposals go to temp.exact_searches and so on
    m = 0
    for h in sorted(fill.fns):
        f = c.P.by_h[h]
        g = c.graph(c.P.root_of(f), in_sites(fill), small=8)
        for tb, var in (("exact_searches", "Exact"), ("inexact_searches", "Inexact")):
            def mentions(ev, tb=tb):
                if ev.kind != "call" or not ev.callee.startswith("core::fmt::Arguments::new"): return False
                x = "".join(str(z) for t in g.T.operand(ev.frame, ev.data["a"][0]) if t[0] == "c" for z in (sqltext.decode_template(t[1]) or [])) if True else ""
                return re.search(r"(^|[^a-z_])%s\b" % tb, x) is not None
            for ev in g.events(mentions):
                m += 1
                q = g.search(lambda e, ev=ev: e.kind == "call" and e.frame is ev.frame and e.block == ev.block, block=variant_edge("SearchType", var))
                c.ob("T01.fill", ev, q is None, "%s is filled although the search type may not be %s: %s" % (tb, var, fmt_path(q or [])), key="table:" + tb)
        for s, x, st in runs(c):
            if s.fn.h == h and st["kind"] == "insert" and st["table"] in ("exact_searches", "inexact_searches"):
                cols = st["cols"] or []
                c.ob("T01.fill", s.where(), sorted(cols) == sorted(["e0", "a0", "v0", "value_type_tag0", "added0", "flags0"]), "columns filled: %s" % cols, key="fillcols:" + st["table"])
        c.done(g)
    c.floor("T01.fill", "search table inserts", m, 2)

_reach = {}
def p_reach(c, p):
    k = id(p)
    if k not in _reach: _reach[k] = {f.h for f in c.P.reaching([c.P.by_h[h] for h in p.fns])} | set(p.fns)
    return _reach[k]

def reaches_fts(c, fns):
    p = sqlev(c, lambda st: st["kind"] == "insert" and "fulltext" in st["table"])
    r = p_reach(c, p)
    return any(f.h in r for f in fns)

def slice_locals(body, o):
    """Locals a slice argument borrows from (through index/deref/reborrow)."""
    out, work, seen = set(), [op_place(o)], set()
    while work:
        p = work.pop()
        if p is None or p.local in seen: continue
        seen.add(p.local)
        ds = body.defs().get(p.local, [])
        if "Vec<" in body.ty(p.local) and not body.ty(p.local).startswith("&"): out.add(p.local); continue
        for bi, si, d in ds:
            if si >= 0:
                r = d[1]
                if r["r"] == "ref": work.append(Place(r["p"]))
                elif r["r"] in ("use", "cast"): work.append(op_place(r["o"]))
            else:
                for a in d["a"]: work.append(op_place(a))
    return out

# ---- row decoding ------------------------------------------------------------------------------
def colnames(sel):
    """Names of a SELECT's result columns ("?" for unnamed expressions)."""
    out = []
    for e, al in sel["cols"]:
        if al: out.append(al)
        elif e[0] == "col": out.append(e[2])
        elif e[0] == "star": return None
        else: out.append(show(canon(e, None, True)))
    return out

def subst_row(t, names):
    """Replace Row::get(row, i) by the selected column."""
    if isinstance(t, frozenset): return frozenset(subst_row(x, names) for x in t)
    if not isinstance(t, tuple): return t
    if t and t[0] == "call" and re.fullmatch(r"rusqlite::row::Row::get(_unwrap|_raw|_raw_checked)?", t[1]) and len(t[2]) == 2:
        i = next(iter(t[2][1]))
        if i[0] == "c" and names is not None:
            try: j = int(i[1])
            except (TypeError, ValueError): j = names.index(i[1]) if i[1] in names else -1
            if 0 <= j < len(names): return ("static", "<%s>" % names[j])
        return ("static", "<?>")
    return tuple(subst_row(x, names) for x in t)

def decode(c, s):
    """What the row callback of a query site makes of each row, in terms of the selected columns."""
    sels = [st for x, st in s.stmts if st["kind"] == "select"]
    names = {tuple(colnames(st) or ("?",)) for st in sels}
    out = set()
    if len(names) != 1: return out
    nm = list(next(iter(names)))
    for h in (s.term["f"].get("k") or {}).get("cl", []):
        f = c.P.by_h.get(h)
        if f is None: continue
        g = c.graph(f, None, small=15)
        c.see(f)
        g.T.opaque = lambda n: n.endswith("::from_sql_value_pair")
        out |= {rend(subst_row(t, nm)) for t in g.T.place(g.rootf, 0, ()) if t != ("err",)}
    return out

def from_query(c, g, terms, pred):
    """Do all the terms come from rows of a query whose statement satisfies pred?  Returns the sites' texts."""
    texts = set()
    for t in walk(terms):
        if t[0] == "call" and t[1].split("::")[-1] in ("prepare", "prepare_cached", "query_row", "query_row_and_then") and len(t[2]) > 1:
            texts |= set(sqltext.norm(x) for x in sqltext.texts(t[2][1], g.T))
    out = []
    for x in texts:
        try: st = sqlx.parse(x)
        except SyntaxError: return None
        if not pred(st): return None
        out.append(st)
    return out or None

def chain_items(ts):
    """Terms of a chain of once() iterators, in order; None for another shape."""
    ts = list(ts)
    if len(ts) != 1: return None
    t = ts[0]
    if t[0] == "call" and t[1].endswith("once::once"): return [frozenset(t[2][0])]
    if t[0] == "call" and t[1].endswith("Iterator::chain"):
        a, b = chain_items(t[2][0]), chain_items(t[2][1])
        return a + b if a is not None and b is not None else None
    if t[0] in ("agg",) and t[1] in ("array", "tuple"): return [frozenset(v) for _, v in sorted(t[3], key=lambda x: int(x[0]))]
    if t[0] == "coll":
        return chain_items(t[1])
    return None

@rule("T01")
def t01_bind(c):
    c.rule("T01.bind", "each row of the search tables binds the proposal's own entity, attribute, encoded value and tag, direction and its attribute's flags to the matching columns")
    n = 0
    for s, x, st in runs(c):
        if st["kind"] != "insert" or st["table"] not in ("exact_searches", "inexact_searches", "fulltext_values_view"): continue
        T = Tracer(s.g, opaque=lambda n: re.search(r"(to_sql_value_pair|Attribute::flags|to_bool_ref)$", n) is not None)
        ts = T.operand(s.frame, s.term["a"][1]) if len(s.term["a"]) > 1 else ()
        it = chain_items(ts)
        if it is None:
            # another way of flattening the rows: all the origins must at least be present
            r = rset(ts)
            c.ob("T01.bind", s.where(), all(k in r for k in (("to_sql_value_pair",) if st["table"] == "fulltext_values_view" else ("[].0", "[].1", "to_sql_value_pair", "[].4", "flags("))), "binds %s" % r[:120], key="bind?:" + st["table"])
            n += 1
            continue
        n += 1
        cols = st["cols"]
        c.ob("T01.bind", s.where(), len(cols) == len(it), "%d columns, %d values per row" % (len(cols), len(it)), key="bind#" + st["table"])
        got = {k: {rend(t) for t in v if not re.search("ErrorKind", rend(t))} for k, v in zip(cols, it)}
        seen = r".*Entry::(get|into_mut)\(.*entry\(.*, (\w+)\[\]\.3\.0\)\.0\)"
        pair = r"TypedSQLValue::to_sql_value_pair\((\w+)\[\]\.3\)"
        fts = any(re.search("Entry", y) for v in got.values() for y in v)
        W = {"e0": r"\w+\[\]\.0", "a0": r"\w+\[\]\.1", "v0": r"\d+|\(.*Add 1\)|<rec>|" + seen + r"\.0" if fts else pair + r"\.0",
             "value_type_tag0": pair + r"\.1|" + seen + r"\.1", "added0": r"(.*to_bool_ref\()?\w+\[\]\.4\)?", "flags0": r".*Attribute::flags\(\w+\[\]\.2\)",
             "text": pair + r"\.0|Option::None\{\}", "searchid": r"\d+|\(.*Add 1\)|<rec>|" + seen + r"\.0"}
        for k in cols:
            ok = bool(got.get(k)) and k in W and all(re.fullmatch(W[k], y) for y in got[k])
            c.ob("T01.bind", s.where(), ok, "%s <- %s" % (k, sorted(got.get(k, ()))), key="bind:%s.%s" % (st["table"], k))
    c.floor("T01.bind", "search table rows", n, 5)
