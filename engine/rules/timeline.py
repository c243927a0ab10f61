"""The log is append-only, and transactions leave the main timeline only by an exact rewind."""
import re
from ctx import *
from registry import rule
import sqlx, sqltext
from sqlx import canon, conj, bool_diff, witness, show
from rules.logsql import runs, writes, colmap, E, where, sqlev, ins, kind, in_sites, transactors, rows_of, decode, from_query, colnames, tables, EXEMPT

LOG = "timelined_transactions"
col = lambda n: ("col", None, n)

def is_main(e):
    return e == ("lit", 0) or (e[0] == "hole" and "TIMELINE_MAIN" in e[1])

def main_value(c):
    return {f for f in c.P.by_path.get("mentat_db::TIMELINE_MAIN", ())}

def reads_log(st):
    """Canonical WHEREs under which a statement reads the log directly: [(where, select)]."""
    out = []
    def sel(s):
        for f in s["from"]:
            if f[0] == ("tab", LOG): out.append(s)
            elif f[0][0] == "sel": sel(f[0][1])
        for _, y in s.get("compound", ()): sel(y)
    if st["kind"] == "select": sel(st)
    elif st["kind"] == "insert": sel(st["source"])
    elif st["kind"] == "create" and "select" in st: sel(st["select"])
    for n, cols, x in st.get("with", ()) or (): sel(x)
    return out

@rule("L01", "the SQL text of QueryBuilder-built statements is a SELECT (C05 decides that)")
def l01(c):
    c.rule("L01.append", "no statement in the product deletes, replaces or rewrites a row of the log; the only UPDATE moves rows between timelines")
    c.rule("L01.ddl", "log rows start on the main timeline, and the public view of the log is exactly the main timeline with every column")
    c.rule("L01.main", "every statement that reads the log table restricts it to one timeline")
    c.rule("L01.opaque", "no statement of unknown text can reach the log: texts that are not constants are built by the query compiler or name their table by a constant")
    n = 0
    for s, x, st in runs(c):
        k = st["kind"]
        if k in ("insert", "update", "delete") and st["table"] in (LOG, "transactions"):
            n += 1
            if k == "insert":
                c.ob("L01.append", s.where(), st["table"] == LOG and st["or"] is None, "writes the log with %s" % ("INSERT OR " + str(st["or"]) if st["or"] else "INSERT"), key="insert")
            elif k == "update":
                c.ob("L01.append", s.where(), [a for a, _ in st["sets"]] == ["timeline"], "UPDATE of the log sets %s" % [a for a, _ in st["sets"]], key="update:" + ",".join(a for a, _ in st["sets"]))
            else:
                c.ob("L01.append", s.where(), False, "deletes log rows: %s" % x, key="delete")
        elif k in ("drop", "alter", "replace") and LOG in x:
            c.ob("L01.append", s.where(), False, "destroys the log: %s" % x, key=k)
        elif k == "create" and st["what"] == "trigger":
            body = " ".join(str(v) for _, v in st["rest"])
            c.ob("L01.append", s.where(), re.search(r"\b(%s|datoms)\b" % LOG, body) is None, "a trigger touches the log or the datoms", key="trigger:" + st["table"])
        for sel in reads_log(st):
            w = canon(sel["where"], None, True) if sel["where"] is not None else None
            tl = [a for a in conj(w) if a[0] == "eq" and col("timeline") in a[1:]]
            other = [a for t in tl for a in t[1:] if a != col("timeline")]
            c.ob("L01.main", s.where(), len(other) == 1 and (is_main(other[0]) or other[0][0] == "bind"), "reads the log without fixing one timeline: %s" % x[:120], key="read:" + strip_generics(s.fn.path))
    c.floor("L01.append", "statements that write the log", n, 3)
    t = tables(c).get(LOG)
    if c.floor("L01.ddl", "log table definition", 1 if t else 0, 1):
        d = dict(t)
        toks = [v for _, v in d.get("timeline", [])]
        c.ob("L01.ddl", LOG, "default" in toks and toks[toks.index("default") + 1] == "0", "new rows default to timeline %s" % toks, key="default")
        for k in ("e", "a", "v", "tx", "added", "value_type_tag"):
            c.ob("L01.ddl", LOG, k in d and [v for _, v in d[k]][1:3] == ["not", "null"], "column %s is recorded for every row" % k, key="col:" + k)
    views = [st for s, x, st in runs(c) if st["kind"] == "create" and st["what"] == "view" and st["table"] == "transactions"]
    c.floor("L01.ddl", "view of the log", len(views), 1)
    for st in views:
        sel = st["select"]
        w = canon(sel["where"], None, True) if sel["where"] is not None else None
        c.ob("L01.ddl", "view transactions", w is not None and conj(w) == conj(E("timeline = 0")) and [f[0] for f in sel["from"]] == [("tab", LOG)] and not sel["compound"], "selects %s" % (show(w) if w else "everything"), key="view.where")
        m = dict(zip(colnames(sel) or [], [canon(e, None, True) for e, _ in sel["cols"]]))
        c.ob("L01.ddl", "view transactions", all(m.get(k) == col(k) for k in ("e", "a", "v", "value_type_tag", "tx", "added")), "columns %s" % m, key="view.cols")
    un = [s for s in c.sql() if s.unparsed or not s.texts]
    for s in un:
        if re.match(EXEMPT, s.fn.path): continue
        bad = [x for x in s.unparsed if re.search(r"\b(insert|delete|update|replace|drop|alter)\b", re.sub("\u27e6.*?\u27e7+", "", x), re.I)]
        c.ob("L01.opaque", s.where(), not bad, "an unparsed statement may modify data: %s" % bad[:1], key="opaque:" + strip_generics(s.fn.path))

@rule("L02", "replaying a transaction's terms with opposite operations restores the datoms (the transactor's own semantics, T01)")
def l02(c):
    c.rule("L02.refuse", "nothing is rewound or moved unless the target timeline was found different from the main one and empty")
    c.rule("L02.range", "the transactions moved are all those of the main timeline with tx >= the given start, newest first, and none else")
    c.rule("L02.reverse", "each transaction's log rows of the main timeline are replayed with assertion and retraction swapped, and the same entity, attribute and value")
    c.rule("L02.rewind", "every transaction moved is first rewound without writing the log, and the rewinding transaction's own datoms are removed again")
    c.rule("L02.move", "the rows moved are exactly the transactions rewound, and they go to the requested timeline")
    c.rule("L02.parts", "the partition map handed back is re-read from the store after the move")
    c.rule("L02.schema", "every rewind starts from the schema the previous one left, and the schema handed back is the last one any of them produced")
    upd = sqlev(c, lambda st: st["kind"] == "update" and st["table"] == LOG)
    rm = sqlev(c, lambda st: st["kind"] == "delete" and st["table"] == "datoms" and rows_of(st) is None)
    logsel = sqlev(c, lambda st: st["kind"] == "select" and any(reads_log(st)))
    if not c.floor("L02.move", "statement that moves transactions", len(upd.sites), 1): return
    txs, _ = transactors(c)
    txset = {f.h for f in txs}
    movers = [f for f in c.P.reaching([c.P.by_h[h] for h in upd.fns]) if f.kind != "closure" and f.crate == "mentat_db"]
    movers = [f for f in movers if any(x.h in txset for x in c.P.reach_from([f]))]
    inner = [f for f in movers if not any(x in movers and x.h != f.h for x in c.P.reach_from([f]))]
    c.floor("L02.move", "function that rewinds and moves", len(inner), 1)
    parts = sqlev(c, lambda st: st["kind"] == "select" and any(f[0] == ("tab", "parts") for f in st["from"]))
    nsch = 0
    txnames = {f.name for f in txs} | {f.path for f in txs}
    for f in sorted(inner, key=lambda f: f.path):
        g = c.graph(f, lambda fn, i, t, k: (fn.h, i) in upd.sites or (fn.h, i) in rm.sites or (fn.h, i) in logsel.sites or (fn.h, i) in parts.sites, small=10)
        g.T.opaque = lambda n: n in txnames
        rew = lambda ev: ev.kind == "call" and ev.k is not None and any(x.h in txset for x in c.P.targets(ev.k))
        mod = any_of(upd, rm, rew)
        params = [f.body.name(i) for i in range(1, f.body.argc + 1)]
        # the target: what UPDATE sets
        tgt = set()
        for ev in g.events(upd):
            txt = ev.data["a"][1]
            for x in sqltext.texts(g.T.operand(ev.frame, txt), g.T):
                st = sqlx.parse(sqltext.norm(x))
                v = dict(st["sets"])["timeline"]
                tgt.add(v[1].strip("\u27e6\u27e7") if v[0] == "hole" else str(v))
        c.ob("L02.move", f, len(tgt) == 1 and next(iter(tgt)) in params, "rows are moved to %s" % sorted(tgt), key="target")
        T = re.escape(next(iter(tgt))) if tgt else "?"
        notmain = lambda ev: relation(ev, "^%s$" % T, r"TIMELINE_MAIN$|^0$") == "Ne"
        def rows_empty(ev):
            if ev.kind != "edge": return False
            def is_probe(ts):
                q = from_query(c, g, ts, lambda st: st["kind"] == "select" and len(reads_log(st)) == 1)
                if not q: return False
                for st in q:
                    w = canon(st["where"], None, True) if st["where"] is not None else None
                    if not (w is not None and all(a[0] == "eq" and col("timeline") in a[1:] for a in conj(w))): return False
                return any(rset(frozenset([t])) == next(iter(tgt)) for t in walk(ts))
            for op, a, b, truth in cond(ev):
                o = op if truth else NEG[op]
                A = a if isinstance(a, frozenset) else frozenset([a]); B = b if isinstance(b, frozenset) else frozenset([b])
                for x, y, oo in ((A, B, o), (B, A, SWAP[o])):
                    if y == frozenset([("c", 0)]) and oo in ("Eq", "Le") and is_probe(x): return True
                    if y == frozenset([("c", 1)]) and oo == "Lt" and is_probe(x): return True
            for t in g.T.operand(ev.frame, ev.data["o"]):
                neg = False
                while t[0] == "un" and t[1] == "Not": neg = not neg; t = t[2]
                if t[0] == "discr" and is_probe(frozenset([t[1]])) and ev.tag[2] == "None": return True
                if t[0] == "call" and is_probe(frozenset([t])):
                    v = (str(ev.tag[2]) == "1") != neg
                    n = t[1].split("::")[-1]
                    if n in ("is_none", "is_empty") and v: return True
                    if n in ("is_some", "exists") and not v: return True
            return False
        for what, p in (("is not the main one", notmain), ("is empty", rows_empty)):
            q = g.search(mod, block=p)
            c.ob("L02.refuse", f, q is None, "modifies the store before knowing that the target timeline %s: %s" % (what, fmt_path(q or [])), key="refuse:" + what)
        # rewinding
        rews = g.events(rew)
        c.floor("L02.rewind", "rewinding transaction", len(rews), 1)
        q = g.search(ret_of(g, "Ok"), block=upd)
        c.ob("L02.move", f, q is None, "can succeed without moving: %s" % fmt_path(q or []), key="always")
        q = g.search(rew, start=upd)
        c.ob("L02.rewind", f, q is None, "rewinds after rows were moved (their terms are then unreadable): %s" % fmt_path(q or []), key="order")
        q = g.search(any_of(ret_of(g, "Ok"), rew, upd), start=rew, block=rm)
        c.ob("L02.rewind", f, q is None, "continues without removing the rewinding transaction's own datoms: %s" % fmt_path(q or []), key="rm")
        for ev in rews:
            act = [t for a in ev.data["a"] for t in g.T.operand(ev.frame, a) if t[0] == "agg" and str(t[1]).endswith("TransactorAction")]
            c.ob("L02.rewind", ev, len(act) == 1 and act[0][2] == "Materialize", "rewinds with action %s" % [t[2] for t in act], key="action")
        # schemas: each rewind starts from what the previous one left, and what remains is returned
        names = "|".join(re.escape(x.name) for x in txs)
        for ev in rews:
            for i, a in enumerate(ev.data["a"]):
                p_ = op_place(a)
                ts = rset(g.T.operand(ev.frame, a))
                if not re.search(r"^&?(?:mentat_core::)?Schema$", re.sub(r"&('\S+ )?|mut ", "", str(ev.frame.body.ty(p_.local)) if p_ is not None and not p_.proj else "").split("<")[0].strip()): continue
                nsch += 1
                c.ob("L02.schema", ev, re.search(r"(%s)\(" % names, ts) is not None, "rewinds from schema %s" % ts[:80], key="schema:arg")
        rt = g.T.place(g.rootf, 0, ())
        sch = {x for t in rt if t[0] == "agg" and t[2] is None for x in dict(t[3]).get("0", ())}
        c.floor("L02.schema", "schemas a rewind starts from", nsch, 1)
        isrew = lambda t: t[0] == "call" and t[1] in txnames
        part = lambda t: t[0] == "f" and isrew(t[1])
        def told(ev):
            if ev.kind == "call" and re.search(r"option::Option::(or|or_else|xor|is_some|is_none|map_or|unwrap_or)$", ev.callee):
                return any(part(t) for t in g.T.operand(ev.frame, ev.data["a"][0]))
            if ev.kind == "edge" and ev.tag is not None and ev.tag[1] is not None and strip_generics(str(ev.tag[1])).endswith("option::Option"):
                return any(part(t[1] if t[0] == "discr" else t) for t in g.T.operand(ev.frame, ev.data["o"]))
            return False
        q = g.search(any_of(ret_of(g, "Ok"), rew), start=rew, block=told)
        c.ob("L02.schema", f, q is None, "a rewind that leaves the schema alone is taken to have none: %s" % fmt_path(q or []), key="schema:kept")
        c.ob("L02.schema", f, bool(sch) and any(isrew(y) for x in sch for y in walk(x)), "returns schema %s" % sorted(rend(x)[:80] for x in sch), key="schema:ret")
        for ev in g.events(rm):
            ts = rset(g.T.operand(ev.frame, ev.data["a"][-1]))
            names = "|".join(re.escape(x.name) for x in txs)
            c.ob("L02.rewind", ev, re.fullmatch(r"array\{0: .*(%s)\(.*\)(\.0)?\.tx_id\}" % names, ts) is not None, "removes the datoms of %s" % ts[-60:], key="rm.tx")
        for s, x, st in runs(c):
            if (s.fn.h, s.bi) in rm.sites:
                w = canon(st["where"], None, True) if st["where"] is not None else None
                c.ob("L02.rewind", s.where(), w is not None and w[0] == "eq" and col("e") in w[1:] and any(a[0] == "bind" for a in w[1:]), "deletes datoms where %s" % (show(w) if w else "true"), key="rm.where")
        # what is replayed
        revs = [s for s, x, st in runs(c) if (s.fn.h, s.bi) in logsel.sites and st["kind"] == "select" and "added" in (colnames(st) or []) and s.fn.crate == "mentat_db" and s.fn in g.visited_fns]
        c.floor("L02.reverse", "statement reading the terms to reverse", len(revs), 1)
        for s in revs:
            for x, st in s.stmts:
                w = canon(st["where"], None, True)
                cs = conj(w)
                keys = {a for t in cs if t[0] == "eq" for a in t[1:] if a[0] == "col"}
                c.ob("L02.reverse", s.where(), keys == {col("tx"), col("timeline")} and len(cs) == 2, "reads %s" % show(w), key="rev.where")
            c.ob("L02.reverse", s.where(), "TIMELINE_MAIN" in rset(s.params) or "0" in rset(s.params), "bound: %s" % rset(s.params), key="rev.params")
            want = "Term::AddOrRetract{0: {OpType::Add{}|OpType::Retract{}}, 1: KnownEntid::KnownEntid{0: <e>}, 2: <a>, 3: TypedSQLValue::from_sql_value_pair(<v>, <value_type_tag>)}"
            got = decode(c, s)
            c.ob("L02.reverse", s.where(), got == {want}, "row decoded as %s" % sorted(got), key="rev.decode")
            for h in (s.term["f"].get("k") or {}).get("cl", []):
                cf = c.P.by_h.get(h)
                if cf is None: continue
                gc = c.graph(cf, None, small=8)
                names = colnames(s.stmts[0][1])
                ia = names.index("added")
                def on_added(ev, v):
                    if ev.kind != "edge" or str(ev.tag[2]) != v: return False
                    return all(re.fullmatch(r"Row::get(_unwrap)?\(.*, %d\)" % ia, rend(t)) for t in ev.g.T.operand(ev.frame, ev.data["o"]))
                m = 0
                for var, v in (("Retract", "1"), ("Add", "0")):
                    for ev in gc.events(lambda e: e.kind == "stmt" and e.data[1]["r"] == "agg" and str(e.data[1].get("adt")).endswith("OpType") and e.data[1].get("var") == var):
                        m += 1
                        q = gc.search(lambda e, ev=ev: e.kind == "stmt" and e.frame is ev.frame and e.block == ev.block and e.idx == ev.idx, block=lambda e: on_added(e, v))
                        c.ob("L02.reverse", ev, q is None, "a logged row with added=%s can be replayed as %s: %s" % ("0" if v == "1" else "1", var, fmt_path(q or [])), key="op:" + var)
                c.floor("L02.reverse", "operation chosen per row", m, 2)
                c.done(gc)
        # the range
        rng = [(s, st) for s, x, st in runs(c) if (s.fn.h, s.bi) in logsel.sites and st["kind"] == "select" and s.fn in g.visited_fns and any(a[0] in ("lt", "not") for a in conj(canon(st["where"], None, True)))]
        c.floor("L02.range", "statement choosing the transactions", len(rng), 1)
        for s, st in rng:
            w = canon(st["where"], None, True)
            binds = [a for a in atoms_binds(w)]
            d = bool_diff(strip_binds(w), strip_binds(E("tx >= ? AND timeline = ?")))
            c.ob("L02.range", s.where(), d is None and st["limit"] is None, "chooses %s" % show(w), key="range.where")
            o = [(canon(e, None, True), desc) for e, desc in st["order"]] if st["order"] else []
            c.ob("L02.range", s.where(), bool(o) and o[0][0] == col("tx") and o[0][1], "order %s" % (o,), key="range.order")
            ps = rset(s.params)
            c.ob("L02.range", s.where(), re.search(r"\.start\b", ps) is not None, "bound: %s" % ps, key="range.params")
        # same transactions everywhere
        src = {}
        for ev in g.events(upd):
            src["moved"] = g.T.elems(g.T.operand(ev.frame, ev.data["a"][-1])) if len(ev.data["a"]) > 2 else frozenset()
        for s in revs:
            for ev in g.events(lambda e: e.kind == "call" and e.frame.fn.h == s.fn.h and e.block == s.bi):
                t = g.T.operand(ev.frame, ev.data["a"][1])
                src["rewound"] = frozenset(y for x in t if x[0] == "agg" for y in dict(x[3]).get("0", ()))
        mv = {t for t in walk(src.get("moved", frozenset())) if t[0] == "call" and re.search(r"query(_and_then|_map)?$", t[1])}
        rw = {t for t in walk(src.get("rewound", frozenset())) if t[0] == "call" and re.search(r"query(_and_then|_map)?$", t[1])}
        c.ob("L02.move", f, bool(rw) and mv == rw, "moved: %s; rewound: %s" % (rset(src.get("moved", frozenset()))[:80], rset(src.get("rewound", frozenset()))[:80]), key="same")
        # the partition map
        for ev in g.events(lambda e: parts(e)):
            pass
        q = g.search(ret_of(g, "Ok"), block=parts)
        c.ob("L02.parts", f, q is None, "returns without reading the partition map back: %s" % fmt_path(q or []), key="parts")
        q = g.search(upd, start=parts)
        c.ob("L02.parts", f, q is None, "reads the partition map before the rows are moved: %s" % fmt_path(q or []), key="parts.order")
        c.done(g)

def atoms_binds(e):
    if isinstance(e, tuple):
        if e and e[0] == "bind": yield e
        else:
            for x in e: yield from atoms_binds(x)
def strip_binds(e):
    if isinstance(e, tuple):
        if e and e[0] == "bind": return ("bind",)
        return tuple(strip_binds(x) for x in e)
    return e
