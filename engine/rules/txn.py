"""What a failed or partial transact, a one-step write and a read may do."""
import re
from ctx import *
from registry import rule
import sqltext, sqlx
from rules.logsql import runs, transactors, EXEMPT
from rules.idents import drained, loops

IP = "mentat_transaction::InProgress"
EXEC = r"rusqlite::Connection::(execute|execute_batch)|rusqlite::.*Statement::execute"

def sp(g, verb):
    """Calls running a savepoint statement; .names gathers the savepoint names."""
    v = re.compile(r"\s*%s\s+(.*?)\s*;?\s*$" % verb, re.I | re.S)
    names = set()
    def p(ev):
        if ev.kind != "call" or not re.fullmatch(EXEC, ev.callee): return False
        a = ev.data["a"]
        ts = sqltext.texts(g.T.operand(ev.frame, a[1]), g.T) if len(a) > 1 else ()
        m = [v.match(x) for x in ts]
        if not m or not all(m): return False
        names.update(x.group(1) for x in m)
        return True
    p.names = names
    return p

SAVE, UNDO, REL = r"SAVEPOINT", r"ROLLBACK\s+(?:TRANSACTION\s+)?TO(?:\s+SAVEPOINT)?", r"RELEASE(?:\s+SAVEPOINT)?"

@rule("C06")
def c06(c):
    c.rule("C06.before", "no transact starts before the enclosing transaction has a savepoint to return to")
    c.rule("C06.undo", "one transact makes all its changes in one go; after a transact that did not succeed, no exit is reached without rolling back to that savepoint; after one that did, it is released and never rolled back to")
    c.rule("C06.memory", "the enclosing transaction's partition map, schema and observer reports change only after a transact succeeded, and then to exactly that transact's results")
    c.rule("C06.told", "the transactor files its report with the watcher last: nothing that can fail comes after")
    tx = [f for f in transactors(c)[0] if "::Tx::" not in strip_generics(f.path)]
    TX = "|".join(sorted({re.escape(strip_generics(f.path)) for f in tx if f.crate == "mentat_db"}))
    users = sorted({c.P.root_of(s[0]) for s in c.callsites(TX) if s[0].crate != "mentat_db"}, key=lambda f: f.path)
    # judge each in its outermost form inside the crate that owns the transaction
    users = [f for f in users if any("InProgress" in f.body.ty(i) for i in range(1, f.body.argc + 1))]
    c.floor("C06.before", "operations that transact inside an open transaction", len(users), 2)
    back = c.P.callgraph()[1]
    for f in users:
        r = f
        # a helper that only runs the transactor: look at it from its callers
        g = None
        for _ in range(3):
            g = c.graph(r, lambda fn, i, t, k: fn.crate == r.crate and k is not None and (re.fullmatch(EXEC, callee_name(k)) is not None or re.fullmatch(TX, callee_name(k)) is not None), small=12)
            g.T.opaque = g.T.blank = lambda n: re.fullmatch(TX, n) is not None
            if g.events(sp(g, SAVE)): break
            cs = {c.P.root_of(c.P.by_h[h]) for h in back.get(r.h, ())} - {r}
            if len(cs) != 1: break
            r = cs.pop()
        save, undo, rel = sp(g, SAVE), sp(g, UNDO), sp(g, REL)
        trans = call_to(TX)
        ok = succeeded(TX)
        q = g.search(trans, block=save)
        c.ob("C06.before", r, q is None, "transacts without a savepoint: %s" % fmt_path(q or []), key="before:" + r.name)
        q = g.search(trans, start=save, block=succeeded(EXEC))
        c.ob("C06.before", r, q is None, "transacts although the savepoint may not have been made: %s" % fmt_path(q or []), key="made:" + r.name)
        q = g.search(ret_of(g), start=trans, block=any_of(undo, ok))
        c.ob("C06.undo", r, q is None, "a failed transact's writes stay: %s" % fmt_path(q or []), key="undo:" + r.name)
        q = g.search(undo, start=ok)
        c.ob("C06.undo", r, q is None, "a successful transact is undone: %s" % fmt_path(q or []), key="keep:" + r.name)
        q = g.search(ret_of(g, "Ok"), start=trans, block=rel)
        c.ob("C06.undo", r, q is None, "returns without releasing the savepoint: %s" % fmt_path(q or []), key="release:" + r.name)
        q = g.search(undo, start=rel)
        c.ob("C06.undo", r, q is None, "rolls back after releasing: %s" % fmt_path(q or []), key="order:" + r.name)
        for e in (save, undo, rel): g.events(e)
        c.ob("C06.undo", r, save.names == undo.names == rel.names and len(save.names) == 1, "savepoints %s / %s / %s" % (save.names, undo.names, rel.names), key="name:" + r.name)
        # in memory
        w = {x: any_of(field_write(IP, x), mut_borrow(IP, x)) for x in ("partition_map", "schema", "generation", "tx_observer_watcher")}
        for x, p in w.items():
            q = g.search(p, block=ok)
            c.ob("C06.memory", r, q is None, "%s changes before the transact succeeded: %s" % (x, fmt_path(q or [])), key="early:%s:%s" % (r.name, x))
        NEWS = r"(InProgressObserverTransactWatcher::(new|default)\(.*\)|InProgressObserverTransactWatcher\{.*\}|Default::default\(\))(\.txes)?"
        takes_in = lambda ev: ev.kind == "call" and re.search(r"::(extend|insert|append)$", ev.callee) is not None and bool(ev.data["a"]) and "tx_observer_watcher" in rset(g.T.operand(ev.frame, ev.data["a"][0]))
        one = lambda ev: takes_in(ev) and (lambda a: len(a) == 3 and all(re.fullmatch(NEWS + r"\[\]\.%d" % i, a[i + 1]) is not None for i in (0, 1)))(args_of(g, ev))
        follow = dict(w, tx_observer_watcher=any_of(w["tx_observer_watcher"], drained(g, NEWS + r"\[\]", one)))
        for x in ("partition_map", "tx_observer_watcher"):
            q = g.search(ret_of(g, "Ok"), start=ok, block=follow[x])
            c.ob("C06.memory", r, q is None, "%s does not follow a successful transact: %s" % (x, fmt_path(q or [])), key="follow:%s:%s" % (r.name, x))
        none = lambda ev: ev.kind == "edge" and ev.tag is not None and ev.tag[2] == "None" and any(re.search(r"(%s)\(.*\)(\.0)?\.2$" % "|".join(x.name for x in tx), rend(t[1] if t[0] == "discr" else t)) for t in g.T.operand(ev.frame, ev.data["o"]))
        q = g.search(ret_of(g, "Ok"), start=ok, block=any_of(w["schema"], none, lambda ev: relation(ev, r"(\.2|schema)$", r"(\.2|schema)$") == "Eq"))
        c.ob("C06.memory", r, q is None, "a changed schema does not follow a successful transact: %s" % fmt_path(q or []), key="follow:%s:schema" % r.name)
        for ev in g.events(lambda e: e.kind == "stmt" and any(field_write(IP, x)(e) for x in ("partition_map", "schema", "generation"))):
            x = [y for y in ("partition_map", "schema", "generation") if field_write(IP, y)(ev)][0]
            ts = g.T.rvalue(ev.frame, ev.data[1], (), 0)
            want = {"partition_map": "1", "schema": "2"}.get(x)
            good = bool(ts) and all(t[0] == "f" and t[2] == want and t[1][0] == "call" and re.fullmatch(TX, t[1][1]) for t in ts)
            c.ob("C06.memory", ev, good, "%s := %s" % (x, rset(ts)[:120]), key="from:%s" % x)
        for ev in g.events(takes_in):
            a = args_of(g, ev)[1]
            c.ob("C06.memory", ev, one(ev) or re.fullmatch(NEWS, a) is not None or re.search(r"InProgressObserverTransactWatcher::(new|default)\(|InProgressObserverTransactWatcher\{", a) is not None, "reports extended with %s" % a[:100], key="from:reports")
        own = lambda ts: rset(frozenset(t for t in ts if not (t[0] == "f" and t[1][0] == "call" and re.fullmatch(TX, t[1][1]))))
        for x in ("partition_map", "schema"):
            q = g.search(trans, start=w[x])
            c.ob("C06.memory", r, q is None, "%s changes before transacting: %s" % (x, fmt_path(q or [])), key="first:" + x)
        for ev in g.events(trans):
            # the pieces the transactor starts from
            for i, a in enumerate(ev.data["a"]):
                t = rset(g.T.operand(ev.frame, a))
                p_ = op_place(a)
                ty = strip_generics(str(ev.frame.body.ty(p_.local))) if p_ is not None and not p_.proj else ""
                if "PartitionMap" in ty: c.ob("C06.memory", ev, own(g.T.operand(ev.frame, a)) == "self.partition_map", "starts from partition map %s" % t, key="in:parts")
                if re.search(r"\bSchema$", ty): c.ob("C06.memory", ev, own(g.T.operand(ev.frame, a)) == "self.schema", "starts from schema %s" % t, key="in:schema")
                if "Connection" in ty: c.ob("C06.memory", ev, t == "self.transaction", "runs on %s" % t, key="in:conn")
        c.done(g)
    outer = [f for f in c.P.reaching(users) if f.kind != "closure" and f.crate in {u.crate for u in users} and f not in users and any("InProgress" in f.body.ty(i) for i in range(1, f.body.argc + 1))]
    for f in sorted(outer, key=lambda f: f.path):
        g = c.graph(f, lambda fn, i, t, k: k is not None and re.fullmatch(TX, callee_name(k)) is not None, small=12)
        g.T.opaque = g.T.blank = lambda n: re.fullmatch(TX, n) is not None
        for x in ("partition_map", "schema", "generation", "tx_observer_watcher"):
            q = g.search(any_of(field_write(IP, x), mut_borrow(IP, x)), block=succeeded(TX))
            c.ob("C06.memory", f, q is None, "%s changes before the transact succeeded: %s" % (x, fmt_path(q or [])), key="outer:%s:%s" % (f.name, x))
        if re.match(r"&('\w+ )?mut ", f.body.ty(1)):
            US = "|".join(sorted(re.escape(strip_generics(u.path)) for u in users + outer if u is not f))
            g2 = c.graph(f, fnpred(US), small=0)
            g2.T.opaque = g2.T.blank = lambda n: re.fullmatch(US, n) is not None
            q = g2.search(ret_of(g2, "Err"), start=succeeded(US)) or g2.search(call_to(US), start=succeeded(US))
            c.done(g2)
            c.ob("C06.undo", f, q is None, "fails or transacts again after part of it was kept: %s" % fmt_path(q or []), key="part:" + f.name)
        c.done(g)
    # the watcher is told last
    DONE = r".*TransactWatcher::done"
    inner = [f for f in transactors(c)[0] if c.callsites(DONE) and any(s[0].h == f.h for s in c.callsites(DONE))]
    c.floor("C06.told", "transactor that reports to a watcher", len(inner), 1)
    for f in inner:
        g = c.graph(f, fnpred(DONE), small=0)
        done = call_to(DONE)
        q = g.search(ret_of(g, "Err"), start=succeeded(DONE))
        c.ob("C06.told", f, q is None, "can still fail after the watcher was told: %s" % fmt_path(q or []), key="last")
        q = g.search(ret_of(g, "Ok"), block=done)
        c.ob("C06.told", f, q is None, "can succeed without telling the watcher: %s" % fmt_path(q or []), key="always")
        q = g.search(call_to(r".*TransactWatcher::datom"), start=done)
        c.ob("C06.told", f, q is None, "reports datoms after the end: %s" % fmt_path(q or []), key="after")
        c.done(g)
    # watchers keep what they see to themselves until then
    for f in c.P.fns:
        if f.name == "datom" and f.impl_of and "TransactWatcher" in str(f.impl_of) and f.crate == "mentat_db" and "Cache" in str(f.self_ty):
            g = c.graph(f, None, small=10)
            bad = g.events(lambda e: (field_write(str(f.self_ty).split("<")[0], "cache")(e) or mut_borrow(strip_generics(str(f.self_ty)), "cache")(e)))
            c.ob("C06.told", f, not bad, "the cache changes while the transaction can still fail: %s" % bad[:1], key="watch")
            c.done(g)

COMMIT = r"mentat_transaction::InProgress::commit"

@rule("C04", "dropping a rusqlite transaction that was not committed rolls it back")
def c04(c):
    c.rule("C04.whole", "an operation that transacts and then commits reaches the commit only after every transacting step before it succeeded")
    c.rule("C04.done", "such an operation reports success only after the commit returned success")
    c.rule("C04.drop", "nothing changes what dropping an open transaction does")
    tx = [f for f in transactors(c)[0] if "::Tx::" not in strip_generics(f.path)]
    deep = {f.h for f in c.P.reaching(tx)}
    work = sorted({strip_generics(f.path) for f in c.P.fns if f.h in deep and f.kind != "closure" and any("InProgress" in f.body.ty(i) for i in range(1, f.body.argc + 1)) and "Result<" in f.body.ty(0)})
    sites = c.callsites(COMMIT)
    c.floor("C04.whole", "commits of a write transaction", len(sites), 4)
    committers = {f.h for f in c.P.reaching({s[0] for s in sites})}
    work = [w for w in work if w not in {strip_generics(f.path) for f in c.P.fns if f.h in committers}]
    names = lambda w: r"(<.* as )?.*::" + re.escape(w.split("::")[-1])
    whs = {f.h for f in c.P.fns if strip_generics(f.path) in work}
    via = {callee_name(k) for f in c.P.fns for i, t, k in f.body.calls() if k is not None and any(x.h in whs for x in c.P.targets(k))}
    W = "|".join(re.escape(w) for w in sorted(set(work) | via))
    n = 0
    roots = {c.P.root_of(s[0]) for s in sites}
    # whoever opens a write transaction, transacts in it and does not hand it on
    opens = [f for f in c.P.fns if "InProgress<" in f.body.ty(0) and "EntityBuilder" not in f.body.ty(0) and "(" not in f.body.ty(0)[:1] and not any("InProgress" in f.body.ty(i) for i in range(1, f.body.argc + 1)) and f.kind != "closure"]
    c.floor("C04.done", "ways to open a write transaction", len(opens), 2)
    W0 = re.compile(W)
    for f in c.P.fns:
        if f.path.startswith("mentat_db::debug") or f.crate == "mentat_db": continue
        cs = [callee_fn(k) for i, t, k in f.body.calls() if k is not None]
        if any(n in cs for n in [strip_generics(o.path) for o in opens]) and "InProgress" not in c.P.root_of(f).body.ty(0): roots.add(c.P.root_of(f))
    for f in sorted(roots, key=lambda f: f.path):
        if f.path.startswith("mentat_db::debug"): continue
        g = c.graph(f, fnpred(COMMIT), small=0)
        g.T.opaque = g.T.blank = lambda n_: re.fullmatch(W, n_) is not None or re.fullmatch(COMMIT, n_) is not None
        wk = call_to(W)
        evs = g.events(wk)
        n += len(evs)
        q = g.search(call_to(COMMIT), start=wk, block=succeeded(W))
        c.ob("C04.whole", f, q is None, "can commit although a transacting step failed: %s" % fmt_path(q or []), key="whole:" + strip_generics(f.path))
        if "Result<" in f.body.ty(0):
            q = g.search(ret_of(g, "Ok"), start=wk, block=succeeded(COMMIT)) if evs else None
            c.ob("C04.done", f, q is None, "reports success without a successful commit: %s" % fmt_path(q or []), key="done:" + strip_generics(f.path))
        else:
            # a foreign caller is told through the result handed to the translator
            told = lambda ev: ev.kind == "call" and "translate" in ev.callee and ev.data["a"] and op_place(ev.data["a"][0]) is not None and ev.env.get((ev.frame.id, op_place(ev.data["a"][0]).local, ())) != "Err"
            if g.events(lambda ev: ev.kind == "call" and "translate" in ev.callee):
                q = g.search(told, start=wk if evs else call_to(COMMIT), block=succeeded(COMMIT)) if evs else None
                c.ob("C04.done", f, q is None, "reports success without a successful commit: %s" % fmt_path(q or []), key="done:" + strip_generics(f.path))
            if not evs:
                cm = g.events(call_to(COMMIT))
                given = [rset(g.T.operand(ev.frame, ev.data["a"][0])) for ev in g.events(lambda ev: ev.kind == "call" and "translate" in ev.callee and ev.data["a"])]
                c.ob("C04.done", f, bool(given) and all(re.match(r"InProgress::commit\(", x) for x in given), "reports %s" % given, key="given:" + strip_generics(f.path))
        c.done(g)
    c.floor("C04.whole", "transacting steps followed by a commit", n, 3)
    bad = c.callsites(r"rusqlite::.*::(set_drop_behavior|finish)")
    c.ob("C04.drop", "workspace", not bad, "drop behaviour changed in %s" % [s[0].path for s in bad[:3]], key="drop")

MODIFIES = {"insert", "update", "delete", "create", "drop", "alter", "replace", "pragma"}
VERB = re.compile(r"(?i)(^|[\s;(])(insert\s+(or|into)|replace\s+into|update\s|delete\s+from|create\s|drop\s|alter\s|attach\s|detach\s|pragma\s|vacuum|reindex|begin|commit|savepoint|release)|;")

def readers(c):
    """Entry points that read: by the traits they implement, and methods on shared stores and connections."""
    out = []
    for f in c.P.fns:
        if f.kind == "closure" or f.path.startswith("mentat_db::debug"): continue
        if f.impl_of and re.search(r"::(Queryable|Pullable|HasVocabularies)\b", str(f.impl_of)) and "::<impl" not in f.path: out.append(f); continue
        if f.crate == "mentat" and f.body.argc and not f.impl_of:
            t = f.body.ty(1)
            if re.search(r"\b(conn::Conn|store::Store)$", t) and (not t.startswith("&mut") or re.match(r"begin_(uncached_)?read$", f.name) or f.name == "cache"): out.append(f)
            elif re.search(r"QueryBuilder", t): out.append(f)
        if f.crate == "mentat_transaction" and f.name in ("last_tx_id", "cache") and f.body.argc and not f.impl_of: out.append(f)
        if f.crate == "mentat_ffi" and re.match(r"(query_builder|store_(value|entid)|rows?|values?|typed_value)_", f.name): out.append(f)
        if f.crate == "mentat_query_pull" and not f.impl_of: out.append(f)
    return out

@rule("C05", "SELECT, EXPLAIN and read-only functions of SQLite do not modify the database")
def c05(c):
    c.rule("C05.sql", "no modifying SQL statement, write transaction or non-query statement API is reachable from a reading entry point")
    c.rule("C05.text", "SQL assembled at run time is assembled from fragments none of which starts a modifying statement or a second statement")
    c.rule("C05.memory", "no reading entry point takes mutable access to the shared metadata")
    rs = readers(c)
    c.floor("C05.sql", "reading entry points", len(rs), 20)
    fw = c.P.callgraph()[0]
    par = {r.h: None for r in rs}
    st = list(par)
    while st:
        h = st.pop()
        for x in fw.get(h, ()):
            if x not in par: par[x] = h; st.append(x)
    def path(h):
        out = []
        while h is not None: out.append(c.P.by_h[h].name); h = par[h]
        return " <- ".join(out[:8])
    n = 0
    for s in c.sql():
        if s.fn.h not in par: continue
        n += 1
        kinds = {d["kind"] for x, d in s.stmts}
        bad = (kinds & MODIFIES) or (kinds - {"select", "explain"})
        c.ob("C05.sql", s.fn, not bad, "runs %s: %s, reached by %s" % (sorted(bad or ()), s.texts[:1], path(s.fn.h)), key="site:%s" % strip_generics(s.fn.path))
        c.ob("C05.sql", s.fn, not s.api.startswith("execute"), "uses %s, reached by %s" % (s.api, path(s.fn.h)), key="api:%s" % strip_generics(s.fn.path))
        for x in s.unparsed:
            c.ob("C05.text", s.fn, re.fullmatch(r"⟦(String::new\(\)|.*\.sql|.*QueryBuilder.*)⟧", x) is not None or not s.texts, "runs text of unknown make: %s" % x[:100], key="made:%s" % strip_generics(s.fn.path))
    c.floor("C05.sql", "SQL statements run by readers", n, 4)
    for f in (c.P.by_h[h] for h in sorted(par)):
        for i, t, k in f.body.calls():
            if k is None: continue
            nm = callee_name(k)
            if re.fullmatch(r"rusqlite::.*(Transaction::(commit|savepoint\w*)|Connection::(transaction\w*|savepoint\w*|execute\w*|pragma_update))", nm):
                if nm.endswith(("transaction_with_behavior", "::transaction")):
                    continue
                c.ob("C05.sql", f, False, "%s reached by %s" % (nm, path(f.h)), key="call:%s" % strip_generics(f.path))
            if nm.endswith("DerefMut::deref_mut") and t["a"]:
                p = op_place(t["a"][0])
                ty = f.body.ty(p.local) if p is not None else ""
                if "MutexGuard" in ty and "Metadata" in ty:
                    own = c.P.root_of(f)
                    if own.name == "cache": continue
                    c.ob("C05.memory", f, False, "takes mutable access to the shared metadata, reached by %s" % path(f.h), key="mut:%s" % strip_generics(f.path))
            if nm.endswith(("Arc::get_mut", "Arc::make_mut")) and t["a"]:
                p = op_place(t["a"][0])
                ty = f.body.ty(p.local) if p is not None else ""
                if re.search("Schema|PartitionMap|SQLiteAttributeCache", ty) and c.P.root_of(f).name not in ("cache", "transact_mut"):
                    c.ob("C05.memory", f, "InProgress" in f.path or "cache" in f.path.lower(), "mutates shared %s, reached by %s" % (ty[:60], path(f.h)), key="arc:%s" % strip_generics(f.path))
    c.ob("C05.memory", "%d functions reachable from %d reading entry points" % (len(par), len(rs)), True, "no mutable access to the shared metadata")
    # how run-time SQL is put together
    frag = 0
    for f in c.P.fns:
        if f.crate not in ("mentat_sql", "mentat_query_sql", "mentat_query_projector", "mentat_query_pull"): continue
        cs = [(i, t, k) for i, t, k in f.body.calls() if k is not None and re.search(r"::(push_sql|push_str)$", callee_name(k)) and len(t["a"]) > 1]
        if not cs or f.name in ("push_sql", "push_str") and f.crate == "mentat_sql": continue
        g = c.graph(f, None, small=0)
        for i, t, k in cs:
            for x in sqltext.texts(g.T.operand(g.rootf, t["a"][1]), g.T):
                if x.startswith("⟦") and x.endswith("⟧") and x.count("⟦") == 1: continue
                frag += 1
                c.ob("C05.text", f, VERB.search(x) is None, "pushes %r" % x, key="frag:%s" % strip_generics(f.path))
        c.done(g)
    c.floor("C05.text", "constant fragments of run-time SQL", frag, 60)
