"""Commit protocol: shared in-memory metadata vs the durable SQLite transaction."""
import re
from ctx import *
from registry import rule

META = "mentat_transaction::metadata::Metadata"
FIELDS = ("generation", "partition_map", "schema", "attribute_cache")
TXCOMMIT = r"rusqlite::transaction::Transaction::commit"
META_LOCK = r"Mutex::lock\(.*(mutex|metadata)\)"

def writer_fns(c):
    """Functions whose own body stores to (or mutably borrows) a field of the shared metadata."""
    out = {}
    for f in c.P.fns:
        for b in f.body.blocks:
            for st in b["s"]:
                for pl in [st[0]] + ([st[1]["p"]] if st[1]["r"] == "ref" and st[1]["mut"] else []):
                    for x in pl[1:]:
                        if x.startswith(".") and x.endswith("@" + META):
                            out.setdefault(f, set()).add(x[1:].split("@")[0])
    return out

def entry_points(c, fns):
    """Public entry points (functions nobody in the workspace calls, or pub) that reach fns."""
    P = c.P
    _, back = P.callgraph()
    reach = P.reaching(fns)
    return [f for f in reach if f.kind != "closure" and (f in fns or not back.get(f.h))]

def graph_meta(c, root):
    return c.graph(root, lambda f, i, t, k: k is not None and re.fullmatch(TXCOMMIT, callee_fn(k)) is not None, small=40)

def meta_event(fields=FIELDS):
    ws = [field_write(META, f) for f in fields] + [mut_borrow(META, f) for f in fields]
    return any_of(*ws)

@rule("C01", "the mutex-guarded metadata is reached only through safe code (no unsafe aliasing), which the who-may-write enumeration over every body confirms per field access")
def c01(c):
    c.rule("C01.order", "every store to the shared metadata, on every feasible path of every function that makes one, comes after a SQLite commit that returned Ok (the explicit attribute-cache registration API is the one other writer, and only of the cache)")
    c.rule("C01.all", "after the SQLite commit succeeded, every path to the exit publishes generation, partition map, schema and cache, and notifies observers")
    c.rule("C01.from", "what is published is what this transaction held, not something else")
    ws = writer_fns(c)
    c.see(*ws)
    c.floor("C01.order", "functions that store to the shared metadata", len(ws), 1)
    roots = set()
    for f, fields in ws.items():
        r = c.P.root_of(f)
        roots.add(r)
    publishers = []
    for f in sorted(roots, key=lambda f: f.path):
        g = graph_meta(c, f)
        hit = g.events(meta_event())
        if not hit:
            continue
        commits = g.events(call_to(TXCOMMIT))
        fields_only_cache = not g.events(meta_event(("generation", "partition_map", "schema")))
        if not commits and fields_only_cache and f.crate == "mentat":
            # registering/unregistering a cached attribute on the connection
            c.ob("C01.order", f, True, "only the attribute cache is touched, by the cache registration API")
            c.done(g)
            continue
        if not commits:
            # a helper that publishes: judge it in its callers
            callers = [x for x in c.P.callgraph()[1].get(f.h, ())]
            for h in callers: roots_extra = c.P.root_of(c.P.by_h[h]); publishers.append(roots_extra)
            c.ob("C01.order", f, bool(callers), "stores to the shared metadata without committing, and nobody calls it after a commit")
            c.done(g)
            continue
        publishers.append(f)
        c.done(g)
    publishers = sorted(set(publishers), key=lambda f: f.path)
    c.floor("C01.order", "functions that commit and publish", len(publishers), 1)
    for f in publishers:
        g = graph_meta(c, f)
        ok = succeeded(TXCOMMIT)
        for fld in FIELDS:
            p = g.search(meta_event((fld,)), block=call_to(TXCOMMIT))
            c.ob("C01.order", f, p is None, "shared %s is written before the SQLite commit: %s" % (fld, fmt_path(p or [])), key="pre:%s:%s" % (f.name, fld))
            p = g.search(meta_event((fld,)), start=call_to(TXCOMMIT), block=ok)
            c.ob("C01.order", f, p is None, "shared %s is written although the SQLite commit may have failed: %s" % (fld, fmt_path(p or [])), key="err:%s:%s" % (f.name, fld))
        if not g.events(call_to(TXCOMMIT)): continue
        c.floor("C01.all", "successful-commit branch in " + f.name, len(g.events(ok)), 1)
        for fld in ("generation", "partition_map", "attribute_cache"):
            p = g.search(ret_of(g), start=ok, block=meta_event((fld,)))
            c.ob("C01.all", f, p is None, "a committed transaction can return without publishing %s: %s" % (fld, fmt_path(p or [])), key="all:%s:%s" % (f.name, fld))
        def same_schema(ev):
            return relation(ev, r"schema$", r"schema$") == "Eq"
        p = g.search(ret_of(g), start=ok, block=any_of(meta_event(("schema",)), same_schema))
        c.ob("C01.all", f, p is None, "a committed transaction can return without publishing a changed schema: %s" % fmt_path(p or []), key="all:%s:schema" % f.name)
        # where the published values come from
        for ev in g.events(lambda ev: ev.kind == "stmt" and any(field_write(META, x)(ev) for x in FIELDS)):
            fld = [x for x in FIELDS if field_write(META, x)(ev)][0]
            src = rset(g.T.rvalue(ev.frame, ev.data[1], (), 0))
            if fld == "generation":
                good = re.search(r"generation Add 1\)$", src) is not None
            elif fld == "attribute_cache":
                good = ".cache" in src
            else:
                good = re.fullmatch(r"self\.%s" % fld, src) is not None
            c.ob("C01.from", ev, good, "%s published from %s" % (fld, src), key="from:%s" % fld)
        for ev in g.events(call_to(r".*InProgressSQLiteAttributeCache::commit_to")):
            args = [rset(g.T.operand(ev.frame, a)) for a in ev.data["a"]]
            c.ob("C01.from", ev, args[0] == "self.cache" and re.search(r"Mutex::lock\(.*\)\.attribute_cache$", args[1]) is not None,
                 "cache published as commit_to(%s)" % ", ".join(args), key="from:cache")
        c.done(g)

@rule("C02")
def c02(c):
    c.rule("C02.check", "every SQLite commit of a writer happens on a path where the writer's generation was compared equal to the shared generation under the metadata lock, and that lock is still held")
    c.rule("C02.held", "the lock under which the generation was compared is held until the new metadata has been published")
    c.rule("C02.snapshot", "a writer takes its snapshot (generation, partition map, schema, cache) after its SQLite transaction began, all four under one acquisition of the lock")
    c.rule("C02.behavior", "write transactions begin IMMEDIATE (two writers cannot both be open), read transactions DEFERRED")
    c.rule("C02.bump", "each commit increases the shared generation by exactly one, and nothing else changes it")
    sites = [(f, i, t, k) for f, i, t, k in c.callsites(TXCOMMIT)
             if not f.path.startswith("mentat_db::debug::")]
    owners = sorted({c.P.root_of(f) for f, *_ in sites}, key=lambda f: f.path)
    n = 0
    for f in owners:
        g = graph_meta(c, f)
        if not any(a.endswith("InProgress") or "InProgress<" in a for a in [l[0] for l in f.body.locals[1:f.body.argc + 1]]):
            # the only other committer creates a database from nothing
            boot = any(re.fullmatch(r".*create_current_version|.*create_empty_current_version", x.path) for x in c.P.reach_from([f]) | {f})
            c.ob("C02.check", f, boot, "commits a SQLite transaction outside the writer protocol", key="other:" + strip_generics(f.path))
            continue
        n += 1
        eq = lambda ev: relation(ev, r"^self\.generation$", META_LOCK + r"\.generation") == "Eq"
        p = g.search(call_to(TXCOMMIT), block=eq)
        c.ob("C02.check", f, p is None, "a commit is reachable without the generation having been found equal: %s" % fmt_path(p or []))
        c.floor("C02.check", "generation comparison in " + f.name, len(g.events(eq)), 1)
        # the guard: dropped (or released with mem::drop) before publishing?
        def unlock(ev):
            if ev.kind == "drop":
                l = ev.data["p"][0]
                return len(ev.data["p"]) == 1 and "MutexGuard<" in ev.frame.body.ty(l) and META in ev.frame.body.ty(l)
            if call_to(r"core::mem::drop")(ev):
                return any(META in ev.frame.body.ty(op_place(a).local) and "MutexGuard" in ev.frame.body.ty(op_place(a).local) for a in ev.data["a"] if op_place(a))
            return False
        p = g.search(call_to(TXCOMMIT), start=unlock)
        c.ob("C02.held", f, p is None, "the metadata lock is released before the SQLite commit: %s" % fmt_path(p or []), key="held:commit")
        p = g.search(meta_event(), start=unlock)
        c.ob("C02.held", f, p is None, "the metadata lock is released before the metadata is published: %s" % fmt_path(p or []), key="held:publish")
        c.done(g)
    c.floor("C02.check", "functions that commit a writer's SQLite transaction", n, 1)
    # generation writes anywhere
    for f, fields in writer_fns(c).items():
        if "generation" not in fields: continue
        g = graph_meta(c, c.P.root_of(f))
        for ev in g.events(field_write(META, "generation")):
            src = rset(g.T.rvalue(ev.frame, ev.data[1], (), 0))
            c.ob("C02.bump", ev, re.search(r"^\(.*generation Add 1\)$", src) is not None, "generation := " + src)
        c.done(g)
    # snapshots
    makers = [f for f in c.P.fns if any(st[1]["r"] == "agg" and st[1].get("adt") == "mentat_transaction::InProgress"
                                        for b in f.body.blocks for st in b["s"])]
    c.floor("C02.snapshot", "constructors of a write transaction", len(makers), 1)
    BEGIN = r"rusqlite::.*transaction(_with_behavior)?"
    for f in makers:
        r = c.P.root_of(f)
        g = c.graph(r, fnpred(BEGIN), small=40)
        locked = lambda ev: call_to(r"std::sync::poison::mutex::Mutex::lock")(ev) and META in ev.frame.body.ty(op_place(ev.data["a"][0]).local)
        p = g.search(locked, block=succeeded(BEGIN))
        c.ob("C02.snapshot", r, p is None, "shared metadata is read before the SQLite transaction began: %s" % fmt_path(p or []))
        for ev in g.events(lambda ev: ev.kind == "stmt" and ev.data[1]["r"] == "agg" and ev.data[1].get("adt") == "mentat_transaction::InProgress"):
            rv = ev.data[1]
            locks = set()
            for name, a in zip(rv["f"], rv["a"]):
                want = {"generation": "generation", "partition_map": "partition_map", "schema": "schema", "cache": "attribute_cache"}.get(name)
                if want is None: continue
                ts = g.T.operand(ev.frame, a)
                txt = rset(ts)
                good = re.search(META_LOCK + r"\." + want, txt) is not None
                c.ob("C02.snapshot", ev, good, "%s taken from %s" % (name, txt), key="snap:" + name)
                for t in walk(ts):
                    if t[0] == "call" and t[1].endswith("Mutex::lock"): locks.add(t[3])
            c.ob("C02.snapshot", ev, len(locks) == 1, "the snapshot uses %d acquisitions of the metadata lock" % len(locks), key="snap:onelock")
            ts = g.T.operand(ev.frame, rv["a"][rv["f"].index("transaction")])
            c.ob("C02.snapshot", ev, re.search(r"transaction_with_behavior\(|::transaction\(", rset(ts)) is not None, "transaction from " + rset(ts), key="snap:tx")
            m = {n: rset(g.T.operand(ev.frame, a)) for n, a in zip(rv["f"], rv["a"])}
            c.ob("C02.snapshot", ev, re.search(r"\.metadata$", m.get("mutex", "")) is not None, "mutex is %s" % m.get("mutex"), key="snap:mutex")
        c.done(g)
    # behaviours
    for pat, want in ((r"mentat::conn::Conn::begin_transaction", "Immediate"), (r"mentat::conn::Conn::begin_read", "Deferred"),
                      (r"mentat::conn::Conn::begin_uncached_read", "Deferred")):
        f = c.one("C02.behavior", pat)
        if not f: continue
        g = c.graph(f, fnpred(BEGIN), small=40)
        evs = g.events(call_to(BEGIN))
        c.floor("C02.behavior", "BEGIN reached from " + f.name, len(evs), 1)
        for ev in evs:
            ts = set()
            for a in ev.data["a"][1:]: ts |= {behavior(t) for t in g.T.operand(ev.frame, a)}
            if ev.callee.endswith("::transaction") : ts = {"Deferred"}
            c.ob("C02.behavior", f, ts == {want}, "begins %s, must be %s" % ("/".join(sorted(map(str, ts))), want))
        c.done(g)

def behavior(t):
    if t[0] == "agg": return t[2]
    s = repr(t)
    for b in ("Deferred", "Immediate", "Exclusive"):
        if b in s: return b
    return s

@rule("C03", "delivery by the worker thread is asynchronous; only what is handed to it is decided")
def c03(c):
    NOTIFY = r"mentat_db::tx_observer::TxObservationService::in_progress_did_commit"
    c.rule("C03.after", "observers are told about a transaction only after its SQLite commit returned Ok, and then always")
    c.rule("C03.what", "what they are told is the per-transaction attribute sets gathered by this transaction's own watcher")
    c.rule("C03.gather", "every asserted or retracted datom of a transaction adds its attribute to the set, and the finished set is filed under that transaction's id and the accumulator emptied")
    c.rule("C03.select", "an observer is called exactly with the transactions whose attributes intersect its own, and only when there are any")
    c.rule("C03.keep", "registering or removing an observer leaves the others, and notifications already queued for them, in place")
    sites = c.callsites(NOTIFY)
    c.floor("C03.after", "notification call sites", len(sites), 1)
    for f in sorted({c.P.root_of(s[0]) for s in sites}, key=lambda f: f.path):
        g = c.graph(f, fnpred(TXCOMMIT + "|" + NOTIFY), small=30)
        p = g.search(call_to(NOTIFY), block=call_to(TXCOMMIT))
        c.ob("C03.after", f, p is None, "observers notified before the commit: %s" % fmt_path(p or []), key="before")
        p = g.search(call_to(NOTIFY), start=call_to(TXCOMMIT), block=succeeded(TXCOMMIT))
        c.ob("C03.after", f, p is None, "observers notified of a commit that may have failed: %s" % fmt_path(p or []), key="failed")
        p = g.search(ret_of(g), start=succeeded(TXCOMMIT), block=call_to(NOTIFY))
        c.ob("C03.after", f, p is None, "a committed transaction is not announced: %s" % fmt_path(p or []), key="silent")
        for ev in g.events(call_to(NOTIFY)):
            a = rset(g.T.operand(ev.frame, ev.data["a"][1]))
            c.ob("C03.what", ev, re.fullmatch(r"self\.tx_observer_watcher\.txes", a) is not None, "handed over: " + a)
            o = rset(g.T.operand(ev.frame, ev.data["a"][0]))
            c.ob("C03.what", ev, "self.tx_observer" in o, "told to: " + o, key="service")
        c.done(g)
    # watcher
    W = r"<mentat_db::tx_observer::InProgressObserverTransactWatcher as .*TransactWatcher>::"
    d, n = c.one("C03.gather", W + "datom"), c.one("C03.gather", W + "done")
    INS = r"alloc::collections::btree::set::BTreeSet::insert"
    if d:
        g = c.graph(d, fnpred(INS))
        evs = g.events(call_to(INS))
        p = g.search(ret_of(g), block=call_to(INS))
        c.ob("C03.gather", d, p is None and evs, "a datom can be observed without recording its attribute: %s" % fmt_path(p or []))
        for ev in evs:
            a = [rset(g.T.operand(ev.frame, x)) for x in ev.data["a"]]
            c.ob("C03.gather", ev, a[0] == "self.collected_attributes" and a[1] == d.body.name(4) or a[1] == "a", "records %s into %s" % (a[1], a[0]), key="datom:what")
        c.done(g)
    if n:
        IDX = r"indexmap::map::IndexMap::insert"
        g = c.graph(n, fnpred(IDX))
        p = g.search(ret_of(g), block=call_to(IDX))
        c.ob("C03.gather", n, p is None, "a transaction can finish without its attribute set being filed: %s" % fmt_path(p or []))
        for ev in g.events(call_to(IDX)):
            a = [rset(g.T.operand(ev.frame, x)) for x in ev.data["a"]]
            c.ob("C03.gather", ev, a[0] == "self.txes" and a[1] == (n.body.name(2) or "t") and "self.collected_attributes" in a[2],
                 "files %s under %s in %s" % (a[2], a[1], a[0]), key="done:what")
        took = any_of(call_to(r"core::mem::(take|replace|swap)"), call_to(r".*BTreeSet::(clear|split_off)"), field_write("InProgressObserverTransactWatcher", "collected_attributes"))
        p = g.search(ret_of(g), block=took)
        c.ob("C03.gather", n, p is None, "the accumulated attributes leak into the next transaction: %s" % fmt_path(p or []), key="done:reset")
        c.done(g)
    # the transactor's combined watcher passes on to both
    for m in ("datom", "done"):
        f = c.one("C03.gather", r"<mentat_db::.*InProgressTransactWatcher.* as .*TransactWatcher>::" + m) if False else None
    fs = [f for f in c.P.fns if f.name in ("datom", "done") and f.impl_of and "TransactWatcher" in str(f.impl_of) and "InProgressTransactWatcher" in str(f.self_ty)]
    c.floor("C03.gather", "the transaction's combined watcher", len(fs), 2)
    for f in fs:
        g = c.graph(f, None, small=0)
        for who in ("observer", "cache"):
            pat = r".*TransactWatcher::%s" % f.name
            hit = lambda ev: call_to(pat)(ev) and who in rset(g.T.operand(ev.frame, ev.data["a"][0]))
            p = g.search(lambda ev: ev.kind == "ret" and ev.frame is g.rootf and ev.tag != "Err", block=hit)
            c.ob("C03.gather", f, p is None, "the %s watcher is not told: %s" % (who, fmt_path(p or [])), key="both:%s:%s" % (f.name, who))
            for ev in g.events(hit):
                a = [rset(g.T.operand(ev.frame, x)) for x in ev.data["a"][1:]]
                want = [f.body.name(i) for i in range(2, f.body.argc + 1)]
                c.ob("C03.gather", ev, a == want, "passes (%s) on as (%s)" % (", ".join(map(str, want)), ", ".join(a)), key="same:%s:%s" % (f.name, who))
        c.done(g)
    # selection
    ap = c.one("C03.select", r"mentat_db::tx_observer::TxObserver::applicable_reports")
    if ap:
        g = c.graph(ap, None, small=30)
        DIS = r"alloc::collections::btree::set::BTreeSet::is_disjoint"
        evs = g.events(call_to(DIS))
        INT = r"alloc::collections::btree::set::BTreeSet::intersection|.*BTreeSet::contains"
        c.ob("C03.select", ap, bool(evs) or bool(g.events(call_to(INT))), "reports are not compared with the observer's attributes")
        for ev in evs:
            a = [rset(g.T.operand(ev.frame, x)) for x in ev.data["a"]]
            c.ob("C03.select", ev, any(x == "self.attributes" for x in a) and any("reports" in x for x in a), "compares %s with %s" % tuple(a), key="select:operands")
            # polarity: the filter keeps what is not disjoint
            rets = g.T.place(ev.frame, 0)
            txt = rset(rets)
            cl = ev.frame.fn
            if cl.kind == "closure" and cl.body.ty(0) == "bool":
                c.ob("C03.select", ev, re.match(r"Not\(BTreeSet::is_disjoint", txt) is not None, "a report is kept when " + txt, key="select:polarity")
        c.done(g)
    ex = [f for f in c.P.fns if f.name == "execute" and f.path.startswith("<mentat_db::tx_observer::TxCommand")]
    if c.floor("C03.select", "the command run by the worker", len(ex), 1):
        f = ex[0]
        c.see(f)
        NOT = r"mentat_db::tx_observer::TxObserver::notify|core::ops::function::Fn::call"
        g = c.graph(f, fnpred(NOT), small=30)
        g.T.opaque = lambda n: n.endswith("::applicable_reports")
        notempty = contradicts(r"^\w+::is_empty\(.*applicable_reports\(", "1")
        isnot = call_to(NOT)
        evs = g.events(isnot)
        c.floor("C03.select", "notification of an observer in execute", len(evs), 1)
        p = g.search(isnot, block=notempty)
        c.ob("C03.select", f, p is None, "an observer can be called without an applicable report: %s" % fmt_path(p or []), key="select:nonempty")
        for ev in evs:
            args = [rset(g.T.operand(ev.frame, x)) for x in ev.data["a"]]
            c.ob("C03.select", ev, any("self.observers" in a for a in args) or "self.observers" in rset(g.T.operand(ev.frame, ev.data["a"][0])), "notifies %s" % args[0], key="select:observers:" + ev.callee.split("::")[-1])
        NEXT = r"core::iter::traits::iterator::Iterator::next"
        some = lambda ev: outcome(ev, NEXT) is True
        back = call_to(NEXT)
        p = g.search(ret_of(g), start=notempty, block=back)
        c.ob("C03.select", f, p is None, "notification stops before every observer was considered: %s" % fmt_path(p or []), key="select:all")
        c.done(g)
