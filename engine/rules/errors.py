"""Failures are reported, never swallowed."""
import re
from ctx import *
from registry import rule
from rules.txn import COMMIT

RES = re.compile(r"(core|std)::result::Result<")
LOSSY = re.compile(r"core::result::Result::(ok|unwrap_or|unwrap_or_default|unwrap_or_else|or|or_else|map_or|map_or_else|iter|into_iter|is_ok_and|is_err_and|err)")
# the error of these is itself the answer to a question, not a failure of the operation
ASKS = re.compile(r"core::str::error::Utf8Error|ParseBigIntError|ParseIntError|ParseFloatError|Result<.*, alloc::rcs::(rc::Rc|arc::Arc)<|Result<alloc::.*, alloc::(rc|sync)|, \(\)>|mpsc::RecvError|TryFromIntError")
FALL = re.compile(r"rusqlite::|DbError|MentatError|AlgebrizerError|ProjectorError|PullError|SQLError|TolstoyError|io::error::Error|hyper::|serde_json::|http::|edn::ParseError|ParseError<|uuid::")

def reads(body):
    """Locals read (moved, copied, borrowed, switched on or returned) anywhere in the body."""
    out = {0}
    def rec(x, top=False):
        if isinstance(x, dict):
            for k, v in x.items():
                if k in ("c", "m", "p") and isinstance(v, list) and v and isinstance(v[0], int): out.add(v[0])
                else: rec(v)
        elif isinstance(x, list):
            for y in x: rec(y)
    for b in body.blocks:
        for st in b["s"]:
            rec(st[1])
            if len(st[0]) > 1: out.add(st[0][0])
        t = b["t"]
        if t["k"] == "call": rec(t["a"]); rec(t["f"])
        elif t["k"] == "switch": rec(t["o"])
        elif t["k"] not in ("drop", "goto", "ret"): rec({k: v for k, v in t.items() if k not in ("k", "t", "uw")})
    return out

@rule("X01")
def x01(c):
    c.rule("X01.propagate", "from the branch on which a step failed, no operation that can report failure reaches a successful return")
    c.rule("X01.discard", "no result of a fallible step is dropped unread or replaced by a default or by nothing")
    c.rule("X01.rows", "no row that could not be read is skipped by an iterator adaptor")
    c.rule("X01.foreign", "the foreign interface reports an error for every failed result and none for a successful one")
    edges = fns = calls = adapt = 0
    for f in c.P.fns:
        if f.path.startswith("mentat_db::debug") or "::tests::" in f.path: continue
        rt = f.body.ty(0)
        c.see(f)
        rd = None
        for i, t, k in f.body.calls():
            if k is None: continue
            n = callee_name(k)
            d = t.get("d")
            if d and len(d) == 1 and d[0] != 0 and RES.match(f.body.ty(d[0])) and not n.endswith("from_residual"):
                ty = f.body.ty(d[0])
                calls += 1
                if rd is None: rd = reads(f.body)
                if d[0] not in rd and FALL.search(ty) and t["t"] >= 0:
                    c.ob("X01.discard", f, False, "the result of %s is dropped" % n, key="drop:%s:%s" % (strip_generics(f.path), n))
            if LOSSY.fullmatch(n):
                p = op_place(t["a"][0])
                ty = f.body.ty(p.local) if p is not None and not p.proj else "?"
                if ASKS.search(ty) and not FALL.search(ty): continue
                if f.crate == "mentat_cli": continue
                adapt += 1
                # handing the error on after turning it is not losing it
                if n.endswith(("::err", "or_else", "map_or_else")) and (f.crate == "mentat_ffi" or "Result<" in f.body.ty(d[0])): continue
                c.ob("X01.discard", f, False, "%s on %s" % (n.split("::")[-1], ty[:80]), key="lossy:%s:%s" % (strip_generics(f.path), n.split("::")[-1]))
            # function values and adaptors over fallible rows
            for a in t["a"]:
                kk = a.get("k") if isinstance(a, dict) else None
                if kk and "fn" in kk and LOSSY.fullmatch(callee_name(kk)) and FALL.search(" ".join(map(str, kk.get("g", [])))):
                    c.ob("X01.rows", f, False, "%s given to %s" % (callee_name(kk), n), key="rows:%s" % strip_generics(f.path))
            if re.fullmatch(r"core::iter::.*Iterator::(flatten|map_while|take_while|skip_while)", n) and t["a"]:
                p = op_place(t["a"][0])
                ty = f.body.ty(p.local) if p is not None and not p.proj else "?"
                g_ = " ".join(map(str, k.get("g", [])))
                if re.search(r"rusqlite::row::|MappedRows|AndThenRows|Result<", ty) and n.endswith("flatten"):
                    c.ob("X01.rows", f, False, "flattens %s" % ty[:80], key="flatten:%s" % strip_generics(f.path))
        if "Result<" not in rt or not any(b["t"]["k"] == "switch" for b in f.body.blocks): continue
        g = c.graph(f, None, small=0)
        def err(ev):
            if ev.kind != "edge" or ev.data.get("k") != "switch" or ev.frame is not g.rootf: return False
            if ev.tag is not None: return ev.tag[2] in ("Err", "Break")
            return False
        def asked(ev):
            # is_err()/is_ok() asked of a failing step
            if ev.kind != "edge" or ev.frame is not g.rootf: return False
            return outcome(ev, r".*") is False and any(t[0] in ("call", "un") and re.search(r"::(is_err|is_ok)\(", rend(t)) for t in g.T.operand(ev.frame, ev.data["o"]))
        es = g.events(err)
        if es:
            fns += 1
            edges += len(es)
            q = g.search(ret_of(g, "Ok"), start=err)
            c.ob("X01.propagate", f, q is None, "succeeds although a step failed: %s" % fmt_path(q or []), key="swallow:" + strip_generics(f.path))
        es = g.events(asked)
        if es:
            edges += len(es)
            q = g.search(ret_of(g, "Ok"), start=asked)
            c.ob("X01.propagate", f, q is None or f.name == "conclude_transact", "succeeds although a step failed: %s" % fmt_path(q or []), key="asked:" + strip_generics(f.path))
        c.done(g)
    c.floor("X01.propagate", "branches on failed steps", edges, 400)
    c.floor("X01.discard", "fallible calls", calls, 500)
    # foreign interface
    tr = [f for f in c.P.fns if f.crate == "mentat_ffi" and re.fullmatch(r"translate_(void_|opt_)?result", f.name)]
    c.floor("X01.foreign", "result translators", len(tr), 3)
    for f in tr:
        g = c.graph(f, None, small=20)
        def told(ev):
            return ev.kind == "stmt" and any(x.startswith(".message@") or x.startswith(".") and "ExternError" in x for x in ev.data[0][1:]) or ev.kind == "stmt" and ev.data[0][1:2] == ["*"] and f.body.ty(ev.data[0][0]).endswith("ExternError")
        val = lambda ev: {rend(t) for t in g.T.rvalue(ev.frame, ev.data[1], (), 0)}
        null = lambda v: re.search(r"ptr::null", v) is not None
        msg = lambda ev: told(ev) and bool(val(ev)) and not any(null(v) for v in val(ev))
        clr = lambda ev: told(ev) and bool(val(ev)) and all(null(v) for v in val(ev))
        ok, bad = contradicts(r"^result$", "Ok"), contradicts(r"^result$", "Err")
        q = g.search(msg, block=ok)
        c.ob("X01.foreign", f, q is None, "sets a message for a success: %s" % fmt_path(q or []), key="ok:" + f.name)
        q = g.search(ret_of(g), block=any_of(ok, clr))
        c.ob("X01.foreign", f, q is None, "does not clear the message on success", key="clear:" + f.name)
        q = g.search(ret_of(g), block=any_of(bad, msg))
        c.ob("X01.foreign", f, q is None, "sets no message for a failure: %s" % fmt_path(q or []), key="err:" + f.name)
        q = g.search(clr, start=msg)
        c.ob("X01.foreign", f, q is None, "clears the message of a failure", key="keep:" + f.name)
        if f.body.ty(0) != "()":
            vs = {rend(t) for t in under(g, {r"^result$": "Err"}).place(g.rootf, 0, ())}
            c.ob("X01.foreign", f, bool(vs) and all(null(v) for v in vs), "returns %s for a failure" % sorted(vs), key="ret:" + f.name)
        c.done(g)

LOCK = r"std::sync::poison::(mutex::Mutex|rwlock::RwLock)::(lock|try_lock|read|write)"

@rule("D01", "guards are released where their drop runs")
def d01(c):
    c.rule("D01.order", "the order in which locks are taken while others are held has no cycle, and no lock is taken while it is already held")
    c.rule("D01.callback", "observers' callbacks run without any of the store's locks held")
    def lockty(f, t):
        p = op_place(t["a"][0])
        ty = f.body.ty(p.local) if p is not None else "?"
        m = re.search(r"(Mutex|RwLock)<(.*)>", ty)
        return strip_generics(m.group(2)).split("::")[-1] if m else ty
    own = {}
    for f in c.P.fns:
        if f.path.startswith("mentat_db::debug"): continue
        s = {lockty(f, t) for i, t, k in f.body.calls() if k is not None and re.fullmatch(LOCK, callee_name(k))}
        if s: own[f.h] = s
    c.floor("D01.order", "functions that take a lock", len(own), 8)
    fw = c.P.callgraph()[0]
    away = set()         # closures that run on a thread of their own
    for f in c.P.fns:
        for i, t, k in f.body.calls():
            if k is None or not re.fullmatch(r"std::thread::.*spawn.*", callee_name(k)): continue
            ls = {op_place(a).local for a in t["a"] if op_place(a) is not None}
            for b in f.body.blocks:
                for st in b["s"]:
                    if st[1]["r"] == "agg" and st[1]["k"] == "closure" and (st[0][0] in ls or f.body.ty(st[0][0]) in {f.body.ty(l) for l in ls}): away.add(st[1]["h"])
    fw = {h: {x for x in xs if x not in away} for h, xs in fw.items()}
    reach = {}
    def may(h):
        if h in reach: return reach[h]
        out, seen, st = set(), {h}, [h]
        while st:
            x = st.pop()
            out |= own.get(x, set())
            for y in fw.get(x, ()):
                if y not in seen: seen.add(y); st.append(y)
        reach[h] = out
        return out
    order = {}
    obs = {f.h for f in c.P.fns if f.crate == "mentat_db" and f.name in ("notify",) and "TxObserver" in f.path}
    c.floor("D01.callback", "places that call an observer", len(obs), 1)
    notifies = lambda h: bool(c.P.by_h) and any(x in obs for x in closure(h))
    cl = {}
    def closure(h):
        if h in cl: return cl[h]
        seen, st = {h}, [h]
        while st:
            for y in fw.get(st.pop(), ()):
                if y not in seen: seen.add(y); st.append(y)
        cl[h] = seen
        return seen
    for h in sorted(own):
        f = c.P.by_h[h]
        r = c.P.root_of(f)
        g = c.graph(r, lambda fn, i, t, k: k is not None and re.fullmatch(LOCK, callee_name(k)) is not None, small=0)
        for ty in sorted(own[h]):
            lock = lambda ev: ev.kind == "call" and ev.frame.fn.h == h and re.fullmatch(LOCK, ev.callee) is not None and lockty(ev.frame.fn, ev.data) == ty
            def unlock(ev):
                if ev.kind == "drop":
                    return "Guard<" in ev.frame.body.ty(ev.data["p"][0]) and ty in ev.frame.body.ty(ev.data["p"][0]) and len(ev.data["p"]) == 1
                if ev.kind == "call" and ev.callee.endswith("mem::drop"):
                    return any(op_place(a) and "Guard" in ev.frame.body.ty(op_place(a).local) and ty in ev.frame.body.ty(op_place(a).local) for a in ev.data["a"])
                return False
            def under_lock(ev):
                if ev.kind != "call" or ev.k is None: return False
                if re.fullmatch(LOCK, ev.callee): return True
                return any(may(x.h) or any(o in closure(x.h) for o in obs) for x in c.P.targets(ev.k))
            for ev in g.events(under_lock, start=lock, block=unlock):
                if re.fullmatch(LOCK, ev.callee): ts = {lockty(ev.frame.fn, ev.data)}
                else:
                    ts = set()
                    for x in c.P.targets(ev.k): ts |= may(x.h)
                    if any(o in closure(x.h) for x in c.P.targets(ev.k) for o in obs):
                        c.ob("D01.callback", ev, False, "an observer may be called while %s is locked" % ty, key="callback:%s:%s" % (strip_generics(r.path), ty))
                for y in ts: order.setdefault((ty, y), ev)
            c.ob("D01.order", f, True, "locks %s" % ty, key="lock:%s:%s" % (strip_generics(f.path), ty))
        c.done(g)
    c.ob("D01.callback", "%d lock holders" % len(own), True, "callbacks looked for under %d locks" % len({t for s in own.values() for t in s}))
    for (a, b), ev in sorted(order.items(), key=lambda x: x[0]):
        seen, st = {b}, [b]
        while st:
            x = st.pop()
            for (p, q) in order:
                if p == x and q not in seen: seen.add(q); st.append(q)
        c.ob("D01.order", ev, a not in seen, "%s is taken while %s is held%s" % (b, a, "" if a not in seen else ", and the other way round"), key="order:%s:%s" % (a, b))
