"""What a transaction says: its checks, its terms, and the ids its tempids stand for."""
import re
from ctx import *
from model import op_place
from registry import rule
from rules.cache import within, answers, argis, each
from rules.idents import loops
from rules.schema import under_blk
from rules.txn import transactors

DB = "mentat_db"
TRIE = r"AddAndRetract"
LK = r"(\.0)?"

def dbfns(c): return [f for f in c.P.fns if f.kind != "closure" and f.body is not None and f.crate == DB and not re.search(r"::(tests?|debug)::", f.path)]

def into(g, ev):
    """The field (or None, for a local) that the receiver of a push, insert or extend is."""
    fr, o = ev.frame, ev.data["a"][0]
    for _ in range(12):
        p = op_place(o)
        if p is None: return None
        for x in reversed(p.proj):
            if str(x).startswith("."): return str(x)[1:].split("@")[0]
        ds = fr.body.defs().get(p.local, [])
        if not ds:
            if fr.parent is None or not 0 < p.local <= fr.body.argc: return None
            t = fr.parent.body.blocks[fr.block]["t"]
            if fr.how.startswith("closure") or len(t["a"]) < p.local: return None
            o, fr = t["a"][p.local - 1], fr.parent
            continue
        if len(ds) != 1 or ds[0][1] < 0: return None
        r = ds[0][2][1]
        if r["r"] == "ref": o = {"c": r["p"]}
        elif r["r"] in ("use", "cast"): o = r["o"]
        else: return None
    return None

GROW = r"::(push|insert|push_back|push_front|extend)$"
def grows(ev): return ev.kind == "call" and re.search(GROW, ev.callee) is not None and len(ev.data["a"]) >= 2

def table(c, rule, f, g, src, cases, owner=None):
    """For each (name, edges that contradict the case, {(field, value regex)}): in each iteration over `src` in that
    case, one of these grows, and nothing else does."""
    ls = loops(g, src)
    c.ob(rule, f, bool(ls), "nothing goes over %s" % src, key="each:" + src)
    done = ret_of(g)
    ends = any_of(*[n for _, n in ls.values()]) if ls else None
    if ls:
        q = g.search(lambda ev: done(ev) and ev.tag != "Err", block=ends)
        c.ob(rule, f, q is None, "may end before all of %s on %s" % (src, fmt_path(q or [])), key="all:" + src)
    for name, given, want in cases:
        blk = any_of(*given) if given else None
        T = within(g, *given) if given else g.T
        def good(ev):
            if not grows(ev): return False
            n, v = into(g, ev), rset(T.operand(ev.frame, ev.data["a"][1]))
            return any((w is None or n == w) and re.fullmatch(x, v) is not None for w, x in want)
        for some, none in ls.values():
            q = g.search(any_of(some, none, lambda ev: done(ev) and ev.tag != "Err"), start=some, block=good, given=blk)
            c.ob(rule, f, q is None, "%s: nothing becomes of it on %s" % (name, fmt_path(q or [])), key="does:%s:%s" % (src, name))
            other = [ev for ev in g.events(lambda ev: grows(ev) and not good(ev) and (owner is None or owner(g, ev)), block=any_of(*([blk] if blk else []), none), start=some)]
            c.ob(rule, other[0] if other else f, not other, "%s: grows %s by %s" % (name, into(g, other[0]) if other else "", rset(T.operand(other[0].frame, other[0].data["a"][1]))[:200] if other else ""), key="only:%s:%s" % (src, name))

def nest(c, rule, f, g, srcs, op, given, key, why, done=None):
    """Every element at the innermost of the nested collections `srcs` (each a regex of an element) is met by `op`."""
    lv = [s(g) if callable(s) else loops(g, s) for s in srcs]
    for s, l in zip(srcs, lv): c.ob(rule, f, bool(l), "nothing goes over %s" % (s if isinstance(s, str) else "the values"), key=key + ":loop")
    if not all(lv): return
    done = done or ret_of(g)
    nones = [any_of(*[n for _, n in l.values()]) for l in lv]
    somes = [any_of(*[s for s, _ in l.values()]) for l in lv]
    for i in range(len(lv)):
        goal = any_of(somes[i], nones[i], done)
        blk = op if i == len(lv) - 1 else any_of(nones[i + 1], empty_edge(srcs[i + 1].replace(r"\[\]$", "")) if isinstance(srcs[i + 1], str) else nothing)
        q = g.search(goal, start=somes[i], block=blk, given=given)
        c.ob(rule, f, q is None, "%s on %s" % (why, fmt_path(q or [])), key="%s:%d" % (key, i))
    q = g.search(done, block=nones[0], given=given)
    c.ob(rule, f, q is None, "%s: stops early on %s" % (why, fmt_path(q or [])), key=key + ":all")

def nothing(ev): return False

def values(pat):
    """Loops over a collection some of which is ~pat (with `add` and `retract` told apart)."""
    def f(g):
        out = {}
        for ev in g.events(lambda e: e.kind == "edge" and e.tag is not None and e.tag[2] == "Some" and str(e.tag[1]).endswith("option::Option")):
            ts = [rend(t[1]) if t[0] == "discr" else rend(t) for t in g.T.operand(ev.frame, ev.data["o"])]
            if any(re.search(pat, t) for t in ts) and not leaves_out(ev):
                k = (ev.frame.id, ev.block)
                edge = lambda v: lambda e, k=k: e.kind == "edge" and (e.frame.id, e.block) == k and e.tag is not None and e.tag[2] == v
                out[k] = (edge("Some"), edge("None"))
        return out
    return f

def checkers(c): return [f for f in dbfns(c) if f.body.argc == 1 and re.match(r"&", f.body.ty(1)) and not re.match(r"&('\w+ )?mut ", f.body.ty(1)) and re.search(TRIE, f.body.ty(1)) and re.match(r"(std|alloc)?.*(Map|Vec|Set)\b", f.body.ty(0))]
def fillers(c): return [f for f in dbfns(c) if any(re.match(r"&('\w+ )?mut ", f.body.ty(i)) and re.search(TRIE + r">>", f.body.ty(i)) for i in range(1, f.body.argc + 1))]
def makers_(c): return [f for f in dbfns(c) if re.search(TRIE + r">>", f.body.ty(0)) and not re.match(r"&", f.body.ty(0))]

# ---- T02 ---------------------------------------------------------------------------------------
def not_rel(l, r, *rels):
    """Edges on which `l R r` holds for some R outside `rels` only."""
    def p(ev):
        x = relation(ev, l, r)
        return x is not None and x not in rels
    return p

E1 = r"\[\]"
def elem(base): return r"(\w+::(iter|into_iter|chain|union|cloned|copied|iter_mut)\()*[^{}|]*%s[^{}|]*%s" % (base, E1)

@rule("T02")
def t02_checked(c):
    c.rule("T02.types", "every value asserted or retracted that isn't of its attribute's type is an error, and nothing else is")
    c.rule("T02.cardinality", "two values asserted for one entity's cardinality-one attribute, or a value both asserted and retracted, are an error, and nothing else is")
    c.rule("T02.before", "nothing of a transaction is written before all of it passed both checks")
    cs = checkers(c)
    c.floor("T02.types", "checks of a transaction's assertions and retractions", len(cs), 2)
    found = set()
    for f in cs:
        g = c.graph(f, None, small=0, keep=True, extra=lambda fn: fn.crate == DB and fn.name not in ("value_type", "require_attribute_for_entid"))
        g.T.opaque = lambda n: n.endswith("::value_type")
        p = f.body.name(1)
        tri, evs = r"%s\[\]" % p, r"%s\[\]\.1\[\]" % p
        ars = r"%s\[\]\.1\[\]\.1\." % p
        vt = g.events(call_to(r".*TypedValue::value_type"))
        grow = lambda ev: grows(ev)
        if vt:
            found.add("types")
            for k in ("add", "retract"):
                VT, AT = r"value_type\(.*", r"^%s\.0\.1\.value_type$" % tri
                eq = not_rel(AT, VT, "Ne")
                one = values(r"%s%s\)?\[\]$" % (ars, k))
                nest(c, "T02.types", f, g, [tri, evs, one], grow, eq, "each:" + k, "a value of the wrong type passes")
            q = g.search(grow, block=not_rel(AT, VT, "Ne") if False else (lambda ev: relation(ev, AT, VT) == "Ne"))
            c.ob("T02.types", f, q is None, "a value of the right type is an error on %s" % fmt_path(q or []), key="right")
        M = r"%s\.0\.1\.multival$" % tri
        LEN = r"::len\(%sadd\)" % ars
        one_ = lambda ev: ev.kind == "call" and grows(ev) and "AddConflict" in rset(g.T.operand(ev.frame, ev.data["a"][1]))
        both = lambda ev: ev.kind == "call" and grows(ev) and "RetractConflict" in rset(g.T.operand(ev.frame, ev.data["a"][1]))
        if g.events(one_) or g.events(both):
            found.add("cardinality")
            few = lambda ev: relation(ev, LEN, r"^1$") in ("Le", "Lt", "Eq") or relation(ev, LEN, r"^2$") == "Lt" or relation(ev, LEN, r"^0$") == "Eq" or empty_edge(ars + "add")(ev)
            nest(c, "T02.cardinality", f, g, [tri, evs], one_, any_of(contradicts(M, "0"), few), "one", "several values for a cardinality-one attribute pass")
            q = g.search(one_, block=contradicts(M, "1"), given=None)
            # with cardinality many nothing is in conflict; nor is a single value
            c.ob("T02.cardinality", f, q is None or not g.events(one_, block=contradicts(M, "1")), "values of a cardinality-many attribute are an error on %s" % fmt_path(q or []), key="many")
            more = lambda ev: relation(ev, LEN, r"^1$") in ("Gt", "Ge", "Ne") and relation(ev, LEN, r"^1$") != "Ge" or relation(ev, LEN, r"^2$") == "Ge"
            q = g.search(one_, block=more)
            c.ob("T02.cardinality", f, q is None, "one value is an error on %s" % fmt_path(q or []), key="single")
            IX = r"intersection\((%sretract, %sadd|%sadd, %sretract)\)" % ((ars,) * 4)
            DJ = r"is_disjoint\((%sretract, %sadd|%sadd, %sretract)\)" % ((ars,) * 4)
            disj = any_of(empty_edge(IX), contradicts(DJ, "0"))
            nest(c, "T02.cardinality", f, g, [tri, evs], both, disj, "both", "a value both asserted and retracted passes")
            meet = lambda ev: not disj(ev) and (contradicts(r"is_empty\(.*" + IX + r"\)$", "1")(ev) or contradicts(DJ, "1")(ev) or relation(ev, r"::(len|count)\(.*" + IX, r"^0$") in ("Ne", "Gt"))
            q = g.search(both, block=meet)
            c.ob("T02.cardinality", f, q is None, "a value not both asserted and retracted is an error on %s" % fmt_path(q or []), key="apart")
        c.done(g)
    c.floor("T02.types", "check of types", int("types" in found), 1)
    c.floor("T02.cardinality", "check of cardinality", int("cardinality" in found), 1)
    inner = roots(c)
    for f in inner:
        g = opened(c, f)
        write = call_to(r".*::(insert_(non_)?fts_searches|materialize_mentat_transaction|commit_mentat_transaction)")
        c.ob("T02.before", f, bool(g.events(write)), "nothing is written", key="writes")
        for k in cs:
            C_ = r"%s\(%s\)" % (re.escape("::".join(strip_generics(k.path).split("::")[-2:])), TR)
            q = g.search(write, block=empty_edge(C_))
            c.ob("T02.before", f, q is None, "writes what %s rejects or hasn't seen on %s" % (k.name, fmt_path(q or [])), key="before:" + k.name)
            more = lambda ev: ev.kind == "call" and any(t.h in {x.h for x in fillers(c) if not now_(c, x)} for t in (c.P.targets(ev.data["f"]["k"]) if ev.data["f"].get("k") else ()))
            q = g.search(more, start=call_to(re.escape(strip_generics(k.path))))
            c.ob("T02.before", f, q is None, "adds to a transaction already checked on %s" % fmt_path(q or []), key="after:" + k.name)
        c.done(g)

TR = r"(\w+::)?\w+\(\)"
def roots(c):
    """Functions that check a transaction's terms and write them."""
    hs = {f.h for f in checkers(c)}
    back = c.P.callgraph()[1]
    rs = {c.P.root_of(c.P.by_h[h]) for k in hs for h in back.get(k, ())}
    return sorted([f for f in rs if f.h not in hs and f.body is not None and f.crate == DB and not re.search(r"::(tests?|debug)::", f.path)], key=lambda f: f.path)

def now_(c, f):
    """Does it record the transaction's instant?"""
    return re.search(r"DateTime<", f.body.ty(0)) is not None

def opened(c, f):
    shut = {x.h for x in checkers(c) + fillers(c) + makers_(c)}
    g = c.graph(f, None, small=0, keep=True, extra=lambda fn: fn.crate == DB and fn.h not in shut and (fn.kind == "closure" or len([b for b in fn.body.blocks if not b.get("cl")]) <= 45) and not re.search(r"upsert_resolution|MentatStoring|::db::|TransactWatcher|::cache::", fn.path))
    mk = {"::".join(strip_generics(x.path).split("::")[-2:]) for x in makers_(c)}
    ks = {"::".join(strip_generics(x.path).split("::")[-2:]) for x in checkers(c) + fillers(c)}
    tail = lambda n: "::".join(n.split("::")[-2:])
    g.T.opaque = lambda n: tail(n) in mk | ks or re.search(r"upsert_resolution|resolve_temp_id", n) is not None
    g.T.blank = lambda n: tail(n) in mk
    return g

@rule("T02")
def t02_trie(c):
    c.rule("T02.collected", "each term is collected as an assertion or retraction of its own value under its own entity and attribute")
    c.rule("T02.all", "the terms that named no tempid, that resolved, and that were allocated are all collected")
    fs = [f for f in fillers(c) if not now_(c, f)]
    c.floor("T02.collected", "functions that collect terms", len(fs), 1)
    for f in fs:
        g = c.graph(f, None, small=0, keep=True, extra=lambda fn: fn.crate == DB and fn.name != "require_attribute_for_entid")
        g.T.opaque = lambda n: n.endswith("require_attribute_for_entid")
        t, s, tr = (next((f.body.name(i) for i in range(1, f.body.argc + 1) if re.search(p, f.body.ty(i))), "?") for p in (r"^[A-Z]\w*$|IntoIter", r"Schema$", TRIE))
        at = r"\w+::require_attribute_for_entid\(%s, %s\[\]\.2\)" % (s, t)
        cell = r"Entry::or_(insert_with|default|insert)\(BTreeMap::entry\(Entry::or_(insert_with|default|insert)\(BTreeMap::entry\(%s, tuple\{0: %s\[\]\.2, 1: %s\}\).*\), %s\[\]\.1\.0\).*" % (tr, t, at, t)
        loopsrc = r"%s\[\]" % t
        ls = loops(g, loopsrc)
        c.ob("T02.collected", f, bool(ls), "nothing goes over the terms", key="each")
        if not ls: continue
        some, none = any_of(*[s_ for s_, _ in ls.values()]), any_of(*[n for _, n in ls.values()])
        ok = ret_of(g, "Ok")
        for op, fld in (("Add", "add"), ("Retract", "retract")):
            giv = contradicts(r"^%s\[\]\.0$" % t, op)
            good = lambda ev: grows(ev) and into(g, ev) == fld and (lambda a: re.match(cell, a[0]) is not None and a[1] == t + "[].3")(args_of(g, ev))
            q = g.search(any_of(some, none, ok), start=some, block=good, given=giv)
            c.ob("T02.collected", f, q is None, "a term to %s isn't collected on %s" % (op, fmt_path(q or [])), key="does:" + op)
            bad = [ev for ev in g.events(lambda ev: grows(ev) and into(g, ev) in ("add", "retract") and not good(ev), block=giv, start=some)]
            c.ob("T02.collected", bad[0] if bad else f, not bad, "a term to %s is collected as %s" % (op, args_of(g, bad[0])[1] if bad else ""), key="only:" + op)
        q = g.search(ok, block=none)
        c.ob("T02.collected", f, q is None, "stops before the last term on %s" % fmt_path(q or []), key="all")
        c.done(g)
    ms = makers_(c)
    c.floor("T02.all", "functions that make the collection", len(ms), 1)
    hs = {f.h for f in fs}
    for f in ms:
        g = c.graph(f, None, small=0, keep=True, extra=lambda fn: fn.crate == DB and fn.h not in hs)
        fin = next((f.body.name(i) for i in range(1, f.body.argc + 1) if re.search(r"FinalPopulations", f.body.ty(i))), "?")
        ine = next((f.body.name(i) for i in range(1, f.body.argc + 1) if re.search(r"Vec<.*Term<", f.body.ty(i))), "?")
        calls = [ev for ev in g.events(lambda ev: ev.kind == "call" and ev.data["f"].get("k") is not None and any(x.h in hs for x in g.P.targets(ev.data["f"]["k"])))]
        for want in (r"%s\.resolved" % fin, r"%s\.allocated" % fin, r"(%s|\[Term::AddOrRetract\{0: %s\[\]\.0, 1: %s\[\]\.1(\.0)?, 2: %s\[\]\.2, 3: %s\[\]\.3(\.0)?\}\])" % ((ine,) * 5)):
            some_ = lambda ev: any(is_ev(x)(ev) for x in calls) and any(re.search(r"(?<![\w.])(%s)(?!\w)" % want, a) for a in args_of(g, ev))
            q = g.search(ret_of(g, "Ok"), block=some_)
            c.ob("T02.all", f, q is None, "%s are left out on %s" % (want.split("|")[0].replace("\\", ""), fmt_path(q or [])), key="all:" + re.sub(r"\W", "", want.split("|")[0]))
        bad = [ev for ev in calls if leaves_out_call(g, ev)]
        c.ob("T02.all", bad[0] if bad else f, not bad, "some terms are left out", key="whole")
        c.done(g)
    for f in roots(c):
        g = opened(c, f)
        mk = {"::".join(strip_generics(x.path).split("::")[-2:]) for x in ms}
        for ev in g.events(lambda ev: ev.kind == "call" and "::".join(strip_generics(ev.callee).split("::")[-2:]) in mk):
            a = args_of(g, ev)
            c.ob("T02.all", ev, any(re.match(r"(\w+::)?into_final_populations\(", x) for x in a) and any(re.fullmatch(r"(\w+::)?from\(\w+, self\.schema\)\.1", x) for x in a), "the terms collected aren't those the transaction's came to", key="populations")
        c.done(g)

def leaves_out_call(g, ev):
    return ev.kind == "call" and any(re.search(LEAVES, x) for a in ev.data["a"] for x in whole(g, ev.frame, a))

@rule("T02")
def t02_queue(c):
    c.rule("T02.queued", "every assertion and retraction collected is queued to be written as itself")
    c.rule("T02.instant", "the transaction's instant is the one asserted of it, or else the present")
    for f in roots(c):
        g = opened(c, f)
        tr, evs = TR + r"\[\]", TR + r"\[\]\.1\[\]"
        for k, added in (("add", "1"), ("retract", "0")):
            one = values(r"%s\[\]\.1\[\]\.1\.%s(\[\]|\)\[\]|\[\]\})" % (TR, k))
            mine = lambda ev, k=k, added=added: ev.kind == "call" and ev.callee.endswith("::push") and (lambda a: re.search(r"tuple\{0: %s\[\]\.1\[\]\.0, 1: %s\[\]\.0\.0, 2: %s\[\]\.0\.1, 3: .*%s\[\]\.1\[\]\.1\.%s\[\].*, 4: .*\}$" % (TR, TR, TR, TR, k), a[1]) is not None)(args_of(g, ev))
            nest(c, "T02.queued", f, g, [tr, evs, one], mine, None, "each:" + k, "what's collected to %s isn't queued" % k, done=any_of(ret_of(g, "Ok"), call_to(r".*::(insert_(non_)?fts_searches|materialize_mentat_transaction)")))
        for ev in g.events(lambda ev: ev.kind == "call" and ev.callee.endswith("::push")):
            a = args_of(g, ev)[1]
            m = re.match(r"tuple\{0: (?P<e>.*), 1: (?P<a>.*), 2: (?P<at>.*), 3: (?P<v>.*), 4: (?P<x>.*)\}$", a)
            if not m or TR_SEARCH.search(a) is None: continue
            v, x = m.group("v"), m.group("x")
            if "|" in v:
                # both kinds at once: the flag travels with the value it was taken with
                pairs = pair_terms(g, ev)
                c.ob("T02.queued", ev, pairs == {("add", "1"), ("retract", "0")}, "values are queued with flags %s" % sorted(pairs), key="flag")
            else:
                k = "add" if re.search(r"\.add\[\]", v) else "retract"
                c.ob("T02.queued", ev, x == ("1" if k == "add" else "0"), "what's collected to %s is queued with flag %s" % (k, x), key="flag:" + k)
        # and every queue that got something is written before the transaction is
        put = any_of(*[is_ev(ev) for ev in g.events(lambda ev: ev.kind == "call" and ev.callee.endswith("::push")) if TR_SEARCH.search(args_of(g, ev)[1]) is not None])
        qs = set()
        for ev in g.events(put): qs |= lists(g, ev.frame, ev.data["a"][0])
        c.floor("T02.queued", "queues of what's collected", len(qs), 1)
        for q_ in sorted(qs):
            taken = lambda ev, q_=q_: ev.kind == "stmt" and ev.frame.id == q_[0] and ev.data[1]["r"] == "ref" and ev.data[1]["mut"] and ev.data[1]["p"] == [q_[1]] or ev.kind == "call" and put(ev) and lists(g, ev.frame, ev.data["a"][0]) == {q_}
            sites = g.events(lambda ev, q_=q_: ev.kind == "call" and re.search(r"::(is_empty|len)$", ev.callee) is not None and lists(g, ev.frame, ev.data["a"][0]) == {q_})
            empty = lambda ev, sites=sites: ev.kind == "edge" and tests(g, ev, sites) == "1"
            written = lambda ev, q_=q_: ev.kind == "call" and re.search(r"::insert_(non_)?fts_searches$", ev.callee) is not None and any(q_ in lists(g, ev.frame, a) for a in ev.data["a"])
            q = g.search(any_of(ret_of(g, "Ok"), call_to(r".*::materialize_mentat_transaction")), start=[taken, put], block=written, given=empty, late=True)
            c.ob("T02.queued", f, q is None, "what's queued isn't written on %s" % fmt_path(q or []), key="written:%s" % (g.rootf.body.name(q_[1]) if q_[0] == g.rootf.id else "queue"))
        # the instant
        its = [x for x in fillers(c) if now_(c, x)]
        c.floor("T02.instant", "functions that record the instant", len(its), 1)
        nm = "|".join(re.escape(strip_generics(x.path)) for x in its)
        write = call_to(r".*::(insert_(non_)?fts_searches)")
        q = g.search(write, block=succeeded(nm))
        c.ob("T02.instant", f, q is None, "a transaction is written without its instant on %s" % fmt_path(q or []), key="before")
        for ev in g.events(call_to(nm)):
            a = args_of(g, ev)
            c.ob("T02.instant", ev, any(re.fullmatch(TR, x) for x in a) and "self.tx_id" in a, "the instant is recorded of %s" % a, key="tx")
        # reported as recorded
        for ev in g.events(ret_of(g, "Ok")):
            rs = {rend(x) for t in g.T.place(g.rootf, 0, ()) for x in walk(frozenset([t])) if x[0] == "agg" and str(x[1]).endswith("TxReport") for n, v in x[3] if n == "tx_instant" for x in v}
            c.ob("T02.instant", f, len(rs) == 1 and re.fullmatch(r"(\w+::)?(%s)\(.*\)" % "|".join(x.name for x in its), next(iter(rs))) is not None, "the report's instant is %s" % sorted(rs), key="report")
            break
        c.done(g)
    for f in [x for x in fillers(c) if now_(c, x)]:
        g = c.graph(f, None, small=0, keep=True, extra=lambda fn: fn.crate == DB and fn.name != "require_attribute_for_entid")
        g.T.opaque = lambda n: n.endswith(("require_attribute_for_entid", "::now")) 
        given = r"(BTreeSet::iter\(.*\)\[\]|BTreeSet::(first|iter)\(.*\))(\.0)*"
        no, yes = opt(r"^%s" % given, False), opt(r"^%s" % given, True)
        ins = lambda ev: ev.kind == "call" and ev.callee.endswith("::insert") and into(g, ev) in ("add", "retract")
        ie = g.events(ins)
        q = g.search(ret_of(g, "Ok"), block=lambda ev: ins(ev) and into(g, ev) == "add", given=no)
        c.ob("T02.instant", f, bool(ie) and q is None, "no instant is asserted when none is given on %s" % fmt_path(q or []), key="none")
        q = g.search(ins, given=yes)
        c.ob("T02.instant", f, q is None, "an instant is asserted although one is given on %s" % fmt_path(q or []), key="given")
        for ev in ie:
            a = args_of(g, ev)
            c.ob("T02.instant", ev, re.match(r"Entry::or_.*BTreeMap::entry\(.*tuple\{0: 3, 1: .*\}.*\), tx_id\)", a[0]) is not None and re.fullmatch(r"(TypedValue::Instant\{0: |\w+::(into|from)\()?\(?.*(now|with_timezone|Utc).*", a[1]) is not None and into(g, ev) == "add", "asserts %s of %s" % (a[1][:80], a[0][-80:]), key="asserted")
        T = within(g, yes)
        r1 = {rend(t) for t in T.place(g.rootf, 0, ()) if t != ("err",)}
        c.ob("T02.instant", f, bool(r1) and all(re.fullmatch(given, x) for x in r1), "with an instant given, %s is reported" % sorted(r1), key="says:given")
        T = within(g, no)
        r0 = {rend(t) for t in T.place(g.rootf, 0, ()) if t != ("err",)}
        put = {re.sub(r"^(TypedValue::Instant\{0: |\w+::(into|from)\()(.*)[})]$", r"\3", args_of(g, ev)[1]) for ev in ie}
        c.ob("T02.instant", f, r0 == put, "with none given, %s is asserted but %s is reported" % (sorted(put), sorted(r0)), key="says:none")
        c.done(g)

@rule("T02")
def t02_kept(c):
    c.rule("T02.kept", "a term put in another form still says the same")
    for f in dbfns(c):
        if f.kind == "closure" or f.body.argc != 1 or not re.match(r"[\w:]*internal_types::Term<", f.body.ty(1)) or not re.match(r"[\w:]*internal_types::Term<", f.body.ty(0)): continue
        g = c.graph(f, None, small=10, keep=True)
        me = f.body.name(1)
        rs = sorted({rend(t) for t in g.T.place(g.rootf, 0, ()) if t != ("err",)})
        c.ob("T02.kept", f, bool(rs) and all(re.fullmatch(r"Term::AddOrRetract\{0: %s\.0, 1: (Either::(Left|Right)\{0: )?%s\.1(\.0)?\}?, 2: %s\.2, 3: (Either::(Left|Right)\{0: )?%s\.3(\.0)?\}?\}|%s" % ((me,) * 5), x) for x in rs), "makes it %s" % rs)
        c.done(g)

def told(c, rule):
    """Every assertion and retraction that is queued is told to the transaction's watcher, as what it is."""
    c.rule(rule, "every assertion and retraction a transaction writes is told to its watcher as what it is, with its own entity, attribute and value")
    dat = call_to(r".*TransactWatcher::datom")
    for f in roots(c):
        g = opened(c, f)
        tr, evs = TR + r"\[\]", TR + r"\[\]\.1\[\]"
        it = r"%s\[\]\.1\[\]" % TR
        right = lambda a: len(a) == 5 and re.fullmatch(it + r"\.0", a[2]) is not None and re.fullmatch(TR + r"\[\]\.0\.0", a[3]) is not None
        n = 0
        for k, op in (("add", "Add"), ("retract", "Retract")):
            one = values(r"%s\.1\.%s(\[\]|\)\[\]|\[\]\})" % (it, k))
            mine = lambda ev, k=k: dat(ev) and (lambda a: right(a) and re.search(it + r"\.1\.%s\[\]" % k, a[4]) is not None)(args_of(g, ev))
            nest(c, rule, f, g, [tr, evs, one], mine, None, "each:" + k, "what's collected to %s isn't told" % k, done=any_of(ret_of(g, "Ok"), call_to(r".*::(insert_(non_)?fts_searches|materialize_mentat_transaction)")))
        put = {}
        for ev in g.events(lambda ev: ev.kind == "call" and ev.callee.endswith("::push")):
            if TR_SEARCH.search(args_of(g, ev)[1]) is not None: put.setdefault((ev.frame.id), []).append(ev)
        for ev in g.events(dat):
            n += 1
            a = args_of(g, ev)
            c.ob(rule, ev, right(a), "of (%s, %s) is told" % (a[2], a[3]), key="of")
            ops = set(re.findall(r"OpType::(\w+)", a[1]))
            ks = {m.group(m.re.groups) for m in re.finditer(it + r"\.1\.(add|retract)\[\]", a[4])}
            c.ob(rule, ev, bool(ops) and bool(ks) and re.sub(it + r"\.1\.(add|retract)\[\]", "", a[4]).strip("{}|") == "", "%s of %s is told" % (a[1], a[4]), key="value")
            if len(ks) == 1:
                c.ob(rule, ev, ops == {"Add" if ks == {"add"} else "Retract"}, "what's collected to %s is told as %s" % (sorted(ks), sorted(ops)), key="op")
                continue
            # one call for both: the operation follows the flag that the value came with
            flags = {h for e in put.get(ev.frame.id, ()) for h in [flag_of(g, e)] if h is not None}
            c.ob(rule, ev, len(flags) == 1, "%s is told whichever it is" % sorted(ops), key="both")
            if len(flags) != 1: continue
            fl = next(iter(flags))
            head = any_of(*[s for s, _ in values(r"%s\.1\.(add|retract)" % it)(g).values()])
            for op, v in (("Add", "1"), ("Retract", "0")):
                mk = lambda e, op=op: e.kind == "stmt" and e.data[1]["r"] == "agg" and any(t[0] == "agg" and str(t[1]).endswith("OpType") and t[2] == op for t in g.T.rvalue(e.frame, e.data[1], (), 0))
                is_ = lambda e, v=v: e.kind == "edge" and home(g, e.frame, e.data["o"]) == fl and str(e.tag[2]) == v
                if op not in ops: continue
                q = g.search(mk if len(ops) > 1 else is_ev(ev), start=head, block=any_of(is_, head))
                c.ob(rule, ev, q is None, "%s may be told of the other on %s" % (op, fmt_path(q or [])), key="op:" + op)
        c.floor(rule, "what is told to the watcher", n, 1)
        c.done(g)

def flag_of(g, ev):
    """The local that says whether what's pushed is asserted."""
    p = op_place(ev.data["a"][1])
    for _ in range(4):
        if p is None or p.proj: return None
        ds = ev.frame.body.defs().get(p.local, [])
        if len(ds) != 1 or ds[0][1] < 0: return None
        r = ds[0][2][1]
        if r["r"] == "agg": return home(g, ev.frame, r["a"][-1])
        if r["r"] not in ("use", "cast"): return None
        p = op_place(r["o"])
    return None

@rule("K01")
def k01_said(c): told(c, "K01.said")

@rule("C03")
def c03_said(c): told(c, "C03.said")

def lists(g, fr, o):
    """The vectors (frame, local) an operand may be or borrow from."""
    out, work, seen = set(), [(fr, op_place(o))], set()
    while work:
        fr, p = work.pop()
        if p is None or (fr.id, p.local) in seen: continue
        seen.add((fr.id, p.local))
        ty = fr.body.ty(p.local)
        if "Vec<" in ty and not ty.startswith("&"): out.add((fr.id, p.local)); continue
        ds = fr.body.defs().get(p.local, [])
        if not ds and fr.parent is not None and 0 < p.local <= fr.body.argc and not fr.how.startswith("closure"):
            t = fr.parent.body.blocks[fr.block]["t"]
            if len(t["a"]) >= p.local: work.append((fr.parent, op_place(t["a"][p.local - 1])))
        for bi, si, d in ds:
            if si >= 0:
                r = d[1]
                if r["r"] == "ref": work.append((fr, Place(r["p"])))
                elif r["r"] in ("use", "cast"): work.append((fr, op_place(r["o"])))
            elif isinstance(d, dict):
                for a in d["a"]: work.append((fr, op_place(a)))
    return out

TR_SEARCH = re.compile(r"\(\)\[\]\.1\[\]\.1\.(add|retract)")
def pair_terms(g, ev):
    """{(add|retract, flag)} of the (flag, value) pairs that are queued."""
    out = set()
    for e in g.events(lambda e: e.kind == "stmt" and e.data[1]["r"] == "agg"):
        for t in g.T.rvalue(e.frame, e.data[1], (), 0):
            if t[0] != "agg" or len(t[3]) != 2: continue
            d = dict(t[3])
            if set(d) != {"0", "1"}: continue
            fl, v = rset(d["0"]), rset(d["1"])
            m = re.search(r"\.1\[\]\.1\.(add|retract)\[\]$", v)
            if m and fl in ("0", "1"): out.add((m.group(1), fl))
    return out

# ---- what an entity says ------------------------------------------------------------------------
def sig(f, i): return f.body.ty(i)
def helpers(c):
    """The conversions of parts of entities to parts of terms, by what they take and give."""
    out = {}
    for f in dbfns(c):
        a = [sig(f, i) for i in range(1, f.body.argc + 1)]
        r = sig(f, 0)
        if not r.startswith("core::result::Result<"):
            if len(a) == 1 and re.search(r"EntityPlace<", r): out.setdefault("fresh", []).append(f)
            continue
        if len(a) == 2 and re.match(r"edn::entities::EntityPlace<", a[1]) and "Either<core_traits::KnownEntid" in r: out.setdefault("E", []).append(f)
        elif len(a) == 2 and re.match(r"edn::entities::EntityPlace<", a[1]) and "Either<core_traits::TypedValue" in r: out.setdefault("EV", []).append(f)
        elif len(a) == 3 and re.match(r"edn::entities::ValuePlace<", a[1]) and "Either<core_traits::KnownEntid" in r: out.setdefault("VE", []).append(f)
        elif len(a) == 2 and a[1] == "edn::entities::EntidOrIdent" and r.startswith("core::result::Result<i64"): out.setdefault("A", []).append(f)
        elif len(a) == 2 and re.search(r"entities::LookupRef<", a[1]): out.setdefault("LR", []).append(f)
        elif len(a) == 1 and re.search(r"^&mut .*Map<edn::entities::EntidOrIdent", a[0]) and "EntityPlace" in r: out.setdefault("ID", []).append(f)
    return out

def exploders(c):
    return [f for f in dbfns(c) if re.search(r"Vec<mentat_db::internal_types::Term<.*LookupRefOrTempId", f.body.ty(0)) and any(re.match(r"[A-Z]\w*$|.*IntoIter|.*Vec<.*Entity<", f.body.ty(i)) for i in range(1, f.body.argc + 1))]

SHUT = r"into_typed_value|as_tempid|require_attribute_for_entid|::require_entid|::intern|into_entity_place|::unreversed|contains_entid"
def tail2(x): return "::".join(strip_generics(x).split("::")[-2:])

def sgraph(c, f, *more):
    hs = helpers(c)
    shut = {x.h for k, l in hs.items() for x in l if k in more and x.h != f.h}
    g = c.graph(f, None, small=0, keep=True, extra=lambda fn: fn.crate == DB and fn.h not in shut and not re.search(SHUT, fn.path) and not fn.impl_of and (fn.kind == "closure" or len([b for b in fn.body.blocks if not b.get("cl")]) <= 60))
    names = {tail2(x.path): k for k, l in hs.items() for x in l}
    g.T.opaque = lambda n: re.search(SHUT + "$", n) is not None or (tail2(n) in names and names[tail2(n)] in more)
    def norm(s):
        s = re.sub(r"(\w+::)?InProcess\{[^{}]*(\{[^{}]*\}[^{}]*)*\}", "ST", s)
        s = re.sub(r"\bself\b(?=[,)])", "ST", s) if f.body.argc and f.body.name(1) == "self" else s
        for n, k in names.items():
            s = re.sub(r"\b%s\((ST(, )?|self(, )?)?" % re.escape(n), k + "(", s)
        s = re.sub(r"InternSet::InternSet\{[^{}]*\}|InternSet::(new|default)\(\)|self\.temp_ids|self\.lookup_refs|ST\.\w+|Default::default\(\)(?=, )", "SET", s)
        s = re.sub(r"\b(\w+::)?(TransactableValue|SchemaBuilding|InternSet|HasSchema|EntidOrIdent|ValueAndSpan|TypedValue)::(?=[a-z])", "", s)
        s = re.sub(r"Result::map\((.*), mentat_core::util::Either::Left\)", r"Either::Left{0: \1}", s)
        return s
    return g, norm

def vals(g, norm, T, what, given=()):
    return {norm(rend(t)) for t in what}

@rule("T02")
def t02_terms(c):
    c.rule("T02.terms", "each thing a transaction says becomes the assertion or retraction it names, with its own entity, attribute and value; a reversed attribute swaps entity and value; a vector means each of its elements; a map means each of its pairs")
    c.rule("T02.refused", "what can't be said is refused: a retracted or dangling nested map, a vector for a cardinality-one attribute, a map or lookup for an attribute that isn't a reference")
    fs = exploders(c)
    c.floor("T02.terms", "functions that turn entities into terms", len(fs), 1)
    hs = helpers(c)
    for k in ("E", "EV", "VE", "A", "ID", "fresh"): c.floor("T02.terms", "conversions " + k, len(hs.get(k, ())), 1)
    for f in fs:
        g, norm = sgraph(c, f, "E", "EV", "VE", "A", "LR", "ID", "fresh")
        XP = r"VecDeque::pop_(front|back)\([^()]*(\(\))?\)"
        X = r"^" + XP
        nrm = lambda s: norm(re.sub(XP, "X", s))
        rev = r"unreversed\(%s\.a\.0\)" % XP
        ls = {}
        for ev in g.events(lambda e: e.kind == "edge" and e.tag is not None and e.tag[2] == "Some"):
            ts = [rend(t[1]) if t[0] == "discr" else rend(t) for t in g.T.operand(ev.frame, ev.data["o"])]
            if ts and all(re.fullmatch(XP, t) for t in ts):
                k = (ev.frame.id, ev.block)
                ls[k] = tuple(lambda e, k=k, v=v: e.kind == "edge" and (e.frame.id, e.block) == k and e.tag is not None and e.tag[2] == v for v in ("Some", "None"))
        c.ob("T02.terms", f, bool(ls), "nothing goes over the entities", key="each")
        if not ls: continue
        some, none = any_of(*[s for s, _ in ls.values()]), any_of(*[n for _, n in ls.values()])
        ok = ret_of(g, "Ok")
        end = any_of(some, ok)
        q = g.search(ok, block=none)
        c.ob("T02.terms", f, q is None, "stops before the last entity on %s" % fmt_path(q or []), key="all")
        ent = [f.body.name(i) for i in range(1, f.body.argc + 1) if f.body.name(i) != "self"]
        q = g.search(any_of(some, none), block=lambda ev: grows(ev) and ev.callee.endswith("::extend") and args_of(g, ev)[1] in ent and not leaves_out_call(g, ev) or ev.kind == "call" and ev.callee.endswith(("::from_iter", "::collect", "::from")) and any(a in ent for a in args_of(g, ev)))
        c.ob("T02.terms", f, q is None, "not all entities are looked at on %s" % fmt_path(q or []), key="given")
        grow = lambda ev: grows(ev) and re.search(r"::push(_front|_back)?$", ev.callee) is not None
        ID = lambda m: r"(fresh\(\)|ID\(%s\)|\{fresh\(\)\|ID\(%s\)\})" % (m, m)
        attr = r"require_attribute_for_entid\(self\.schema, A\(X\.a\.0\)\)"
        tv = r"into_typed_value\(X\.v\.0, self\.schema, %s\.value_type\)" % attr
        ref = r"require_attribute_for_entid\(.*\)\.value_type$"
        tid = lambda x: r"Either::Right\{0: LookupRefOrTempId::TempId\{0: intern\(SET, %s\)\}\}" % x
        term = lambda op, e, a, v: r"Term::AddOrRetract\{0: %s, 1: %s, 2: %s, 3: %s\}" % (op, e, a, v)
        enty = lambda op, e, a, v: r"Entity::AddOrRetract\{op: %s, e: %s, a: AttributePlace::Entid\{0: %s\}, v: %s\}" % (op, e, a, v)
        aent = lambda a: r"(EntidOrIdent::Entid\{0: A\(%s\)\}|%s)" % (a, a)
        ADD = r"OpType::Add\{\}"
        m_, AR, fwd, back = choice(X, "Entity", "MapNotation"), choice(X, "Entity", "AddOrRetract"), opt(rev, False), opt(rev, True)
        isref = lambda y: (contradicts(ref, "Ref") if y else (lambda ev: relation(ev, ref, "^ValueType::Ref") == "Eq" or ev.kind == "edge" and variant_edge("ValueType", "Ref", ref)(ev)))
        many = contradicts(r"require_attribute_for_entid\(.*\)\.multival$", "1")
        V = lambda v: choice(X + r"\.v", "ValuePlace", v)
        fw = [AR, fwd]
        T1 = lambda v: term(r"X\.op", r"E\(X\.e\)", r"A\(X\.a\.0\)", v)
        plain = [
            ("reversed", [AR, back], {term(r"X\.op", r"VE\(X\.v, X\.a\.0\)", r"A\(unreversed\(X\.a\.0\)\)", r"EV\(X\.e\)")}),
            ("value", fw + [V("Atom"), isref(False)], {T1(r"Either::Left\{0: %s\}" % tv)}),
            ("tempid text", fw + [V("Atom"), isref(True), opt(r"as_tempid\(.*\)", True)], {T1(tid(r"as_tempid\(X\.v\.0\)"))}),
            ("reference", fw + [V("Atom"), isref(True), opt(r"as_tempid\(.*\)", False)], {T1(r"Either::Left\{0: %s\}" % tv)}),
            ("entid", fw + [V("Entid")], {T1(r"Either::Left\{0: TypedValue::Ref\{0: A\(X\.v\.0\)\}\}")}),
            ("tempid", fw + [V("TempId")], {T1(tid(r"X\.v\.0"))}),
            ("lookup", fw + [V("LookupRef")], {T1(r"Either::Right\{0: LookupRefOrTempId::LookupRef\{0: LR\(X\.v\.0\)\}\}")}),
            ("function", fw + [V("TxFunction")], {T1(r"Either::Left\{0: TypedValue::Ref\{0: self\.tx_id\}\}")}),
        ]
        def sinks(given):
            T = within(g, *given)
            return T, [(ev, nrm(rset(T.operand(ev.frame, ev.data["a"][1])))) for ev in g.events(grow, block=any_of(*given), start=some)]
        def nxt(given):
            pass
        for name, given, want in plain:
            T, ss = sinks(given)
            oks = [ev for ev, x in ss if any(re.fullmatch(w, x) for w in want)]
            good = any_of(*[is_ev(ev) for ev in oks]) if oks else nothing
            q = g.search(end, start=some, block=good, given=any_of(*given))
            c.ob("T02.terms", f, q is None, "%s: says nothing on %s" % (name, fmt_path(q or [])), key="does:" + name)
            bad = [(ev, x) for ev, x in ss if not any(re.fullmatch(w, x) for w in want)]
            bad = [(ev, x) for ev, x in bad if g.search(is_ev(ev), start=some, block=any_of(some, none), given=any_of(*given)) is not None]
            c.ob("T02.terms", bad[0][0] if bad else f, not bad, "%s: says %s" % (name, bad[0][1][:300] if bad else ""), key="only:" + name)
            twice = [ev for ev in oks if g.search(good, start=is_ev(ev), block=some, given=any_of(*given)) is not None]
            c.ob("T02.terms", f, not twice, "%s: said twice" % name, key="once:" + name)
        # nested: each element, and the whole
        inner = lambda pat: loops(g, pat)
        groups = [
            ("map", [m_], XP + r"\.0\[\]", [(None, enty(ADD, ID(r"X\.0"), r"X\.0\[\]\.0", r"X\.0\[\]\.1"))], None),
            ("vector", fw + [V("Vector"), many], XP + r"\.v\.0\[\]", [(None, enty(r"X\.op", r"X\.e", aent(r"X\.a\.0"), r"X\.v\.0\[\]"))], None),
            ("nested map", fw + [V("MapNotation"), isref(True), contradicts(X + r"\.op$", "Add")], XP + r"\.v\.0\[\]",
                [(opt(r"unreversed\(%s\.v\.0\[\]\.0\)" % XP, True), term(r"(%s|X\.op)" % ADD, r"VE\(X\.v\.0\[\]\.1, X\.v\.0\[\]\.0\)", r"A\(unreversed\(X\.v\.0\[\]\.0\)\)", r"EV\(%s\)" % ID(r"X\.v\.0"))),
                 (opt(r"unreversed\(%s\.v\.0\[\]\.0\)" % XP, False), enty(r"(%s|X\.op)" % ADD, ID(r"X\.v\.0"), aent(r"X\.v\.0\[\]\.0"), r"X\.v\.0\[\]\.1"))],
                term(r"(%s|X\.op)" % ADD, r"E\(X\.e\)", r"A\(X\.a\.0\)", r"EV\(%s\)" % ID(r"X\.v\.0"))),
        ]
        for name, given, src, parts, wholeterm in groups:
            il = loops(g, src)
            c.ob("T02.terms", f, bool(il), "%s: its parts aren't looked at" % name, key="each:" + name)
            if not il: continue
            isome, inone = any_of(*[s for s, _ in il.values()]), any_of(*[n for _, n in il.values()])
            q = g.search(end, start=some, block=inone, given=any_of(*given))
            c.ob("T02.terms", f, q is None, "%s: some parts aren't looked at on %s" % (name, fmt_path(q or [])), key="all:" + name)
            known = []
            for also, want in parts:
                gv = given + ([also] if also else [])
                T, ss = sinks(gv)
                oks = [ev for ev, x in ss if re.fullmatch(want, x)]
                known += oks
                q = g.search(any_of(isome, inone, end), start=isome, block=any_of(*[is_ev(ev) for ev in oks]) if oks else nothing, given=any_of(*gv))
                c.ob("T02.terms", f, q is None, "%s: a part says nothing on %s" % (name, fmt_path(q or [])), key="does:%s:%s" % (name, "reversed" if also is parts[0][0] and also else "forward"))
                for ev, x in ss:
                    if ev in oks or re.fullmatch(wholeterm or "$.", x): continue
                    if g.search(is_ev(ev), start=isome, block=any_of(isome, inone), given=any_of(*gv)) is not None:
                        c.ob("T02.terms", ev, False, "%s: a part says %s" % (name, x[:300]), key="only:" + name)
            T, ss = sinks(given)
            if wholeterm:
                oks = [ev for ev, x in ss if re.fullmatch(wholeterm, x)]
                q = g.search(end, start=some, block=any_of(*[is_ev(ev) for ev in oks]) if oks else nothing, given=any_of(*given))
                c.ob("T02.terms", f, q is None, "%s: nothing refers to it on %s" % (name, fmt_path(q or [])), key="whole:" + name)
            else: oks = []
            keys = {(ev.frame.id, ev.block) for ev in known + oks}
            for ev, x in ss:
                if (ev.frame.id, ev.block) in keys: continue
                if g.search(is_ev(ev), start=some, block=any_of(some, none), given=any_of(*given)) is not None:
                    c.ob("T02.terms", ev, False, "%s: says %s" % (name, x[:300]), key="also:" + name)
        # refusals
        T = g.T
        notref = lambda ev: isref(True)(ev) if False else False
        ref_no = isref(False)
        for name, given in (("retracted nested map", fw + [V("MapNotation"), contradicts(X + r"\.op$", "Retract")]), ("nested map for what isn't a reference", fw + [V("MapNotation"), ref_no]),
                            ("vector for one value", fw + [V("Vector"), contradicts(r"require_attribute_for_entid\(.*\)\.multival$", "0")]), ("lookup for what isn't a reference", fw + [V("LookupRef"), ref_no])):
            q = g.search(any_of(end, grow), start=some, given=any_of(*given))
            c.ob("T02.refused", f, q is None, "%s: accepted on %s" % (name, fmt_path(q or [])), key=name)
        # dangling: no id of its own, not a component, nothing unique and nothing reversed in it
        given = fw + [V("MapNotation"), isref(True), contradicts(X + r"\.op$", "Add"), opt(r"remove_db_id\(.*\)" if False else r"%s\(.*\)" % "|".join(re.escape(tail2(x.path)) for x in hs["ID"]), False),
                      contradicts(r"\.component$", "0"), contradicts(r"\.unique$", "Value") if False else lambda ev: False, choice(r"\.unique", "Unique", None), opt(r"unreversed\(%s\.v\.0\[\]\.0\)" % XP, False)]
        q = g.search(end, start=some, given=any_of(*given))
        c.ob("T02.refused", f, q is None, "a nested map that nothing could reach is accepted on %s" % fmt_path(q or []), key="dangling")
        given[-2] = choice(r"\.unique", "Unique", "Value")
        q = g.search(end, start=some, given=any_of(*given))
        c.ob("T02.refused", f, q is None, "a nested map without an identity is accepted on %s" % fmt_path(q or []), key="dangling:value")
        c.done(g)

@rule("T02")
def t02_places(c):
    c.rule("T02.places", "an id, ident, tempid, lookup and transaction function stand, as entity, value and :db/id alike, for themselves: ids that were never allocated and unknown idents are refused, lookups are by unique attributes and typed values")
    hs = helpers(c)
    def case(f, g, norm, x, adt, table_, label):
        for v, want in table_.items():
            giv = []
            name = v
            if isinstance(v, tuple): name, giv = v[0] + ":" + v[1], list(v[2:])
            vv = v[0] if isinstance(v, tuple) else v
            T = within(g, choice("^" + x, adt, vv), *giv)
            got = {norm(rend(t)) for t in T.place(g.rootf, 0, ()) if t != ("err",) and not (t[0] == "agg" and str(t[2]) == "Err")}
            if want is None: c.ob("T02.places", f, not got, "%s is taken for %s" % (name, sorted(got)[:2]), key="%s:%s" % (label, name))
            else: c.ob("T02.places", f, bool(got) and all(re.fullmatch(want, y) for y in got), "%s is taken for %s" % (name, sorted(got)[:3]), key="%s:%s" % (label, name))
            if want is not None:
                q = g.search(ret_of(g, "Err"), given=any_of(choice("^" + x, adt, vv), *giv)) if False else None
    ent = lambda x: r"(KnownEntid::KnownEntid\{0: %s\}|require_entid\(self\.schema, %s\)|\{KnownEntid::KnownEntid\{0: %s\}\|require_entid\(self\.schema, %s\)\})" % ((x,) * 4)
    lr = r"Either::Right\{0: LookupRefOrTempId::LookupRef\{0: LR\(x\.0\)\}\}"
    TID = lambda x: r"Either::Right\{0: LookupRefOrTempId::TempId\{0: intern\(SET, %s\)\}\}" % x
    TX = lambda op: contradicts(r"(eq|partial_eq)\(.*\.op\.0|\.op\.0", op)
    for f in hs.get("E", ()):
        g, norm0 = sgraph(c, f, "LR")
        x = f.body.name(2)
        norm = lambda s: re.sub(r"\b%s\." % x, "x.", norm0(s))
        case(f, g, norm, x, "EntityPlace", {"Entid": r"Either::Left\{0: %s\}" % ent(r"x\.0\.0"), "TempId": TID(r"x\.0"), "LookupRef": lr, "TxFunction": r"Either::Left\{0: self\.tx_id\}"}, "entity")
        # allocated
        giv = [choice("^" + x, "EntityPlace", "Entid"), contradicts(r"^%s\.0$" % x, "Entid")]
        q = g.search(ret_of(g, "Ok"), given=any_of(*giv, contradicts(r"contains_entid\(self\.partition_map, %s\.0\.0\)$" % x, "0")))
        c.ob("T02.places", f, q is None, "an id that was never allocated is accepted on %s" % fmt_path(q or []), key="entity:allocated")
        q = g.search(ret_of(g, "Err"), given=any_of(*giv, contradicts(r"contains_entid\(self\.partition_map, %s\.0\.0\)$" % x, "1")))
        c.ob("T02.places", f, q is None, "an id that was allocated is refused on %s" % fmt_path(q or []), key="entity:refused")
        T = within(g, choice("^" + x, "EntityPlace", "Entid"), contradicts(r"^%s\.0$" % x, "Ident"))
        got = {norm(rend(t)) for t in T.place(g.rootf, 0, ()) if t != ("err",)}
        c.ob("T02.places", f, got == {"Either::Left{0: require_entid(self.schema, x.0.0)}"}, "an ident is taken for %s" % sorted(got), key="entity:ident")
        FN = r"x" 
        isfn = lambda y: functest(x, y)
        q = g.search(ret_of(g, "Ok"), given=any_of(choice("^" + x, "EntityPlace", "TxFunction"), isfn(False)))
        c.ob("T02.places", f, q is None, "an unknown transaction function is accepted on %s" % fmt_path(q or []), key="entity:function")
        c.done(g)
    for f in hs.get("VE", ()):
        g, norm0 = sgraph(c, f, "LR", "A")
        x, b = f.body.name(2), f.body.name(3)
        norm = lambda s: re.sub(r"\b%s\." % x, "x.", norm0(s))
        fa = r"A\(unreversed\(%s\)\)" % b
        vt = r"require_attribute_for_entid\(.*\)\.value_type"
        R = lambda y: contradicts(vt + "$", "Ref") if y else (lambda ev: relation(ev, vt, "^ValueType::Ref") == "Eq")
        at = lambda y: opt(r"as_tempid\(.*\)", y)
        K = lambda v: r"Either::Left\{0: KnownEntid::KnownEntid\{0: %s\}\}" % v
        case(f, g, norm, x, "ValuePlace", {("Atom", "tempid", at(True)): TID(r"as_tempid\(x\.0\)"), ("Atom", "id", at(False)): K(r"into_typed_value\(x\.0, self\.schema, ValueType::Ref\{\}\)\.0"), "Entid": K(r"A\(x\.0\)"), "TempId": TID(r"x\.0"), "LookupRef": lr, "TxFunction": K(r"self\.tx_id\.0") + r"|Either::Left\{0: self\.tx_id\}", "Vector": None, "MapNotation": None}, "reversed")
        q = g.search(ret_of(g, "Ok"), given=R(False))
        c.ob("T02.places", f, q is None, "an attribute that isn't a reference is reversed on %s" % fmt_path(q or []), key="reversed:ref")
        for ev in g.events(call_to(r".*require_attribute_for_entid")):
            a = norm(args_of(g, ev)[1])
            c.ob("T02.places", ev, re.fullmatch(fa, a) is not None, "the attribute looked at is %s" % a, key="reversed:attribute")
        q = g.search(ret_of(g, "Ok"), given=any_of(choice("^" + x, "ValuePlace", "TxFunction"), functest(x, False)))
        c.ob("T02.places", f, q is None, "an unknown transaction function is accepted on %s" % fmt_path(q or []), key="reversed:function")
        c.done(g)
    for f in hs.get("EV", ()):
        g, norm0 = sgraph(c, f, "E")
        x = f.body.name(2)
        norm = lambda s: norm0(re.sub(r"FnOnce::call_once\(<closure>, tuple\{0: (.*)\}\)", r"F{\1}", s))
        got = {norm(rend(t)) for t in g.T.place(g.rootf, 0, ()) if t != ("err",)}
        c.ob("T02.places", f, bool(got) and all(re.search(r"\bE\(%s\)" % x, y) for y in got) and {y.split("{")[0] for y in got} <= {"Either::Left", "Either::Right", "E(%s)" % x}, "an entity in the place of a value is %s" % sorted(got), key="value")
        c.done(g)
        for k in c.P.fns:
            if k.kind == "closure" and c.P.root_of(k).h == f.h and k.body is not None:
                gk = c.graph(k, None, small=0)
                r = {rend(t) for t in gk.T.place(gk.rootf, 0, ())}
                c.ob("T02.places", k, all(re.search(r"TypedValue::Ref\{0: [\w.]+\.0\}|map_left|Either::", y) for y in r), "an entity as a value is %s" % sorted(r), key="value:ref")
                c.done(gk)
    for f in hs.get("A", ()):
        g, norm0 = sgraph(c, f)
        x = f.body.name(2)
        norm = lambda s: re.sub(r"\b%s\." % x, "x.", norm0(s))
        case(f, g, norm, x, "EntidOrIdent", {"Entid": r"x\.0", "Ident": r"require_entid\(self\.schema, x\.0\)(\.0)?"}, "attribute")
        c.done(g)
    for f in hs.get("LR", ()):
        g, norm = sgraph(c, f, "A")
        x = f.body.name(2)
        A_ = r"(A\(%s\.a\.0\)|\{%s\.a\.0\.0\|require_entid\(self\.schema, %s\.a\.0\.0\)\}|\{require_entid\(self\.schema, %s\.a\.0\.0\)\|%s\.a\.0\.0\})" % ((x,) * 5)
        got = {norm(rend(t)) for t in g.T.place(g.rootf, 0, ()) if t != ("err",) and not (t[0] == "agg" and str(t[2]) == "Err")}
        c.ob("T02.places", f, bool(got) and all(re.fullmatch(r"intern\(SET, tuple\{0: %s, 1: into_typed_value\(%s\.v, self\.schema, require_attribute_for_entid\(self\.schema, %s\)\.value_type\)\}\)" % (A_, x, A_), y) for y in got), "a lookup is %s" % sorted(got), key="lookup")
        U = r"require_attribute_for_entid\(.*\)\.unique"
        q = g.search(ret_of(g, "Ok"), given=choice(U, "Unique", None))
        c.ob("T02.places", f, q is None, "a lookup by an attribute that isn't unique is accepted on %s" % fmt_path(q or []), key="lookup:unique")
        for u in ("Value", "Identity"):
            q = g.search(lambda ev: ev.kind == "call" and ev.callee.endswith("::intern"), given=choice(U, "Unique", u))
            c.ob("T02.places", f, q is not None, "a lookup by a unique attribute (%s) is refused" % u, key="lookup:" + u)
        c.done(g)
    for f in hs.get("ID", ()):
        g, norm = sgraph(c, f)
        m = f.body.name(1)
        rm = r"BTreeMap::remove\(%s, EntidOrIdent::Ident\{0: Keyword::namespaced\('db', 'id'\)\}\)" % m
        R = r"^" + rm
        case(f, g, norm, R[1:], "ValuePlace", {}, "id")
        for v in ("Entid", "LookupRef", "TempId", "TxFunction"):
            T = within(g, opt(R, True), choice(R + r"(\.0)?", "ValuePlace", v))
            got = {norm(rend(t)) for t in T.place(g.rootf, 0, ()) if t != ("err",) and not (t[0] == "agg" and str(t[2]) == "Err")}
            c.ob("T02.places", f, bool(got) and all(re.fullmatch(r"EntityPlace::%s\{0: %s(\.0)+\}" % (v, rm), y) for y in got), "a :db/id %s is %s" % (v, sorted(got)[:2]), key="id:" + v)
        T = within(g, opt(R, True), choice(R + r"(\.0)?", "ValuePlace", "Atom"))
        got = {norm(rend(t)) for t in T.place(g.rootf, 0, ()) if t != ("err",) and not (t[0] == "agg" and str(t[2]) == "Err")}
        c.ob("T02.places", f, bool(got) and all(re.fullmatch(r"into_entity_place\(%s(\.0)+\)" % rm, y) for y in got), "a :db/id value is %s" % sorted(got)[:2], key="id:Atom")
        for v in ("Vector", "MapNotation"):
            q = g.search(ret_of(g, "Ok"), given=any_of(opt(R, True), choice(R + r"(\.0)?", "ValuePlace", v)))
            c.ob("T02.places", f, q is None, "a :db/id %s is accepted" % v, key="id:" + v)
        T = within(g, opt(R, False))
        got = {rend(t) for t in T.place(g.rootf, 0, ())}
        c.ob("T02.places", f, got == {"Option::None{}"}, "without a :db/id it's %s" % sorted(got), key="id:none")
        c.done(g)
    for f in hs.get("fresh", ()):
        g, norm = sgraph(c, f)
        got = {rend(t) for t in g.T.place(g.rootf, 0, ())}
        m = {re.search(r"self\.(\w+)", y).group(1) for y in got if re.search(r"self\.(\w+)", y)}
        c.ob("T02.places", f, len(m) == 1 and all(re.match(r"EntityPlace::TempId\{0: .*TempId::Internal\{0: ", y) for y in got), "a map without a :db/id has id %s" % sorted(got), key="fresh")
        for fld in m:
            up = lambda ev: ev.kind == "stmt" and any(str(x).startswith("." + fld + "@") for x in ev.data[0][1:]) and re.search(r"Add 1\)(\.0)?$", rset(g.T.rvalue(ev.frame, ev.data[1], (), 0))) is not None
            q = g.search(ret_of(g), block=up)
            c.ob("T02.places", f, q is None, "two maps may share an id on %s" % fmt_path(q or []), key="fresh:counted")
        c.done(g)

def functest(x, is_tx):
    """Edges contradicting that the function named is (not) transaction-tx."""
    def p(ev):
        if ev.kind != "edge": return False
        for t in ev.g.T.operand(ev.frame, ev.data["o"]):
            r = rend(t)
            if "'transaction-tx'" in r and ".op.0" in r and str(ev.tag[2] if ev.tag is not None else None) in ("0", "1"):
                t_, n = t, False
                while t_[0] == "un" and t_[1] == "Not": t_, n = t_[2], not n
                hit = (str(ev.tag[2]) == "1") != n
                if re.search(r"::ne\(", rend(t_)): hit = not hit
                return hit != is_tx
        for op, a, b, truth in cond(ev):
            o = op if truth else NEG[op]
            r = rset(a) + rset(b)
            if "'transaction-tx'" in r and ".op.0" in r: return (o == "Eq") != is_tx
        return False
    return p

@rule("T02")
def t02_lookup(c):
    c.rule("T02.lookup", "a lookup stands for the entity found for it, or is an error; a tempid is left for later")
    fs = [f for f in dbfns(c) if re.search(r"Either<.*Arc<edn::entities::TempId>>", f.body.ty(0)) and any(re.search(r"HashMap<&", f.body.ty(i)) for i in range(1, f.body.argc + 1)) and any(re.search(r"LookupRefOrTempId", f.body.ty(i)) for i in range(1, f.body.argc + 1))]
    c.floor("T02.lookup", "functions that replace a lookup", len(fs), 1)
    for f in fs:
        g = c.graph(f, None, small=0, keep=True, extra=lambda fn: fn.kind == "closure")
        m = next(f.body.name(i) for i in range(1, f.body.argc + 1) if re.search(r"HashMap<&", f.body.ty(i)))
        d = next(f.body.name(i) for i in range(1, f.body.argc + 1) if re.search(r"LookupRefOrTempId", f.body.ty(i)))
        L, Rr = contradicts("^%s$" % d, "Left"), contradicts("^%s$" % d, "Right")
        v = lambda k: contradicts(r"^%s\.0$" % d, k)
        res = lambda *giv: {rend(t) for t in within(g, *giv).place(g.rootf, 0, ()) if t != ("err",)}
        got = res(L)
        c.ob("T02.lookup", f, got == {"Either::Left{0: %s.0}" % d}, "what's known is replaced by %s" % sorted(got), key="known")
        got = res(Rr, v("TempId"))
        c.ob("T02.lookup", f, got == {"Either::Right{0: %s.0.0}" % d}, "a tempid is replaced by %s" % sorted(got), key="tempid")
        got = res(Rr, v("LookupRef"))
        G = r"HashMap::get\(%s, %s\.0\.0\)" % (m, d)
        c.ob("T02.lookup", f, bool(got) and all(re.search(G, x) for x in got if not x.startswith("Result::Err")) and any(re.search(G, x) for x in got), "a lookup is replaced by %s" % sorted(got), key="found")
        miss = [ev for ev in g.events(ret_of(g, "Ok"))]
        oks = g.events(lambda ev: ev.kind == "call" and re.search(r"Option::(ok_or(_else)?|unwrap\w*|expect|context)$", ev.callee) is not None)
        q = g.search(ret_of(g, "Ok"), given=any_of(Rr, v("LookupRef"), opt(G, False)))
        c.ob("T02.lookup", f, q is None or any(re.search(r"ok_or", ev.callee) for ev in oks), "a lookup that found nothing is accepted on %s" % fmt_path(q or []), key="missing")
        c.done(g)
    # both places of each term, with the pairs looked up in the store
    hs = {f.h for f in fs}
    users = sorted({c.P.root_of(s[0]) for f in fs for s in c.callsites(re.escape(strip_generics(f.path)))}, key=lambda f: f.path)
    users = [u for u in users if not re.search(r"::(tests?|debug)::", u.path)]
    c.floor("T02.lookup", "uses", len(users), 1)
    for f in users:
        g = c.graph(f, None, small=0, keep=True, extra=lambda fn: fn.kind == "closure" or fn.h in hs and False)
        nm = {tail2(x.path) for x in fs}
        g.T.opaque = lambda n: tail2(n) in nm
        ev_ = [ev for ev in g.events(lambda ev: ev.kind == "call" and tail2(ev.callee) in nm)]
        got = {args_of(g, ev)[1].split(".")[-1]: args_of(g, ev) for ev in ev_}
        c.ob("T02.lookup", f, set(got) == {"1", "3"}, "lookups are replaced in %s" % sorted(got), key="both")
        for k, lift in (("1", "KnownEntid"), ("3", "Ref")):
            c.ob("T02.lookup", f, k in got and got[k][2].split("::")[-1].rstrip("}").startswith(lift), "what's found is made %s" % (got.get(k, ["", "", "?"])[2]), key="lift:" + k)
        ms = {rend(t) for e in g.events(lambda e: e.kind == "stmt" and e.data[1]["r"] == "agg") for t in g.T.rvalue(e.frame, e.data[1], (), 0) if t[0] == "agg" and str(t[1]).endswith("::Term")}
        pat = r"Term::AddOrRetract\{0: (?P<t>\w+\[\])\.0, 1: \w+::\w+\(\w+, (?P=t)\.1, .*\), 2: (?P=t)\.2, 3: \w+::\w+\(\w+, (?P=t)\.3, .*\)\}"
        c.ob("T02.lookup", f, bool(ms) and all(re.fullmatch(pat, x) for x in ms), "a term becomes %s" % sorted(ms)[:2], key="term")
        c.done(g)

@rule("T02")
def t02_values(c):
    c.rule("T02.values", "a value is taken for an attribute of its own type only, as it is; an integer or an ident is taken for a reference")
    fs = [f for f in dbfns(c) if f.name in ("into_typed_value", "to_typed_value") and f.impl_of]
    c.floor("T02.values", "conversions of values", len(fs), 3)
    KINDS = ("Boolean", "Long", "Double", "String", "Uuid", "Instant", "Keyword", "Ref")
    for f in fs:
        vt = next((f.body.name(i) for i in range(1, f.body.argc + 1) if f.body.ty(i).endswith("ValueType")), None)
        src = strip_generics(str(f.self_ty)).split("::")[-1]
        g = c.graph(f, None, small=0, keep=True, extra=lambda fn: fn.kind == "closure")
        g.T.opaque = lambda n: n.endswith(("from_edn_value", "to_typed_value", "require_entid", "value_type"))
        got = lambda *giv: {rend(t) for t in within(g, *giv).place(g.rootf, 0, ()) if t != ("err",) and not (t[0] == "agg" and str(t[2]) == "Err")}
        ev = [x for x in g.events(call_to(r".*from_edn_value"))]
        if ev:
            S = r"\w+::from_edn_value\([^()]*\)"
            for want in KINDS:
                for have in KINDS:
                    r = got(contradicts("^%s$" % vt, want), choice("^" + S + r"(\.0)?", "TypedValue", have))
                    okv = {want} if want != "Ref" else {"Long", "Keyword"}
                    if have not in okv: c.ob("T02.values", f, not r, "a %s is taken for a %s: %s" % (have, want, sorted(r)[:1]), key="%s:%s" % (want, have))
                    else:
                        pat = S + r"(\.0)?" if want != "Ref" else (r"TypedValue::Ref\{0: %s(\.0)+\}" % S if have == "Long" else r"(\w+::\w+\()*.*require_entid\(self, %s(\.0)+\).*" % S)
                        c.ob("T02.values", f, bool(r) and all(re.fullmatch(pat, x) for x in r), "a %s is taken for a %s as %s" % (have, want, sorted(r)[:2]), key="%s:%s" % (want, have))
            q = g.search(ret_of(g, "Ok"), given=opt("^" + S, False))
            c.ob("T02.values", f, q is None, "what isn't a value is taken for one", key="none")
        elif "TypedValue" in src:
            r = got()
            c.ob("T02.values", f, r == {"self"}, "a value is taken as %s" % sorted(r), key="typed:self")
            q = g.search(ret_of(g, "Ok"), block=lambda e: relation(e, r"value_type\(self\)", "^%s$" % vt) == "Eq" )
            c.ob("T02.values", f, q is None, "a value of another type is taken on %s" % fmt_path(q or []), key="typed:eq")
        else:
            r = got()
            c.ob("T02.values", f, len(r) == 1 and re.fullmatch(r"(\w+::)?to_typed_value\(schema, self, %s\)" % vt, next(iter(r))) is not None, "a value is taken as %s" % sorted(r), key="edn")
        c.done(g)

@rule("T02")
def t02_atoms(c):
    c.rule("T02.atoms", "a bare value in an entity's place is an id, an ident, a tempid, a lookup or a function by its kind alone")
    fs = [f for f in dbfns(c) if f.name in ("into_entity_place", "as_tempid") and f.impl_of]
    c.floor("T02.atoms", "readings of bare values", len(fs), 4)
    for f in fs:
        adt = "TypedValue" if "TypedValue" in str(f.self_ty) else "SpannedValue"
        s = "self" if adt == "TypedValue" else r"self\.inner"
        g = c.graph(f, None, small=0, keep=True, extra=lambda fn: fn.kind == "closure")
        kinds = [v["n"] for v in next(a for p, a in c.P.adts.items() if p.endswith("::" + adt))["vars"]]
        if f.name == "as_tempid":
            want = {"String": r"TempId::External\{0: self\.0\}"} if adt == "TypedValue" else None
            if want is None:
                got = {rend(t) for t in g.T.place(g.rootf, 0, ())}
                c.ob("T02.atoms", f, bool(got) and all(re.fullmatch(r"(Option::map\()?(\{Option::None\{\}\|)?(.*as_text\(.*\)|self\.inner\.0)\}?(, edn::entities::TempId::External\))?|Option::None\{\}|TempId::External\{0: self\.inner\.0\}", x) for x in got) and any("External" in x for x in got), "a text is %s" % sorted(got), key="tempid:edn")
                c.done(g); continue
            none = r"Option::None\{\}"
        else:
            E_, I_, T_ = (r"EntityPlace::%s\{0: %s\{0: %s\.0\}\}" % (a, b, s) for a, b in (("Entid", "EntidOrIdent::Entid"), ("Entid", "EntidOrIdent::Ident"), ("TempId", "TempId::External")))
            want = {"Ref": E_, "Keyword": I_, "String": T_} if adt == "TypedValue" else {"Integer": E_, "Keyword": I_, "Text": T_, "List": r"EntityPlace::(TxFunction\{0: TxFunction::TxFunction\{op: .*\}\}|LookupRef\{0: LookupRef::LookupRef\{a: AttributePlace::Entid\{0: .*into_entity_place\(.*\)(\.0)*\}, v: .*\}\})"}
            none = None
        for k in kinds:
            T = within(g, choice("^" + s, adt, k))
            got = {rend(t) for t in T.place(g.rootf, 0, ()) if t != ("err",) and not (t[0] == "agg" and str(t[2]) == "Err")}
            w = want.get(k, none)
            if w is None: c.ob("T02.atoms", f, not got, "a %s is %s" % (k, sorted(got)[:2]), key="%s:%s:%s" % (f.name, adt, k))
            else: c.ob("T02.atoms", f, bool(got) and all(re.fullmatch(w, x) for x in got), "a %s is %s" % (k, sorted(got)[:2]), key="%s:%s:%s" % (f.name, adt, k))
        if f.name == "into_entity_place" and adt == "SpannedValue":
            g.T.opaque = lambda n: n.endswith("into_entity_place")
            q = g.search(lambda ev: ev.kind == "stmt" and ev.data[1]["r"] == "agg" and any(t[0] == "agg" and str(t[1]).endswith("entities::LookupRef") for t in g.T.rvalue(ev.frame, ev.data[1], (), 0)), block=lambda ev: any("'lookup-ref'" in rset(a) + rset(b) and (o == "Eq") == tr for o, a, b, tr in cond(ev)))
            c.ob("T02.atoms", f, q is None, "a list that isn't a lookup is taken for one on %s" % fmt_path(q or []), key="lookup")
        c.done(g)

# ---- T03 ---------------------------------------------------------------------------------------
GEN = "Generation"
def gens(c, f): return any(re.search(r"upsert_resolution::Generation$", f.body.ty(i)) for i in range(1, f.body.argc + 1))

def term(op, e, a, v): return r"Term::AddOrRetract\{0: %s, 1: %s, 2: %s, 3: %s\}" % (op, e, a, v)
def Lf(x): return r"Either::Left\{0: %s\}" % x
def Rt(x): return r"Either::Right\{0: %s\}" % x
ADD_ = r"OpType::Add\{\}"

@rule("T03")
def t03_start(c):
    c.rule("T03.sorted", "an assertion of an identity about a tempid may upsert; every other mention of a tempid waits to be resolved or allocated; what mentions none is left alone")
    c.rule("T03.step", "a step of resolution replaces each tempid that was found by what it was found to be, everywhere it is mentioned, and loses nothing: an upsert not in the store, or about something not found, stays to be asserted")
    c.rule("T03.rest", "what never upserted is asserted of newly allocated entities, and a retraction of what was never found is an error")
    fs = [f for f in dbfns(c) if re.search(r"Result<\(mentat_db::upsert_resolution::Generation, ", f.body.ty(0))]
    c.floor("T03.sorted", "functions that sort terms", len(fs), 1)
    for f in fs:
        g = c.graph(f, None, small=0, keep=True, extra=lambda fn: fn.crate == DB and fn.name != "require_attribute_for_entid" and not fn.impl_of)
        g.T.opaque = lambda n: n.endswith("require_attribute_for_entid")
        t = next(f.body.name(i) for i in range(1, f.body.argc + 1) if not f.body.ty(i).endswith("Schema"))
        e, v, op = "%s\\[\\]\\.1" % t, "%s\\[\\]\\.3" % t, "%s\\[\\]\\.0" % t
        k = lambda i, w: contradicts(r"^%s$" % i, w)
        OP = lambda w: contradicts(r"^%s$" % op, w)
        UN = lambda w: choice(r"require_attribute_for_entid\(.*%s\[\]\.2\)\.unique" % t, "Unique", w)
        sf = lambda x: x
        A2 = r"%s\[\]\.2" % t
        R2 = term(r"%s" % op, Rt(e + r"\.0"), A2, Rt(v + r"\.0")); RL = term(op, Rt(e + r"\.0"), A2, Lf(v + r"\.0")); LR = term(op, Lf(e + r"\.0"), A2, Rt(v + r"\.0")); LL = term(op, Lf(e + r"\.0"), A2, Lf(v + r"\.0"))
        whole_ = r"%s\[\]" % t
        alt = lambda x: "(%s|%s)" % (x, whole_)
        cases = [("upsert of a tempid", [k(e, "Right"), k(v, "Right"), OP("Add"), UN("Identity")], {("upserts_ev", r"UpsertEV::UpsertEV\{0: %s\.0, 1: %s, 2: %s\.0\}" % (e, A2, v))}),
                 ("upsert", [k(e, "Right"), k(v, "Left"), OP("Add"), UN("Identity")], {("upserts_e", r"UpsertE::UpsertE\{0: %s\.0, 1: %s, 2: %s\.0\}" % (e, A2, v))}),
                 ("entity known", [k(e, "Left"), k(v, "Right")], {("allocations", alt(LR))}),
                 ("both known", [k(e, "Left"), k(v, "Left")], {(None, alt(LL))})]
        for u, o in ((None, "Add"), ("Value", "Add"), ("Identity", "Retract"), (None, "Retract")):
            cases += [("%s of tempids, unique %s" % (o, u), [k(e, "Right"), k(v, "Right"), OP(o), UN(u)], {("allocations", alt(R2))}),
                      ("%s of a tempid, unique %s" % (o, u), [k(e, "Right"), k(v, "Left"), OP(o), UN(u)], {("allocations", alt(RL))})]
        table(c, "T03.sorted", f, g, r"%s\[\]" % t, cases)
        for ev in g.events(call_to(r".*require_attribute_for_entid")):
            a = args_of(g, ev)
            c.ob("T03.sorted", ev, re.fullmatch(A2, a[1]) is not None, "the attribute looked at is %s" % a[1], key="attribute")
        c.done(g)
    # a step
    fs = [f for f in dbfns(c) if re.search(r"upsert_resolution::Generation$", f.body.ty(0)) and f.body.argc >= 2 and gens(c, f)]
    c.floor("T03.step", "functions that take a step", len(fs), 1)
    for f in fs:
        g = c.graph(f, None, small=0, keep=True, extra=lambda fn: fn.crate == DB and not fn.impl_of)
        s = next(f.body.name(i) for i in range(1, f.body.argc + 1) if re.search(r"Generation$", f.body.ty(i)))
        m = next(f.body.name(i) for i in range(1, f.body.argc + 1) if re.search(r"HashMap<.*TempId", f.body.ty(i)))
        u = next((f.body.name(i) for i in range(1, f.body.argc + 1) if re.search(r"HashSet<", f.body.ty(i))), "?")
        get = lambda x: r"HashMap::get\(%s, %s\)" % (m, x)
        val = lambda x: get(x) + r"(\.0)?"
        has = lambda x, y: opt("^" + get(x), y)
        x = lambda i, fld: r"%s\.%s\[\]\.%d" % (s, fld, i)
        E0, E1_, E2 = (x(i, "upserts_e") for i in range(3))
        inst = lambda y: contradicts(r"HashSet::contains\(%s, tuple\{0: %s, 1: %s\}\)$" % (u, E1_, E2), "1" if y else "0")
        table(c, "T03.step", f, g, r"%s\.upserts_e\[\]" % s, [
            ("found, in the store", [has(E0, True), inst(True)], {("upserted", term(ADD_, val(E0), E1_, E2)), ("resolved", term(ADD_, val(E0), E1_, E2))}),
            ("found, not in the store", [has(E0, True), inst(False)], {("resolved", term(ADD_, val(E0), E1_, E2))}),
            ("not found", [has(E0, False)], {("allocations", term(ADD_, Rt(E0), E1_, Lf(E2)))})])
        V0, V1, V2 = (x(i, "upserts_ev") for i in range(3))
        up = r"UpsertE::UpsertE\{0: %s, 1: %s, 2: TypedValue::Ref\{0: %s\.0\}\}" % (V0, V1, val(V2))
        table(c, "T03.step", f, g, r"%s\.upserts_ev\[\]" % s, [
            ("both found", [has(V0, True), has(V2, True)], {("upserts_e", up)}),
            ("value found", [has(V0, False), has(V2, True)], {("upserts_e", up)}),
            ("entity found", [has(V0, True), has(V2, False)], {("allocations", term(ADD_, Lf(val(V0)), V1, Rt(V2)))}),
            ("neither found", [has(V0, False), has(V2, False)], {("upserts_ev", r"(UpsertEV::UpsertEV\{0: %s, 1: %s, 2: %s\}|%s\.upserts_ev\[\])" % (V0, V1, V2, s))})])
        A = lambda i: x(i, "allocations")
        k = lambda i, w: contradicts(r"^%s$" % A(i), w)
        e_, v_ = A(1) + r"\.0", A(3) + r"\.0"
        W = r"%s\.allocations\[\]" % s
        wh = lambda p: "(%s|%s)" % (p, W)
        ref = lambda p: r"TypedValue::Ref\{0: %s\.0\}" % val(p)
        table(c, "T03.step", f, g, W, [
            ("tempids, both found", [k(1, "Right"), k(3, "Right"), has(e_, True), has(v_, True)], {("resolved", term(A(0), val(e_), A(2), ref(v_)))}),
            ("tempids, value found", [k(1, "Right"), k(3, "Right"), has(e_, False), has(v_, True)], {("allocations", term(A(0), Rt(e_), A(2), Lf(ref(v_))))}),
            ("tempids, entity found", [k(1, "Right"), k(3, "Right"), has(e_, True), has(v_, False)], {("allocations", term(A(0), Lf(val(e_)), A(2), Rt(v_)))}),
            ("tempids, neither found", [k(1, "Right"), k(3, "Right"), has(e_, False), has(v_, False)], {("allocations", wh(term(A(0), Rt(e_), A(2), Rt(v_))))}),
            ("entity, found", [k(1, "Right"), k(3, "Left"), has(e_, True)], {("resolved", term(A(0), val(e_), A(2), v_))}),
            ("entity, not found", [k(1, "Right"), k(3, "Left"), has(e_, False)], {("allocations", wh(term(A(0), Rt(e_), A(2), Lf(v_))))}),
            ("value, found", [k(1, "Left"), k(3, "Right"), has(v_, True)], {("resolved", term(A(0), e_, A(2), ref(v_)))}),
            ("value, not found", [k(1, "Left"), k(3, "Right"), has(v_, False)], {("allocations", wh(term(A(0), Lf(e_), A(2), Rt(v_))))})])
        keep = any_of(lambda ev: ev.kind == "stmt" and any(str(z).startswith(".resolved@") for z in ev.data[0][1:]) and rset(g.T.rvalue(ev.frame, ev.data[1], (), 0)) == s + ".resolved",
                      lambda ev: grows(ev) and ev.callee.endswith(("extend", "append")) and into(g, ev) == "resolved" and args_of(g, ev)[1] == s + ".resolved",
                      lambda ev: ev.kind == "stmt" and ev.data[1]["r"] == "agg" and any(t[0] == "agg" and str(t[1]).endswith("::Generation") and rset(dict(t[3]).get("resolved", frozenset())) == s + ".resolved" for t in g.T.rvalue(ev.frame, ev.data[1], (), 0)))
        q = g.search(ret_of(g), block=keep)
        c.ob("T03.step", f, q is None, "what had resolved is lost on %s" % fmt_path(q or []), key="kept")
        lose = lambda ev: ev.kind == "call" and re.search(r"Vec::(clear|pop|truncate|remove|drain|retain|dedup\w*)$", ev.callee) is not None
        c.ob("T03.step", f, not g.events(lose), "terms are dropped", key="lost")
        c.done(g)
    # what's left
    fs = [f for f in dbfns(c) if f.body.argc == 1 and re.match(r"&('\w+ )?mut .*Generation$", f.body.ty(1)) and gens(c, f)]
    for f in fs:
        g = c.graph(f, None, small=0, keep=True, extra=lambda fn: fn.kind == "closure")
        ext = [ev for ev in g.events(lambda ev: grows(ev) and into(g, ev) == "allocations" or grows(ev) and args_of(g, ev)[0] == "self.allocations")]
        pat = r"\[?%s\]?" % term(ADD_, Rt(r"(?P<x>.*)\[\]\.0"), r"(?P=x)\[\]\.1", Rt(r"(?P=x)\[\]\.2"))
        c.ob("T03.rest", f, bool(ext) and all(re.fullmatch(pat, args_of(g, ev)[1]) for ev in ext), "upserts left over become %s" % [args_of(g, ev)[1][:200] for ev in ext], key="left")
        q = g.search(ret_of(g, "Ok"), block=lambda ev: any(is_ev(x)(ev) for x in ext) or ev.kind == "edge" and ev.tag is not None and ev.tag[2] == "None")
        c.ob("T03.rest", f, q is None, "upserts left over are lost on %s" % fmt_path(q or []), key="left:always")
        c.ob("T03.rest", f, not any(leaves_out_call(g, ev) for ev in ext), "some upserts left over are lost", key="left:all")
        src = [ev for ev in g.events(lambda ev: ev.kind == "call" and re.search(r"mem::(swap|take|replace)$|Vec::drain$", ev.callee) is not None and any("upserts_ev" in str(a) or "upserts_ev" in x for a, x in zip(ev.data["a"], args_of(g, ev))))]
        c.ob("T03.rest", f, bool(src), "upserts left over aren't taken", key="left:taken")
        q = g.search(any_of(ret_of(g, "Ok"), lambda ev: any(is_ev(x)(ev) for x in ext)), block=any_of(*[is_ev(x) for x in src]) if src else None)
        c.ob("T03.rest", f, q is None, "upserts left over aren't taken on %s" % fmt_path(q or []), key="left:taken:always")
        lose = g.events(lambda ev: ev.kind == "call" and re.search(r"Vec::(clear|pop|truncate|remove|retain|dedup\w*)$", ev.callee) is not None)
        c.ob("T03.rest", lose[0] if lose else f, not lose, "terms are dropped", key="left:lost")
        c.done(g)
    c.floor("T03.rest", "functions that turn upserts left over into allocations", len(fs), 1)
    fs = [f for f in dbfns(c) if re.search(r"Result<mentat_db::upsert_resolution::FinalPopulations", f.body.ty(0))]
    c.floor("T03.rest", "functions that end resolution", len(fs), 1)
    for f in fs:
        g = c.graph(f, None, small=0, keep=True, extra=lambda fn: fn.crate == DB and not fn.impl_of)
        s, m = f.body.name(1), f.body.name(2)
        get = lambda x: r"HashMap::get\(%s, %s\)" % (m, x)
        val = lambda x: get(x) + r"(\.0)?"
        has = lambda x, y: opt("^" + get(x), y)
        A = lambda i: r"%s\.allocations\[\]\.%d" % (s, i)
        k = lambda i, w: contradicts(r"^%s$" % A(i), w)
        e_, v_ = A(1) + r"\.0", A(3) + r"\.0"
        ref = lambda p: r"TypedValue::Ref\{0: %s\.0\}" % val(p)
        table(c, "T03.rest", f, g, r"%s\.allocations\[\]" % s, [
            ("tempids", [k(1, "Right"), k(3, "Right"), has(e_, True), has(v_, True)], {("allocated", term(A(0), val(e_), A(2), ref(v_)))}),
            ("entity", [k(1, "Right"), k(3, "Left"), has(e_, True)], {("allocated", term(A(0), val(e_), A(2), v_))}),
            ("value", [k(1, "Left"), k(3, "Right"), has(v_, True)], {("allocated", term(A(0), e_, A(2), ref(v_)))})])
        ls = loops(g, r"%s\.allocations\[\]" % s)
        for nm, giv in (("tempids", [k(1, "Right"), k(3, "Right"), has(e_, False)]), ("tempids as values", [k(1, "Right"), k(3, "Right"), has(v_, False)]), ("entity", [k(1, "Right"), k(3, "Left"), has(e_, False)]), ("value", [k(1, "Left"), k(3, "Right"), has(v_, False)])):
            for some, none in ls.values():
                q = g.search(any_of(some, none, ret_of(g, "Ok")), start=some, given=any_of(*giv))
                c.ob("T03.rest", f, q is None, "%s: what was never found is passed over on %s" % (nm, fmt_path(q or [])), key="missing:" + nm)
                q = g.search(lambda ev: ev.kind == "call" and re.search(r"panicking::", ev.callee) is not None, start=some, block=any_of(some, none), given=any_of(*giv, contradicts(r"^%s$" % A(0), "Retract")))
                c.ob("T03.rest", f, q is None, "%s: a retraction of what was never found panics on %s" % (nm, fmt_path(q or [])), key="retract:" + nm)
        for fld in ("upserted", "resolved"):
            keep = any_of(lambda ev: ev.kind == "stmt" and any(str(z).startswith("." + fld + "@") for z in ev.data[0][1:]) and rset(g.T.rvalue(ev.frame, ev.data[1], (), 0)) == "%s.%s" % (s, fld),
                          lambda ev: ev.kind == "stmt" and ev.data[1]["r"] == "agg" and any(t[0] == "agg" and str(t[1]).endswith("::FinalPopulations") and rset(dict(t[3]).get(fld, frozenset())) == "%s.%s" % (s, fld) for t in g.T.rvalue(ev.frame, ev.data[1], (), 0)))
            q = g.search(ret_of(g, "Ok"), block=keep)
            c.ob("T03.rest", f, q is None, "what was %s is lost on %s" % (fld, fmt_path(q or [])), key="kept:" + fld)
        c.done(g)

def home(g, fr, o):
    """Which local an operand is (a reference to)."""
    for _ in range(16):
        p = op_place(o)
        if p is None: return None
        if any(str(x).startswith(".") for x in p.proj): return (fr.id, p.local) + tuple(str(x) for x in p.proj if str(x).startswith("."))
        ds = fr.body.defs().get(p.local, [])
        if not ds:
            if fr.parent is None or not 0 < p.local <= fr.body.argc: return (fr.id, p.local)
            t = fr.parent.body.blocks[fr.block]["t"]
            if fr.how.startswith("closure") or len(t["a"]) < p.local: return (fr.id, p.local)
            o, fr = t["a"][p.local - 1], fr.parent
            continue
        if len(ds) != 1 or ds[0][1] < 0: return (fr.id, p.local)
        r = ds[0][2][1] if len(ds[0]) > 2 and not isinstance(ds[0][2], dict) else None
        if r is None:
            t = ds[0][2]
            n = str(t.get("f", "")) if isinstance(t, dict) else ""
            return (fr.id, p.local)
        if r["r"] == "ref": o = {"c": r["p"]}
        elif r["r"] in ("use", "cast"): o = r["o"]
        else: return (fr.id, p.local)
    return None

def holds(g, ev, name):
    """Does this call (of a container's method) act on the local `name`d so (after following references)?"""
    return home(g, ev.frame, ev.data["a"][0])

def ordered(s, parts):
    """Do the parts (regexes) occur in the text `s`, once each, in this order?"""
    at = -1
    for p in parts:
        ms = list(re.finditer(p, s))
        if len(ms) != 1 or ms[0].start() <= at: return False
        at = ms[0].start()
    return True

def conflicts(c, rule, f, g, mapkey, val, key):
    """What an insert displaced, when it differs from what was inserted, is collected, and whatever was collected fails."""
    ins = lambda ev: ev.kind == "call" and re.search(r"Map::insert$", ev.callee) is not None and re.fullmatch(mapkey, args_of(g, ev)[1]) is not None and re.fullmatch(val, args_of(g, ev)[2]) is not None
    evs = g.events(ins)
    c.ob(rule, f, bool(evs), "nothing remembers %s for %s" % (val, mapkey), key=key + ":insert")
    old = r"(Hash|BTree)Map::insert\(.*, %s, %s\)(\.0)?" % (mapkey, val)
    same = lambda ev: relation(ev, "^%s$" % old, "^%s(\\.0)?$" % val) == "Eq"
    sizes = lambda e: e.kind == "call" and re.search(r"(Map|Set|Vec)::(is_empty|len)$", e.callee) is not None
    every = g.events(sizes)
    used = [e for e in every if e.callee.endswith("is_empty") or g.events(lambda ev: ev.kind == "edge" and ev.frame is e.frame and tests(g, ev, [e]) is not None)]
    checked = {home(g, e.frame, e.data["a"][0]) for e in used}
    puts = [ev for ev in g.events(lambda ev: ev.kind == "call" and re.search(r"(Map|Set|Vec)::(entry|insert|push)$", ev.callee) is not None) if home(g, ev.frame, ev.data["a"][0]) in checked and not ins(ev)]
    put = lambda ev: any(is_ev(e)(ev) for e in puts)
    stop = lambda ev: ev.kind == "call" and ev.callee.endswith("::next")
    conf = set()
    rep = lambda e: opt("^" + old, True)(e)
    for e in evs:
        # an insert into a map nobody compares is some other bookkeeping
        if not g.events(lambda ev: relation(ev, "^%s$" % old, "^%s(\\.0)?$" % val) is not None and ev.frame is e.frame, start=is_ev(e), block=stop): continue
        conf.add(e)
        q = g.search(any_of(stop, ret_of(g, "Ok")), start=is_ev(e), block=put, given=any_of(opt("^" + old, True), same))
        c.ob(rule, e, q is None, "another entity for the same tempid goes unnoticed on %s" % fmt_path(q or []), key=key + ":differs")
    c.ob(rule, f, bool(conf), "two entities for one tempid are not told apart", key=key + ":compared")
    for o in {home(g, e.frame, e.data["a"][0]) for e in puts}:
        sites = [e for e in g.events(sizes) if home(g, e.frame, e.data["a"][0]) == o]
        none = lambda ev: ev.kind == "edge" and tests(g, ev, sites) == "1"
        for e in puts:
            if home(g, e.frame, e.data["a"][0]) != o: continue
            q = g.search(ret_of(g, "Ok"), start=is_ev(e), block=none)
            c.ob(rule, e, q is None, "conflicts don't fail on %s" % fmt_path(q or []), key=key + ":fails")

def tests(g, ev, sites):
    """For an edge branching on what one of the calls returned: the value on this edge (negations undone)."""
    p = op_place(ev.data["o"])
    neg = False
    fr = ev.frame
    for _ in range(6):
        if p is None: return None
        ds = fr.body.defs().get(p.local, [])
        if len(ds) != 1: return None
        if ds[0][1] < 0 or isinstance(ds[0][2], dict):
            if any(s.frame is fr and s.block == ds[0][0] for s in sites):
                t = ev.tag[2] if ev.tag is not None else None
                v = str(t) if t is not None else ("1" if any(str(x) == "0" for x, _ in ev.data["v"]) else "0")
                if v not in ("0", "1"): return None
                return v if not neg else str(1 - int(v))
            return None
        r = ds[0][2][1]
        if r["r"] == "un" or r["r"] == "not": neg, p = not neg, op_place(r["o"])
        elif r["r"] in ("use", "cast"): p = op_place(r["o"])
        elif r["r"] == "bin":
            # the length compared with 0 or 1: whether it is known to be empty
            for x, y, op in ((r["a"], r["b"], r["op"]), (r["b"], r["a"], SWAP.get(r["op"]))):
                n = rset(g.T.operand(fr, y))
                if op is None or n not in ("0", "1") or op_place(x) is None: continue
                l = op_place(x).local
                ds = fr.body.defs().get(l, [])
                if len(ds) != 1 or not (ds[0][1] < 0 or isinstance(ds[0][2], dict)) or not any(s.frame is fr and s.block == ds[0][0] for s in sites): continue
                yes = {("Eq", "0"): "1", ("Le", "0"): "1", ("Lt", "1"): "1", ("Ne", "0"): "0", ("Gt", "0"): "0", ("Ge", "1"): "0"}.get((op, n))
                t = ev.tag[2] if ev.tag is not None else None
                v = str(t) if t is not None else ("1" if any(str(z) == "0" for z, _ in ev.data["v"]) else "0")
                if yes is None or v not in ("0", "1"): return None
                return yes if (v == "1") != neg else str(1 - int(yes))
            return None
        else: return None
    return None

SID = r"\(\d+ Add #\)|\(# Add \d+\)|#"

@rule("T03")
def t03_found(c):
    c.rule("T03.found", "the entity found for an attribute and value is the one the store has for that attribute and that value")
    c.rule("T03.tempid", "a tempid stands for the entity found for its own attribute and value, and two different entities for one tempid fail")
    ss = [s for s in c.sql() if s.fn.crate == DB and any(st.get("k") == "select" and [w[0] for w in st.get("with", [])] and any(x[0] == ("tab", "all_datoms") for x in st["from"]) for _, st in s.stmts)]
    fs = sorted({c.P.root_of(s.fn) for s in ss}, key=lambda f: f.path)
    fs = [f for f in fs if re.search(r"HashMap<&.*\(i64, core_traits::TypedValue\)", f.body.ty(0))]
    c.floor("T03.found", "functions that look values up", len(fs), 1)
    for s in ss:
        if c.P.root_of(s.fn) not in fs: continue
        for txt, st in s.stmts:
            w = {n: cols for n, cols, _ in st["with"]}
            names = {al or t[1]: t[1] for t, al, _, _ in st["from"]}
            d = next((n for n, t in names.items() if t == "all_datoms"), None)
            t = next((n for n, x in names.items() if x in w), None)
            c.ob("T03.found", s.fn, d is not None and t is not None and len(names) == 2, "looks in %s" % txt[:200], key="sql:from")
            if d is None or t is None: continue
            cols = w[names[t]]
            want = {frozenset([("col", d, x), ("col", t, cols[i])]) for x, i in (("a", 1), ("v", 2), ("value_type_tag", 3))} if len(cols) == 4 else set()
            wh = st["where"]
            ands = wh[1] if wh and wh[0] == "and" else [wh]
            ands = ands + [x for t_ in st["from"] if t_[3] for x in (t_[3][1] if t_[3][0] == "and" else [t_[3]])]
            eqs = {frozenset([a[1], a[2]]) for a in ands if a and a[0] == "eq"}
            rest = [a for a in ands if not (a and a[0] == "eq" and frozenset([a[1], a[2]]) in want)]
            c.ob("T03.found", s.fn, want and want <= eqs, "matches on %s" % (ands,), key="sql:where")
            c.ob("T03.found", s.fn, all(a in (("not", ("eq", ("col", d, "index_avet"), ("lit", 0))), ("col", d, "index_avet")) for a in rest), "also demands %s" % (rest,), key="sql:only")
            c.ob("T03.found", s.fn, [x for x, _ in st["cols"]] == [("col", t, cols[0]), ("col", d, "e")] and not st["group"] and st["limit"] is None, "selects %s" % (st["cols"],), key="sql:cols")
    for f in fs:
        g = c.graph(f, None, small=0, keep=True, extra=lambda fn: fn.kind == "closure")
        g.T.opaque = lambda n: n.endswith("to_sql_value_pair")
        av = f.body.name(2)
        pair = r"to_sql_value_pair\(%s\[\]\.1\)" % av
        qs = [ev for ev in g.events(lambda ev: ev.kind == "call" and re.search(r"::query(_and_then|_map)?$", ev.callee) is not None)]
        c.ob("T03.found", f, bool(qs), "nothing is run", key="run")
        for ev in qs:
            a = args_of(g, ev)[1]
            c.ob("T03.found", ev, ordered(a, [r"\(\d+ Add #\)|\(# Add \d+\)|(?<![\d ])#(?!\d)", r"(?<!%s\()%s\[\]\.0" % ("to_sql_value_pair", av), pair + r"\.0", pair + r"\.1"]), "asks about %s" % a[:300], key="params")
        en = g.events(call_to(r".*Iterator::enumerate"))
        c.ob("T03.found", f, bool(en) and all(re.fullmatch(r"%s(\[\])?|\[%s\[\]\]|slice::iter\(%s\)" % (av, av, av), args_of(g, ev)[0]) for ev in en), "ids are counted from %s" % [args_of(g, ev)[0] for ev in en], key="ids")
        lv = g.events(lambda ev: ev.kind == "call" and any(re.search(LEAVES + r"\([^']*%s\b" % av, x) for a in ev.data["a"] for x in whole(g, ev.frame, a)))
        c.ob("T03.found", lv[0] if lv else f, not lv, "some aren't looked up", key="some")
        # the id subtracted is the id added
        adds, subs = set(), set()
        for ev in g.events(lambda ev: ev.kind == "stmt" and ev.data[1]["r"] == "bin" and re.match("Add|Sub", ev.data[1].get("op", ""))):
            for t in g.T.rvalue(ev.frame, ev.data[1], (), 0):
                m = re.fullmatch(r"\((\d+) Add #\)|\(# Add (\d+)\)", rend(t)) if t[0] == "op" else None
                if m: adds.add(m.group(1) or m.group(2))
                m = re.fullmatch(r"\((.*) Sub (\d+)\)", rend(t)) if t[0] == "op" else None
                if m and re.search(r"Row::get\(.*, 0\)$|\[\]\.0$", m.group(1)): subs.add(m.group(2))
        c.ob("T03.found", f, adds == subs and len(adds) <= 1, "ids start at %s and are read from %s" % (sorted(adds), sorted(subs)), key="offset")
        r = [rend(x) for t in g.T.place(g.rootf, 0, ()) if t != ("err",) for x in (g.T.pushed(t) if t in g.T.alloc else None) or [t]]
        c.ob("T03.found", f, bool(r) and all(re.fullmatch(r"\[?tuple\{0: %s\[\], 1: .*(Row::get\(.*, 1\)|\[\]\.1)\}\]?" % av, x, re.S) for x in r), "answers %s" % [x[:200] for x in r], key="answer")
        rows = [dict(t[3]) for ev in g.events(lambda ev: ev.kind == "stmt" and ev.data[1]["r"] == "agg") for t in g.T.rvalue(ev.frame, ev.data[1], (), 0) if t[0] == "agg" and t[1] == "tuple"]
        rows = [{k: rset(v) for k, v in t.items()} for t in rows]
        rows = [t for t in rows if any(re.match(r"Row::get\(", v) for v in t.values())]
        c.ob("T03.found", f, all(re.search(r", %s\)$" % k, v) for t in rows for k, v in t.items()), "rows are read as %s" % [{k: v[-20:] for k, v in t.items()} for t in rows], key="row")
        c.done(g)
    fs = [f for f in dbfns(c) if re.search(r"HashMap<.*TempId.*KnownEntid", f.body.ty(0)) and f.body.argc >= 2 and any(re.search(r"TempId.*\(i64, core_traits::TypedValue\)", f.body.ty(i)) for i in range(1, f.body.argc + 1))]
    c.floor("T03.tempid", "functions that find what tempids stand for", len(fs), 1)
    for f in fs:
        g = c.graph(f, None, small=0, keep=True, extra=lambda fn: fn.kind == "closure")
        g.T.opaque = lambda n: n.endswith("::resolve_avs")
        av = next(f.body.name(i) for i in range(1, f.body.argc + 1) if re.search(r"TempId", f.body.ty(i)))
        R = r"(\w+::)*resolve_avs\(.*\)"
        got = r"(HashMap::get\(%s, %s\[\]\.1\)|Option::map\(HashMap::get\(%s, %s\[\]\.1\), core_traits::KnownEntid\)|KnownEntid::KnownEntid\{0: HashMap::get\(%s, %s\[\]\.1\)(\.0)?\})(\.0)?" % (R, av, R, av, R, av)
        el = r"%s\[\]" % av
        ls = loops(g, el)
        asked = [ev for ev in g.events(lambda ev: grows(ev) and args_of(g, ev)[1] == av + "[].1")]
        col = [ev for ev in g.events(call_to(r".*::resolve_avs")) if re.search(r"%s\[\]\.1" % av, args_of(g, ev)[1])]
        rs = g.events(call_to(r".*::resolve_avs"))
        c.ob("T03.tempid", f, bool(rs), "nothing is looked up", key="asks")
        if asked and not col:
            for ev in asked:
                n = [b for a, b in ls.values()]
                ok = any(g.search(any_of(a, b, ret_of(g)), start=a, block=is_ev(ev)) is None for a, b in ls.values())
                c.ob("T03.tempid", ev, ok, "not every attribute and value is looked up", key="asks:all")
            for ev in rs:
                o = {home(g, e.frame, e.data["a"][0]) for e in asked}
                c.ob("T03.tempid", ev, home_of_arg(g, ev, 1) in o, "looks up %s" % args_of(g, ev)[1][:200], key="asks:these")
        else: c.ob("T03.tempid", f, bool(col), "nothing is asked about", key="asks:all")
        conflicts(c, "T03.tempid", f, g, r"%s\[\]\.0" % av, got, "one")
        G1 = r"HashMap::get\(%s, %s\[\]\.1\)" % (R, av)
        found = lambda y: opt(r"^(%s|Option::map\(%s, core_traits::KnownEntid\))" % (G1, G1), y)
        ins = lambda ev: ev.kind == "call" and re.search(r"Map::insert$", ev.callee) is not None and args_of(g, ev)[1] == av + "[].0" and re.fullmatch(got, args_of(g, ev)[2]) is not None
        insev = g.events(ins)
        lp = [(a, b) for a, b in ls.values() if any(g.search(is_ev(e), start=a, block=b) for e in insev)]
        ok = any(g.search(any_of(a, b, ret_of(g, "Ok")), start=a, block=ins, given=found(True)) is None for a, b in lp)
        c.ob("T03.tempid", f, ok, "a tempid whose attribute and value were found is passed over", key="every")
        q = g.search(ret_of(g, "Ok"), block=any_of(*[b for _, b in lp]) if lp else None, given=contradicts(r"is_empty\(%s\)$" % av, "0"))
        c.ob("T03.tempid", f, q is None, "tempids are passed over on %s" % fmt_path(q or []), key="every:one")
        for e in insev:
            q = any(g.search(is_ev(e), start=a, block=any_of(a, b), given=found(False)) for a, b in lp) if lp else True
            c.ob("T03.tempid", e, not q, "a tempid whose attribute and value were not found is given an entity", key="none")
        oth = [ev for ev in g.events(lambda ev: ev.kind == "call" and re.search(r"HashMap::(insert|remove|retain|clear|extend)$", ev.callee) is not None and not ins(ev))]
        c.ob("T03.tempid", oth[0] if oth else f, not oth, "a tempid is given %s" % ([args_of(g, o) for o in oth],), key="only")
        # the second answer: what was found
        tup = [t for t in g.T.place(g.rootf, 0, ()) if t != ("err",)]
        OK2 = r"\[%s\[\]\.0\]|Default::default\(\)|HashSet::new\(\)" % R
        xs = {rend(y) for t in g.T.place(g.rootf, 0, ()) if t[0] == "agg" and t[1] == "tuple" for y in dict(t[3]).get("1", ())}
        c.ob("T03.tempid", f, all(re.fullmatch(OK2, x) for x in xs), "says that %s are in the store" % [x[:200] for x in xs], key="instore")
        c.ob("T03.tempid", f, any(re.fullmatch(r"\[%s\[\]\.0\]" % R, x) for x in xs), "doesn't say what is in the store", key="instore:some")
        c.done(g)

def home_of_arg(g, ev, i):
    """The local a (slice of a) collection passed is."""
    fr, o = ev.frame, ev.data["a"][i]
    for _ in range(4):
        h = home(g, fr, o)
        if h is None: return None
        ds = fr.body.defs().get(h[1], []) if h[0] == fr.id else []
        if len(ds) == 1 and isinstance(ds[0][2], dict) and ds[0][2].get("k") == "call" and re.search(r"::(index|deref|as_slice|as_ref|iter|borrow)$", str(ds[0][2]["f"].get("k", {}).get("fn", ""))): o = ds[0][2]["a"][0]
        else: return h
    return h

def genfns(c):
    """The steps of resolution by what they are: {role: functions}."""
    T = lambda f, i: f.body.ty(i)
    out = {"start": [], "can": [], "avs": [], "step": [], "left": [], "ids": [], "final": [], "found": []}
    for f in dbfns(c):
        a, r = f.body.argc, T(f, 0)
        if re.search(r"Result<\(mentat_db::upsert_resolution::Generation, ", r): out["start"].append(f)
        elif re.search(r"HashMap<.*TempId.*KnownEntid", r) and "Result" in r: out["found"].append(f)
        elif a and gens(c, f):
            if r == "bool" and a == 1: out["can"].append(f)
            elif re.search(r"upsert_resolution::Generation$", r) and a >= 2: out["step"].append(f)
            elif re.search(r"Vec<\(.*TempId", r): out["avs"].append(f)
            elif re.match(r"&('\w+ )?mut ", T(f, 1)) and a == 1: out["left"].append(f)
            elif re.search(r"BTreeMap<.*TempId.*usize", r): out["ids"].append(f)
            elif re.search(r"FinalPopulations", r): out["final"].append(f)
    return out

@rule("T03")
def t03_loop(c):
    c.rule("T03.loop", "resolution goes on while anything may upsert, each step with what was found for what the generation holds; once nothing may, everything is resolved by all that was found; only then is anything allocated")
    c.rule("T03.told", "what a tempid was found to be, or was allocated, is what the transaction reports for it; found as two entities, the transaction fails")
    gf = genfns(c)
    for k in gf: c.floor("T03.loop", "steps of resolution: " + k, len(gf[k]), 1)
    if not all(gf.values()): return
    nm = {k: {tail2(f.path) for f in v} for k, v in gf.items()}
    allnm = set().union(*nm.values())
    is_ = lambda k: (lambda ev: ev.kind == "call" and tail2(ev.callee) in nm[k] or ev.kind == "call" and ev.callee.split("::")[-1] in {x.split("::")[-1] for x in nm[k]} and any(f in c.P.targets(ev.data["f"]["k"]) for f in gf[k] if "k" in ev.data["f"]))
    rs = [f for f in dbfns(c) if f.h not in {x.h for v in gf.values() for x in v} and f.body is not None]
    g0 = {}
    for f in roots(c):
        g = c.graph(f, None, small=0, keep=True, extra=lambda fn: fn.crate == DB and fn.h not in {x.h for v in gf.values() for x in v} and (fn.kind == "closure" or len([b for b in fn.body.blocks if not b.get("cl")]) <= 25) and not re.search(r"MentatStoring|::db::", fn.path))
        g.T.opaque = lambda n: tail2(n) in allnm or n.endswith("allocate_entids")
        g.T.blank = lambda n: tail2(n) in allnm
        if not g.events(is_("step")): continue
        g0[f] = g
    c.floor("T03.loop", "functions that resolve tempids", len(g0), 1)
    N = lambda k: "(%s)" % "|".join(re.escape(x) for x in sorted(nm[k]))
    for f, g in g0.items():
        FOUND = N("found") + r"\(\)"
        ALLOC = lambda ev: ev.kind == "call" and ev.callee.endswith("allocate_entids")
        can = lambda y: (lambda ev: contradicts(r"^%s\(\)$" % N("can"), "1" if y else "0")(ev))
        # the loop
        st = g.events(is_("step"))
        inloop = [e for e in st if args_of(g, e)[1] == "" or re.fullmatch(FOUND + r"\.0", args_of(g, e)[1])]
        last = [e for e in st if e not in inloop]
        for e in inloop:
            a = args_of(g, e)
            c.ob("T03.loop", e, len(a) < 3 or re.fullmatch(FOUND + r"\.1", a[2]) is not None, "told that %s are in the store" % a[2:], key="step:store")
        c.ob("T03.loop", f, bool(inloop), "no step is taken with what was found", key="step")
        for e in g.events(is_("found")):
            a = args_of(g, e)
            c.ob("T03.loop", e, any(re.search(N("avs") + r"\(\)", x) for x in a) or any(avs_of(g, e, i, is_("avs")) for i in range(len(a))), "looks up %s" % a[-1][:200], key="found:of")
        q = g.search(ALLOC, block=can(True))
        c.ob("T03.loop", f, q is None, "ids are allocated though more may upsert on %s" % fmt_path(q or []), key="until")
        for e in g.events(is_("can")):
            q = g.search(any_of(is_("can"), is_("left"), ALLOC, ret_of(g, "Ok")), start=is_ev(e), block=any_of(*[is_ev(x) for x in inloop]) if inloop else None, given=can(True))
            c.ob("T03.loop", e, q is None, "what may upsert isn't stepped on %s" % fmt_path(q or []), key="while")
        # what was found is kept, and applied at the end
        ins = [ev for ev in g.events(lambda ev: ev.kind == "call" and re.search(r"Map::insert$", ev.callee) is not None and re.fullmatch(FOUND + r"\.0\[\]\.0", args_of(g, ev)[1]) is not None and re.fullmatch(FOUND + r"\.0\[\]\.1", args_of(g, ev)[2]) is not None)]
        kept = {home(g, e.frame, e.data["a"][0]) for e in ins}
        ls = loops(g, FOUND + r"\.0\[\]")
        c.ob("T03.told", f, bool(ls), "nothing goes over what was found", key="each")
        for h in kept:
            evs = [e for e in ins if home(g, e.frame, e.data["a"][0]) == h]
            for a, b in ls.values():
                q = g.search(any_of(a, b, ret_of(g, "Ok")), start=a, block=any_of(*[is_ev(e) for e in evs]))
                c.ob("T03.told", evs[0], q is None, "what was found is forgotten on %s" % fmt_path(q or []), key="kept")
        for e in inloop:
            if ls:
                q = g.search(any_of(is_("can"), ALLOC, ret_of(g, "Ok")), start=is_ev(e), block=any_of(*[b for _, b in ls.values()]))
                c.ob("T03.told", e, q is None, "what was found isn't gone over on %s" % fmt_path(q or []), key="all")
        for e in last:
            h = home_of_arg(g, e, 1)
            c.ob("T03.loop", e, h in kept, "the last step resolves by %s" % args_of(g, e)[1][:100], key="last:by")
            a = args_of(g, e)
            c.ob("T03.loop", e, len(a) < 3 or re.fullmatch(r"Default::default\(\)|HashSet::new\(\)", a[2]) is not None and not g.events(lambda ev: grows(ev) and home(g, ev.frame, ev.data["a"][0]) == home_of_arg(g, e, 2)), "the last step is told that %s are in the store" % a[2:], key="last:store")
        q = g.search(any_of(is_("ids"), ALLOC), block=any_of(*[is_ev(e) for e in last]) if last else None)
        c.ob("T03.loop", f, q is None, "ids are allocated before everything is resolved by what was found on %s" % fmt_path(q or []), key="last")
        for e in last:
            q = g.search(is_("step"), start=is_ev(e))
            c.ob("T03.loop", e, q is None, "steps are taken after the last on %s" % fmt_path(q or []), key="last:last")
        q = g.search(any_of(is_("ids"), ALLOC), block=is_("left"))
        c.ob("T03.loop", f, q is None, "upserts left over aren't asserted on %s" % fmt_path(q or []), key="left")
        q = g.search(ret_of(g, "Ok"), block=is_("final"))
        c.ob("T03.loop", f, q is None, "resolution doesn't end on %s" % fmt_path(q or []), key="final")
        conflicts(c, "T03.told", f, g, FOUND + r"\.0\[\]\.0", FOUND + r"\.0\[\]\.1", "one")
        # the report
        IDS = N("ids") + r"\(\)"
        new = r"(KnownEntid::KnownEntid\{0: )?\((.*allocate_entids\(.*\)\.start Add %s\[\]\.1|%s\[\]\.1 Add .*allocate_entids\(.*\)\.start)\)(\})?" % (IDS, IDS)
        ai = [ev for ev in g.events(lambda ev: ev.kind == "call" and re.search(r"Map::insert$", ev.callee) is not None and re.fullmatch(IDS + r"\[\]\.0", args_of(g, ev)[1]) is not None)]
        c.ob("T03.told", f, bool(ai), "what was allocated isn't reported", key="new")
        # (a map of what was allocated may be filled on the way to the report)
        way = [e for e in ai if home(g, e.frame, e.data["a"][0]) not in kept] if any(home(g, e.frame, e.data["a"][0]) in kept for e in ai) else []
        ai = [e for e in ai if e not in way]
        rep = set()
        for e in way:
            c.ob("T03.told", e, re.fullmatch(new, args_of(g, e)[2]) is not None, "a tempid is allocated %s" % args_of(g, e)[2][:300], key="new:what")
        for e in ai:
            c.ob("T03.told", e, re.fullmatch(new, args_of(g, e)[2]) is not None, "a tempid is reported to be %s" % args_of(g, e)[2][:300], key="new:what")
            h = home(g, e.frame, e.data["a"][0])
            c.ob("T03.told", e, h in kept, "what was allocated and what was found are told apart", key="new:where")
            rep.add(h)
        l4 = [x for x in loops_any(g).values() if any(g.search(is_ev(e), start=x[0], block=x[1]) for e in ai)]
        ok = any(g.search(any_of(a, b, ret_of(g, "Ok")), start=a, block=any_of(*[is_ev(e) for e in ai])) is None and g.search(ret_of(g, "Ok"), block=b) is None for a, b in l4)
        c.ob("T03.told", ai[0] if ai else f, ok or not ai, "what was allocated isn't all reported", key="new:each")
        for e in g.events(is_("final")):
            t = rset(g.T.elems(g.T.operand(e.frame, e.data["a"][1])))
            if way:
                wl = [x for x in loops_any(g).values() if any(g.search(is_ev(w), start=x[0], block=x[1]) for w in way)]
                ok = any(g.search(any_of(a, b, is_ev(e)), start=a, block=any_of(*[is_ev(w) for w in way])) is None and g.search(is_ev(e), block=b) is None for a, b in wl)
                c.ob("T03.told", e, ok, "what was allocated isn't all resolved", key="final:each")
            c.ob("T03.told", e, re.fullmatch(r"tuple\{0: %s\[\]\.0, 1: %s\}" % (IDS, new), t) is not None, "what is left is resolved by %s" % t[:300], key="final:by")
        al = g.events(ALLOC)
        for e in al:
            a = args_of(g, e)
            c.ob("T03.told", e, re.fullmatch(r"\w+::(len|count)\(\[*%s(\[\](\.1)?)?\]*\)" % IDS, a[2]) is not None, "%s ids are allocated" % a[2], key="count")
        # who is told
        tr = [t for ev in g.events(lambda ev: ev.kind == "stmt" and ev.data[1]["r"] == "agg" and str(ev.data[1].get("adt", "")).endswith("TxReport")) for t in g.T.rvalue(ev.frame, ev.data[1], (), 0)]
        c.ob("T03.told", f, bool(tr), "nothing is reported", key="report")
        for t in tr:
            x = rset(dict(t[3])["tempids"])
            c.ob("T03.told", f, re.fullmatch(r"\[tuple\{0: (.*), 1: .*\}\]", x) is not None and re.search(FOUND + r"\.0\[\]\.0", x) is not None and re.search(IDS + r"\[\]\.0", x) is not None and re.search(FOUND + r"\.0\[\]\.1", x) is not None and "allocate_entids(" in x, "reports %s" % x[:300], key="report:what")
        c.done(g)
    # what may upsert
    for f in gf["can"]:
        g = c.graph(f, None, small=20, keep=True)
        a = answers(g)
        c.ob("T03.loop", f, a in (["!Vec::is_empty(self.upserts_e)"], ["Not(Vec::is_empty(self.upserts_e))"], ["(0 Lt Vec::len(self.upserts_e))"], ["(Vec::len(self.upserts_e) Gt 0)"], ["(Vec::len(self.upserts_e) Ne 0)"]) or a == ["0", "1"] and answers(g, contradicts(r"Vec::is_empty\(self\.upserts_e\)$", "1")) == ["0"] and answers(g, contradicts(r"Vec::is_empty\(self\.upserts_e\)$", "0")) == ["1"], "more may upsert if %s" % a, key="can")
        c.done(g)
    for f in gf["avs"]:
        g = c.graph(f, None, small=0, keep=True, extra=lambda fn: fn.kind == "closure")
        s = f.body.name(1)
        U = lambda i: r"%s\.upserts_e\[\]\.%d" % (s, i)
        want = r"tuple\{0: %s, 1: tuple\{0: %s, 1: %s\}\}" % (U(0), U(1), U(2))
        r = answers(g)
        if len(r) == 1 and re.fullmatch(r"\[%s\]" % want, r[0]):
            c.ob("T03.loop", f, not any(leaves_out_call(g, ev) for ev in g.events(lambda ev: ev.kind == "call")), "some upserts aren't looked up", key="avs")
        else: table(c, "T03.loop", f, g, r"%s\.upserts_e\[\]" % s, [("any", [], {(None, want)})])
        c.done(g)

def avs_of(g, ev, i, pred):
    """Is argument `i` (a reference to) what a call matching `pred` returned?"""
    h = home_of_arg(g, ev, i)
    if h is None: return False
    for fr in {e.frame for e in g.events(pred)}:
        if fr.id != h[0]: continue
        for b, j, x in fr.body.defs().get(h[1], []):
            if isinstance(x, dict) and x.get("k") == "call" and any(e.frame is fr and e.block == b for e in g.events(pred)): return True
    return False

@rule("T03")
def t03_ids(c):
    c.rule("T03.ids", "every tempid an assertion mentions is allocated an id, a retraction's tempids are not, and two tempids share one exactly when asserted with the same value of an identity")
    fs = genfns(c)["ids"]
    for f in fs:
        g = c.graph(f, None, small=0, keep=True, extra=lambda fn: fn.kind == "closure")
        g.T.opaque = lambda n: n.endswith("require_attribute_for_entid")
        s = f.body.name(1)
        X = r"%s\.allocations\[\]" % s
        A = lambda i: X + r"\.%d" % i
        k = lambda i, w: contradicts(r"^%s$" % A(i), w)
        UN = lambda w: choice(r"require_attribute_for_entid\(.*%s\)\.unique" % A(2), "Unique", w)
        e_, v_ = A(1) + r"\.0", A(3) + r"\.0"
        ls = loops(g, X)
        c.ob("T03.ids", f, bool(ls), "nothing goes over the allocations", key="each")
        if not ls: continue
        done = ret_of(g)
        for _, n in ls.values():
            q = g.search(ret_of(g, "Ok"), block=n)
            c.ob("T03.ids", f, q is None, "may end before all allocations on %s" % fmt_path(q or []), key="all")
        ins = lambda x: (lambda ev: ev.kind == "call" and re.search(r"Set::insert$|Map::insert$|Vec::push$", ev.callee) is not None and re.fullmatch(x, args_of(g, ev)[1]) is not None and re.search(r"TempId", str(ev.frame.body.ty(op_place(ev.data["a"][0]).local))) is not None and not re.search(r"Entry::", args_of(g, ev)[0]))
        anyins = ins(r".*")
        ent = lambda ev: ev.kind == "call" and re.search(r"Map::entry$", ev.callee) is not None
        av = lambda v: (lambda ev: ent(ev) and re.fullmatch(r"tuple\{0: %s, 1: %s\}" % (A(2), v), args_of(g, ev)[1]) is not None)
        psh = lambda v: (lambda ev: ev.kind == "call" and re.search(r"::(push|insert)$", ev.callee) is not None and re.search(r"^(Entry::or_\w+|Map::entry|BTreeMap::entry|HashMap::entry)\(.*tuple\{0: %s, 1: %s\}" % (A(2), v), args_of(g, ev)[0]) is not None and re.fullmatch(e_, args_of(g, ev)[1]) is not None)
        anypsh = lambda ev: ev.kind == "call" and re.search(r"::(push|insert)$", ev.callee) is not None and re.search(r"entry\(", args_of(g, ev)[0]) is not None
        VR = r"(Either::Right\{0: %s\}|%s)" % (v_, A(3))
        VL = r"(Either::Left\{0: %s\}|%s)" % (v_, A(3))
        end = lambda a, b: any_of(a, b, ret_of(g, "Ok"))
        for nm, kinds, mention, v in (("tempids", [k(1, "Right"), k(3, "Right")], [e_, v_], VR), ("a tempid", [k(1, "Right"), k(3, "Left")], [e_], VL), ("a tempid as value", [k(1, "Left"), k(3, "Right")], [v_], None)):
            add = [k(0, "Add")] + kinds
            for a, b in ls.values():
                for m in mention:
                    q = g.search(end(a, b), start=a, block=ins(m), given=any_of(*add))
                    c.ob("T03.ids", f, q is None, "%s: allocated nothing on %s" % (nm, fmt_path(q or [])), key="mentioned:%s:%s" % (nm, m[-4:]))
                q = g.search(any_of(anyins, anypsh), start=a, block=any_of(a, b), given=any_of(k(0, "Retract"), *kinds))
                c.ob("T03.ids", f, q is None, "%s: a retraction allocates on %s" % (nm, fmt_path(q or [])), key="retracted:" + nm)
                other = lambda ev: anyins(ev) and not any(ins(m)(ev) for m in mention)
                q = g.search(other, start=a, block=any_of(a, b), given=any_of(*add))
                c.ob("T03.ids", f, q is None, "%s: allocates something else on %s" % (nm, fmt_path(q or [])), key="else:" + nm)
                for u in ("Identity", "Value", None):
                    if v is not None and u == "Identity":
                        q = g.search(end(a, b), start=a, block=psh(v), given=any_of(UN(u), *add))
                        c.ob("T03.ids", f, q is None, "%s: an identity that would be shared isn't on %s" % (nm, fmt_path(q or [])), key="shared:" + nm)
                        q = g.search(lambda ev: anypsh(ev) and not psh(v)(ev), start=a, block=any_of(a, b), given=any_of(UN(u), *add))
                        c.ob("T03.ids", f, q is None, "%s: shares by something else on %s" % (nm, fmt_path(q or [])), key="shared:else:" + nm)
                    else:
                        q = g.search(anypsh, start=a, block=any_of(a, b), given=any_of(UN(u), *add))
                        c.ob("T03.ids", f, q is None, "%s, unique %s: shares an id on %s" % (nm, u, fmt_path(q or [])), key="unshared:%s:%s" % (nm, u))
        for ev in g.events(call_to(r".*require_attribute_for_entid")):
            c.ob("T03.ids", ev, re.fullmatch(A(2), args_of(g, ev)[1]) is not None, "the attribute looked at is %s" % args_of(g, ev)[1], key="attribute")
        # shared ids
        un = g.events(lambda ev: ev.kind == "call" and re.search(r"UnionFind::union$", ev.callee) is not None)
        c.ob("T03.ids", f, bool(un), "nothing is shared", key="union")
        groups = r"(.*\[\]\.1)\[\]"
        for ev in un:
            a = args_of(g, ev)[1:]
            m = [re.fullmatch(r"(?:\w+::)*get\((.*), (.*)\)(\.0)?", x) for x in a]
            ok = all(m) and m[0].group(1) == m[1].group(1)
            if ok:
                one = sorted((x.group(2) for x in m), key=lambda x: x.startswith("slice::first("), reverse=True)
                mm = re.fullmatch(r"slice::first\((.*)\)(\.0)?", one[0])
                ok = mm is not None and one[1] == mm.group(1) + "[]" and re.search(r"\[\]\.1$", mm.group(1)) is not None
            c.ob("T03.ids", ev, ok, "shares the ids of %s" % (a,), key="union:of")
            el = re.escape(one[1]) if ok else None
            if ok:
                l2 = loops(g, el)
                c.ob("T03.ids", ev, bool(l2), "not all that share are made to", key="union:each")
                # which of the elements: an edge on the lookup coming up empty may pass
                for a2, b2 in l2.values():
                    q = g.search(any_of(a2, b2, ret_of(g, "Ok")), start=a2, block=is_ev(ev), given=opt(r"^(\w+::)*get\(.*\)", True))
                    c.ob("T03.ids", ev, q is None, "some that share don't on %s" % fmt_path(q or []), key="union:all")
        # labels
        out = [ev for ev in g.events(lambda ev: ev.kind == "call" and re.search(r"Map::insert$", ev.callee) is not None)]
        out = [ev for ev in out if re.search(r"Map<.*TempId.*, usize", str(ev.frame.body.ty(op_place(ev.data["a"][0]).local)))]
        c.ob("T03.ids", f, bool(out), "no ids are answered", key="label")
        for ev in out:
            a = args_of(g, ev)
            rep = r"UnionFind::find(_mut)?\(.*, #\)"
            c.ob("T03.ids", ev, re.fullmatch(r"IndexSet::(get_full\(.*, %s\)\.0(\.0)?|insert_full\(.*, %s\)\.0)" % (rep, rep), a[2]) is not None, "a tempid is labelled %s" % a[2][:200], key="label:what")
            c.ob("T03.ids", ev, re.fullmatch(r"\{?%s(\|%s)?\}?" % ("(%s|%s)" % (e_, v_), "(%s|%s)" % (e_, v_)), a[1]) is not None, "labels %s" % a[1][:200], key="label:of")
        en = g.events(call_to(r".*Iterator::enumerate"))
        c.ob("T03.ids", f, len(en) == 1, "tempids are numbered %d times" % len(en), key="number")
        ls3 = [x for x in loops_any(g).items() if any(g.search(is_ev(ev), start=x[1][0], block=x[1][1]) for ev in out)]
        ok = any(g.search(any_of(a, b, ret_of(g, "Ok")), start=a, block=any_of(*[is_ev(e) for e in out]), given=opt(r"^(\w+::)*(get_full|insert_full)\(.*\)", True)) is None for _, (a, b) in ls3) if out else False
        c.ob("T03.ids", f, ok, "not every tempid is labelled", key="label:all")
        lab = [ev for ev in g.events(lambda ev: ev.kind == "call" and re.search(r"IndexSet::(insert|insert_full)$", ev.callee) is not None)]
        for e in g.events(lambda ev: ev.kind == "call" and re.search(r"IndexSet::get_full$", ev.callee) is not None):
            q = g.search(is_ev(e), block=any_of(*[is_ev(x) for x in lab]) if lab else None)
            c.ob("T03.ids", e, q is None, "a label is looked for before there is one on %s" % fmt_path(q or []), key="label:there")
        c.done(g)

def loops_any(g):
    """Every `for` in the graph: {(frame, block): (some edge, none edge)}."""
    out = {}
    for ev in g.events(lambda e: e.kind == "edge" and e.tag is not None and e.tag[2] in ("Some", "None") and str(e.tag[1]).endswith("option::Option")):
        k = (ev.frame.id, ev.block)
        edge = lambda v: lambda e, k=k: e.kind == "edge" and (e.frame.id, e.block) == k and e.tag is not None and e.tag[2] == v
        out[k] = (edge("Some"), edge("None"))
    return out

# ---- T04 ---------------------------------------------------------------------------------------
CMP = {"Lt": lambda a, b: a < b, "Le": lambda a, b: a <= b, "Gt": lambda a, b: a > b, "Ge": lambda a, b: a >= b, "Eq": lambda a, b: a == b, "Ne": lambda a, b: a != b}

def ranked(g, ranks):
    """What a bool function answers when the quantities (regex -> rank) are so ordered: a set of "0", "1" or "?"."""
    items = list(ranks.items())
    def given(ev):
        for i, (a, ra) in enumerate(items):
            for b, rb in items[i + 1:]:
                r = relation(ev, "^%s$" % a, "^%s$" % b)
                if r is not None and not CMP[r](ra, rb): return True
        return False
    out = set()
    for x in answers(g, given):
        if x in ("0", "1"): out.add(x); continue
        m = re.fullmatch(r"(?P<n>!|Not)?\(?\((?P<a>.*) (?P<o>Lt|Le|Gt|Ge|Eq|Ne) (?P<b>.*)\)\)?", x)
        ra = next((r for p, r in items if m and re.fullmatch(p, m.group("a"))), None)
        rb = next((r for p, r in items if m and re.fullmatch(p, m.group("b"))), None)
        if ra is None or rb is None: out.add("?:" + x); continue
        v = CMP[m.group("o")](ra, rb)
        out.add("1" if v != bool(m.group("n")) else "0")
    return out

NEXT = "next_entid_to_allocate"
PART = r"mentat_db::types::Partition$"

@rule("T04")
def t04_range(c):
    c.rule("T04.held", "an entity id is taken to be allocated exactly if it is at or after its partition's start and before the next to be allocated")
    c.rule("T04.fresh", "allocating n ids gives the n from the next to be allocated on, and moves the next past them; nothing else moves it, except that it must stay in the partition's range")
    P = c.P.adts.get("mentat_db::types::Partition")
    c.floor("T04.held", "partitions", 1 if P else 0, 1)
    ps = [f for f in c.P.fns if f.kind != "closure" and f.body is not None and f.crate == DB and not f.impl_of and any(re.search(r"types::Partition$", f.body.ty(i)) for i in range(1, f.body.argc + 1)) and not re.search(r"::(tests?|debug)::", f.path)]
    bools = [f for f in ps if f.body.ty(0) == "bool" and f.body.argc == 2]
    n = 0
    for f in bools:
        g = c.graph(f, None, small=20, keep=True)
        s, e = f.body.name(1), f.body.name(2)
        S, E_, X = s + r"\.start", s + r"\.end", s + r"\." + NEXT
        if any(NEXT in str(ev.data) for ev in g.events(lambda ev: ev.kind == "stmt")) or any(NEXT in a for a in answers(g)):
            n += 1
            for ranks, want in (((1, 0, 2), "0"), ((1, 1, 2), "1"), ((1, 2, 3), "1"), ((1, 3, 3), "0"), ((1, 4, 3), "0"), ((1, 1, 1), "0")):
                a = ranked(g, {S: ranks[0], e: ranks[1], X: ranks[2], E_: 9})
                c.ob("T04.held", f, a == {want}, "an id %s the start and %s the next is%s allocated: %s" % (("before", "at", "after")[1 + (ranks[1] > ranks[0]) - (ranks[1] < ranks[0])], ("before", "at", "after")[1 + (ranks[1] > ranks[2]) - (ranks[1] < ranks[2])], "" if want == "1" else "n't", sorted(a)), key="holds:%d%d%d" % ranks)
        else:
            for ranks, want in (((1, 0, 2), "0"), ((1, 1, 2), "1"), ((1, 2, 3), "1"), ((1, 3, 3), "1"), ((1, 4, 3), "0")):
                a = ranked(g, {S: ranks[0], e: ranks[1], E_: ranks[2]})
                c.ob("T04.fresh", f, a == {want}, "the range of a partition: %s for %s" % (sorted(a), ranks), key="allows:%d%d%d" % ranks)
        c.done(g)
    c.floor("T04.held", "functions that say whether a partition holds an id", n, 1)
    holders = {f.h for f in bools if any(NEXT in str(b) for b in f.body.blocks)}
    # the map of partitions
    pm = [f for f in c.P.fns if f.kind != "closure" and f.body is not None and f.crate == DB and f.body.argc == 2 and f.body.ty(0) == "bool" and re.search(r"types::PartitionMap$", f.body.ty(1)) and re.match("i64", f.body.ty(2))]
    c.floor("T04.held", "functions that say whether an id is allocated", len(pm), 1)
    for f in pm:
        g = c.graph(f, None, small=0, keep=True, extra=lambda fn: fn.kind == "closure")
        g.T.opaque = lambda n: re.search(r"Partition::", n) is not None
        s, e = f.body.name(1), f.body.name(2)
        cs = [ev for ev in g.events(lambda ev: ev.kind == "call" and any(t.h in holders for t in c.P.targets(ev.data["f"]["k"]) if "k" in ev.data["f"]))] if True else []
        ok = [ev for ev in cs if re.fullmatch(r"%s(\.0)?\[\](\.1)?" % s, args_of(g, ev)[0]) and args_of(g, ev)[1] == e]
        c.ob("T04.held", f, bool(ok) and len(ok) == len(cs), "an id is looked for by %s" % [args_of(g, ev) for ev in cs], key="any:each")
        r = answers(g)
        c.ob("T04.held", f, len(r) == 1 and re.fullmatch(r"Iterator::any\(\[?%s(\.0)?\[\](\.1)?\]?, <closure>\)" % s, r[0]) is not None and not negated(g) or r == ["0", "1"] and by_loop(g, ok), "an id is allocated if %s" % r, key="any")
        c.done(g)
    # allocation
    al = [f for f in ps if re.search(r"Range<i64>$", f.body.ty(0))]
    c.floor("T04.fresh", "functions that allocate", len(al), 1)
    for f in al:
        g = c.graph(f, None, small=20, keep=True)
        s, n_ = f.body.name(1), f.body.name(2)
        X = r"%s\.%s" % (s, NEXT)
        r = [t for t in g.T.place(g.rootf, 0, ())]
        new = r"(\(%s Add %s\)|\(%s Add %s\)|%s)" % (X, n_, n_, X, X)
        okr = [t for t in r if t[0] == "agg" and str(t[1]).endswith("Range")]
        c.ob("T04.fresh", f, bool(r) and len(okr) == len(r) and all(re.fullmatch(X, rset(dict(t[3])["start"])) and re.fullmatch(new, rset(dict(t[3])["end"])) for t in okr), "gives %s" % [rend(t) for t in r], key="gives")
        wr = [ev for ev in g.events(lambda ev: ev.kind == "stmt" and any(str(x).startswith("." + NEXT) for x in ev.data[0][1:]))]
        c.ob("T04.fresh", f, bool(wr) and all(re.fullmatch(r"\(%s Add %s\)|\(%s Add %s\)" % (X, n_, n_, X), rset(g.T.rvalue(ev.frame, ev.data[1], (), 0))) for ev in wr), "the next becomes %s" % [rset(g.T.rvalue(ev.frame, ev.data[1], (), 0)) for ev in wr], key="moves")
        for ev in wr:
            q = g.search(ret_of(g), block=is_ev(ev))
            c.ob("T04.fresh", f, q is None, "the next isn't moved on %s" % fmt_path(q or []), key="moves:always")
        # the start is read before it moves
        rd = reads_of(g, "start", NEXT)
        c.ob("T04.fresh", f, bool(rd), "where the ids start isn't read", key="start")
        for ev in rd:
            q = any(g.search(is_ev(ev), start=is_ev(w)) for w in wr)
            c.ob("T04.fresh", ev, not q, "where the ids start is read after the next has moved", key="start:before")
        c.done(g)
    # nothing else moves it
    movers = set()
    for f in ps:
        if any(any(str(x).startswith("." + NEXT) for x in st[0][1:]) for b in f.body.blocks for st in b["s"] if isinstance(st, list) and st and isinstance(st[0], list)): movers.add(f)
    c.floor("T04.fresh", "functions that move the next id", len(movers), 1)
    rng = {f.h for f in bools if f.h not in holders}
    for f in movers:
        g = c.graph(f, None, small=0, keep=True)
        g.T.opaque = lambda n: re.search(r"types::Partition::\w+$", n) is not None
        if f in al: continue
        wr = [ev for ev in g.events(lambda ev: ev.kind == "stmt" and any(str(x).startswith("." + NEXT) for x in ev.data[0][1:]))]
        for ev in wr:
            v = rset(g.T.rvalue(ev.frame, ev.data[1], (), 0))
            c.ob("T04.fresh", ev, v == f.body.name(2), "the next becomes %s" % v, key="set")
            ok = contradicts(r"Partition::(%s)\(.*, %s\)$" % ("|".join(x.name for x in bools if x.h not in holders) or "!", f.body.name(2)), "0")
            q = g.search(is_ev(ev), given=ok)
            c.ob("T04.fresh", ev, q is None, "the next may leave the partition on %s" % fmt_path(q or []), key="set:range")
        c.done(g)
    mh = {f.h for f in movers}
    back = c.P.callgraph()[1]
    for f in sorted({c.P.by_h[x] for h in mh for x in back.get(h, ())}, key=lambda f: f.path):
        if f in al or re.search(r"::(tests?|debug)::", f.path): continue
        g = c.graph(f, None, small=0, keep=True)
        g.T.opaque = lambda n: re.search(r"types::Partition::\w+$", n) is not None
        for ev in g.events(lambda ev: ev.kind == "call" and "k" in ev.data["f"] and any(t.h in mh for t in c.P.targets(ev.data["f"]["k"]))):
            a = args_of(g, ev)
            o = op_place(ev.data["a"][0])
            up = re.fullmatch(r"\((.*) Add 1\)", a[1])
            dn = re.fullmatch(r"\((.*) Sub 1\)", a[1])
            if up:
                e = re.escape(up.group(1))
                less = lambda ev: relation(ev, "^%s$" % e, r"next_entid") in ("Lt",)
                q = g.search(is_ev(ev), start=lambda x: x.kind == "edge" and relation(x, "^%s$" % e, r"next_entid") == "Lt", block=lambda x: x.kind == "call" and x.callee.endswith("::next"))
                q2 = g.search(is_ev(ev), block=lambda x: x.kind == "edge" and relation(x, "^%s$" % e, r"next_entid") in ("Ge", "Gt", "Eq"))
                c.ob("T04.fresh", ev, q is None and q2 is None, "the next may move back on %s" % fmt_path(q or q2 or []), key="elsewhere:up")
                q3 = g.search(is_ev(ev), given=contradicts(r"Partition::(%s)\(.*, %s\)$" % ("|".join(x.name for x in bools if x.h not in holders) or "!", e), "0"))
                c.ob("T04.fresh", ev, q3 is None, "the next may leave the partition on %s" % fmt_path(q3 or []), key="elsewhere:range")
            elif dn:
                c.ob("T04.fresh", ev, re.search(r"get_mut\(.*, ':db\.part/tx'\)", a[0]) is not None and re.search(NEXT + "$|next_entid\\(", dn.group(1)) is not None, "the next of %s moves back" % a[0][:150], key="elsewhere:down")
            else: c.ob("T04.fresh", ev, False, "the next of %s becomes %s" % (a[0][:150], a[1][:150]), key="elsewhere")
        c.done(g)

def negated(g):
    return any(ev.kind == "stmt" and ev.data[1]["r"] == "un" for ev in g.events(lambda ev: ev.kind == "stmt" and ev.data[1]["r"] == "un" and "Not" in str(ev.data[1].get("op"))))

def by_loop(g, calls):
    """Answers 1 exactly after one of the calls did."""
    yes = lambda ev: ev.kind == "edge" and tests(g, ev, calls) == "1"
    no = lambda ev: ev.kind == "edge" and tests(g, ev, calls) == "0"
    one = lambda ev: ev.kind == "stmt" and ev.frame is g.rootf and ev.data[0] == [0] and rset(g.T.rvalue(ev.frame, ev.data[1], (), 0)) == "1"
    zero = lambda ev: ev.kind == "stmt" and ev.frame is g.rootf and ev.data[0] == [0] and rset(g.T.rvalue(ev.frame, ev.data[1], (), 0)) == "0"
    return g.search(one, block=yes) is None and g.search(zero, start=yes) is None and all(g.search(any_of(is_ev(e), ret_of(g)), start=is_ev(e), block=any_of(yes, no)) is None for e in calls)

def reads_of(g, field, src):
    """The statements that read the place ending in `.src` which becomes `field` of the answer."""
    out = []
    for ev in g.events(lambda ev: ev.kind == "stmt" and ev.frame is g.rootf and ev.data[1]["r"] == "agg" and ev.data[0] == [0]):
        r = ev.data[1]
        i = list(r["f"]).index(field) if field in r.get("f", []) else None
        if i is None: continue
        fr, o, at = ev.frame, r["a"][i], ev
        for _ in range(12):
            p = op_place(o)
            if p is None: break
            if any(str(x).startswith("." + src) for x in p.proj): out.append(at); break
            ds = fr.body.defs().get(p.local, [])
            if len(ds) != 1: break
            b, j, x = ds[0]
            if isinstance(x, dict):
                # a call: go into what it returns
                hit = [e for e in g.events(lambda e: e.kind == "stmt" and e.frame.parent is fr and e.frame.block == b and e.data[0] == [0])]
                if len(hit) != 1: break
                at = hit[0]; fr = at.frame; rv = at.data[1]
                if rv["r"] not in ("use", "cast"): break
                o = rv["o"]; continue
            hit = [e for e in g.events(lambda e: e.kind == "stmt" and e.frame is fr and e.block == b and e.idx == j)]
            if not hit: break
            at = hit[0]; rv = x[1]
            if rv["r"] in ("use", "cast"): o = rv["o"]
            elif rv["r"] == "ref": o = {"c": rv["p"]}
            else: break
    return out

@rule("T04")
def t04_given(c):
    c.rule("T04.partition", "a transaction's own id comes from the partition of transactions and the ids of new entities from the user partition; partitions' ranges don't overlap")
    c.rule("T04.stored", "a store opened again goes on after the greatest id its log has in each partition, and from the start of a partition it has none in")
    al = [f for f in dbfns(c) if re.search(r"types::PartitionMap$", f.body.ty(1) if f.body.argc else "") and re.match(r"&('\w+ )?mut ", f.body.ty(1)) and re.search(r"^i64$|Range<i64>", f.body.ty(0))]
    c.floor("T04.partition", "functions that allocate in a partition", len(al), 1)
    for f in al:
        g = c.graph(f, None, small=0, keep=True)
        g.T.opaque = lambda n: re.search(r"types::Partition::\w+$|PartitionMap>?::\w+$|::allocate_entids?$", n) is not None
        s, p = f.body.name(1), f.body.name(2)
        one = re.search("i64$", f.body.ty(0)) and f.body.ty(0) == "i64"
        n_ = "1" if one else f.body.name(3)
        r = answers(g)
        A = r"(\w+::)*allocate_entids\((BTreeMap::get_mut\(%s(\.0)?, %s\)(\.0)?, %s|%s, %s, %s)\)" % (s, p, n_, s, p, n_)
        c.ob("T04.partition", f, bool(r) and all(re.fullmatch(A + (r"\.start" if one else ""), x) for x in r), "allocates %s" % r, key="in:%s" % f.body.argc)
        c.done(g)
    calls = [(f, f.name) for f in al]
    hs = {f.h for f in al}
    back = c.P.callgraph()[1]
    n = 0
    for f in sorted({c.P.root_of(c.P.by_h[x]) for h in hs for x in back.get(h, ())}, key=lambda f: f.path):
        if f.h in hs or re.search(r"::(tests?|debug)::", f.path): continue
        g = c.graph(f, None, small=0, keep=True, extra=lambda fn: fn.kind == "closure")
        for ev in g.events(lambda ev: ev.kind == "call" and "k" in ev.data["f"] and any(t.h in hs for t in c.P.targets(ev.data["f"]["k"]))):
            a = args_of(g, ev)
            n += 1
            single = not any(t.body.argc > 2 for t in c.P.targets(ev.data["f"]["k"]))
            # what becomes of a single id: the transaction's
            want = "':db.part/tx'" if single else "':db.part/user'"
            c.ob("T04.partition", ev, a[1] == want, "ids are allocated from %s" % a[1], key="from:%s" % ("one" if single else "many"))
        c.done(g)
    c.floor("T04.partition", "places ids are allocated", n, 2)
    # ranges
    init = [f for f in c.P.fns if re.search(r"V1_PARTS.*__static_ref_initialize$", f.path) and f.body is not None]
    rows = []
    for f in init:
        g = c.graph(f, None, small=0, keep=True)
        for t in g.T.place(g.rootf, 0, ()):
            if t[0] == "agg":
                for k, v in t[3]:
                    for y in v:
                        if y[0] == "agg": rows.append({i: rset(w) for i, w in y[3]})
        c.done(g)
    c.floor("T04.partition", "partitions", len(rows), 3)
    def num(x):
        if re.search(r"max_value\(\)$|::MAX$", x): return 2 ** 63 - 1
        return int(eval(re.sub(r"Add", "+", re.sub(r"Sub", "-", x)), {"__builtins__": {}})) if re.fullmatch(r"[\d ()]*((Add|Sub)[\d ()]*)*", x) else None
    rg = sorted((num(r["1"]) if num(r["1"]) is not None else -1, num(r["2"]) if num(r["2"]) is not None else -2, r["0"], r["3"]) for r in rows)
    for a in rg: c.ob("T04.partition", init[0], 0 <= a[0] <= a[1], "%s ranges over %s..%s" % (a[2], a[0], a[1]), key="range:" + a[2])
    for a, b in zip(rg, rg[1:]): c.ob("T04.partition", init[0], a[1] < b[0], "%s and %s overlap" % (a[2], b[2]), key="overlap:" + a[2])
    for a in rg:
        if "'db'" not in a[2]: c.ob("T04.partition", init[0], num(a[3]) == a[0], "the first id of %s is %s" % (a[2], a[3]), key="first:" + a[2])
    # read back
    rd = [f for f in dbfns(c) if re.search(r"Result<mentat_db::types::PartitionMap", f.body.ty(0)) and f.body.argc == 1 and re.search(r"rusqlite::Connection$", f.body.ty(1))]
    c.floor("T04.stored", "functions that read partitions", len(rd), 1)
    for f in rd:
        ss = [s for s in c.sql() if c.P.root_of(s.fn) is f and s.stmts]
        c.ob("T04.stored", f, bool(ss), "nothing is read", key="sql")
        order = None
        for s in ss:
            for txt, st in s.stmts:
                def reads(st):
                    ts = {al or t[1]: t[1] for t, al, _, _ in st["from"] if t[0] == "tab"}
                    w = lambda x: (ts.get(x[1], x[1]) if x[1] else (list(ts.values())[0] if len(ts) == 1 else None), x[2]) if x and x[0] == "col" else x
                    return ts, [w(x) for x, _ in st["cols"]], w
                ts, cols, w = reads(st)
                K = lambda x: ("known_parts", x)
                c.ob("T04.stored", s.fn, sorted(ts.values()) == ["known_parts", "parts"], "reads %s" % sorted(ts.values()), key="read:from")
                c.ob("T04.stored", s.fn, sorted(map(str, cols)) == sorted(map(str, [K("part"), K("start"), K("end"), ("parts", "idx"), K("allow_excision")])) or sorted(map(str, cols)) == sorted(map(str, [("parts", "part"), K("start"), K("end"), ("parts", "idx"), K("allow_excision")])), "reads %s" % cols, key="read:cols")
                ons = [x[3] for x in st["from"] if x[3]] + ([st["where"]] if st["where"] else [])
                c.ob("T04.stored", s.fn, len(ons) == 1 and ons[0][0] == "eq" and {w(ons[0][1]), w(ons[0][2])} == {K("part"), ("parts", "part")} and not st["group"] and st["limit"] is None, "joins on %s" % ons, key="read:on")
                comp = st["compound"]
                ok = len(comp) == 1 and comp[0][0] in ("union", "union all")
                if ok:
                    st2 = comp[0][1]
                    ts2, cols2, w2 = reads(st2)
                    want = [K("start") if x == ("parts", "idx") else (K("part") if x == ("parts", "part") else x) for x in cols]
                    wh = st2["where"]
                    ok = list(ts2.values()) == ["known_parts"] and cols2 == want and wh is not None and wh[0] == "not" and wh[1][0] == "in" and w2(wh[1][1]) == K("part") and wh[1][2][0] == "sel" and [x for x, _ in wh[1][2][1]["cols"]] == [("col", None, "part")] and [t[0] for t in wh[1][2][1]["from"]] == [("tab", "parts")] and not wh[1][2][1]["where"]
                c.ob("T04.stored", s.fn, ok, "a partition with nothing in it is read by %s" % (comp,), key="read:none")
                order = [x[1] for x in cols]
        g = c.graph(f, None, small=0, keep=True, extra=lambda fn: fn.kind == "closure" or fn.path.endswith("types::Partition::new"))
        ps = [dict(t[3]) for ev in g.events(lambda ev: ev.kind == "stmt" and ev.data[1]["r"] == "agg" and re.search(PART, str(ev.data[1].get("adt")))) for t in g.T.rvalue(ev.frame, ev.data[1], (), 0)]
        c.ob("T04.stored", f, bool(ps), "no partition is made", key="made")
        for p in ps:
            for fld, col in (("start", "start"), ("end", "end"), (NEXT, "idx"), ("allow_excision", "allow_excision")):
                m = re.search(r"Row::get(?:_unwrap)?\(.*, (\d+)\)$", rset(p.get(fld, frozenset())), re.S)
                c.ob("T04.stored", f, bool(m) and order is not None and int(m.group(1)) < len(order) and order[int(m.group(1))] == col, "%s is read from column %s of %s" % (fld, m and m.group(1), order), key="made:" + fld)
        c.done(g)
    vs = [(s, txt, st) for s in c.sql() if s.fn.crate == DB for txt, st in s.stmts if st.get("kind") == "create" and st.get("what") == "view" and st.get("table") == "parts"]
    c.floor("T04.stored", "views of the partitions in use", len(vs), 1)
    for s, txt, st in vs:
        q = st["select"]
        d = {al: x for x, al in q["cols"]}
        c.ob("T04.stored", s.fn, d.get("idx") in (("bin", "+", ("call", "max", [("col", None, "e")]), ("lit", 1)), ("bin", "+", ("lit", 1), ("call", "max", [("col", None, "e")]))), "the next id is %s" % (d.get("idx"),), key="view:next")
        c.ob("T04.stored", s.fn, q["group"] == [("col", None, "part")], "is for each %s" % q["group"], key="view:group")
        c.ob("T04.stored", s.fn, [t[0] for t in q["from"]] == [("tab", "timelined_transactions")] and re.search(r"^\('eq', \('col', None, 'timeline'\), \('(hole', '.*TIMELINE_MAIN.*|lit', 0)'?\)\)$", str(q["where"])) is not None, "is of %s where %s" % (q["from"], q["where"]), key="view:of")
        # values are entities too
        c.ob("T04.stored", s.fn, re.search(r"\bv\b", txt.lower().split(" from ")[0]) is not None, "an id that was only ever a value is given out again once the store is opened again", key="view:values")
        g = c.graph(c.P.root_of(s.fn), None, small=0, keep=True, extra=lambda fn: fn.kind == "closure")
        ws = [(ev, rset(g.T.operand(ev.frame, ev.data["a"][1]))) for ev in g.events(lambda ev: grows(ev) and re.search("String", str(ev.frame.body.ty(op_place(ev.data["a"][0]).local))))]
        c.done(g)
        import sqltext
        whens = []
        for fr in [c.P.root_of(s.fn)]:
            g = c.graph(fr, None, small=0, keep=True, extra=lambda fn: fn.kind == "closure")
            for ev in g.events(lambda ev: ev.kind == "call" and re.search(r"fmt::format$", ev.callee) is not None):
                for t in sqltext.texts(g.T.operand(ev.frame, ev.data["a"][0]), g.T) if hasattr(sqltext, "texts") else []:
                    whens.append(str(t))
            c.done(g)
        wh = [w for w in whens if re.match(r"\s*WHEN ", w, re.I)]
        c.ob("T04.stored", s.fn, bool(wh) and all(re.fullmatch(r"\s*WHEN e <= ⟦.*\.1\)?⟧ THEN [\"']⟦.*\.0\)?⟧[\"']\s*", w, re.I | re.S) for w in wh), "an id is in a partition %s" % [w[:200] for w in wh], key="view:which")
        src = [x for x in c.sql() if c.P.root_of(x.fn) is c.P.root_of(s.fn) for _, y in x.stmts if y.get("kind") == "select"]
        for x in src:
            for _, y in x.stmts:
                c.ob("T04.stored", x.fn, [a for a, _ in y["cols"]] == [("col", None, "part"), ("col", None, "end")] and y["order"] == [(("col", None, "end"), "asc")] and y["where"] is None and [t[0] for t in y["from"]] == [("tab", "known_parts")], "partitions are tried as by %s" % (y,), key="view:order")
    ins = [(s, st) for s in c.sql() if s.fn.crate == DB for _, st in s.stmts if st.get("kind") == "insert" and st.get("table") == "known_parts"]
    c.floor("T04.stored", "inserts of partitions", len(ins), 1)
    for s, st in ins:
        g = c.graph(c.P.root_of(s.fn), None, small=0, keep=True, extra=lambda fn: fn.kind == "closure")
        n = 0
        for ev in g.events(lambda ev: ev.kind == "call" and re.search(r"::execute$", ev.callee) is not None and "known_parts" in " ".join(args_of(g, ev))):
            for t in g.T.operand(ev.frame, ev.data["a"][2]):
                if t[0] != "agg": continue
                n += 1
                for (i, v), col in zip(t[3], st["cols"]):
                    x = rset(v)
                    c.ob("T04.stored", ev, re.search(r"\[\]\.0\)?$" if col == "part" else r"\[\](\.1)?\.%s\)?$" % col, x) is not None or re.search(r"V1_PARTS\[\]\.%d\)?$" % ("part", "start", "end", "idx", "allow_excision").index(col), x) is not None, "%s is stored as %s" % (col, x[-120:]), key="insert:" + col)
        c.ob("T04.stored", s.fn, n > 0, "partitions aren't stored", key="insert")
        c.done(g)
