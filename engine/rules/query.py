"""Queries: what is asked of the store, and what is made of its answers."""
import re
from ctx import *
from model import op_place, Place
from registry import rule
from rules.cache import within, answers, argis, each, among

GETS = {"get_value_for_entid": ("forward", "0", None), "get_values_for_entid": ("forward", "1", None),
        "get_entid_for_value": ("reverse", None, True), "get_entids_for_value": ("reverse", None, False)}
TRAIT = r"(.*::)?CachedAttributes(<.*>)?>?::"

def asked(g, name=None):
    """Reads of the cache by its users (not by the cache itself)."""
    def p(ev):
        if ev.kind != "call" or ev.frame.fn.path.startswith(("mentat_db::", "<mentat_db::")): return False
        m = re.fullmatch(TRAIT + r"(get_\w+)", ev.callee)
        return m is not None and m.groups()[-1] in GETS and (name is None or m.groups()[-1] == name)
    return p

def cachegraph(c, f, small=0):
    """What leads to a read of the cache, down to the readers' own trait."""
    P = c.P
    inside = lambda fn: fn.path.startswith(("mentat_db::", "<mentat_db::"))
    hits = [fn for fn in P.fns if fn.body is not None and not inside(fn) and any(k is not None and re.fullmatch(TRAIT + r"\w+", callee_fn(k) or "") for _, _, k in fn.body.calls())]
    fwd = P.callgraph()[0]
    # only within this crate (and the plain wrappers around the trait): an answer fetched from the store is another matter
    known = lambda fn: P.root_of(fn).path.startswith("mentat_query_algebrizer::Known")
    ok = {h.h for h in hits if known(h) or h.crate == f.crate} | {h.h for h in P.fns if h.body is not None and known(h)}
    grew = True
    while grew:
        grew = False
        for fn in P.fns:
            if fn.body is None or fn.h in ok or fn.crate != f.crate or inside(fn): continue
            if fwd.get(fn.h, set()) & ok: ok.add(fn.h); grew = True
    g = c.graph(f, None, small=small, keep=True, extra=lambda fn: fn.h in ok or (not inside(fn) and fn.crate in (f.crate,) and re.search(r"Schema|Attribute", " ".join(fn.body.ty(i) for i in range(1, fn.body.argc + 1))) is not None and len(fn.body.blocks) < 30))
    g.T.opaque = lambda n: re.search(r"CachedAttributes(<.*>)?>?::", n) is not None
    return g

def users(c):
    """Functions that read the cache, taken at the callers that decide to."""
    P = c.P
    direct = set()
    for f in P.fns:
        if f.body is None or f.path.startswith(("mentat_db::", "<mentat_db::", "mentat_query_algebrizer::Known", "mentat_core::")): continue
        for bi, t, k in f.body.calls():
            if k and re.search(r"(Known.*|CachedAttributes(<.*>)?>?)::get_(values?_for_entid|entids?_for_value)$", callee_fn(k) or ""): direct.add(f.h)
    back = P.callgraph()[1]
    out = set()
    for h in direct:
        f = P.root_of(P.by_h[h])
        # up to the function the pattern comes in by
        seen, todo = set(), [f.h]
        while todo:
            x = todo.pop()
            if x in seen: continue
            seen.add(x)
            fx = P.root_of(P.by_h[x])
            ups = [P.root_of(P.by_h[y]) for y in back.get(fx.h, ()) if y in P.by_h and P.by_h[y].path.split("::")[0].lstrip("<") == fx.path.split("::")[0].lstrip("<")]
            same = [u for u in ups if u.body is not None and u.file == fx.file and any("Pattern" in u.body.ty(i) for i in range(1, u.body.argc + 1)) and not u.path.endswith("tests")]
            if any("EvolvedPattern" in fx.body.ty(i) for i in range(1, fx.body.argc + 1)) and not any("EvolvedPattern" in u.body.ty(i) for u in same for i in range(1, u.body.argc + 1)):
                out.add(fx.h); continue
            nxt = [u for u in same if "EvolvedPattern" in " ".join(u.body.ty(i) for i in range(1, u.body.argc + 1))]
            if nxt: todo += [u.h for u in nxt]
            else: out.add(fx.h)
    return [P.by_h[h] for h in sorted(out)]

@rule("Q07")
def q07_asked(c):
    c.rule("Q07.fit", "the cache is only asked for values of an attribute that is cached in that direction, by the attribute's cardinality or uniqueness")
    c.rule("Q07.asked", "what is looked up is the attribute, entity or value the query names")
    c.rule("Q07.plain", "the cache never answers a pattern that names a transaction or another source")
    c.rule("Q07.result", "what the cache holds is the answer: a query is found empty only when the cache holds nothing, a variable is given exactly what it holds, and when it can't tell the store is asked")
    fs = users(c)
    c.floor("Q07.fit", "functions that answer from the cache", len(fs), 3)
    n = 0
    for f in fs:
        g = cachegraph(c, f)
        done = ret_of(g)
        evs = g.events(asked(g))
        n += len(evs)
        for name, (d, multi, uniq) in GETS.items():
            mine = asked(g, name)
            if not g.events(mine): continue
            ai = 2 if d == "forward" else 1
            attrs = {args_of(g, ev)[ai] for ev in g.events(mine)}
            for a in sorted(attrs):
                one = lambda ev, a=a: mine(ev) and args_of(g, ev)[ai] == a
                q = g.search(one, given=contradicts(r"is_attribute_cached_%s\(.*, %s\)$" % (d, re.escape(a)), "0"))
                q = q or g.search(one, block=any_of(call_to(r".*is_attribute_cached_" + d)))
                c.ob("Q07.fit", f, q is None, "%s: an attribute not cached %s is looked up in the cache: %s" % (name, d, fmt_path(q or [])), key="dir:%s:%s" % (f.name, name))
                if multi is not None:
                    q = g.search(one, given=contradicts(r"\.multival$", "1" if multi == "0" else "0"))
                    c.ob("Q07.fit", f, q is None, "%s for an attribute of the other cardinality: %s" % (name, fmt_path(q or [])), key="card:%s:%s" % (f.name, name))
                else:
                    q = g.search(one, given=opt(r"\.unique", not uniq))
                    c.ob("Q07.fit", f, q is None, "%s for %s attribute: %s" % (name, "a unique" if not uniq else "an attribute that isn't unique, as if a unique", fmt_path(q or [])), key="uniq:%s:%s" % (f.name, name))
        pat = next((f.body.name(i) for i in range(1, f.body.argc + 1) if "EvolvedPattern" in f.body.ty(i)), None)
        for ev in evs:
            a = args_of(g, ev)
            name = ev.callee.split("::")[-1]
            d = GETS[name][0]
            attr, key = (a[2], a[3]) if d == "forward" else (a[1], a[2])
            if pat:
                ok = attr == pat + ".attribute.0"
                k = r"%s\.entity\.0" % pat if d == "forward" else r"(TypedValue::Keyword\{0: )?%s\.value\.0\}?" % pat
                c.ob("Q07.asked", f, ok and re.fullmatch(k, key) is not None, "%s(%s, %s)" % (name, attr, key), key="%s:%s" % (f.name, name))
            else:
                ps = [f.body.name(i) for i in range(1, f.body.argc + 1)]
                ok = attr in ps and key in ps and attr != key and ps.index(key) < ps.index(attr)
                c.ob("Q07.asked", f, ok, "%s(%s, %s)" % (name, attr, key), key="%s:%s" % (f.name, name))
        if pat:
            _pattern(c, f, g, pat, done)
        else:
            _lookup(c, f, g)
        c.done(g)
    c.floor("Q07.fit", "reads of the cache", n, 6)

def _pattern(c, f, g, pat, done):
    get = asked(g)
    for v in ("Entid", "Variable"):
        q = g.search(get, given=choice(r"%s\.tx$" % pat, "EvolvedNonValuePlace", v))
        given = any_of(choice(r"%s\.tx$" % pat, "EvolvedNonValuePlace", v), lambda ev: relation(ev, r"^(discr\()?%s\.tx\)?$" % pat, r"EvolvedNonValuePlace::Placeholder") == "Eq")
        q = g.search(get, given=given)
        c.ob("Q07.plain", f, q is None, "a pattern naming a transaction (%s) is answered from the cache: %s" % (v, fmt_path(q or [])), key="tx:" + v)
    q = g.search(get, given=lambda ev: relation(ev, r"^(discr\()?%s\.source\)?$" % pat, r"SrcVar::DefaultSrc") == "Eq")
    c.ob("Q07.plain", f, q is None, "a pattern over another source is answered from the cache: %s" % fmt_path(q or []), key="source")
    empty = lambda ev: ev.kind == "call" and ev.callee.endswith("::mark_known_empty")
    bind = lambda ev: ev.kind == "call" and ev.callee.endswith("::bind_value")
    # the store is asked once the pattern is handed on, to whatever reads no cache
    reads = c.P.reaching({ev.frame.fn for ev in g.events(get)})
    ask = lambda ev: ev.kind == "call" and pat in args_of(g, ev) and not any(t in reads for t in c.P.targets(ev.data["f"].get("k") or {}))
    for name, (d, multi, uniq) in GETS.items():
        if not g.events(asked(g, name)): continue
        t = r"(.*CachedAttributes::)?%s\(.*\)" % name
        # the cache holds something: not empty
        if name in ("get_value_for_entid", "get_entid_for_value"):
            q = g.search(any_of(lambda ev: empty(ev) and "TypeMismatch" not in args_of(g, ev)[1], done), start=asked(g, name), block=any_of(bind, ask), given=opt(t, True))
            c.ob("Q07.result", f, q is None, "%s: what the cache holds isn't bound: %s" % (name, fmt_path(q or [])), key="some:" + name)
            q = g.search(any_of(bind, done), start=asked(g, name), block=any_of(empty, ask), given=opt(t, False))
            c.ob("Q07.result", f, q is None, "%s: the cache holds nothing, and the query isn't empty: %s" % (name, fmt_path(q or [])), key="none:" + name)
        else:
            q = g.search(any_of(lambda ev: empty(ev) and "TypeMismatch" not in args_of(g, ev)[1], done), start=asked(g, name), block=any_of(bind, ask), given=any_of(opt(t, True), contradicts(r"is_empty\(.*%s\)$" % t, "0")))
            c.ob("Q07.result", f, q is None, "%s: what the cache holds is neither bound nor asked for: %s" % (name, fmt_path(q or [])), key="some:" + name)
            one = lambda ev: relation(ev, r"len\(.*%s\)$" % name + r"|len\(.*%s\(.*\)\)$" % name, r"^1$") == "Eq"
            q = g.search(lambda ev: bind(ev) and name in args_of(g, ev)[-1], start=asked(g, name), block=one)
            c.ob("Q07.result", f, q is None, "%s: one of several is bound: %s" % (name, fmt_path(q or [])), key="several:" + name)
    for ev in g.events(bind):
        a = args_of(g, ev)
        m = re.search(r"(get_\w+)\(", a[-1])
        if m is None or m.group(1) not in GETS:
            c.ob("Q07.result", f, False, "%s is bound to %s" % (a[1], a[2][:80]), key="bind:other"); continue
        d = GETS[m.group(1)][0]
        want = pat + (".value.0" if d == "forward" else ".entity.0")
        wrap = r"^TypedValue::Ref\{0: .*\}$" if d == "reverse" else r"^(?!TypedValue::)"
        c.ob("Q07.result", f, a[1] == want and re.search(wrap, a[-1]) is not None, "%s is bound to %s" % (a[1], a[-1][:90]), key="bind:" + m.group(1))
    q = g.search(done, block=any_of(empty, bind, lambda ev: ev.kind == "call" and ev.callee.endswith("::push") and re.search(r"\.from(\.0)?$", args_of(g, ev)[0]) is not None))
    c.ob("Q07.result", f, q is None, "the pattern is dropped: %s" % fmt_path(q or []), key="dropped")

def _lookup(c, f, g):
    got = [rend(t) for t in g.T.place(g.rootf, 0, ()) if t != ("err",)]
    for name, (d, multi, uniq) in GETS.items():
        if not g.events(asked(g, name)): continue
        r = answers(g, contradicts(r"is_attribute_cached_%s\(.*\)$" % d, "1"), *( [contradicts(r"\.multival$", multi)] if multi is not None else []))
        t = r"(.*CachedAttributes::)?%s\([^{|]*\)" % name
        odd = [x for x in r if name not in x and x not in ("Option::None{}", "Vec::new()", "Default::default()")]
        c.ob("Q07.result", f, any(name in x for x in r) and not odd, "%s: answers %s" % (name, "; ".join(odd or r)[:160]), key="lookup:%s:%s" % (f.name, name))
    r = answers(g, contradicts(r"is_attribute_cached_forward\(.*\)$", "0"))
    c.ob("Q07.result", f, bool(r) and not any("CachedAttributes" in x for x in r), "answers %s without asking the store" % r[:1], key="fetched:" + f.name)

@rule("Q07")
def q07_known(c):
    c.rule("Q07.known", "a query is given the cache that belongs to the schema it is run against, and each question is passed to that cache as it was asked")
    c.rule("Q07.bind", "a variable given a value is held to it wherever the query has already used it")
    P = c.P
    n = 0
    new = r"mentat_query_algebrizer::Known(::<.*>)?::(new|for_schema)$"
    for f in P.fns:
        if f.body is None or re.search(r"::tests?::", f.path): continue
        if not any(k and re.search(new, callee_fn(k) or "") for _, _, k in f.body.calls()): continue
        g = c.graph(f, lambda fn, i, t, k: False, small=0, keep=True)
        for ev in g.events(call_to(new.rstrip("$"))):
            n += 1
            a = args_of(g, ev)
            if len(a) == 1: c.ob("Q07.known", f, True, key="schema:" + f.path); continue
            s = re.sub(r"^(\w+::)?(deref|as_ref|borrow)\((.*)\)$", r"\3", a[0])
            k = re.sub(r"^Option::Some\{0: (.*)\}$", r"\1", a[1])
            ok = k == "Option::None{}" or (s.rsplit(".", 1)[0] == k.rsplit(".", 1)[0] and s.endswith("schema") and re.search(r"cache$", k) is not None)
            c.ob("Q07.known", f, ok, "schema %s with cache %s" % (a[0][:60], a[1][:80]), key="pair:" + f.path)
        c.done(g)
    c.floor("Q07.known", "queries given a schema and a cache", n, 10)
    n = 0
    for f in P.fns:
        m = re.fullmatch(r"mentat_query_algebrizer::Known(?:::<.*>)?::((?:get|is_attribute_cached)_\w+)", f.path)
        if not m: continue
        n += 1
        g = cachegraph(c, f)
        ev = [e for e in g.events(lambda e: e.kind == "call" and re.search(r"CachedAttributes(<.*>)?>?::\w+$", e.callee) is not None) if not e.frame.fn.path.startswith(("mentat_db", "<mentat_db"))]
        want = [f.body.name(i) for i in range(2, f.body.argc + 1)]
        ok = bool(ev) and all(e.callee.split("::")[-1] == m.group(1) and args_of(g, e)[1:] == want and args_of(g, e)[0] == "self.cache" for e in ev)
        r = [rend(t) for t in g.T.place(g.rootf, 0, ())]
        ok = ok and any(m.group(1) + "(" in x for x in r) and all(m.group(1) + "(" in x or x in ("0", "Option::None{}") for x in r)
        c.ob("Q07.known", f, ok, "asks %s" % [(e.callee.split("::")[-1], args_of(g, e)) for e in ev][:2], key="pass:" + m.group(1))
        c.done(g)
    c.floor("Q07.known", "questions passed to the cache", n, 6)
    for f in c.find(r"mentat_query_algebrizer::clauses::(<impl .*>|ConjoiningClauses)::bind_value"):
        var, val = f.body.name(2), f.body.name(3)
        g = c.graph(f, None, small=20, keep=True)
        done = ret_of(g)
        col = r"(.*\()?BTreeMap::get\(self\.column_bindings, %s\).*" % var
        eq = lambda ev: ev.kind == "call" and ev.callee.endswith("::push") and args_of(g, ev)[0] == "self.wheres.0" and re.search(r"ColumnConstraint::Equals\{0: .*column_bindings, %s\).*, 1: QueryValue::TypedValue\{0: %s\}" % (var, val), args_of(g, ev)[1]) is not None
        given = any_of(opt(r"::get\(self\.column_bindings, %s\)" % var, True), opt(r"(::|\()(first|get|next)\(.*column_bindings, %s\).*\)" % var, True), contradicts(r"is_empty\(.*column_bindings, %s\).*\)$" % var, "0"))
        q = g.search(done, block=eq, given=given)
        c.ob("Q07.bind", f, q is None, "a column already standing for the variable isn't held to the value: %s" % fmt_path(q or []), key="column")
        ty = lambda ev: ev.kind == "call" and ev.callee.endswith("::push") and re.search(r"ColumnConstraint::HasTypes\{value: .*extracted_types, %s\)" % var, args_of(g, ev)[1]) is not None
        q = g.search(done, block=ty, given=opt(r"::get\(self\.extracted_types, %s\)" % var, True))
        c.ob("Q07.bind", f, q is None, "a type already extracted isn't held to the value's: %s" % fmt_path(q or []), key="type")
        q = g.search(done, block=argis(g, r"Map::insert$", r"self\.value_bindings", re.escape(var), re.escape(val)))
        c.ob("Q07.bind", f, q is None, "the value isn't kept: %s" % fmt_path(q or []), key="kept")
        q = g.search(done, block=lambda ev: ev.kind == "call" and re.search(r"constrain_var_to_type$|narrow_types_for_var$", ev.callee) is not None and args_of(g, ev)[1] == var)
        c.ob("Q07.bind", f, q is None, "the variable isn't held to the value's type: %s" % fmt_path(q or []), key="vartype")
        c.done(g)
