"""Query clauses that hold others: disjunctions, negations, and the list of clauses itself."""
import re
from ctx import *
from model import op_place, Place
from registry import rule
from rules.cache import within, answers, argis, each, among, opis
from rules.pattern import EMPTY, WHERES, param, returning, table, T_

def takes(c, ty, mutcc=True):
    """Algebrizer functions by a type among their parameters."""
    return [f for f in c.P.fns if f.kind != "closure" and f.body is not None and f.crate == "mentat_query_algebrizer"
            and not re.search(r"::test(s|ing)?::", f.path) and any(re.search(ty, f.body.ty(i)) for i in range(1, f.body.argc + 1))
            and (not mutcc or re.match(r"&(?:'\w+ )?mut .*ConjoiningClauses$", f.body.ty(1)) is not None)]

def appliers(c):
    """Functions that apply a clause of some kind to clauses, and so may be applied again by what they hold."""
    if not hasattr(c, "_appliers"):
        c._appliers = {f.h for f in takes(c, r"WhereClause|OrJoin|NotJoin|query::Pattern\b|EvolvedPattern|Predicate|WhereFn|TypeAnnotation")}
    return c._appliers

def opened(c, f, small=30, keep=()):
    """f and its helpers, with the application of inner clauses left as calls."""
    shut = appliers(c) - {f.h} - {x.h for x in keep}
    g = c.graph(f, None, small=0, keep=True, extra=lambda fn: fn.h not in shut and fn.crate == f.crate and c.P.root_of(fn).h not in shut and not re.search(r"::ConjoiningClauses$", fn.body.ty(0)) and (len([b for b in fn.body.blocks if not b.get("cl")]) <= small or fn.kind == "closure"))
    g.conv = True
    made = {fn.path.split("::")[-1] for fn in c.P.fns if fn.body is not None and fn.crate == f.crate and re.search(r"::ConjoiningClauses$", fn.body.ty(0))} - {"default"}
    g.T.opaque = lambda n: n.split("::")[-1] in made or re.search(r"ValueTypeSet::\w+$", n) is not None
    return g

SELF = r"&(?:'\w+ )?mut .*ConjoiningClauses$"

def makers(c):
    return {fn.path.split("::")[-1] for fn in c.P.fns if fn.body is not None and fn.crate == "mentat_query_algebrizer" and re.search(r"::ConjoiningClauses$", fn.body.ty(0))} - {"default"}

def only_self(f): return f.body is not None and f.body.argc == 1 and re.match(SELF, f.body.ty(1)) is not None

def expanders(c):
    """Functions that join, pairwise, the columns a variable is bound to; and those that hold variables to the types required of them."""
    if hasattr(c, "_expanders"): return c._expanders
    ex, rq = set(), set()
    for f in c.P.fns:
        if f.crate != "mentat_query_algebrizer" or not only_self(f): continue
        g = opened(c, f)
        for ev in g.events(lambda ev: ev.kind == "call" and ev.callee.endswith("::push")):
            a = args_of(g, ev)
            if not re.search(WHERES, a[0]): continue
            if re.search(r"ColumnConstraint::Equals\{0: .*self\.column_bindings.*1: QueryValue::Column\{0: .*self\.column_bindings", a[1]): ex.add(f)
            if re.search(r"ColumnConstraint::HasTypes\{value: .*self\.extracted_types.*value_types: .*self\.required_types", a[1]): rq.add(f)
    c._expanders = ex, rq
    return c._expanders

def called(g, hs, *args):
    """Calls to the functions `hs`, with arguments rendered ~args."""
    def p(ev):
        if ev.kind != "call": return False
        k = ev.data["f"].get("k")
        if not k or not any(t.h in hs for t in g.P.targets(k)): return False
        a = args_of(g, ev)
        return len(a) >= len(args) and all(x is None or re.fullmatch(x, y) for x, y in zip(args, a))
    return p

OKRET = lambda g: ret_of(g, "Ok")

@rule("Q03")
def q03_join(c):
    c.rule("Q03.join", "every column a variable is bound to is equated with the others, for the query, each arm of a disjunction and each negation, before its clauses are used")
    c.rule("Q03.required", "a variable is held to the types required of it wherever it might have another")
    ex, rq = expanders(c)
    c.floor("Q03.join", "functions that join a variable's columns", len(ex), 1)
    c.floor("Q03.required", "functions that hold variables to their types", len(rq), 1)
    for f in sorted(ex, key=lambda f: f.path):
        g = opened(c, f)
        done = ret_of(g)
        cols = r"(self\.column_bindings\[\]\.1|self\.column_bindings\[\])"
        prim = r"((Index::index|slice::get)\(%s, 0\)|%s\.0|(slice::|Vec::)?(first|split_first|next)\(%s\)(\.0)?|%s\[\])" % ((cols,) * 4)
        eq = pushes_(g, WHERES, r"^(ColumnConstraintOrAlternation::Constraint\{0: )?ColumnConstraint::Equals\{0: %s, 1: QueryValue::Column\{0: %s(\[\]|\.1\[\])\}\}\}?$" % (prim, cols))
        why = None
        outer = loops_(g, r"self\.column_bindings(\[\])?(\.1)?\[\]|self\.column_bindings.*", r"Iterator::skip(?=\(.*, 1\))")
        inner = {k: v for k, v in outer.items() if any(g.search(eq, start=v[0], block=v[1]) is not None for _ in (0,)) and g.search(v[0], start=v[0], block=eq) is None}
        c.ob("Q03.join", f, bool(g.events(eq)), "no column is equated with the first", key="eq")
        c.ob("Q03.join", f, bool(inner), "a column isn't equated with the others", key="each")
        # all of the others: only the first is left out
        sk = [args_of(g, ev) for ev in g.events(lambda ev: ev.kind == "call" and re.search(r"::(skip|take|step_by|nth|skip_while|take_while|filter|split_at|get|chunks|windows|zip)$", ev.callee) is not None and "column_bindings" in args_of(g, ev)[0])]
        bad = [a for a in sk if a[1:] != ["1"]]
        c.ob("Q03.join", f, not bad, "columns are left out: %s" % bad[:1], key="all")
        # a variable with one column may be passed over, one with more may not
        few = contradicts(r"len\(%s\)$" % cols, 2)
        for k, (some, none) in outer.items():
            if k in inner: continue
            q = g.search(some, start=some, block=any_of(*[x for v in inner.values() for x in v]), given=few) if inner else None
            c.ob("Q03.join", f, q is None, "the columns of a variable aren't joined: %s" % fmt_path(q or []), key="var")
            q = g.search(done, block=none)
            c.ob("Q03.join", f, q is None, "not every variable's columns are joined: %s" % fmt_path(q or []), key="vars")
        c.done(g)
    for f in sorted(rq, key=lambda f: f.path):
        g = opened(c, f)
        ok = OKRET(g)
        held = pushes_(g, WHERES, r"ColumnConstraint::HasTypes\{value: .*BTreeMap::get\(self\.extracted_types, self\.required_types\[\]\.0\).*, value_types: self\.required_types\[\]\.1, check_value: 1\}")
        known = r"BTreeMap::get\(self\.known_types, self\.required_types\[\]\.0\)"
        ls = loops_(g, r"self\.required_types(\[\])?")
        found = any_of(EMPTY, lambda ev: ev.kind == "stmt" and ev.data[1]["r"] == "agg" and str(ev.data[1].get("adt", "")).endswith("EmptyBecause"))
        c.ob("Q03.required", f, bool(ls), "nothing goes over the types required", key="loop")
        notempty = opt(r"self\.empty_because", False)
        for some, none in ls.values():
            q = g.search(any_of(some, ok), start=some, block=any_of(held, found), given=opt(known, False))
            c.ob("Q03.required", f, q is None, "a variable of any type isn't held to those required: %s" % fmt_path(q or []), key="any")
            q = g.search(any_of(some, ok), start=some, block=any_of(held, found), given=any_of(opt(known, True), contradicts(r"is_subset\(%s, self\.required_types\[\]\.1\)$" % known, "0"), contradicts(r"is_disjoint\(.*\)$", "0")))
            c.ob("Q03.required", f, q is None, "a variable that might have another type isn't held to those required: %s" % fmt_path(q or []), key="some")
            q = g.search(ok, block=any_of(none, found), given=notempty)
            c.ob("Q03.required", f, q is None, "not every requirement is held to: %s" % fmt_path(q or []), key="all")
        nar = [a for a in (args_of(g, ev) for ev in g.events(lambda ev: ev.kind == "call" and re.search(r"Map::(insert|entry)$", ev.callee) is not None)) if a[0] == "self.known_types"]
        q = g.search(found, given=any_of(opt(known, True), contradicts(r"is_disjoint\(.*\)$", "0"), contradicts(r"is_empty\(.*\)$", "0")))
        q = q or g.search(found, given=any_of(opt(known, False), contradicts(r"is_empty\(.*\)$", "0")))
        c.ob("Q03.required", f, q is None, "found empty though a type is left: %s" % fmt_path(q or []), key="empty")
        c.done(g)
    kn = r"(\w+::iter\()?self\.known_types\)?\[\]"
    # a variable's type may be left out of what is asked for only when it is known to be just one
    n = 0
    for f in c.P.fns:
        if f.crate != "mentat_query_algebrizer" or not only_self(f): continue
        g = opened(c, f)
        drop = lambda ev: ev.kind == "call" and re.search(r"Map::(remove|clear|retain)$", ev.callee) is not None and args_of(g, ev)[0] == "self.extracted_types"
        if not g.events(drop): continue
        n += 1
        q = g.search(drop, given=contradicts(r"is_unit\(%s(\.1)?\)$" % kn, "0"))
        c.ob("Q03.required", f, q is None, "a type isn't asked for though it isn't known: %s" % fmt_path(q or []), key="pruned")
        bad = [a for a in (args_of(g, ev) for ev in g.events(drop)) if not re.fullmatch(kn + r"\.0", a[1])]
        c.ob("Q03.required", f, not bad, "the type of another variable isn't asked for: %s" % bad[:1], key="pruned:var")
        c.done(g)
    c.floor("Q03.required", "functions that leave out types", n, 1)
    # whoever applies clauses to conjoining clauses it made
    hs = {h for h in appliers(c) if not any(re.search("SourceAlias", c.P.by_h[h].body.ty(i)) for i in range(1, c.P.by_h[h].body.argc + 1))}
    exh, rqh = {f.h for f in ex}, {f.h for f in rq}
    n = 0
    for f in c.P.fns:
        if f.body is None or f.crate != "mentat_query_algebrizer" or f.kind == "closure" or re.search(r"::test(s|ing)?::", f.path): continue
        if not any(k and any(t.h in hs for t in c.P.targets(k)) for _, _, k in f.body.calls()): continue
        g = opened(c, f)
        made = r"(\w+::)*(%s)\(.*\)" % "|".join(sorted(makers(c)))
        apply_ = called(g, hs, made)
        if not g.events(apply_): continue
        done = any_of(OKRET(g), lambda ev: ev.kind == "call" and re.search(r"::push$", ev.callee) is not None and re.fullmatch(made, args_of(g, ev)[1]) is not None, lambda ev: ev.kind == "call" and ev.callee.endswith("Box::new") and re.fullmatch(made, args_of(g, ev)[0]) is not None)
        nonempty = opt(made + r"\.empty_because", False)
        for what, h in (("joined", exh), ("held to their types", rqh)):
            n += 1
            q = g.search(done, start=apply_, block=called(g, h, made), given=nonempty)
            c.ob("Q03.join", f, q is None, "clauses are used before the variables in them are %s: %s" % (what, fmt_path(q or [])), key="applied:%s:%s" % (f.name, what))
        q = g.search(called(g, exh | rqh, made), start=None, block=apply_)
        c.ob("Q03.join", f, q is None, "joined before any clause is applied: %s" % fmt_path(q or []), key="order:%s" % f.name)
        c.done(g)
    c.floor("Q03.join", "uses of applied clauses", n, 6)

def pushes_(g, to, what):
    r, w = re.compile(to), re.compile(what)
    def p(ev):
        if ev.kind != "call" or not ev.callee.endswith("::push"): return False
        a = args_of(g, ev)
        return r.search(a[0]) is not None and w.search(a[1]) is not None
    return p

def loops_(g, src, leaving=None):
    """Loops over ~src: where each next element is found, or none is."""
    out = {}
    for ev in g.events(lambda e: e.kind == "edge" and e.tag is not None and e.tag[2] == "Some"):
        ts = [rend(t[1]) if t[0] == "discr" else rend(t) for t in g.T.operand(ev.frame, ev.data["o"])]
        n = nexts(g, ev)
        if len(ts) > 1 and all(t.endswith("[]") for t in ts) and not all(re.fullmatch(r"(\w+::)*\[?(%s)\]?" % src, t) for t in ts): ts = ["{%s}[]" % "|".join(sorted(t[:-2] for t in ts))]
        if n and ts and all(re.fullmatch(r"(\w+::)*\[?(%s)\]?" % src, t) for t in ts) and not leaves_out(ev, leaving):
            out[(ev.frame.id, ev.block)] = n
    edge = lambda k, v: lambda e: e.kind == "edge" and (e.frame.id, e.block) == k and (v is None or e.tag is not None and e.tag[2] == v)
    for k, n in list(out.items()):  # what is left of an element is dropped by its variant too
        nx = lambda e, k=k, n=n: e.kind == "call" and e.frame.id == k[0] and e.block in n
        if g.search(edge(k, None), start=nx, block=any_of(*[edge(o, None) for o in out if o != k and o[0] == k[0] and out.get(o) == n] or [nothing])) is None: out[k] = None
    return {k: (edge(k, "Some"), edge(k, "None")) for k, n in out.items() if n}

nothing = lambda ev: False

def nexts(g, ev):
    """Where the value that `ev` distinguishes was taken from an iterator."""
    ds = ev.frame.body.defs()
    p = op_place(ev.data["o"])
    r = set()
    for d in ds.get(p.local, []) if p is not None else []:
        if d[1] >= 0 and d[2][1].get("r") == "discr":
            for e in ds.get(d[2][1]["p"][0], []):
                if e[1] < 0 and (callee_fn(e[2]["f"].get("k") or {}) or "").endswith("::next"): r.add(e[0])
    return r
