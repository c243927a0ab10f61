"""Disjunctions and negations: each arm is its own query over the variables it shares with what is around it."""
import re
from ctx import *
from model import op_place, Place
from registry import rule
from rules.cache import within, answers, argis
from rules.idents import loops
from rules.pattern import EMPTY, WHERES, param, built
from rules.joins import takes, appliers, opened, makers, only_self, expanders, called, OKRET, pushes_, loops_, nexts, nothing

ALG = "mentat_query_algebrizer"
ARM = lambda c: r"(\w+::)*(%s)\(.*\)" % "|".join(sorted(makers(c)))
ACC = r"(Vec::(with_capacity\(.*\)|new\(\))|Default::default\(\))"
SET = lambda cl: r"\{?((BTreeSet::new\(\)|Default::default\(\)|%s\.mentioned_vars|%s\.unify_vars\.0|\w+::collect_mentioned_variables\(.*\))\|?)+\}?" % (cl, cl)
IT = lambda v: r"(\w+::iter\()?%s\)?\[\]" % v
ANYOF = lambda cl: r"(%s|%s)" % (IT(SET(cl)), SET(cl).replace(r")\|?)+", r")\[\]\|?)+"))

def without(g, src, holds, yes):
    """Predicate: an edge on which no element of ~src is one that `find`/`any`/`position` looks for, where each one
    that `holds` (given predicates of edges that it contradicts) makes the closure return ~yes is looked for."""
    T = within(g, holds)
    calls = []
    for ev in g.events(lambda e: e.kind == "call" and re.search(r"Iterator::(find|any|position|all)$", e.callee) is not None):
        if not re.fullmatch(r"(\w+::iter\()?(%s)\)?" % src, args_of(g, ev)[0]): continue
        want = "0" if ev.callee.endswith("all") else "1"
        frames = {e.frame.id: e.frame for e in g.events(lambda e: e.frame.parent is ev.frame and e.frame.block == ev.block and e.frame.how.startswith("closure:"))}
        if len(frames) != 1: continue
        ts = T.place(next(iter(frames.values())), 0, ())
        def val(t):
            if t[0] == "c": return "1" if str(t[1]) in ("1", "True", "true") else "0"
            if t[0] == "un" and t[1] == "Not": return {"0": "1", "1": "0"}.get(val(t[2]))
            return "0" if re.search(yes, rend(t)) else None
        if ts and all(val(t) == want for t in ts): calls.append((rend(next(iter(T.operand(ev.frame, ev.data["a"][0])))), ev))
    def p(ev):
        if ev.kind != "edge" or ev.tag is None: return False
        for _, ce in calls:
            n = ce.callee.split("::")[-1]
            if n in ("any", "all"):
                if tests_(g, ev, ce) == ("0" if n == "any" else "1"): return True
            elif ev.tag[2] == "None" and ev.frame is ce.frame:
                ts = [t[1] if t[0] == "discr" else t for t in g.T.operand(ev.frame, ev.data["o"])]
                if ts and all(t[0] == "call" and t[1] == ce.callee and t[3].endswith("@%d" % ce.block) for t in ts): return True
        return False
    return p

def tests_(g, ev, ce):
    from rules.terms import tests
    return tests(g, ev, [ce])
DONE = lambda g, own: any_of(OKRET(g))

def every(g, src, op, done, given=None):
    """None when every iteration over ~src performs op, and src is always exhausted before `done`; else why not."""
    ls = loops_(g, src + r"\)?\[\]")
    if not ls: return "nothing goes over it"
    why = []
    for some, none in ls.values():
        q = g.search(any_of(some, none, done), start=some, block=op, given=given)
        if q is not None: why.append("skipped on " + fmt_path(q)); continue
        q = g.search(done, block=none, given=given)
        if q is not None: why.append("not reached on " + fmt_path(q)); continue
        return None
    return "; ".join(why[:2])

def aggs(g, adt, var):
    """[(event, {field: rendered origin})] of each value of a variant made."""
    out = []
    for ev in g.events(built(adt, var) if var else lambda ev: ev.kind == "stmt" and ev.data[1].get("r") == "agg" and str(ev.data[1].get("adt", "")).endswith("::" + adt)):
        fs = ev.data[1].get("f") or [str(i) for i in range(len(ev.data[1]["a"]))]
        out.append((ev, {n: rset(g.T.operand(ev.frame, o)) for n, o in zip(fs, ev.data[1]["a"])}))
    return out

def shrunk(g, src):
    """Calls that take elements out of ~src in place."""
    return ["%s:%s" % (ev.callee, ev.line) for ev in g.events(lambda ev: ev.kind == "call" and re.search(r"::(truncate|pop|pop_front|pop_back|remove|swap_remove|clear|drain|retain|split_off|dedup\w*|resize\w*)$", ev.callee) is not None and re.fullmatch(src, args_of(g, ev)[0]) is not None)]

def makes(f, adt, var):
    """The function, or a closure of it, makes such a value."""
    return f.body is not None and any(st[1].get("r") == "agg" and str(st[1].get("adt", "")).endswith("::" + adt) and st[1].get("var") == var for b in f.body.blocks for st in b["s"] if isinstance(st[1], dict))

@rule("Q04")
def q04_union(c):
    c.rule("Q04.arm", "each arm of a disjunction is applied, whole, to clauses of its own made from those around it")
    c.rule("Q04.kept", "an arm is left out only when it can match nothing, and every other arm gives each shared variable a value")
    c.rule("Q04.share", "what the arms find is joined with what is around them by every shared variable, and its type where the arms don't agree on one")
    ex, rq = expanders(c)
    hs = appliers(c)
    fs = [f for f in takes(c, r"OrJoin") if any(makes(x, "ComputedTable", "Union") for x in c.P.fns if c.P.root_of(x) is f)]
    c.floor("Q04.arm", "functions that make a union of arms", len(fs), 1)
    for f in fs:
        g = opened(c, f)
        ok = OKRET(g)
        oj = re.escape(param(f, r"OrJoin"))
        arm, vs = ARM(c), SET(oj)
        made = lambda ev: ev.kind == "call" and any(t.body is not None and re.search(r"::ConjoiningClauses$", t.body.ty(0)) for t in (g.P.targets(ev.data["f"]["k"]) if ev.data["f"].get("k") else []))
        apply_ = called(g, hs, arm)
        c.floor("Q04.arm", "applications of an arm", len(g.events(apply_)), 1)
        cl = oj + r"\.clauses"
        el = lambda v: choice(IT(cl) , "OrWhereClause", v)
        w = every(g, cl, apply_, ok)
        c.ob("Q04.arm", f, w is None, "an arm isn't applied: %s" % w, key="each")
        for ev in g.events(called(g, hs)):
            a = args_of(g, ev)
            c.ob("Q04.arm", ev, re.fullmatch(arm, a[0]) is not None and any(re.fullmatch(IT(cl) + r"\.0", x) for x in a[1:]), "applied to %s: %s" % (a[0][:80], a[1:]), key="what")
        bad = shrunk(g, cl) + shrunk(g, IT(cl) + r"\.0")
        c.ob("Q04.arm", f, not bad, "arms are left out: %s" % bad[:1], key="whole")
        q = g.search(apply_, start=apply_, block=made)
        c.ob("Q04.arm", f, q is None, "two arms are applied to the same clauses: %s" % fmt_path(q or []), key="own")
        tmpl = {re.sub(r"^(\w+::)*", "", a[0]) for a in (args_of(g, ev) for ev in g.events(apply_))}
        shared = re.compile(r"\w+\((\w+::)*\w+\(self, %s\)\)|\w+\(self, %s\)" % (vs, vs))
        bad = [t for t in tmpl if not shared.fullmatch(t)]
        c.ob("Q04.arm", f, not bad, "an arm starts out from %s" % bad[:1], key="from")
        # the shared variables are those named, or else all of them
        for which, want in (("Implicit", r"mentioned_vars|collect_mentioned"), ("Explicit", r"unify_vars\.0")):
            T = within(g, choice(oj + r"\.unify_vars", "UnifyVars", which))
            got = set()
            for ev in g.events(called(g, {h.h for h in c.P.fns if h.name in makers(c) and h.body is not None and h.body.argc == 2}), block=choice(oj + r"\.unify_vars", "UnifyVars", which)):
                got |= {rend(t) for t in T.operand(ev.frame, ev.data["a"][1])}
            got -= {"BTreeSet::new()", "Default::default()"}
            c.ob("Q04.share", f, bool(got) and all(re.search(want, x) for x in got), "with %s variables, the arms share %s" % (which.lower(), sorted(got)), key="vars:" + which)
        push = lambda ev: ev.kind == "call" and ev.callee.endswith("::push") and len(ev.data["a"]) == 2 and re.fullmatch(ACC, args_of(g, ev)[0]) is not None and re.fullmatch(arm, args_of(g, ev)[1]) is not None
        c.floor("Q04.kept", "places that keep an arm", len(g.events(push)), 1)
        some_empty = lambda b: opt(arm + r"\.empty_because", b)
        ls = loops_(g, IT(cl))
        again = any_of(*[s for s, n in ls.values()] or [nothing])
        q = g.search(any_of(again, ok, built("ComputedTable", "Union")), start=apply_, block=push, given=some_empty(False))
        c.ob("Q04.kept", f, q is None, "an arm that may match is left out: %s" % fmt_path(q or []), key="kept")
        req = called(g, {x.h for x in rq}, arm)
        q = g.search(push, start=req, given=some_empty(True), late=True)
        c.ob("Q04.kept", f, q is None, "an arm that can't match is kept: %s" % fmt_path(q or []), key="empty")
        lv = loops_(g, ANYOF(oj))
        unbound = any_of(contradicts(r"contains_key\(%s\.value_bindings, .*\)$" % arm, "0"), contradicts(r"contains_key\(%s\.column_bindings, .*\)$" % arm, "0"), contradicts(r"is_value_bound\(%s, .*\)$" % arm, "0"))
        checked = [n for s, n in lv.values() if g.search(any_of(s, n, push), start=s, given=unbound) is None]
        anyof_ = lambda ev: False
        none_left = without(g, vs, unbound, r"(contains_key|is_value_bound)\(")
        q = g.search(push, start=apply_, block=any_of(none_left, *checked or [nothing]), given=some_empty(False))
        c.ob("Q04.kept", f, q is None, "an arm needn't give each shared variable a value: %s" % fmt_path(q or []), key="bound")
        # the union
        us = aggs(g, "ComputedTable", "Union")
        for ev, m in us:
            c.ob("Q04.share", ev, re.fullmatch(ACC, m.get("arms", "")) is not None, "the union's arms are %s" % m.get("arms"), key="arms")
            c.ob("Q04.share", ev, re.fullmatch(vs, m.get("projection", "")) is not None, "the union projects %s" % m.get("projection"), key="projection")
        uni = is_ev(us[0][0]) if us else nothing
        arms_empty = contradicts(r"is_empty\(%s\)$" % ACC, "0")
        EM = lambda ev: EMPTY(ev) and args_of(g, ev)[0] == "self"
        q = g.search(EM, given=arms_empty)
        c.ob("Q04.kept", f, q is None, "found empty though an arm is left: %s" % fmt_path(q or []), key="some")
        q = g.search(ok, block=any_of(EM, uni))
        c.ob("Q04.kept", f, q is None, "a disjunction is ignored: %s" % fmt_path(q or []), key="none")
        src = lambda ev: ev.kind == "call" and ev.callee.endswith("::push") and args_of(g, ev)[0] == "self.from" and "SourceAlias" in args_of(g, ev)[1]
        q = g.search(ok, start=uni, block=src)
        c.ob("Q04.share", f, q is None, "the union isn't read: %s" % fmt_path(q or []), key="from")
        binds = [h for h in c.P.fns if h.body is not None and h.crate == ALG and h.kind != "closure" and h.body.argc == 5 and re.search(r"query::Variable$", h.body.ty(5)) and re.search("ConjoiningClauses$", h.body.ty(1))]
        v = ANYOF(oj)
        bind = called(g, {h.h for h in binds}, "self", None, None, r"(Column::Variable\{0: )?VariableColumn::Variable\{0: %s\}\}?" % v, v)
        w = every(g, r"(\w+::iter\()?%s" % vs, bind, ok, given=None) if g.events(bind) else "nothing is"
        # the loops after the union
        q = None
        oks = [1 for s, n in lv.values() if g.search(any_of(s, n, ok), start=s, block=bind) is None and g.search(ok, start=uni, block=n) is None]
        c.ob("Q04.share", f, bool(oks), "a shared variable isn't joined with what the arms find: %s" % w, key="bind")
        bad = [args_of(g, ev)[3:] for ev in g.events(called(g, {h.h for h in binds}, "self")) if not bind(ev)]
        c.ob("Q04.share", f, not bad, "a variable is bound to another's column: %s" % bad[:1], key="bind:which")
        # the types of what is shared are those of any arm
        other = lambda ev: ev.kind == "call" and len(ev.data["a"]) == 2 and (lambda a: re.fullmatch(r"(%s|(slice::iter\()?%s\)?\[\])\.known_types" % (arm, ACC), a[1]) is not None and re.search("known_types", a[0]) is not None and a[0] != "self.known_types")(args_of(g, ev))
        la = list(loops_(g, arm).values()) + list(loops_(g, r"(\w+::iter\()?%s\)?\[\]" % ACC).values())
        w = [g.search(any_of(s, n, uni), start=s, block=other) or g.search(uni, block=n) for s, n in la]
        c.ob("Q04.share", f, None in w, "a type that a variable has in an arm is left out: %s" % [fmt_path(x) for x in w if x][:1], key="types:all")
        # types that the arms don't agree on
        known = r"\{?(Option::None\{\}\|)?ValueTypeSet::exemplar\(.*known_types.*\)\}?"
        note = argis(g, r".*Set::insert", r"(Default::default\(\)|BTreeSet::new\(\))", v)
        typ = [(s, n) for s, n in lv.values() if g.search(note, start=s, block=any_of(n)) is not None]
        q = None if typ else [None]
        for s, n in typ:
            q = q or g.search(any_of(s, n, uni), start=s, block=note, given=any_of(contradicts(r"is_unit\(.*known_types.*\)$", "0")))
            q = q or g.search(any_of(s, n, uni), start=s, block=note, given=any_of(opt(known, True), contradicts(r"Iterator::any\(.*\)$", "1"), contradicts(r"Iterator::all\(.*\)$", "0")))
            q = q or g.search(uni, block=n)
        c.ob("Q04.share", f, not q, "a variable's type isn't asked for though the arms differ in it: %s" % fmt_path([x for x in q or [] if x]), key="types")
        for ev, m in us:
            te = r"(Default::default\(\)|BTreeSet::new\(\))"
            c.ob("Q04.share", ev, re.fullmatch(te, m.get("type_extraction", "")) is not None, "the types asked for are %s" % m.get("type_extraction"), key="types:which")
        tags = lambda ev: ev.kind == "call" and re.search(r"Map::insert$", ev.callee) is not None and args_of(g, ev)[0] == "self.extracted_types"
        for ev in g.events(tags):
            a = args_of(g, ev)
            m = re.search(r"VariableColumn::VariableTypeTag\{0: (.*?)\}+$", a[2])
            c.ob("Q04.share", ev, m is not None and m.group(1) == a[1], "the type of %s is read from %s" % (a[1], a[2][-120:]), key="tag")
        w = every(g, r"(\w+::iter\()?(Default::default\(\)|BTreeSet::new\(\))", tags, nothing)
        c.ob("Q04.share", f, w is None, "the type of a variable isn't taken from the union: %s" % w, key="tags")
        # what the arms know of types holds outside for what is shared only
        br = [ev for ev in g.events(lambda ev: ev.kind == "call" and ev.data["f"].get("k") is not None and any(re.search(r"ConjoiningClauses", t.body.ty(1)) and t.body.argc == 2 and re.search(r"Map<.*ValueTypeSet", t.body.ty(2)) for t in g.P.targets(ev.data["f"]["k"]) if t.body is not None and t.body.argc)) if args_of(g, ev)[0] == "self"]
        c.floor("Q04.share", "places that take over the arms' types", len(br), 1)
        for ev in br:
            x = re.escape(args_of(g, ev)[1])
            keep = lambda e: e.kind == "call" and e.callee.endswith("keep_intersected_keys") and re.fullmatch(x, args_of(g, e)[0]) is not None and re.fullmatch(vs, args_of(g, e)[1]) is not None
            q = g.search(is_ev(ev), block=keep)
            c.ob("Q04.share", ev, q is None, "types of variables that aren't shared are taken over: %s" % fmt_path(q or []), key="types:shared")
        c.done(g)

@rule("Q04")
def q04_not(c):
    c.rule("Q04.not", "a negation is applied, whole, to clauses of its own in which each variable it shares has the value or column it has outside, and rules rows out unless it says nothing or can match nothing")
    ex, rq = expanders(c)
    hs = appliers(c)
    fs = [f for f in takes(c, r"NotJoin") if any(makes(x, "ColumnConstraint", "NotExists") for x in c.P.fns if c.P.root_of(x) is f)]
    c.floor("Q04.not", "functions that make a negation", len(fs), 1)
    for f in fs:
        g = opened(c, f)
        ok = OKRET(g)
        nj = re.escape(param(f, r"NotJoin"))
        arm, vs = ARM(c), SET(nj)
        made = {h.h for h in c.P.fns if h.name in makers(c) and h.body is not None and h.body.argc == 2}
        for which, want in (("Implicit", r"collect_mentioned"), ("Explicit", r"unify_vars\.0")):
            T = within(g, choice(nj + r"\.unify_vars", "UnifyVars", which))
            got = set()
            for ev in g.events(called(g, made), block=choice(nj + r"\.unify_vars", "UnifyVars", which)):
                got |= {rend(t) for t in T.operand(ev.frame, ev.data["a"][1])}
            if which == "Implicit":
                q = g.search(called(g, made), block=argis(g, r"::(\w+::)?collect_mentioned_variables", nj), given=choice(nj + r"\.unify_vars", "UnifyVars", which))
                c.ob("Q04.not", f, q is None and bool(got), "the variables shared aren't those mentioned: %s" % fmt_path(q or []), key="vars:" + which)
            else: c.ob("Q04.not", f, bool(got) and all(re.search(want, x) for x in got), "the variables shared are %s" % sorted(got), key="vars:" + which)
        apply_ = called(g, hs, arm, None, nj + r"\.clauses")
        v = IT(vs)
        lv = loops_(g, v[:-4] if v.endswith(r"\[\]") else v) or loops_(g, v)
        unbound = lambda ev: ev.kind == "stmt" and ev.data[1].get("r") == "agg" and ev.data[1].get("var") == "UnboundVariable"
        hasval = lambda b: any_of(*[contradicts(r"contains_key\(self\.value_bindings, %s\)$" % v, str(b)), opt(r"BTreeMap::get\(self\.value_bindings, %s\)" % v, bool(b)), contradicts(r"is_value_bound\(self, %s\)$" % v, str(b))])
        hascol = lambda b: any_of(contradicts(r"contains_key\(self\.column_bindings, %s\)$" % v, str(b)), opt(r"BTreeMap::get\(self\.column_bindings, %s\)" % v, bool(b)))
        val = argis(g, r"Map::insert$", arm + r"\.value_bindings", v, r"BTreeMap::get\(self\.value_bindings, %s\)(\.0)?" % v)
        col = argis(g, r"Map::insert$", arm + r"\.column_bindings", v, r".*BTreeMap::get\(self\.column_bindings, %s\).*" % v)
        c.ob("Q04.not", f, bool(lv), "nothing goes over the variables shared", key="vars")
        for some, none in lv.values():
            for what, op, given in (("value", val, hasval(1)), ("column", col, any_of(hasval(0), hascol(1))), ("error", unbound, any_of(hasval(0), hascol(0)))):
                q = g.search(any_of(some, none, apply_, ok), start=some, block=op, given=given)
                c.ob("Q04.not", f, q is None, "a variable doesn't keep its %s: %s" % (what, fmt_path(q or [])), key="kept:" + what)
            q = g.search(apply_, block=none)
            c.ob("Q04.not", f, q is None, "the clauses are applied before every variable is: %s" % fmt_path(q or []), key="kept:all")
        q = g.search(ok, block=apply_)
        c.ob("Q04.not", f, q is None, "the clauses of a negation aren't applied: %s" % fmt_path(q or []), key="applied")
        bad = shrunk(g, nj + r"\.clauses")
        c.ob("Q04.not", f, not bad, "clauses are left out: %s" % bad[:1], key="whole")
        put = lambda ev: ev.kind == "call" and re.search(r"::push$", ev.callee) is not None and re.search(WHERES, args_of(g, ev)[0]) is not None and re.search(r"ColumnConstraint::NotExists\{0: ComputedTable::Subquery\{0: %s\}\}" % arm, args_of(g, ev)[1]) is not None
        q = g.search(ok, start=apply_, block=put, given=any_of(opt(arm + r"\.empty_because", False), contradicts(r"is_empty\(%s\.wheres(\.0)?\)$" % arm, "0")))
        c.ob("Q04.not", f, q is None, "a negation that says something is left out: %s" % fmt_path(q or []), key="put")
        q = g.search(put, start=called(g, {x.h for x in rq}, arm), given=opt(arm + r"\.empty_because", True), late=True)
        c.ob("Q04.not", f, q is None, "a negation of what can't match rules rows out: %s" % fmt_path(q or []), key="empty")
        c.ob("Q04.not", f, not g.events(lambda ev: EMPTY(ev) and args_of(g, ev)[0] == "self"), "a negation leaves no rows", key="none")
        c.done(g)

CARRIED = ("input_variables", "value_bindings", "known_types", "extracted_types", "required_types")

@rule("Q04")
def q04_own(c):
    c.rule("Q04.own", "clauses made for an arm or a negation start out with what is known of the variables they share — values, types — and no tables or columns; tables are numbered together")
    n = 0
    for f in c.P.fns:
        if f.body is None or f.crate != ALG or f.kind == "closure" or f.body.argc not in (1, 2) or not re.search(r"::ConjoiningClauses$", f.body.ty(0)) or re.search(r"^clone::|::Clone", f.path) or f.name in ("clone", "default") or not re.match(r"&(?:'\w+ )?\S*ConjoiningClauses$", f.body.ty(1)): continue
        g = c.graph(f, None, small=0, keep=True)
        n += 1
        g.T.opaque = lambda n: n.startswith(ALG)
        ms = aggs(g, "ConjoiningClauses", None)
        c.ob("Q04.own", f, bool(ms), "no clauses are made", key="made:" + f.name)
        for ev, m in ms:
            own = r"(Clone::clone\()?self\.%s\)?"
            c.ob("Q04.own", ev, re.fullmatch(own % "alias_counter", m.get("alias_counter", "")) is not None, "tables are numbered by %s" % m.get("alias_counter", "")[:80], key="alias:" + f.name)
            vs = f.body.name(2) if f.body.argc == 2 else None
            for k in CARRIED:
                some = r"(\w+::)*\w+\(self\.%s, %s\)" % (k, re.escape(vs)) if vs else "(?!)"
                c.ob("Q04.own", ev, re.fullmatch("(%s)|%s" % (own % k, some), m.get(k, "")) is not None, "%s become %s" % (k, m.get(k, "")[:120]), key="%s:%s" % (k, f.name))
            for k in ("from", "computed_tables", "wheres", "column_bindings"):
                c.ob("Q04.own", ev, "self" not in m.get(k, ""), "%s start out as %s" % (k, m.get(k, "")[:120]), key="%s:%s" % (k, f.name))
        c.done(g)
    c.floor("Q04.own", "functions that make clauses from clauses", n, 2)

@rule("Q04")
def q04_routed(c):
    c.rule("Q04.routed", "every clause of a list is applied, by what its kind calls for")
    hs = appliers(c)
    kinds = {"Pred": r"Predicate", "WhereFn": r"WhereFn", "OrJoin": r"OrJoin", "NotJoin": r"NotJoin", "TypeAnnotation": r"TypeAnnotation", "Pattern": "Pattern"}
    one = [f for f in takes(c, r"query::WhereClause$") if f.body.argc == 3]
    c.floor("Q04.routed", "functions that apply a clause", len(one), 1)
    for f in one:
        g = c.graph(f, None, small=0, keep=True, extra=lambda fn: fn.kind == "closure")
        w = param(f, r"WhereClause")
        ok = any_of(OKRET(g), ret_of(g, None))
        for k, ty in kinds.items():
            to = {h.h for h in takes(c, r"(query::|::)%s$" % ty)} if k != "Pattern" else {h.h for h in takes(c, r"Pattern\b")}
            to |= {h.h for h in takes(c, r"(query::|::)%s$" % ty)}
            op = any_of(called(g, to, "self", None, re.escape(w) + r"\.0"), called(g, to, "self", re.escape(w) + r"\.0"), called(g, to, "self", None, r".*%s\.0.*" % re.escape(w)), EMPTY)
            q = g.search(ret_of(g), block=any_of(op, lambda ev: ev.kind == "call" and ev.callee.endswith("from_residual")), given=choice(re.escape(w), "WhereClause", k))
            c.ob("Q04.routed", f, q is None, "a %s is left out: %s" % (k, fmt_path(q or [])), key=k)
        for k, ty in (("OrJoin", "OrJoin"), ("NotJoin", "NotJoin")):
            check = lambda ev: ev.kind == "call" and re.search(r"validate_\w+$", ev.callee) is not None and args_of(g, ev)[0] == w + ".0"
            q = g.search(called(g, {h.h for h in takes(c, r"::%s$" % ty)}), block=check)
            c.ob("Q04.routed", f, q is None, "a %s isn't checked first: %s" % (k, fmt_path(q or [])), key="checked:" + k)
        c.done(g)
    many = [f for f in takes(c, r"Vec<.*query::WhereClause>$")]
    c.floor("Q04.routed", "functions that apply clauses", len(many), 1)
    applied = {f.h for f in one}
    evo = takes(c, r"EvolvedPattern>$")
    for f in many:
        g = c.graph(f, None, small=0, keep=True, extra=lambda fn: fn.kind == "closure")
        ok = OKRET(g)
        w = re.escape(param(f, r"WhereClause"))
        it = r"(\w+::)*(iter\()?%s\)?\[\]" % w
        ls = loops_(g, r"(\w+::iter\()?%s\)?\[\]" % w)
        put = lambda ev: ev.kind == "call" and re.search(r"::push(_back)?$", ev.callee) is not None and re.fullmatch(r".*\(self, known, %s\.0\)\.0" % it, args_of(g, ev)[1]) is not None
        use = called(g, {h.h for h in evo}, "self", None, r".*(Vec|VecDeque|Default)::\w+\(.*\).*")
        bad = shrunk(g, w)
        c.ob("Q04.routed", f, not bad, "clauses are left out: %s" % bad[:1], key="whole")
        run = any_of(called(g, applied, "self", None, it), put, EMPTY, lambda ev: ev.kind == "call" and ev.callee.endswith("from_residual"))
        anno = called(g, {h.h for h in takes(c, r"TypeAnnotation")}, "self", it + r"\.0")
        typ = lambda v: choice(it, "WhereClause", v)
        for k in kinds:
            op = anno if k == "TypeAnnotation" else run
            good = None
            for some, none in ls.values():
                q = g.search(any_of(some, none), start=some, block=any_of(op, lambda ev: ev.kind == "call" and ev.callee.endswith("from_residual")), given=typ(k))
                q = q or g.search(ok, block=any_of(none, EMPTY))
                if q is None: good = True; break
                last = q
            c.ob("Q04.routed", f, good is True, "a %s is left out: %s" % (k, fmt_path(last) if not good and ls else "nothing goes over the clauses"), key="each:" + k)
        q = g.search(ok, start=put, block=any_of(use, EMPTY))
        c.ob("Q04.routed", f, q is None, "patterns aren't applied: %s" % fmt_path(q or []), key="patterns")
        q = g.search(lambda ev: ev.kind == "call" and re.search(r"(Vec|VecDeque)::(with_capacity|new|clear|pop\w*|truncate|drain|split_off)$", ev.callee) is not None, start=put, block=any_of(use, EMPTY))
        c.ob("Q04.routed", f, q is None, "patterns are forgotten: %s" % fmt_path(q or []), key="patterns:kept")
        c.done(g)

@rule("Q04")
def q04_shape(c):
    c.rule("Q04.shape", "arms are folded into one pattern only when each binds the same variables in the same places of the same table, and nothing of a disjunction is lost whichever way it is taken")
    same = [f for f in c.P.fns if f.body is not None and f.crate == ALG and f.kind != "closure" and f.body.argc == 2 and f.body.ty(0) == "bool" and re.search(r"query::Pattern(Non)?ValuePlace$", f.body.ty(1)) and f.body.ty(1).split()[-1] == f.body.ty(2).split()[-1]]
    fs = [f for f in c.P.fns if f.crate == ALG and f.body is not None and re.search(r"::OrJoin$", f.body.ty(f.body.argc) if f.body.argc else "") and any(k and any(t in same for t in c.P.targets(k)) for x in c.P.fns if x.body is not None and c.P.root_of(x) is f for _, _, k in x.body.calls())]
    c.floor("Q04.shape", "functions that compare places", len(same), 2)
    c.floor("Q04.shape", "functions that fold arms", len(fs), 1)
    for f in same:
        g = c.graph(f, None, small=40, keep=True)
        l, r = f.body.name(1), f.body.name(2)
        adt = re.search(r"::(\w+)$", f.body.ty(1)).group(1)
        vs = [v["n"] for k, a in c.P.adts.items() if k.endswith("::" + adt) for v in a["vars"]]
        for a in vs:
            for b in vs:
                both = a == b
                if a not in ("Variable", "Placeholder") and b not in ("Variable", "Placeholder"): continue
                got = answers(g, choice(re.escape(l), adt, a), choice(re.escape(r), adt, b))
                if both and a == "Variable": ok = all(re.search(r"^0$|PartialEq::eq\((%s\.0.*, %s\.0.*|%s\.0.*, %s\.0.*)\)" % (l, r, r, l), x) for x in got)
                elif both: ok = bool(got)
                else: ok = got == ["0"]
                c.ob("Q04.shape", f, ok, "%s and %s are the same place: %s" % (a, b, got), key="same:%s:%s:%s" % (adt, a, b))
        c.done(g)
    names = {f.path.split("::")[-1] for f in same}
    for f in fs:
        g = c.graph(f, None, small=0, keep=True, extra=lambda fn: fn.kind == "closure")
        g.T.opaque = lambda n: n.split("::")[-1] in names
        oj = re.escape(param(f, r"OrJoin"))
        el = r"(\w+::iter\()?%s\.clauses\)?\[\]" % oj
        pats = r"Vec::\w+\(.*\)"
        push = lambda ev: ev.kind == "call" and ev.callee.endswith("::push") and re.fullmatch(el + r"(\.0)*", args_of(g, ev)[1]) is not None
        c.floor("Q04.shape", "places that keep an arm", len(g.events(push)), 1)
        some = any_of(*[opt(r"(slice::get\(%s, 0\)|(slice::)?first\(%s\))" % (pats, pats), True), contradicts(r"is_empty\(%s\)$" % pats, "0")])
        for place in ("entity", "attribute", "value", "tx"):
            q = g.search(push, given=any_of(some, contradicts(r"(%s)\((.*%s.*\.%s, %s[.0]*\.%s|%s[.0]*\.%s, .*%s.*\.%s)\)$" % ("|".join(names), pats, place, el, place, el, place, pats, place), "0")))
            c.ob("Q04.shape", f, q is None, "arms with another %s are folded: %s" % (place, fmt_path(q or [])), key="shape:" + place)
        tab = r".*table_for_places.*"
        eq = any_of(contradicts(r"PartialEq::eq\(.*table_for_places.*\)$", "0"), contradicts(r"PartialEq::ne\(.*table_for_places.*\)$", "1"))
        isn = any_of(contradicts(r"Option::is_none\(.*table_for_places.*\)$", "0"), contradicts(r"Option::is_some\(.*table_for_places.*\)$", "1"), opt(r".*table_for_places.*\|Option::None\{\}\}?", True))
        q = g.search(push, start=push, given=any_of(eq, isn), late=True)
        c.ob("Q04.shape", f, q is None, "arms on another table are folded: %s" % fmt_path(q or []), key="shape:table")
        # an arm goes unkept only when it has no table
        lo = loops_(g, r"(\w+::iter\()?%s\.clauses" % oj) or loops_(g, el)
        again = any_of(*[s for s, n in lo.values()] or [nothing])
        over = any_of(*[n for s, n in lo.values()] or [nothing])
        q = g.search(any_of(again, over), start=again, block=push, given=any_of(variant_edge("PlaceOrEmpty", "Empty"), lambda ev: ev.kind == "edge" and ev.tag is not None and ev.tag[2] == "Err" and re.search("table_for_places", rset(g.T.operand(ev.frame, ev.data["o"]))) is not None))
        c.ob("Q04.shape", f, q is None and bool(lo), "an arm with a table isn't kept: %s" % fmt_path(q or []), key="kept")
        cx = aggs(g, "DeconstructedOrJoin", "Complex")
        c.floor("Q04.shape", "ways out to a union", len(cx), 1)
        for ev in g.events(lambda ev: ev.kind == "call" and re.search(r"OrJoin::new$", ev.callee) is not None):
            a = args_of(g, ev)
            parts = re.findall(r"OrWhereClause::Clause\{0: WhereClause::Pattern\{0: %s\.0\.0\}\}|%s\.clauses(?!\[)|once::once\(.*?%s" % (el, oj, el), a[1])
            kinds = [bool(re.search(x, a[1])) for x in (r"^.*?\[OrWhereClause::Clause\{0: WhereClause::Pattern\{0: ", r"once::once\(|push", r", %s\.clauses\)$|\b%s\.clauses(?!\[)" % (oj, oj))]
            c.ob("Q04.shape", ev, all(kinds) and not any(re.search(LEAVES, x) for x in whole(g, ev.frame, ev.data["a"][1])), "arms are lost when they can't be folded: %s" % a[1][:200], key="rebuilt")
        for ev, m in cx:
            c.ob("Q04.shape", ev, re.search(r"OrJoin::new\(UnifyVars::Implicit\{\}|%s|OrJoin::OrJoin\{unify_vars: UnifyVars::Implicit\{\}" % oj, m.get("0", "")) is not None, "another disjunction is made: %s" % m.get("0", "")[:120], key="complex")
        done = lambda v: (lambda ev: any(ev is e or (ev.frame.id, ev.block, ev.line) == (e.frame.id, e.block, e.line) and ev.kind == e.kind for e, _ in aggs(g, "DeconstructedOrJoin", v)))
        ln = lambda n: any_of(contradicts(r"len\(%s\)$" % pats, n), contradicts(r"is_empty\(%s\)$" % pats, "1" if n == 0 else "0"))
        for v, bad in (("KnownEmpty", (1, 2)), ("UnitPattern", (0, 2)), ("Simple", (0, 1)), ("KnownSuccess", (0, 1, 2)), ("Unit", (0, 1, 2))):
            for n in bad:
                q = g.search(built("DeconstructedOrJoin", v), given=ln(n))
                c.ob("Q04.shape", f, q is None, "%d arms become %s: %s" % (n, v, fmt_path(q or [])), key="count:%s:%d" % (v, n))
        for ev, m in aggs(g, "DeconstructedOrJoin", "Simple"):
            c.ob("Q04.shape", ev, re.fullmatch(pats, m.get("0", "")) is not None and "mentioned" in m.get("1", ""), "folded: %s" % m, key="simple")
        # only disjunctions of all their variables get here
        for h in c.P.fns:
            if h.body is None or h.crate != ALG: continue
            if any(k and any(t is f for t in c.P.targets(k)) for _, _, k in h.body.calls()):
                gh = c.graph(h, None, small=0, keep=True)
                gh.T.opaque = lambda n: n.endswith("is_fully_unified")
                q = gh.search(called(gh, {f.h}), given=contradicts(r"is_fully_unified\(.*\)$", "0"))
                c.ob("Q04.shape", h, q is None, "variables of an arm's own leak: %s" % fmt_path(q or []), key="unified")
                c.done(gh)
        c.done(g)
    # one arm alone stands for the disjunction only when all its variables are shared
    n = 0
    for h in takes(c, r"::OrWhereClause$"):
        for x in c.P.fns:
            if x.body is None or x.crate != ALG or not any(k and any(t is h for t in c.P.targets(k)) for _, _, k in x.body.calls()): continue
            g = c.graph(x, None, small=0, keep=True)
            g.T.opaque = lambda n: n.endswith("is_fully_unified")
            n += 1
            q = g.search(called(g, {h.h}), given=any_of(contradicts(r"is_fully_unified\(.*\)$", "0"), variant_edge("DeconstructedOrJoin", "Unit")))
            c.ob("Q04.shape", x, q is None, "variables of an arm's own leak: %s" % fmt_path(q or []), key="alone:" + x.name)
            if any(re.search("::OrJoin$", x.body.ty(i)) for i in range(1, x.body.argc + 1)):
                q = g.search(called(g, {h.h}), given=any_of(contradicts(r"len\(.*\.clauses\)$", 2), variant_edge("DeconstructedOrJoin", "Unit")))
                c.ob("Q04.shape", x, q is None, "one arm stands for all: %s" % fmt_path(q or []), key="alone:many:" + x.name)
            c.done(g)
    c.floor("Q04.shape", "uses of an arm on its own", n, 2)

@rule("Q04")
def q04_simple(c):
    c.rule("Q04.simple", "arms folded into one pattern are each applied, to clauses of their own, on one table that the query then reads; every arm that may match is an alternative, and what a variable may be is what it may be in any of them")
    hs = appliers(c)
    fs = [f for f in takes(c, r"Vec<.*query::Pattern>$")]
    c.floor("Q04.simple", "functions that apply folded arms", len(fs), 1)
    for f in fs:
        g = opened(c, f)
        base = g.T.opaque
        g.T.opaque = lambda n: base(n) or n.split("::")[-1] in ("broaden_types",)
        ok = OKRET(g)
        ps = re.escape(param(f, r"Vec<.*query::Pattern>"))
        arm = ARM(c)
        pat = r".*make_evolved_pattern\(self, known, %s\[\]\)\.0.*" % ps
        apply_ = called(g, hs, arm, None, pat)
        made = lambda ev: ev.kind == "call" and ev.data["f"].get("k") is not None and any(re.search(r"::ConjoiningClauses$", t.body.ty(0)) and t.body.argc == 1 for t in g.P.targets(ev.data["f"]["k"]) if t.body is not None)
        c.floor("Q04.simple", "applications of a folded arm", len(g.events(apply_)), 1)
        end = lambda ev: ev.kind == "call" and re.search(r"::intersect$|::push$", ev.callee) is not None and args_of(g, ev)[0] in ("self", "self.from")
        q = g.search(any_of(made, end, ok), start=made, block=apply_)
        c.ob("Q04.simple", f, q is None, "an arm isn't applied: %s" % fmt_path(q or []), key="applied")
        q = g.search(apply_, start=apply_, block=made)
        c.ob("Q04.simple", f, q is None, "two arms are applied to the same clauses: %s" % fmt_path(q or []), key="own")
        # one table, which is read
        al = {a[3] for a in (args_of(g, ev) for ev in g.events(apply_))}
        src = lambda ev: ev.kind == "call" and ev.callee.endswith("::push") and args_of(g, ev)[0] == "self.from"
        for ev in g.events(src): c.ob("Q04.simple", ev, args_of(g, ev)[1] in al, "another table is read", key="from")
        fold = lambda ev: ev.kind == "call" and ev.data["f"].get("k") is not None and any(t.body is not None and t.body.argc == 2 and re.match(SELFRX, t.body.ty(1)) and re.search(r"::ConjoiningClauses$", t.body.ty(2)) for t in g.P.targets(ev.data["f"]["k"])) and args_of(g, ev)[0] == "self"
        EM = lambda ev: EMPTY(ev) and args_of(g, ev)[0] == "self"
        known_empty = opt(r"self\.empty_because", False)
        none_ = any_of(*[contradicts(r"is_empty\(.*make_evolved_pattern.*\)$", "0"), contradicts(r"len\(.*make_evolved_pattern.*\)$", 2)])
        left = opt(r"Peekable::peek\(.*\)|slice::first\(.*\)|Iterator::next\(.*\)", True)
        for what, p in (("read", src), ("held to", fold)):
            q = g.search(ok, block=any_of(p, EM), given=known_empty)
            c.ob("Q04.simple", f, q is None, "folded arms aren't %s: %s" % (what, fmt_path(q or [])), key=what)
        q = g.search(EM, given=any_of(none_, left, contradicts(r"is_empty\(.*\)$", "0"), contradicts(r"::len\(.*\)$", 2)))
        c.ob("Q04.simple", f, q is None, "found empty though an arm is left: %s" % fmt_path(q or []), key="some")
        # an arm is passed over only when it can't match
        for x in c.P.fns:
            if c.P.root_of(x) is not f or x is f or x.body is None: continue
            if x.body.ty(0) == "bool" and x.body.argc == 2 and re.search("ConjoiningClauses", x.body.ty(2)):
                gx = c.graph(x, None, small=40, keep=True)
                nm = re.escape(x.body.name(2) or "_2")
                got = answers(gx, opt(r".*\.empty_because", False))
                bad = [a for a in got if not re.fullmatch(r"1|Not\(.*(is_some|is_known_empty)\(.*\)\)|Option::is_none\(.*empty_because\)", a)]
                c.ob("Q04.simple", x, not bad, "an arm that may match is passed over: %s" % got, key="kept")
                c.done(gx)
            if re.search(r"Option<.*EvolvedPattern>$", x.body.ty(0)):
                gx = c.graph(x, None, small=0, keep=True)
                q = gx.search(built("Option", "None"), given=choice(r".*make_evolved_pattern\(.*\)", "PlaceOrEmpty", "Place"))
                q = [e for e in q if e.frame is gx.rootf and e.kind == "stmt"] if q else None
                c.ob("Q04.simple", x, not (q and gx.search(lambda ev: ev.kind == "ret" and ev.frame is gx.rootf and ev.tag == "None", given=choice(r".*make_evolved_pattern\(.*\)", "PlaceOrEmpty", "Place"))), "an arm that may match is left out: %s" % fmt_path(q or []), key="evolved")
                c.done(gx)
        lr = loops_(g, arm, leaving=r"Iterator::filter(?=\()")
        alts = r"Vec::\w+\(.*\)|Default::default\(\)|\{.*Vec::\w+\(.*\).*\}"
        put = lambda ev: ev.kind == "call" and re.search(r"Vec::push$", ev.callee) is not None and re.fullmatch(arm + r"\.wheres(\.0)?", args_of(g, ev)[1]) is not None
        typ = lambda ev: ev.kind == "call" and ev.data["f"].get("k") is not None and len(ev.data["a"]) == 2 and re.fullmatch(arm + r"\.known_types", args_of(g, ev)[1]) is not None and "self" != args_of(g, ev)[0]
        for what, p in (("what it asks for", put), ("its types", typ)):
            w = [g.search(any_of(s, n, fold, ok), start=s, block=p) or g.search(fold, block=n) for s, n in lr.values()]
            c.ob("Q04.simple", f, None in w, "an arm gives up %s: %s" % (what, [fmt_path(x) for x in w if x][:1]), key="each:" + what)
        # one alternative alone is what is asked for; several are alternatives
        alt = lambda ev: ev.kind == "stmt" and ev.data[1].get("r") == "agg" and str(ev.data[1].get("adt", "")).endswith("::ColumnAlternation")
        tot = lambda n: contradicts(r"^Vec::len\((Vec::|\{).*\)$", n)
        q = g.search(fold, start=put, block=alt, given=tot(2))
        c.ob("Q04.simple", f, q is None, "several arms aren't alternatives: %s" % fmt_path(q or []), key="alternatives")
        for ev in g.events(alt):
            a = rset(g.T.operand(ev.frame, ev.data[1]["a"][0]))
            c.ob("Q04.simple", ev, re.fullmatch(alts, a) is not None and "wheres" not in a.split("(")[0], "the alternatives are %s" % a[:120], key="alternatives:which")
        # the columns its variables are bound to
        first = r"(Peekable::peek\(\[?%s\]?\)|%s|.*\(\[?%s\]?\))\.column_bindings" % (arm, arm, arm)
        lc = loops_(g, first + r"(\[\])?", leaving=r"Iterator::filter(?=\()")
        bind = any_of(lambda ev: ev.kind == "call" and re.search(r"Entry::insert$|Map::insert$|::append$|::extend$|or_insert\w*$", ev.callee) is not None and "self.column_bindings" in args_of(g, ev)[0] and re.fullmatch(first + r"\[\]\.1", args_of(g, ev)[-1]) is not None)
        w = [g.search(any_of(s, n, fold, ok), start=s, block=bind) or g.search(fold, block=n) for s, n in lc.values()]
        c.ob("Q04.simple", f, None in w, "a variable isn't bound: %s" % [fmt_path(x) for x in w if x][:1], key="bound")
        kt = lambda b: any_of(opt(r".*BTreeMap::get\((self\.known_types|BTreeMap::new\(\)).*column_bindings.*\).*", b), contradicts(r"is_unit\(.*\)$", "1" if b else "0"))
        tag = lambda ev: ev.kind == "call" and re.search(r"(or_insert|Map::insert|Entry::insert)$", ev.callee) is not None and "self.extracted_types" in args_of(g, ev)[0]
        lt = [(s, n) for s, n in [(lambda e, k=k: e.kind == "edge" and (e.frame.id, e.block) == k and e.tag[2] == "Some", lambda e, k=k: e.kind == "edge" and (e.frame.id, e.block) == k and e.tag[2] == "None") for k in {(ev.frame.id, ev.block) for ev in g.events(lambda e: e.kind == "edge" and e.tag is not None and e.tag[2] == "Some" and nexts(g, e))}] if g.search(tag, start=s, block=n) is not None]
        w = [g.search(any_of(s, n, ok), start=s, block=tag, given=kt(False)) for s, n in lt]
        c.ob("Q04.simple", f, None in w, "the type of a variable isn't asked for though the arms differ in it: %s" % [fmt_path(x) for x in w if x][:1], key="tags")
        c.done(g)
        for ev in g.events(fold):
            for t in g.P.targets(ev.data["f"]["k"]):
                gt = c.graph(t, None, small=0, keep=True)
                o = re.escape(t.body.name(2))
                for what, p in (("what is asked for", argis(gt, r"::(append|extend|add\w*)$", r"self\.wheres.*", o + r"\.wheres.*")), ("the types", lambda e: e.kind == "call" and len(e.data["a"]) == 2 and re.search(r"\bself\b", args_of(gt, e)[0]) is not None and args_of(gt, e)[1] == t.body.name(2) + ".known_types" and not e.callee.endswith("broaden_types"))):
                    q = gt.search(OKRET(gt), block=p)
                    c.ob("Q04.simple", t, q is None, "%s: left out: %s" % (what, fmt_path(q or [])), key="merged:" + what)
                q = gt.search(lambda e: e.kind == "stmt" and len(e.data) and str(e.data[0]).find("empty_because") >= 0 or EMPTY(e), given=opt(o + r"\.empty_because", False))
                c.ob("Q04.simple", t, q is None, "found empty: %s" % fmt_path(q or []), key="merged:empty")
                c.done(gt)

@rule("Q04")
def q04_types(c):
    c.rule("Q04.types", "what a variable may be in any of the arms: what it may be in each, and anything at all when an arm leaves it open")
    M = r"BTreeMap<[\w:]*Variable, [\w:]*ValueTypeSet>$"
    fs = [f for f in c.P.fns if f.kind != "closure" and f.body is not None and f.crate == "mentat_query_algebrizer" and f.body.argc == 2 and re.match(r"&(?:'\w+ )?mut [\w:]*" + M, f.body.ty(1)) and re.match(r"(&(?:'\w+ )?)?[\w:]*" + M, f.body.ty(2))]
    c.floor("Q04.types", "functions that put the types of arms together", len(fs), 1)
    for f in fs:
        g = c.graph(f, None, small=20, keep=True)
        g.T.opaque = lambda n: n.endswith(("ValueTypeSet::any", "ValueTypeSet::union"))
        I, A = f.body.name(1), f.body.name(2)
        K = lambda x: r"\[?%s\[\]\.0\]?" % re.escape(x)
        sym = r"symmetric_difference\((%s, %s|%s, %s)\)" % (K(I), K(A), K(A), K(I))
        only = {I: r"(\w+::)?(%s|difference\(%s, %s\))" % (sym, K(I), K(A)), A: r"(\w+::)?(%s|difference\(%s, %s\))" % (sym, K(A), K(I))}
        ANY = r"ValueTypeSet::any\(\)"
        into = lambda ev: ev.kind == "call" and re.search(r"BTreeMap::(append|extend|insert)$|::extend$|Entry::insert$|or_insert(_with)?$", ev.callee) is not None and re.match(r"(BTreeMap::entry\()?%s\b" % re.escape(I), args_of(g, ev)[0]) is not None
        ok = ret_of(g)
        wide = {}
        for x in (I, A):
            def w(ev, x=x):
                if not into(ev): return False
                a = ", ".join(args_of(g, ev)[1:])
                return re.search(r"tuple\{0: %s\[\], 1: %s\}" % (only[x], ANY), a) is not None or re.fullmatch(r"%s\[\](\.0)?, %s" % (only[x], ANY), a) is not None
            wide[x] = w
        L = loops(g, re.escape(A) + r"\[\]")
        some, none = any_of(*[s for s, _ in L.values()]), any_of(*[n for _, n in L.values()])
        c.ob("Q04.types", f, bool(L), "the types of an arm aren't looked at", key="each")
        q = g.search(ok, block=wide[I])
        c.ob("Q04.types", f, q is None, "a variable the arm leaves open keeps the types it had: %s" % fmt_path(q or []), key="open:new")
        vac = lambda ev: into(ev) and re.fullmatch(ANY, args_of(g, ev)[-1]) is not None
        had = r"^BTreeMap::(get|get_mut)\(%s, .*\)" % re.escape(I)
        absent = any_of(choice(r"BTreeMap::entry\(%s, .*\)" % re.escape(I), "Entry", "Vacant"), opt(had, False))
        there = any_of(choice(r"BTreeMap::entry\(%s, .*\)" % re.escape(I), "Entry", "Occupied"), opt(had, True))
        TT = within(g, there)
        q = g.search(ok, block=wide[A]) and g.search(any_of(some, ok), start=some, block=vac, given=absent)
        c.ob("Q04.types", f, not q, "a variable left open so far gets the arm's types alone: %s" % fmt_path(q or []), key="open:old")
        if not L: continue
        lastarg = lambda ev: rset(TT.operand(ev.frame, ev.data["a"][-1]))
        both = lambda ev: into(ev) and re.search(r"^ValueTypeSet::union\(.*\)$", lastarg(ev)) is not None and re.search(r"%s\[\]\.1" % re.escape(A), lastarg(ev)) is not None and re.search(r"(get|get_mut|into_mut)\(.*%s.*%s\[\]\.0" % (re.escape(I), re.escape(A)), args_of(g, ev)[-1]) is not None
        q = g.search(any_of(some, none, ok), start=some, block=both, given=there)
        c.ob("Q04.types", f, q is None, "the arm's types aren't added: %s" % fmt_path(q or []), key="both")
        q = g.search(any_of(some, none), start=lambda ev: both(ev), block=nothing) if False else None
        q = g.search(lambda ev: ev.kind == "call" and re.search(r"BTreeMap::keys$", ev.callee) is not None and args_of(g, ev)[0] == I, start=lambda ev: into(ev) and not any(w(ev) for w in wide.values()))
        c.ob("Q04.types", f, q is None, "which variables are open is asked too late: %s" % fmt_path(q or []), key="before")
        for x in (I, A):
            q = g.search(lambda ev: into(ev) and not any(w(ev) for w in wide.values()), start=wide[x])
            c.ob("Q04.types", f, q is None, "a variable left open is narrowed again: %s" % fmt_path(q or []), key="after")
        c.done(g)

SELFRX = r"&(?:'\w+ )?mut .*ConjoiningClauses$"
