"""The attribute cache: what it holds is what the store holds."""
import re
from ctx import *
from model import op_place, Place
from registry import rule
from rules.logsql import E, EXEMPT
from rules.idents import loops

CELLS = {"e_v": "single_vals", "e_vs": "multi_vals", "v_e": "unique_reverse", "v_es": "non_unique_reverse"}
MUT = r".*(BTreeMap|BTreeSet|Vec|VecDeque|HashMap|HashSet|VacantEntry|OccupiedEntry|Option)::(insert|remove|push|retain|clear|append|extend|take|replace|swap_remove|drain|truncate|pop)"
NEXT = r".*::next(_if|_if_eq)?"
ADD = "mentat_db::cache::"

def stores(g, pred):
    """Statements writing through a reference, with the written place's origin and the value's both accepted."""
    def p(ev):
        if ev.kind != "stmt": return False
        pl, rv = ev.data[0], ev.data[1]
        pr = tuple(pl[1:])
        if "*" not in pr or rv["r"] in ("setdiscr",): return False
        i = len(pr) - 1 - pr[::-1].index("*")
        ts = g.T.place(ev.frame, pl[0], pr[:i])
        if not ts: return False
        return any(pred(rend(t) + "".join(pr[i + 1:]), ev) for t in ts)
    return p

def cell(ev, g):
    """(container, key, operation, arguments) of a call that changes a cached cell, or None."""
    if ev.kind != "call" or not re.fullmatch(MUT, ev.callee): return None
    a = args_of(g, ev)
    if not a: return None
    m = re.search(r"\.(e_v|e_vs|v_e|v_es)\b", a[0])
    if m is None: return None
    return m.group(1), a, ev.callee.split("::")[-2] + "::" + ev.callee.split("::")[-1]

UPD = r"<mentat_db::cache::(?P<t>\w+) as mentat_core::cache::UpdateableCache<.*>>::update"
TOUCH = r".*(Entry|BTreeMap|Vec|BTreeSet|Peekable|Iterator>?|Option)::\w+"

def keyed(cellname, rows):
    """Regex of the key a cell of this kind has for the current row."""
    return re.escape(rows) + (r"\[\]\.1" if cellname.startswith("e") else r"\[\]\.2")

@rule("K01")
def k01_apply(c):
    c.rule("K01.apply", "every row the cache is told of is carried out in each direction the attribute is cached in, on that attribute's, entity's and value's cell, by its cardinality and uniqueness; a replaced value leaves the reverse direction")
    c.rule("K01.exact", "a retraction empties a cell only if it holds the retracted value, and nothing else is removed")
    c.rule("K01.order", "all retractions are carried out before the first assertion, and the update ends only when both are exhausted")
    ups = [f for f in c.P.fns if re.fullmatch(UPD, f.path)]
    c.floor("K01.apply", "caches that can be updated", len(ups), 3)
    for f in ups:
        who = re.fullmatch(UPD, f.path).group("t")
        r_, a_ = f.body.name(3), f.body.name(4)
        g = c.graph(f, lambda fn, i, t, k: k is not None and re.search(r"Entry::|BTreeMap::|Vec::|BTreeSet::|peek", callee_name(k)) is not None, small=40, keep=True)
        nx = lambda rows: lambda ev: ev.kind == "call" and re.fullmatch(NEXT, ev.callee) is not None and args_of(g, ev)[0] == rows
        done = ret_of(g)
        # order
        q = g.search(nx(r_), start=nx(a_))
        c.ob("K01.order", f, q is None, "a retraction is carried out after an assertion: %s" % fmt_path(q or []), key="order:" + who)
        for rows in (r_, a_):
            c.floor("K01.order", "%s: places where %s are read" % (who, rows), len(g.events(nx(rows))), 1)
            out = any_of(variant_edge("option::Option", "None", r"^(.*peek\()?%s(\)|\[\])$" % re.escape(rows)),
                         contradicts(r"::(is_some)\(.*peek\(%s\)\)$" % re.escape(rows), "1"), contradicts(r"::(is_none)\(.*peek\(%s\)\)$" % re.escape(rows), "0"))
            q = g.search(ret_of(g, "Ok"), block=out)
            c.ob("K01.order", f, q is None, "ends with %s left over: %s" % (rows, fmt_path(q or [])), key="all:%s:%s" % (who, rows == a_))
        own = {}
        for ev in g.events(lambda e: cell(e, g) is not None):
            k, a, op = cell(ev, g)
            own.setdefault((k, op), []).append((ev, a))
        base = r"self(\.inner|\.overlay)?"
        base = {"AttributeCaches": r"self", "SQLiteAttributeCache": r"self\.inner", "InProgressSQLiteAttributeCache": r"self\.overlay"}.get(who, base)
        for fwd in (0, 1):
            for rev in (0, 1):
                if not (fwd or rev): continue
                for multi in (0, 1):
                    for uniq in (0, 1):
                        _case(c, g, f, who, base, r_, a_, nx, done, fwd, rev, multi, uniq)
        # nothing else changes
        bad = []
        for (k, op), evs in own.items():
            for ev, a in evs:
                rows = [x for x in (r_, a_) if re.search(r"(?<!\w)%s\b" % re.escape(x), a[0])]
                if not re.search(base + r"\." + CELLS[k] + r"\b", a[0]): bad.append("%s on %s" % (op, a[0][:80]))
                elif op.endswith("::clear") or op in ("BTreeMap::append", "BTreeMap::retain", "Vec::truncate", "Vec::pop", "BTreeMap::remove") and not ruledout(g, ev): 
                    if g.search(is_ev(ev), block=contradicts(r"behavior\.replacing$|\.replacing$", "0")) is not None: bad.append("%s on %s" % (op, a[0][:80]))
        c.ob("K01.exact", f, not bad, "; ".join(sorted(set(bad))[:3]), key="only:" + who)
        c.done(g)

def ruledout(g, ev): return False

def _case(c, g, f, who, base, r_, a_, nx, done, fwd, rev, multi, uniq, adds=False, attr=None, first=None):
    name = "%s%s/%s/%s" % ("f" if fwd else "", "r" if rev else "", "many" if multi else "one", "unique" if uniq else "any")
    imp = [contradicts(base + r"\.forward_cached_attributes, .*\)$", str(fwd)), contradicts(base + r"\.reverse_cached_attributes, .*\)$", str(rev)),
           contradicts(r"\.multival$", str(multi)), opt(r"\.unique", bool(uniq)),
           # the attribute exists
           opt(r"::get\(\w+\.attribute_map, .*\)", True)]
    imp = any_of(*imp)
    def on(kind, rows, keyre=None, valre=None, ops=None):
        """A call changing the cell `kind` for this row."""
        key = keyre or keyed(kind, rows)
        def p(ev):
            x = cell(ev, g)
            if x is None or x[0] != kind: return False
            a = x[1]
            if not re.search(r"%s\.%s, %s\)" % (base, CELLS[kind], attr or r"(.*peek\(%s\)|%s\[\])\.0" % (re.escape(rows), re.escape(rows))), a[0]): return False
            if ops is not None and not re.search(ops, x[2]): return False
            # the key: named by the entry the receiver came from, or by the first argument
            at = re.search(r"\.%s, %s\)" % (kind, key), a[0]) is not None
            rest = a[1:]
            if not at:
                if not rest or not re.fullmatch(key, rest[0]): return False
                rest = rest[1:]
            return valre is None or (bool(rest) and re.search(valre, rest[-1]) is not None)
        return p
    e = lambda rows: re.escape(rows) + r"\[\]\.1"
    v = lambda rows: re.escape(rows) + r"\[\]\.2"
    kinds = ([("e_vs" if multi else "e_v")] if fwd else []) + ([("v_e" if uniq else "v_es")] if rev else [])
    def row(rows, need, label, rule="K01.apply"):
        if adds and rows != a_: return
        q = g.search(any_of(nx(a_), nx(r_), done), start=[nx(rows)] if first is None else [first, nx(rows)], block=need, given=imp, late=first is not None)
        c.ob(rule, f, q is None, "%s: %s: %s" % (name, label, fmt_path(q or [])), key="%s:%s:%s" % (label.split(":")[0], who, name))
    for rows in (a_,) if adds else (r_, a_):
        q = g.search(nx(rows), start=first, given=imp, late=True)
        c.ob("K01.apply", f, q is not None, "%s: %s are never taken up" % (name, "retractions" if rows == r_ else "assertions"), key="taken:%s:%s:%s" % (who, name, rows == a_))
    for k in kinds:
        # assertions
        val = v(a_) if k.startswith("e") else e(a_)
        if k in ("e_v", "v_e"):
            add = on(k, a_, valre=r"(^|\W)" + val + "$", ops="insert")
        else:
            there = lambda ev, k=k, val=val: ev.kind == "edge" and contradicts(r"::contains\(.*\.%s, %s\).*, %s\)$" % (k, keyed(k, a_), val), "0")(ev)
            add = any_of(on(k, a_, valre="^" + val + "$", ops=r"(insert|push)$"), on(k, a_, valre=val, ops=r"^BTreeMap::insert"), there)
        row(a_, add, "an asserted value isn't cached (%s)" % CELLS[k])
        # retractions
        val = v(r_) if k.startswith("e") else e(r_)
        other = lambda ev, k=k, val=val: relation(ev, r"(::|\()(get|get_mut|entry)\(.*\.%s, %s\).*$" % (k, keyed(k, r_)), r"^(\w+::\w+\()?%s\)?$" % val) in ("Ne",)
        absent = any_of(opt(r"::(get|get_mut)\(.*\.%s, %s\)" % (k, keyed(k, r_)), True), opt(r"OccupiedEntry::(get|get_mut)\(.*entry\(.*\.%s, %s\).*\)" % (k, keyed(k, r_)), True), lambda ev, k=k, val=val: contradicts(r"::contains\(.*\.%s, %s\).*, %s\)$" % (k, keyed(k, r_), val), "1")(ev))
        if k in ("e_v", "v_e"):
            rem = any_of(on(k, r_, valre=r"None", ops="insert"), on(k, r_, ops="remove"))
        else:
            rem = on(k, r_, ops=r"^(BTreeSet|HashSet)::remove$", valre="^" + val + "$") if k == "v_es" else on(k, r_, ops=r"(retain|remove|swap_remove)$")
        row(r_, any_of(rem, other, absent), "a retracted value stays cached (%s)" % CELLS[k])
        if k in ("e_v", "v_e") and not adds:
            # only the value named
            same = lambda ev, k=k, val=val: relation(ev, r"(get|get_mut|entry)\(.*\.%s, %s\).*$" % (k, keyed(k, r_)), val) == "Eq"
            vac = lambda ev: ev.kind == "call" and ev.callee.endswith("VacantEntry::insert")
            q = g.search(lambda ev: rem(ev) and not vac(ev), start=nx(r_), block=same, given=imp)
            c.ob("K01.exact", f, q is None, "%s: retracting one value removes another (%s): %s" % (name, CELLS[k], fmt_path(q or [])), key="other:%s:%s:%s" % (who, name, k))
    if rev and not multi and not adds:
        k = kinds[-1]
        old = r".*get(_mut)?\(.*\.e_v, %s\)(\.0)?" % e(a_)
        gone = any_of(on(k, a_, keyre=old), opt(r"::(get|entry)\(.*\.e_v, %s\)" % e(a_), True),
                      opt(old, True), lambda ev: relation(ev, old + "$", v(a_)) == "Eq")
        if k == "v_e":
            gone = any_of(gone, opt(r"::(get|get_mut|entry)\(.*\.v_e, %s\)" % old, True), opt(r"OccupiedEntry::(get|get_mut)\(.*entry\(.*\.v_e, %s\).*\)" % old, True), lambda ev: relation(ev, r"(get|get_mut|entry)\(.*\.v_e, %s\).*$" % old, e(a_)) == "Ne")
        else:
            gone = any_of(gone, opt(r"::(get|get_mut)\(.*\.v_es, %s\)" % old, True))
        # or every cell of the reverse map is gone over
        coll = r".*\.%s, (?:.*peek\(%s\)|%s\[\])\.0\).*\.%s\)" % (CELLS[k], re.escape(a_), re.escape(a_), k)
        its = {kk: vv for kk, vv in loops(g, r".*(iter_mut|values_mut|iter)\(" + coll + r"\[\](\.1)?").items()}
        for some, none in its.values():
            item = r"%s\)\[\]" % ("." + k)
            keep = any_of(lambda ev: relation(ev, r"\.%s\)\[\]\.0$" % k, v(a_)) == "Eq", lambda ev: relation(ev, r"\.%s\)\[\]\.1$" % k, e(a_)) == "Ne")
            cut = any_of(lambda ev: cell(ev, g) is not None and cell(ev, g)[0] == k and re.search(r"\.%s\)\[\]\.1$" % k, args_of(g, ev)[0]) is not None and re.search(r"(remove|take)$", ev.callee) is not None and (k == "v_e" or re.fullmatch(e(a_), args_of(g, ev)[1]) is not None),
                         stores(g, lambda dst, ev: re.search(r"\.%s\)\[\]\.1$" % k, dst) is not None and rset(g.T.rvalue(ev.frame, ev.data[1], (), 0)) == "Option::None{}"))
            q = g.search(any_of(some, none), start=some, block=any_of(keep, cut), given=imp)
            if q is None: gone = any_of(gone, none)
            wrong = g.search(cut, start=some, block=any_of(lambda ev: relation(ev, r"\.%s\)\[\]\.0$" % k, v(a_)) == "Ne"), given=imp)
            mine = None if k == "v_es" else g.search(cut, start=some, block=any_of(lambda ev: relation(ev, r"\.%s\)\[\]\.1$" % k, e(a_)) == "Eq"), given=imp)
            c.ob("K01.exact", f, wrong is None and mine is None, "%s: replacing a value drops another entity's: %s" % (name, fmt_path(wrong or mine or [])), key="cut:%s:%s" % (who, name))
        row(a_, gone, "a replaced value stays in the reverse direction")
        if fwd:
            seen = lambda ev: ev.kind == "call" and re.search(r"::(get|get_mut|entry|insert|remove)$", ev.callee) is not None and any(re.search(r"\.e_v$", x) for x in args_of(g, ev)[:1]) and re.fullmatch(e(a_), args_of(g, ev)[1]) is not None
            wr = on("e_v", a_, ops="insert")
            q = g.search(wr, start=nx(a_), block=lambda ev: seen(ev) and not ev.callee.endswith("::insert"), given=imp)
            c.ob("K01.apply", f, q is None, "%s: the old value is overwritten before it is looked at: %s" % (name, fmt_path(q or [])), key="old:%s:%s" % (who, name))

REG = r"mentat_db::cache::(?P<t>SQLiteAttributeCache|InProgressSQLiteAttributeCache)::(?P<n>register(_forward|_reverse)?)"
TOUCHES = lambda fn, i, t, k: k is not None and re.search(r"Entry::|BTreeMap::|Vec::|BTreeSet::|peek", callee_name(k)) is not None

@rule("K01")
def k01_fill(c):
    c.rule("K01.fill", "an attribute is cached only if it exists; starting to cache it fills a new map from all of its stored values, in each direction asked for, read from the table that holds its values")
    regs = [f for f in c.P.fns if re.fullmatch(REG, strip_generics(f.path))]
    c.floor("K01.fill", "ways to start caching an attribute", len(regs), 6)
    for f in sorted(regs, key=lambda f: f.path):
        m = re.fullmatch(REG, strip_generics(f.path)); who = m.group("t") + "." + m.group("n")
        a = f.body.name(4)
        g = c.graph(f, TOUCHES, small=40, keep=True)
        g.T.blank = lambda n: re.search(r"rusqlite::.*::(query\w*)$", n) is not None
        base = r"self\.inner" if m.group("t") == "SQLiteAttributeCache" else r"self\.overlay"
        schema = f.body.name(2)
        exists = opt(r"::get\(%s\.attribute_map, %s\)" % (schema, a), False)
        reg = lambda d: lambda ev: ev.kind == "call" and re.search(r"Set::insert$", ev.callee) is not None and re.fullmatch(base + r"\.%s_cached_attributes" % d, args_of(g, ev)[0]) is not None and args_of(g, ev)[1] == a
        dirs = {"register": ("forward", "reverse"), "register_forward": ("forward",), "register_reverse": ("reverse",)}[m.group("n")]
        for d in ("forward", "reverse"):
            evs = g.events(reg(d))
            if d not in dirs:
                c.ob("K01.fill", f, not evs, "also caches %s" % d, key="dir:%s:%s" % (who, d)); continue
            q = g.search(reg(d), block=exists)
            c.ob("K01.fill", f, q is None, "an attribute that doesn't exist is cached: %s" % fmt_path(q or []), key="exists:%s:%s" % (who, d))
        nexts = g.events(lambda ev: ev.kind == "call" and re.fullmatch(NEXT, ev.callee) is not None and re.fullmatch(r"(?!.*split).*::query\w*\(\).*", args_of(g, ev)[0]) is not None)
        rows = {args_of(g, ev)[0] for ev in nexts}
        if not c.floor("K01.fill", "%s: reads of stored values" % who, len(rows), 1): continue
        rows = sorted(rows)[0]
        nx = lambda r: lambda ev: ev.kind == "call" and re.fullmatch(NEXT, ev.callee) is not None and args_of(g, ev)[0] == r
        query = call_to(r"rusqlite::.*::(query_map|query|query_and_then|query_named|query_map_named)")
        for d in dirs:
            for multi in (0, 1):
                for uniq in (0, 1):
                    given = any_of(contradicts(base + r"\.%s_cached_attributes, %s\)$" % (d, a), "1"), contradicts(r"\.multival$", str(multi)), opt(r"\.unique", bool(uniq)), opt(r"::get\(%s\.attribute_map, .*\)" % schema, True))
                    k = ("e_vs" if multi else "e_v") if d == "forward" else ("v_e" if uniq else "v_es")
                    # from not cached to cached: the map begins empty
                    blank = lambda ev, k=k: (ev.kind == "call" and re.search(r"Map::insert$", ev.callee) is not None and re.fullmatch(base + r"\." + CELLS[k], args_of(g, ev)[0]) is not None and args_of(g, ev)[1] == a and re.search(r"%s: (Default::default|BTreeMap::new)\(\)" % k, args_of(g, ev)[2]) is not None)
                    q = g.search(any_of(nx(rows), ret_of(g, "Ok")), start=reg(d), block=blank, given=given, late=True)
                    c.ob("K01.fill", f, q is None, "%s: what was there before is kept: %s" % (CELLS[k], fmt_path(q or [])), key="fresh:%s:%s:%d%d" % (who, d, multi, uniq))
                    _case(c, g, f, who, base, rows + "-", rows, nx, ret_of(g), int(d == "forward"), int(d == "reverse"), multi, uniq, adds=True, first=reg(d))
            q = g.search(ret_of(g, "Ok"), start=reg(d), block=query)
            c.ob("K01.fill", f, q is None, "cached without fetching its values: %s" % fmt_path(q or []), key="fetch:%s:%s" % (who, d))
        out = variant_edge("option::Option", "None", r"^(.*peek\()?%s(\)|\[\])$" % re.escape(rows))
        out = any_of(out, contradicts(r"::(is_some)\(.*peek\(%s\)\)$" % re.escape(rows), "1"), contradicts(r"::(is_none)\(.*peek\(%s\)\)$" % re.escape(rows), "0"))
        q = g.search(ret_of(g, "Ok"), start=query, block=out)
        c.ob("K01.fill", f, q is None, "not all values are taken: %s" % fmt_path(q or []), key="all:" + who)
        # dropping what was fetched
        wipe = lambda ev: ev.kind == "call" and re.search(r"::(clear|remove)$", ev.callee) is not None and re.search(r"\.(e_v|e_vs|v_e|v_es)$", args_of(g, ev)[0]) is not None
        if True:
            pk = r"peek\(%s\)" % re.escape(rows)
            more = any_of(contradicts(r"::is_some\(.*%s\)$" % pk, "0"), contradicts(r"::is_none\(.*%s\)$" % pk, "1"), variant_edge("option::Option", "Some", r"^(.*%s|%s\[\])$" % (pk, re.escape(rows))), lambda ev: relation(ev, pk + r"\.0$", "") == "Eq")
            q = g.search(wipe, start=nx(rows), block=more)
            c.ob("K01.fill", f, q is None, "drops values it fetched: %s" % fmt_path(q or []), key="wipe:" + who)
        c.done(g)


def within(g, *given):
    """Tracer restricted to what can execute when no edge of `given` is taken."""
    seen = set()
    def goal(ev):
        seen.add((ev.frame.id, ev.block)); return False
    g._walk(g._init(), goal, any_of(*given))
    T = Tracer(g, only=seen)
    T.opaque, T.blank, T.lossy = g.T.opaque, g.T.blank, g.T.lossy
    return T

def among(pat, some):
    """Like opt, for an Option that is `pat` whenever it isn't a plain None."""
    o = opt(pat, some)
    def p(ev):
        if o(ev): return True
        if ev.kind != "edge" or ev.tag is None or ev.tag[1] is None or not str(ev.tag[1]).endswith("option::Option"): return False
        ts = [t for t in ev.g.T.operand(ev.frame, ev.data["o"])]
        if not ts or any(t[0] != "discr" for t in ts): return False
        rs = [rend(t[1]) for t in ts]
        if not all(re.fullmatch(pat + r"|Option::None\{\}", x) for x in rs) or not any(re.fullmatch(pat, x) for x in rs): return False
        return ev.tag[2] == ("None" if some else "Some")
    return p

def answers(g, *given):
    return sorted(rend(t) for t in within(g, *given).place(g.rootf, 0, ()) if t != ("err",))

GETTERS = {"get_value_for_entid": ("single_vals", "e_v", "forward"), "get_values_for_entid": ("multi_vals", "e_vs", "forward"),
           "get_entid_for_value": ("unique_reverse", "v_e", "reverse"), "get_entids_for_value": ("non_unique_reverse", "v_es", "reverse")}
LAYER = {"AttributeCaches": "self", "SQLiteAttributeCache": "self.inner", "InProgressSQLiteAttributeCache": "self.overlay"}
CACHED = r"<mentat_db::cache::(?P<t>\w+) as mentat_core::cache::CachedAttributes>::(?P<n>\w+)"

@rule("K01")
def k01_read(c):
    c.rule("K01.read", "the cache answers from the cell of the attribute, entity and value asked about; inside a transaction from what the transaction holds for the attribute if it holds anything, and never for an attribute it stopped caching")
    fs = [(f, re.fullmatch(CACHED, f.path)) for f in c.P.fns if re.fullmatch(CACHED, f.path)]
    c.floor("K01.read", "ways to read a cache", len([1 for f, m in fs if m.group("n") in GETTERS]), 12)
    for f, m in sorted(fs, key=lambda x: x[0].path):
        who, n = m.group("t"), m.group("n")
        g = c.graph(f, TOUCHES, small=40, keep=True)
        lay = LAYER.get(who)
        if lay is None: continue
        inprog = who.startswith("InProgress")
        if n in GETTERS:
            mp, cl, d = GETTERS[n]
            a = f.body.name(3 if d == "forward" else 2); k = f.body.name(4 if d == "forward" else 3)
            def hit(base): return r"BTreeMap::get\(\{?BTreeMap::get\(%s\.%s, %s\)(\.0)?\.%s(\|Option::None\{\})?\}?, %s\)(\.0)*" % (re.escape(base), mp, a, cl, k)
            layers = [lay] + (["self.inner"] if inprog else [])
            got = [rend(t) for t in g.T.place(g.rootf, 0, ()) if t != ("err",)]
            want = [hit(b) for b in layers]
            odd = [x for x in got if x != "Option::None{}" and not any(re.fullmatch(w, x) for w in want)]
            c.ob("K01.read", f, not odd, "answers %s" % "; ".join(odd)[:200], key="cell:%s:%s" % (who, n))
            for b in layers:
                blk = [opt(r"::get\(\w+\.attribute_map, .*\)", True), contradicts(r"\.multival$", str(int(n == "get_values_for_entid"))), contradicts(r"unregistered_%s, %s\)$" % (d, a), "0"),
                       contradicts(r"\.%s_cached_attributes, %s\)$" % (d, a), "1")]
                if b != lay: blk.append(among(r"BTreeMap::get\(%s\.%s, %s\)(\.\w+)?" % (re.escape(lay), mp, a), False))
                blk.append(among(r"BTreeMap::get\(%s\.%s, %s\)(\.\w+)?" % (re.escape(b), mp, a), True))
                r = answers(g, *blk)
                c.ob("K01.read", f, any(re.fullmatch(hit(b), x) for x in r) and not any(x == "0" for x in r), "what %s holds is never answered: %s" % (b, "; ".join(r)[:150]), key="found:%s:%s:%s" % (who, n, b))
                # not None when there's a cell
                extra = [x for x in r if x != "Option::None{}" and not re.fullmatch(hit(b), x)]
                c.ob("K01.read", f, not extra, "answers %s" % extra[:2], key="layer:%s:%s:%s" % (who, n, b))
            if inprog:
                cells = lambda ev: ev.kind == "call" and re.search(r"::get$", ev.callee) is not None and re.search(r"\.%s\b" % mp, args_of(g, ev)[0]) is not None
                q = g.search(ret_of(g), start=cells, given=contradicts(r"unregistered_%s, %s\)$" % (d, a), "1"))
                r = answers(g, contradicts(r"unregistered_%s, %s\)$" % (d, a), "1"))
                c.ob("K01.read", f, r == ["Option::None{}"], "an attribute no longer cached is answered with %s" % "; ".join(r)[:150], key="unregistered:" + n)
        elif n.startswith("is_attribute_cached_"):
            d = n.rsplit("_", 1)[1]; a = f.body.name(2)
            own = r"%s\.%s_cached_attributes, %s\)$" % (re.escape(lay), d, a)
            inner = r"self\.inner\.%s_cached_attributes, %s\)$" % (d, a)
            un = r"unregistered_%s, %s\)$" % (d, a)
            term = {"1": r"BTreeSet::contains\((%s|%s)" % (own, inner), "0": r"BTreeSet::contains\((%s|%s)" % (own, inner)}
            cases = [(("1",), "1"), (("0",), "0")] if not inprog else [(("1", "0"), "1"), (("0", "1"), "1"), (("1", "1"), "1"), (("0", "0"), "0")]
            for vs, out in cases:
                blk = [contradicts(own, vs[0]), contradicts(un, "0")] + ([contradicts(inner, vs[1])] if inprog else [])
                r = answers(g, *blk)
                ok = all(x == out or (re.fullmatch(term[out], x) and not any(re.search(p, x) and v != out for p, v in zip((own, inner), vs))) for x in r) and bool(r)
                c.ob("K01.read", f, ok, "%s: says %s" % (vs, r[:3]), key="cached:%s:%s:%s" % (who, n, "".join(vs)))
            if inprog:
                r = answers(g, contradicts(un, "1"))
                c.ob("K01.read", f, r == ["0"], "an attribute no longer cached counts as cached", key="cached:gone:" + n)
        c.done(g)

@rule("K01")
def k01_watch(c):
    c.rule("K01.watch", "every assertion and retraction of a cached attribute a transaction makes is kept, with its entity and value, and handed to the cache when the transaction has been applied")
    for f in c.find(r"<mentat_db::cache::InProgressCacheTransactWatcher.* as .*>::datom"):
        g = c.graph(f, TOUCHES, small=40, keep=True)
        op, e, a, v = (f.body.name(i) for i in (2, 3, 4, 5))
        adt = "OpType"
        for val, own, other in (("Add", "collected_assertions", "collected_retractions"), ("Retract", "collected_retractions", "collected_assertions")):
            isop = lambda ev, val=val: ev.kind == "edge" and opis(ev, op, val)
            for d in ("forward", "reverse"):
                for lay in ("overlay", "inner"):
                    given = any_of(isop, contradicts(r"self\.active$", "1"), contradicts(r"unregistered_%s, %s\)$" % (d, a), "0"), contradicts(r"%s\.%s_cached_attributes, %s\)$" % (lay, d, a), "1"))
                    keep = lambda ev: (ev.kind == "call" and re.search(r"(VacantEntry|Map)::insert$", ev.callee) is not None and re.search(r"Either::Right\{.*tuple\{0: %s, 1: %s\}.*\}$" % (e, v), args_of(g, ev)[-1]) is not None) or \
                        (ev.kind == "call" and ev.callee.endswith("Vec::push") and re.search(r"collected_", args_of(g, ev)[0]) is not None and args_of(g, ev)[1] == "tuple{0: %s, 1: %s}" % (e, v))
                    # an entry already there says what was found the first time round: it holds a list when the attribute is cached
                    given2 = any_of(given, variant_edge("Either", "Left", r"collected_"))
                    q = g.search(ret_of(g), block=keep, given=given2)
                    c.ob("K01.watch", f, q is None, "%s of an attribute cached %s (%s) is missed: %s" % (val, d, lay, fmt_path(q or [])), key="seen:%s:%s:%s" % (val, d, lay))
            T = within(g, isop)
            evs = g.events(lambda ev: ev.kind == "call" and re.search(r"Map::(entry|get_mut|insert|get)$", ev.callee) is not None, block=isop)
            into = {rend(t) for ev in evs for t in T.operand(ev.frame, ev.data["a"][0])}
            into = {x for x in into if "collected_" in x}
            c.ob("K01.watch", f, into == {"self." + own}, "%s is kept among %s" % (val, sorted(into)), key="into:" + val)
            key = {rend(t) for ev in evs for t in T.operand(ev.frame, ev.data["a"][1]) if any("collected_" in rend(x) for x in T.operand(ev.frame, ev.data["a"][0]))}
            c.ob("K01.watch", f, key == {a}, "kept under %s" % sorted(key), key="key:" + val)
        c.done(g)
    for f in c.find(r"<mentat_db::cache::InProgressCacheTransactWatcher.* as .*>::done"):
        g = c.graph(f, lambda fn, i, t, k: False, small=0, keep=True)
        up = call_to(r".*UpdateableCache.*::update")
        q = g.search(ret_of(g), block=up)
        c.ob("K01.watch", f, q is None, "what was kept isn't handed on: %s" % fmt_path(q or []), key="handed")
        order = lambda a: re.findall(r"collected_(\w+)", a)
        for ev in g.events(up):
            a = args_of(g, ev)
            R, A = set(order(a[2])), set(order(a[3]))
            ok = (R, A) == ({"retractions"}, {"assertions"})
            if R == A == {"retractions", "assertions"}:
                # one iterator of both, in this order; the first taken is the retractions
                ch = [args_of(g, x) for x in g.events(call_to(r".*::chain"))]
                ok = bool(ch) and all(set(order(x[0])) == {"retractions"} and set(order(x[1])) == {"assertions"} for x in ch)
                src = [from_calls(g, ev.frame, ev.data["a"][i]) for i in (2, 3)]
                ok = ok and all(len(s) == 1 for s in src) and src[0] != src[1]
                if ok:
                    p1, p2 = (next(iter(s)) for s in src)
                    q = g.search(lambda x: x.kind == "call" and x.block == p2, block=lambda x: x.kind == "call" and x.block == p1)
                    ok = q is None
            c.ob("K01.watch", f, ok, "handed on as %s / %s" % (sorted(R), sorted(A)), key="which")
            for i in (2, 3):
                parts = re.findall(r"tuple\{0: (.*?), 1: (.*?), 2: (.*?)\}", a[i])
                fine = bool(parts) and all(all(re.search(r"%s(\||\}|$)" % x, y) for x, y in zip((r"\[\]\.0", r"\[\]\.0", r"\[\]\.1"), p)) and ".1.0" not in p[0] for p in parts)
                c.ob("K01.watch", f, fine, "handed on as %s" % parts[:1], key="shape:%d" % i)
        c.done(g)
    for f in c.find(r"mentat_db::cache::InProgressSQLiteAttributeCache::transact_watcher"):
        g = c.graph(f, TOUCHES, small=40, keep=True)
        act = field_write("InProgressCacheTransactWatcher", "active")
        q = g.search(any_of(act), block=call_to(r".*has_cached_attributes"))
        c.ob("K01.watch", f, q is None, "the watcher may be switched off without asking what is cached: %s" % fmt_path(q or []), key="active")
        c.done(g)

def opis(ev, op, val):
    """Edge on which `op` is something else than `val`."""
    for o, no in ((val, "Ne"), ("Retract" if val == "Add" else "Add", "Eq")):
        if relation(ev, r"^(discr\()?%s\)?$" % op, r"^(discr\()?OpType::%s(\{\})?\)?$" % o) == no: return True
    return choice(r"^(discr\()?%s\)?$" % op, "OpType", val)(ev)

def from_calls(g, frame, o, pat=r"(next|pop|pop_front|remove|take)$"):
    """Blocks of the taking calls an operand's value came from, following moves and unwrapping."""
    seen, out = set(), set()
    p = op_place(o)
    todo = [p.local] if p else []
    while todo:
        l = todo.pop()
        if l in seen: continue
        seen.add(l)
        for bi, si, d in frame.body.defs().get(l, []):
            if si < 0:
                n = callee_name(d["f"].get("k") or {})
                if n and re.search(pat, n): out.add(bi)
                else: todo += [q.local for q in map(op_place, d["a"][:1]) if q]
            else:
                rv = d[1]
                q = op_place(rv["o"]) if "o" in rv else (Place(rv["p"]) if "p" in rv else None)
                if q: todo.append(q.local)
    return out

MAPS = ("single_vals", "multi_vals", "unique_reverse", "non_unique_reverse")
SETS = ("forward_cached_attributes", "reverse_cached_attributes")

def allof(x):
    """Regex of collections that hold everything `x` does."""
    return r"(\w+::(union|iter|into_iter|chain|keys|cloned|copied|clone|collect|from_iter)\()*([^()]*, )?%s(, [^()]*)?\)*" % x

def each(g, src, op, done, given=None, leaving=None):
    """None when every iteration over src performs op and src is always exhausted before `done`; else why not."""
    ls = loops(g, "(%s)%s" % (src, r"\[\]"), leaving)
    if not ls: return "nothing iterates over it"
    why = []
    for some, none in ls.values():
        q = g.search(any_of(some, done), start=some, block=op, given=given)
        if q is not None: why.append("skipped on " + fmt_path(q)); continue
        q = g.search(done, block=none, given=given)
        if q is not None: why.append("not reached on " + fmt_path(q)); continue
        return None
    return "; ".join(why[:2])

def argis(g, pat, *args):
    """Calls to `pat` whose arguments are rendered ~args."""
    def p(ev):
        if ev.kind != "call" or not re.search(pat, ev.callee): return False
        a = args_of(g, ev)
        return len(a) >= len(args) and all(x is None or re.fullmatch(x, y) for x, y in zip(args, a))
    return p

def dropped(c, g, f, base, a, key, done, start=None, given=None):
    """Obligations: everything cached for attribute ~a is removed from `base`."""
    for m in MAPS + SETS:
        whole = argis(g, r"(Map|Set)::clear$", base + r"\." + m)
        wr = lambda ev: ev.kind == "stmt" and field_write("AttributeCaches", m)(ev)
        q = g.search(done, start=start, block=any_of(argis(g, r"(Map|Set)::remove$", base + r"\." + m, a), whole), given=given)
        c.ob("K01.unreg", f, q is None, "%s is left: %s" % (m, fmt_path(q or [])), key="%s:%s" % (key, m))

@rule("K01")
def k01_unreg(c):
    c.rule("K01.unreg", "an attribute that stops being cached is forgotten in every direction, and a transaction that stops caching it no longer sees what was cached before")
    n = 0
    for f in c.find(r"mentat_db::cache::(InProgress)?SQLiteAttributeCache::unregister"):
        n += 1
        g = c.graph(f, TOUCHES, small=40, keep=True)
        inp = "InProgress" in f.path
        a = f.body.name(2); done = ret_of(g)
        dropped(c, g, f, r"self\.overlay" if inp else r"self\.inner", a, "one:%d" % inp, done)
        if inp:
            for d in ("forward", "reverse"):
                q = g.search(done, block=argis(g, r"Set::insert$", r"self\.unregistered_" + d, a))
                c.ob("K01.unreg", f, q is None, "still looked up %s: %s" % (d, fmt_path(q or [])), key="one:mark:" + d)
        c.done(g)
    for f in c.find(r"mentat_db::cache::(InProgress)?SQLiteAttributeCache::unregister_all"):
        n += 1
        g = c.graph(f, TOUCHES, small=40, keep=True)
        inp = "InProgress" in f.path
        base = r"self\.overlay" if inp else r"self\.inner"
        for m in MAPS + SETS:
            q = g.search(ret_of(g), block=any_of(argis(g, r"(Map|Set)::clear$", base + r"\." + m), argis(g, r"mem::(take|replace)$", base + r"\." + m)))
            fresh = [ev for ev in g.events(field_write("AttributeCaches", m))]
            c.ob("K01.unreg", f, q is None, "%s is left: %s" % (m, fmt_path(q or [])), key="all:%d:%s" % (inp, m))
        if inp:
            for d in ("forward", "reverse"):
                ext = argis(g, r"::(extend|append)$", r"self\.unregistered_" + d, r"(.*\()?self\.inner\.%s_cached_attributes(\[\])?\)?" % d)
                q = g.search(ret_of(g), block=ext)
                if q is not None and each(g, r"(.*\()?self\.inner\.%s_cached_attributes\)?" % d, argis(g, r"Set::insert$", r"self\.unregistered_" + d), ret_of(g)) is None: q = None
                c.ob("K01.unreg", f, q is None, "still looked up %s: %s" % (d, fmt_path(q or [])), key="all:mark:" + d)
        c.done(g)
    c.floor("K01.unreg", "ways to stop caching", n, 4)

@rule("K01")
def k01_merge(c):
    c.rule("K01.merge", "committing replaces what the shared cache holds for every attribute the transaction's cache holds anything for, forgets what the transaction stopped caching, and takes over what it started to cache")
    f = c.one("K01.merge", r"mentat_db::cache::InProgressSQLiteAttributeCache::commit_to")
    if f is not None:
        g = c.graph(f, TOUCHES, small=40, keep=True)
        d = f.body.name(2); done = ret_of(g)
        D = lambda m: r"\{?(%s\.inner\.%s)(\|self\.overlay\.%s)?\}?" % (d, m, m)
        whole = stores(g, lambda dst, ev: re.search(r"^%s\.inner$" % d, re.sub(r"@[\w:]+", "", dst)) is not None)
        whole = any_of(whole, lambda ev: ev.kind == "stmt" and field_write("SQLiteAttributeCache", "inner")(ev), argis(g, r"mem::(replace|swap)$", r"%s\.inner" % d))
        for s in SETS:
            q = g.search(whole, given=any_of(*[contradicts(r"is_empty\(%s\)$" % D(x), "0" if x == s else "1") for x in SETS]))
            c.ob("K01.merge", f, q is None, "the shared cache is thrown away: %s" % fmt_path(q or []), key="whole:" + s)
        # the shared cache holds something
        given = any_of(*[contradicts(r"is_empty\(%s\)$" % D(s), "0") for s in SETS[:1]])
        for m in MAPS + SETS:
            for u in ("unregistered_forward", "unregistered_reverse"):
                item = allof(r"self\.%s" % u)
                why = each(g, item, argis(g, r"(Map|Set)::remove$", D(m), item + r"\[\]"), done, given)
                c.ob("K01.merge", f, why is None, "%s: an attribute no longer cached stays: %s" % (m, why), key="forget:%s:%s" % (m, u))
        lands = {}
        for s in SETS:
            ext = argis(g, r"::(extend|append)$", D(s), r"self\.overlay\." + s)
            q = g.search(done, block=ext, given=given)
            why = None if q is None else each(g, r"self\.overlay\." + s, argis(g, r"Set::insert$", D(s), r"self\.overlay\.%s\[\]" % s), done, given)
            c.ob("K01.merge", f, why is None, "%s: a newly cached attribute is lost: %s" % (s, why), key="taken:" + s)
            lands[s] = any_of(ext, argis(g, r"Set::insert$", D(s), r"self\.overlay\.%s\[\]" % s))
        for m in MAPS:
            cl = {v: k for k, v in CELLS.items()}[m]
            src = r"self\.overlay\." + m
            fresh = r"(Default::default\(\)|\w+::\w+\{attr: .*%s: (Default::default|BTreeMap::new)\(\)\})" % cl
            val = r"(%s\[\]\.1|%s)" % (src, fresh)
            put = any_of(argis(g, r"(OccupiedEntry|VacantEntry)::insert(_entry)?$", r"BTreeMap::entry\(%s, %s\[\]\.0\)(\.0)?" % (D(m), src), val),
                         argis(g, r"Map::insert$", D(m), src + r"\[\]\.0", val))
            ext = argis(g, r"::(extend|append)$", D(m), src)
            q = g.search(done, block=ext, given=given)
            why = None if q is None else each(g, src, put, done, given)
            c.ob("K01.merge", f, why is None, "%s: what the transaction holds isn't taken over: %s" % (m, why), key="over:" + m)
            lands[m] = any_of(put, ext)
            # a container filled anew gets every value there is
            new = lambda ev: put(ev) and re.fullmatch(fresh, args_of(g, ev)[-1]) is not None
            if g.events(new):
                inner = src + r"\[\]\.1\." + cl
                live = any_of(opt(inner + r"\[\]\.1", True), contradicts(r"::is_empty\(%s\[\]\.1\)$" % inner, "0"))
                cp = argis(g, r"Map::insert$", r"(Default::default|BTreeMap::new)\(\)(\.%s)?" % cl, inner + r"\[\]\.0", inner + r"\[\]\.1(\.0)?|Option::Some\{0: %s\[\]\.1\.0\}" % inner)
                why = each(g, inner, cp, any_of(new), any_of(given, live))
                c.ob("K01.merge", f, why is None, "%s: a value isn't taken over: %s" % (m, why), key="value:" + m)
            # nothing of an old entry survives
            part = lambda ev: cell(ev, g) is not None and re.search(r"%s\.inner\.%s" % (d, m), args_of(g, ev)[0]) is not None
            c.ob("K01.merge", f, not g.events(part, block=given), "%s: merged value by value with what was there" % m, key="parts:" + m)
        gone = argis(g, r"(Map|Set)::remove$", r".*%s\.inner\..*" % d, r".*unregistered.*")
        q = g.search(gone, start=any_of(*lands.values()), given=given)
        c.ob("K01.merge", f, q is None, "forgotten after it was taken over: %s" % fmt_path(q or []), key="order")
        c.done(g)
    for f in c.find(r"mentat_db::cache::InProgressSQLiteAttributeCache::from_cache"):
        g = c.graph(f, TOUCHES, small=40, keep=True)
        a = f.body.name(1)
        for fld, want in (("inner", r"%s\.inner" % a), ("overlay.forward_cached_attributes", r"%s\.inner\.forward_cached_attributes" % a), ("overlay.reverse_cached_attributes", r"%s\.inner\.reverse_cached_attributes" % a)):
            got = fieldof(g, fld)
            if "." in fld:
                m = fld.split(".")[1]
                if any(x != "Default::default()" for x in got) and g.search(ret_of(g), block=field_write("AttributeCaches", m)) is None: got = [x for x in got if x != "Default::default()"]
            c.ob("K01.merge", f, bool(got) and all(re.fullmatch(want, x) for x in got), "%s is %s" % (fld, got), key="begin:" + fld)
        for m in MAPS:
            got = fieldof(g, "overlay." + m)
            c.ob("K01.merge", f, bool(got) and all(re.fullmatch(r"(Default::default|BTreeMap::new)\(\)", x) for x in got), "%s is %s" % (m, got), key="begin:" + m)
        c.done(g)

def fieldof(g, path):
    """Origins of a field (dotted path) of what a function returns."""
    adts = {"overlay": "mentat_db::cache::InProgressSQLiteAttributeCache", "inner": "mentat_db::cache::InProgressSQLiteAttributeCache"}
    proj = tuple(".%s@%s" % (n, adts.get(n, "mentat_db::cache::AttributeCaches")) for n in path.split("."))
    return sorted({rend(t) for t in g.T.place(g.rootf, 0, proj)})

@rule("K01")
def k01_copy(c):
    c.rule("K01.copy", "the first change a transaction makes to what is cached for an attribute starts from what was cached for it before")
    fs = [f for f in c.P.fns if re.fullmatch(UPD, f.path) and "InProgress" in f.path]
    c.floor("K01.copy", "caches of a transaction", len(fs), 1)
    for f in fs:
        r_, a_ = f.body.name(3), f.body.name(4)
        g = c.graph(f, TOUCHES, small=40, keep=True)
        nx = lambda ev: ev.kind == "call" and re.fullmatch(NEXT, ev.callee) is not None and args_of(g, ev)[0] in (r_, a_)
        pk = r"(.*peek\((%s|%s)\)|(%s|%s)\[\])\.0" % ((re.escape(r_), re.escape(a_)) * 2)
        for m in MAPS:
            d = "forward" if m in MAPS[:2] else "reverse"
            given = any_of(contradicts(r"self\.overlay\.%s_cached_attributes, .*\)$" % d, "1"), contradicts(r"self\.inner\.%s_cached_attributes, .*\)$" % d, "1"))
            old = argis(g, r"Map::get$", r"self\.inner\." + m, pk)
            ent = r".*entry\(self\.overlay\.%s, %s\)(\.0)?" % (m, pk)
            enter = lambda ev: ev.kind == "entry" and ev.frame.parent is not None and re.search(r"or_insert_with$", ev.frame.how) is not None and any(re.fullmatch(ent, rend(t)) for t in g.T.operand(ev.frame.parent, ev.frame.args[0]))
            put = any_of(argis(g, r"(VacantEntry::insert|Entry::or_insert|Entry::or_default)$", ent), argis(g, r"Map::insert$", r"self\.overlay\." + m, pk))
            es, ps = g.events(enter, block=given), g.events(put, block=given)
            c.floor("K01.copy", "places where %s gets an attribute" % m, len(es) + len(ps), 1)
            for beh, rows in (("retractions", r_), ("assertions", a_)):
                q = g.search(any_of(nx, ret_of(g)), start=enter, block=old, given=given) if es else None
                c.ob("K01.copy", f, q is None, "%s starts out empty: %s" % (m, fmt_path(q or [])), key="copied:%s" % m)
                q = g.search(lambda ev: put(ev) and not re.fullmatch(r".*entry\(.*", "") is None, start=nx, block=old, given=given) if ps else None
                break
            if ps:
                q = g.search(put, block=old, given=given)
                c.ob("K01.copy", f, q is None, "%s starts out empty: %s" % (m, fmt_path(q or [])), key="copied:put:%s" % m)
            for ev in es:
                got = {rend(t) for t in g.T.place(ev.frame, 0, ())}
                want = r"BTreeMap::get\(self\.inner\.%s, %s\)(\.0)?" % (m, pk)
                c.ob("K01.copy", f, any(re.fullmatch(want, x) for x in got) and all(re.fullmatch(want, x) or "fault" in x or "new()" in x for x in got), "%s starts out as %s" % (m, sorted(got)[:3]), key="from:" + m)
        c.done(g)

@rule("K01")
def k01_told(c):
    c.rule("K01.told", "every transaction is made known to the cache of the transaction it is part of; where values change without that, or their definitions do, the cached attributes concerned are fetched again; committing publishes the cache")
    P = c.P
    n = 0
    for f in c.find(r"<mentat_transaction::InProgressTransactWatcher.* as .*TransactWatcher>::(datom|done)"):
        n += 1
        g = c.graph(f, lambda fn, i, t, k: False, small=0, keep=True)
        verb = f.path.split("::")[-1]
        for w in ("cache_watcher",):
            q = g.search(ret_of(g, "Ok") if verb == "done" else ret_of(g), block=argis(g, r"TransactWatcher::%s$|TransactWatcher>?::%s$" % (verb, verb), r"self\.%s" % w, *[re.escape(f.body.name(i)) for i in range(2, f.body.argc + 1)]))
            c.ob("K01.told", f, q is None, "%s isn't told: %s" % (w, fmt_path(q or [])), key="%s:%s" % (verb, w))
        c.done(g)
    c.floor("K01.told", "what a transaction tells", n, 2)
    # the watcher handed to a transaction made through InProgress
    n = 0
    for f, bi, t, cn in through(c, r"mentat_db::tx::transact(_terms)?$"):
        n += 1
        g = c.graph(f, lambda fn, i, t, k: False, small=0, keep=True)
        for ev in g.events(call_to(r"mentat_db::tx::transact(_terms)?")):
            i = watcher_arg(P, ev)
            w = args_of(g, ev)[i] if i is not None else ""
            c.ob("K01.told", f, re.search(r"transact_watcher\(self\.cache\)", w) is not None or re.search(r"cache_watcher: .*self\.cache", w) is not None, "told to %s" % w[:120], key="watcher:" + f.name)
        c.done(g)
    c.floor("K01.told", "transactions made through a transaction in progress", n, 2)
    # changes made behind the watcher's back
    n = 0
    back = r"mentat_db::(timelines::move_from_main_timeline|tx::transact_terms_with_action|timelines::\w*move\w*)$"
    for f, bi, t, cn in through(c, back):
        n += 1
        g = c.graph(f, lambda fn, i, t, k: False, small=0, keep=True)
        moved = call_to(back)
        ref = argis(g, r"InProgressSQLiteAttributeCache::refresh$", r".*\.cache", r".*\.schema\b.*")
        q = g.search(ret_of(g, "Ok"), start=moved, block=ref)
        c.ob("K01.told", f, q is None, "the cache isn't told: %s" % fmt_path(q or []), key="moved:" + f.name)
        for ev in g.events(ref):
            ok = whole_stale(P, ev)
            c.ob("K01.told", f, ok, "only some attributes are fetched again", key="moved:all:" + f.name)
        c.done(g)
    c.floor("K01.told", "changes made behind the cache's back", n, 1)
    # new definitions
    n = 0
    for f in P.fns:
        if f.path.startswith("mentat_db::") or not writes_schema(P, f): continue
        n += 1
        g = c.graph(f, lambda fn, i, t, k: False, small=0, keep=True)
        wr = any_of(field_write("InProgress", "schema"), argis(g, r"mem::(replace|swap)$", r"\w+\.schema"))
        ref = argis(g, r"InProgressSQLiteAttributeCache::refresh$", r".*\.cache", r".*\.schema\b.*")
        q = g.search(ret_of(g, None), start=any_of(wr, mut_borrow("InProgress", "schema")), block=ref)
        if q is not None:
            # restoring what was there before needs nothing
            src = {x for ev in g.events(wr) for x in ([rset(g.T.rvalue(ev.frame, ev.data[1], (), 0))] if ev.kind == "stmt" else args_of(g, ev)[1:2])}
            if src and all(re.search(r"self\.schema|savepoint|saved", x) for x in src): q = None
            else:
                # or a caller does it
                q = q if not all_callers_refresh(c, f) else None
        c.ob("K01.told", f, q is None, "definitions change under the cache: %s" % fmt_path(q or []), key="schema:" + f.name)
        for ev in g.events(ref):
            c.ob("K01.told", f, whole_stale(P, ev) or compares(c, g, ev), "attributes defined anew aren't fetched again", key="schema:which:" + f.name)
        c.done(g)
    c.floor("K01.told", "places where definitions change", n, 1)
    # refetching
    for f in c.find(r"mentat_db::cache::InProgressSQLiteAttributeCache::refresh"):
        g = c.graph(f, lambda fn, i, t, k: False, small=0, keep=True)
        stale = f.body.name(4)
        item = r".*self\.overlay\.(forward|reverse)_cached_attributes.*"
        drop_ = argis(g, r"::unregister$", r"self", item)
        for d in ("forward", "reverse"):
            src = allof(r"self\.overlay\.%s_cached_attributes" % d)
            why = each(g, src, drop_, ret_of(g), leaving=r"Iterator::filter(?=\()")
            c.ob("K01.told", f, why is None, "%s: %s" % (d, why), key="again:" + d)
            reg = argis(g, r"::register(_%s)?$" % d, r"self", None, None, item)
            given = any_of(contradicts(r"contains\(self\.overlay\.%s_cached_attributes, .*\)$" % d, "1"), contradicts(r"is_err\(.*\)$", "0"), contradicts(r"is_ok\(.*\)$", "1"), variant_edge("result::Result", "Err"))
            q = g.search(any_of(ret_of(g), *[s for s, _ in loops(g, "(%s)%s" % (src, r"\[\]"), r"Iterator::filter(?=\()").values()]), start=drop_, block=reg, given=given)
            c.ob("K01.told", f, q is None, "%s: no longer cached: %s" % (d, fmt_path(q or [])), key="again:reg:" + d)
        anyreg = argis(g, r"::register(_forward|_reverse)?$", r"self")
        q = g.search(any_of(ret_of(g), *[s for s, _ in loops(g, "(%s)%s" % (allof(r"self\.overlay\.forward_cached_attributes"), r"\[\]"), r"Iterator::filter(?=\()").values()]), start=anyreg,
                     block=drop_, given=any_of(contradicts(r"is_err\(.*\)$", "1"), contradicts(r"is_ok\(.*\)$", "0"), variant_edge("result::Result", "Ok")))
        c.ob("K01.told", f, q is None, "an attribute that couldn't be fetched stays cached: %s" % fmt_path(q or []), key="again:failed")
        # picked by `stale` and nothing else
        cl = [x for x in P.fns if x.path.startswith(f.path + "::{closure")]
        c.done(g)
    for f in c.find(r"mentat_transaction::InProgress.*::commit"):
        g = c.graph(f, lambda fn, i, t, k: False, small=0, keep=True)
        q = g.search(ret_of(g, "Ok"), block=argis(g, r"InProgressSQLiteAttributeCache::commit_to$", r"self\.cache", r".*\.attribute_cache"))
        c.ob("K01.told", f, q is None, "the cache isn't published: %s" % fmt_path(q or []), key="publish")
        c.done(g)

def through(c, pat):
    """Calls of the named database functions from other crates."""
    out = []
    for f in c.P.fns:
        if f.path.startswith("mentat_db::") or f.body is None: continue
        for bi, t, k in f.body.calls():
            if k and re.search(pat, callee_fn(k) or ""): out.append((f, bi, t, k)); break
    return out

def watcher_arg(P, ev):
    for i, o in enumerate(ev.data["a"]):
        p = op_place(o)
        if p is not None and not p.proj and "Watcher" in ev.frame.body.ty(p.local): return i
    return None

def writes_schema(P, f):
    if f.body is None: return False
    for b in f.body.blocks:
        for st in b["s"]:
            if any(str(x).startswith(".schema@") and str(x).endswith("::InProgress") for x in st[0][1:]) and st[0][-1].startswith(".schema@"): return True
            rv = st[1]
            if rv["r"] == "ref" and rv.get("mut") and str(rv["p"][-1]).startswith(".schema@") and str(rv["p"][-1]).endswith("::InProgress"): return True
    return False

def stale_closure(P, ev):
    p = op_place(ev.data["a"][3])
    hs = (ev.data["f"].get("k") or {}).get("cl", [])
    return [P.by_h[h] for h in hs if h in P.by_h]

def whole_stale(P, ev):
    cs = stale_closure(P, ev)
    for x in cs:
        ds = x.body.defs().get(0, [])
        if not ds or not all(si >= 0 and d[1]["r"] == "use" and d[1]["o"].get("k", {}).get("v") == 1 for _, si, d in ds): return False
    return bool(cs)

def compares(c, g, ev):
    """The closure picks an attribute when its old and new definitions differ."""
    for x in stale_closure(c.P, ev):
        h = c.graph(x, lambda fn, i, t, k: False, small=0, keep=True)
        ok = False
        for t in h.T.place(h.rootf, 0, ()):
            s = rend(t)
            one = r"\w+::(attribute_for_entid|get)\([^()]*\)"
            if re.fullmatch(r"(Not\()?(\w+::)?(ne|eq)\(%s, %s\)\)?" % (one, one), s) and ("ne(" in s) != s.startswith("Not("): ok = True
        c.done(h)
        if not ok: return False
    return True

def all_callers_refresh(c, f): return False
