"""The ident maps, and the round trip of values through SQLite."""
import re, itertools
from ctx import *
from registry import rule
from rules.schema import *
import sqlx, sqltext
from sqlx import canon, conj, show
from rules.logsql import runs, E, EXEMPT
from rules.schema import under_blk, boolconst, keep_calls

def loops(g, src, leaving=None):
    """Iterations over the collection rendered `src`: {key of the branch: (entry edge pred, exit edge pred)}."""
    out = {}
    for ev in g.events(lambda e: e.kind == "edge" and e.tag is not None and e.tag[2] == "Some"):
        ts = [rend(t[1]) if t[0] == "discr" else rend(t) for t in g.T.operand(ev.frame, ev.data["o"])]
        if ts and all(re.fullmatch(src, t) for t in ts) and not leaves_out(ev, leaving):
            k = (ev.frame.id, ev.block)
            out[k] = (lambda e, k=k: e.kind == "edge" and (e.frame.id, e.block) == k and e.tag is not None and e.tag[2] == "Some",
                      lambda e, k=k: e.kind == "edge" and (e.frame.id, e.block) == k and e.tag is not None and e.tag[2] == "None")
    return out

def mapop(g, recv, op, args):
    """Calls of map method `op` on a receiver rendered ~recv with arguments rendered exactly as given (None: any)."""
    def p(ev):
        if ev.kind != "call" or not re.fullmatch(r".*(Map|Set)::" + op, ev.callee): return False
        a = args_of(g, ev)
        return re.fullmatch(recv, a[0]) is not None and len(a) == len(args) + 1 and all(x is None or re.fullmatch(x, y) for x, y in zip(args, a[1:]))
    return p

def always_each(g, src, op, done):
    """None when every iteration over src performs op and src is always exhausted before `done`; else why not."""
    ls = loops(g, src)
    if not ls: return "nothing iterates over it"
    why = []
    for some, none in ls.values():
        q = g.search(any_of(some, done), start=some, block=op)
        if q is not None: why.append("skipped on " + fmt_path(q)); continue
        q = g.search(done, block=none)
        if q is not None: why.append("not reached on " + fmt_path(q)); continue
        return None
    return "; ".join(why[:2])

def drained(g, src, op):
    """Predicate: the end of an iteration over `src` (regex of the element) every turn of which performs op."""
    ends = [none for some, none in loops(g, src).values()
            if g.search(lambda ev: some(ev) or none(ev) or ev.kind == "ret", start=some, block=op) is None]
    return lambda ev: any(e(ev) for e in ends)

@rule("S04")
def s04(c):
    c.rule("S04.update", "each ident retraction, change and assertion of a transaction removes the old mapping from and adds the new mapping to both maps, all removals first, and is reported")
    c.rule("S04.sort", "assertions are told from retractions, and paired into changes, by one table")
    c.rule("S04.open", "the entid map of a schema built from an ident map is its inverse, and the attributes are validated")
    c.rule("S04.write", "nothing else writes either map")
    c.rule("S04.read", "lookups read the map for their direction")
    c.rule("S04.component", "the list of component attributes is recomputed whenever attributes change")
    f = c.one("S04.update", r"mentat_db::metadata::update_schema_from_entid_quadruples")
    if f is not None:
        g = c.graph(f, None, small=2, keep=True)
        g.T.opaque = lambda n: re.search("AddRetractAlterSet.*::default$", n) is not None
        ok = ret_of(g, "Ok")
        s = f.body.name(1); q_ = f.body.name(2)
        D = r"Default::default\(\)\."
        E_, I_ = s + r"\.entid_map", s + r"\.ident_map"
        R, A, N = D + r"retracted", D + r"altered", D + r"asserted"
        def req(src, what, op, key):
            w = always_each(g, src, op, ok)
            c.ob("S04.update", f, w is None, "%s: %s" % (what, w), key=key)
        srcs = {"R": R + r"\[\]", "A": "(?:%s)" % (A + r"\[\](\.1)?"), "N": N + r"\[\]"}
        req(srcs["R"], "a retracted ident stays in the entid map", mapop(g, E_, "remove", [R + r"\[\]\.0"]), "retract:entid")
        req(srcs["R"], "a retracted ident stays in the ident map", mapop(g, I_, "remove", [R + r"\[\]\.1"]), "retract:ident")
        req(srcs["A"], "a replaced ident stays in the ident map", mapop(g, I_, "remove", [A + r"\[\]\.1\.0"]), "alter:old")
        req(srcs["A"], "a new ident is missing from the entid map", mapop(g, E_, "insert", [A + r"\[\]\.0", A + r"\[\]\.1\.1"]), "alter:entid")
        req(srcs["A"], "a new ident is missing from the ident map", mapop(g, I_, "insert", [A + r"\[\]\.1\.1", A + r"\[\]\.0"]), "alter:ident")
        req(srcs["N"], "an asserted ident is missing from the entid map", mapop(g, E_, "insert", [N + r"\[\]\.0", N + r"\[\]\.1"]), "assert:entid")
        req(srcs["N"], "an asserted ident is missing from the ident map", mapop(g, I_, "insert", [N + r"\[\]\.1", N + r"\[\]\.0"]), "assert:ident")
        rep = lambda k: (lambda ev: ev.kind == "call" and re.search(r"Map::insert$", ev.callee) is not None and len(ev.data["a"]) == 3
                         and re.fullmatch(k + r"\[\]\.0", args_of(g, ev)[1]) is not None and "IdentAlteration::Ident" in args_of(g, ev)[2])
        for nm, k in (("R", R), ("A", A), ("N", N)):
            req(srcs[nm], "the change is not reported", rep(k), "report:" + nm)
        # removals first, and no other change
        q = g.search(mapop(g, I_, "remove", [None]), start=mapop(g, I_, "insert", [None, None]))
        c.ob("S04.update", f, q is None, "a mapping is removed after new ones were made: %s" % fmt_path(q or []), key="order")
        good = [mapop(g, E_, "remove", [R + r"\[\]\.0"]), mapop(g, I_, "remove", [R + r"\[\]\.1"]), mapop(g, I_, "remove", [A + r"\[\]\.1\.0"]),
                mapop(g, E_, "insert", [A + r"\[\]\.0", A + r"\[\]\.1\.1"]), mapop(g, I_, "insert", [A + r"\[\]\.1\.1", A + r"\[\]\.0"]),
                mapop(g, E_, "insert", [N + r"\[\]\.0", N + r"\[\]\.1"]), mapop(g, I_, "insert", [N + r"\[\]\.1", N + r"\[\]\.0"]), mapop(g, E_, "remove", [A + r"\[\]\.0"])]
        READS = r"get|contains_key|iter|len|is_empty|keys|values|clone|fmt|eq|range|first_key_value|last_key_value|get_key_value"
        ops = g.events(lambda ev: ev.kind == "call" and re.search(r"Map::\w+$", ev.callee) is not None and ev.data["a"] and re.fullmatch(E_ + "|" + I_, args_of(g, ev)[0]) is not None and not re.search(r"::(%s)$" % READS, ev.callee))
        c.floor("S04.update", "changes to the ident maps", len(ops), 7)
        for ev in ops:
            c.ob("S04.update", ev, any(p(ev) for p in good), "%s%s" % (ev.callee.split("::")[-1], args_of(g, ev)), key="op:%s" % ev.callee.split("::")[-1])
        q = g.search(mapop(g, E_, "remove", [A + r"\[\]\.0"]), start=mapop(g, E_, "insert", [None, None]))
        c.ob("S04.update", f, q is None, "a new entid mapping is removed: %s" % fmt_path(q or []), key="order:entid")
        # sorting by attribute
        idents = bootstrap(c)[0]
        wit = g.events(call_to(r".*AddRetractAlterSet.*::witness"))
        c.floor("S04.sort", "assertions sorted", len(wit), 2)
        Q = re.escape(q_) + r"\[\]"
        for ev in wit:
            a = args_of(g, ev)
            isid = "Keyword" in str(ev.frame.body.ty(op_place(ev.data["a"][2]).local)) if op_place(ev.data["a"][2]) is not None else False
            good_ = (re.fullmatch(Q + r"\.0", a[1]) and re.fullmatch(Q + r"\.2\.0", a[2])) if isid else (re.fullmatch(r"tuple\{0: %s\.0, 1: %s\.1\}" % (Q, Q), a[1]) and re.fullmatch(Q + r"\.2", a[2]))
            c.ob("S04.sort", ev, bool(good_) and re.fullmatch(Q + r"\.3", a[3]) is not None, "sorted as %s" % a[1:], key="witness:" + ("ident" if isid else "attr"))
            p = (lambda e: relation(e, Q + r"\.1$", "^%d$" % idents.get(":db/ident", -1)) == "Eq") if isid else (lambda e: relation(e, Q + r"\.1$", "^%d$" % idents.get(":db/ident", -1)) == "Ne")
            sw = contradicts(Q + r"\.1$", idents.get(":db/ident", -1) if isid else 10 ** 9)
            val_ = idents.get(":db/ident", -1) if isid else 10 ** 9
            # reachable only when the attribute is (not) :db/ident
            other = contradicts(Q + r"\.1$", 10 ** 9 if isid else idents.get(":db/ident", -1))
            q = g.search(is_ev(ev), block=other)
            c.ob("S04.sort", ev, q is None, "the attribute is not tested: %s" % fmt_path(q or []), key="which:" + ("ident" if isid else "attr"))
        for some, none in loops(g, Q).values():
            q = g.search(any_of(some, ok), start=some, block=call_to(r".*AddRetractAlterSet.*::witness"))
            c.ob("S04.sort", f, q is None, "an assertion is dropped: %s" % fmt_path(q or []), key="dropped")
        comp = call_to(r".*::update_component_attributes")
        ch = g.events(comp)
        um = lambda ev: ev.kind == "call" and re.search(r"update_attribute_map_from_(entid_triples|schema_retractions)$", ev.callee) is not None
        # unconditional, or skipped only when nothing changed
        def unchanged(ev):
            if ev.kind != "edge": return False
            for t in g.T.operand(ev.frame, ev.data["o"]):
                truth = str(ev.tag[2]) == "1"
                while t[0] == "un" and t[1] == "Not": truth = not truth; t = t[2]
                r = rend(t)
                if t[0] == "call" and t[1].endswith("attributes_did_change") and not truth: return True
            return False
        nothing = lambda ev: unchanged(ev) or empty_edge(R)(ev) or empty_edge("attributes_(installed|altered)")(ev)
        q = g.search(ok, start=um, block=any_of(comp, nothing))
        c.ob("S04.component", f, q is None and len(ch) >= 1, "attributes changed, the list of components not recomputed: %s" % fmt_path(q or []), key="recompute")
        c.done(g)
    for f in c.find(r".*MetadataReport::attributes_did_change"):
        g = c.graph(f, None, small=6, keep=True)
        vals = {}
        sn = f.body.name(1)
        for i, a in itertools.product("01", "01"):
            T = under_blk(g, any_of(contradicts(r"is_empty\(%s\.attributes_installed\)$" % sn, i), contradicts(r"is_empty\(%s\.attributes_altered\)$" % sn, a)))
            vals[(i, a)] = {rend(t) for t in T.place(g.rootf, 0)}
        r = {v for vs in vals.values() for v in vs}
        fine = True
        for (i, a), vs in vals.items():
            want = not (i == "1" and a == "1")
            for v in vs:
                if v in ("0", "1"): fine &= (v == "1") == want
        c.ob("S04.component", f, fine and any("attributes_altered" in v or v in "01" for v in r), "changes are recognised by %s" % vals, key="did_change")
        c.done(g)
    # ---- witness ------------------------------------------------------------------------------
    ws = [f for f in c.P.fns if re.search(r"AddRetractAlterSet.*::witness$", f.path)]
    c.see(*ws)
    c.floor("S04.sort", "sorting table", len(ws), 1)
    for f in ws:
        g = c.graph(f, None, small=4, keep=True)
        s, k, v, ad = (f.body.name(i) for i in (1, 2, 3, 4))
        bad = []
        for added, inr, ina in itertools.product("10", (True, False), (True, False)):
            blk = [contradicts("^%s$" % ad, added)]
            for fld, has in (("retracted", inr), ("asserted", ina)):
                blk += [opt(r"Map::remove\(%s\.%s, %s\)" % (s, fld, k), has), contradicts(r"Map::contains_key\(%s\.%s, %s\)$" % (s, fld, k), "1" if has else "0"),
                        opt(r"Map::get\(%s\.%s, %s\)" % (s, fld, k), has)]
            got = set()
            for ev in g.events(lambda e: e.kind == "call" and re.search(r"Map::(insert|remove)$", e.callee) is not None, block=any_of(*blk)):
                a = args_of(g, ev)
                if ev.callee.endswith("insert"): got.add(("insert", a[0], a[1], a[2]))
                else: got.add(("remove", a[0], a[1]))
            rm = lambda fld: r"BTreeMap::remove(%s.%s, %s)" % (s, fld, k)
            if added == "1":
                want = {("remove", s + ".retracted", k)} | ({("insert", s + ".altered", k, "tuple{0: %s, 1: %s}" % (rm("retracted"), v))} if inr else {("insert", s + ".asserted", k, v)})
            else:
                want = {("remove", s + ".asserted", k)} | ({("insert", s + ".altered", k, "tuple{0: %s, 1: %s}" % (v, rm("asserted")))} if ina else {("insert", s + ".retracted", k, v)})
            # a removal guarded by a lookup is absent when the key is
            opt_rm = {x for x in want if x[0] == "remove"} if not (inr if added == "1" else ina) else set()
            if not (want - opt_rm <= got <= want): bad.append("added=%s, retracted before=%s, asserted before=%s: %s" % (added, inr, ina, sorted(got)))
        c.ob("S04.sort", f, not bad, "; ".join(bad[:2]), key="table")
        c.done(g)
    # ---- constructors -------------------------------------------------------------------------
    fs = [f for f in c.P.fns if f.path.endswith("::from_ident_map_and_attribute_map") and f.body.blocks]
    c.see(*fs)
    c.floor("S04.open", "schema from an ident map", len(fs), 1)
    for f in fs:
        g = c.graph(f, fnpred(r".*::validate_attribute_map|.*Schema::new"), small=2, keep=True)
        keep_calls(g, r"validate_attribute_map")
        im = f.body.name(1)
        new = g.events(lambda ev: ev.kind == "stmt" and ev.data[1]["r"] == "agg" and str(ev.data[1].get("adt", "")).endswith("mentat_core::Schema") or (ev.kind == "call" and ev.callee.endswith("Schema::new")))
        m = 0
        for ev in g.events(call_to(r".*::Schema::new")):
            m += 1
            a = [re.sub(r"\w+Map::(?:iter|into_iter)\((\w+)\)", r"\1", x) for x in args_of(g, ev)]
            inv = r"\[?tuple\{0: %s\[\]\.1, 1: %s\[\]\.0\}\]?" % (im, im)
            es = {rend(t) for t in g.T.elems(g.T.operand(ev.frame, ev.data["a"][1]))}
            c.ob("S04.open", ev, a[0] == im and (re.search(inv, a[1]) is not None or es == {"tuple{0: %s[].1, 1: %s[].0}" % (im, im)}), "built from %s" % a, key="inverse")
        c.floor("S04.open", "schema construction", m, 1)
        q = g.search(ret_of(g, "Ok"), block=succeeded(r".*::validate_attribute_map"))
        c.ob("S04.open", f, q is None, "a schema is built without validating its attributes: %s" % fmt_path(q or []), key="validate")
        c.done(g)
    for f in c.find(r"mentat_core::Schema::new"):
        g = c.graph(f, None, small=0, keep=True)
        q = g.search(ret_of(g), block=call_to(r".*::update_component_attributes"))
        c.ob("S04.component", f, q is None, "a new schema has no component list", key="new")
        c.done(g)
    # ---- writers --------------------------------------------------------------------------------
    allowed = c.P.reach_from(c.find(r"mentat_db::metadata::update_schema_from_entid_quadruples"))
    n = 0
    for f in c.P.fns:
        if re.match(EXEMPT, f.path): continue
        for i, b in enumerate(f.body.blocks):
            for st in b["s"]:
                hit = None
                if not isinstance(st[1], dict): continue
                r = st[1]
                pl = r["p"] if r["r"] == "ref" and r.get("mut") else st[0] if r["r"] != "setdiscr" else None
                if pl is None: continue
                for x in pl[1:]:
                    if x.startswith((".ident_map@", ".entid_map@")) and strip_generics(x.split("@", 1)[1]).endswith("mentat_core::Schema"): hit = x
                if hit:
                    n += 1; c.see(f)
                    c.ob("S04.write", f, f in allowed or f.path.endswith("mentat_core::Schema::new"), "writes %s" % hit.split("@")[0], key="writer:" + strip_generics(f.path))
    c.floor("S04.write", "writes to the ident maps", n, 2)
    # ---- lookups ----------------------------------------------------------------------------------
    for nm, want in (("get_ident", r"get\(%s\.entid_map, %s\)"), ("get_entid", r".*get\(%s\.ident_map, %s\).*"), ("attribute_for_entid", r"get\(%s\.attribute_map, %s\)"), ("is_attribute", r".*contains_key\(%s\.attribute_map, %s\)")):
        fs = [f for f in c.P.fns if re.search(r"Schema as .*HasSchema>::%s$" % nm, f.path) and f.crate == "mentat_core"]
        c.floor("S04.read", nm, len(fs), 1)
        for f in fs:
            c.see(f)
            g = c.graph(f, None, small=6, keep=True)
            r = {rend(t) for t in g.T.place(g.rootf, 0)}
            w = want % (f.body.name(1), f.body.name(2))
            c.ob("S04.read", f, len(r) == 1 and re.search(w, next(iter(r))) is not None, "returns %s" % sorted(r), key=nm)
            c.done(g)

# ---- S05: values through SQLite and EDN -----------------------------------------------------------
VTYPES = ("Ref", "Boolean", "Instant", "Long", "Double", "String", "Uuid", "Keyword")
SECS = r"DateTime::timestamp\(%s\)"

# truncated to the microseconds that are stored (or returned as it is when it has no more)
TRUNC = r"TypedValue::Instant\{0: \{?(\|?Timelike::with_nanosecond\(@, \(\(Timelike::nanosecond\(@\) Div 1000\) Mul 1000\)\)(\|@)?)\}?\}"

def rets(g, blk):
    return {rend(t) for t in under_blk(g, blk).place(g.rootf, 0, ()) if t != ("err",) and not (t[0] == "agg" and t[2] == "Err")}

@rule("S05")
def s05(c):
    c.rule("S05.write", "each kind of value is written with its own type tag and by its own injective encoding")
    c.rule("S05.read", "each stored kind and tag is read back by the inverse of its encoding, and every other combination is an error")
    c.rule("S05.tags", "the tag of each value type is the tag its values are written with, types sharing a tag are told apart by storage class")
    c.rule("S05.type", "the type of a value, the keyword and the entid of a type agree")
    c.rule("S05.edn", "EDN values become values of the corresponding type, and back")
    wr = [f for f in c.P.fns if re.search(r"TypedValue as .*TypedSQLValue>::to_sql_value_pair$", f.path)]
    rd = [f for f in c.P.fns if re.search(r"TypedValue as .*TypedSQLValue>::from_sql_value_pair$", f.path)]
    c.see(*wr); c.see(*rd)
    c.floor("S05.write", "value writer", len(wr), 1); c.floor("S05.read", "value reader", len(rd), 1)
    tag = {}
    for f in wr:
        g = c.graph(f, None, small=12, keep=True)
        s = f.body.name(1)
        V = re.escape(s) + r"\.0"
        W = {"Ref": V, "Long": V, "Double": V, "String": V, "Keyword": V, "Boolean": r"\{0\|1\}|" + V,
             "Instant": r"\(\(%s Mul 1000000\) Add DateTime::timestamp_subsec_micros\(%s\)\)|DateTime::timestamp_micros\(%s\)" % (SECS % V, V, V),
             "Uuid": r"(slice::to_vec\()?Uuid::as_bytes\(%s\)\)?" % V}
        for k in VTYPES:
            r = rets(g, contradicts("^%s$" % s, k))
            m = [re.fullmatch(r"tuple\{0: (.*), 1: (\d+)\}", x) for x in r]
            ok = len(m) == 1 and m[0] is not None and re.fullmatch(W[k], m[0].group(1)) is not None
            if ok: tag[k] = int(m[0].group(2))
            c.ob("S05.write", f, ok, "%s is written as %s" % (k, sorted(r)), key="write:" + k)
        # booleans: true is 1
        for b in "01":
            r = rets(g, any_of(contradicts("^%s$" % s, "Boolean"), contradicts("^" + V + "$", b)))
            c.ob("S05.write", f, all(re.match(r"tuple\{0: (%s|%s), " % (b, V), x) for x in r) and len(r) == 1, "%s is written as %s" % (bool(int(b)), sorted(r)), key="bool:" + b)
        c.done(g)
    shared = {t for t in tag.values() if list(tag.values()).count(t) > 1}
    c.ob("S05.tags", "type tags", {k for k in tag if tag[k] in shared} <= {"Long", "Double"} and len(tag) == 8, "tags %s" % tag, key="distinct")
    KIND = {"Ref": "Integer", "Boolean": "Integer", "Instant": "Integer", "Long": "Integer", "Double": "Real", "String": "Text", "Uuid": "Blob", "Keyword": "Text"}
    DEC = {"Ref": r"TypedValue::Ref\{0: @\}", "Boolean": r"TypedValue::Boolean\{0: (\(0 Ne @\)|\(@ Ne 0\)|\(@ Eq 1\)|\(1 Eq @\))\}", "Long": r"TypedValue::Long\{0: @\}", "Double": r"TypedValue::Double\{0: @\}",
           "Instant": r"TypedValue::Instant\{0: (TimeZone::timestamp\(Utc::Utc\{\}, num::div_euclid\(@, 1000000\), \(num::rem_euclid\(@, 1000000\) Mul 1000\)\))\}",
           "String": r"(TypedValue::String\{0: @\}|@)", "Uuid": r"TypedValue::Uuid\{0: builder::from_bytes\(.*@.*\)\}|TypedValue::Uuid\{0: (Uuid|builder)::from_slice\(@\)\}",
           "Keyword": r"Keyword::(plain|namespaced)\(.*@.*\)|Option::None\{\}"}
    for f in rd:
        g = c.graph(f, None, small=12, keep=True)
        v, tg = f.body.name(1), f.body.name(2)
        bad = []
        for t in sorted(set(tag.values()) | {2, 3, 6, 7, 8, 9, 12, 14}):
            for k in ("Null", "Integer", "Real", "Text", "Blob"):
                blk = any_of(contradicts("^%s$" % tg, t), contradicts("^%s$" % v, k))
                r = rets(g, blk)
                ks = [x for x in tag if tag[x] == t and KIND[x] == k]
                if not ks:
                    if r: bad.append("tag %d with %s is read as %s" % (t, k, sorted(r)))
                    continue
                pat = DEC[ks[0]].replace("@", r"%s\.0" % v)
                ok = bool(r) and all(re.fullmatch(pat, x) for x in r)
                c.ob("S05.read", f, ok, "tag %d with %s is read as %s" % (t, k, sorted(r)), key="read:" + ks[0])
                if ks[0] == "Keyword":
                    c.ob("S05.read", f, any("namespaced" in x for x in r) and any("plain" in x for x in r), "keywords are read as %s" % sorted(r), key="read:keyword kinds")
        c.ob("S05.read", f, not bad, "; ".join(bad[:3]), key="read:others")
        c.done(g)
    # ---- tags of types --------------------------------------------------------------------------
    n = 0
    rep = {}
    for f in [f for f in c.P.fns if re.search(r"ValueType as .*SQLValueType>::(sql_representation|value_type_tag)$", f.path)]:
        n += 1
        tb = value_table(c, f, "^%s$" % f.body.name(1), VTYPES)
        c.see(f)
        for k in VTYPES:
            r = sorted(tb[k])
            if f.path.endswith("sql_representation"):
                aff = {"Long": "SQLTypeAffinity::Integer{}", "Double": "SQLTypeAffinity::Real{}"}.get(k)
                want = "tuple{0: %s, 1: %s}" % (tag.get(k), aff if aff else "Option::None{}")
                rr = [x.replace("Option::Some{0: ", "").replace("}}}", "}}") if "Some" in x else x for x in r]
                c.ob("S05.tags", f, rr == [want], "%s: %s, expected %s" % (k, r, want), key="repr:" + k)
            else:
                c.ob("S05.tags", f, all(x == str(tag.get(k)) or x == "tuple{0: %s" % tag.get(k) for x in r), "%s: %s" % (k, r), key="tag:" + k)
    c.floor("S05.tags", "tables of type tags", n, 2)
    for f in [f for f in c.P.fns if re.search(r"ValueType as .*SQLValueType>::accommodates_integer$", f.path)]:
        c.see(f)
        g = c.graph(f, None, small=12, keep=True)
        s, i = f.body.name(1), f.body.name(2)
        for k in VTYPES:
            got = {}
            for x in (-1, 0, 1, 2, 1 << 40):
                T = under_blk(g, any_of(contradicts("^%s$" % s, k), contradicts("^%s$" % i, x)))
                r = set()
                for t in T.place(g.rootf, 0, ()):
                    e = evalint(t, {i: x})
                    r.add(e)
                got[x] = r
            want = {x: {"Long": 1, "Double": 1, "Ref": int(x >= 0), "Boolean": int(x in (0, 1))}.get(k, 0) for x in got}
            c.ob("S05.tags", f, all(got[x] == {want[x]} for x in got), "%s: %s" % (k, got), key="integer:" + k)
        c.done(g)
    # ---- types ------------------------------------------------------------------------------------
    for f in c.find(r"core_traits::TypedValue::value_type"):
        tb = value_table(c, f, "^%s$" % f.body.name(1), VTYPES)
        for k in VTYPES: c.ob("S05.type", f, tb[k] == frozenset(["ValueType::%s{}" % k]), "%s has type %s" % (k, sorted(tb[k])), key="value_type:" + k)
    kw = {v: k for k, v in TYPES.items()}
    m = 0
    for f in c.find(r"core_traits::ValueType::into_keyword"):
        m += 1
        g = c.graph(f, None, small=12, keep=True)
        for k in VTYPES:
            T = under(g, {"^%s$" % f.body.name(1): k})
            r = {str(val(t, tracer(c))) for t in T.place(g.rootf, 0)}
            r = {x for x in r}
            ok = r == {kw[k]} or all(rend(t) for t in T.place(g.rootf, 0)) and {str(val(T.g.T.place(g.rootf, 0), tracer(c)))} == {kw[k]}
            c.ob("S05.type", f, ok, "%s is named %s" % (k, sorted(r)), key="keyword:" + k)
        c.done(g)
    # ---- EDN -----------------------------------------------------------------------------------------
    back = {"Boolean": "Boolean", "Integer": "Long", "Float": "Double", "Instant": "Instant", "Text": "String", "Uuid": "Uuid", "Keyword": "Keyword"}
    allv = ("Nil", "Boolean", "Integer", "BigInteger", "Float", "Instant", "Text", "Uuid", "Keyword", "PlainSymbol", "NamespacedSymbol", "Vector", "List", "Set", "Map", "Bytes")
    fe = [f for f in c.P.fns if re.search(r"TypedValue as .*TypedSQLValue>::from_edn_value$", f.path)]
    te = [f for f in c.P.fns if re.search(r"TypedValue as .*TypedSQLValue>::to_edn_value_pair$", f.path)]
    c.see(*fe); c.see(*te)
    c.floor("S05.edn", "EDN reader and writer", len(fe) + len(te), 2)
    for f in fe:
        g = c.graph(f, None, small=6, keep=True)
        V = f.body.name(1)
        for k in allv:
            r = rets(g, contradicts("^%s$" % V, k))
            if k in back:
                X = re.escape(V) + r"\.0"
                W = r"TypedValue::%s\{0: (%s)\}" % (back[k], "OrderedFloat::OrderedFloat\\{0: %s\\}|%s" % (X, X))
                if k in ("Text", "Keyword"): W += "|" + X      # by conversion
                if k == "Instant": W = X + "|" + TRUNC.replace("@", X)      # by the truncating conversion
                ok = len(r) == 1 and re.fullmatch(W, next(iter(r))) is not None
            else: ok = r <= {"Option::None{}"}
            c.ob("S05.edn", f, ok, "%s becomes %s" % (k, sorted(r)), key="from:" + k)
        c.done(g)
    cv = [f for f in c.P.fns if re.search(r"TypedValue as core::convert::From<chrono::.*DateTime<.*>>::from$", f.path)]
    c.see(*cv)
    c.floor("S05.edn", "conversion of instants", len(cv), 1)
    for f in cv:
        g = c.graph(f, None, small=6, keep=True)
        r = rets(g, lambda ev: False)
        c.ob("S05.edn", f, len(r) == 1 and re.fullmatch(TRUNC.replace("@", f.body.name(1)), next(iter(r))) is not None, "an instant becomes %s" % sorted(r), key="truncate")
        g2 = c.graph(f, None, small=25, keep=True)
        q = g2.search(ret_of(g2), block=any_of(call_to(r".*::with_nanosecond|.*::(trunc_subsecs|duration_trunc)"), lambda e: relation(e, r"nanosecond\(.*\) Rem 1000\)$", r"^0$") == "Eq", contradicts(r"nanosecond\(.*\) Rem 1000\)$", 1)))
        c.ob("S05.edn", f, q is None, "an instant with more than microseconds is kept: %s" % fmt_path(q or []), key="truncate?")
    fwd = {v: k for k, v in back.items()}; fwd["Ref"] = "Integer"
    for f in te:
        tb = value_table(c, f, "^%s$" % f.body.name(1), VTYPES)
        for k in VTYPES:
            w = "tuple{0: Value::%s{0: %s.0}, 1: ValueType::%s{}}" % (fwd[k], f.body.name(1), k)
            c.ob("S05.edn", f, tb[k] == frozenset([w]), "%s becomes %s" % (k, sorted(tb[k])), key="to:" + k)

def evalint(t, env):
    """Integer value of a term over integer inputs; None if unknown."""
    if t[0] == "c" and isinstance(t[1], int): return t[1]
    r = rend(t)
    if r in env: return env[r]
    if r in ("0", "1"): return int(r)
    if t[0] == "op":
        a, b = ({evalint(x, env) for x in (y if isinstance(y, (frozenset, set)) else [y])} for y in t[2:4])
        if len(a) != 1 or len(b) != 1 or None in a or None in b: return None
        a, b = a.pop(), b.pop()
        return {"Eq": int(a == b), "Ne": int(a != b), "Lt": int(a < b), "Le": int(a <= b), "Gt": int(a > b), "Ge": int(a >= b), "BitOr": a | b, "BitAnd": a & b, "Add": a + b, "Sub": a - b, "Mul": a * b}.get(t[1])
    if t[0] == "un" and t[1] == "Not":
        v = evalint(t[2], env)
        return None if v is None else int(not v)
    return None

# ---- T05: flags, indexes, uniqueness ---------------------------------------------------------------
FLAGS = (("index_avet", "index"), ("index_vaet", "ref"), ("index_fulltext", "fulltext"), ("unique_value", "unique"))

def bits(t, env):
    """Union of the bits a flag word can have (terms of one restricted dataflow)."""
    if t[0] == "rec": return 0
    if t[0] == "c" and isinstance(t[1], int): return t[1]
    r = rend(t)
    if r in env: return env[r]
    if t[0] == "op":
        out = []
        for y in t[2:4]:
            o = 0
            for x in (y if isinstance(y, (frozenset, set)) else [y]):
                b = bits(x, env)
                if b is None: return None
                o |= b
            out.append(o)
        a, b = out
        op = t[1].replace("WithOverflow", "").replace("Unchecked", "")
        return {"BitOr": a | b, "Add": a + b, "BitXor": a ^ b, "Shl": a << min(b, 16), "Mul": a * b, "BitAnd": a & b}.get(op)
    if t[0] == "cast" and len(t) > 1: return bits(t[-1], env) if isinstance(t[-1], tuple) else None
    return None

@rule("T05", "SQLite enforces UNIQUE indexes")
def t05(c):
    c.rule("T05.flags", "an attribute's flag word has exactly the bits of its index, reference type, fulltext and uniqueness")
    c.rule("T05.cols", "each flag column of a stored datom is the bit of that name of its own attribute's flag word")
    c.rule("T05.index", "uniqueness of facts and of unique attributes' values is enforced by unique indexes over the right columns, restricted by the right flag")
    c.rule("T05.views", "the views over datoms show every datom once, with fulltext values replaced by their text")
    fs = c.find(r"core_traits::Attribute::flags")
    c.floor("T05.flags", "flag word", len(fs), 1)
    word = {}
    for f in fs:
        g = c.graph(f, None, small=12, keep=True)
        s = f.body.name(1)
        bad = []
        # what else of the attribute is looked at
        rest = sorted({m.group(1) for ev in g.events(lambda e: e.kind == "edge") for t in g.T.operand(ev.frame, ev.data["o"])
                       for x in walk(frozenset([t])) for m in [re.match(r"%s\.(\w+)" % s, rend(x))] if m} - {"index", "fulltext", "unique", "value_type"})
        for ix, rf, ft, uq, *more in itertools.product((0, 1), (0, 1), (0, 1), (None, "Value", "Identity"), *[(0, 1)] * len(rest)):
            un = 0 if uq is None else 1
            ps = [contradicts(r"^%s\.index$" % s, str(ix)), contradicts(r"^%s\.fulltext$" % s, str(ft)), choice(r"^%s\.unique" % s, "Unique", uq)]
            ps.append(contradicts(r"^%s\.value_type$" % s, "Ref" if rf else "Long"))
            ps += [contradicts(r"^%s\.%s$" % (s, n_), str(v_)) for n_, v_ in zip(rest, more)]
            T = under_blk(g, any_of(*ps))
            env = {s + ".index": ix, s + ".fulltext": ft, "Option::is_some(%s.unique)" % s: un, "Option::is_none(%s.unique)" % s: 1 - un,
                   **{"(%s.unique Eq Option::Some{0: Unique::%s{}})" % (s, u): int(uq == u) for u in ("Value", "Identity")}, "(%s.value_type Eq ValueType::Ref{})" % s: rf, **{"%s.%s" % (s, n_): v_ for n_, v_ in zip(rest, more)}}
            v = [bits(t, env) for t in T.place(g.rootf, 0)]
            w = 0
            for b in v: w = None if b is None or w is None else w | b
            if word.setdefault((ix, rf, ft, un), w) != w: bad.append("%s with %s -> %s" % ((ix, rf, ft, uq), dict(zip(rest, more)), w))
        one = {nm: word[tuple(int(i == j) for j in range(4))] for i, (nm, _) in enumerate(FLAGS)}
        ok = word[(0, 0, 0, 0)] == 0 and all(isinstance(b, int) and b and b & (b - 1) == 0 for b in one.values()) and len(set(one.values())) == 4
        if ok:
            for k, w in word.items():
                if w != sum(one[nm] for on, (nm, _) in zip(k, FLAGS) if on): bad.append("%s -> %s" % (k, w))
        c.ob("T05.flags", f, ok and not bad, "bits %s; %s" % (one, bad[:3]), key="word")
        c.done(g)
    n = 0
    for s, x, st in runs(c):
        if st["kind"] != "insert" or st["table"] != "datoms": continue
        n += 1
        src = st["source"]
        cols = dict(zip(st["cols"], [canon(e, None, True) for e, _ in src["cols"]]))
        seen = []
        for nm, _ in FLAGS:
            e = cols.get(nm)
            m = maskof(e)
            c.ob("T05.cols", s.where(), m is not None and m[0] == ("col", None, "flags0"), "%s <- %s" % (nm, show(e) if e else None), key="col:" + nm)
            seen.append(m[1] if m else None)
        if word:
            for (nm, _), h in zip(FLAGS, seen):
                v = h if isinstance(h, int) else holeint(h)
                c.ob("T05.cols", s.where(), v == one[nm], "%s tests bit %s, the flag word has it as %s" % (nm, v, one[nm]), key="bit:" + nm)
    c.floor("T05.cols", "statement storing datoms", n, 1)
    # ---- indexes and views ----------------------------------------------------------------------
    texts = [t for t in (static(c, "mentat_db::db::V1_STATEMENTS") or []) if isinstance(t, str)]
    c.floor("T05.index", "store-creating statements", len(texts), 15)
    created = {}
    for t in texts:
        try: st = sqlx.parse(sqltext.norm(t))
        except SyntaxError: continue
        if st["kind"] == "create": created[(st["what"], st["table"])] = (st, re.sub(r"\s+", " ", t))
    uni = []
    for (what, tab), (st, t) in created.items():
        m = re.match(r"CREATE (UNIQUE )?INDEX (?:IF NOT EXISTS )?[\w.]+ ON datoms \(([^)]*)\)(?: WHERE (.*))?$", t.strip(), re.I)
        if m: uni.append((bool(m.group(1)), [y.strip() for y in m.group(2).split(",")], m.group(3)))
    c.floor("T05.index", "indexes on datoms", len(uni), 5)
    cond_ = lambda w: None if w is None else E(w)
    have = lambda u, cs, flag: any(a == u and set(b) == set(cs) and (cond_(w) == (E(flag + " IS NOT 0") if flag else None)) for a, b, w in uni)
    c.ob("T05.index", "V1_STATEMENTS", have(True, ["e", "a", "value_type_tag", "v"], None), "no unique index makes datoms a set", key="set")
    c.ob("T05.index", "V1_STATEMENTS", have(True, ["a", "value_type_tag", "v"], "unique_value"), "no unique index over attribute and value of unique attributes", key="unique")
    for a, b, w in uni:
        if not a: continue
        ok = {"e", "a", "v"} <= set(b) or (set(b) >= {"a", "v", "value_type_tag"} and w is not None and cond_(w) == E("unique_value IS NOT 0"))
        c.ob("T05.index", "V1_STATEMENTS", ok, "UNIQUE (%s) WHERE %s forbids legal datoms" % (", ".join(b), w), key="legal:" + ",".join(b))
    for vn in ("all_datoms", "fulltext_datoms", "transactions"):
        c.ob("T05.views", "V1_STATEMENTS", ("view", vn) in created, "view %s" % vn, key="has:" + vn)
    want = ["e", "a", "v", "tx", "value_type_tag", "index_avet", "index_vaet", "index_fulltext", "unique_value"]
    def names(sel): return [al or (canon(e, None, True)[2] if canon(e, None, True)[0] == "col" else None) for e, al in sel["cols"]]
    if ("view", "all_datoms") in created:
        sel = created[("view", "all_datoms")][0]["select"]
        arms = [(None, sel)] + list(sel["compound"])
        srcs = {}
        for op, a in arms:
            srcs[a["from"][0][0][1]] = a
            c.ob("T05.views", "all_datoms", names(a) == want, "columns %s" % names(a), key="cols:" + str(a["from"][0][0][1]))
            c.ob("T05.views", "all_datoms", op in (None, "union all"), "arms joined by %s" % op, key="union")
        c.ob("T05.views", "all_datoms", set(srcs) == {"datoms", "fulltext_datoms"}, "from %s" % sorted(srcs), key="arms")
        if set(srcs) == {"datoms", "fulltext_datoms"}:
            c.ob("T05.views", "all_datoms", canon(srcs["datoms"]["where"], None, True) == E("index_fulltext IS 0") if srcs["datoms"]["where"] is not None else False, "plain datoms chosen by another condition", key="plain")
            c.ob("T05.views", "all_datoms", srcs["fulltext_datoms"]["where"] is None, "fulltext datoms are filtered", key="fts")
    if ("view", "fulltext_datoms") in created:
        sel = created[("view", "fulltext_datoms")][0]["select"]
        al = sqlx.aliases(sel)
        w = canon(sel["where"], None, False) if sel["where"] is not None else None
        txt = show(w) if w is not None else ""
        c.ob("T05.views", "fulltext_datoms", sorted(str(f[0][1]) for f in sel["from"]) == ["datoms", "fulltext_values"] and len(conj(w) if w else ()) == 2 and re.search(r"index_fulltext", txt) is not None and re.search(r"datoms\.v ?= ?fulltext_values\.rowid|fulltext_values\.rowid ?= ?datoms\.v", txt) is not None, "joins %s" % txt, key="join")
        nm = names(sel)
        c.ob("T05.views", "fulltext_datoms", nm == want and "text" in show(canon(sel["cols"][2][0], None, False)), "columns %s" % nm, key="cols:fulltext")
        for op, a in sel["compound"]: c.ob("T05.views", "fulltext_datoms", False, "has a further arm", key="more")

def maskof(e):
    """(column, mask or hole) of `col & mask IS NOT 0`."""
    if e is None: return None
    if e[0] == "not" and e[1][0] == "eq":
        for a, b in ((e[1][1], e[1][2]), (e[1][2], e[1][1])):
            if b == ("lit", 0) and a[0] in ("bitand", "&", "op", "bin"):
                ops = [x for x in a[1:] if isinstance(x, tuple)]
                col = [x for x in ops if x[0] == "col"]
                oth = [x for x in ops if x[0] != "col"]
                if len(col) == 1 and len(oth) == 1: return col[0], (oth[0][1] if oth[0][0] in ("lit", "hole") else oth[0])
    return None

def holeint(h):
    """Value of a constant formatted into the text."""
    m = re.fullmatch(r"\u27e6\(?(\d+)(?: Add (\d+)\))?\u27e7", str(h))
    return int(m.group(1)) + int(m.group(2) or 0) if m else None
