"""Query clauses: the constraints each one puts on the rows the store is asked for."""
import re
from ctx import *
from model import op_place, Place
from registry import rule
from rules.cache import within, answers, argis, each, among, opis

CC = r"mentat_query_algebrizer::clauses::"
EMPTY = lambda ev: ev.kind == "call" and ev.callee.endswith("::mark_known_empty")
OVER = r"EvolvedPattern"
PLACES = {"entity": "Entity", "attribute": "Attribute", "value": "Value", "tx": "Tx"}

def ccgraph(c, f, small=30, pred=None, inner=None):
    """The algebrizer below `f`, with conversions between its kinds of column and value followed."""
    reach = lambda fn, i, t, k: k is not None and fn.crate == "mentat_query_algebrizer" and re.search(r"::(mark_known_empty|add|add_intersection|push)$", callee_fn(k) or "") is not None and "ConjoiningClauses" in " ".join(fn.body.ty(j) for j in range(1, fn.body.argc + 1))
    g = c.graph(f, pred or reach, small=small, keep=True)
    g.conv = True
    g.T.opaque = lambda n: re.search(r"ValueTypeSet::\w+$|TypedValue::(is_congruent_with|matches_type|value_type)$", n) is not None or (inner is not None and re.search(inner, n) is not None)
    return g

def pushes(g, to, what):
    r, w = re.compile(to), re.compile(what)
    def p(ev):
        if ev.kind != "call" or not ev.callee.endswith("::push"): return False
        a = args_of(g, ev)
        return r.search(a[0]) is not None and w.search(a[1]) is not None
    return p

WHERES = r"^self\.wheres\.0$"
def col(alias, d): return r"QualifiedAlias::QualifiedAlias\{0: %s, 1: Column::Fixed\{0: DatomsColumn::%s\{\}\}\}" % (alias, d)
def equals(g, alias, d, payload):
    return pushes(g, WHERES, r"ColumnConstraint::Equals\{0: %s, 1: QueryValue::%s\}\}?\}?$" % (col(alias, d), payload))
def typed(g, alias, types):
    return pushes(g, WHERES, r"ColumnConstraint::HasTypes\{value: %s, value_types: %s, check_value: " % (alias, types))

def param(f, ty):
    r = [f.body.name(i) for i in range(1, f.body.argc + 1) if re.search(ty, f.body.ty(i))]
    return r[0] if len(r) == 1 else None

@rule("Q03")
def q03_places(c):
    c.rule("Q03.place", "each place of a pattern holds exactly its own column: a constant by equality, a variable by being bound to it or by its value, a blank not at all")
    c.rule("Q03.type", "a constant is matched with its type wherever the attribute doesn't settle the type")
    c.rule("Q03.empty", "a query is found empty without asking the store only where no datom can match")
    fs = [f for f in c.find(CC + r".*") if f.kind != "closure" and param(f, r"EvolvedPattern") and param(f, r"SourceAlias") and "ConjoiningClauses" in f.body.ty(1) and "mut" in f.body.ty(1)]
    c.floor("Q03.place", "functions that apply a pattern to a table", len(fs), 1)
    for f in fs:
        g = ccgraph(c, f)
        done = ret_of(g)
        pt, al = param(f, "EvolvedPattern"), re.escape(param(f, "SourceAlias")) + r"\.1"
        start = opt(r"self\.empty_because", False)
        n = 0
        for pl, d in PLACES.items():
            adt = "EvolvedValuePlace" if pl == "value" else "EvolvedNonValuePlace"
            P = r"%s\.%s" % (pt, pl)
            is_ = lambda v, P=P, adt=adt: choice(P + "$", adt, v)
            bound = r"BTreeMap::get\(self\.value_bindings, %s\.0\)" % P
            touched = any_of(pushes(g, WHERES, col(al, d)), pushes(g, r"self\.column_bindings", col(al, d)))
            q = g.search(touched, given=is_("Placeholder"))
            c.ob("Q03.place", f, q is None, "a blank %s is held to something: %s" % (pl, fmt_path(q or [])), key="blank:" + pl); n += 1
            # variables
            var = pushes(g, r"^(Entry::or_insert(_with|_default)?|or_insert(_with|_default)?)?\(?.*self\.column_bindings, %s\.0\)" % P, "^" + col(al, d) + "$")
            q = g.search(done, block=any_of(EMPTY, var), given=any_of(start, is_("Variable"), opt(bound, False)))
            c.ob("Q03.place", f, q is None, "a variable %s isn't bound to its column: %s" % (pl, fmt_path(q or [])), key="var:" + pl); n += 1
            q = g.search(var, given=any_of(is_("Variable"), opt(bound, True)))
            c.ob("Q03.place", f, q is None, "a variable that has a value is bound to the %s column: %s" % (pl, fmt_path(q or [])), key="boundvar:" + pl)
            held = equals(g, al, d, r"(TypedValue|Entid)\{0: .*%s.*\}" % bound)
            q = g.search(done, block=any_of(EMPTY, held), given=any_of(start, is_("Variable"), opt(bound, True)))
            c.ob("Q03.place", f, q is None, "a variable that has a value isn't held to it in the %s column: %s" % (pl, fmt_path(q or [])), key="bound:" + pl)
            if pl != "value":
                kw = equals(g, al, d, r"Entid\{0: .*(ident_map|get_entid).*%s.*\}" % bound)
                q = g.search(done, block=any_of(EMPTY, kw), given=any_of(start, is_("Variable"), opt(bound, True), choice(bound, "TypedValue", "Keyword")))
                c.ob("Q03.place", f, q is None, "an ident given for the %s isn't resolved: %s" % (pl, fmt_path(q or [])), key="ident:" + pl)
                ref = equals(g, al, d, r"Entid\{0: %s\.0\}" % bound)
                q = g.search(done, block=any_of(EMPTY, ref), given=any_of(start, is_("Variable"), opt(bound, True), choice(bound, "TypedValue", "Ref")))
                c.ob("Q03.place", f, q is None, "an entity given for the %s isn't held to: %s" % (pl, fmt_path(q or [])), key="ref:" + pl)
                for v in ("Long", "String", "Boolean", "Double", "Instant", "Uuid"):
                    q = g.search(done, block=EMPTY, given=any_of(start, is_("Variable"), opt(bound, True), choice(bound, "TypedValue", v)))
                    c.ob("Q03.place", f, q is None, "a %s given for the %s can match: %s" % (v, pl, fmt_path(q or [])), key="other:%s:%s" % (pl, v))
            # constants
            const = equals(g, al, d, r"Entid\{0: %s\.0\}" % P)
            q = g.search(done, block=any_of(EMPTY, const), given=any_of(start, is_("Entid")))
            c.ob("Q03.place", f, q is None, "the entity named as %s isn't held to: %s" % (pl, fmt_path(q or [])), key="const:" + pl)
        V = r"%s\.value" % pt
        val = lambda v: choice(V + "$", "EvolvedValuePlace", v)
        noattr = choice(r"%s\.attribute$" % pt, "EvolvedNonValuePlace", "Placeholder")
        q = g.search(done, block=any_of(EMPTY, equals(g, al, "Value", r"(TypedValue\{0: %s\.0\}|Entid\{0: %s\.0\.0\})" % (V, V))), given=any_of(start, val("Value")))
        c.ob("Q03.place", f, q is None, "the value given isn't held to: %s" % fmt_path(q or []), key="const:Value")
        vt = r"(discr\()?.*attribute_map.*value_type\)?"
        ref = lambda ev: relation(ev, vt, r"ValueType::Ref.*") == "Eq" or choice(r".*attribute_map.*\.value_type", "ValueType", "Ref")(ev)
        q = g.search(done, block=any_of(EMPTY, equals(g, al, "Value", r"TypedValue\{0: TypedValue::Keyword\{0: %s\.0\}\}" % V), equals(g, al, "Value", r"Entid\{0: .*ident_map.*%s\.0.*\}" % V)), given=any_of(start, val("IdentOrKeyword")))
        c.ob("Q03.place", f, q is None, "the keyword given isn't held to: %s" % fmt_path(q or []), key="const:IdentOrKeyword")
        q = g.search(equals(g, al, "Value", r"Entid\{0: .*ident_map.*%s\.0.*\}" % V), given=noattr)
        c.ob("Q03.place", f, q is None, "a keyword is taken for an ident where the attribute isn't a reference: %s" % fmt_path(q or []), key="kw:notref")
        q = g.search(done, block=any_of(EMPTY, typed(g, al, r"ValueTypeSet::of_one\(ValueType::Keyword\{\}\)"), equals(g, al, "Value", r"Entid\{0: .*ident_map.*%s\.0.*\}" % V)), given=any_of(start, val("IdentOrKeyword")))
        c.ob("Q03.type", f, q is None, "a keyword is matched whatever its type: %s" % fmt_path(q or []), key="kw:type")
        q = g.search(done, block=any_of(EMPTY, typed(g, al, r"ValueTypeSet::of_one\(.*%s\.0.*\)" % V)), given=any_of(start, val("Value"), noattr))
        c.ob("Q03.type", f, q is None, "a value is matched whatever its type: %s" % fmt_path(q or []), key="value:type")
        q = g.search(done, block=any_of(EMPTY, equals(g, al, "Value", r"(PrimitiveLong|Entid)\{0: %s\.0\}" % V)), given=any_of(start, val("EntidOrInteger")))
        c.ob("Q03.place", f, q is None, "the number given isn't held to: %s" % fmt_path(q or []), key="const:EntidOrInteger")
        # nothing else
        own = [(d, pl) for pl, d in PLACES.items()]
        for ev in g.events(lambda ev: ev.kind == "call" and ev.callee.endswith("::push") and re.search(r"^self\.wheres\.0$|self\.column_bindings", args_of(g, ev)[0])):
            a = args_of(g, ev)
            t = a[0] + " <- " + a[1]
            ok = False
            for d, pl in own:
                P = r"%s\.%s\.0" % (pt, pl)
                if re.search(col(al, d), a[1]) and re.search(P, t) and not any(re.search(r"%s\.%s\b" % (pt, o), re.sub(r"schema\.attribute_map.*?value_type", "", a[1])) for _, o in own if o != pl): ok = True
            if re.search(r"HasTypes\{value: %s," % al, a[1]): ok = True
            n += 1
            c.ob("Q03.place", f, ok, "a place holds another's column: %s" % t[:200], key="own:" + re.sub(r"\W+", " ", t)[:150])
        # the kinds of refusal
        for ev in g.events(EMPTY):
            why = args_of(g, ev)[1]
            kind = re.match(r"EmptyBecause::(\w+)", why)
            c.ob("Q03.empty", f, kind is not None and kind.group(1) in ("TypeMismatch", "InvalidAttributeEntid", "ValueTypeMismatch", "UnresolvedIdent", "InvalidBinding"), "found empty: %s" % why[:120], key="why:%s" % (kind.group(1) if kind else why[:40]))
        is_ = lambda ev, k: EMPTY(ev) and args_of(g, ev)[1].startswith("EmptyBecause::" + k)
        q = g.search(lambda ev: is_(ev, "InvalidAttributeEntid"), given=contradicts(r".*(is_attribute|contains_key)\(.*\)", "1"))
        c.ob("Q03.empty", f, q is None, "a query over a known attribute is found empty: %s" % fmt_path(q or []), key="attr")
        q = g.search(lambda ev: is_(ev, "UnresolvedIdent"), given=opt(r"BTreeMap::get\(.*ident_map, .*\)", True))
        c.ob("Q03.empty", f, q is None, "a query over a known ident is found empty: %s" % fmt_path(q or []), key="ident")
        q = g.search(lambda ev: is_(ev, "ValueTypeMismatch"), given=any_of(val("Value"), contradicts(r".*(is_congruent_with|matches_type)\(.*\)", "1"), lambda ev: relation(ev, r".*TypedValue::value_type\(%s\.0\)" % V, r".*attribute_map.*") == "Ne"))
        c.ob("Q03.empty", f, q is None, "a value of the attribute's type is found not to match: %s" % fmt_path(q or []), key="congruent")
        q = g.search(lambda ev: is_(ev, "ValueTypeMismatch"), given=any_of(val("Entid"), noattr))
        c.ob("Q03.empty", f, q is None, "an entity is found not to match any attribute: %s" % fmt_path(q or []), key="entid")
        q = g.search(lambda ev: is_(ev, "TypeMismatch"), given=contradicts(r".*contains\(.*\)", "1"))
        c.ob("Q03.empty", f, q is None, "a variable is found to have no type though one is left: %s" % fmt_path(q or []), key="type")
        c.done(g)

def table(c, rule, f, g, rows, key):
    """Under each assumption a function answers what the table says, all of it and nothing else."""
    for name, given, want in rows:
        got = answers(g, *given)
        odd = [x for x in got if not any(re.fullmatch(w, x) for w in want)]
        miss = [w for w in want if not any(re.fullmatch(w, x) for x in got)]
        c.ob(rule, f, not odd and not miss, "%s: %s" % (name, "answers " + "; ".join(odd)[:220] if odd else "never answers " + miss[0][:160] if miss else ""), key="%s:%s" % (key, name))

def returning(c, ret, *params):
    """Functions by what they take and give."""
    return [f for f in c.P.fns if f.kind != "closure" and f.body is not None and re.fullmatch(ret, f.body.ty(0))
            and f.crate == "mentat_query_algebrizer" and all(any(re.search(p, f.body.ty(i)) for i in range(1, f.body.argc + 1)) for p in params)]

T_ = r"(?:mentat_query_algebrizer|edn|core_traits)::(?:\w+::)*"

@rule("Q03")
def q03_evolve(c):
    c.rule("Q03.evolve", "each place of a clause is read as what it names: an ident as its entity, a variable as its value once it has one, a number or keyword as the attribute's type says")
    place = lambda x: r"PlaceOrEmpty::Place\{0: %s\}" % x
    empty = lambda x: r"PlaceOrEmpty::Empty\{0: EmptyBecause::%s.*\}" % x
    sig = r"%sPlaceOrEmpty<%s%s>"
    fs = returning(c, sig % (T_, T_, "EvolvedNonValuePlace"), r"PatternNonValuePlace", "DatomsColumn")
    c.floor("Q03.evolve", "readers of an entity place", len(fs), 1)
    for f in fs:
        g = ccgraph(c, f)
        p = param(f, "PatternNonValuePlace"); k = param(f, r"Known\b")
        b = r"BTreeMap::get\(self\.value_bindings, %s\.0\)" % p
        res = lambda x: r"(?:Option::map\()?BTreeMap::get\(%s\.schema\.ident_map, %s\)(?:, core_traits::KnownEntid\))?" % (k, x)
        N = lambda x: place(r"EvolvedNonValuePlace::" + x)
        v = lambda x: choice(p + "$", "PatternNonValuePlace", x)
        rows = [("blank", [v("Placeholder")], [N(r"Placeholder\{\}")]),
                ("entity", [v("Entid")], [N(r"Entid\{0: %s\.0\}" % p)]),
                ("ident", [v("Ident")], [N(r"Entid\{0: %s\}" % res(p + r"\.0")), empty("UnresolvedIdent")]),
                ("known ident", [v("Ident"), opt(res(p + r"\.0"), True)], [N(r"Entid\{0: %s\}" % res(p + r"\.0"))]),
                ("variable", [v("Variable"), opt(b, False)], [N(r"Variable\{0: %s\.0\}" % p)]),
                ("variable with an entity", [v("Variable"), opt(b, True), choice(b, "TypedValue", "Ref")], [N(r"Entid\{0: %s\.0\}" % b)]),
                ("variable with a known ident", [v("Variable"), opt(b, True), choice(b, "TypedValue", "Keyword"), opt(res(b + r"\.0"), True)], [N(r"Entid\{0: %s\}" % res(b + r"\.0"))]),
                ("variable with an unknown ident", [v("Variable"), opt(b, True), choice(b, "TypedValue", "Keyword"), opt(res(b + r"\.0"), False)], [empty("UnresolvedIdent")])]
        for t in ("Long", "String", "Boolean", "Double", "Instant", "Uuid"):
            rows.append(("variable with a " + t, [v("Variable"), opt(b, True), choice(b, "TypedValue", t)], [empty("InvalidBinding")]))
        table(c, "Q03.evolve", f, g, rows, "entity")
        c.done(g)
    fs = returning(c, sig % (T_, T_, "EvolvedValuePlace"), r"PatternValuePlace", r"Option<.*ValueType>")
    c.floor("Q03.evolve", "readers of a value place", len(fs), 1)
    for f in fs:
        g = ccgraph(c, f)
        p = param(f, "PatternValuePlace"); k = param(f, r"Known\b"); t = param(f, r"Option<.*ValueType>")
        b = r"BTreeMap::get\(self\.value_bindings, %s\.0\)" % p
        res = lambda x: r"(?:Option::map\()?BTreeMap::get\(%s\.schema\.ident_map, %s\)(?:, core_traits::KnownEntid\))?" % (k, x)
        V = lambda x: place(r"EvolvedValuePlace::" + x)
        v = lambda x: choice(p + "$", "PatternValuePlace", x)
        is_ = lambda x: [opt(t + "$", True), choice(t + r"(\.0)?$", "ValueType", x)]
        rows = [("blank", [v("Placeholder")], [V(r"Placeholder\{\}")]),
                ("number for a reference", [v("EntidOrInteger")] + is_("Ref"), [V(r"Entid\{0: %s\.0\}" % p)]),
                ("number for a long", [v("EntidOrInteger")] + is_("Long"), [V(r"Value\{0: TypedValue::Long\{0: %s\.0\}\}" % p)]),
                ("number for a double", [v("EntidOrInteger")] + is_("Double"), [V(r"Value\{0: TypedValue::Double\{0: (?:OrderedFloat::OrderedFloat\{0: )?%s\.0\}?\}\}" % p)]),
                ("number", [v("EntidOrInteger"), opt(t + "$", False)], [V(r"EntidOrInteger\{0: %s\.0\}" % p)]),
                ("keyword for a keyword", [v("IdentOrKeyword")] + is_("Keyword"), [V(r"Value\{0: TypedValue::Keyword\{0: %s\.0\}\}" % p)]),
                ("known ident for a reference", [v("IdentOrKeyword"), opt(res(p + r"\.0"), True)] + is_("Ref"), [V(r"Entid\{0: %s\}" % res(p + r"\.0"))]),
                ("unknown ident for a reference", [v("IdentOrKeyword"), opt(res(p + r"\.0"), False)] + is_("Ref"), [empty("UnresolvedIdent")]),
                ("keyword", [v("IdentOrKeyword"), opt(t + "$", False)], [V(r"IdentOrKeyword\{0: %s\.0\}" % p)]),
                ("variable", [v("Variable"), opt(b, False)], [V(r"Variable\{0: %s\.0\}" % p)]),
                ("constant", [v("Constant")], [V(r"Value\{0: \{?(?:\|?TypedValue::(?:Boolean|Double|Instant|String|Uuid)\{0: %s\.0\.0\})+\}?\}" % p)])]
        for x in ("String", "Boolean", "Instant", "Uuid", "Keyword"):
            rows.append(("number for a " + x, [v("EntidOrInteger")] + is_(x), [empty("ValueTypeMismatch")]))
        for x in ("String", "Boolean", "Instant", "Uuid", "Long", "Double"):
            rows.append(("keyword for a " + x, [v("IdentOrKeyword")] + is_(x), [empty("ValueTypeMismatch")]))
        table(c, "Q03.evolve", f, g, rows, "value")
        for x, w in (("Ref", V(r"(?:Entid\{0: %s\.0\}|Value\{0: %s\})" % (b, b))), ("Long", V(r"Value\{0: %s\}" % b)), ("String", V(r"Value\{0: %s\}" % b)), ("Keyword", V(r"Value\{0: %s\}" % b))):
            got = answers(g, v("Variable"), opt(b, True), choice(b, "TypedValue", x))
            odd = [y for y in got if not y.startswith("PlaceOrEmpty::Empty") and not re.fullmatch(w, y)]
            c.ob("Q03.evolve", f, not odd and any(re.fullmatch(w, y) for y in got), "a variable with a %s is read as %s" % (x, "; ".join(odd or got)[:200]), key="value:bound:" + x)
        c.done(g)
    fs = returning(c, sig % (T_, T_, "EvolvedPattern"), r"clauses::ConjoiningClauses", r"(query::|::)Pattern\b")
    c.floor("Q03.evolve", "readers of a pattern", len(fs), 1)
    for f in fs:
        g = ccgraph(c, f)
        p = param(f, r"(query::|::)Pattern\b")
        got = [x for x in answers(g) if x.startswith("PlaceOrEmpty::Place")]
        c.ob("Q03.evolve", f, len(got) == 1, "a pattern becomes %s" % got[:2], key="pattern")
        for x in got:
            m = re.search(r"EvolvedPattern\{source: (.*?), entity: (.*), attribute: (.*), value: (.*), tx: (.*)\}\}$", x)
            for pl, t in zip(("source", "entity", "attribute", "value", "tx"), m.groups() if m else ("",) * 5):
                others = [o for o in ("entity", "attribute", "value", "tx", "source") if o != pl and not (pl == "value" and o == "attribute")]
                ok = re.search(r"\b%s\.%s\b" % (p, pl), t) is not None and not any(re.search(r"\b%s\.%s\b" % (p, o), t) for o in others)
                if pl == "source": ok = ok and "SrcVar::DefaultSrc" in t
                c.ob("Q03.evolve", f, ok, "the pattern's %s becomes %s" % (pl, t[:160]), key="pattern:" + pl)
            t = m.group(4) if m else ""
            c.ob("Q03.evolve", f, re.search(r"attribute_map, .*%s\.attribute.*\)\.value_type" % p, t) is not None, "a value is read without its attribute's type: %s" % t[:160], key="pattern:type")
        c.done(g)
    fs = returning(c, sig % (T_, T_, "EvolvedPattern"), r"clauses::ConjoiningClauses", r"EvolvedPattern")
    c.floor("Q03.evolve", "re-readers of a pattern", len(fs), 1)
    for f in fs:
        g = ccgraph(c, f)
        p = param(f, r"EvolvedPattern")
        done = ret_of(g)
        for pl in ("entity", "value"):
            b = r"BTreeMap::get\(self\.value_bindings, %s\.%s\.0\)" % (p, pl)
            stores = [ev for ev in g.events(lambda ev: ev.kind == "stmt" and ev.data[0][-1:] != ["*"] and any(("." + pl + "@") in str(x) for x in ev.data[0][-1:]))]
            c.ob("Q03.evolve", f, bool(stores), "a bound %s is never replaced" % pl, key="again:" + pl)
            q = g.search(any_of(*[is_ev(e) for e in stores]) if stores else done, given=opt(b, False))
            c.ob("Q03.evolve", f, q is None, "an unbound %s is replaced: %s" % (pl, fmt_path(q or [])), key="again:unbound:" + pl)
        r = answers(g)
        odd = [y for y in re.findall(r"Evolved\w+Place::\w+\{[^{}]*\}", " ".join(r)) if not re.fullmatch(r"EvolvedNonValuePlace::Entid\{0: BTreeMap::get\(self\.value_bindings, %s\.entity\.0\)\.0\}|EvolvedValuePlace::Value\{0: BTreeMap::get\(self\.value_bindings, %s\.value\.0\)\}" % (p, p), y)]
        c.ob("Q03.evolve", f, not odd, "a place is replaced by %s" % odd[:2], key="again:what")
        c.done(g)

def built(adt, *vs, neg=False):
    """A value of enum `adt` made, of one of the variants `vs` (or of any other)."""
    return lambda ev: ev.kind == "stmt" and ev.data[1]["r"] == "agg" and str(ev.data[1].get("adt", "")).endswith("::" + adt) and (not vs or (ev.data[1].get("var") in vs) != neg)

@rule("Q03")
def q03_table(c):
    c.rule("Q03.table", "a pattern reads a table that holds every datom it might match, with the text of strings where it needs it")
    fs = [f for f in c.P.fns if f.crate == "mentat_query_algebrizer" and f.body is not None and f.kind != "closure" and re.search(r"Result<.*DatomsTable, .*EmptyBecause>", f.body.ty(0)) and param(f, "EvolvedNonValuePlace") and param(f, "EvolvedValuePlace")]
    c.floor("Q03.table", "functions that choose a pattern's table", len(fs), 1)
    for f in fs:
        g = ccgraph(c, f)
        A, V = param(f, "EvolvedNonValuePlace"), param(f, "EvolvedValuePlace")
        tab, none = lambda *v: built("DatomsTable", *v, neg=True), built("EmptyBecause")
        isv = lambda v: choice(V, "EvolvedValuePlace", v)
        isa = lambda v: choice(A, "EvolvedNonValuePlace", v)
        text = choice(V + r"\.0", "TypedValue", "String")
        other = lambda *ks: any_of(*[choice(V + r"\.0", "TypedValue", k) for k in ks])
        bound = r"BTreeMap::get\(self\.value_bindings, %s\.0\)" % A
        isattr = opt(r"\(?(tuple(::tuple)?[{(](0: )?)?BTreeMap::get\(schema\.attribute_map, .*", True)
        isident = opt(r"BTreeMap::get\(schema\.ident_map, .*\)", True)
        ft = lambda b: contradicts(r"\.fulltext$", b)
        contains = lambda m: any_of(opt(r"BTreeMap::get\(self\.%s, %s\.0\)" % (m, V), True), contradicts(r"ValueTypeSet::contains\(BTreeMap::get\(self\.%s, %s\.0\), ValueType::String\{\}\)$" % (m, V), "1"))
        lacks = lambda m: opt(r"BTreeMap::get\(self\.%s, %s\.0\)" % (m, V), False)
        n = 0
        # the attribute is settled: by the place, or by a binding of its variable
        settled = {"Entid": isa("Entid"), "bound entity": any_of(isa("Variable"), opt(bound, True), choice(bound + r"(\.0)?", "TypedValue", "Ref")), "bound ident": any_of(isa("Variable"), opt(bound, True), choice(bound + r"(\.0)?", "TypedValue", "Keyword"))}
        calls = called_self(g, f)
        for how, given in settled.items():
            q = g.search(none, given=any_of(given, isattr, isident, any_of(isv("Placeholder"))))
            c.ob("Q03.table", f, q is None, "an attribute whose value is blank matches nothing: %s" % fmt_path(q or []), key="blank:" + how); n += 1
            for vn, vg in (("a variable", isv("Variable")), ("a string", any_of(isv("Value"), text))):
                q = g.search(any_of(tab("FulltextDatoms", "AllDatoms"), none), given=any_of(given, isattr, isident, vg, ft("1")))
                c.ob("Q03.table", f, q is None, "the text of a fulltext attribute isn't read for %s: %s" % (vn, fmt_path(q or [])), key="fulltext:%s:%s" % (how, vn)); n += 1
                q = g.search(any_of(tab("Datoms", "AllDatoms"), none), given=any_of(given, isattr, isident, vg, ft("0")))
                c.ob("Q03.table", f, q is None, "an attribute that isn't fulltext is looked for in the fulltext table, or nowhere, for %s: %s" % (vn, fmt_path(q or [])), key="plain:%s:%s" % (how, vn)); n += 1
            q = g.search(any_of(tab("Datoms", "AllDatoms"), none), given=any_of(given, isattr, isident, ft("0")))
            c.ob("Q03.table", f, q is None, "an attribute that isn't fulltext is looked for in the fulltext table, or nowhere: %s" % fmt_path(q or []), key="plain:" + how); n += 1
        rec = g.events(calls)
        bad = [a for a in (args_of(g, ev) for ev in rec) if not (re.fullmatch(r"EvolvedNonValuePlace::Entid\{0: %s(\.0)?\}" % bound, a[2]) and a[3] == V)]
        c.ob("Q03.table", f, not bad, "the table of another attribute or value is used: %s" % bad[:1], key="again")
        # it isn't
        for how, given in {"blank": isa("Placeholder"), "variable": any_of(isa("Variable"), opt(bound, False))}.items():
            for k, kg in (("required_types", lacks("required_types")), ("both", any_of(contains("required_types")))):
                for k2, kg2 in (("known_types", lacks("known_types")), ("both", contains("known_types"))):
                    q = g.search(any_of(tab("AllDatoms"), none), given=any_of(given, isv("Variable"), kg, kg2))
                    c.ob("Q03.table", f, q is None, "strings that a variable might be aren't read from where their text is: %s" % fmt_path(q or []), key="any:%s:%s:%s" % (how, k, k2)); n += 1
            q = g.search(any_of(tab("AllDatoms"), none), given=any_of(given, isv("Value"), text))
            c.ob("Q03.table", f, q is None, "a string isn't looked for where its text is: %s" % fmt_path(q or []), key="text:" + how); n += 1
            q = g.search(any_of(tab("Datoms", "AllDatoms"), none), given=given)
            c.ob("Q03.table", f, q is None, "any attribute is looked for among the fulltext ones, or nowhere: %s" % fmt_path(q or []), key="every:" + how); n += 1
        c.floor("Q03.table", "cases of attribute and value", n, 20)
        c.done(g)

def called_self(g, f):
    return lambda ev: ev.kind == "call" and ev.data["f"].get("k") is not None and f.h in {t.h for t in g.P.targets(ev.data["f"]["k"])}
