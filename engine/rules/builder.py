"""Building transactions piece by piece: what is transacted is what was said."""
import re
from ctx import *
from registry import rule
from rules.cache import answers
from rules.pull import split

CR = "mentat_transaction"
CHANGES = r".*(Vec|VecDeque|IntoIter|Drain|Extend|core::mem)>?::(push|insert|extend\w*|append|pop|remove|swap_remove|clear|truncate|retain|drain|split_off|dedup\w*|take|replace|swap|reverse|sort\w*|push_within_capacity|rotate_\w+)"
BENDS = r".*(Iterator|DoubleEndedIterator|slice|Itertools)>?::(rev|skip\w*|take\w*|filter\w*|map\w*|step_by|chain|zip|flat_map|scan|nth\w*|last|partition|reverse|sort\w*|swap|rotate\w*|fill\w*|first|split\w*|unique|dedup\w*|sorted\w*)"

def bent(c, rl, f, g, key):
    """Nothing is done to the terms on the way from the builder to the transaction."""
    bad = [(ev.callee.rsplit("::", 1)[-1], args_of(g, ev)[:1]) for ev in g.events(lambda ev: ev.kind == "call" and (re.fullmatch(CHANGES, strip_generics(ev.callee)) or re.fullmatch(BENDS, strip_generics(ev.callee))) and ev.data["a"] and re.search(r"\bterms\b", args_of(g, ev)[0]))]
    c.ob(rl, f, not bad, "changes the terms: %s" % bad, key=key)

TERM = "Entity::AddOrRetract{op: OpType::%s{}, e: %s, a: a, v: v}"
WHO = r"(<mentat_transaction::entity_builder::(?P<t>\w+)(<.*?>)? as mentat_transaction::entity_builder::BuildTerms>|mentat_transaction::entity_builder::(?P<u>\w+)(::<.*>)?)::(?P<n>\w+)"

def mine(f):
    return f.crate == CR and f.body is not None and f.kind != "closure" and "test" not in f.path

def fns(c, rl, least, *names):
    out = []
    for f in c.P.fns:
        m = re.fullmatch(WHO, f.path) if mine(f) else None
        if m and m.group("n") in names: out.append((f, m.group("t") or m.group("u"), m.group("n")))
    c.floor(rl, "/".join(names), len(out), least)
    c.see(*[x[0] for x in out])
    return sorted(out, key=lambda x: x[0].path)

def bg(c, f):
    shut = lambda x: re.search(r"::InProgress::(?!transact_builder$)\w+$", strip_generics(x.path)) is not None
    g = c.graph(f, None, small=0, keep=True, same_crate=False, extra=lambda x: x.crate == CR and len(x.body.blocks) < 80 and x.h != f.h and not shut(x))
    g.conv = True
    return g

def named(f):
    """Parameters by place, with the names the rules use."""
    return [f.body.name(i) for i in range(1, f.body.argc + 1)]

def renamed(f, want, s):
    for have, w in zip(named(f), want):
        if have and have != w: s = re.sub(r"(?<![\w.])%s(?![\w:(])" % re.escape(have), w, s)
    return s

@rule("T06")
def t06_term(c):
    c.rule("T06.term", "adding to a builder appends to its terms exactly one assertion of the entity, attribute and value given, retracting exactly one retraction, and nothing else changes the terms")
    n = 0
    for f, who, name in fns(c, "T06.term", 6, "add", "retract"):
        g = bg(c, f)
        op = {"add": "Add", "retract": "Retract"}[name]
        of = who == "EntityBuilder"
        order = ["self", "a", "v"] if of else ["self", "e", "a", "v"]
        e = "self.entity" if of else "e"
        terms = r"self%s(\.builder)?\.terms" % (r"\.builder" if of else "")
        def own(ev):
            if ev.kind != "call": return None
            a = [renamed(f, order, x) for x in args_of(g, ev)]
            if re.fullmatch(CHANGES, ev.callee) and a and re.search(r"\.terms\b", a[0]):
                return ev.callee.endswith("::push") and re.fullmatch(terms, a[0]) is not None and a[1] == TERM % (op, e)
            if re.search(r"::(build|transact\w*|commit|rollback)$", ev.callee): return False
            return None
        good = lambda ev: own(ev) is True
        bad = [ev for ev in g.events(lambda ev: own(ev) is False)]
        c.ob("T06.term", f, not bad, "does something other than say what was said: %s" % [(ev.callee.rsplit("::", 1)[-1], [renamed(f, order, x) for x in args_of(g, ev)]) for ev in bad[:2]], key="only:%s:%s" % (who, name))
        q = g.search(ret_of(g, "Ok"), block=good)
        c.ob("T06.term", f, q is None, "succeeds with nothing said: %s" % fmt_path(q or []), key="said:%s:%s" % (who, name))
        evs = g.events(good); n += len(evs)
        q = None
        for ev in evs:
            q = q or g.search(good, start=is_ev(ev))
        c.ob("T06.term", f, q is None, "says it twice: %s" % fmt_path(q or []), key="once:%s:%s" % (who, name))
        c.done(g)
    c.floor("T06.term", "places where something is said", n, 6)

TEMPID = ["HashSet::get(%s.tempids.inner, TempId::External{0: name})", "TempId::External{0: name}"]

@rule("T06")
def t06_entity(c):
    c.rule("T06.entity", "a name stands for the temporary entity of that name, the same for the same name; describing an entity gives a builder about that entity and no other, and finishing it gives both back")
    for f, who, name in fns(c, "T06.entity", 2, "named_tempid"):
        g = bg(c, f)
        got = {renamed(f, ["self", "name"], x) for x in answers(g)}
        ok = {x % s for x in TEMPID for s in ("self", "self.builder") if "%s" in x} | {TEMPID[1]}
        c.ob("T06.entity", f, bool(got) and got <= ok and TEMPID[1] in got, "gives %s" % sorted(got - ok), key="named:" + who)
        c.done(g)
    for f, who, name in fns(c, "T06.entity", 4, "describe", "describe_tempid"):
        g = bg(c, f)
        order = ["self", "entity"] if name == "describe" else ["self", "name"]
        got = {renamed(f, order, x) for x in answers(g)}
        ok = lambda s: False
        if name == "describe": good = bool(got) and all(x == "EntityBuilder::EntityBuilder{builder: self, entity: entity}" for x in got)
        else:
            good = bool(got)
            for x in got:
                m = re.fullmatch(r"EntityBuilder::EntityBuilder\{builder: self, entity: (.*)\}", x)
                parts = set()
                if m:
                    s = m.group(1)
                    parts = set(s[1:-1].split("|")) if s.startswith("{") else {s}
                if not parts or not all(re.fullmatch(r"(EntityPlace::TempId\{0: )?(HashSet::get\(self(\.builder)?\.tempids\.inner, TempId::External\{0: name\}\)|TempId::External\{0: name\})\}?", y.strip()) for y in parts): good = False
        c.ob("T06.entity", f, good, "gives %s" % sorted(got), key="%s:%s" % (name, who))
        c.done(g)
    one(c, "T06.entity", "finish", "EntityBuilder", ["self"], ["tuple{0: self.builder, 1: self.entity}"])
    one(c, "T06.entity", "build", "TermBuilder", ["self"], ["tuple{0: self.terms, 1: self.tempids}"])
    one(c, "T06.entity", "is_empty", "TermBuilder", ["self"], ["Vec::is_empty(self.terms)"])
    one(c, "T06.entity", "lookup_ref", "TermBuilder", ["a", "v"], ["LookupRef::LookupRef{a: a, v: v}"])
    one(c, "T06.entity", "tx_function", "TermBuilder", ["op"], ["TxFunction::TxFunction{op: PlainSymbol::PlainSymbol{0: op}}"])
    new = "TermBuilder::TermBuilder{tempids: InternSet::InternSet{inner: HashSet::new()}, terms: Vec::new()}"
    one(c, "T06.entity", "new", "TermBuilder", [], [new])
    one(c, "T06.entity", "new", "InProgressBuilder", ["in_progress"], ["InProgressBuilder::InProgressBuilder{in_progress: in_progress, builder: %s}" % new])

def one(c, rl, name, who, order, want):
    fs = [x for x in fns(c, rl, 1, name) if x[1] == who]
    c.floor(rl, who + "::" + name, len(fs), 1)
    for f, w, n in fs:
        g = bg(c, f)
        got = [renamed(f, order, x) for x in answers(g)]
        if order == ["self"]: bent(c, rl, f, g, "as they are:%s:%s" % (name, who))
        c.ob(rl, f, sorted(got) == sorted(want), "gives %s instead of %s" % (got, want), key="%s:%s" % (name, who))
        c.done(g)

@rule("T06")
def t06_transact(c):
    c.rule("T06.transact", "transacting a builder transacts all of its terms in the transaction it was opened in, once, and gives that transaction back whatever happened; committing one also commits that transaction, only once the terms have been transacted, and says so only once it is committed")
    TE = r".*InProgress(::<.*?>)?::transact_entities"
    for f, who, name in fns(c, "T06.transact", 4, "transact", "commit") + [(f, "InProgress", f.name) for f in c.P.fns if mine(f) and f.name == "transact_builder"]:
        g = bg(c, f)
        pre = {"EntityBuilder": r"self\.builder", "InProgressBuilder": "self"}.get(who)
        ip = "self" if pre is None else pre + r"\.in_progress"
        terms = r"builder\.terms" if pre is None else pre + r"\.builder\.terms"
        def te(ev):
            if ev.kind != "call" or not re.search(TE, strip_generics(ev.callee)): return None
            a = [renamed(f, ["self", "builder"], x) for x in args_of(g, ev)]
            return re.fullmatch(ip, a[0]) is not None and re.fullmatch(terms, a[1]) is not None
        evs = g.events(lambda ev: te(ev) is not None)
        c.floor("T06.transact", "%s::%s: transactions" % (who, name), len(evs), 1)
        bad = [args_of(g, ev) for ev in evs if not te(ev)]
        c.ob("T06.transact", f, not bad, "transacts %s" % bad, key="what:%s:%s" % (who, name))
        q = None
        for ev in evs: q = q or g.search(lambda x: te(x) is not None, start=is_ev(ev))
        c.ob("T06.transact", f, q is None, "transacts twice: %s" % fmt_path(q or []), key="once:%s:%s" % (who, name))
        got = [renamed(f, ["self", "builder"], x) for x in answers(g)]
        want = r"InProgress::transact_entities\(%s, %s\)" % (ip, terms)
        if name == "transact": want = r"tuple\{0: %s, 1: %s\}" % (ip, want)
        c.ob("T06.transact", f, bool(got) and all(re.fullmatch(want, x) for x in got), "gives %s" % got, key="gives:%s:%s" % (who, name))
        bent(c, "T06.transact", f, g, "all:%s:%s" % (who, name))
        other = lambda ev: ev.kind == "call" and re.search(r"InProgress::(?!transact_entities)\w+$", strip_generics(ev.callee)) is not None
        com = lambda ev: other(ev) and ev.callee.endswith("::commit")
        if name != "commit":
            bad = [ev.callee for ev in g.events(lambda ev: other(ev) and not ev.callee.endswith("::transact_builder"))]
            c.ob("T06.transact", f, not bad, "also calls %s" % bad, key="only:%s:%s" % (who, name))
        else:
            cs = g.events(com)
            c.floor("T06.transact", "%s: commits" % who, len(cs), 1)
            bad = [args_of(g, ev) for ev in cs if not re.fullmatch(ip, args_of(g, ev)[0])]
            c.ob("T06.transact", f, not bad, "commits %s" % bad, key="which:" + who)
            q = g.search(com, block=succeeded(TE))
            c.ob("T06.transact", f, q is None, "commits what was not transacted: %s" % fmt_path(q or []), key="after:" + who)
            q = g.search(ret_of(g, "Ok"), block=any_of(succeeded(r".*InProgress(::<.*?>)?::commit"), failed(TE)))
            c.ob("T06.transact", f, q is None, "succeeds without committing: %s" % fmt_path(q or []), key="committed:" + who)
        c.done(g)

FROM = r"<edn::entities::(?P<t>EntidOrIdent|ValuePlace|EntityPlace|AttributePlace)(<.*>)? as core::convert::From<(?P<s>.*)>>::from"
PLACES = {("EntidOrIdent", "i64"): "EntidOrIdent::Entid", ("EntidOrIdent", "Keyword"): "EntidOrIdent::Ident",
          ("ValuePlace", "EntidOrIdent"): "ValuePlace::Entid", ("ValuePlace", "TempId"): "ValuePlace::TempId", ("ValuePlace", "LookupRef"): "ValuePlace::LookupRef", ("ValuePlace", "TxFunction"): "ValuePlace::TxFunction",
          ("ValuePlace", "Vec"): "ValuePlace::Vector", ("ValuePlace", "V"): "ValuePlace::Atom", ("ValuePlace", "MapNotation"): "ValuePlace::MapNotation", ("ValuePlace", "BTreeMap"): "ValuePlace::MapNotation",
          ("EntityPlace", "E"): "EntityPlace::Entid", ("EntityPlace", "TempId"): "EntityPlace::TempId", ("EntityPlace", "LookupRef"): "EntityPlace::LookupRef", ("EntityPlace", "TxFunction"): "EntityPlace::TxFunction",
          ("AttributePlace", "A"): "AttributePlace::Entid"}

@rule("T06")
def t06_place(c):
    c.rule("T06.place", "an entity, attribute or value given as an identifier, a keyword, a temporary entity, a lookup reference, a function or a plain value stands in its place as just that")
    seen = set()
    for f in sorted(c.P.fns, key=lambda x: x.path):
        m = re.fullmatch(FROM, f.path) if f.crate == "edn" and f.body is not None else None
        if not m: continue
        s = re.sub(r"^(.*::)?(Arc|Rc|ValueRc|Box)<(.*)>$", r"\3", m.group("s"))
        s = strip_generics(s).split("::")[-1].split("<")[0].rstrip(">")
        want = PLACES.get((m.group("t"), s))
        if want is None: continue
        seen.add((m.group("t"), s)); c.see(f)
        g = c.graph(f, None, small=0, keep=True, same_crate=True); g.conv = True
        got = [renamed(f, ["v"], x) for x in answers(g)]
        c.ob("T06.place", f, got == ["%s{0: v}" % want], "a %s gives %s instead of %s" % (s, got, want), key="%s:%s" % (m.group("t"), m.group("s").split("::")[-1]))
        c.done(g)
    c.floor("T06.place", "kinds of place", len(seen), 13)
