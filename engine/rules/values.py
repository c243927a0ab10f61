"""Values: what goes in as one kind comes out as that kind, and as no other."""
import re
from ctx import *
from registry import rule
from rules.cache import answers
from rules.preds import is_text
from rules.builder import renamed

CT = "core_traits"
KINDS = ("Boolean", "Double", "Instant", "Keyword", "Long", "Ref", "String", "Uuid")
OUT = {"known_entid": "Ref", "entid": "Ref", "kw": "Keyword", "boolean": "Boolean", "long": "Long", "double": "Double", "instant": "Instant", "timestamp": "Instant",
       "string": "String", "c_string": "String", "kw_c_string": "Keyword", "uuid": "Uuid", "uuid_string": "Uuid", "uuid_c_string": "Uuid"}
GETS = {"known_entid": r"KnownEntid::KnownEntid\{0: %s\}", "double": r"(%s(\.0)?|OrderedFloat::into_inner\(%s\))", "timestamp": r"DateTime::timestamp\(%s\)",
        "c_string": r"CString::into_raw\(CString::new\(%s\)\)", "kw_c_string": r"CString::into_raw\(CString::new\(%s\)\)",
        "uuid_string": r"[\w:]*to_hyphenated\(%s\)", "uuid_c_string": r"CString::into_raw\(CString::new\([\w:]*to_hyphenated\(%s\)\)\)"}
NONE = r"Option::None\{\}"

def of(c, rl, who, pat, least):
    fs = [(f, m) for f in c.P.fns if f.crate == CT and f.body is not None and f.kind != "closure" and "test" not in f.path for m in [re.fullmatch(r"core_traits::%s::%s" % (who, pat), f.path)] if m]
    c.floor(rl, who + "::" + pat, len(fs), least)
    c.see(*[f for f, m in fs])
    return sorted(fs, key=lambda x: x[0].path)

def vg(c, f):
    g = c.graph(f, None, small=0, keep=True, same_crate=False, extra=lambda x: x.crate == CT and len(x.body.blocks) < 60 and x.h != f.h)
    g.conv = True
    return g

def var_of(adt, subject, v):
    """Edges that cannot be taken when `subject` is of variant v, or was already taken out as that."""
    own = choice(subject, adt, v)
    def p(ev):
        if own(ev): return True
        if ev.kind != "edge" or ev.tag is None or ev.tag[1] is None or not strip_generics(str(ev.tag[1])).endswith(adt): return False
        ts = [t for t in ev.g.T.operand(ev.frame, ev.data["o"]) if t[0] == "discr" and rend(t[1]) != "Option::None{}"]
        if not ts or not all(re.fullmatch(subject, rend(t[1])) for t in ts): return False
        tg = str(ev.tag[2])
        return v in tg[1:].split(",") if tg.startswith("!") else tg != v
    return p

def scalar(v):
    """A binding of one value of kind v."""
    return any_of(var_of("Binding", "self", "Scalar"), var_of("TypedValue", r"self\.0", v))

def gives(g, f, given):
    """What a function gives; nothing, for a path that gives up."""
    got = set()
    for x in answers(g, given):
        x = renamed(f, ["self"], x)
        got.add("Option::None{}" if "(Option::None{}" in x else x)
    return sorted(got) if got or g.search(ret_of(g), block=given) is None else ["Option::None{}"]

@rule("E01")
def e01_out(c):
    c.rule("E01.out", "a value is given as what it is when asked for as its own kind, and as nothing when asked for as any other")
    for who in ("TypedValue", "Binding"):
        for f, m in of(c, "E01.out", who, r"(into|as)_(?P<k>%s)" % "|".join(sorted(OUT, key=len, reverse=True)), 14):
            k = m.group("k"); kind = OUT[k]
            place = r"self\.0" if who == "TypedValue" else r"self\.0\.0"
            g = vg(c, f)
            for v in KINDS:
                given = var_of("TypedValue", "self", v) if who == "TypedValue" else scalar(v)
                got = gives(g, f, given)
                want = GETS.get(k, "%s").replace("%s", place) if v == kind else NONE
                c.ob("E01.out", f, bool(got) and all(re.fullmatch(want, x) for x in got), "a %s gives %s" % (v, got), key="%s:%s:%s" % (who, m.group(0).split("::")[-1], v))
            if who == "Binding":
                for b in ("Vec", "Map"):
                    got = gives(g, f, var_of("Binding", "self", b))
                    c.ob("E01.out", f, bool(got) and all(re.fullmatch(NONE, x) for x in got), "a %s gives %s" % (b, got), key="%s:%s:%s" % (who, m.group(0).split("::")[-1], b))
            c.done(g)
    for f, m in of(c, "E01.out", "Binding", r"(into|as)_(?P<k>scalar|vec|map)", 6):
        g = vg(c, f)
        for b in ("Scalar", "Vec", "Map"):
            got = gives(g, f, var_of("Binding", "self", b))
            want = r"self\.0" if b.lower() == m.group("k") else NONE
            c.ob("E01.out", f, bool(got) and all(re.fullmatch(want, x) for x in got), "a %s gives %s" % (b, got), key="Binding:%s:%s" % (m.group(0).split("::")[-1], b))
        c.done(g)

WHOLE = r"\(?(\(\(%s Div 1000\) Mul 1000\)|\(%s Sub \(%s Rem 1000\)\))\)?" % ((r"Timelike::nanosecond\(v\)",) * 3)
TIME = r"TypedValue::Instant\{0: (\{)?Timelike::with_nanosecond\(v, %s\)(\|v\})?\}" % WHOLE
IN = {"KnownEntid": r"TypedValue::Ref\{0: v\.0\}", "bool": r"TypedValue::Boolean\{0: v\}", "DateTime": TIME, "Uuid": r"TypedValue::Uuid\{0: v\}", "str": r"TypedValue::String\{0: v\}",
      "String": r"TypedValue::String\{0: (v(\.0)?|(Rc|Arc)::try_unwrap\(v\)|\{(v(\.0)?\||(Rc|Arc)::try_unwrap\(v\)\|?|v(\.0)?)+\})\}", "Keyword": r"TypedValue::Keyword\{0: (v|(Rc|Arc)::try_unwrap\(v\))\}",
      "u32": r"TypedValue::Long\{0: v\}", "i32": r"TypedValue::Long\{0: v\}", "f64": r"TypedValue::Double\{0: OrderedFloat::OrderedFloat\{0: v\}\}"}

@rule("E01")
def e01_in(c):
    c.rule("E01.in", "a value made of a plain one is of that kind and has exactly what it was made of; an instant is kept to the microsecond")
    seen = 0
    for f in sorted(c.P.fns, key=lambda x: x.path):
        if f.crate != CT or f.body is None: continue
        m = re.fullmatch(r"<core_traits::(?P<t>TypedValue|Binding) as core::convert::From<(?P<s>.*)>>::from", f.path)
        if not m: continue
        s = re.sub(r"^([\w:]*)(Arc|Rc|Box)<(.*)>$", r"\3", m.group("s"))
        s = re.sub(r"^&('\w+ )?", "", re.sub(r"<.*", "", s)).split("::")[-1]
        want = IN.get(s) if m.group("t") == "TypedValue" else {"T": r"Binding::Scalar\{0: v\}", "StructuredMap": r"Binding::Map\{0: v\}", "Vec": r"Binding::Vec\{0: v\}"}.get(s)
        if want is None: continue
        seen += 1; c.see(f)
        g = vg(c, f)
        got = [renamed(f, ["v"], x) for x in answers(g)]
        c.ob("E01.in", f, bool(got) and all(re.fullmatch(want, x) for x in got), "a %s gives %s" % (s, got), key="%s:%s" % (m.group("t"), m.group("s").split("::")[-1] if "<" not in m.group("s") else m.group("s")))
        c.done(g)
    c.floor("E01.in", "ways to make a value", seen, 18)
    known = 0
    for f in sorted(c.P.fns, key=lambda x: x.path):
        m = re.search(r"Into<edn::entities::(EntityPlace|AttributePlace|ValuePlace)(<.*>)?>( for core_traits::KnownEntid)?>+::into$", f.path)
        if f.crate != CT or f.body is None or not m: continue
        g = vg(c, f)
        got = [renamed(f, ["self"], x) for x in answers(g)]
        c.see(f); known += 1
        c.ob("E01.in", f, got == ["%s::Entid{0: EntidOrIdent::Entid{0: self.0}}" % m.group(1)], "gives %s" % got, key="KnownEntid:" + m.group(1))
        c.done(g)
    c.floor("E01.in", "places for a known entity", known, 3)

@rule("E01")
def e01_type(c):
    c.rule("E01.type", "a value's type is that of its kind; each type has one name, is found by that name and by no other; a value is of a type exactly when that is its type")
    for f, m in of(c, "E01.type", "TypedValue", "value_type", 1) + of(c, "E01.type", "Binding", "value_type", 1):
        g = vg(c, f); who = f.path.split("::")[1]
        for v in KINDS:
            got = answers(g, choice("self", "TypedValue", v) if who == "TypedValue" else any_of(choice("self", "Binding", "Scalar"), choice(r"self\.0", "TypedValue", v)))
            c.ob("E01.type", f, got == ["ValueType::%s{}" % v], "a %s is of type %s" % (v, got), key="of:%s:%s" % (who, v))
        if who == "Binding":
            for b in ("Vec", "Map"):
                got = answers(g, choice("self", "Binding", b))
                c.ob("E01.type", f, got == ["Option::None{}"], "a %s is of type %s" % (b, got), key="of:%s:%s" % (who, b))
        c.done(g)
    for f, m in of(c, "E01.type", "ValueType", "into_(?P<n>keyword|typed_value)", 2):
        g = vg(c, f)
        for v in KINDS:
            got = answers(g, choice("self", "ValueType", v))
            kw = "Keyword::namespaced('db.type', '%s')" % v.lower()
            want = kw if m.group("n") == "keyword" else "TypedValue::Keyword{0: %s}" % kw
            c.ob("E01.type", f, got == [want], "%s is named %s" % (v, got), key="name:%s:%s" % (m.group("n"), v))
        c.done(g)
    names = [v.lower() for v in KINDS]
    for f, m in of(c, "E01.type", "ValueType", "from_keyword", 1):
        g = vg(c, f); k = f.body.name(1)
        nm = r"(?:\w+::)*name\(%s(?:\.0)*\)" % k
        ns = r"(?:Option::Some\{0: )?(?:\w+::)*namespace\(%s(?:\.0)*\)\}?" % k
        g.T.opaque = lambda n: re.search(r"::(name|namespace)$", n) is not None
        for x in names + ["other"]:
            got = answers(g, is_text(nm, x, names), contradicts(r"(?:\w+::)*eq\(%s, (?:Option::Some\{0: )?'db.type'\}?\)$" % ns, "1"), contradicts(r"(?:\w+::)*ne\(%s, (?:Option::Some\{0: )?'db.type'\}?\)$" % ns, "0"), opt(ns, True))
            want = ["ValueType::%s{}" % x.capitalize()] if x != "other" else ["Option::None{}"]
            c.ob("E01.type", f, got == want, ":db.type/%s gives %s" % (x, got), key="by name:" + x)
        got = answers(g, contradicts(r"(?:\w+::)*eq\(%s, (?:Option::Some\{0: )?'db.type'\}?\)$" % ns, "0"), contradicts(r"(?:\w+::)*ne\(%s, (?:Option::Some\{0: )?'db.type'\}?\)$" % ns, "1"))
        c.ob("E01.type", f, got == ["Option::None{}"], "a keyword of another namespace gives %s" % got, key="by name:namespace")
        c.done(g)
    for who in ("TypedValue", "Binding"):
        for f, m in of(c, "E01.type", who, "matches_type", 1):
            g = c.graph(f, None, small=0, keep=True, same_crate=False); g.conv = True
            g.T.opaque = lambda n: n.endswith("::value_type")
            got = [re.sub(r"discr\(((?:[^()]|\([^()]*\))*)\)", r"\1", renamed(f, ["self", "t"], x)) for x in answers(g)]
            a, b = who + "::value_type(self)", r"(Option::Some\{0: )?t\}?"
            want = r"(\((?:%(a)s) Eq (?:%(b)s)\)|\((?:%(b)s) Eq (?:%(a)s)\)|(?:\w+::)*eq\((?:%(a)s), (?:%(b)s)\)|(?:\w+::)*eq\((?:%(b)s), (?:%(a)s)\))" % {"a": re.escape(a), "b": b}
            if who == "Binding" and len(got) == 2 and "0" in got:
                got = [re.sub(r"discr\(((?:[^()]|\([^()]*\))*)\)", r"\1", renamed(f, ["self", "t"], x)) for x in answers(g, opt(r"Binding::value_type\(%s\)" % f.body.name(1), True))]
            c.ob("E01.type", f, len(got) == 1 and re.fullmatch(want, got[0]) is not None, "gives %s" % got, key="matches:" + who)
            c.done(g)
