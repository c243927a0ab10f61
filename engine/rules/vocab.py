"""Vocabularies: when they are installed, upgraded or refused, and what is written for them."""
import re
from ctx import *
from registry import rule
from rules.cache import within, answers, each, among
from rules.idents import loops, evalint
from rules.schema import static

VOC = r"mentat::vocabulary::"
WRITE = r"mentat_transaction::InProgress::transact_\w+|.*InProgressBuilder::transact"
DESC = r"mentat::vocabulary::Definition::description\w*"
CHECK = "vocabulary::VocabularyCheck"
SAME = re.compile(r"core_traits::(?:attribute::)?Attribute as (core|std)::cmp::PartialEq")
ITEMD = r"(?:\w+::)?\w+\(\)\[\](?:\.1)?(?:\.\w+)*"

def fns(c): return [f for f in c.P.fns if f.crate == "mentat" and f.kind != "closure" and f.body is not None]

def indirect(name):
    """Calls through a function pointer kept in the field `name`."""
    def p(ev):
        if ev.kind != "call": return False
        f = ev.data["f"]
        if isinstance(f, dict) and "k" in f: return False
        try: r = rset(ev.g.T.operand(ev.frame, f))
        except Exception: return False
        return re.search(r"\.%s$" % name, r) is not None
    return p

def maybe(variant):
    """Edges on which a vocabulary check may be `variant`."""
    con = contradicts(r"", variant)
    return lambda ev: ev.kind == "edge" and ev.tag is not None and ev.tag[1] is not None and strip_generics(str(ev.tag[1])).endswith(CHECK) and not con(ev)

def of(subject, variant): return choice("^(%s)$" % subject, CHECK, variant)

def against_rel(l, r, rel):
    """Edges that cannot be taken when `l rel r` (rel: Lt, Eq or Gt)."""
    ok = {"Lt": {"Lt", "Le", "Ne"}, "Eq": {"Eq", "Le", "Ge"}, "Gt": {"Gt", "Ge", "Ne"}}[rel]
    def p(ev):
        o = relation(ev, "^(%s)$" % l, "^(%s)$" % r)
        return o is not None and o not in ok
    cmp_ = r"::(?:cmp|partial_cmp)\((%s), (%s)\)(\.0)?$"
    return any_of(p, contradicts(cmp_ % (l, r), {"Lt": "Less", "Eq": "Equal", "Gt": "Greater"}[rel]),
                  contradicts(cmp_ % (r, l), {"Lt": "Greater", "Eq": "Equal", "Gt": "Less"}[rel]))

def checks(c):
    """Functions that compare a definition with what is stored."""
    return [f for f in fns(c) if "VocabularyCheck" in f.body.ty(0) and not any("VocabularyCheck" in f.body.ty(i) for i in range(1, f.body.argc + 1)) and "Result" in f.body.ty(0)]

@rule("V01")
def v01_check(c):
    c.rule("V01.check", "the stored version against the wanted one decides: absent, older, newer, or the same with each attribute found the same, found different (refused) or missing")
    fs = checks(c)
    if not c.floor("V01.check", "functions that check a vocabulary", len(fs), 1): return
    for f in fs:
        c.see(f)
        g = c.graph(f, None, small=20, keep=True)
        g.T.opaque = lambda n: n.endswith("read_vocabulary_named") or n.endswith("::get_entid") or SAME.search(n) is not None
        d = next(f.body.name(i) for i in range(1, f.body.argc + 1) if "Definition" in f.body.ty(i))
        S = r"(?:\w+::)*read_vocabulary_named\(self, %s\.name\)" % d
        sv, dv = S + r"\.version", d + r"\.version"
        here = opt("(%s)" % S, True)
        cases = {"absent": ([opt("(%s)" % S, False)], r"VocabularyCheck::NotPresent\{\}"),
                 "older": ([here, against_rel(sv, dv, "Lt")], r"VocabularyCheck::PresentButNeedsUpdate\{older_version: %s\}" % S),
                 "newer": ([here, against_rel(sv, dv, "Gt")], r"VocabularyCheck::PresentButTooNew\{newer_version: %s\}" % S)}
        for k, (given, want) in cases.items():
            got = answers(g, *given)
            c.ob("V01.check", f, len(got) == 1 and re.fullmatch(want, got[0]) is not None, "a vocabulary that is %s is answered with %s" % (k, [x[:200] for x in got]), key="case:" + k)
        same = any_of(here, against_rel(sv, dv, "Eq"))
        got = answers(g, here, against_rel(sv, dv, "Eq"))
        kinds = {re.match(r"[\w:]+", x).group(0) for x in got if re.match(r"[\w:]+", x)}
        c.ob("V01.check", f, {"VocabularyCheck::Present", "VocabularyCheck::PresentButMissingAttributes"} <= kinds and
             kinds <= {"VocabularyCheck::Present", "VocabularyCheck::PresentButMissingAttributes", "Result::Err"}, "the same version is answered with %s" % sorted(kinds), key="case:same")
        A = r"%s\.attributes\[\]" % d
        ls = loops(g, A)
        c.floor("V01.check", "iterations over a definition's attributes", len(ls), 1)
        E = r"(?:\w+::)*get_entid\(self, %s\.0\)" % A
        ent = r"(?:Option::map\()?%s(?:, [\w:<>{}#]+\))?(?:\.0)?" % E
        # looked up by the entity among the stored vocabulary's attributes
        look = r"(?:Iterator::find\(%s\.attributes, .*\)|.*::get\(%s\.attributes, .*\)|%s\.attributes\[\])" % (S, S, S)
        found = look + r"(?:\.0|\.1)*"
        push = lambda ev: ev.kind == "call" and re.search(r"::(push|insert|push_back)$", ev.callee) is not None and re.fullmatch(A, args_of(g, ev)[-1]) is not None
        ok = ret_of(g, "Ok")
        eq = r"(?:%s)\.1" % look
        is_same = lambda ev, want: relation(ev, "^%s$" % eq, r"^%s\.1$" % A) == want
        nameless = opt("^(%s)$" % ent, False)
        named = opt("^(%s)$" % ent, True)
        unfound = opt("^(%s)$" % found, False)
        isfound = opt("^(%s)$" % found, True)
        for some, none in ls.values():
            nxt = any_of(some, none, ok)
            for label, given in (("unknown to the store", [nameless]), ("not of the stored vocabulary", [named, unfound])):
                q = g.search(nxt, start=some, block=push, given=any_of(same, *given))
                c.ob("V01.check", f, q is None, "an attribute %s isn't counted as missing: %s" % (label, fmt_path(q or [])), key="missing:" + label)
            q = g.search(nxt, start=some, given=any_of(same, named, isfound, lambda ev: is_same(ev, "Eq")))
            c.ob("V01.check", f, q is None, "an attribute defined differently is let through: %s" % fmt_path(q or []), key="differs")
            q = g.search(push, start=some, block=any_of(some, none), given=any_of(same, named, isfound))
            c.ob("V01.check", f, q is None, "an attribute that's there is counted as missing: %s" % fmt_path(q or []), key="counted")
            q = g.search(none, start=some, given=any_of(same, named, isfound, lambda ev: is_same(ev, "Ne")))
            c.ob("V01.check", f, q is not None, "no attribute is ever found the same", key="same")
            q = g.search(ok, block=none, given=same)
            c.ob("V01.check", f, q is None, "not every attribute is looked at: %s" % fmt_path(q or []), key="all")
        # whether anything was missing decides between the two
        coll = sorted({args_of(g, ev)[0] for ev in g.events(push)})
        c.ob("V01.check", f, len(coll) == 1, "missing attributes go to %s" % coll, key="kept")
        if len(coll) == 1:
            m = re.escape(coll[0])
            for n, want in (("1", r"VocabularyCheck::Present\{\}"), ("0", r"VocabularyCheck::PresentButMissingAttributes\{attributes: (%s|\[?%s\]?)\}" % (m, A))):
                got = [x for x in answers(g, here, against_rel(sv, dv, "Eq"), contradicts(r"(^|::)is_empty\(%s\)" % m, n)) if not x.startswith("Result::Err")]
                c.ob("V01.check", f, len(got) == 1 and re.fullmatch(want, got[0]) is not None, "when %s is missing the answer is %s" % ("nothing" if n == "1" else "something", [x[:160] for x in got]), key="answer:" + n)
        c.done(g)
    # the comparison of two attributes leaves nothing out
    ad = next((a for p, a in c.P.adts.items() if re.fullmatch(r"core_traits::(attribute::)?Attribute", p)), None)
    es = [f for f in c.P.fns if SAME.search(f.path) and f.name == "eq" and f.body is not None]
    if c.floor("V01.check", "the comparison of attributes", min(len(es), 1 if ad else 0), 1):
        f = es[0]
        c.see(f)
        g = c.graph(f, None, small=4, keep=True)
        a, b = f.body.name(1), f.body.name(2)
        for n in [x[0] for x in ad["vars"][0]["f"]]:
            yes = [ev for ev in g.events(lambda ev: ev.kind in ("stmt", "call"))
                   if (ev.kind == "call" and re.search(r"::(eq|ne)$", ev.callee) and set(args_of(g, ev)) == {a + "." + n, b + "." + n})
                   or (ev.kind == "stmt" and ev.data[1].get("r") == "bin" and ev.data[1]["op"] in ("Eq", "Ne") and {re.sub(r"^discr\((.*)\)$", r"\1", rset(g.T.operand(ev.frame, ev.data[1][x]))) for x in "ab"} == {a + "." + n, b + "." + n})]
            c.ob("V01.check", f, bool(yes), "attributes are the same whatever their %s" % n, key="eq:" + n)
        c.done(g)

@rule("V01")
def v01_act(c):
    c.rule("V01.act", "what a check finds decides what is done: present does nothing, absent installs everything, missing attributes are added, an older version is upgraded, and a newer one is an error with nothing written")
    c.rule("V01.all", "when several are wanted, all are checked before anything is written, then each that needs it is dealt with, between the source's two hooks")
    ck = {f.name for f in checks(c)}
    fs = [f for f in fns(c) if any(k and callee_name(k).split("::")[-1] in ck for _, _, k in f.body.calls()) and "VocabularyOutcome" in f.body.ty(0)]
    c.floor("V01.act", "functions that act on a check", len(fs), 2)
    write = call_to(WRITE)
    for f in fs:
        c.see(f)
        g = c.graph(f, fnpred(WRITE), small=25, keep=True)
        g.T.opaque = lambda n: n.split("::")[-1] in ck or re.search(r"Definition::description\w*$", n) is not None
        many = any("VocabularySource" in f.body.ty(i) for i in range(1, f.body.argc + 1))
        CK = r"(?:\w+::)*(?:%s)\(self, (?P<d>%s)\)"
        d = r"%s\.definitions\[\]" % next(f.body.name(i) for i in range(1, f.body.argc + 1) if "VocabularySource" in f.body.ty(i)) if many else next(f.body.name(i) for i in range(1, f.body.argc + 1) if "Definition" in f.body.ty(i))
        chk = r"(?:\w+::)*(?:%s)\(self, %s\)" % ("|".join(ck), d)
        item = r"(?:\w+::)*\w+\(\)\[\](?:\.\w+)*?"
        D = r"(%s|%s)" % (d, item)
        C = r"(?:%s|%s)" % (chk, item)
        ok = ret_of(g, "Ok")
        nxt = call_to(r"core::iter::traits::iterator::Iterator::next")
        DIFF = r"Definition::description_for_attributes\((?P<d>DD), (?P=d)\.attributes, self, \[.*\]\)|Definition::description_diff\(DD, self, %s\.older_version\)" % C
        classes = {"NotPresent": r"(Definition::description_for_attributes\((?P<d>DD), (?P=d)\.attributes, self, Option::None\{\}\)|Definition::description\(DD, self\))\.0",
                   "PresentButMissingAttributes": r"Definition::description_for_attributes\(DD, (?:&?%s\.attributes), self, Option::None\{\}\)\.0" % C,
                   "PresentButNeedsUpdate": "(%s)\\.0" % DIFF}
        def of_class(v):
            pats = [re.compile(classes[v].replace("DD", x)) for x in (d, item)]
            return lambda ev: write(ev) and any(p.fullmatch(args_of(g, ev)[1]) for p in pats)
        what = {}
        for ev in g.events(write):
            cl = [v for v in classes if of_class(v)(ev)]
            # an older version's attributes and a definition's own may be told apart only by the call
            c.ob("V01.act", ev, len(cl) == 1, "writes %s" % args_of(g, ev)[1][:300], key="%s:writes:%s" % (f.name, ev.frame.fn.name))
            for v in cl: what.setdefault(v, []).append(ev)
        for v in classes:
            c.floor("V01.act", "%s: writes for %s" % (f.name, v), len(what.get(v, [])), 1)
        # nothing for what's there, an error for what's newer
        for v in ("Present", "PresentButTooNew"):
            st = maybe(v)
            c.floor("V01.act", "%s: tests for %s" % (f.name, v), len(g.events(st)), 1)
            own = lambda ev, v=v: False
            q = g.search(write, start=st, block=nxt, given=None if many else of(chk, v))
            c.ob("V01.act", f, q is None, "a vocabulary that's %s is written: %s" % (v, fmt_path(q or [])), key="%s:nothing:%s" % (f.name, v))
        q = g.search(any_of(ok, nxt), start=maybe("PresentButTooNew"), given=None if many else of(chk, "PresentButTooNew"))
        c.ob("V01.act", f, q is None, "a newer vocabulary isn't refused: %s" % fmt_path(q or []), key="%s:newer" % f.name)
        q = g.search(any_of(ok, write, lambda ev: many and nxt(ev)), start=failed(r".*::(?:%s)" % "|".join(ck)))
        c.ob("V01.act", f, q is None, "a failed check goes unnoticed: %s" % fmt_path(q or []), key="%s:check" % f.name)
        q = g.search(ok, start=failed(WRITE))
        c.ob("V01.act", f, q is None, "a failed write goes unnoticed: %s" % fmt_path(q or []), key="%s:failed" % f.name)
        if not many:
            given = {v: of(chk, v) for v in list(classes) + ["Present"]}
            for v in classes:
                q = g.search(ok, block=of_class(v), given=given[v])
                c.ob("V01.act", f, q is None, "nothing is written for %s: %s" % (v, fmt_path(q or [])), key="%s:does:%s" % (f.name, v))
                q = g.search(lambda ev: write(ev) and not of_class(v)(ev), given=given[v])
                c.ob("V01.act", f, q is None, "something else is written for %s: %s" % (v, fmt_path(q or [])), key="%s:only:%s" % (f.name, v))
            for v, o in (("NotPresent", "Installed"), ("Present", "Existed"), ("PresentButNeedsUpdate", "Upgraded"), ("PresentButMissingAttributes", "InstalledMissingAttributes")):
                got = answers(g, given[v])
                c.ob("V01.act", f, got == ["VocabularyOutcome::%s{}" % o], "%s is answered with %s" % (v, got), key="%s:says:%s" % (f.name, v))
            c.done(g)
            continue
        # ---- several
        src = next(f.body.name(i) for i in range(1, f.body.argc + 1) if "VocabularySource" in f.body.ty(i))
        why = each(g, r"%s\.definitions" % src, call_to(r".*::(?:%s)" % "|".join(ck)), any_of(write, ok))
        c.ob("V01.all", f, why is None, "not every definition is checked first: %s" % why, key="checked")
        pre, post = call_to(r".*VocabularySource::pre"), call_to(r".*VocabularySource::post")
        for n, p in (("pre", pre), ("post", post)): c.floor("V01.all", "calls of the source's " + n, len(g.events(p)), 1)
        q = g.search(write, block=pre)
        c.ob("V01.all", f, q is None, "something is written before the first hook: %s" % fmt_path(q or []), key="pre")
        q = g.search(any_of(ok, write), start=failed(r".*VocabularySource::pre"))
        c.ob("V01.all", f, q is None, "a failed first hook goes unnoticed: %s" % fmt_path(q or []), key="pre:failed")
        q = g.search(ok, start=pre, block=post)
        c.ob("V01.all", f, q is None, "the second hook isn't run: %s" % fmt_path(q or []), key="post")
        q = g.search(ok, start=failed(r".*VocabularySource::post"))
        c.ob("V01.all", f, q is None, "a failed second hook goes unnoticed: %s" % fmt_path(q or []), key="post:failed")
        q = g.search(write, start=post)
        c.ob("V01.all", f, q is None, "something is written after the second hook: %s" % fmt_path(q or []), key="post:last")
        kept = lambda ev: ev.kind == "call" and re.search(r"::(insert|push)$", ev.callee) is not None and re.search(r"tuple\{0: %s, 1: %s\}" % (d, chk), args_of(g, ev)[-1]) is not None
        dl = loops(g, d)
        for v in classes:
            for some, none in dl.values():
                q = g.search(any_of(some, none, ok), start=some, block=kept, given=of(chk, v))
                c.ob("V01.all", f, q is None, "%s isn't taken up: %s" % (v, fmt_path(q or [])), key="taken:" + v)
        for some, none in dl.values():
            q = g.search(kept, start=some, block=none, given=of(chk, "Present"))
            c.ob("V01.all", f, q is None, "work is made of a vocabulary that's there: %s" % fmt_path(q or []), key="taken:Present")
            q = g.search(any_of(ok, lambda ev: post(ev)), start=kept, block=pre, given=contradicts(r"is_empty\((\w+::)*\w+\(\)\)", "0"))
            c.ob("V01.all", f, q is None, "the work isn't done: %s" % fmt_path(q or []), key="work")
        its = {k: v for k, v in loops(g, r"(?:\w+::)*\w+\(\)\[\]|.*\{.*\}").items() if k not in dl}
        pushed = lambda field: (lambda ev: ev.kind == "call" and re.search(r"::(push|push_back|insert)$", ev.callee) is not None and re.search(r"%s\.%s\W*$" % (item, field), args_of(g, ev)[-1]) is not None)
        FIELD = {"PresentButMissingAttributes": "attributes", "PresentButNeedsUpdate": "older_version"}
        work = {k: v for k, v in its.items() if g.events(lambda ev: maybe("NotPresent")(ev)) and
                g.search(maybe("NotPresent"), start=v[0], block=any_of(v[0], v[1])) is not None}
        c.floor("V01.all", "iterations over the work", len(work), 1)
        rest = {}
        for k, (some, none) in its.items():
            if k in work: continue
            for v, fl in FIELD.items():
                if g.search(of_class(v), start=some, block=any_of(some, none)) is not None: rest.setdefault(v, []).append((some, none))
        for some, none in work.values():
            for v in classes:
                done_ = of_class(v) if v == "NotPresent" else any_of(of_class(v), pushed(FIELD[v]))
                q = g.search(any_of(some, none, post), start=some, block=done_, given=of(item, v))
                c.ob("V01.all", f, q is None, "nothing is done about %s: %s" % (v, fmt_path(q or [])), key="does:" + v)
                q = g.search(lambda ev: write(ev) and not of_class(v)(ev), start=some, block=any_of(some, none), given=of(item, v))
                c.ob("V01.all", f, q is None, "something else is done about %s: %s" % (v, fmt_path(q or [])), key="only:" + v)
            q = g.search(any_of(post, ok), start=pre, block=none)
            c.ob("V01.all", f, q is None, "not all the work is gone through: %s" % fmt_path(q or []), key="work:all")
        for v, fl in FIELD.items():
            if not g.events(pushed(fl)): continue
            ls = rest.get(v, [])
            c.floor("V01.all", "iterations over what was put off for " + v, len(ls), 1)
            for some, none in ls:
                q = g.search(any_of(some, none, post, ok), start=some, block=of_class(v))
                c.ob("V01.all", f, q is None, "what was put off for %s isn't done: %s" % (v, fmt_path(q or [])), key="later:" + v)
                q = g.search(any_of(post, ok), start=pre, block=none)
                c.ob("V01.all", f, q is None, "what was put off for %s isn't gone through: %s" % (v, fmt_path(q or [])), key="later:all:" + v)
        c.done(g)

@rule("V01")
def v01_upgrade(c):
    c.rule("V01.upgrade", "an upgrade runs the definition's first step, writes, and runs its second, each given the version being replaced, and stops at the first that fails")
    fs = [f for f in fns(c) if "VocabularyOutcome" in f.body.ty(0) and any(f.body.ty(i).endswith("vocabulary::Vocabulary") for i in range(1, f.body.argc + 1))]
    c.floor("V01.upgrade", "functions that upgrade a vocabulary", len(fs), 1)
    write = call_to(WRITE)
    for f in fs:
        c.see(f)
        g = c.graph(f, fnpred(WRITE), small=25, keep=True)
        g.T.opaque = lambda n: re.search(r"Definition::description\w*$", n) is not None
        v = next(f.body.name(i) for i in range(1, f.body.argc + 1) if f.body.ty(i).endswith("vocabulary::Vocabulary"))
        ok = ret_of(g, "Ok")
        for n in ("pre", "post"):
            evs = g.events(indirect(n))
            c.floor("V01.upgrade", "calls of the definition's %s step" % n, len(evs), 1)
            for ev in evs:
                a = args_of(g, ev)
                c.ob("V01.upgrade", ev, a == ["self", v], "the %s step is given %s" % (n, a), key=n + ":args")
        pre, post = indirect("pre"), indirect("post")
        for key, goal, blk, start, why in (("pre", write, pre, None, "writes before the first step"), ("writes", any_of(post, ok), write, None, "isn't written before the second step"),
                                           ("post", ok, post, None, "the second step isn't run"), ("last", any_of(write, pre), None, post, "something follows the second step"),
                                           ("write:failed", any_of(ok, post), None, failed(WRITE), "a failed write goes unnoticed")):
            q = g.search(goal, block=blk, start=start) if start is not None else g.search(goal, block=blk)
            c.ob("V01.upgrade", f, q is None, "%s: %s" % (why, fmt_path(q or [])), key="order:" + key)
        # a step that fails ends it
        good = lambda ev: ev.kind == "edge" and ev.tag is not None and ev.tag[2] in ("Ok", "Continue") and re.search(r"\?\(self, %s\)" % v, rset(g.T.operand(ev.frame, ev.data["o"]))) is not None
        q = g.search(any_of(write, post), start=pre, block=good)
        c.ob("V01.upgrade", f, q is None, "a failed first step goes unnoticed: %s" % fmt_path(q or []), key="pre:failed")
        q = g.search(lambda ev: ok(ev), start=post, block=good)
        c.ob("V01.upgrade", f, q is None, "a failed second step goes unnoticed: %s" % fmt_path(q or []), key="post:failed")
        c.done(g)

def named(c, text):
    """The text with statics that hold keywords replaced by them."""
    return re.sub(r"(?:\w+::)+([A-Z][A-Z_]+)\b", lambda m: (lambda v: v if isinstance(v, str) and v.startswith(":") else m.group(0))(static(c, m.group(0))), text)

@rule("V01")
def v01_read(c):
    c.rule("V01.read", "what is stored of a vocabulary is read by its name: its version, refused unless it makes sense, and every attribute listed for it with what the schema says of it")
    fs = [f for f in fns(c) if re.search(r"Option<vocabulary::Vocabulary>|Option<mentat::vocabulary::Vocabulary>|Option<.*::Vocabulary>", f.body.ty(0)) and "Result" in f.body.ty(0)]
    if not c.floor("V01.read", "functions that read one vocabulary", len(fs), 1): return
    for f in fs:
        c.see(f)
        g = c.graph(f, None, small=20, keep=True)
        g.T.opaque = lambda n: re.search(r"::(get_entid|lookup_values?_for_attribute|attribute_for_entid)$", n) is not None
        n_ = f.body.name(2)
        E = r"HasSchema::get_entid\(self, %s\)" % n_
        V = r"Queryable::lookup_value_for_attribute\(self, %s(?:\.0)?, :db\.schema/version\)" % E
        A = r"Queryable::lookup_values_for_attribute\(self, %s(?:\.0)?, :db\.schema/attribute\)" % E
        r = [named(c, x) for x in answers(g)]
        some = [x for x in r if x.startswith("Vocabulary::")]
        want = r"Vocabulary::Vocabulary\{entity: %s(?:\.0)?, version: %s\.0, attributes: (.*)\}" % (E, V)
        m = re.fullmatch(want, some[0]) if len(some) == 1 else None
        c.ob("V01.read", f, m is not None, "reads %s" % [x[:300] for x in some], key="what")
        if m is not None:
            c.ob("V01.read", f, re.fullmatch(r"\[\{?(Option::None\{\}\|)?tuple\{0: %s\[\]\.0, 1: HasSchema::attribute_for_entid\(self, %s\[\]\.0\)\}\}?\]" % (A, A), m.group(1)) is not None, "its attributes are %s" % m.group(1)[:300], key="attributes")
        rest = [x for x in r if not x.startswith("Vocabulary::") and x != "Option::None{}" and not x.startswith("Result::Err")]
        c.ob("V01.read", f, not rest, "answers %s" % rest[:3], key="else")
        is_none = lambda ev: ev.kind == "stmt" and ev.data[1].get("r") == "agg" and ev.frame is g.rootf and rset(g.T.rvalue(ev.frame, ev.data[1], (), 0)) == "Option::None{}"
        e_, v_ = r"HasSchema::get_entid\(self, %s\)" % n_, r"Queryable::lookup_value_for_attribute\(self, .*\)"
        got = [x for x in answers(g, opt("^%s$" % e_, True), opt("^%s$" % v_, True)) if not x.startswith(("Vocabulary::", "Result::Err"))]
        c.ob("V01.read", f, not got, "a vocabulary that's there can be overlooked: %s" % got[:2], key="present")
        for label, given in (("its name is unknown", [opt("^%s$" % e_, False)]), ("it has no version", [opt("^%s$" % e_, True), opt("^%s$" % v_, False)])):
            got = answers(g, *given)
            c.ob("V01.read", f, got == ["Option::None{}"], "when %s the answer is %s" % (label, [x[:120] for x in got]), key="absent:" + label)
        # versions from 1 on are good
        vv = r"^Queryable::lookup_value_for_attribute\(.*\)\.0$"
        def lower(ev, n):
            for op, a, b, truth in cond(ev):
                o = op if truth else NEG[op]
                for x, y, oo in ((a, b, o), (b, a, SWAP[o])):
                    if re.search(vv, rset(x)) and re.fullmatch(r"-?\d+", rset(y)):
                        k = int(rset(y))
                        if not {"Eq": n == k, "Ne": n != k, "Lt": n < k, "Le": n <= k, "Gt": n > k, "Ge": n >= k}[oo]: return True
                    if re.search(vv, rset(x)) and re.search(r"max_value|MAX|4294967295", rset(y)):
                        if oo in ("Ge", "Gt", "Eq"): return True
            return False
        for n in (1, 2, 1000):
            got = answers(g, opt("^%s$" % e_, True), choice("^%s" % v_, "TypedValue", "Long"), lambda ev, n=n: lower(ev, n))
            c.ob("V01.read", f, bool(got) and all(x.startswith("Vocabulary::") for x in got), "version %d is answered with %s" % (n, [x[:100] for x in got]), key="version:%d" % n)
        c.done(g)

FIELDS = {":db/index": "index", ":db/fulltext": "fulltext", ":db/isComponent": "component", ":db/noHistory": "no_history"}

@rule("V01")
def v01_describe(c):
    c.rule("V01.describe", "what is written for a vocabulary is its name and version and, for every attribute, its name and each of its properties as defined, with a uniqueness no longer wanted taken back")
    fs = [f for f in fns(c) if any("Definition" in f.body.ty(i) for i in range(1, f.body.argc + 1)) and any(k and re.search(r"TermBuilder::build$|BuildTerms::named_tempid$", callee_name(k)) for _, _, k in f.body.calls())]
    if not c.floor("V01.describe", "functions that describe a vocabulary", len(fs), 1): return
    for f in fs:
        c.see(f)
        g = c.graph(f, None, small=20, keep=True)
        g.T.opaque = lambda n: re.search(r"::(core_attribute|core_entid|core_type|named_tempid|describe_tempid)$", n) is not None
        D = f.body.name(1)
        at = next((f.body.name(i) for i in range(2, f.body.argc + 1) if "[" in f.body.ty(i) or "Vec" in f.body.ty(i)), D + r"\.attributes")
        R = r"%s\[\]" % at
        ok = ret_of(g, "Ok")
        SELF = r"EntityBuilder|(?:\w+::)*describe_tempid\([^()]*(?:\([^()]*\)[^()]*)*\).*"
        T_ = r"(?:\w+::)*named_tempid\(.*, %s\.0\)" % R
        seen = {}
        def said(op, subj, attr, value, whole_=True):
            def p(ev):
                if ev.kind != "call" or not re.search(r"(BuildTerms|EntityBuilder|TermBuilder)::%s$" % op, ev.callee): return False
                a = [named(c, x) for x in args_of(g, ev)]
                if "EntityBuilder::" in ev.callee + "::": a = [a[0], a[0]] + a[1:] if len(a) == 3 else a
                if len(a) != 4: return False
                x = re.fullmatch(r"(?:\w+::)*core_attribute\(.*, (:[\w./]+)\)(?:\.0)?", a[2])
                return x is not None and x.group(1) == attr and re.search(subj, a[1]) is not None and re.fullmatch(value, a[3]) is not None
            return p
        me = r"describe_tempid\("
        each_ = r"^%s$" % T_
        Vs = lambda k: r"(?:\w+::)*core_entid\(.*, %s\)(?:\.0)?" % k
        any_ = lambda *ks: "|".join("(%s)" % k for k in ks)
        # itself
        for attr, val in ((":db.schema/version", r"TypedValue::Long\{0: %s\.version\}" % D), (":db/ident", r"(TypedValue::Keyword\{0: )?%s\.name\}?" % D)):
            q = g.search(ok, block=said("add", me, attr, val))
            c.ob("V01.describe", f, q is None, "its own %s isn't written: %s" % (attr, fmt_path(q or [])), key="self:" + attr)
        ls = loops(g, R)
        c.floor("V01.describe", "iterations over the attributes", len(ls), 1)
        req = [(":db/ident", "add", each_, r"(TypedValue::Keyword\{0: )?%s\.0\}?" % R, ()),
               (":db.schema/attribute", "add", me, T_, ()),
               (":db/valueType", "add", each_, r"(?:\w+::)*core_type\(.*, %s\.1\.value_type\)(?:\.0)?" % R, ())]
        req += [(a, "add", each_, r"TypedValue::Boolean\{0: %s\.1\.%s\}" % (R, fl), ()) for a, fl in FIELDS.items()]
        mv = r"^%s\.1\.multival$" % R
        un = r"^%s\.1\.unique" % R
        for some, none in ls.values():
            nx = any_of(some, none, ok)
            for attr, op, subj, val, given in req:
                q = g.search(nx, start=some, block=said(op, subj, attr, val))
                c.ob("V01.describe", f, q is None, "%s of an attribute isn't written as defined: %s" % (attr, fmt_path(q or [])), key="each:" + attr)
            q = g.search(ok, block=none)
            c.ob("V01.describe", f, q is None, "attributes are left out: %s" % fmt_path(q or []), key="each:all")
        def case(attr, given):
            """What is written under `attr` for an attribute when no edge of `given` is taken."""
            T = within(g, *given)
            out = set()
            for ev in g.events(lambda ev: ev.kind == "call" and re.search(r"(BuildTerms|TermBuilder)::(add|retract)$", ev.callee) is not None):
                if (ev.frame.id, ev.block) not in T.only: continue
                a = [named(c, rset(T.operand(ev.frame, x))) for x in ev.data["a"]]
                if len(a) == 4 and re.search(r"core_attribute\(.*, %s\)" % attr, a[2]): out.add((ev.callee.split("::")[-1], a[1], a[3]))
            return out
        def only(attr, label, given, want):
            got = case(attr, given)
            w = {(op, v) for op, v in want}
            good = len(got) == len(want) and all(re.fullmatch(T_, s) for _, s, _ in got) and all(any(o == op and re.fullmatch(v, x) for o, _, x in got) for op, v in want)
            c.ob("V01.describe", f, good, "for %s: %s" % (label, sorted((o, x[-90:]) for o, _, x in got)), key="case:" + label)
            for some, none in ls.values():
                for op, v in want:
                    q = g.search(any_of(some, none, ok), start=some, block=lambda ev: ev.kind == "call" and re.search(r"::%s$" % op, ev.callee) is not None and len(ev.data["a"]) == 4 and re.search(r"core_attribute\(.*, %s\)" % attr, named(c, args_of(g, ev)[2])) is not None, given=any_of(*given))
                    c.ob("V01.describe", f, q is None, "for %s nothing is written: %s" % (label, fmt_path(q or [])), key="case:always:" + label)
        only(":db/cardinality", "many values", [contradicts(mv, "1")], [("add", Vs(":db.cardinality/many"))])
        only(":db/cardinality", "one value", [contradicts(mv, "0")], [("add", Vs(":db.cardinality/one"))])
        UN = "attribute::Unique"
        only(":db/unique", "unique identity", [choice(un, UN, "Identity")], [("add", Vs(":db.unique/identity"))])
        only(":db/unique", "unique value", [choice(un, UN, "Value")], [("add", Vs(":db.unique/value"))])
        df = next((f.body.name(i) for i in range(2, f.body.argc + 1) if "BTreeMap" in f.body.ty(i) or "HashMap" in f.body.ty(i)), None)
        if c.floor("V01.describe", "what the attributes were", 1 if df else 0, 1):
            old = r"^(?:\w+::)*get\(%s(?:\.0)?, %s\.0\)(?:\.0)?\.unique" % (df, R)
            none_ = choice(un, UN, None)
            only(":db/unique", "unique no more, once identity", [none_, opt("^%s$" % df, True), opt(r"^(?:\w+::)*get\(%s(?:\.0)?, %s\.0\)$" % (df, R), True), choice(old, UN, "Identity"), among(old[1:], True)], [("retract", Vs(":db.unique/identity"))])
            only(":db/unique", "unique no more, once value", [none_, opt("^%s$" % df, True), opt(r"^(?:\w+::)*get\(%s(?:\.0)?, %s\.0\)$" % (df, R), True), choice(old, UN, "Value"), among(old[1:], True)], [("retract", Vs(":db.unique/value"))])
        c.done(g)
    # what the attributes were comes from the version being replaced
    fs = [f for f in fns(c) if any("Definition" in f.body.ty(i) for i in range(1, f.body.argc + 1)) and any(f.body.ty(i).endswith("vocabulary::Vocabulary") for i in range(1, f.body.argc + 1)) and "Result<(" in f.body.ty(0)]
    c.floor("V01.describe", "functions that describe a difference", len(fs), 1)
    for f in fs:
        c.see(f)
        g = c.graph(f, None, small=20, keep=True)
        g.T.opaque = lambda n: re.search(r"::(get_entid|description_for_attributes)$", n) is not None
        D = f.body.name(1)
        fr = next(f.body.name(i) for i in range(1, f.body.argc + 1) if f.body.ty(i).endswith("vocabulary::Vocabulary"))
        for ev in g.events(call_to(r".*Definition::description_for_attributes")):
            a = args_of(g, ev)
            m = re.fullmatch(r"\[\{?(Option::None\{\}\|)?tuple\{0: %s\.attributes\[\]\.0, 1: (Iterator::find\(%s\.attributes, .*\)\.1|.*::find\(%s, .*\).*)\}\}?\]" % (D, fr, fr), a[3])
            c.ob("V01.describe", ev, a[0] == D and a[1] == D + ".attributes" and m is not None, "the difference is %s" % [x[:160] for x in a], key="diff")
        c.done(g)
    # an attribute is found by its entity
    fs = [f for f in fns(c) if f.self_ty and f.self_ty.endswith("vocabulary::Vocabulary") and re.search(r"Option<&.*Attribute>", f.body.ty(0))]
    for f in fs:
        c.see(f)
        g = c.graph(f, None, small=20, keep=True)
        p = f.body.name(2)
        rs = [rset(g.T.place(ev.frame, 0, ())) for ev in g.events(lambda ev: ev.kind == "entry" and ev.frame.how.startswith("closure") and re.search(r"::find$", ev.frame.how))]
        rel = lambda ev: relation(ev, r"^self\.attributes\[\]\.0$", "^%s(\\.0)?$" % p)
        if rs:
            c.ob("V01.describe", f, all(re.fullmatch(r"\(self\.attributes\[\]\.0 Eq %s(\.0)?\)|\(%s(\.0)? Eq self\.attributes\[\]\.0\)" % (p, p), x) for x in rs), "an attribute is found by %s" % rs, key="find")
        else:
            q = g.search(lambda ev: ev.kind == "ret" and ev.tag == "Some", block=lambda ev: rel(ev) == "Eq")
            c.ob("V01.describe", f, q is None, "an attribute is found by something else: %s" % fmt_path(q or []), key="find")
        c.done(g)
