"""Shared context for the property rules: obligations, findings, common graph predicates."""
import re
from collections import OrderedDict
from model import Place, op_place, callee_name, callee_fn, operands, strip_generics
import flow, trace
from flow import Graph, fmt_path
from trace import Tracer, rset, rend, walk

class Ob:
    __slots__ = ("rule", "site", "ok", "detail", "key")
    def __init__(self, rule, site, ok, detail, key):
        self.rule, self.site, self.ok, self.detail, self.key = rule, site, ok, detail, key

class Ctx:
    def __init__(self, P, tier="quick"):
        self.P, self.tier = P, tier
        self.obs = []
        self.rules = OrderedDict()
        self.fns = set()
        self.states = 0
        self.notes = []

    # ---- obligations ----------------------------------------------------------------------
    def rule(self, rid, text):
        self.rules[rid] = text

    def ob(self, rule, site, ok, detail="", key=None):
        """One obligation.  site: Fn, Ev or text naming the construct."""
        s = site.where() if isinstance(site, flow.Ev) else "%s (%s)" % (site.path, site.where) if hasattr(site, "where") and not isinstance(site, str) else str(site)
        if key is None:
            f = site.frame.fn if isinstance(site, flow.Ev) else site
            key = strip_generics(f.path) if hasattr(f, "path") else str(f)
        self.obs.append(Ob(rule, s, bool(ok), detail, "%s|%s" % (rule, key)))
        return ok

    def floor(self, rule, what, n, least):
        """Fail closed when an anchor disappears."""
        self.ob(rule, "anchor: %s" % what, n >= least, "found %d, expected at least %d" % (n, least),
                key="anchor:" + what)
        return n >= least

    def see(self, *fns):
        for f in fns: self.fns.add(f)

    # ---- graphs ---------------------------------------------------------------------------
    def find(self, pat, crate=None):
        fs = self.P.find(pat, crate)
        self.see(*fs)
        return fs

    def one(self, rule, pat, crate=None):
        fs = self.find(pat, crate)
        if not self.floor(rule, pat, len(fs), 1): return None
        return fs[0]

    def graph(self, root, pred=None, small=25, same_crate=True, depth=12, seed=None, keep=False, extra=None):
        """Supergraph that expands functions reaching an event satisfying `pred` (a predicate on
        (fn, block index, terminator, fnconst) call sites) plus small helpers of the same crate."""
        rel = set()
        if pred is not None:
            hits = [f for f in self.P.fns if any(pred(f, i, t, k) for i, t, k in f.body.calls())]
            rel = self.P.reaching(hits)
        crate = root.crate
        def isrel(f):
            if f in rel: return True
            if extra is not None and extra(f): return True
            return same_crate and f.crate == crate and len([b for b in f.body.blocks if not b.get("cl")]) <= small
        g = Graph(self.P, root, isrel, max_depth=depth, seed=seed, keep_params=keep)
        g.ctx = self
        g.T = Tracer(g)
        return g

    def done(self, g):
        self.states += g.states
        self.fns |= g.visited_fns

    # ---- call sites over the whole program --------------------------------------------------
    def callsites(self, pat, crates=None):
        """[(fn, block, term, const)] of calls whose callee (trait or impl path) matches."""
        r = re.compile(pat)
        out = []
        for f in self.P.fns:
            if crates and f.crate not in crates: continue
            for i, t, k in f.body.calls():
                if k and (r.fullmatch(callee_name(k)) or r.fullmatch(callee_fn(k))):
                    out.append((f, i, t, k))
        return out

# ---- event predicates -------------------------------------------------------------------------
def call_to(pat):
    r = re.compile(pat)
    def p(ev):
        return ev.kind == "call" and (r.fullmatch(ev.callee) is not None or r.fullmatch(ev.callee_impl) is not None)
    return p

def fnpred(pat):
    r = re.compile(pat)
    return lambda f, i, t, k: k is not None and (r.fullmatch(callee_name(k)) is not None or r.fullmatch(callee_fn(k)) is not None)

def any_of(*ps):
    return lambda ev: any(p(ev) for p in ps)

def ret_of(g, tag=None):
    return lambda ev: ev.kind == "ret" and ev.frame is g.rootf and (tag is None or ev.tag == tag or ev.tag is None)

SUCC = {"Ok", "Some", "Continue"}
FAILS = {"Err", "None", "Break"}

def outcome(ev, pat):
    """For a branch edge on the outcome of a call matching `pat`: True on the success side, False on
    the failure side, None when the edge is about something else."""
    if ev.kind == "entry": return _entered(ev, pat)
    if ev.kind != "edge": return None
    v = _outcome(ev, ev.g.T, pat)
    if v is None:
        to = getattr(ev.g, "TO", None)
        if to is None:
            to = ev.g.TO = Tracer(ev.g, opaque=lambda n, g=ev.g: g.T.opaque(n))
            to.shape = True
        v = _outcome(ev, to, pat)
    return v

ON_OK = re.compile(r"closure:core::(result::Result|option::Option)::(map|and_then|map_or|inspect|is_ok_and|is_some_and|filter)")
ON_ERR = re.compile(r"closure:core::(result::Result|option::Option)::(map_err|or_else|unwrap_or_else|inspect_err|ok_or_else)")

def _entered(ev, pat):
    """Running a closure given to an adaptor of the call's result tells its outcome too."""
    fr = ev.frame
    if fr.parent is None: return None
    ok, bad = ON_OK.fullmatch(fr.how), ON_ERR.fullmatch(fr.how)
    if not (ok or bad): return None
    t = fr.parent.body.blocks[fr.block]["t"]
    T = getattr(ev.g, "TO", None)
    if T is None:
        T = ev.g.TO = Tracer(ev.g, opaque=lambda n, g=ev.g: g.T.opaque(n))
        T.shape = True
    r = re.compile(pat)
    ts = T.operand(fr.parent, t["a"][0]) or ()
    return bool(ok) if ts and all(x[0] == "call" and r.fullmatch(x[1]) for x in ts) else None

def _outcome(ev, T, pat):
    r = re.compile(pat)
    terms = T.operand(ev.frame, ev.data["o"])
    res = set()
    for t in terms:
        neg = False
        while t[0] == "un" and t[1] == "Not": neg = not neg; t = t[2]
        if t[0] == "discr":
            x = t[1]
            if x[0] == "call" and r.fullmatch(x[1]):
                tag = ev.tag[2]
                if tag in SUCC: res.add(True)
                elif tag in FAILS: res.add(False)
                continue
        if t[0] == "call" and t[1].split("::")[-1] in ("is_ok", "is_some", "is_err", "is_none"):
            for a in t[2]:
                for x in (a if isinstance(a, frozenset) else [a]):
                    if x[0] == "call" and r.fullmatch(x[1]):
                        v = str(ev.tag[2]) == "1"
                        if t[1].endswith(("is_err", "is_none")): v = not v
                        if neg: v = not v
                        res.add(v)
    if len(res) == 1: return res.pop()
    return None

def succeeded(pat): return lambda ev: outcome(ev, pat) is True
def failed(pat): return lambda ev: outcome(ev, pat) is False

def cond(ev):
    """[(op, left terms, right terms, truth)] of a two-way comparison edge."""
    if ev.kind != "edge": return []
    T = ev.g.T
    truth0 = str(ev.tag[2]) == "1"
    out = []
    ts = T.operand(ev.frame, ev.data["o"])
    if any(t[0] == "c" for t in ts) and not getattr(ev, "fresh", True): return []      # decided by a constant assigned on this path
    for t in ts:
        truth = truth0
        while t[0] == "un" and t[1] == "Not": truth = not truth; t = t[2]
        if t[0] == "op" and t[1] in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
            out.append((t[1], t[2], t[3], truth))
        elif t[0] == "call" and t[1].startswith("core::cmp::Partial") and len(t[2]) == 2:
            op = {"eq": "Eq", "ne": "Ne", "lt": "Lt", "le": "Le", "gt": "Gt", "ge": "Ge"}.get(t[1].split("::")[-1])
            if op: out.append((op, t[2][0], t[2][1], truth))
    return out

NEG = {"Eq": "Ne", "Ne": "Eq", "Lt": "Ge", "Ge": "Lt", "Gt": "Le", "Le": "Gt"}
SWAP = {"Eq": "Eq", "Ne": "Ne", "Lt": "Gt", "Gt": "Lt", "Le": "Ge", "Ge": "Le"}

def relation(ev, lpat, rpat):
    """The relation R such that `l R r` holds on this edge, for operands rendered l~lpat, r~rpat."""
    l, r = re.compile(lpat), re.compile(rpat)
    for op, a, b, truth in cond(ev):
        ra, rb = rset(a), rset(b)
        o = op if truth else NEG[op]
        if l.search(ra) and r.search(rb): return o
        if l.search(rb) and r.search(ra): return SWAP[o]
    return None

def variant_edge(adt, variant, subject=None):
    """Edges on which an enum value is known to be `variant` (by match, matches! or ==)."""
    sub = re.compile(subject) if subject else None
    def p(ev):
        if ev.kind != "edge": return False
        T = ev.g.T
        if ev.tag is not None and ev.tag[1] is not None and strip_generics(str(ev.tag[1])).endswith(adt):
            if ev.tag[2] != variant: return False
            if sub is None: return True
            return all(sub.search(rend(t[1]) if t[0] == "discr" else rend(t)) for t in T.operand(ev.frame, ev.data["o"]))
        for op, a, b, truth in cond(ev):
            o = op if truth else NEG[op]
            for x, y in ((a, b), (b, a)):
                xs, ys = _set(x), _set(y)
                v = {t[2] for t in map(_undiscr, ys) if t[0] == "agg" and str(t[1]).endswith(adt)}
                if len(v) == 1 and len(ys) == 1:
                    if sub is not None and not all(sub.search(rend(_undiscr(t))) for t in xs): continue
                    allv = ev.g._all_variants(next(t[1] for t in map(_undiscr, ys)))
                    w = next(iter(v))
                    if o == "Eq" and w == variant: return True
                    if o == "Ne" and len(allv) == 2 and w != variant: return True
        return False
    return p

def _set(x): return x if isinstance(x, (frozenset, set)) else [x]
def _undiscr(t): return t[1] if t[0] == "discr" else t

def field_write(adt_suffix, field=None):
    """Assignment to a field of an ADT (through any reference) or a &mut borrow of it handed out."""
    def p(ev):
        if ev.kind != "stmt": return False
        st = ev.data
        pr = st[0][1:]
        if st[1]["r"] != "setdiscr" or True:
            for x in pr:
                if x.startswith(".") and "@" in x:
                    f, a = x[1:].split("@", 1)
                    if strip_generics(a).endswith(adt_suffix) and (field is None or f == field): return True
        return False
    return p

def mut_borrow(adt_suffix, field=None):
    def p(ev):
        if ev.kind != "stmt": return False
        r = ev.data[1]
        if r["r"] == "ref" and r["mut"]:
            for x in r["p"][1:]:
                if x.startswith(".") and "@" in x:
                    f, a = x[1:].split("@", 1)
                    if strip_generics(a).endswith(adt_suffix) and (field is None or f == field): return True
        return False
    return p

def _sql(self):
    if getattr(self, "_sqlsites", None) is None:
        import sqlsites
        self._sqlsites = sqlsites.collect(self)
    return self._sqlsites
Ctx.sql = _sql

# ---- decision tables ----------------------------------------------------------------------------
def _parity(t):
    """(term without leading negations, whether their number is odd)"""
    n = False
    while t[0] == "un" and t[1] == "Not": t, n = t[2], not n
    return t, n

def contradicts(subject, value):
    """Predicate: a branch edge that cannot be taken when the subject (regex on its origin) is `value`
    (an integer, "0"/"1" for a bool, or an enum variant name)."""
    sub = re.compile(subject)
    isenum = isinstance(value, str) and value not in ("0", "1")
    twin = None                                         # emptiness asked of the length, or the other way round
    if "is_empty" in subject and str(value) in ("0", "1"): twin = _sized(subject.replace("is_empty", "(?:len|count)"), str(value) == "1")
    elif re.search(r"(^|:|\()len\b", subject) and re.fullmatch(r"\d+", str(value)): twin = _sized(subject, str(value) == "0", True)
    def p(ev):
        if ev.kind != "edge": return False
        if twin is not None and twin(ev): return True
        T = ev.g.T
        ts = T.operand(ev.frame, ev.data["o"])
        if getattr(ev, "fresh", False): ts = [t for t in ts if t[0] != "c"] or ts
        tag = ev.tag[2] if ev.tag is not None else None
        if ts and all(t[0] == "discr" for t in ts):
            if isenum and all(sub.search(rend(t[1])) for t in ts):
                if isinstance(tag, str) and tag.startswith("!"): return value in tag[1:].split(",")
                return tag is not None and tag != value
            return False
        if ts and not isenum and all((sub.match if t[0] == "op" and t[1] in NEG else sub.search)(rend(t)) for t in ts):
            if tag is None: return any(str(v) == str(value) for v, _ in ev.data["v"])
            return str(tag) != str(value)
        if ts and not isenum and str(tag) in ("0", "1"):
            ns = [_parity(t) for t in ts]
            if all(n and sub.search(rend(t)) for t, n in ns): return str(tag) == str(value)
        cs = cond(ev)
        return bool(cs) and all(against(*x) for x in cs)
    def against(op, a, b, truth):
        o = op if truth else NEG[op]
        for x, y, oo in ((a, b, o), (b, a, SWAP[o])):
            xs, ys = _set(x), _set(y)
            if not all(sub.search(rend(_undiscr(t))) for t in xs) or not xs: continue
            vals = set()
            for t in map(_undiscr, ys):
                if t[0] == "agg" and t[2] is not None and not t[3]: vals.add(t[2])
                elif t[0] == "c": vals.add(str(t[1]))
                else: vals.add(None)
            if len(vals) != 1 or None in vals: continue
            w = vals.pop()
            if oo == "Eq" and w != str(value): return True
            if oo == "Ne" and w == str(value): return True
            if not isenum and oo in ("Lt", "Le", "Gt", "Ge"):
                try: l, r = int(value), int(w)
                except ValueError: continue
                if not {"Lt": l < r, "Le": l <= r, "Gt": l > r, "Ge": l >= r}[oo]: return True
        return False
    return p

def _sized(length, empty, boolean=False):
    """Predicate: an edge that cannot be taken when the collection whose length is rendered ~length is (or isn't) empty."""
    sub = re.compile(length)
    emp = re.compile(re.sub(r"\blen\b", "is_empty", length)) if boolean else None
    def p(ev):
        if emp is not None and ev.tag is not None and str(ev.tag[2]) in ("0", "1"):
            ts = [t for t in ev.g.T.operand(ev.frame, ev.data["o"])]
            truth = []
            for t in ts:
                v = str(ev.tag[2]) == "1"
                while t[0] == "un" and t[1] == "Not": v = not v; t = t[2]
                truth.append(v if t[0] == "call" and emp.search(rend(t)) else None)
            return bool(truth) and None not in truth and len(set(truth)) == 1 and truth[0] != empty
        if boolean: return False
        for op, a, b, truth in cond(ev):
            o = op if truth else NEG[op]
            for x, y, oo in ((a, b, o), (b, a, SWAP[o])):
                rx, ry = rset(x), rset(y)
                if not sub.search(rx) or not re.fullmatch(r"[01]", ry): continue
                n = int(ry)
                holds = lambda l: {"Eq": l == n, "Ne": l != n, "Lt": l < n, "Le": l <= n, "Gt": l > n, "Ge": l >= n}[oo]
                if not (holds(0) if empty else any(holds(l) for l in (1, 2, 3))): return True
        return False
    return p

def per_value(g, subject, values, sinks, label, also=None):
    """{value: set of labels of the sink events reachable when subject == value}."""
    out = {}
    for v in values:
        p = contradicts(subject, v)
        blk = p if also is None else any_of(p, also)
        out[v] = {label(ev) for ev in g.events(sinks, block=blk)}
    return out

def under(g, assume):
    """Tracer restricted to what can execute when every (subject regex -> value) of `assume` holds."""
    blk = any_of(*[contradicts(k, v) for k, v in assume.items()]) if assume else None
    seen = set()
    def goal(ev):
        seen.add((ev.frame.id, ev.block))
        return False
    g._walk(g._init(), goal, blk)
    return Tracer(g, only=seen)

def value_table(c, fn, subject, values, small=12, proj=(), extra=None, keep=True):
    """{value: rendered set of returned terms} of a function, by the value of one of its inputs."""
    g = c.graph(fn, None, small=small, keep=keep)
    out = {}
    for v in values:
        a = {subject: v}
        if extra: a.update(extra)
        T = under(g, a)
        out[v] = frozenset(rend(t) for t in T.place(g.rootf, 0, proj) if t != ("err",))
    c.done(g)
    return out

def empty_edge(pat):
    """Predicate: a branch edge on which the collection rendered ~pat is known to be empty."""
    sub = re.compile(pat)
    def p(ev):
        if ev.kind != "edge": return False
        for t in ev.g.T.operand(ev.frame, ev.data["o"]):
            truth = str(ev.tag[2]) == "1"
            while t[0] == "un" and t[1] == "Not": truth = not truth; t = t[2]
            if t[0] == "call" and t[1].endswith("::is_empty") and truth and sub.search(rset(t[2][0])): return True
        for op, a, b, truth in cond(ev):
            o = op if truth else NEG[op]
            for x, y, oo in ((a, b, o), (b, a, SWAP[o])):
                rx, ry = rset(x), rset(y)
                if re.search(r"::(len|count)\(", rx) and sub.search(rx) and ry in ("0", "1"):
                    if (ry == "0" and oo in ("Eq", "Le")) or (ry == "1" and oo == "Lt"): return True
        return False
    return p

def of_option(ev):
    """Whether a `?` edge is that of an Option (rather than of a Result)."""
    p = op_place(ev.data["o"])
    for d in ev.frame.body.defs().get(p.local, []) if p is not None else []:
        if d[1] < 0 or isinstance(d[2], dict): continue
        r = d[2][1]
        q = Place(r["p"]) if r["r"] == "discr" else None
        if q is not None and not q.proj: return re.search(r"ControlFlow<(std|core)::option::Option<", ev.frame.body.ty(q.local)) is not None
    return False

def opt(subject, some):
    """Predicate: a branch edge contradicting that the Option `subject` (regex, unanchored at its end) is Some/None."""
    c0 = contradicts(subject + "$", "Some" if some else "None")
    cf = contradicts(subject + "$", "Continue" if some else "Break")
    def a(ev):
        if ev.kind != "edge" or ev.tag is None or ev.tag[1] is None: return False
        n = strip_generics(str(ev.tag[1]))
        if n.endswith("option::Option"): return c0(ev)
        return n.endswith("control_flow::ControlFlow") and of_option(ev) and cf(ev)
    b = contradicts(r"::is_some\(" + ("" if subject.startswith("^") else ".*") + subject.lstrip("^") + r"\)$", "1" if some else "0")
    d = contradicts(r"::is_none\(" + ("" if subject.startswith("^") else ".*") + subject.lstrip("^") + r"\)$", "0" if some else "1")
    return any_of(a, b, d)

def args_of(g, ev):
    return [rset(g.T.operand(ev.frame, a)) for a in ev.data["a"]]

def is_ev(ev):
    """Predicate matching exactly this event's construct."""
    return lambda e: e.kind == ev.kind and e.frame is ev.frame and e.block == ev.block and (ev.kind != "stmt" or e.idx == ev.idx)

def choice(subject, adt, value):
    """Predicate: an edge contradicting that the optional enum `subject` (regex, no trailing $) is `value`
    (a variant of `adt`, or None): by matching, is_some/is_none or comparison."""
    o = opt(subject, value is not None)
    sub = re.compile(subject + "$")
    def p(ev):
        if ev.kind != "edge": return False
        if o(ev):
            if ev.tag is None or ev.tag[1] is None or not strip_generics(str(ev.tag[1])).endswith(adt): return True
        if ev.tag is not None and ev.tag[1] is not None and strip_generics(str(ev.tag[1])).endswith(adt):
            ts = ev.g.T.operand(ev.frame, ev.data["o"])
            if ts and all(sub.search(rend(_undiscr(t))) for t in ts):
                tg = ev.tag[2]
                if isinstance(tg, str) and tg.startswith("!"): return value in tg[1:].split(",")
                if value is None: return True
                return tg != value
        for op, a, b, truth in cond(ev):
            oo = op if truth else NEG[op]
            if oo not in ("Eq", "Ne"): continue
            for x, y in ((a, b), (b, a)):
                xs = _set(x)
                if not xs or not any(sub.search(rend(_undiscr(t))) for t in xs): continue
                ws = {z[2] for z in walk(frozenset(_set(y))) if z[0] == "agg" and (str(z[1]).endswith(adt) or z[2] == "None")}
                if len(ws) != 1: continue
                w = ws.pop()
                if w == "None": w = None
                if oo == "Eq" and w != value: return True
                if oo == "Ne" and w == value: return True
        return False
    return p

def whole(g, frame, o):
    """The operand rendered with the adaptors that leave elements out kept apart."""
    t = getattr(g, "TL", None)
    if t is None or g.TL_for is not g.T:
        t = g.TL = Tracer(g, opaque=lambda n: g.T.opaque(n))
        g.TL_for = g.T
        t.lossy = True
        t.blank = lambda n: g.T.blank(n)
    return sorted(map(rend, t.operand(frame, o)))

LEAVES = r"Iterator::(filter|skip|take|step_by|skip_while|take_while|filter_map)\b"

def leaves_out(ev, allow=None):
    """Does the iterator whose element the edge `ev` is about leave out some of its source (through filter, skip, take…)?"""
    return any(re.search(LEAVES, re.sub(allow, "", x) if allow else x) for x in whole(ev.g, ev.frame, ev.data["o"]))
