"""Every place where SQL text reaches SQLite, with the text(s), the parsed statement(s) and the
origins of the bound parameters."""
import re
from model import callee_name, callee_fn, op_place, strip_generics
from flow import Graph
from trace import Tracer, rset, rend, walk
import sqltext, sqlx

DIRECT = re.compile(r"rusqlite::(Connection|[a-z_:]*)?.*::(execute|execute_batch|execute_named|prepare|prepare_cached|query_row|query_row_and_then|query_row_named)")
STMT_T = re.compile(r"rusqlite::(statement|cache)::")
RUNS = {"execute", "execute_batch", "execute_named", "query_row", "query_row_and_then", "query_row_named", "insert", "query", "query_map", "query_and_then", "exists", "query_named", "query_map_named"}

class Site:
    def __init__(self, fn, g, frame, bi, term, api, terms, params, on_stmt):
        self.fn, self.g, self.frame, self.bi, self.term, self.api = fn, g, frame, bi, term, api
        self.terms, self.params, self.on_stmt = terms, params, on_stmt
        self.texts = sorted(sqltext.norm(x) for x in sqltext.texts(terms, g.T))
        self.stmts = []
        self.unparsed = []
        for x in self.texts:
            try:
                if x.startswith("\u27e6"): self.unparsed.append(x)
                else: self.stmts.append((x, sqlx.parse(x)))
            except SyntaxError:
                self.unparsed.append(x)
    @property
    def line(self): return self.term["ln"]
    def where(self): return "%s (%s:%s)" % (self.fn.path, self.fn.file, self.line)
    def __repr__(self): return "<sql %s %s %s>" % (self.where(), self.api, self.texts[:1])

def is_sql(k):
    if not k: return None
    n = callee_fn(k)
    if not n.startswith(("rusqlite::", "<rusqlite::")): return None
    last = n.split("::")[-1]
    if re.search(r"::(Statement|CachedStatement)(<.*>)?::", callee_fn(k)) or "statement::" in n or "::Statement" in n:
        return ("stmt", last) if last in RUNS else None
    if last in ("execute", "execute_batch", "execute_named", "prepare", "prepare_cached", "query_row", "query_row_and_then", "query_row_named"):
        return ("conn", last)
    return None

def collect(c):
    P = c.P
    out = []
    raw = []
    for f in P.fns:
        for i, t, k in f.body.calls():
            x = is_sql(k)
            if x: raw.append((f, i, t, k, x))
    byroot = {}
    for r in raw: byroot.setdefault(P.root_of(r[0]), []).append(r)
    for root, rs in sorted(byroot.items(), key=lambda x: x[0].path):
        out.extend(sites_from(c, root, {(r[0].h, r[1]) for r in rs}, root, set()))
    return out

def sites_from(c, start, wanted, owner, seen, depth=0):
    """Trace SQL call sites `wanted` (fn h, block) in the context of `start`."""
    P = c.P
    fns = {h for h, _ in wanted}
    rel = P.reaching([P.by_h[h] for h in fns])
    g = Graph(P, start, lambda f: f in rel or (f.crate == start.crate and len(f.body.blocks) <= 12))
    g.T = Tracer(g)
    out, unresolved = [], False
    evs = g.events(lambda ev: ev.kind == "call" and (ev.frame.fn.h, ev.block) in wanted)
    got = {(e.frame.fn.h, e.block) for e in evs}
    for h, b in wanted - got:
        # not on a walked path (e.g. a boxed closure): trace it on its own
        f = P.by_h[h]
        g2 = Graph(P, f, set()); g2.T = Tracer(g2)
        evs += [e for e in g2.events(lambda ev: ev.kind == "call" and ev.frame is g2.rootf and ev.block == b)]
    for ev in evs:
        k = ev.k
        kind, api = is_sql(k)
        a = ev.data["a"]
        T = ev.g.T
        if kind == "conn":
            terms = T.operand(ev.frame, a[1]) if len(a) > 1 else frozenset()
            params = T.operand(ev.frame, a[2]) if len(a) > 2 else None
        else:
            terms = set()
            for t in walk(T.operand(ev.frame, a[0])):
                if t[0] == "call" and t[1].split("::")[-1] in ("prepare", "prepare_cached") and len(t[2]) > 1:
                    terms |= t[2][1]
            terms = frozenset(terms)
            params = T.operand(ev.frame, a[1]) if len(a) > 1 else None
        s = Site(ev.frame.fn, ev.g, ev.frame, ev.block, ev.data, api, terms, params, kind == "stmt")
        haspar = any(t[0] == "p" for t in walk(terms)) and s.unparsed
        if haspar and depth < 3:
            callers = {P.root_of(P.by_h[h]) for h in P.callgraph()[1].get(start.h, ())} - {start}
            sub = []
            for r in sorted(callers, key=lambda f: f.path):
                if r.h in seen: continue
                x = sites_from(c, r, {(ev.frame.fn.h, ev.block)}, owner, seen | {start.h}, depth + 1)
                sub += x
            if sub:
                out += sub
                continue
        out.append(s)
    c.see(*{s.fn for s in out})
    return out
