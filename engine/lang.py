"""The language a function emits: the words of text and items it can hand to an output builder on its
successful paths, read off the supergraph as a finite automaton and compared with a specification.

Specifications are patterns over text, {name} for items, «…» groups, ¦ for choice and ⋆ for repetition.
"""
import re
from collections import deque
from ctx import cond, NEG, SWAP, rend, rset

class NFA:
    def __init__(self):
        self.eps, self.sym, self.start, self.accept, self.n = {}, {}, set(), set(), 0
    def new(self):
        self.n += 1
        return self.n
    def e(self, a, b): self.eps.setdefault(a, set()).add(b)
    def t(self, a, x, b): self.sym.setdefault(a, set()).add((x, b))
    def word(self, a, syms, b):
        """a -> b reading the symbols."""
        if not syms: return self.e(a, b)
        for i, x in enumerate(syms):
            n = b if i == len(syms) - 1 else self.new()
            self.t(a, x, n)
            a = n
    def close(self, S):
        S = set(S); q = list(S)
        while q:
            for b in self.eps.get(q.pop(), ()):
                if b not in S: S.add(b); q.append(b)
        return frozenset(S)
    def step(self, S):
        out = {}
        for s in S:
            for x, b in self.sym.get(s, ()): out.setdefault(x, set()).add(b)
        return {x: self.close(b) for x, b in out.items()}

def emitted(g, emit, given=None, start=None):
    """Automaton of what `emit` reports along successful paths from the entry to the root's return.
    emit(ev) gives None or a list of alternative words (lists of symbols: characters and item names)."""
    n = NFA()
    ids, memo = {}, {}
    def node(s):
        if s not in ids: ids[s] = n.new()
        return ids[s]
    g.trans = []
    init = g._init()
    try:
        g._walk(init, None, given)
        tr = g.trans
    finally: g.trans = None
    n.start = {node(s) for s, _ in init}
    if any(ev is not None and ev.kind == "edge" and counted(ev) is not None for _, _, ev in tr): tr, n.start = first_or_later(g, tr, init, node)
    for a, b, ev in tr:
        if ev is not None and ev.kind == "ret":
            if ev.tag not in ("Err", "None"): n.accept.add(node(a))
            continue
        ws = None
        if ev is not None and ev.kind == "call":
            k = (ev.frame.id, ev.block)
            if k not in memo: memo[k] = emit(ev)
            ws = memo[k]
        if ws is None: n.e(node(a), node(b))
        else:
            for w in ws: n.word(node(a), w, node(b))
    return n

def counted(ev):
    """On an edge that compares the place of an element with a constant: the test of the place that holds there."""
    if ev.tag is None: return None
    ts = ev.g.T.operand(ev.frame, ev.data["o"])
    if ts == frozenset([("index",)]):
        v = str(ev.tag[2])
        return (lambda i: str(i) == v) if v.isdigit() else (lambda i: True)
    for op, a, b, truth in cond(ev):
        for x, y, o in ((a, b, op), (b, a, SWAP[op])):
            if rset(x) == "#" and re.fullmatch(r"\d+", rset(y)):
                k = int(rset(y)); o = o if truth else NEG[o]
                return lambda i: {"Eq": i == k, "Ne": i != k, "Lt": i < k, "Le": i <= k, "Gt": i > k, "Ge": i >= k}[o]
    return None

def first_or_later(g, tr, init, node):
    """The transitions with which elements of the loops around are first ones, as far as their places are asked for."""
    out, memo = {}, {}
    for a, b, ev in tr: out.setdefault(a, []).append((b, ev))
    def loop(ev):
        k = (ev.frame.id, ev.block)
        if k not in memo:
            from rules.joins import nexts
            memo[k] = any("tuple{0: #, 1: " in rend(t) for t in g.T.operand(ev.frame, ev.data["o"])) and bool(nexts(g, ev))
        return k if memo[k] else None
    start = {(s, ()) for s, _ in init}
    seen, q, res = set(start), deque(start), []
    while q:
        a, st = q.popleft()
        for b, ev in out.get(a, ()):
            new = st
            if ev is not None and ev.kind == "edge" and ev.tag is not None:
                k = loop(ev) if ev.tag[2] in ("Some", "None") else None
                if k is not None:
                    new = tuple(x for x in st if x[0] != k)
                    if ev.tag[2] == "Some": new += ((k, int(any(x[0] == k for x in st))),)
                elif st:
                    p = counted(ev)
                    if p is not None and not any(p(i) for i in ((1, 2, 3, 1 << 40) if st[-1][1] else (0,))): continue
            t = (b, new)
            res.append(((a, st), t, ev))
            if t not in seen: seen.add(t); q.append(t)
    return res, {node(s) for s in start}

def pattern(spec, items):
    """Automaton of a specification; items: {name: regex of the code's items}."""
    n = NFA()
    i = 0
    def alt():
        nonlocal i
        a, b = n.new(), n.new()
        while True:
            x, y = seq()
            n.e(a, x); n.e(y, b)
            if i < len(spec) and spec[i] == "¦": i += 1; continue
            return a, b
    def seq():
        nonlocal i
        a = cur = n.new()
        while i < len(spec) and spec[i] not in "¦»":
            ch = spec[i]
            if ch == "«":
                i += 1
                x, y = alt()
                assert spec[i] == "»", spec
                i += 1
            elif ch == "{":
                j = spec.index("}", i)
                x, y = n.new(), n.new()
                n.t(x, "{%s}" % spec[i + 1:j], y)
                assert spec[i + 1:j] in items, spec[i + 1:j]
                i = j + 1
            else:
                x, y = n.new(), n.new()
                n.t(x, ch, y); i += 1
            if i < len(spec) and spec[i] == "⋆":
                i += 1
                s = n.new()
                n.e(s, x); n.e(y, s); x = y = s
            n.e(cur, x); cur = y
        return a, cur
    a, b = alt()
    assert i == len(spec), spec[i:]
    n.start, n.accept = {a}, {b}
    return n

def rename(n, items):
    """The code's items under the names the specification gives them."""
    m = {}
    def f(x):
        if len(x) == 1: return x
        if x not in m:
            m[x] = next(("{%s}" % k for k, r in items.items() if re.fullmatch(r, x)), "{?%s}" % x)
        return m[x]
    n.sym = {a: {(f(x), b) for x, b in v} for a, v in n.sym.items()}
    return n

def diff(a, b, subset=False, limit=20000):
    """None when the automata accept the same words (or, with subset, when all of a's are b's);
    else (word, who accepts it)."""
    s0 = (a.close(a.start), b.close(b.start))
    seen, q = {s0: None}, deque([s0])
    def word(s):
        out = []
        while seen[s] is not None:
            s, x = seen[s]; out.append(x)
        return "".join(reversed(out))
    while q:
        s = q.popleft()
        A, B = s
        ina, inb = bool(A & a.accept), bool(B & b.accept)
        if ina and not inb: return word(s), "code"
        if inb and not ina and not subset: return word(s), "spec"
        sa, sb = a.step(A), b.step(B)
        for x in sorted(set(sa) | (set() if subset else set(sb))):
            t = (sa.get(x, frozenset()), sb.get(x, frozenset()))
            if not t[0] and (subset or not t[1]): continue
            if t not in seen:
                seen[t] = (s, x); q.append(t)
                if len(seen) > limit: return "…", "too large"
    return None

def words(n, limit=6):
    """A few of the automaton's words, shortest first."""
    out, q, k = [], deque([(n.close(n.start), "")]), 0
    seen = {}
    while q and len(out) < limit and k < 4000:
        S, w = q.popleft(); k += 1
        if S & n.accept: out.append(w)
        for x, T in sorted(n.step(S).items()):
            if seen.get(T, 0) < 2: seen[T] = seen.get(T, 0) + 1; q.append((T, w + x))
    return out
