"""In-memory program model over the MIR facts, plus the generic dataflow primitives."""
import glob, json, os, re
from collections import defaultdict

CLOSURE = re.compile(r"(?:&(?:mut )?)*closure#(.*)")

def ty_head(s):
    """The constructor of a type: `a::B<C>` -> `a::B`; None if it is a bare parameter."""
    if not s: return None
    s = s.lstrip("&").replace("mut ", "").strip()
    if re.fullmatch(r"[A-Z][A-Za-z0-9]?", s): return None
    return s.split("<")[0] or s

def strip_generics(s):
    """`a::B<C>::d::<E>` -> `a::B::d` (keeps a leading `<T as Trait>`)."""
    out, depth, i = [], 0, 0
    if s.startswith("<"):
        # keep the qualified-self prefix verbatim
        d = 0
        for i, c in enumerate(s):
            if c == "<": d += 1
            elif c == ">" and s[i-1] != "-":
                d -= 1
                if d == 0: break
        return s[:i+1] + strip_generics(s[i+1:])
    for j, c in enumerate(s):
        if c == "<":
            depth += 1
        elif c == ">" and depth and s[j-1] != "-":
            depth -= 1
        elif depth == 0:
            out.append(c)
    r = "".join(out)
    return re.sub(r"::+$", "", r.replace("::::", "::"))

class Place:
    __slots__ = ("local", "proj")
    def __init__(self, j):
        self.local = j[0]
        self.proj = tuple(j[1:])
    def __repr__(self):
        return "_%d%s" % (self.local, "".join("(%s)" % p for p in self.proj))
    def fields(self):
        return [p[1:].split("@")[0] for p in self.proj if p.startswith(".")]

class Body:
    """One MIR body: locals, blocks (statements + terminator)."""
    def __init__(self, j, fn):
        self.fn = fn
        self.locals = j["locals"]
        self.argc = j["argc"]
        self.blocks = j["blocks"]
        self.upvars = [(n, Place(p)) for n, p in j.get("up", [])]
        self._defs = None
        self._preds = None
    def ty(self, l): return self.locals[l][0]
    def name(self, l): return self.locals[l][1] if len(self.locals[l]) > 1 else None
    def succs(self, b, unwind=False):
        t = self.blocks[b]["t"]
        k = t["k"]
        out = []
        if k == "goto": out = [t["t"]]
        elif k == "switch": out = [x for _, x in t["v"]] + [t["d"]]
        elif k in ("call", "drop", "assert"):
            if t["t"] >= 0: out = [t["t"]]
            if unwind and "uw" in t: out.append(t["uw"])
        return out
    def calls(self):
        """[(block, terminator, fnconst or None)]"""
        for i, b in enumerate(self.blocks):
            t = b["t"]
            if t["k"] == "call" and not b.get("cl"):
                yield i, t, (t["f"].get("k") if "k" in t["f"] else None)
    def defs(self):
        """local -> list of (block, idx, kind, payload); idx -1 = terminator (call result)."""
        if self._defs is None:
            d = defaultdict(list)
            for bi, b in enumerate(self.blocks):
                if b.get("cl"): continue
                for si, st in enumerate(b["s"]):
                    d[st[0][0]].append((bi, si, st))
                t = b["t"]
                if t["k"] == "call":
                    d[t["d"][0]].append((bi, -1, t))
            self._defs = d
        return self._defs
    def reachable(self, start=0, blocked=()):
        seen, work = set(), [start]
        while work:
            b = work.pop()
            if b in seen or b in blocked: continue
            seen.add(b)
            work.extend(self.succs(b))
        return seen

class Fn:
    def __init__(self, j, crate):
        self.crate = crate
        self.path = j["p"]
        self.name = strip_generics(self.path).split("::")[-1]
        self.h = j["h"]
        self.kind = j["kind"]
        self.file = j["file"]
        self.line = j["ln"]
        self.parent = j.get("parent")
        self.impl_of = j.get("impl_of")
        self.impl_h = j.get("impl_h")
        self.self_ty = j.get("self")
        self.gp = j.get("gp", [])
        self.trdef = j.get("trdef", 0)
        self.vis = j.get("vis", "")
        self.body = Body(j, self)
        self.proms = []
        for p in j.get("proms", []):
            self.proms.append(Body(p, self))
    def __repr__(self): return "<%s>" % self.path
    @property
    def where(self):
        f = self.file
        return "%s:%d" % (f, self.line)

class Program:
    def __init__(self, facts):
        self.fns, self.by_h, self.adts, self.impls = [], {}, {}, []
        self.crates = []
        ext = {}
        for f in sorted(glob.glob(os.path.join(facts, "*.json"))):
            if os.path.basename(f).startswith("build_script"): continue
            j = json.load(open(f))
            self.crates.append(j["crate"])
            self.adts.update(j["adts"])
            for n, vs in j.get("ext", {}).items(): ext.setdefault(n, {"kind": "Enum", "vis": "ext", "vars": vs})
            self.impls.extend(j["impls"])
            for x in j["fns"]:
                fn = Fn(x, j["crate"])
                self.fns.append(fn)
                self.by_h[fn.h] = fn
        for n, a in ext.items(): self.adts.setdefault(n, a)
        self.by_path = defaultdict(list)
        self.children = defaultdict(list)
        self.trait_impls = defaultdict(list)
        for fn in self.fns:
            self.by_path[fn.path].append(fn)
            if fn.parent: self.children[fn.parent].append(fn)
            if fn.impl_h: self.trait_impls[fn.impl_h].append(fn)
        # Workspace traits, and the heads of the types that implement them (None: any type).
        self.implementors = defaultdict(set)
        for i in self.impls:
            if i[0].split("::")[0] in self.crates: self.implementors[strip_generics(i[0])].add(ty_head(i[1]))
        self._callers = None
        self._callees = {}

    # ---- lookup -------------------------------------------------------------------------
    def find(self, pat, crate=None):
        """Functions whose path (generics stripped) matches regex `pat` fully."""
        r = re.compile(pat)
        return [f for f in self.fns if f.kind != "closure" and r.fullmatch(strip_generics(f.path))
                and (crate is None or f.crate == crate)]

    def closures_of(self, fn):
        out, work = [], [fn.h]
        while work:
            for c in self.children.get(work.pop(), []):
                out.append(c); work.append(c.h)
        return out

    def root_of(self, fn):
        while fn.parent and fn.parent in self.by_h:
            fn = self.by_h[fn.parent]
        return fn

    # ---- call graph ----------------------------------------------------------------------
    def targets(self, k, gen=None):
        """Workspace functions a fn constant may dispatch to (trait methods -> all impls, or with
        `gen`, the caller's type arguments, those of the receiver's type)."""
        if not k or "fn" not in k: return []
        out = []
        h = k["h"]
        if h in self.by_h:
            out.append(self.by_h[h])
        if k.get("unres") or k.get("virt"):
            st = (k.get("g") or [None])[0]
            if gen and st in gen:
                st = gen[st]
                m = CLOSURE.match(st)
                if m and k.get("tr", "").startswith("core::ops::function::Fn"):
                    return [self.by_h[m.group(1)]] if m.group(1) in self.by_h else []
                if ty_head(st):
                    of = [f for f in self.trait_impls.get(k.get("th", h), []) if ty_head(f.self_ty) == ty_head(st)]
                    if of: return of
            for f in self.trait_impls.get(k.get("th", h), []):
                if all(self.may_implement(f.self_ty, t) for t in k.get("bt", ())): out.append(f)
        return out

    def may_implement(self, ty, trait):
        """False only if `trait` is implemented in the workspace for other types alone."""
        known = self.implementors.get(strip_generics(trait))
        if known is None or not ty: return True
        return ty_head(ty) in known or None in known or ty_head(ty) is None

    def block_targets(self, fn, bi):
        """All workspace functions that may run because of block bi's statements/terminator:
        direct call targets, closures/fn items handed over as (generic) arguments."""
        key = (fn.h, id(fn.body))
        m = self._callees.get(key)
        if m is None:
            m = defaultdict(list)
            for i, b in enumerate(fn.body.blocks):
                if b.get("cl"): continue
                t = b["t"]
                if t["k"] == "call":
                    k = t["f"].get("k")
                    for x in self.targets(k): m[i].append(x)
                    for h in (k or {}).get("cl", []):
                        if h in self.by_h and self.by_h[h] not in m[i]: m[i].append(self.by_h[h])
                    for a in t["a"]:
                        kk = a.get("k")
                        if kk and "fn" in kk:
                            for x in self.targets(kk):
                                if x not in m[i]: m[i].append(x)
                elif t["k"] == "drop":
                    pass
            self._callees[key] = m
        return m.get(bi, [])

    def callees(self, fn):
        out = []
        for i in range(len(fn.body.blocks)):
            out.extend(self.block_targets(fn, i))
        # closures that are built here but handed over non-generically (boxed): may run
        for b in fn.body.blocks:
            if b.get("cl"): continue
            for st in b["s"]:
                r = st[1]
                if r["r"] == "agg" and r["k"] == "closure" and r["h"] in self.by_h:
                    out.append(self.by_h[r["h"]])
                for o in operands(r):
                    kk = o.get("k")
                    if kk and "fn" in kk: out.extend(self.targets(kk))
        return out

    def callgraph(self):
        if self._callers is None:
            self._callers = defaultdict(set)
            self._fwd = {}
            for fn in self.fns:
                cs = {c.h for c in self.callees(fn)}
                self._fwd[fn.h] = cs
                for c in cs: self._callers[c].add(fn.h)
        return self._fwd, self._callers

    def reach_from(self, fns):
        fwd, _ = self.callgraph()
        seen, work = set(), [f.h for f in fns]
        while work:
            h = work.pop()
            if h in seen: continue
            seen.add(h)
            work.extend(fwd.get(h, ()))
        return {self.by_h[h] for h in seen}

    def reaching(self, fns):
        _, back = self.callgraph()
        seen, work = set(), [f.h for f in fns]
        while work:
            h = work.pop()
            if h in seen: continue
            seen.add(h)
            work.extend(back.get(h, ()))
        return {self.by_h[h] for h in seen}

    def adt(self, suffix):
        c = [k for k in self.adts if k == suffix or k.endswith("::" + suffix)]
        return (c[0], self.adts[c[0]]) if len(c) == 1 else (None, None)

def operands(r):
    k = r["r"]
    if k in ("use", "cast", "un", "repeat"): return [r["o"]]
    if k == "bin": return [r["a"], r["b"]]
    if k == "agg": return r["a"]
    return []

def op_place(o):
    if "c" in o: return Place(o["c"])
    if "m" in o: return Place(o["m"])
    return None

def callee_name(k):
    """Name of the called function, trait methods by their trait path."""
    if not k: return "?"
    return strip_generics(k.get("tm") or k.get("fn") or "?")

def callee_fn(k):
    return strip_generics(k.get("fn") or "?") if k else "?"

# ---- pretty printer (for humans) ---------------------------------------------------------------
def show_op(o):
    if "k" in o:
        k = o["k"]
        if "fn" in k: return k["fn"] + (" [virt]" if k.get("virt") else " [unres]" if k.get("unres") else "")
        for x in ("s", "v", "b", "fbits", "static"):
            if x in k: return "%r%s" % (k[x], "{%s}" % k["u"] if "u" in k else "")
        if "prom" in k: return "prom%d" % k["prom"]
        return "const{%s:%s%s}" % (k.get("u", ""), k.get("ty"), (" " + json.dumps(k["agg"])) if "agg" in k else "")
    return repr(op_place(o))

def show_rv(r):
    k = r["r"]
    if k == "use": return show_op(r["o"])
    if k == "ref": return "&%s%r" % ("mut " if r["mut"] else "", Place(r["p"]))
    if k == "cast": return "%s as %s" % (show_op(r["o"]), r["ty"])
    if k == "bin": return "%s(%s, %s)" % (r["op"], show_op(r["a"]), show_op(r["b"]))
    if k == "un": return "%s(%s)" % (r["op"], show_op(r["o"]))
    if k == "discr": return "discr(%r) of %s" % (Place(r["p"]), r["adt"])
    if k == "agg": return "%s %s(%s)" % (r["k"], r.get("adt", r.get("fn", "")) + ("::" + r["var"] if "var" in r else ""), ", ".join(show_op(a) for a in r["a"]))
    return json.dumps(r)

def show(fn, body=None):
    b = body or fn.body
    out = ["fn %s  (%s)" % (fn.path, fn.where)]
    for i, l in enumerate(b.locals):
        out.append("  _%d%s: %s%s" % (i, "(arg)" if 1 <= i <= b.argc else "", l[0], "  // " + l[1] if len(l) > 1 else ""))
    for i, bl in enumerate(b.blocks):
        if bl.get("cl"): continue
        out.append(" bb%d:" % i)
        for st in bl["s"]:
            out.append("    %r = %s" % (Place(st[0]), show_rv(st[1])))
        t = bl["t"]
        k = t["k"]
        if k == "call":
            out.append("    %r = CALL %s(%s) -> bb%d   // %d" % (Place(t["d"]), show_op(t["f"]), ", ".join(show_op(a) for a in t["a"]), t["t"], t["ln"]))
        elif k == "switch":
            out.append("    switch %s %s else bb%d" % (show_op(t["o"]), t["v"], t["d"]))
        elif k == "drop": out.append("    drop %r -> bb%d" % (Place(t["p"]), t["t"]))
        elif k == "assert": out.append("    assert %s == %d (%s) -> bb%d" % (show_op(t["o"]), t["e"], t["msg"][:60], t["t"]))
        elif k == "goto": out.append("    goto bb%d" % t["t"])
        else: out.append("    " + k)
    return "\n".join(out)

if __name__ == "__main__":
    import sys
    sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
    import facts
    P = Program(facts.ensure()[0])
    for f in P.find(sys.argv[1]) or [f for f in P.fns if sys.argv[1] in f.path]:
        if len(sys.argv) > 2 and sys.argv[2] == "-l":
            print(f.path, f.where); continue
        print(show(f))
        for i, p in enumerate(f.proms): print("--- prom", i); print(show(f, p))
