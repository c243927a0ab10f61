"""Interprocedural, path-sensitive-in-variants reachability over MIR.

A `Graph` is the supergraph of one root function: every workspace callee that can matter for the
question asked is expanded in its calling context (helpers, trait impls, closures handed to
combinators), everything else stays one opaque call node.  The explorer keeps, per path, which enum
variant / boolean a place is known to have, so `?`, `match` and `if` branches of infeasible kind
(e.g. the Ok continuation after a helper returned Err) are not walked.

Questions asked of it are of one form: is there a feasible path from the root's entry to an event X
that does not pass an event Y first?  (must-precede, must-follow and guarded-by are all instances.)
"""
import re
from collections import deque
from model import Place, op_place, callee_name, callee_fn, operands

STD_DISCR = {
    "core::ops::control_flow::ControlFlow": {0: "Continue", 1: "Break"},
    "core::option::Option": {0: "None", 1: "Some"},
    "core::result::Result": {0: "Ok", 1: "Err"},
    "core::cmp::Ordering": {255: "Less", 0: "Equal", 1: "Greater", -1: "Less"},
}
BRANCH = {"Ok": "Continue", "Some": "Continue", "Err": "Break", "None": "Break"}

# result/option combinators: name -> (tag on which the closure runs, tag map for the others,
#                                     how the result is tagged when the closure ran)
COMB = {
    "core::result::Result::map": ("Ok", {"Err": "Err"}, "Ok"),
    "core::result::Result::and_then": ("Ok", {"Err": "Err"}, None),
    "core::result::Result::map_err": ("Err", {"Ok": "Ok"}, "Err"),
    "core::result::Result::or_else": ("Err", {"Ok": "Ok"}, None),
    "core::result::Result::unwrap_or_else": ("Err", {"Ok": ""}, None),
    "core::result::Result::map_or": ("Ok", {"Err": 1}, None),
    "core::option::Option::map": ("Some", {"None": "None"}, "Some"),
    "core::option::Option::and_then": ("Some", {"None": "None"}, None),
    "core::option::Option::ok_or_else": ("None", {"Some": "Ok"}, "Err"),
    "core::option::Option::unwrap_or_else": ("None", {"Some": ""}, None),
    "core::option::Option::map_or": ("Some", {"None": 1}, None),
    "core::option::Option::is_some_and": ("Some", {"None": "0"}, None),
    "core::option::Option::is_none_or": ("Some", {"None": "1"}, None),
    "core::option::Option::filter": ("Some", {"None": "None"}, ""),
    "core::option::Option::inspect": ("Some", {"None": "None"}, "Some"),
    "core::result::Result::is_ok_and": ("Ok", {"Err": "0"}, None),
    "core::result::Result::is_err_and": ("Err", {"Ok": "0"}, None),
    "core::result::Result::inspect_err": ("Err", {"Ok": "Ok"}, "Err"),
    "core::option::Option::or_else": ("None", {"Some": "Some"}, None),
}
FOREACH = "core::iter::traits::iterator::Iterator::for_each"
TAGFN = {
    "core::result::Result::ok": {"Ok": "Some", "Err": "None"},
    "core::result::Result::err": {"Ok": "None", "Err": "Some"},
    "core::option::Option::ok_or": {"Some": "Ok", "None": "Err"},
    "core::result::Result::map": {"Ok": "Ok", "Err": "Err"},
    "core::result::Result::map_err": {"Ok": "Ok", "Err": "Err"},
    "core::option::Option::map": {"Some": "Some", "None": "None"},
    "core::option::Option::cloned": {"Some": "Some", "None": "None"},
    "core::option::Option::as_ref": {"Some": "Some", "None": "None"},
    "core::option::Option::as_mut": {"Some": "Some", "None": "None"},
    "core::option::Option::take": {"Some": "Some", "None": "None"},
    "core::result::Result::as_ref": {"Ok": "Ok", "Err": "Err"},
    "core::result::Result::and_then": {"Err": "Err"},
    "core::option::Option::and_then": {"None": "None"},
    "core::clone::Clone::clone": {"*": "*"},
    "failure::ResultExt::context": {"Ok": "Ok", "Err": "Err"},
    "failure::result_ext::ResultExt::context": {"Ok": "Ok", "Err": "Err"},
    "failure::result_ext::ResultExt::with_context": {"Ok": "Ok", "Err": "Err"},
}
BOOLFN = {
    "core::result::Result::is_ok": {"Ok": "1", "Err": "0"},
    "core::result::Result::is_err": {"Ok": "0", "Err": "1"},
    "core::option::Option::is_some": {"Some": "1", "None": "0"},
    "core::option::Option::is_none": {"Some": "0", "None": "1"},
}

class Frame:
    __slots__ = ("id", "fn", "body", "parent", "block", "args", "how", "depth", "prom", "gen")
    def __init__(self, id, fn, parent, block, args, how):
        self.id, self.fn, self.body = id, fn, fn.body
        self.parent, self.block, self.args, self.how = parent, block, args, how
        self.depth = 0 if parent is None else parent.depth + 1
        self.prom = False
        self.gen = {}
    def chain(self):
        f, out = self, []
        while f is not None:
            out.append(f.fn); f = f.parent
        return out
    def __repr__(self):
        return "/".join(x.name for x in reversed(self.chain()))

class Ev:
    """An event candidate: kind in entry|stmt|call|edge|ret|drop."""
    __slots__ = ("kind", "frame", "block", "idx", "data", "g", "tag", "env", "fresh")
    def __init__(self, g, kind, frame, block, idx, data, tag=None):
        self.g, self.kind, self.frame, self.block, self.idx, self.data, self.tag = \
            g, kind, frame, block, idx, data, tag
    def data_edge(self):
        return self.idx
    # helpers for predicates
    @property
    def k(self):
        return self.data["f"].get("k") if self.kind == "call" else None
    @property
    def callee(self):
        return callee_name(self.k) if self.kind == "call" else None
    @property
    def callee_impl(self):
        return callee_fn(self.k) if self.kind == "call" else None
    @property
    def line(self):
        if self.kind == "stmt": return self.data[2]
        if self.kind in ("call", "edge"): return self.data.get("ln") if isinstance(self.data, dict) else None
        return None
    def where(self):
        f = self.frame.fn
        return "%s (%s:%s)" % (f.path, f.file, self.line or f.line)

def liveness(body):
    if getattr(body, "_live", None) is not None: return body._live
    n = len(body.blocks)
    use, deff = [set() for _ in range(n)], [set() for _ in range(n)]
    def u(i, l):
        if l not in deff[i]: use[i].add(l)
    for i, b in enumerate(body.blocks):
        for st in b["s"]:
            r = st[1]
            for o in operands(r):
                p = op_place(o)
                if p: u(i, p.local)
            if r["r"] in ("ref", "discr"): u(i, r["p"][0])
            if len(st[0]) > 1: u(i, st[0][0])
            else: deff[i].add(st[0][0])
        t = b["t"]
        if t["k"] == "call":
            for o in [t["f"]] + t["a"]:
                p = op_place(o)
                if p: u(i, p.local)
            if len(t["d"]) == 1: deff[i].add(t["d"][0])
        elif t["k"] in ("switch", "assert"):
            p = op_place(t["o"])
            if p: u(i, p.local)
        elif t["k"] == "drop":
            pass
        elif t["k"] == "ret":
            use[i].add(0)
    live = [set(x) for x in use]
    changed = True
    while changed:
        changed = False
        for i in range(n - 1, -1, -1):
            o = set()
            for s in body.succs(i): o |= live[s]
            new = use[i] | (o - deff[i])
            if new != live[i]:
                live[i] = new; changed = True
    # a borrowed local stays live while a holder of the borrow is live
    direct = {}
    edges = {}
    def holds(l):
        t = body.ty(l)
        return "&" in t or "'" in t or "dyn " in t or "closure" in t or "*const" in t or "*mut" in t or "{" in t
    for b in body.blocks:
        for st in b["s"]:
            r = st[1]
            d = st[0][0]
            if r["r"] == "ref":
                # `&(*p).f` borrows what p points to, not p
                direct.setdefault(r["p"][0], set()).add(d)
            for o in operands(r):
                p = op_place(o)
                if p and holds(d): edges.setdefault(p.local, set()).add(d)
        t = b["t"]
        if t["k"] == "call":
            for o in t["a"]:
                p = op_place(o)
                if p and holds(t["d"][0]): edges.setdefault(p.local, set()).add(t["d"][0])
    body._addr = {}
    for x, rs in direct.items():
        seen, work = set(), list(rs)
        while work:
            l = work.pop()
            if l in seen: continue
            seen.add(l)
            work.extend(edges.get(l, ()))
            if l in direct: work.extend(direct[l])
        body._addr[x] = seen
    body._live = live
    return live

def dropflags(body):
    if getattr(body, "_df", None) is not None: return body._df
    cand = {}
    for i, l in enumerate(body.locals):
        if i and l[0] == "bool" and len(l) == 1: cand[i] = True      # (local 0 is what is returned)
    for bi, b in enumerate(body.blocks):
        for st in b["s"]:
            l = st[0][0]
            if l in cand and not (st[1]["r"] == "use" and "k" in st[1]["o"]): cand.pop(l, None)
        t = b["t"]
        if t["k"] == "call": cand.pop(t["d"][0], None)
    flags = set()
    for bi, b in enumerate(body.blocks):
        t = b["t"]
        if t["k"] == "switch":
            p = op_place(t["o"])
            if p and p.local in cand and not p.proj:
                for s in body.succs(bi):
                    if body.blocks[s]["t"]["k"] == "drop": flags.add(p.local)
    for b in body.blocks:          # flags that are only ever assigned
        pass
    used = set()
    for b in body.blocks:
        for st in b["s"]:
            for o in operands(st[1]):
                p = op_place(o)
                if p: used.add(p.local)
        t = b["t"]
        if t["k"] == "switch":
            p = op_place(t["o"])
            if p: used.add(p.local)
        if t["k"] == "call":
            for o in t["a"]:
                p = op_place(o)
                if p: used.add(p.local)
    for l in list(cand):
        if l not in used: flags.add(l)
    body._df = flags
    return flags

class Limit(Exception):
    pass

FLIP = {"Eq": "Ne", "Ne": "Eq"}

def const_tag(k):
    """Abstract value of a constant operand (None: unknown)."""
    if k is None: return None
    if k.get("ty") == "bool" and "v" in k: return str(k["v"])
    if "var" in k: return k["var"]
    if "agg" in k and isinstance(k["agg"], dict) and "var" in k["agg"]: return k["agg"]["var"]
    if "s" in k: return ("s", k["s"])
    if "v" in k and isinstance(k["v"], int): return ("i", k["v"])
    if k.get("kind") == "ctor": return None
    return None

def fold(op, x, y):
    if isinstance(x, tuple) and isinstance(y, tuple) and x[0] == y[0] == "i":
        a, b = x[1], y[1]
        try:
            if op in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
                return str(int({"Eq": a == b, "Ne": a != b, "Lt": a < b, "Le": a <= b,
                                "Gt": a > b, "Ge": a >= b}[op]))
            v = {"Add": lambda: a + b, "Sub": lambda: a - b, "Mul": lambda: a * b,
                 "BitOr": lambda: a | b, "BitAnd": lambda: a & b, "BitXor": lambda: a ^ b,
                 "Shl": lambda: a << b, "Shr": lambda: a >> b}.get(op)
            return ("i", v()) if v else None
        except Exception:
            return None
    if isinstance(x, tuple) and isinstance(y, tuple) and x[0] == y[0] == "s" and op in ("Eq", "Ne"):
        return str(int((x[1] == y[1]) == (op == "Eq")))
    if isinstance(x, str) and isinstance(y, str) and not x.startswith("!") and not y.startswith("!"):
        if x in ("0", "1") and y in ("0", "1"):
            a, b = int(x), int(y)
            if op in ("Eq", "Ne"): return str(int((a == b) == (op == "Eq")))
            if op == "BitAnd": return str(a & b)
            if op == "BitOr": return str(a | b)
            if op == "BitXor": return str(a ^ b)
    if op == "BitAnd" and "0" in (x, y): return "0"
    if op == "BitOr" and "1" in (x, y): return "1"
    return None

DEREF = {"core::ops::deref::Deref::deref", "core::ops::deref::DerefMut::deref_mut"}
SAMEREF = {"core::convert::AsRef::as_ref", "core::borrow::Borrow::borrow", "core::borrow::BorrowMut::borrow_mut"}
PLAINEQ = re.compile(r"<(?:&+)?([\w:]+) as core::cmp::PartialEq>::(?:eq|ne)$")
EQFN = {"core::cmp::PartialEq::eq": "Eq", "core::cmp::PartialEq::ne": "Ne"}

class Graph:
    def __init__(self, P, root, relevant=None, max_depth=14, max_states=600000, keep_params=False,
                 seed=None):
        """relevant: predicate or set of Fn to expand."""
        self.P, self.root = P, root
        self.relevant = relevant if relevant is not None else set()
        self.max_depth, self.max_states = max_depth, max_states
        self.frames = []
        self._memo = {}
        self._exp = {}
        self._pk = {}
        self._tr = {}
        self.keep = keep_params
        self.trans = None           # transitions walked, when recorded
        self.conv = False           # follow conversions into the workspace's enums
        self.rootf = self._frame(root, None, None, None, "root")
        self.visited_fns = set()
        self.seed = seed or {}
        self.states = 0

    def isrel(self, fn):
        r = self.relevant
        return r(fn) if callable(r) else fn in r

    def _frame(self, fn, parent, block, args, how):
        key = (fn.h, parent.id if parent else -1, block, how)
        f = self._memo.get(key)
        if f is None:
            f = Frame(len(self.frames), fn, parent, block, args, how)
            self.frames.append(f)
            self._memo[key] = f
        return f

    def _frame_prom(self, frame, i, body):
        key = ("prom", frame.id, i)
        f = self._memo.get(key)
        if f is None:
            f = Frame(len(self.frames), frame.fn, frame, None, [], "prom")
            f.body = body
            f.prom = True
            self.frames.append(f)
            self._memo[key] = f
        return f

    # ------------------------------------------------------------------------------------
    def expand(self, frame, bi, t):
        """-> list of (Frame, mode) for a call; mode: 'direct' | 'closure'."""
        ck = (frame.id, bi)
        if ck in self._exp: return self._exp[ck]
        P = self.P
        k = t["f"].get("k")
        out = []
        self._exp[ck] = out
        if frame.depth >= self.max_depth or not k: return out
        inchain = {f.h for f in frame.chain()}
        gen = self._gen(frame)
        tgt = P.targets(k, gen)
        cv = self.converter(frame, k)
        if cv is not None:
            if cv.h not in inchain: out.append((self._frame(cv, frame, bi, t["a"], "call"), "direct"))
            return out
        for x in tgt:
            if x.h in inchain: continue
            if x.kind == "closure":
                out.append((self._frame(x, frame, bi, t["a"], "callclosure"), "direct"))
            elif self.isrel(x) and not self._plain_eq(x):
                nf = self._frame(x, frame, bi, t["a"], "call")
                g = k.get("ig") or k.get("g") or []
                if x.gp and len(g) == len(x.gp) and x.h == k["h"]:
                    nf.gen = {p: gen.get(y, y) for p, y in zip(x.gp, g)}
                out.append((nf, "direct"))
        if not out and (not tgt or all(not self.isrel(x) or self._plain_eq(x) for x in tgt)):
            for h in k.get("cl", []):
                x = P.by_h.get(h)
                if x is not None and x.h not in inchain:
                    out.append((self._frame(x, frame, bi, t["a"], "closure:" + callee_name(k)), "closure"))
            for a in t["a"]:
                kk = a.get("k")
                if kk and "fn" in kk:
                    for x in P.targets(kk):
                        if self.isrel(x) and x.h not in inchain:
                            fr = self._frame(x, frame, bi, t["a"], "closure:" + callee_name(k))
                            if (fr, "closure") not in out: out.append((fr, "closure"))
        return out

    def converter(self, frame, k):
        """The workspace's own `From` a conversion into one of its enums goes through."""
        if not self.conv or not k or k.get("tm") not in ("core::convert::Into::into", "core::convert::From::from"): return None
        gen = self._gen(frame)
        g = [gen.get(x, x) for x in k.get("g") or []]
        if len(g) != 2: return None
        s, d = g if k["tm"].endswith("into") else (g[1], g[0])
        a = self.P.adts.get(d)
        if a is None or len(a["vars"]) < 2: return None
        r = getattr(self.P, "_froms", None)
        if r is None: r = self.P._froms = {f.path: f for f in self.P.fns if f.path.endswith(">::from") and f.body is not None}
        return r.get("<%s as core::convert::From<%s>>::from" % (d, s))

    def _gen(self, frame):
        """Type arguments in force in a frame: those of the function it is, or was created in."""
        if frame.fn.kind != "closure": return frame.gen
        f = frame.parent
        while f is not None:
            if f.fn.h == frame.fn.parent: return self._gen(f)
            f = f.parent
        return {}

    def _plain_eq(self, fn):
        """Derived equality of a fieldless enum: kept as an equation between variants."""
        if fn.name not in ("eq", "ne"): return False
        m = PLAINEQ.match(fn.path)
        if not m: return False
        a = self.P.adts.get(m.group(1))
        return bool(a) and len(a["vars"]) > 1 and all(not v.get("f") for v in a["vars"])

    # ------------------------------------------------------------------------------------
    def _variant(self, adt, val):
        m = STD_DISCR.get(adt)
        if m is not None: return m.get(val)
        a = self.P.adts.get(adt)
        if a:
            for v in a["vars"]:
                if v["d"] == val: return v["n"]
        return None

    def _all_variants(self, adt):
        m = STD_DISCR.get(adt)
        if m is not None: return set(m.values())
        a = self.P.adts.get(adt)
        return {v["n"] for v in a["vars"]} if a else set()

    def closure_agg(self, frame):
        """(frame, aggregate rvalue) where the closure body of `frame` was created."""
        f = frame.parent
        while f is not None:
            for b in f.body.blocks:
                for st in b["s"]:
                    r = st[1]
                    if r["r"] == "agg" and r.get("k") == "closure" and r.get("h") == frame.fn.h:
                        return f, r
            f = f.parent
        return None, None

    def _pkey(self, frame, place):
        ck = (frame.id, place.local, place.proj)
        r = self._pk.get(ck)
        if r is None:
            r = self._pkey0(frame, place.local, place.proj)
            self._pk[ck] = r
        return r

    def _pkey0(self, frame, local, proj):
        """Canonical key (frame id, local, proj) of a place: references are resolved through
        single-definition locals, call arguments, closure captures and Deref."""
        for _ in range(40):
            body = frame.body
            if not proj: break
            if 1 <= local <= body.argc:
                if frame.fn.kind == "closure" and local == 1:
                    pr = proj
                    if pr[0] == "*": pr = pr[1:]
                    if pr and pr[0].startswith("."):
                        cf, agg = self.closure_agg(frame)
                        if cf is not None:
                            try:
                                i = int(pr[0][1:].split("@")[0].split("#")[0])
                            except ValueError:
                                i = None
                            if i is not None and i < len(agg["a"]):
                                q = op_place(agg["a"][i])
                                if q is not None:
                                    frame, local, proj = cf, q.local, q.proj + pr[1:]
                                    continue
                    break
                if proj[0] == "*" and frame.how == "call" and not body.defs().get(local):
                    a = frame.args[local - 1] if local - 1 < len(frame.args) else None
                    q = op_place(a) if a else None
                    if q is not None:
                        frame, local, proj = frame.parent, q.local, q.proj + proj
                        continue
                break
            ds = body.defs().get(local, [])
            full = [d for d in ds if d[1] == -1 and len(d[2]["d"]) == 1 or d[1] >= 0 and len(d[2][0]) == 1]
            if len(full) != 1: break
            d = full[0]
            if d[1] == -1:
                k = d[2]["f"].get("k")
                n = callee_name(k)
                if proj[0] == "*" and n in DEREF | SAMEREF and d[2]["a"]:
                    q = op_place(d[2]["a"][0])
                    if q is not None:
                        extra = ("*",) if n in SAMEREF else ("*", "~")
                        local, proj = q.local, q.proj + extra + proj[1:]
                        continue
                break
            r = d[2][1]
            if r["r"] == "ref" and proj[0] == "*":
                q = Place(r["p"])
                local, proj = q.local, q.proj + proj[1:]
                continue
            if r["r"] == "use" or r["r"] == "cast":
                q = op_place(r["o"])
                if q is not None and proj[0] == "*":
                    local, proj = q.local, q.proj + proj
                    continue
            if r["r"] == "agg" and r.get("k") in ("tuple", "closure") and len(proj) > 1 and proj[1] == "*" \
                    and proj[0].startswith("."):
                try:
                    i = int(proj[0][1:].split("@")[0].split("#")[0])
                except ValueError:
                    break
                if i < len(r["a"]):
                    q = op_place(r["a"][i])
                    if q is not None:
                        local, proj = q.local, q.proj + proj[1:]
                        continue
            break
        return (frame.id, local, proj)

    def _kill(self, env, fid, local, proj=()):
        ks = [k for k in env if k[0] == fid and k[1] == local and
              (k[2][:len(proj)] == proj or proj[:len(k[2])] == k[2] and len(k[2]) < len(proj)
               and not (proj[len(k[2])].startswith(("#", ".", "*", "~"))))]
        for k in ks: env.pop(k, None)

    def _optag(self, frame, env, o):
        if "k" in o: 
            k = o["k"]
            if "prom" in k:
                return self._promtag(frame, k)
            return const_tag(k)
        return env.get(self._pkey(frame, op_place(o)))

    def _promtag(self, frame, k):
        return None

    def _refconst(self, frame, o):
        """The abstract value of what a reference operand points at, when it is a constant."""
        if "k" in o:
            k = o["k"]
            if "prom" in k:
                pb = frame.fn.proms[k["prom"]] if k["prom"] < len(frame.fn.proms) else None
                if pb is not None:
                    for b in pb.blocks:
                        for st in b["s"]:
                            r = st[1]
                            if r["r"] == "agg" and "var" in r and not r["a"]: return r["var"]
                            if r["r"] == "use" and "k" in r["o"]:
                                return const_tag(r["o"]["k"])
                return None
            return const_tag(k)
        return None

    def _through(self, frame, env, o):
        """(key, tag) of the value behind a (possibly multi-level) reference operand."""
        c = self._refconst(frame, o)
        if c is not None: return None, c
        if "k" in o: return None, None
        p = op_place(o)
        ty = frame.body.ty(p.local) if not p.proj else ""
        n = 0
        while ty.startswith("&"):
            n += 1
            ty = ty[1:].replace("mut ", "", 1) if ty[1:].startswith("mut ") else ty[1:]
            if ty.startswith("'"): ty = ty.split(" ", 1)[-1]
            if ty.startswith("mut "): ty = ty[4:]
        if p.proj and n == 0: n = 1
        if ty == "str" and n >= 1: n -= 1
        key = self._pkey(frame, Place([p.local, *p.proj] + ["*"] * n))
        tag = env.get(key)
        if tag is None and key[2] and key[2][-1] == "*":
            # the reference itself may be a known constant
            k2 = (key[0], key[1], key[2][:-1])
            ds = self.frames[key[0]].body.defs().get(key[1], [])
            if len(ds) == 1 and ds[0][1] >= 0 and ds[0][2][1]["r"] == "use" and key[2] == ("*",):
                tag = self._refconst(self.frames[key[0]], ds[0][2][1]["o"])
        return key, tag

    def _adtof(self, frame, args):
        ty = ""
        for o in args:
            p = op_place(o)
            if p is not None and not p.proj: ty = frame.body.ty(p.local)
        m = re.match(r"(?:&(?:'\w+ )?(?:mut )?)*([\w:]+)", ty)
        return m.group(1) if m else None

    def _outer(self, frame, args, tag):
        """A constant is named by what it holds; as an option it is only known to hold something."""
        if tag is None or self._adtof(frame, args) != "core::option::Option": return tag
        if isinstance(tag, str) and tag.lstrip("!") in ("None", "Some"): return tag
        return None if isinstance(tag, tuple) and tag[0] == "rel" else "Some"

    def _whole(self, frame, args, tag):
        """Does the fact say all there is to say about a value of the type these operands refer to?"""
        if not isinstance(tag, str) or tag in ("0", "1"): return True
        adt = self._adtof(frame, args)
        names = [x.lstrip("!") for x in tag.lstrip("|!").split(",")]
        if adt == "core::cmp::Ordering": return True
        if adt in STD_DISCR: return all(n == "None" for n in names)
        a = self.P.adts.get(adt)
        return bool(a) and all(not v.get("f") for v in a["vars"] if v["n"] in names)

    def _copy_sub(self, env, src, out, prefix=()):
        for kk, vv in env.items():
            if kk[0] == src[0] and kk[1] == src[1] and kk[2][:len(src[2])] == src[2] and len(kk[2]) > len(src[2]):
                out[prefix + kk[2][len(src[2]):]] = vv

    def _stmt(self, frame, env, st):
        dst, r = Place(st[0]), st[1]
        tag = None
        k = r["r"]
        df = dropflags(frame.body)
        if not dst.proj and dst.local in df: return
        sub = {}
        if k == "use":
            tag = self._optag(frame, env, r["o"])
            p = op_place(r["o"])
            if p is not None and isinstance(tag, tuple) and tag[0] == "i" and len(frame.body.defs().get(dst.local, ())) > 1:
                tag = None          # loop-carried counters are not propagated
            if p is not None:
                src = self._pkey(frame, p)
                self._copy_sub(env, src, sub)
            elif "agg" in r["o"]["k"]:
                self._constsub(r["o"]["k"]["agg"], sub, ())
        elif k == "agg" and r.get("k") in ("adt", "tuple"):
            adt = r.get("adt", "tuple")
            pre = ()
            if "var" in r and r.get("enum", True) and adt in self.P.adts and len(self.P.adts[adt]["vars"]) > 1 \
                    or adt in STD_DISCR:
                tag = r["var"]
                pre = ("#" + r["var"],)
            elif "var" in r:
                tag = r["var"]
            names = r.get("f") or [str(i) for i in range(len(r["a"]))]
            for a, fname in zip(r["a"], names):
                fk = pre + (".%s@%s" % (fname, adt),)
                tt = self._optag(frame, env, a)
                if tt is not None: sub[fk] = tt
                p = op_place(a)
                if p is not None: self._copy_sub(env, self._pkey(frame, p), sub, fk)
        elif k == "setdiscr":
            tag = r["var"]
        elif k == "un" and r["op"] == "Not":
            x = self._optag(frame, env, r["o"])
            if x in ("0", "1"): tag = "1" if x == "0" else "0"
            elif isinstance(x, tuple) and x[0] == "rel":
                tag = ("rel", x[1], x[2], not x[3])
        elif k == "bin":
            x, y = self._optag(frame, env, r["a"]), self._optag(frame, env, r["b"])
            op = r["op"]
            base = op.replace("WithOverflow", "").replace("Unchecked", "")
            tag = fold(base, x, y)
            if op.endswith("WithOverflow"):
                if tag is not None: sub[(".0@tuple",)] = tag
                tag = None
            elif tag is None and op in ("Eq", "Ne"):
                for o, c in ((r["a"], y), (r["b"], x)):
                    p = op_place(o)
                    if p is not None and isinstance(c, tuple) and c[0] == "i":
                        tag = ("rel", self._pkey(frame, p), c, op == "Eq")
        elif k == "cast":
            tag = self._optag(frame, env, r["o"])
            if isinstance(tag, str) and tag in ("0", "1") and r.get("ty", "") != "bool": tag = ("i", int(tag))
            elif isinstance(tag, str): tag = None
        elif k == "discr":
            pass
        key = self._pkey(frame, dst)
        self._kill(env, key[0], key[1], key[2])
        if tag is not None: env[key] = tag
        for s, v in sub.items(): env[(key[0], key[1], key[2] + s)] = v

    def _constsub(self, agg, sub, pre):
        """Facts about a constant aggregate {var, adt, f:[..]}."""
        if not isinstance(agg, dict): return
        return

    def _prune(self, frame, env, b):
        live = liveness(frame.body)[b]
        addr = frame.body._addr
        dead = [k for k in env if k[0] == frame.id and k[1] not in live and k[1] != 0
                and not (k[1] in addr and addr[k[1]] & live)
                and not (self.keep and frame is self.rootf and 1 <= k[1] <= frame.body.argc)]
        for k in dead: env.pop(k, None)

    def _args_env(self, frame, env, nf, args):
        if nf.how == "call":
            for i, a in enumerate(args):
                if i + 1 > nf.body.argc: break
                t = self._optag(frame, env, a)
                if t is not None: env[(nf.id, i + 1, ())] = t
                p = op_place(a)
                if p is not None:
                    sub = {}
                    self._copy_sub(env, self._pkey(frame, p), sub)
                    for s, v in sub.items(): env[(nf.id, i + 1, s)] = v

    # ------------------------------------------------------------------------------------
    def _init(self):
        env = {}
        for (local, proj), v in self.seed.items(): env[(self.rootf.id, local, proj)] = v
        return [((self.rootf, 0, 0, frozenset(env.items())), None)]

    def search(self, goal, block=None, start=None, given=None, late=False):
        """Path (list of Ev) from the entry -- or from just after each event satisfying `start` -- to
        an event satisfying goal, that passes no event satisfying block; None if there is none.
        Nothing satisfying `given` happens before or after the start.  `start` may list several
        events to be passed in turn; with `late`, `given` holds only from the first of them on."""
        init = self._init()
        if given is not None:
            b = block
            block = given if b is None else lambda ev: given(ev) or b(ev)
        if start is not None:
            for i, s in enumerate(start if isinstance(start, (list, tuple)) else [start]):
                init = [(st, None) for st in self._walk(init, None, given if i or not late else None, collect=s)]
                if not init: return None
        return self._walk(init, goal, block)

    def events(self, pred, block=None, start=None):
        """Distinct events satisfying pred on feasible paths."""
        seen = {}
        def goal(ev):
            if pred(ev):
                seen.setdefault((ev.frame.id, ev.block, ev.idx if ev.kind != "edge" else repr(ev.data_edge()), ev.kind), ev)
            return False
        init = self._init()
        if start is not None:
            init = [(st, None) for st in self._walk(init, None, None, collect=start)]
        self._walk(init, goal, block)
        return list(seen.values())
    count = events

    def rets(self):
        """Set of (env facts) at the root's returns: list of dicts."""
        out = []
        def goal(ev):
            if ev.kind == "ret" and ev.frame is self.rootf: out.append(dict(ev.env))
            return False
        self._walk(self._init(), goal, None)
        return out

    def _walk(self, init, goal, block, collect=None):
        parent = {}
        dq = deque()
        collected = []
        for s, ev in init:
            if s not in parent:
                parent[s] = (None, ev); dq.append(s)
        n = 0
        def path(s, ev):
            out = [ev]
            while s is not None:
                ps, pev = parent[s]
                if pev is not None: out.append(pev)
                s = ps
            return list(reversed(out))
        def push(s, frm, ev=None):
            if self.trans is not None: self.trans.append((frm, s, ev))
            if s not in parent:
                parent[s] = (frm, ev); dq.append(s)
        def check(ev):
            if goal is not None and goal(ev): return "goal"
            if block is not None and block(ev): return "cut"
            return None
        while dq:
            st = dq.popleft()
            n += 1
            self.states += 1
            if n > self.max_states: raise Limit("state limit in %s" % self.root.path)
            frame, b, si, fenv = st
            self.visited_fns.add(frame.fn)
            env = dict(fenv)
            body = frame.body
            blk = body.blocks[b]
            if b == 0 and si == 0:
                ev = Ev(self, "entry", frame, b, -1, None)
                ev.env = env
                c = check(ev)
                if c == "goal": return path(st, ev)
                if c == "cut": continue
                if collect is not None and collect(ev): collected.append(st)
            cut = False
            for i in range(si, len(blk["s"])):
                s = blk["s"][i]
                ev = Ev(self, "stmt", frame, b, i, s)
                ev.env = env
                c = check(ev)
                if c == "goal": return path(st, ev)
                if c == "cut": cut = True; break
                self._stmt(frame, env, s)
                if collect is not None and collect(ev):
                    collected.append((frame, b, i + 1, frozenset(env.items())))
            if cut: continue
            t = blk["t"]
            k = t["k"]
            if k == "goto":
                self._prune(frame, env, t["t"])
                push((frame, t["t"], 0, frozenset(env.items())), st)
            elif k == "drop":
                ev = Ev(self, "drop", frame, b, "T", t)
                ev.env = env
                c = check(ev)
                if c == "goal": return path(st, ev)
                if c == "cut": continue
                e2 = dict(env)
                p = Place(t["p"])
                if not p.proj: self._kill(e2, frame.id, p.local)
                self._prune(frame, e2, t["t"])
                nst = (frame, t["t"], 0, frozenset(e2.items()))
                if collect is not None and collect(ev): collected.append(nst)
                push(nst, st)
            elif k == "assert":
                self._prune(frame, env, t["t"])
                push((frame, t["t"], 0, frozenset(env.items())), st)
            elif k == "switch":
                for nst, ev in self._switch(frame, b, env, t):
                    ev.env = env
                    c = check(ev)
                    if c == "goal": return path(st, ev)
                    if c == "cut": continue
                    if collect is not None and collect(ev): collected.append(nst)
                    push(nst, st, ev)
            elif k == "ret":
                tag = env.get((frame.id, 0, ()))
                ev = Ev(self, "ret", frame, b, "T", t, tag)
                ev.env = env
                c = check(ev)
                if c == "goal": return path(st, ev)
                if c == "cut": continue
                if self.trans is not None and frame.parent is None: self.trans.append((st, None, ev))
                if frame.parent is not None:
                    self._taken = {}
                    for nst in self._return(frame, env):
                        if collect is not None and collect(ev): collected.append(nst)
                        on = self._taken.get(nst)
                        if on is not None:      # another turn of a for_each, or its end
                            c = check(on)
                            if c == "goal": return path(st, on)
                            if c == "cut": continue
                            if collect is not None and collect(on): collected.append(nst)
                        push(nst, st, on) if on is not None else push(nst, st)
            elif k == "call":
                ev = Ev(self, "call", frame, b, "T", t)
                ev.env = env
                c = check(ev)
                if c == "goal": return path(st, ev)
                if c == "cut": continue
                self._taken = {}
                for nst in self._call(frame, b, env, t):
                    on = self._taken.get(nst)
                    if on is not None:      # a choice made by an adaptor of an option or result
                        c = check(on)
                        if c == "goal": return path(st, on)
                        if c == "cut": continue
                        if collect is not None and collect(on): collected.append(nst)
                    push(nst, st, on or ev)
                if collect is not None and collect(ev) and t["t"] >= 0:
                    e2 = dict(env)
                    self._invalidate(frame, e2, t)
                    self._kill(e2, frame.id, t["d"][0], tuple(t["d"][1:]))
                    collected.append((frame, t["t"], 0, frozenset(e2.items())))
        return collected if collect is not None else None

    def _switch(self, frame, b, env, t):
        p = op_place(t["o"])
        out = []
        key = self._pkey(frame, p) if p is not None else None
        src = None           # place whose variant is switched on
        adt = None
        if p is not None and not p.proj:
            ds = frame.body.defs().get(p.local, [])
            dd = [d for d in ds if d[1] >= 0 and d[2][1]["r"] == "discr"]
            if dd and len(dd) == len(ds):
                d = [x for x in dd if x[0] == b] or dd
                d = d[-1]
                src = self._pkey(frame, Place(d[2][1]["p"]))
                adt = d[2][1]["adt"]
        isbool = t["ty"] == "bool"
        covered = set()
        isflag = p is not None and not p.proj and p.local in dropflags(frame.body)
        for v, tgt in t["v"] + [[None, t["d"]]]:
            e2 = dict(env)
            tagout = v
            if src is not None:
                allv = self._all_variants(adt)
                var = self._variant(adt, v) if v is not None else None
                if v is not None: covered.add(var)
                known = env.get(src)
                if isinstance(known, str) and known.startswith("!"):
                    ex = set(known[1:].split(","))
                    if var is not None and var in ex: continue
                    if v is None and allv:
                        rest = allv - covered - ex
                        if not rest: continue
                        e2[src] = next(iter(rest)) if len(rest) == 1 else "!" + ",".join(sorted(ex | covered))
                    elif var is not None: e2[src] = var
                elif known is not None:
                    if v is not None and var is not None and var != known: continue
                    if v is None and known in covered: continue
                else:
                    if v is not None and var is not None: e2[src] = var
                    if v is None and allv:
                        rest = allv - covered
                        if not rest: continue
                        e2[src] = next(iter(rest)) if len(rest) == 1 else "!" + ",".join(sorted(covered))
                tagout = e2.get(src)
            elif isbool and key is not None:
                known = env.get(key)
                val = str(v) if v is not None else ("1" if "0" in covered else "0")
                if v is not None: covered.add(val)
                if isinstance(known, str):
                    if val != known: continue
                elif isinstance(known, tuple) and known[0] == "rel":
                    holds = (val == "1") == known[3]
                    c, rk = known[2], known[1]
                    if holds:
                        if not self._assume(e2, rk, c): continue
                    elif isinstance(c, str):
                        if not self._assume_not(e2, rk, c): continue
                    e2[key] = val
                elif not isflag:
                    e2[key] = val
                    ds = frame.body.defs().get(p.local, []) if not p.proj else []
                    if len(ds) == 1 and ds[0][1] >= 0 and ds[0][2][1]["r"] == "use":
                        q = op_place(ds[0][2][1]["o"])
                        if q is not None and q.proj: e2[self._pkey(frame, q)] = val
                tagout = val
            elif key is not None:
                known = env.get(key)
                if v is not None: covered.add(v)
                if isinstance(known, tuple) and known[0] == "i":
                    if v is not None and v != known[1]: continue
                    if v is None and known[1] in covered: continue
                elif v is not None:
                    e2[key] = ("i", v)
                    # a switch on a copied integer also refines its source
                    ds = frame.body.defs().get(p.local, []) if not p.proj else []
                    if len(ds) == 1 and ds[0][1] >= 0 and ds[0][2][1]["r"] == "use":
                        q = op_place(ds[0][2][1]["o"])
                        if q is not None: e2[self._pkey(frame, q)] = ("i", v)
            ev = Ev(self, "edge", frame, b, (v, tgt), t)
            ev.tag = (src, adt, tagout) if src is not None else (key, None, tagout)
            ev.fresh = isbool and key is not None and not isinstance(env.get(key), str)      # not a constant assigned on this path
            self._prune(frame, e2, tgt)
            out.append(((frame, tgt, 0, frozenset(e2.items())), ev))
        return out

    def _assume(self, env, key, c):
        """Add the fact key == c; False if it contradicts."""
        if isinstance(c, str) and c.startswith("|"):      # one of several variants
            opts = c[1:].split(",")
            cur = env.get(key)
            if isinstance(cur, str):
                if cur.startswith("!"): return bool(set(opts) - set(cur[1:].split(",")))
                return cur in opts
            if len(opts) == 1: env[key] = opts[0]
            return True
        cur = env.get(key)
        if cur is not None and not (isinstance(cur, tuple) and cur[0] == "rel"):
            if isinstance(cur, str) and cur.startswith("!"):
                if c in cur[1:].split(","): return False
            elif cur != c: return False
        env[key] = c
        return True

    def _assume_not(self, env, key, c):
        opts = c[1:].split(",") if c.startswith("|") else [c]
        cur = env.get(key)
        if isinstance(cur, str):
            if cur.startswith("!"):
                env[key] = "!" + ",".join(sorted(set(cur[1:].split(",")) | set(opts)))
                return True
            return cur not in opts
        if cur is None and all(o and not o[0].isdigit() for o in opts):
            env[key] = "!" + ",".join(sorted(opts))
        return True

    def _cont(self, frame, env, t, tag, sub=None):
        e2 = dict(env)
        d = Place(t["d"])
        key = self._pkey(frame, d)
        self._kill(e2, key[0], key[1], key[2])
        if tag is not None: e2[key] = tag
        for s, v in (sub or {}).items(): e2[(key[0], key[1], key[2] + s)] = v
        self._prune(frame, e2, t["t"])
        return (frame, t["t"], 0, frozenset(e2.items()))

    def _invalidate(self, frame, env, t):
        """Facts about places handed out by &mut to an opaque call are forgotten."""
        for a in t["a"]:
            p = op_place(a)
            if p is None or p.proj: continue
            ty = frame.body.ty(p.local)
            if ty.startswith("&mut") or ty.startswith("&'") and " mut " in ty[:12]:
                key = self._pkey(frame, Place([p.local, "*"]))
                for kk in [kk for kk in env if kk[0] == key[0] and kk[1] == key[1] and kk[2][:len(key[2])] == key[2]]:
                    env.pop(kk)

    def _call(self, frame, b, env, t):
        out = []
        k = t["f"].get("k")
        name = callee_name(k)
        exp = self.expand(frame, b, t)
        direct = [f for f, m in exp if m == "direct"]
        clos = [f for f, m in exp if m == "closure"]
        if direct:
            for f in direct:
                e2 = dict(env)
                self._args_env(frame, e2, f, t["a"])
                out.append((f, 0, 0, frozenset(e2.items())))
            tg = self.P.targets(k, self._gen(frame))
            if self.converter(frame, k) is None and any((not self.isrel(x) or self._plain_eq(x)) and x.kind != "closure" for x in tg) and t["t"] >= 0:
                out.append(self._cont(frame, env, t, None))
            return out
        if t["t"] < 0 and not clos: return out
        rtag = self._optag(frame, env, t["a"][0]) if t["a"] else None
        if isinstance(rtag, tuple): rtag = None
        comb = COMB.get(name)
        if clos and comb is not None:
            runon, others, after = comb
            adt = name.rsplit("::", 1)[0]
            def taken(st, vt):
                ev = Ev(self, "edge", frame, b, (vt, None), {"o": {"discr": t["a"][0]}, "v": [[vt, None]], "ln": t.get("ln")})
                ev.tag, ev.fresh, ev.env = (None, adt, vt), False, env
                self._taken[st] = ev
                out.append(st)
            for vt in ({rtag} if rtag and not rtag.startswith("!") else {runon} | set(others)):
                if vt == runon:
                    for f in clos:
                        e2 = dict(env)
                        e2[("cb", f.id, ())] = after if after is not None else "<ret>"
                        taken((f, 0, 0, frozenset(e2.items())), vt)
                else:
                    o = others.get(vt)
                    if isinstance(o, int):
                        o = self._optag(frame, env, t["a"][o])
                        if isinstance(o, tuple): o = None
                    taken(self._cont(frame, env, t, o or None), vt)
            return out
        if clos and name == FOREACH and len(clos) == 1 and t["t"] >= 0:
            env = dict(env)
            self._invalidate(frame, env, t)
            return self._turn(clos[0], frame, b, env, t)
        if clos:
            env = dict(env)
            self._invalidate(frame, env, t)
            for f in clos:
                out.append((f, 0, 0, frozenset(env.items())))
            if t["t"] >= 0: out.append(self._cont(frame, env, t, None))
            return out
        tag = None
        sub = {}
        if name == "core::ops::try_trait::Try::branch":
            tag = BRANCH.get(rtag)
            p = op_place(t["a"][0])
            if p is not None and tag == "Continue":
                ss = {}
                self._copy_sub(env, self._pkey(frame, p), ss)
                for s, v in ss.items():
                    if s[0] in ("#Ok", "#Some") and len(s) > 1:
                        sub[("#Continue", ".0@core::ops::control_flow::ControlFlow") + s[2:]] = v
        elif name == "core::ops::try_trait::FromResidual::from_residual":
            dty = frame.body.ty(t["d"][0]) if len(t["d"]) == 1 else ""
            tag = "Err" if dty.startswith("core::result::Result") else \
                  "None" if dty.startswith("core::option::Option") else None
        elif name in EQFN and len(t["a"]) == 2:
            k1, t1 = self._through(frame, env, t["a"][0])
            k2, t2 = self._through(frame, env, t["a"][1])
            pos = EQFN[name] == "Eq"
            def flat(x): return x is not None and not (isinstance(x, str) and x.startswith("!")) and not (isinstance(x, tuple) and x[0] == "rel")
            t1, t2 = self._outer(frame, t["a"], t1), self._outer(frame, t["a"], t2)
            f1, f2 = flat(t1), flat(t2)
            if f1 and f2 and t1 != t2 and type(t1) == type(t2): tag = "0" if pos else "1"
            elif not (self._whole(frame, t["a"], t1) and self._whole(frame, t["a"], t2)): pass      # what the variants hold isn't known
            elif f1 and f2 and t1 == t2 and (isinstance(t1, tuple) or k1 is None or k2 is None): tag = "1" if pos else "0"
            elif k1 is not None and f2: tag = ("rel", k1, t2, pos)
            elif k2 is not None and f1: tag = ("rel", k2, t1, pos)
        elif name in TAGFN and rtag:
            m = TAGFN[name]
            tag = rtag if "*" in m else m.get(rtag)
        elif name == "core::clone::Clone::clone" or name == "alloc::borrow::ToOwned::to_owned":
            kk, tt = self._through(frame, env, t["a"][0])
            if tt is not None: tag = tt
            if kk is not None:
                self._copy_sub(env, kk, sub)
        elif name in ("core::convert::Into::into", "core::convert::From::from", "alloc::string::ToString::to_string"):
            x = self._optag(frame, env, t["a"][0])
            if isinstance(x, tuple) and x[0] in ("s", "i"): tag = x
        elif name in BOOLFN:
            p = op_place(t["a"][0])
            kk = self._pkey(frame, Place([p.local, *p.proj, "*"])) if p is not None else None
            x = env.get(kk) if kk else None
            m = BOOLFN[name]
            if isinstance(x, str) and x in m: tag = m[x]
            elif kk is not None: tag = ("rel", kk, "|" + [v for v in m if m[v] == "1"][0], True)
        elif k and k.get("kind") == "ctor":
            tag = callee_fn(k).split("::")[-1]
            adt = "::".join(callee_fn(k).split("::")[:-1])
            for i, a in enumerate(t["a"]):
                fk = ("#" + tag, ".%d@%s" % (i, adt))
                tt = self._optag(frame, env, a)
                if tt is not None: sub[fk] = tt
        env = dict(env)
        self._invalidate(frame, env, t)
        if t["t"] >= 0:
            out.append(self._cont(frame, env, t, tag, sub))
        return out

    def _turn(self, f, frame, b, env, t):
        """One more element for the closure of a for_each, or none."""
        out = []
        for vt, st in (("Some", (f, 0, 0, frozenset(env.items()))), ("None", self._cont(frame, env, t, None))):
            ev = Ev(self, "edge", frame, b, (vt, None), {"o": {"elem": t["a"][0]}, "v": [[vt, None]], "ln": t.get("ln")})
            ev.tag, ev.fresh, ev.env = (None, "core::option::Option", vt), False, env
            self._taken[st] = ev
            out.append(st)
        return out

    def _return(self, frame, env):
        par = frame.parent
        t = par.body.blocks[frame.block]["t"]
        rtag = env.get((frame.id, 0, ()))
        cb = env.get(("cb", frame.id, ()))
        sub = {}
        for kk, v in env.items():
            if kk[0] == frame.id and kk[1] == 0 and kk[2]: sub[kk[2]] = v
        e2 = {kk: v for kk, v in env.items() if kk[0] != frame.id and not (kk[0] == "cb" and kk[1] == frame.id)}
        if isinstance(rtag, tuple) and rtag[0] == "rel" and rtag[1][0] == frame.id: rtag = None
        for kk in [kk for kk, v in e2.items() if isinstance(v, tuple) and v[0] == "rel" and v[1][0] == frame.id]:
            e2.pop(kk)
        out = []
        if frame.how.startswith("closure:"):
            if frame.how == "closure:" + FOREACH and t["t"] >= 0 and sum(1 for x, m in self.expand(par, frame.block, t) if m == "closure") == 1:
                return self._turn(frame, par, frame.block, e2, t)
            if cb is not None:
                tag = rtag if cb == "<ret>" else cb or None
                if t["t"] >= 0: out.append(self._cont(par, e2, t, tag, sub if cb == "<ret>" else None))
            else:
                out.append((frame, 0, 0, frozenset(e2.items())))
                if t["t"] >= 0: out.append(self._cont(par, e2, t, None))
        elif t["t"] >= 0:
            out.append(self._cont(par, e2, t, rtag, sub))
        return out

def fmt_path(path, limit=14):
    out = []
    for ev in path:
        if ev.kind == "call":
            out.append("%s:%s call %s" % (ev.frame.fn.name, ev.line, ev.callee.split("::")[-1]))
        elif ev.kind == "edge":
            out.append("%s:%s branch %s" % (ev.frame.fn.name, ev.data.get("ln"), ev.tag[2]))
        elif ev.kind in ("stmt", "ret", "drop"):
            out.append("%s:%s %s" % (ev.frame.fn.name, ev.line, ev.kind))
    if len(out) > limit: out = out[:4] + ["..."] + out[-(limit - 4):]
    return " > ".join(out)
