"""Backward origin tracing: where can the value of an operand come from?

Flow-insensitive reaching definitions inside a body, context-sensitive through the frames of a
flow.Graph (parameters -> caller's arguments, closure captures -> creating frame, results of small
workspace callees -> their return places).  Moves, copies, borrows, clones, conversions and
`?`/unwrap are transparent.  Terms are nested tuples; `render` prints one.
"""
import re
from model import Place, op_place, callee_name, callee_fn, strip_generics
from flow import Graph, Frame

WRAP = {"core::option::Option", "core::result::Result", "core::ops::control_flow::ControlFlow"}
# callee -> index of the argument whose value the result is (transparent)
PASS = {}
for n in """core::ops::deref::Deref::deref core::ops::deref::DerefMut::deref_mut core::clone::Clone::clone
core::convert::Into::into core::convert::From::from core::ops::try_trait::Try::branch
core::option::Option::unwrap core::option::Option::expect core::result::Result::unwrap core::result::Result::expect
core::option::Option::as_ref core::option::Option::as_mut core::result::Result::as_ref core::option::Option::cloned
core::option::Option::take core::convert::AsRef::as_ref core::borrow::Borrow::borrow core::borrow::BorrowMut::borrow_mut
alloc::borrow::ToOwned::to_owned alloc::boxed::Box::new alloc::rcs::arc::Arc::new alloc::rcs::rc::Rc::new
alloc::sync::Arc::new alloc::rc::Rc::new core::mem::take core::result::Result::ok core::option::Option::ok_or
core::option::Option::ok_or_else core::result::Result::map_err core::option::Option::unwrap_or_else
core::option::Option::unwrap_or core::option::Option::unwrap_or_default core::result::Result::unwrap_or
alloc::string::ToString::to_string alloc::string::String::as_str alloc::string::String::as_ref alloc::vec::Vec::as_slice
alloc::vec::Vec::as_mut_slice alloc::boxed::Box::into_raw alloc::boxed::Box::from_raw
alloc::string::String::into_boxed_str core::iter::traits::collect::IntoIterator::into_iter
core::slice::iter core::iter::traits::iterator::Iterator::by_ref core::iter::traits::iterator::Iterator::cloned
core::iter::traits::iterator::Iterator::copied core::iter::traits::iterator::Iterator::peekable
core::option::Option::copied core::iter::traits::iterator::Iterator::collect failure::ResultExt::context
core::result::Result::unwrap_or_default core::result::Result::unwrap_or_else core::option::Option::or_else
core::option::Option::or core::cell::RefCell::borrow core::cell::RefCell::borrow_mut core::cell::RefCell::new core::cell::Cell::get
alloc::rcs::rc::Rc::make_mut alloc::rcs::arc::Arc::make_mut core::mem::replace core::hint::must_use
core::iter::traits::iterator::Iterator::rev core::iter::traits::iterator::Iterator::fuse
""".split(): PASS[n] = 0

# callee -> the result is the first argument's value or what the second provides
EITHER = {"core::option::Option::" + x for x in ("unwrap_or", "unwrap_or_else", "or", "or_else")} | {"core::result::Result::unwrap_or"}
SUFFIX_PASS = ("::into_inner", "::unique_value_rc_clone", "ResultExt::context", "ResultExt::with_context")
OPAQUE = {"edn::symbols::Keyword::namespaced", "edn::symbols::Keyword::plain", "core::str::len"}
SHAPE = {"core::result::Result::map", "core::option::Option::map"}
ELEM = {"core::iter::traits::iterator::Iterator::next", "core::iter::traits::double_ended::DoubleEndedIterator::next_back"}

class Tracer:
    def __init__(self, graph, into=None, max_depth=300, opaque=None, only=None):
        self.blank = lambda name: False     # calls whose arguments do not matter
        self.lossy = False          # keep apart the adaptors that leave elements out
        self.shape = False          # follow which outcome a Result has rather than its value
        self.only = only            # (frame id, block) pairs that may execute
        self.walked = {a for a, _ in only} if only is not None else None
        self.g = graph
        self.P = graph.P
        self.into = into if into is not None else (lambda f: len(f.body.blocks) <= 40)
        self.opaque = opaque or (lambda name: False)
        self.max_depth = max_depth
        self.memo = {}
        self._sm = {}
        self._redo = 0
        self.alloc = {}
        self._pushing = set()

    def operand(self, frame, o, depth=0):
        if o is None: return frozenset()
        if "k" in o: return frozenset([self.const(frame, o["k"])])
        if "elem" in o: return frozenset(("discr", t) for t in self.elems(self.operand(frame, o["elem"], depth), depth))
        if "discr" in o: return frozenset(("discr", t) for t in self.operand(frame, o["discr"], depth))
        p = op_place(o)
        return self.place(frame, p.local, p.proj, depth)

    def const(self, frame, k):
        if "fn" in k: return ("fn", callee_fn(k))
        if "s" in k: return ("c", k["s"])
        if "prom" in k:
            pb = frame.fn.proms[k["prom"]] if k["prom"] < len(frame.fn.proms) else None
            if pb is not None:
                pf = self.g._frame_prom(frame, k["prom"], pb)
                ts = self.place(pf, 0, (), 1)
                if len(ts) == 1: return next(iter(ts))
                return ("phi", tuple(sorted(ts, key=repr)))
        if "static" in k: return ("static", strip_generics(k["static"]))
        for x in ("v", "fbits", "b"):
            if x in k: return ("c", k[x] if not isinstance(k[x], list) else tuple(k[x]))
        if "agg" in k: return ("cagg", repr(k["agg"]))
        if "u" in k: return ("u", strip_generics(k["u"]))
        return ("c", k.get("ty"))

    def place(self, frame, local, proj=(), depth=0):
        fid, local, proj = self.g._pkey(frame, Place([local, *proj]))
        frame = self.g.frames[fid]
        key = (fid, local, proj)
        if key in self.memo: return self.memo[key]
        if depth > self.max_depth: return frozenset([("?", "depth")])
        self.memo[key] = frozenset([("rec", fid, local)])
        r = self._place(frame, local, proj, depth)
        r = frozenset(x for x in r if not (x[0] == "rec" and x[1] == fid and x[2] == local))
        if any(x[0] == "rec" for x in r) and self._redo < 20000:
            # incomplete: depends on a place being resolved further up
            self._redo += 1
            del self.memo[key]
        else: self.memo[key] = r
        return r

    def _app(self, terms, proj):
        """Apply a projection to terms."""
        out = set()
        for t in terms:
            out |= self._app1(t, proj)
        return frozenset(out)

    def _app1(self, t, proj):
        i = 0
        while i < len(proj):
            p = proj[i]
            if t[0] == "coll" and p.startswith("["):
                return self._app(t[1], proj[i+1:])
            if p.startswith("[") and t in self.alloc:
                e = self.pushed(t)
                if e: return self._app(e, proj[i+1:])
            if p in ("*", "~"): i += 1; continue
            if p.startswith("#"):
                if t[0] == "agg" and t[2] is not None and len(self.g._all_variants(t[1])) > 1 and t[2] != p[1:]:
                    return frozenset()
                i += 1; continue
            if p.startswith("."):
                f, _, adt = p[1:].partition("@")
                base = strip_generics(adt)
                if base in WRAP and f == "0" and not (t[0] == "agg" and t[1] in WRAP): i += 1; continue
                if t[0] == "agg":
                    m = dict(t[3])
                    if f in m:
                        return self._app(m[f] if isinstance(m[f], frozenset) else frozenset([m[f]]), proj[i+1:])
                    return frozenset()
                if base in WRAP and f == "0": i += 1; continue
                t = ("f", t, f)
                i += 1; continue
            t = ("idx", t)
            i += 1
        return frozenset([t])

    def _place(self, frame, local, proj, depth):
        g = self.g
        body = frame.body
        out = set()
        isparam = 1 <= local <= body.argc and not getattr(frame, "prom", False)
        if isparam:
            if frame.how == "call" and frame.parent is not None and local - 1 < len(frame.args):
                ts = self.operand(frame.parent, frame.args[local - 1], depth + 1)
                out |= self._app(ts, proj)
            elif frame.fn.kind == "closure":
                if local == 1:
                    # captured value without a resolvable projection
                    pr = proj[1:] if proj and proj[0] == "*" else proj
                    cf, agg = g.closure_agg(frame)
                    done = False
                    if cf is not None and pr and pr[0].startswith("."):
                        try:
                            i = int(pr[0][1:].split("@")[0].split("#")[0])
                            out |= self._app(self.operand(cf, agg["a"][i], depth + 1), pr[1:]); done = True
                        except (ValueError, IndexError):
                            pass
                    if not done: out.add(("env", frame.fn.path))
                elif frame.how == "callclosure" and frame.parent is not None:
                    # Fn*::call(closure, (args,))
                    if len(frame.args) > 1:
                        ts = self.operand(frame.parent, frame.args[1], depth + 1)
                        for t in ts:
                            if t[0] == "agg":
                                m = dict(t[3])
                                v = m.get(str(local - 2))
                                if v is not None: out |= self._app(v, proj); continue
                            out |= self._app1(("f", t, str(local - 2)), proj)
                elif frame.parent is not None and frame.how.startswith("closure:"):
                    n = frame.how[8:]
                    ts = self.operand(frame.parent, frame.args[0], depth + 1) if frame.args else ()
                    if n.startswith(("core::option::Option", "core::result::Result")):
                        out |= self._app(ts, proj)
                    else:
                        out |= self._app(self.elems(ts, depth), proj)
                else:
                    out |= self._app1(("p", body.name(local) or "arg%d" % local, frame.fn.name), proj)
            elif frame.parent is not None and frame.how.startswith("closure:"):
                ts = self.operand(frame.parent, frame.args[0], depth + 1) if frame.args else ()
                out |= self._app(self.elems(ts, depth), proj)
            else:
                out |= self._app1(("p", body.name(local) or "arg%d" % local), proj)
        for bi, si, d in body.defs().get(local, []):
            if self.only is not None and frame.id in self.walked and (frame.id, bi) not in self.only: continue
            if si >= 0:
                dst, r = Place(d[0]), d[1]
                if not self._compat(dst.proj, proj): continue
                if dst.proj == proj[:len(dst.proj)]:
                    rest = proj[len(dst.proj):]
                    out |= self.rvalue(frame, r, rest, depth + 1)
                else:
                    # a part of the place is written: part of the whole's origin
                    out |= self.rvalue(frame, r, (), depth + 1)
            else:
                dst = tuple(d["d"][1:])
                if not self._compat(dst, proj): continue
                rest = proj[len(dst):] if dst == proj[:len(dst)] else ()
                part = self._partial(frame, bi, d, depth + 1, rest)
                out |= part if part is not None else self._app(self.call(frame, bi, d, depth + 1, rest), rest)
        return frozenset(out)

    def _compat(self, a, b):
        n = min(len(a), len(b))
        return a[:n] == b[:n]

    def rvalue(self, frame, r, proj, depth):
        k = r["r"]
        if k == "use" :
            p = op_place(r["o"])
            if p is not None: return self.place(frame, p.local, p.proj + proj, depth)
            return self._app(self.operand(frame, r["o"], depth), proj)
        if k == "cast":
            p = op_place(r["o"])
            if p is not None and not proj: return self.place(frame, p.local, p.proj, depth)
            return self._app(self.operand(frame, r["o"], depth), proj)
        if k == "ref" or k == "addr":
            p = Place(r["p"])
            pr = proj[1:] if proj and proj[0] == "*" else proj
            return self.place(frame, p.local, p.proj + pr, depth)
        if k == "agg":
            if r.get("k") == "closure": return frozenset([("closure", r.get("h"))])
            names = r.get("f") or [str(i) for i in range(len(r["a"]))]
            adt = r.get("adt", r.get("k"))
            var = r.get("var")
            pr = list(proj)
            while pr and pr[0] in ("*", "~"): pr.pop(0)
            if pr and pr[0].startswith("#"):
                if len(self.g._all_variants(adt)) > 1 and pr[0][1:] != var: return frozenset()
                pr.pop(0)
            if pr and pr[0].startswith("."):
                f = pr[0][1:].split("@")[0]
                if f in names:
                    a = r["a"][names.index(f)]
                    q = op_place(a)
                    if q is not None and len(pr) > 1: return self.place(frame, q.local, q.proj + tuple(pr[1:]), depth)
                    return self._app(self.operand(frame, a, depth), tuple(pr[1:]))
                return frozenset()
            if adt in WRAP and len(r["a"]) == 1 and var != "Err":
                return self._app(self.operand(frame, r["a"][0], depth), tuple(pr))
            fs = tuple((n, self.operand(frame, a, depth)) for n, a in zip(names, r["a"]))
            return self._app1(("agg", adt, var, fs), tuple(pr))
        if k == "bin":
            return frozenset(("op", r["op"].replace("WithOverflow", ""), x, y)
                             for x in self.operand(frame, r["a"], depth) for y in self.operand(frame, r["b"], depth))
        if k == "un":
            return frozenset(("un", r["op"], x) for x in self.operand(frame, r["o"], depth))
        if k == "discr":
            p = Place(r["p"])
            return frozenset(("discr", x) for x in self.place(frame, p.local, p.proj, depth))
        if k == "setdiscr": return frozenset()
        return frozenset([("?", k)])

    def elems(self, ts, depth=0):
        """Elements of iterables."""
        out = set()
        for t in ts:
            if t[0] == "coll": out |= t[1]
            elif t[0] == "call" and t[1] == "core::iter::traits::iterator::Iterator::chain" and depth < self.max_depth:
                for a in t[2]: out |= self.elems(a, depth + 1)
            elif t[0] == "call" and t[1].endswith("once::once"): out |= t[2][0]
            elif t in self.alloc and depth < self.max_depth: out |= self.pushed(t, depth) or {("elem", t)}
            else: out.add(("elem", t))
        return frozenset(out)

    GROW = {"push": 1, "push_back": 1, "push_front": 1, "extend": 1, "append": 1, "insert": 1, "extend_from_slice": 1}
    def pushed(self, t, depth=0):
        """What is put into a collection created by the call term t, in the function that created it."""
        if t in self._pushing: return frozenset()
        self._pushing.add(t)
        frame = self.alloc[t]
        out = set()
        for bi, ct, k in frame.body.calls():
            n = callee_name(k).split("::") if k else [""]
            last = n[-1]
            if last not in self.GROW or len(ct["a"]) < 2: continue
            if not any(x in ("vec", "Vec", "VecDeque", "BTreeSet", "HashSet", "BTreeMap", "HashMap", "collect") for x in n + callee_fn(k).replace("<", "::").replace(">", "::").split("::")): continue
            if t not in self.operand(frame, ct["a"][0], depth + 1): continue
            if last == "insert" and len(ct["a"]) == 3:
                out.add(("agg", "tuple", None, (("0", self.operand(frame, ct["a"][1], depth + 1)), ("1", self.operand(frame, ct["a"][2], depth + 1)))))
            elif last in ("extend", "append", "extend_from_slice"): out |= self.elems(self.operand(frame, ct["a"][1], depth + 1), depth + 1)
            else: out |= self.operand(frame, ct["a"][1], depth + 1)
        self._pushing.discard(t)
        return frozenset(x for x in out if x != ("elem", t))

    def static(self, path, depth=0):
        """What a lazily initialised static is initialised with."""
        for f in self.P.by_path.get("<%s as core::ops::deref::Deref>::deref::__static_ref_initialize" % path, ()):
            if f.h in self._sm: return self._sm[f.h]
            self._sm[f.h] = frozenset([("static", path)])
            g = Graph(self.P, f, self.g.relevant)
            T = Tracer(g, self.into, opaque=self.opaque)
            T._sm = self._sm
            self._sm[f.h] = T.place(g.rootf, 0)
            return self._sm[f.h]
        return None

    def _vec_macro(self, frame, t, depth):
        body = frame.body
        p = op_place(t["a"][0])
        locs, work = set(), [p.local]
        while work:
            l = work.pop()
            if l in locs: continue
            locs.add(l)
            for bi, si, d in body.defs().get(l, []):
                if si >= 0 and d[1]["r"] in ("use", "cast"):
                    q = op_place(d[1]["o"])
                    if q is not None: work.append(q.local)
        ptrs = set()
        for l, ds in body.defs().items():
            for bi, si, d in ds:
                if si >= 0 and d[1]["r"] in ("cast", "use"):
                    q = op_place(d[1]["o"])
                    if q is not None and q.local in locs and any("alloc::boxed::Box" in x for x in q.proj): ptrs.add(l)
        out = set()
        for l in ptrs:
            for bi, si, d in body.defs().get(l, []):
                if si >= 0 and any("maybe_uninit" in x for x in d[0][1:]):
                    out |= self.rvalue(frame, d[1], (), depth + 1)
        return frozenset(out) or None

    def alt(self, frame, bi, t, n, k, depth):
        """What the second argument of Option::or and its like contributes."""
        if not n.endswith("_else"): return self.operand(frame, t["a"][1], depth)
        out = set()
        for h in k.get("cl", []):
            x = self.P.by_h.get(h)
            if x is not None and x.h not in {f.h for f in frame.chain()} and frame.depth < 10:
                out |= self.place(self.g._frame(x, frame, bi, t["a"], "closure:" + n), 0, (), depth + 1)
        return frozenset(out)

    def _entered(self, frame, bi, t, k, depth):
        """Frames of the functions a call is followed into, or None."""
        tg = self.P.targets(k, self.g._gen(frame)) if k else []
        if not tg or depth >= self.max_depth - 20 or frame.depth >= 10: return None
        inchain = {f.h for f in frame.chain()}
        if not all(x.h not in inchain and (self.into(x) or self.g.isrel(x) or x.kind == "closure") for x in tg): return None
        return [self.g._frame(x, frame, bi, t["a"], "callclosure" if x.kind == "closure" else "call") for x in tg]

    def _partial(self, frame, bi, t, depth, rest):
        """What a part of a call's result is made of, where the callee builds the result part by part."""
        k = t["f"].get("k")
        n = callee_name(k) if k else ""
        if not rest or not k or self.opaque(n) or n in OPAQUE or self.opaque(callee_fn(k)) or n in EITHER or n in PASS or n.endswith(SUFFIX_PASS) or n in ELEM: return None
        if not rest[0].startswith("."): return None
        nfs = self._entered(frame, bi, t, k, depth)
        if not nfs: return None
        out = set()
        for nf in nfs:
            if not self._built(nf): return None
            out |= self.place(nf, 0, rest, depth + 1)
        return frozenset(y for y in out if y != ("err",))

    def _built(self, nf):
        """The function assigns fields of what it returns one at a time."""
        l, seen = 0, set()
        while l not in seen:
            seen.add(l)
            ds = nf.body.defs().get(l, [])
            if any(si >= 0 and len(d[0]) > 1 for _, si, d in ds): return True
            ps = [op_place(d[1]["o"]) for _, si, d in ds if si >= 0 and d[1]["r"] == "use"]
            if len(ds) != 1 or not ps or ps[0] is None or ps[0].proj: return False
            l = ps[0].local
        return False

    def call(self, frame, bi, t, depth, proj=()):
        k = t["f"].get("k")
        n = callee_name(k)
        if n == "core::ops::try_trait::FromResidual::from_residual": return frozenset([("err",)])
        if n.endswith("box_assume_init_into_vec_unsafe"):
            r = self._vec_macro(frame, t, depth)
            if r is not None: return r
        if not self.opaque(n) and n not in OPAQUE and not (k and self.opaque(callee_fn(k))):
            if n in EITHER and len(t["a"]) == 2:
                out = self.operand(frame, t["a"][0], depth) | self.alt(frame, bi, t, n, k, depth)
                some = frozenset(x for x in out if not (x[0] == "agg" and x[2] == "None"))
                return some if n.split("::")[-1].startswith("unwrap") and some else out
            cv = self.g.converter(frame, k) if self.g.conv else None
            if cv is not None and depth < self.max_depth - 20:
                return self.place(self.g._frame(cv, frame, bi, t["a"], "call"), 0, (), depth + 1)
            if n in PASS and t["a"]:
                return self.operand(frame, t["a"][PASS[n]], depth)
            if n.endswith(SUFFIX_PASS) and t["a"]: return self.operand(frame, t["a"][0], depth)
            if n in ELEM and t["a"]:
                return self.elems(self.operand(frame, t["a"][0], depth), depth)
            nfs = self._entered(frame, bi, t, k, depth)
            if nfs:
                out = set()
                for nf in nfs: out |= self.place(nf, 0, (), depth + 1)
                return frozenset(y for y in out if y != ("err",)) or frozenset(out)
        if self.shape and n in SHAPE and t["a"]: return self.operand(frame, t["a"][0], depth)
        if n in ("core::option::Option::map", "core::result::Result::map", "core::option::Option::and_then",
                 "core::result::Result::and_then", "core::option::Option::map_or", "core::iter::traits::iterator::Iterator::map",
                 "core::iter::traits::iterator::Iterator::flat_map", "core::iter::traits::iterator::Iterator::filter_map") and k:
            out = set()
            for h in k.get("cl", []):
                x = self.P.by_h.get(h)
                if x is not None and x.h not in {f.h for f in frame.chain()} and frame.depth < 10:
                    nf = self.g._frame(x, frame, bi, t["a"], "closure:" + n)
                    out |= self.place(nf, 0, (), depth + 1)
            if out:
                if n.endswith(("Iterator::map", "Iterator::filter_map")): return frozenset([("coll", frozenset(out))])
                if n.endswith("Iterator::flat_map"): return frozenset([("coll", self.elems(out, depth))]) if not all(x[0] == "call" and x[1].endswith(("Iterator::chain", "once::once")) for x in out) else frozenset(out)
                return frozenset(out)
        if re.fullmatch(r"(alloc|std|core)::collections::.*Map::(values|keys|into_values|into_keys|values_mut)", n) and t["a"]:
            es = self.elems(self.operand(frame, t["a"][0], depth), depth)
            return frozenset([("coll", self._app(es, (".0@" if n.endswith("keys") else ".1@",)))])
        if n == "itertools::Itertools::chunks" and t["a"]:
            return frozenset([("coll", self.operand(frame, t["a"][0], depth))])
        if n == "core::iter::traits::iterator::Iterator::enumerate":
            ts = self.elems(self.operand(frame, t["a"][0], depth), depth)
            return frozenset([("coll", frozenset([("agg", "tuple", None, (("0", frozenset([("index",)])), ("1", ts)))]))])
        if n == "core::iter::traits::iterator::Iterator::zip" and len(t["a"]) == 2:
            a, b = (self.elems(self.operand(frame, x, depth), depth) for x in t["a"])
            return frozenset([("coll", frozenset([("agg", "tuple", None, (("0", a), ("1", b)))]))])
        if not self.lossy and n in ("core::iter::traits::iterator::Iterator::filter", "core::iter::traits::iterator::Iterator::skip",
                 "core::iter::traits::iterator::Iterator::take"):
            return self.operand(frame, t["a"][0], depth)
        args = tuple(self.operand(frame, a, depth) for a in t["a"]) if not self.blank(n) else ()
        r = ("call", n, args, frame.fn.path + "@%d" % bi)
        if n.split("::")[-1] in ("new", "with_capacity", "default"): self.alloc[r] = frame
        return frozenset([r])

def rend(t, d=0):
    if d > 8: return "…"
    k = t[0]
    if k == "p": return t[1]
    if k == "c": return repr(t[1]) if isinstance(t[1], str) else str(t[1])
    if k == "f": return "%s.%s" % (rend(t[1], d), t[2])
    if k == "idx": return rend(t[1], d) + "[]"
    if k == "elem": return rend(t[1], d) + "[]"
    if k == "coll": return "[%s]" % rset(t[1], d + 1)
    if k == "index": return "#"
    if k == "call":
        return "%s(%s)" % ("::".join(t[1].split("::")[-2:]), ", ".join(rset(a, d + 1) for a in t[2]))
    if k == "agg":
        return "%s%s{%s}" % ((t[1] or "").split("::")[-1], "::" + t[2] if t[2] else "",
                             ", ".join("%s: %s" % (n, rset(v, d + 1)) for n, v in t[3]))
    if k == "op": return "(%s %s %s)" % (rend(t[2], d + 1), t[1], rend(t[3], d + 1))
    if k == "un": return "%s(%s)" % (t[1], rend(t[2], d + 1))
    if k == "discr": return "discr(%s)" % rend(t[1], d + 1)
    if k == "phi": return "{%s}" % "|".join(rend(x, d + 1) for x in t[1])
    if k in ("fn", "u", "static"): return t[1]
    return "<%s>" % k

def rset(s, d=0):
    if isinstance(s, tuple): return rend(s, d)
    xs = sorted({rend(x, d) for x in s})
    if len(xs) == 1: return xs[0]
    return "{%s}" % "|".join(xs[:6])

def walk(t):
    """All sub-terms of a term/set."""
    if isinstance(t, frozenset):
        for x in t: yield from walk(x)
        return
    if not isinstance(t, tuple): return
    yield t
    if not t: return
    k = t[0]
    if k in ("f", "idx", "elem", "discr"): yield from walk(t[1])
    elif k == "call":
        for a in t[2]: yield from walk(a)
    elif k == "coll": yield from walk(t[1])
    elif k == "agg":
        for _, v in t[3]: yield from walk(v)
    elif k == "op":
        yield from walk(t[2]); yield from walk(t[3])
    elif k == "un": yield from walk(t[2])
    elif k == "phi":
        for x in t[1]: yield from walk(x)
