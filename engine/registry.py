"""Which rule functions decide which property."""
import importlib
class Prop:
    def __init__(self): self.fns, self.assumptions = [], []
_props = {}
BASE = ["rustc's front end (type checking, borrow checking, trait resolution) and its MIR construction are trusted",
        "non-workspace crates (rusqlite, SQLite, std) behave as documented",
        "panics and aborts are not modelled as exits; conditional compilation other than the default features is not analysed"]
def rule(pid, *assumptions):
    def d(f):
        p = _props.setdefault(pid, Prop())
        if not p.assumptions: p.assumptions = list(BASE)
        p.fns.append(f)
        p.assumptions.extend(a for a in assumptions if a not in p.assumptions)
        return f
    return d
MODULES = ["commit", "logsql", "timeline", "schema", "idents", "txn", "errors", "cache", "query", "pattern", "joins", "orjoin", "render", "terms", "vocab", "project", "pull", "reads", "sync", "ffi", "preds", "builder", "values"]
def load():
    for m in MODULES: importlib.import_module("rules." + m)
def get(pid):
    load()
    return _props[pid]
def ids():
    load()
    return sorted(_props)
# Rules decided for one property that another's statement asks for as well: {property: [(rule, key)]} (regexes).
ALSO = {
    "C01": [(r"C06\.memory", ""), (r"C02\.check", "")],
    "C02": [(r"C01\.order", "")],
    "C03": [(r"C06\.told", ""), (r"C06\.memory", "tx_observer")],
    "C06": [(r"C03\.gather", "")],
    "T01": [(r"T02\.(queued|all|instant)", ""), (r"T05\.(index|views)", ""), (r"S05\.write", "")],
    "T02": [(r"T01\.(fill|cols|bind)", ""), (r"T03\.rest", "")],
    "T03": [(r"T02\.(kept|places|lookup)", "")],
    "T04": [(r"C06\.memory", "partition"), (r"C01\.(all|from)", "")],
    "T05": [(r"S02\.alter", ""), (r"T01\.(match|fresh)", "")],
    "L01": [(r"L02\.move", "")],
    "L02": [(r"L01\.(main|opaque)", "")],
    "S02": [(r"S03\.(set|unset|build)", ""), (r"S04\.(sort|open|write|read)", ""), (r"C06\.memory", "schema")],
    "S03": [(r"S04\.sort", "")],
    "S04": [(r"S02\.(lists|when|views|open)", "")],
    "S05": [(r"Q02\.value", ""), (r"T01\.bind", "")],
    "K01": [(r"C01\.(order|all|from)", "")],
    "Q07": [(r"K01\..*", "")],
    "Q04": [(r"Q02\.(constraint|table)", "")],
    "Q03": [(r"Q02\.(value|types)", "")],
    "Q08": [(r"Q02\.query", ""), (r"S05\.(read|type)", ""), (r"X01\.(discard|propagate)", "query_projector")],
    "P01": [(r"K01\.(apply|fill)", ""), (r"Q08\.(pull|rows)", ""), (r"Q08\.columns", "pull"), (r"S05\.(read|type)", "")],
    "Q09": [(r"Q02\.query", ""), (r"Q08\.(group|columns)", "")],
}
def also(pid):
    """(function, owner, wanted) of the rules that are decided for another property: wanted(obligation)."""
    import re, inspect
    load()
    out, seen = [], set()
    for rx, key in ALSO.get(pid, ()):
        owner = rx.split("\\", 1)[0]
        for f in _props[owner].fns:
            if f in seen: continue
            names = re.findall(r'"(%s\.[a-z]+)"' % owner, inspect.getsource(f))
            if not any(re.fullmatch(rx2, n) for n in names for rx2, _ in ALSO[pid]): continue
            seen.add(f)
            out.append((f, owner))
    def wanted(o):
        return any(re.fullmatch(rx, o.rule) and re.search(key, o.key) for rx, key in ALSO.get(pid, ()))
    return out, wanted
def rule_texts(pid):
    """(rule, text) pairs a property's rule functions declare."""
    import re, inspect
    out = []
    for f in get(pid).fns:
        out += re.findall(r'c\.rule\("(%s\.[^"]+)",\s*"((?:[^"\\]|\\.)*)"' % pid, inspect.getsource(f))
        for fn, r in re.findall(r'(\w+)\(c, "(%s\.[^"]+)"' % pid, inspect.getsource(f)):
            g = f.__globals__.get(fn)
            t = g and re.search(r'c\.rule\(rule, "((?:[^"\\]|\\.)*)"', inspect.getsource(g))
            if t: out.append((r, t.group(1)))
    return out
