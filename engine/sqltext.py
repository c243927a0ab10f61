"""SQL text as it reaches rusqlite: constants and decoded format! templates."""
import itertools, re
from trace import rend, rset

def decode_template(hexs):
    """fmt::Arguments template bytes -> list of str | int (argument index)."""
    b = bytes.fromhex(hexs) if isinstance(hexs, str) else bytes(hexs)
    out, i, nxt = [], 0, 0
    while i < len(b):
        x = b[i]; i += 1
        if x == 0: break
        if x < 0x80:
            out.append(b[i:i+x].decode("utf8", "replace")); i += x
        elif x == 0x80:
            n = b[i] | b[i+1] << 8; i += 2
            out.append(b[i:i+n].decode("utf8", "replace")); i += n
        elif x >= 0xc0:
            if x & 1: i += 4
            if x & 2: i += 2
            if x & 4: i += 2
            if x & 8:
                nxt = b[i] | b[i+1] << 8; i += 2
            out.append(nxt); nxt += 1
        else:
            return None
    return out

HOLE_L, HOLE_R = "\u27e6", "\u27e7"      # ⟦ ⟧ around what is not a constant

def texts(terms, T=None, depth=0, limit=64):
    """Set of possible texts of a string-valued term set."""
    out = set()
    for t in (terms if isinstance(terms, (frozenset, set, list)) else [terms]):
        out |= text1(t, T, depth)
        if len(out) > limit: break
    return out

def text1(t, T, depth):
    k = t[0]
    if k == "c" and isinstance(t[1], str): return {t[1]}
    if k == "c": return {str(t[1])}
    if depth > 6: return {HOLE_L + rend(t) + HOLE_R}
    if k == "phi": return texts(list(t[1]), T, depth)
    if k == "call":
        n = t[1].split("::")[-1]
        if t[1].endswith("fmt::format") or t[1].endswith("fmt::format::format_inner") or n == "format":
            return texts(t[2][0], T, depth + 1)
        if t[1].endswith("Arguments::new") and len(t[2]) == 2:
            out = set()
            for tpl in t[2][0]:
                hx = tpl[1] if tpl[0] == "c" else None
                if isinstance(hx, tuple): hx = bytes(hx).hex()
                parts = decode_template(hx) if hx is not None else None
                if parts is None: return {HOLE_L + rend(t) + HOLE_R}
                for arr in t[2][1]:
                    m = dict(arr[3]) if arr[0] == "agg" else {}
                    alts = []
                    for p in parts:
                        if isinstance(p, str): alts.append([p])
                        else:
                            v = m.get(str(p))
                            alts.append(sorted(texts(v, T, depth + 1))[:8] if v else [HOLE_L + "?" + HOLE_R])
                    for combo in itertools.product(*alts): out.add("".join(combo))
            return out
        if t[1].endswith(("Arguments::new_const", "Arguments::from_str")):
            return texts(t[2][0], T, depth + 1)
        if n.startswith("new_display") or n.startswith("new_debug"):
            return texts(t[2][0], T, depth + 1)
        if n == "join" and t[2]:
            sep = sorted(texts(t[2][1], T, depth + 1))[0] if len(t[2]) > 1 else ""
            return {HOLE_L + "join:" + x + HOLE_R for x in texts(t[2][0], T, depth + 1)}
        if n in ("repeat", "take", "iter", "map", "repeat_n"):
            return texts(t[2][0], T, depth + 1)
    if k in ("static", "u") and T is not None:
        st = T.static(t[1])
        if st: return texts(st, T, depth + 1)
    if k in ("elem", "idx"):
        st = t[1]
        if st[0] in ("static", "u") and T is not None:
            x = T.static(st[1])
            if x and len(x) == 1: st = next(iter(x))
        if st[0] == "agg" and st[1] == "array":
            out = set()
            for _, v in st[3]: out |= texts(v, T, depth + 1)
            return out
    if k == "agg" and t[1] == "array":
        out = {HOLE_L + "..." + HOLE_R}
        if len(t[3]) <= 12:
            xs = [sorted(texts(v, T, depth + 1))[:3] for _, v in t[3]]
            out = {" ".join(c) for c in itertools.islice(itertools.product(*xs), 16)}
        return out
    return {HOLE_L + rend(t) + HOLE_R}

def norm(s):
    return re.sub(r"\s+", " ", s).strip()
