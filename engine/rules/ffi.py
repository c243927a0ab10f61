"""The C interface: what is checked, what is done, what is given back."""
import re
from ctx import *
from model import callee_name
from registry import rule
from rules.cache import answers
from rules.sync import eqn, ps
from rules.pull import split
from rules.reads import out_

OPQ = re.compile(r"translate_\w+$|c_char_to_string$|kw_from_string$|from_transact$|Uuid::from_\w+$|builder::from_\w+$|TypedValue::instant$|(Store|Conn|InProgress|QueryBuilder|InProgressBuilder|EntityBuilder|RelResult|TypedValue|Binding)::\w+$|(BuildTerms|EntityBuilder|HasSchema|AttributeCaching|Pullable|Queryable|Syncable)::\w+$|c_string$")

def externs(c, rl):
    fs = [f for f in c.P.fns if f.crate == "mentat_ffi" and f.kind != "closure" and f.body is not None and f.vis == "Public" and re.fullmatch(r"mentat_ffi::\w+", strip_generics(f.path))]
    c.floor(rl, "functions of the C interface", len(fs), 100)
    c.see(*fs)
    return fs

def fg(c, f):
    g = c.graph(f, None, keep=True, small=0)
    g.conv = True
    g.T.opaque = lambda n: OPQ.search(n) is not None
    return g

def pointers(f):
    return [(i, f.body.name(i)) for i in range(1, f.body.argc + 1) if re.match(r"\*(mut|const) ", f.body.ty(i))]

TAKES = re.compile(r"::(Box|CString)::from_raw$|^(alloc::)?boxed::Box::from_raw$|CString::from_raw$")
READS = re.compile(r"(Box|CString)::from_raw$|CStr::from_ptr$|slice::(raw::)?from_raw_parts(_mut)?$|ptr::(read|write|copy|replace|drop_in_place)\w*$|(const|mut)_ptr::(offset|add|sub|read|write|as_ref|as_mut)\w*$")

def deref(body, x, acc):
    """Raw pointers that a piece of MIR looks behind."""
    if isinstance(x, dict):
        for v in x.values(): deref(body, v, acc)
    elif isinstance(x, list):
        if len(x) >= 2 and isinstance(x[0], int) and not isinstance(x[0], bool) and x[1] == "*" and x[0] < len(body.locals) and re.match(r"\*(mut|const) ", body.ty(x[0])): acc.add(x[0])
        for v in x: deref(body, v, acc)

def uses(g, p):
    """Predicate: events that use what parameter p points at."""
    def u(ev):
        b = ev.frame.fn.body if hasattr(ev.frame, "fn") else None
        if ev.kind == "call":
            if READS.search(ev.callee) and ev.data["a"] and re.fullmatch(p, rset(g.T.operand(ev.frame, ev.data["a"][0]))): return True
        if ev.kind not in ("stmt", "call"): return False
        acc = set()
        d = ev.data
        deref(ev.frame.body, [list(d[0]) if isinstance(d, (list, tuple)) else None, d[1] if isinstance(d, (list, tuple)) else d], acc)
        return any(re.fullmatch(p, rset(g.T.place(ev.frame, l, ()))) for l in acc)
    return u

@rule("F01", "the caller's pointers are null or point at what their types say")
def f01_null(c):
    c.rule("F01.null", "what a pointer from C points at is used only after it was seen not to be null")
    n = 0
    helpers = [f for f in c.P.fns if f.crate == "mentat_ffi" and f.kind != "closure" and f.body is not None and pointers(f) and not re.fullmatch(r"mentat_ffi::\w+", strip_generics(f.path))]
    c.floor("F01.null", "helpers that take pointers", len(helpers), 4)
    for f in externs(c, "F01.null") + helpers:
        if not pointers(f): continue
        c.see(f)
        g = c.graph(f, None, small=0, same_crate=False, keep=True, extra=lambda x: x.crate == "mentat_ffi" and x.kind != "closure" and len(x.body.blocks) < 60)
        for i, p in pointers(f):
            u = uses(g, p)
            if not g.events(u): continue
            n += 1
            null = contradicts(r"is_null\(%s\)$" % p, "1")
            q = g.search(u, given=null)
            c.ob("F01.null", f, q is None, "%s is used unchecked: %s" % (p, fmt_path(q or [])), key="%s:%s" % (f.name, p))
        c.done(g)
    c.floor("F01.null", "pointers used", n, 180)

@rule("F01")
def f01_destroy(c):
    c.rule("F01.owned", "an object is taken over exactly by the calls that end it, once; every other call leaves it to the caller; what is handed out is its own")
    ENDS = re.compile(r"in_progress_(commit|rollback|builder|entity_builder_from_\w+)|(in_progress|entity)_builder_(commit|transact)|typed_value_into_\w+|typed_value_list_into_iter|\w*destroy")
    n = 0
    for f in externs(c, "F01.owned"):
        g = c.graph(f, None, small=0, same_crate=False, keep=True, extra=lambda x: x.crate == "mentat_ffi" and x.kind != "closure" and len(x.body.blocks) < 60)
        for k, (i, p) in enumerate(pointers(f)):
            tk = lambda ev: ev.kind == "call" and re.search(r"(Box|CString)::from_raw$", ev.callee) is not None and re.fullmatch(p, rset(g.T.operand(ev.frame, ev.data["a"][0])))
            ends = k == 0 and ENDS.fullmatch(f.name) is not None
            if not ends:
                c.ob("F01.owned", f, not g.events(tk), "%s is freed though it stays the caller's" % p, key="%s:%s:stays" % (f.name, p))
                continue
            n += 1
            q = g.search(out_(g), block=tk, given=contradicts(r"is_null\(%s\)$" % p, "0"))
            c.ob("F01.owned", f, bool(g.events(tk)) and q is None, "%s isn't taken over: %s" % (p, fmt_path(q or [])), key="%s:%s:taken" % (f.name, p))
            q = None
            for ev in g.events(tk): q = q or g.search(tk, start=is_ev(ev))
            c.ob("F01.owned", f, q is None, "%s is freed twice: %s" % (p, fmt_path(q or [])), key="%s:%s:once" % (f.name, p))
            leak = g.events(lambda ev: ev.kind == "call" and re.search(r"mem::forget$|Box::leak$", ev.callee) is not None)
            c.ob("F01.owned", f, not leak, "%s is leaked" % p, key="%s:%s:leak" % (f.name, p))
            if f.name.endswith("destroy"):
                q = g.search(out_(g), given=contradicts(r"is_null\(%s\)$" % p, "1"))
                c.ob("F01.owned", f, q is not None, "a null %s isn't ignored" % p, key="%s:%s:null" % (f.name, p))
        if re.match(r"\*(mut|const) ", f.body.ty(0)):
            made = lambda ev: ev.kind == "call" and re.search(r"(Box|CString)::into_raw$|into_\w*c_string$|null(_mut)?$|(const|mut)_ptr::(offset|add)$|string_to_c_char$|map_or(_else)?$", ev.callee) is not None
            q = g.search(out_(g), block=made)
            c.ob("F01.owned", f, q is None, "gives out a pointer to what isn't the caller's: %s" % fmt_path(q or []), key=f.name + ":given")
        c.done(g)
    c.floor("F01.owned", "calls that end an object", n, 30)

@rule("F01")
def f01_index(c):
    c.rule("F01.index", "an index from C is used only if it lies within the list")
    n = 0
    for f in externs(c, "F01.index"):
        if "index" not in ps(f) and not any(f.body.ty(i) == "i32" for i in range(1, f.body.argc + 1)): continue
        ix = next(f.body.name(i) for i in range(1, f.body.argc + 1) if f.body.ty(i) == "i32")
        n += 1
        g = c.graph(f, None, small=0, keep=True)
        isx = lambda ev, o: re.fullmatch(ix, rset(g.T.operand(ev.frame, o))) is not None
        raw = lambda ev: ev.kind == "call" and re.search(r"(const|mut)_ptr::(offset|add)$|Index(Mut)?::index(_mut)?$|get_unchecked(_mut)?$|from_raw_parts$", ev.callee) is not None and any(isx(ev, o) for o in ev.data["a"][1:])
        safe = lambda ev: ev.kind == "call" and re.search(r"(slice|Vec|VecDeque)::get$|RelResult::row$|Iterator::(nth|skip)$", ev.callee) is not None and any(isx(ev, o) for o in ev.data["a"][1:])
        c.ob("F01.index", f, bool(g.events(any_of(raw, safe))), "the index isn't used", key=f.name + ":used")
        within_ = lambda ev: ev.kind == "edge" and relation(ev, "^%s$" % ix, r"(?:len\(.*\)|_?len)$") == "Lt"
        q = g.search(raw, block=within_)
        c.ob("F01.index", f, q is None, "the index can lie outside the list: %s" % fmt_path(q or []), key=f.name)
        c.done(g)
    c.floor("F01.index", "calls that take an index", n, 12)

@rule("F01")
def f01_error(c):
    c.rule("F01.error", "a failed call gives a message and no result, one that succeeds its result and no message")
    n = 0
    for f in c.P.fns:
        if f.crate != "mentat_ffi" or f.body is None or f.kind == "closure" or not re.search(r"translate_(opt_)?result$", strip_generics(f.path)): continue
        n += 1
        c.see(f)
        g = c.graph(f, None, small=0, keep=True)
        r, e = ps(f)
        got = {nm: set(answers(g, choice("^%s$" % r, "Result", nm))) for nm in ("Ok", "Err")}
        NUL = r"(?:\w+::)*null(?:_mut)?\(\)"
        c.ob("F01.error", f, bool(got["Err"]) and all(re.fullmatch(NUL, x) for x in got["Err"]), "a failure gives %s" % sorted(got["Err"]), key=f.name + ":Err")
        opt_ = "_opt_" in f.name
        val = {x for x in got["Ok"] if not re.fullmatch(NUL, x)}
        c.ob("F01.error", f, len(val) == 1 and all(re.fullmatch(r"(?:Box::into_raw\()?%s(?:\.0)*\)?" % r, x) for x in val) and (opt_ or val == got["Ok"]), "a success gives %s" % sorted(got["Ok"]), key=f.name + ":Ok")
        if opt_:
            none = opt(r"^%s(?:\.0)?" % r, False)
            some = opt(r"^%s(?:\.0)?" % r, True)
            c.ob("F01.error", f, all(re.fullmatch(NUL, x) for x in answers(g, choice("^%s$" % r, "Result", "Ok"), none)), "no value gives %s" % answers(g, none), key=f.name + ":None")
            c.ob("F01.error", f, not any(re.fullmatch(NUL, x) for x in answers(g, choice("^%s$" % r, "Result", "Ok"), some)), "a value gives %s" % answers(g, some), key=f.name + ":Some")
        clear = lambda ev: field_write("ExternError", "message")(ev) and re.search(r"null(_mut)?\(\)|<cagg>|^0", written_(g, ev)) is not None
        says = lambda ev: field_write("ExternError", "message")(ev) and re.search(r"string_to_c_char\(|CString::", written_(g, ev)) is not None
        failing_ = lambda ev: ev.kind == "edge" and str(ev.tag[1]).endswith("::Result") and ev.tag[2] in ("Err", "!Ok") and any(t[0] == "discr" and rset(t[1]) == r for t in g.T.operand(ev.frame, ev.data["o"]))
        q = g.search(out_(g), block=any_of(clear, failing_))
        c.ob("F01.error", f, bool(g.events(clear)) and q is None, "a success leaves an old message: %s" % fmt_path(q or []), key=f.name + ":cleared")
        q = g.search(says, block=failing_)
        c.ob("F01.error", f, q is None, "a success gives a message: %s" % fmt_path(q or []), key=f.name + ":silent")
        q = g.search(out_(g), block=says, given=choice("^%s$" % r, "Result", "Err"))
        c.ob("F01.error", f, bool(g.events(says)) and q is None, "a failure gives no message: %s" % fmt_path(q or []), key=f.name + ":says")
        q = g.search(clear, start=says)
        c.ob("F01.error", f, q is None, "a failure's message is lost: %s" % fmt_path(q or []), key=f.name + ":kept")
        c.done(g)
    c.floor("F01.error", "translations of a result", n, 2)
    n = 0
    for f in externs(c, "F01.error"):
        if "error" not in ps(f) and not any("ExternError" in f.body.ty(i) for i in range(1, f.body.argc + 1)): continue
        e = next(f.body.name(i) for i in range(1, f.body.argc + 1) if "ExternError" in f.body.ty(i))
        n += 1
        g = fg(c, f)
        tr = lambda ev: ev.kind == "call" and re.search(r"translate_\w+$", ev.callee) is not None and args_of(g, ev)[1] == e
        q = g.search(out_(g), block=tr)
        c.ob("F01.error", f, bool(g.events(tr)) and q is None, "doesn't say how it went: %s" % fmt_path(q or []), key=f.name)
        c.done(g)
    c.floor("F01.error", "calls that can fail", n, 40)

def written_(g, ev):
    return rset(g.T.rvalue(ev.frame, ev.data[1], (), 0))

S = lambda x: r"(?:\w+::)*c_char_to_string\(%s\)" % x
K = lambda x: r"(?:\w+::)*kw_from_string\(%s\)" % S(x)
VAL = {"string": r"(?:TypedValue::String\{0: )?.*?%s\)*\}?" % S("value"), "long": r"TypedValue::Long\{0: value\}", "ref": r"TypedValue::Ref\{0: value\}", "keyword": r"(?:TypedValue::Keyword\{0: .*?)?%s\)*\}?" % K("value"),
       "boolean": r"(?:TypedValue::Boolean\{0: )?value\}?", "double": r"TypedValue::Double\{0: .*value\)?\}*|value", "timestamp": r"TypedValue::instant\(value\)", "uuid": r"(?:TypedValue::Uuid\{0: )?.*?from_\w+\(value\)\}?"}
BIND = {"long": r"QueryBuilder::bind_long\(B, V, value\)|QueryBuilder::bind_value\(B, V, TypedValue::Long\{0: value\}\)", "ref": r"QueryBuilder::bind_ref\(B, V, value\)|QueryBuilder::bind_value\(B, V, TypedValue::Ref\{0: value\}\)",
        "ref_kw": r"QueryBuilder::bind_ref_from_kw\(B, V, %s\)" % K("value"), "kw": r"QueryBuilder::bind_value\(B, V, %s\)" % VAL["keyword"], "boolean": r"QueryBuilder::bind_value\(B, V, %s\)" % VAL["boolean"],
        "double": r"QueryBuilder::bind_value\(B, V, (?:%s)\)" % VAL["double"], "timestamp": r"QueryBuilder::bind_instant\(B, V, value\)|QueryBuilder::bind_value\(B, V, TypedValue::instant\(value\)\)", "string": r"QueryBuilder::bind_value\(B, V, %s\)" % VAL["string"],
        "uuid": r"QueryBuilder::bind_value\(B, V, %s\)" % VAL["uuid"]}
INTO = {"long": "into_long", "entid": "into_entid", "kw": "into_kw_c_string", "boolean": "into_boolean", "double": "into_double", "timestamp": "into_timestamp", "string": "into_c_string", "uuid": "into_uuid"}
CACHE = {"forward": "Forward", "reverse": "Reverse", "bi_directional": "Both"}
BT = r"Store::begin_transaction\(store\)"
IPB = r"InProgress::builder\(%s\)"
SIMPLE = {
    "store_open": r"Store::open\(%s\)" % S("uri"), "store_begin_transaction": BT, "in_progress_transact": r"InProgress::transact\(in_progress, %s\)" % S("transaction"),
    "in_progress_commit": r"InProgress::commit\(in_progress(\.0)?\)", "in_progress_rollback": r"InProgress::rollback\(in_progress(\.0)?\)", "in_progress_builder": IPB % r"in_progress(\.0)?",
    "in_progress_entity_builder_from_temp_id": r"BuildTerms::describe_tempid\(%s, %s\)" % (IPB % r"in_progress(\.0)?", S("temp_id")), "in_progress_entity_builder_from_entid": r"BuildTerms::describe\(%s, KnownEntid::KnownEntid\{0: entid\}\)" % (IPB % r"in_progress(\.0)?"),
    "store_in_progress_builder": IPB % BT, "store_entity_builder_from_temp_id": r"BuildTerms::describe_tempid\(%s, %s\)" % (IPB % BT, S("temp_id")), "store_entity_builder_from_entid": r"BuildTerms::describe\(%s, KnownEntid::KnownEntid\{0: entid\}\)" % (IPB % BT),
    "in_progress_builder_commit": r"InProgressBuilder::commit\(builder(\.0)?\)", "entity_builder_commit": r"EntityBuilder::commit\(builder(\.0)?\)",
    "in_progress_builder_transact": r"InProgressTransactResult::from_transact\(InProgressBuilder::transact\(builder(\.0)?\)\)", "entity_builder_transact": r"InProgressTransactResult::from_transact\(EntityBuilder::transact\(builder(\.0)?\)\)",
    "store_transact": r"InProgress::transact\(%s, %s\)" % (BT, S("transaction")),
    "tx_report_get_entid": r"tx_report\.tx_id", "tx_report_get_tx_instant": r"DateTime::timestamp\(tx_report\.tx_instant\)",
    "store_query": r"QueryBuilder::new\(store, %s\)" % S("query"), "query_builder_execute_scalar": r"QueryBuilder::execute_scalar\(query_builder\)", "query_builder_execute_coll": r"QueryBuilder::execute_coll\(query_builder\)",
    "query_builder_execute_tuple": r"QueryBuilder::execute_tuple\(query_builder\)", "query_builder_execute": r"QueryBuilder::execute_rel\(query_builder\)",
    "typed_value_value_type": r"Binding::value_type\(typed_value\)", "typed_value_result_set_into_iter": r"RelResult::rows\(rows\)", "typed_value_list_into_iter": r"values(\.0)?",
    "store_value_for_attribute": r"(?:Option::map\()?Queryable::lookup_value_for_attribute\(store, entid, %s\).*" % K("attribute"),
    "store_entid_for_attribute": r"HasSchema::get_entid\(Conn::current_schema\(Store::conn\(store\)\), %s\)" % K("attr"),
    "tx_change_list_entry_at": r"(?:const|mut)_ptr::(?:offset|add)\(tx_report_list\.reports, index\)", "changelist_entry_at": r"(?:ptr::read\()?(?:const|mut)_ptr::(?:offset|add)\(tx_report\.changes, index\)+",
}

def outcomes(x):
    """What a success is, of the alternatives x."""
    out = set()
    for y in split(x):
        m = re.fullmatch(r"(?:Result::Ok|Option::Some)\{0: (.*)\}", y)
        if m: out |= outcomes(m.group(1))
        elif not re.match(r"Result::Err\{|Option::None\{", y): out.add(y)
    return out

@rule("F02", "the conversions of std and of Mentat's own types keep the value")
def f02_does(c):
    c.rule("F02.does", "each call does what its name says, with its own arguments, and gives back what that gives")
    n = 0
    for f in externs(c, "F02.does"):
        nm = f.name
        want, void = None, None
        m = re.fullmatch(r"(in_progress|entity)_builder_(add|retract)_(\w+)", nm)
        if m and m.group(3) in VAL:
            void = (r"BuildTerms::%s\(builder, KnownEntid::KnownEntid\{0: entid\}, %s, (?:%s)\)" if m.group(1) == "in_progress" else r"EntityBuilder::%s\(builder, %s, (?:%s)\)") % (m.group(2), K("kw"), VAL[m.group(3)])
            want = void
        m = re.fullmatch(r"store_cache_attribute_(\w+)", nm)
        if m and m.group(1) in CACHE: want = r"Store::cache\(store, %s, CacheDirection::%s\{\}\)" % (K("attribute"), CACHE[m.group(1)])
        if nm in SIMPLE: want = SIMPLE[nm]
        g = fg(c, f)
        g.T.lossy = True
        if want is not None:
            n += 1
            tr = g.events(lambda ev: ev.kind == "call" and re.search(r"translate_\w+$", ev.callee) is not None)
            got = {y for ev in tr for y in outcomes(args_of(g, ev)[0])} if tr else {re.sub(r"^(?:Box::into_raw|NonNull::\w+)\((.*)\)$", r"\1", x) for x in answers(g)}
            c.ob("F02.does", f, bool(got) and all(re.fullmatch(want, x) for x in got), "%s gives %s" % (nm, [x[:250] for x in sorted(got)]), key=nm)
            if tr:
                back = answers(g)
                c.ob("F02.does", f, f.body.ty(0) == "()" or all(re.match(r"(?:\w+::)*translate_\w+\(", x) for x in back), "%s gives back %s" % (nm, [x[:150] for x in back]), key=nm + ":back")
        m = re.fullmatch(r"query_builder_bind_(\w+)", nm)
        if m and m.group(1) in BIND:
            n += 1
            bind = lambda ev: ev.kind == "call" and re.search(r"QueryBuilder::bind_\w+$", ev.callee) is not None
            pat = BIND[m.group(1)].replace("(B, V, ", r"(query_builder, %s, " % S("var").replace("\\", "\\")) 
            good = lambda ev: bind(ev) and re.fullmatch(pat, "QueryBuilder::%s(%s)" % (ev.callee.split("::")[-1], ", ".join(args_of(g, ev)))) is not None
            q = g.search(out_(g), block=good)
            c.ob("F02.does", f, bool(g.events(good)) and q is None and all(good(ev) for ev in g.events(bind)), "%s binds %s" % (nm, [args_of(g, ev) for ev in g.events(bind)]), key=nm)
            if m.group(1) == "ref_kw":
                q = g.search(out_(g), block=any_of(succeeded(r".*::bind_ref_from_kw"), opt(r"Result::err\(.*bind_ref_from_kw\(.*\)\)", True), opt(r".*bind_ref_from_kw\(.*\)", True)))
                c.ob("F02.does", f, q is None, "a name nothing has goes unnoticed: %s" % fmt_path(q or []), key=nm + ":fails")
        m = re.fullmatch(r"(typed_value|value_at_index)_into_(\w+)", nm)
        if m and m.group(2) in INTO:
            n += 1
            src = r"typed_value(?:\.0)?" if m.group(1) == "typed_value" else r"(?:slice|Vec)::get\(values, index\)(?:\.0)?"
            conv = r"(?:\w+::)*%s\(%s\)(?:\.0)?" % (INTO[m.group(2)], src)
            if m.group(2) == "boolean":
                for v in ("0", "1"):
                    got = answers(g, contradicts("^" + conv + "$", v))
                    c.ob("F02.does", f, got in ([v], [re.sub(r".", lambda x: x.group(), "x")]) or (len(got) == 1 and re.fullmatch(conv, got[0]) is not None), "%s of %s is %s" % (nm, v, got), key="%s:%s" % (nm, v))
            else:
                got = [re.sub(r"^Box::into_raw\((.*)\)$", r"\1", x) for x in answers(g)]
                w = r"(?:\w+::)*(?:as_bytes|into_bytes)\(%s\)" % conv if m.group(2) == "uuid" else conv
                c.ob("F02.does", f, bool(got) and all(re.fullmatch(w, x) for x in got), "%s gives %s" % (nm, got), key=nm)
        for pn, src in (("row_at_index", r"(?:slice::to_vec\()?RelResult::row\(rows, index\)\)?"), ("typed_value_result_set_iter_next", r"(?:slice::to_vec\()?iter\[\]\)?"), ("typed_value_list_iter_next", r"iter\[\]"), ("value_at_index", r"(?:Index::index|slice::get)\(values, index\)"),
                        ("tx_report_entity_for_temp_id", r"(?:BTreeMap::get\(tx_report\.tempids, %s\)|Index::index\(tx_report\.tempids, %s\))" % (S("tempid"), S("tempid")))):
            if nm != pn: continue
            n += 1
            box = lambda ev: ev.kind == "call" and re.search(r"Box::into_raw$", ev.callee) is not None
            got = {args_of(g, ev)[0] for ev in g.events(box)}
            c.ob("F02.does", f, bool(got) and all(re.fullmatch(r"(?:Box::new\()?%s\)?" % src, x) for x in got), "%s gives %s" % (nm, sorted(got)), key=nm)
        if nm == "store_transact":
            cm = [ev for ev in g.events(lambda ev: ev.kind == "call" and re.search(r"InProgress::commit$", ev.callee) is not None) if re.fullmatch(BT, args_of(g, ev)[0])]
            c.ob("F02.does", f, len(cm) == 1, "%d commits of what it transacts" % len(cm), key=nm + ":commits")
        if nm == "store_register_observer":
            n += 1
            reg = g.events(lambda ev: ev.kind == "call" and re.search(r"Store::register_observer$", ev.callee) is not None)
            c.ob("F02.does", f, len(reg) == 1 and g.search(out_(g), block=is_ev(reg[0])) is None and all(re.fullmatch(S("key"), args_of(g, ev)[1]) and args_of(g, ev)[0] == "store" for ev in reg), "registers %s" % [args_of(g, ev)[:2] for ev in reg], key=nm)
            parts = g.events(lambda ev: ev.kind == "call" and re.search(r"from_raw_parts$", ev.callee) is not None)
            c.ob("F02.does", f, len(parts) == 1 and all(args_of(g, ev) == ["attributes", "attributes_len"] for ev in parts), "observes %s" % [args_of(g, ev) for ev in parts], key=nm + ":attributes")
            q = g.search(lambda ev: ev.kind == "call" and ev.callee.endswith("TxObserver::new"), block=lambda ev: ev.kind == "call" and re.search(r"::(extend|collect|from_iter|insert|append|extend_from_slice)$", ev.callee) is not None)
            c.ob("F02.does", f, q is None, "what to observe is left out: %s" % fmt_path(q or []), key=nm + ":kept")
        if nm == "store_unregister_observer":
            n += 1
            un = g.events(lambda ev: ev.kind == "call" and re.search(r"Store::unregister_observer$", ev.callee) is not None)
            c.ob("F02.does", f, len(un) == 1 and g.search(out_(g), block=is_ev(un[0])) is None and all(args_of(g, ev)[0] == "store" and re.fullmatch(S("key"), args_of(g, ev)[1]) for ev in un), "unregisters %s" % [args_of(g, ev) for ev in un], key=nm)
        c.done(g)
    c.floor("F02.does", "calls decided", n, 90)

TY = {"uuid_destroy": r"\[u8; 16\]", "in_progress_builder_destroy": r"[\w:]*InProgressBuilder<.*>", "entity_builder_destroy": r"[\w:]*EntityBuilder<[\w:]*InProgressBuilder<.*>>", "query_builder_destroy": r"[\w:]*QueryBuilder(<.*>)?", "store_destroy": r"[\w:]*Store",
      "tx_report_destroy": r"[\w:]*TxReport", "typed_value_destroy": r"[\w:]*Binding", "typed_value_list_destroy": r"[\w:]*Vec<[\w:]*Binding>", "typed_value_list_iter_destroy": r"[\w:]*IntoIter<[\w:]*Binding>", "typed_value_result_set_destroy": r"[\w:]*RelResult<[\w:]*Binding>",
      "typed_value_result_set_iter_destroy": r"[\w:]*Chunks<.*[\w:]*Binding>", "in_progress_destroy": r"[\w:]*InProgress<.*>"}

@rule("F02")
def f02_told(c):
    c.rule("F02.told", "a destructor frees the kind of object it's named for; an observer is told each transaction with all of its attributes; names and text arrive as they were passed")
    n = 0
    for f in externs(c, "F02.told"):
        if f.name not in TY: continue
        n += 1
        t = re.sub(r"^\*(mut|const) ", "", f.body.ty(1))
        c.ob("F02.told", f, re.fullmatch(TY[f.name], t) is not None, "%s frees a %s" % (f.name, t), key=f.name)
    c.floor("F02.told", "destructors", n, 10)
    n = 0
    for f in c.P.fns:
        if f.crate != "mentat_ffi" or f.body is None: continue
        for b in f.body.blocks:
            for st in b["s"]:
                r = st[1]
                if not (isinstance(r, dict) and r.get("r") == "agg"): continue
                adt = str(r.get("adt", ""))
                if not re.search(r"(TransactionChange|TxChangeList)$", strip_generics(adt)) or "derive" in f.path or f.name == "clone": continue
                c.see(f)
                g = c.graph(f, None, small=0, keep=True)
                for ev in g.events(lambda ev: ev.kind == "stmt" and ev.data[1] is r):
                    a = [rset(g.T.operand(ev.frame, o)) for o in r["a"]]
                    p = next((m.group(1) for m in (re.fullmatch(r"[\w:<>]*\bas_ptr\((.*)\)", x) for x in a) if m), None)
                    l = next((m.group(1) for m in (re.fullmatch(r"[\w:<>]*\blen\((.*)\)", x) for x in a) if m), None)
                    n += 1
                    c.ob("F02.told", f, p is not None and p == l, "an observer is told of %s elements of %s" % (l, p), key=adt.split("::")[-1])
                    if adt.endswith("TransactionChange"): c.ob("F02.told", f, re.fullmatch(r"(.*)\.0", a[0]) is not None and p == a[0][:-2] + ".1", "a transaction is told as %s" % a, key="transaction")
                c.done(g)
    c.floor("F02.told", "reports to observers", n, 2)
    for f in [f for f in c.P.fns if f.crate == "mentat_ffi" and f.body is not None and "store_register_observer" in f.path]:
        c.see(f)
        lost = [callee_name(k) for b, t, k in f.body.calls() if k and re.search(r"Iterator::(skip|take|filter|filter_map|step_by|skip_while|take_while|map_while|nth|last|find|find_map|zip|rev)$|(Vec|slice|BTreeSet|BTreeMap|IndexMap)::(truncate|pop\w*|remove|retain|split_\w+|drain|clear|dedup|first|last)$", callee_name(k))]
        n += 1
        c.ob("F02.told", f, not lost, "not everything is told: %s" % lost, key="all")
    c.floor("F02.told", "steps of a report", n, 5)
    for f in [f for f in c.P.fns if f.crate == "mentat_ffi" and f.body is not None and f.name in ("c_char_to_string", "kw_from_string", "string_to_c_char") and f.kind != "closure"]:
        g = c.graph(f, None, small=0, keep=True)
        n += 1
        c.see(f)
        got = answers(g)
        p = ps(f)[0]
        w = {"c_char_to_string": r"(?:\w+::)*to_str\((?:\w+::)*from_ptr\(%s\)\)|''" % p, "string_to_c_char": r"(?:CString::into_raw\()?CString::new\(%s\)\)?" % p,
             "kw_from_string": r"Keyword::namespaced\((?P<x>.*)index\((?P<s>.*), 0\), (?P=x)index\((?P=s), 1\)\)"}[f.name]
        c.ob("F02.told", f, bool(got) and all(re.fullmatch(w, x) for x in got), "%s gives %s" % (f.name, got), key=f.name)
        c.done(g)
