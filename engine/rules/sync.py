"""Syncing: what each side's changes call for, what is applied, what is sent."""
import re
from ctx import *
from model import op_place
from registry import rule
from rules.cache import within, answers
from rules.idents import loops
from rules.pull import args_in, filled, split, turns
from rules.reads import out_

OPS = r"(fast_forward_remote|fast_forward_local|Syncer::merge|first_sync_against_non_empty|what_do|Processor::process|TxMapper::get|get_tx_for_uuid|SyncMetadata::(?:remote_head|root_and_head_tx|set_remote_head|set_remote_head_and_map|get_partitions|is_tx_empty|has_entity_assertions_in_tx|local_txs)|GlobalTransactionLog::\w+|ensure_current_version|is_compatible|core_schema_version|BootstrapHelper::new|remote_parts_to_builder|TxUploader::new|set_lg_mappings|set_lg_mapping|transact_builder|move_from_main_timeline|TxReceiver::\w+|allocate_partition_map_for_entids|QueryOutput::is_empty)$"

def having(c, rl, pat, crate="mentat_tolstoy"):
    fs = [f for f in c.P.fns if f.crate == crate and re.search(pat, strip_generics(f.path)) and f.kind != "closure" and f.body is not None]
    c.floor(rl, "functions " + re.sub(r"[^\w: ]", "", pat), len(fs), 1)
    c.see(*fs)
    return fs

def sgraph(c, f):
    g = c.graph(f, None, same_crate=False, keep=True, extra=lambda x: x.crate == "mentat_tolstoy" and not re.search(OPS, strip_generics(x.path)) and not re.search("remote_client", x.path) and len(x.body.blocks) < 80)
    g.T.opaque = lambda n: re.search(OPS, n) is not None
    g.T.lossy = True
    return g

def call(pat):
    p = re.compile("(" + pat + ")$")
    return lambda ev: ev.kind == "call" and p.search(ev.callee) is not None

def did(*calls):
    return [ev for ev in calls]

def ps(f): return [f.body.name(i) for i in range(1, f.body.argc + 1)]

def eqn(l, r, same):
    """Edges contradicting that l and r are the same / differ."""
    return lambda ev: ev.kind == "edge" and relation(ev, l, r) == ("Ne" if same else "Eq")

WHAT = {("Empty", "Changed"): "PopulateRemote", ("Empty", "Unchanged"): "PopulateRemote", ("Changed", "Changed"): "CombineChanges", ("Changed", "Unchanged"): "LocalFastForward",
        ("Unchanged", "Changed"): "RemoteFastForward", ("Unchanged", "Unchanged"): "NoOp"}
NIL = r"builder::nil\(\)"

@rule("Y01")
def y01_choice(c):
    c.rule("Y01.choice", "what a sync does follows from which of the two logs changed since the last one")
    for f in having(c, "Y01.choice", r"Syncer::what_do$"):
        g = c.graph(f, None, keep=True)
        r, l = (next((f.body.name(i) for i in range(1, f.body.argc + 1) if t in f.body.ty(i)), "?") for t in ("RemoteDataState", "LocalDataState"))
        for (rs, ls), want in WHAT.items():
            got = answers(g, contradicts("^%s$" % r, rs), contradicts("^%s$" % l, ls))
            c.ob("Y01.choice", f, got == ["SyncAction::%s{}" % want], "remote %s, local %s calls for %s" % (rs, ls, got), key="%s,%s" % (rs, ls))
        c.done(g)
    n = 0
    for f in c.P.fns:
        if f.crate != "mentat_tolstoy" or f.body is None or f.name != "from" or not re.search("(Remote|Local)DataState$", f.body.ty(0)): continue
        n += 1
        c.see(f)
        g = c.graph(f, None, keep=True)
        if "Remote" in f.body.ty(0):
            known, actual = r"^arg1\.0$|^known\w*$", r"^arg1\.1$|^actual\w*$"
            for want, given in (("Empty", (eqn(actual, NIL, True),)), ("Changed", (eqn(actual, NIL, False), eqn(actual, known, False))), ("Unchanged", (eqn(actual, NIL, False), eqn(actual, known, True)))):
                got = answers(g, *given)
                c.ob("Y01.choice", f, got == ["RemoteDataState::%s{}" % want], "a remote that is %s is taken for %s" % (want, got), key="remote:" + want)
        else:
            arg = ps(f)[0] or "arg1"
            for some, want in ((True, "Unchanged"), (False, "Changed")):
                got = answers(g, opt("^" + arg, some))
                c.ob("Y01.choice", f, got == ["LocalDataState::%s{}" % want], "a local head that %s known to the remote means %s" % ("is" if some else "isn't", got), key="local:" + want)
        c.done(g)
    c.floor("Y01.choice", "readings of the two states", n, 2)

HEAD, KNOWN, HT = r"GlobalTransactionLog::head\(remote\)", r"SyncMetadata::remote_head\(tx\)", r"SyncMetadata::root_and_head_tx\(tx\)"

@rule("Y01", "a remote head is read once per sync")
def y01_dispatch(c):
    c.rule("Y01.dispatch", "each choice does what it is named for, starting where the last sync left off, and nothing else")
    for f in having(c, "Y01.dispatch", r"Syncer::sync$"):
        g = sgraph(c, f)
        ip, remote = ps(f)[:2]
        sub = lambda p: p.replace("(remote", "(" + remote).replace("(tx", r"(%s\.transaction" % ip)
        head, known, ht = sub(HEAD), sub(KNOWN), sub(HT)
        tx = r"%s\.transaction" % ip
        ok = ret_of(g, "Ok")
        # what the choice is made from
        wd = call("what_do")
        a0, a1 = args_in(g, wd, 0), args_in(g, wd, 1)
        c.ob("Y01.dispatch", f, bool(a0) and all(re.fullmatch(r"tuple\{0: %s, 1: %s\}" % (known, head), x) for x in a0), "the remote's state is judged from %s" % [x[:200] for x in a0], key="remote state")
        c.ob("Y01.dispatch", f, bool(a1) and all(re.fullmatch(r"TxMapper::get\(%s, %s\.1\)" % (tx, ht), x) for x in a1), "the local state is judged from %s" % [x[:200] for x in a1], key="local state")
        q = g.search(wd, block=call("ensure_current_version")); 
        c.ob("Y01.dispatch", f, q is None, "the store isn't made ready: %s" % fmt_path(q or []), key="ready")
        # first sync
        first = call("first_sync_against_non_empty")
        is_first = any_of(eqn("^%s$" % known, NIL, True), eqn("^%s$" % head, NIL, False))
        q = g.search(any_of(wd, ok), given=is_first and any_of(eqn("^%s$" % known, NIL, True), eqn("^%s$" % head, NIL, False)), block=first)
        c.ob("Y01.dispatch", f, bool(g.events(first)) and q is None, "a first sync with a remote that has transactions isn't one: %s" % fmt_path(q or []), key="first")
        for nm, given in (("known remote", eqn("^%s$" % known, NIL, False)), ("empty remote", eqn("^%s$" % head, NIL, True))):
            q = g.search(first, given=given)
            c.ob("Y01.dispatch", f, q is None, "taken for a first sync, with a(n) %s: %s" % (nm, fmt_path(q or [])), key="first:" + nm)
        for ev in g.events(first):
            a = args_of(g, ev)
            c.ob("Y01.dispatch", f, a[:2] == [ip, remote] and re.fullmatch(r"(?:SyncMetadata::new\(|SyncMetadata::SyncMetadata\{)(?:root: )?%s\.0, (?:head: )?%s\.1[)}]" % (ht, ht), a[2]) is not None, "first sync of %s" % [x[:150] for x in a], key="first:args")
        mine = r"TxMapper::get_tx_for_uuid\(%s, %s\)" % (tx, known)
        after = r"GlobalTransactionLog::transactions_after\(%s, %s\)" % (remote, known)
        local = r"Processor::process\(%s, %s, LocalTxSet::LocalTxSet\{txs: Vec::new\(\)\}\)" % (tx, mine)
        NEED = {"NoOp": (None, None, "SyncReport::NoChanges{}"), "PopulateRemote": ("fast_forward_remote", [tx, r"Option::None\{\}", remote, head], "SyncReport::RemoteFastForward{}"),
                "RemoteFastForward": ("fast_forward_remote", [tx, mine, remote, head], "SyncReport::RemoteFastForward{}"), "LocalFastForward": ("fast_forward_local", [ip, after], "SyncReport::LocalFastForward{}"),
                "CombineChanges": ("merge", [ip, after, local], None)}
        steps = call("fast_forward_remote|fast_forward_local|Syncer::merge|first_sync_against_non_empty")
        subj = r"^(?:\w+::)*what_do\(.*\)$"
        notfirst = call("first_sync_against_non_empty")
        for act, (op, want, rep) in NEED.items():
            given = contradicts(subj, act)
            done = (lambda ev, op=op: False) if op is None else call(r"Syncer::" + op)
            q = g.search(ok, given=given, block=any_of(done, notfirst)) if op else None
            st = g.events(lambda ev: ev.kind == "edge" and given(ev))
            c.ob("Y01.dispatch", f, bool(st) and q is None, "%s is reported but not done: %s" % (act, fmt_path(q or [])), key=act)
            q = g.search(lambda ev: steps(ev) and not done(ev) and not notfirst(ev), given=given)
            c.ob("Y01.dispatch", f, q is None, "%s does something else: %s" % (act, fmt_path(q or [])), key=act + ":only")
            if op:
                T = within(g, given)
                for ev in g.events(done):
                    if (ev.frame.id, ev.block) not in T.only: continue
                    a = [rset(T.operand(ev.frame, x)) for x in ev.data["a"]]
                    c.ob("Y01.dispatch", f, len(a) == len(want) and all(re.fullmatch(w, x) for w, x in zip(want, a)), "%s is given %s" % (act, [x[:200] for x in a]), key=act + ":args")
            if rep:
                got = [x for x in answers(g, given) if "first_sync" not in x and not x.startswith("Result::Err")]
                c.ob("Y01.dispatch", f, got == [rep], "%s is reported as %s" % (act, got), key=act + ":report")
        got = [x for x in answers(g, contradicts(subj, "CombineChanges")) if "first_sync" not in x and not x.startswith("Result::Err")]
        c.ob("Y01.dispatch", f, len(got) == 1 and re.match(r"Syncer::merge\(", got[0]) is not None, "a merge is reported as %s" % [x[:80] for x in got], key="CombineChanges:report")
        c.done(g)
    for f in having(c, "Y01.dispatch", r"Syncer::local_tx_for_uuid$"):
        g = sgraph(c, f)
        db, uuid = ps(f)
        got = answers(g, opt(r"^TxMapper::get_tx_for_uuid\(.*\)", False))
        c.ob("Y01.dispatch", f, bool(got) and all(x.startswith("Result::Err") for x in got), "a head that isn't mapped counts as %s" % got, key="unmapped")
        got = [x for x in answers(g) if not x.startswith("Result::Err")]
        c.ob("Y01.dispatch", f, got == ["TxMapper::get_tx_for_uuid(%s, %s)" % (db, uuid)], "the local transaction is %s" % got, key="mapped")
        c.done(g)

@rule("Y01")
def y01_first(c):
    c.rule("Y01.first", "a first sync with a remote that has transactions takes over its bootstrap when it is compatible, and changes nothing otherwise")
    for f in having(c, "Y01.first", r"Syncer::first_sync_against_non_empty$"):
        g = sgraph(c, f)
        ip, remote, meta = ps(f)[:3]
        inc = r"GlobalTransactionLog::transactions_after\(%s, %s\)" % (remote, NIL)
        boot = r"(?:Index::index\(%s, 0\)|slice::first\(%s\))" % (inc, inc)
        compat = r"BootstrapHelper::is_compatible\(BootstrapHelper::new\(%s\)\)" % boot
        writes = call(r"set_remote_head_and_map|set_remote_head|fast_forward_local|Syncer::merge|fast_forward_remote|transact_builder|set_lg_mapping\w*")
        ok = ret_of(g, "Ok")
        for nm, given, rep in (("nothing", contradicts(r"::is_empty\(%s\)$" % inc, "1"), "SyncReport::BadRemoteState"), ("incompatible", contradicts("^%s$" % compat, "0"), "SyncReport::IncompatibleRemoteBootstrap")):
            st = g.events(lambda ev: ev.kind == "edge" and given(ev))
            q = g.search(writes, given=given)
            c.ob("Y01.first", f, bool(st) and q is None, "a remote that is %s changes the store: %s" % (nm, fmt_path(q or [])), key=nm)
            got = [x for x in answers(g, given) if not x.startswith(("SyncReport::BadRemoteState", "Result::Err"))] if nm != "nothing" else answers(g, given)
            c.ob("Y01.first", f, bool(got) and all(x.startswith(rep) for x in got), "a remote that is %s is reported as %s" % (nm, [x[:100] for x in got]), key=nm + ":report")
        m = call("set_remote_head_and_map")
        for ev in g.events(m):
            a = args_of(g, ev)
            c.ob("Y01.first", f, a[0] == ip + ".transaction" and re.fullmatch(r"tuple\{0: %s\.root, 1: %s\.tx\}" % (meta, boot), a[1]) is not None, "the bootstrap is recorded as %s" % [x[:200] for x in a], key="map:args")
        later = call("fast_forward_local|Syncer::merge")
        q = g.search(any_of(later, lambda ev: ok(ev)), block=m, given=any_of(contradicts(r"::is_empty\(%s\)$" % inc, "0"), contradicts("^%s$" % compat, "1")))
        c.ob("Y01.first", f, bool(g.events(m)) and q is None, "goes on without recording the bootstrap: %s" % fmt_path(q or []), key="map")
        wd = call("what_do")
        ln = r"(?:\w+::)*len\(%s\)" % inc
        for n, want in ((1, "Unchanged"), (2, "Changed")):
            got = args_in(g, wd, 0, contradicts("^" + ln + "$", n))
            c.ob("Y01.first", f, got == {"RemoteDataState::%s{}" % want}, "a remote of %d transaction(s) is %s" % (n, sorted(got)), key="remote:%d" % n)
        for same, want in ((True, "Unchanged"), (False, "Changed")):
            got = args_in(g, wd, 1, eqn(r"^%s\.root$" % meta, r"^%s\.head$" % meta, same))
            c.ob("Y01.first", f, got == {"LocalDataState::%s{}" % want}, "a local log that %s its bootstrap is %s" % ("is just" if same else "goes on after", sorted(got)), key="local:" + want)
        subj = r"^(?:\w+::)*what_do\(.*\)$"
        rest = r"slice::to_vec\(Index::index\(%s, RangeFrom::RangeFrom\{start: 1\}\)\)|\[?Iterator::skip\(%s, 1\)(?:\[\]\])?|Vec::split_off\(%s, 1\)" % (inc, inc, inc)
        local = r"Processor::process\(%s\.transaction, (?:Option::Some\{0: )?%s\.root\}?, LocalTxSet::LocalTxSet\{txs: Vec::new\(\)\}\)" % (ip, meta)
        NEED = {"NoOp": None, "LocalFastForward": ("fast_forward_local", [ip, rest]), "CombineChanges": ("merge", [ip, rest, local])}
        pre = any_of(contradicts(r"::is_empty\(%s\)$" % inc, "0"), contradicts("^%s$" % compat, "1"))
        for act, need in NEED.items():
            given = any_of(contradicts(subj, act), pre)
            done = (lambda ev: False) if need is None else call(r"Syncer::" + need[0])
            if need:
                q = g.search(ok, given=given, block=done)
                c.ob("Y01.first", f, q is None, "%s isn't done: %s" % (act, fmt_path(q or [])), key=act)
                for ev in g.events(done):
                    a = args_of(g, ev)
                    c.ob("Y01.first", f, len(a) == len(need[1]) and all(re.fullmatch(w, x) for w, x in zip(need[1], a)), "%s is given %s" % (act, [x[:200] for x in a]), key=act + ":args")
            q = g.search(lambda ev: later(ev) and not done(ev), given=given)
            c.ob("Y01.first", f, q is None, "%s does something else: %s" % (act, fmt_path(q or [])), key=act + ":only")
        for act in ("PopulateRemote", "RemoteFastForward"):
            q = g.search(ok, given=any_of(contradicts(subj, act), pre))
            c.ob("Y01.first", f, q is None, "%s is taken for done: %s" % (act, fmt_path(q or [])), key=act)
        c.done(g)
    for f in having(c, "Y01.first", r"BootstrapHelper::is_compatible$"):
        g = c.graph(f, None, small=0, keep=True)
        g.T.opaque = lambda n: re.search(r"core_schema_version$", n) is not None
        got = [x for x in answers(g) if not x.startswith("Result::Err")]
        c.ob("Y01.first", f, len(got) == 1 and re.fullmatch(r"\(?(?:BootstrapHelper::core_schema_version\(self\) Eq \w+|.*CORE_SCHEMA_VERSION.*)\)?", got[0]) is not None, "compatible means %s" % got, key="compatible")
        c.done(g)
    for f in having(c, "Y01.first", r"BootstrapHelper::core_schema_version$"):
        g = c.graph(f, None, small=0, keep=True)
        g.T.opaque = lambda n: re.search(r"(ea_lookup|into_long)$", n) is not None
        got = answers(g, opt(r"^(?:\w+::)*ea_lookup\(.*\)", False))
        c.ob("Y01.first", f, bool(got) and all(x.startswith("Result::Err") for x in got), "a bootstrap without a version has version %s" % got, key="version:none")
        got = answers(g, opt(r"^(?:\w+::)*into_long\(.*\)", False))
        c.ob("Y01.first", f, bool(got) and all(x.startswith("Result::Err") for x in got), "a version that isn't a number counts as %s" % got, key="version:type")
        c.done(g)

NB = r"TermBuilder::(?:TermBuilder\{.*\}|new\(\)|default\(\))"

@rule("Y01", "a builder is filled before it is transacted, and not shared between transactions")
def y01_apply(c):
    c.rule("Y01.applied", "each incoming transaction is applied whole, in order, under the id it came with; the last one applied becomes the known remote head")
    c.rule("Y01.partitions", "an incoming transaction that doesn't say what ids it needs is refused")
    c.rule("Y01.ids", "applying an incoming transaction doesn't go back over ids already given out")
    for f, inc in [(f, ps(f)[1]) for f in having(c, "Y01.applied", r"Syncer::(fast_forward_local|merge)$")]:
        g = sgraph(c, f)
        ip = ps(f)[0]
        src = re.escape(inc)
        k = f.name + ":"
        ls = loops(g, src + r"\[\]")
        ls = ls or loops(g, src)
        its = {k2: v for k2, v in ls.items()}
        c.ob("Y01.applied", f, bool(its), "the incoming transactions aren't gone through", key=k + "loop")
        ok = ret_of(g, "Ok")
        pm = r"(?:\w+::)*first\(%s\[\]\.parts\)\.partitions|Index::index\(%s\[\]\.parts, 0\)\.partitions" % (src, src)
        # each one's parts go in a builder, and a missing partition map is an error
        fill = lambda ev: call("remote_parts_to_builder")(ev) and args_of(g, ev)[1] == "%s[].parts" % inc and re.fullmatch(NB, args_of(g, ev)[0]) is not None
        fresh = lambda ev: ev.kind == "call" and re.search(r"TermBuilder::(new|default)$", ev.callee) is not None
        c.ob("Y01.applied", f, bool(g.events(fill)) and all(fill(ev) for ev in g.events(call("remote_parts_to_builder"))), "what's applied isn't the transaction's own parts", key=k + "parts")
        full = turns(g, its, fill, ok)
        q = g.search(ok, block=full)
        c.ob("Y01.applied", f, q is None, "an incoming transaction is left out: %s" % fmt_path(q or []), key=k + "all")
        q = g.search(fill, start=lambda ev: any(s(ev) for s, n in its.values()), block=fresh)
        c.ob("Y01.applied", f, q is None, "two transactions share a builder: %s" % fmt_path(q or []), key=k + "own")
        none = opt("^(?:%s)" % pm, False)
        st = g.events(lambda ev: ev.kind == "edge" and none(ev))
        tb = call("transact_builder")
        intx = [ev for ev in g.events(tb) if g.search(is_ev(ev), block=call("savepoint")) is not None]
        nx = any_of(*[x for s, n in its.values() for x in (s, n)]) if its else (lambda ev: False)
        q = g.search(nx, start=lambda ev: any(s(ev) for s, n in its.values()), given=none) if st else []
        c.ob("Y01.partitions", f, bool(st) and q is None, "a transaction without its partitions is taken: %s" % fmt_path(q or []), key=f.name + ":missing")
        # applied: either in the same turns or in those over what the first ones collected
        c.ob("Y01.applied", f, len(intx) >= 1, "nothing applies the incoming transactions", key=k + "applies")
        app = any_of(*[is_ev(ev) for ev in intx]) if intx else (lambda ev: False)
        col = {a for ev in g.events(call("Vec::push")) for a in [tuple(args_of(g, ev))] if re.fullmatch(r"tuple\{0: %s, 1: (?:%s), 2: %s\[\]\.tx\}" % (NB, pm, src), a[1])}
        over = loops(g, r"tuple\{0: %s, 1: (?:%s), 2: %s\[\]\.tx\}" % (NB, pm, src))
        if turns(g, its, app, ok) and g.search(ok, block=turns(g, its, app, ok)) is None: turn = its
        else:
            turn = over
            c.ob("Y01.applied", f, any(re.fullmatch(r"Vec::(new\(\)|with_capacity\(.*\))", t) and filled(g, r"tuple\{0: %s, 1: (?:%s), 2: %s\[\]\.tx\}" % (NB, pm, src), src, ok, t) for t, _ in col), "not all transactions are kept to be applied", key=k + "kept")
            end = turns(g, over, app, ok)
            q = g.search(ok, block=end)
            c.ob("Y01.applied", f, bool(over) and q is None, "an incoming transaction isn't applied: %s" % fmt_path(q or []), key=k + "each")
        starts = lambda ev: any(s(ev) for s, n in turn.values())
        nxt = any_of(*[x for s, n in turn.values() for x in (s, n)]) if turn else (lambda ev: False)
        # under its own partitions, with the transaction's id given back
        setp = lambda ev: field_write("InProgress", "partition_map")(ev)
        own = [ev for ev in g.events(setp) if re.fullmatch(r"(?:%s).*" % pm, written(g, ev))]
        adopt = any_of(*[is_ev(ev) for ev in own]) if own else (lambda ev: False)
        q = g.search(app, start=starts, block=adopt)
        c.ob("Y01.applied", f, bool(own) and q is None, "applied under other ids: %s" % fmt_path(q or []), key=k + "partitions")
        back = lambda ev: ev.kind == "call" and re.search(r"Partition::set_next_entid$", ev.callee) is not None and re.fullmatch(r"\(BTreeMap::get(?:_mut)?\((?:%s), ':db\.part/tx'\)\.next_entid_to_allocate Sub 1\)" % pm, args_of(g, ev)[1]) is not None and re.fullmatch(r"BTreeMap::get_mut\((?:%s), ':db\.part/tx'\)" % pm, args_of(g, ev)[0]) is not None
        q = g.search(any_of(adopt, app), start=starts, block=back)
        c.ob("Y01.applied", f, bool(g.events(back)) and q is None, "applied under another transaction id: %s" % fmt_path(q or []), key=k + "id")
        q2 = [1 for ev in g.events(back) if g.search(back, start=is_ev(ev), block=nxt) is not None]
        c.ob("Y01.applied", f, not q2, "the transaction id is given back twice", key=k + "id once")
        notx = opt(r"^BTreeMap::get(?:_mut)?\((?:%s), ':db\.part/tx'\)" % pm, False)
        q = g.search(app, start=starts, given=notx)
        c.ob("Y01.partitions", f, q is None, "a transaction without its own partition is taken: %s" % fmt_path(q or []), key=f.name + ":tx")
        # never back over what has been given out
        keeps = lambda ev: ev.kind == "edge" and any(re.search(r"\b%s\.partition_map\b.*next_entid" % ip, rset(a) + rset(b)) and re.search("partitions.*next_entid", rset(a) + rset(b)) for _, a, b, _ in cond(ev)) or ev.kind == "call" and re.search(r"::max$", ev.callee) is not None and any("%s.partition_map" % ip in x for x in args_of(g, ev))
        c.ob("Y01.ids", f, bool(g.events(keeps)), "the partitions an incoming transaction comes with, which count only the entities it mentions, replace those in place", key=f.name + ":kept")
        # the head
        mp = call("set_remote_head_and_map")
        last = r"tuple\{0: InProgress::transact_builder\(.*%s.*\)\.tx_id, 1: %s\[\]\.tx\}" % (re.escape(inc), src)
        for ev in g.events(mp):
            a = args_of(g, ev)
            c.ob("Y01.applied", f, a[0] == ip + ".transaction" and re.fullmatch(last, a[1]) is not None, "the known remote head becomes %s" % [x[:150] for x in a], key=k + "head:args")
        kept = lambda ev: ev.kind == "stmt" and isinstance(ev.data[1], dict) and ev.data[1].get("r") == "agg" and "Some" in str(ev.data[1].get("v", "")) + str(ev.data[1]) and any(re.fullmatch(last, rset(g.T.operand(ev.frame, o))) for o in ev.data[1].get("a", []))
        kk = g.events(kept)
        c.ob("Y01.applied", f, bool(kk), "the last transaction isn't kept", key=k + "last")
        for ev in intx:
            q = g.search(nxt, start=is_ev(ev), block=kept)
            c.ob("Y01.applied", f, q is None, "a transaction applied isn't the last one: %s" % fmt_path(q or []), key=k + "last:each")
        anyt = lambda ev: opt(r"tuple\{0: InProgress::transact_builder\(.*", True)(ev)
        q = g.search(ok, start=app, block=mp, given=some_kept(g, last))
        c.ob("Y01.applied", f, bool(g.events(mp)) and q is None, "the head isn't recorded: %s" % fmt_path(q or []), key=k + "head")
        q = None
        for ev in g.events(mp):
            q = q or g.search(app, start=is_ev(ev))
        c.ob("Y01.applied", f, q is None, "the head is recorded before everything is applied: %s" % fmt_path(q or []), key=k + "head:after")
        c.done(g)

def some_kept(g, last):
    """Edges contradicting that a transaction has been kept."""
    def p(ev):
        if ev.kind != "edge" or ev.tag is None or ev.tag[2] != "None": return False
        ts = g.T.operand(ev.frame, ev.data["o"])
        return bool(ts) and all(t[0] == "discr" and (re.fullmatch(last, rend(t[1])) or rend(t[1]) == "Option::None{}") for t in ts)
    return p

def written(g, ev):
    """Rendering of what a field write stores."""
    r = ev.data[1]
    try: return rset(g.T.rvalue(ev.frame, r, (), 0))
    except Exception: return "?"

def agg(g, pat):
    """Events that make a value rendered ~pat."""
    p = re.compile(pat)
    return lambda ev: ev.kind == "stmt" and isinstance(ev.data[1], dict) and ev.data[1].get("r") == "agg" and p.fullmatch(written(g, ev)) is not None

@rule("Y01", "a lookup made before a transaction still holds when it runs")
def y01_merge(c):
    c.rule("Y01.merge", "a merge sets the local transactions aside, applies the remote's, then replays each local one that still says something; what can't be replayed fails the sync")
    for f in having(c, "Y01.merge", r"Syncer::merge$"):
        g = sgraph(c, f)
        ip, inc, loc = ps(f)[:3]
        ok = ret_of(g, "Ok")
        tb, sp = call("transact_builder"), call("savepoint")
        mine = [ev for ev in g.events(tb) if g.search(is_ev(ev), block=sp) is None]
        theirs = [ev for ev in g.events(tb) if g.search(is_ev(ev), block=sp) is not None]
        c.ob("Y01.merge", f, bool(mine), "local transactions aren't replayed so that they can be undone", key="replays")
        replay = any_of(*[is_ev(ev) for ev in mine]) if mine else (lambda ev: False)
        # set aside first
        mv = call("move_from_main_timeline")
        first = r"(?:Index::index\(%s, 0\)|(?:\w+::)*first\(%s\))\.tx" % (loc, loc)
        q = g.search(any_of(tb, ok), block=mv)
        c.ob("Y01.merge", f, bool(g.events(mv)) and q is None, "the local transactions stay where they are: %s" % fmt_path(q or []), key="aside")
        for ev in g.events(mv):
            a = args_of(g, ev)
            c.ob("Y01.merge", f, a[0] == ip + ".transaction" and (ip + ".schema") in a[1] and (ip + ".partition_map") in a[2] and re.fullmatch(r"RangeFrom::RangeFrom\{start: %s\}" % first, a[3]) is not None and re.fullmatch(r"\(%s Sub 1\)" % first, a[4]) is not None,
                 "set aside are %s" % [x[:100] for x in a], key="aside:args")
        moved = r"timelines::move_from_main_timeline\(.*\)"
        for fld, n in (("partition_map", 1), ("schema", 0)):
            w = lambda ev, fld=fld, n=n: field_write("InProgress", fld)(ev) and re.search(r"(?:%s|<rec>)\.%d(\.0)*" % (moved, n), written(g, ev)) is not None
            none = opt("^" + moved + r"\.0", True)
            q = g.search(tb, block=w, given=none)
            c.ob("Y01.merge", f, bool(g.events(w)) and q is None, "the %s isn't the one before the local transactions: %s" % (fld, fmt_path(q or [])), key="aside:" + fld)
        rf = lambda ev: ev.kind == "call" and re.search(r"InProgressSQLiteAttributeCache::refresh$", ev.callee) is not None
        q = g.search(tb, block=rf)
        c.ob("Y01.merge", f, bool(g.events(rf)) and q is None, "the cache still has what was set aside: %s" % fmt_path(q or []), key="aside:cache")
        q = None
        for ev in mine: q = q or g.search(any_of(*[is_ev(e) for e in theirs]), start=is_ev(ev)) if theirs else q
        c.ob("Y01.merge", f, bool(theirs) and q is None, "remote transactions come after local ones: %s" % fmt_path(q or []), key="order")
        # every local transaction, every datom
        ls = loops(g, re.escape(loc) + r"\[\]")
        emp = call(r"TermBuilder::is_empty|is_empty\(TermBuilder.*\)")
        isempty = contradicts(r"TermBuilder::is_empty\(.*\)$|Vec::is_empty\(%s\.terms\)$|^(?:\w+::)*len\(%s\.terms\)$" % (NB, NB), "0")
        end = turns(g, ls, replay, ok, given=isempty_not(g))
        q = g.search(ok, block=end)
        c.ob("Y01.merge", f, bool(ls) and q is None, "a local transaction that says something isn't replayed: %s" % fmt_path(q or []), key="all")
        part = re.escape(loc) + r"\[\]\.parts\[\]"
        inst = lambda yes: instant(part + r"\.a", yes)
        add = lambda ev: ev.kind == "call" and re.search(r"BuildTerms::add$", ev.callee) is not None
        ret = lambda ev: ev.kind == "call" and re.search(r"BuildTerms::retract$", ev.callee) is not None
        ps_ = loops(g, part)
        # the turns that can add
        addl = {k: v for k, v in ps_.items() if g.search(add, start=v[0], block=any_of(*[x for s, n in ps_.values() for x in (s, n)])) is not None}
        c.ob("Y01.merge", f, len(addl) == 1, "%d iterations over a local transaction's datoms replay them" % len(addl), key="datoms")
        for k, (some, none) in addl.items():
            nx = any_of(some, none)
            q = g.search(nx, start=some, block=add, given=any_of(inst(False), contradicts("^" + part + r"\.added$", "1")))
            c.ob("Y01.merge", f, q is None, "an assertion isn't replayed: %s" % fmt_path(q or []), key="added")
            q = g.search(ret, start=some, block=nx, given=contradicts("^" + part + r"\.added$", "1"))
            c.ob("Y01.merge", f, q is None, "an assertion is replayed as a retraction: %s" % fmt_path(q or []), key="added:op")
            q = g.search(add, start=some, block=nx, given=contradicts("^" + part + r"\.added$", "0"))
            c.ob("Y01.merge", f, q is None, "a retraction is replayed as an assertion: %s" % fmt_path(q or []), key="retracted:op")
            q = g.search(any_of(add, ret), start=some, block=nx, given=inst(True))
            c.ob("Y01.merge", f, q is None, "a transaction's instant is replayed: %s" % fmt_path(q or []), key="instant")
            q = g.search(nx, start=some, block=ret, given=any_of(inst(False), contradicts("^" + part + r"\.added$", "0"), opt(r"attribute_map.*, %s\.a\)\.unique" % part, True), contradicts(r"QueryOutput::is_empty\(.*\)$", "0")))
            c.ob("Y01.merge", f, q is None, "a retraction that can be replayed isn't: %s" % fmt_path(q or []), key="retracted")
        E_ = r"%s\.e" % part
        for ev in g.events(any_of(add, ret)):
            a = args_of(g, ev)
            ents = a[1]
            c.ob("Y01.merge", f, E_name(part).search(ents) is not None and re.fullmatch(r"KnownEntid::KnownEntid\{0: %s\.a\}" % part, a[2]) is not None and re.fullmatch(part + r"\.v", a[3]) is not None, "replayed is %s" % [x[:120] for x in a[1:]], key="replayed:" + ev.callee.split("::")[-1])
        # what a local transaction says of an entity it asserts about is replayed by a name, to meet what the remote knows; of others by their ids
        site = lambda ev, o: frozenset(t[3] for t in g.T.operand(ev.frame, o) if t[0] == "call" and len(t) > 3)
        every_ = any_of(*[x for s, n in ps_.values() for x in (s, n)]) if ps_ else (lambda ev: False)
        has_e = lambda ev: ev.kind == "call" and re.search(r"(Hash|BTree)Set::contains$", ev.callee) is not None and re.fullmatch(E_, args_of(g, ev)[1]) is not None
        asked = [ev for ev in g.events(has_e) for s, n in addl.values() if g.search(is_ev(ev), start=s, block=every_) is not None]
        sets = {site(ev, ev.data["a"][0]) for ev in asked}
        c.ob("Y01.merge", f, len(sets) == 1, "%d sets decide how an entity is replayed" % len(sets), key="named")
        for st_ in sets:
            ins = lambda ev: ev.kind == "call" and re.search(r"(Hash|BTree)Set::insert$", ev.callee) is not None and re.fullmatch(E_, args_of(g, ev)[1]) is not None and site(ev, ev.data["a"][0]) == st_
            il = {k: v for k, v in ps_.items() if g.search(ins, start=v[0], block=every_) is not None}
            for k, (some, none) in il.items():
                q = g.search(any_of(some, none), start=some, block=ins, given=any_of(inst(False), contradicts("^" + part + r"\.added$", "1")))
                c.ob("Y01.merge", f, q is None, "an entity asserted about isn't replayed by name: %s" % fmt_path(q or []), key="named:asserted")
                q = g.search(ins, start=some, block=any_of(some, none), given=contradicts("^" + part + r"\.added$", "0"))
                c.ob("Y01.merge", f, q is None, "an entity only retracted from is replayed by name: %s" % fmt_path(q or []), key="named:retracted")
                for s2, n2 in addl.values():
                    q = g.search(add, start=any_of(*[s for s, n in ls.values()]), block=none) if ls else []
                    c.ob("Y01.merge", f, q is None, "replayed before its entities are known: %s" % fmt_path(q or []), key="named:first")
            c.ob("Y01.merge", f, bool(il), "no entity is replayed by name", key="named:some")
        tests = r"Set::contains\(.*, %s\)$" % E_
        for yes, rx in (("1", r"(?!.*KnownEntid::KnownEntid\{0: %s\}).*named_tempid\(.*%s.*|(?!.*KnownEntid::KnownEntid\{0: %s\}).*TempId.*%s.*" % (E_, E_, E_, E_)), ("0", r"(?:\w+(?:::\w+)*\{0: )*%s\}*" % E_)):
            given = contradicts(tests, yes)
            got = args_in(g, add, 1, given)
            c.ob("Y01.merge", f, bool(got) and all(re.fullmatch(rx, x, re.S) for x in got), "an entity that %s asserted about is replayed as %s" % ("is" if yes == "1" else "isn't", sorted(got)), key="named:" + yes)
        # undone if empty
        noth = r"^(?:\w+::)*is_tx_empty\(%s\.transaction, InProgress::transact_builder\(.*\)\.tx_id\)$" % ip
        rel, rb = call("release_savepoint"), call("rollback_savepoint")
        turn = any_of(*[x for s, n in ls.values() for x in (s, n)], ok) if ls else ok
        for nm, given, need, no in (("says nothing", contradicts(noth, "1"), rb, rel), ("says something", contradicts(noth, "0"), rel, rb)):
            st = g.events(lambda ev: ev.kind == "edge" and given(ev))
            q = g.search(turn, start=replay, block=need, given=given) or g.search(no, start=replay, block=turn, given=given)
            c.ob("Y01.merge", f, bool(st) and q is None, "a replayed transaction that %s is %s: %s" % (nm, "kept" if need is rb else "undone", fmt_path(q or [])), key=nm)
        given = contradicts(noth, "1")
        rest = lambda ev: field_write("InProgress", "partition_map")(ev)
        gone = lambda ev: ev.kind == "call" and re.search(r"IndexMap::(remove|swap_remove|shift_remove)$", ev.callee) is not None and args_of(g, ev)[0] == ip + ".tx_observer_watcher.txes" and re.search(r"\.tx_id$", args_of(g, ev)[1]) is not None
        for nm, need in (("ids", rest), ("report", gone)):
            q = g.search(turn, start=replay, block=need, given=given)
            c.ob("Y01.merge", f, q is None, "an undone transaction leaves its %s behind: %s" % (nm, fmt_path(q or [])), key="undone:" + nm)
            q = g.search(need, start=replay, block=turn, given=contradicts(noth, "0"))
            c.ob("Y01.merge", f, q is None, "a kept transaction loses its %s: %s" % (nm, fmt_path(q or [])), key="kept:" + nm)
        # whether there's more to send
        full, fin = agg(g, r"SyncFollowup::FullSync\{\}"), agg(g, r"SyncFollowup::None\{\}")
        q = g.search(fin, start=rel) if g.events(fin) else []
        c.ob("Y01.merge", f, q is None, "a merge that leaves something to send is the end of it: %s" % fmt_path(q or []), key="follow:more")
        q = g.search(full, given=contradicts(noth, "1")) if g.events(full) else []
        c.ob("Y01.merge", f, q is None, "a merge that leaves nothing to send asks for another sync: %s" % fmt_path(q or []), key="follow:none")
        # schema
        has = r"^(?:\w+::)*has_entity_assertions_in_tx\(%s\.transaction, .*, InProgress::transact_builder\(.*\)\.tx_id\)$" % ip
        hc = call("has_entity_assertions_in_tx")
        alt = contradicts(has, "1")
        st = g.events(lambda ev: ev.kind == "edge" and alt(ev))
        q = g.search(any_of(rel, rb, ok), start=hc, given=alt)
        c.ob("Y01.merge", f, bool(st) and q is None, "a local change of an attribute the remote has is let through: %s" % fmt_path(q or []), key="schema")
        c.done(g)
    for f in having(c, "Y01.merge", r"Syncer::remote_parts_to_builder$"):
        g = sgraph(c, f)
        b, parts = ps(f)
        src = re.escape(parts) + r"\[\]"
        ok = ret_of(g, "Ok")
        ls = loops(g, src)
        for nm, yes in (("add", "1"), ("retract", "0")):
            op = lambda ev, nm=nm: ev.kind == "call" and re.search(r"BuildTerms::%s$" % nm, ev.callee) is not None and args_of(g, ev)[0] == b
            given = contradicts("^" + src + r"\.added$", yes)
            end = turns(g, ls, op, ok, given=given)
            q = g.search(ok, block=end, given=given)
            c.ob("Y01.merge", f, bool(ls) and q is None, "a datom of an incoming transaction isn't %sed: %s" % (nm, fmt_path(q or [])), key="incoming:" + nm)
            for yes2, want in ((True, r"EntityPlace::TxFunction\{0: TxFunction::TxFunction\{op: PlainSymbol::PlainSymbol\{0: 'transaction-tx'\}\}\}"), (False, r"KnownEntid::KnownEntid\{0: %s\.e\}|EntityPlace::Entid\{.*%s\.e\}*" % (src, src))):
                got = args_in(g, op, 1, instant(src + r"\.a", yes2))
                c.ob("Y01.merge", f, bool(got) and all(re.fullmatch(want, x) for x in got), "%s is said of %s" % ("an instant" if yes2 else "a fact", sorted(got)), key="incoming:%s:%s" % (nm, yes2))
            for i, w in ((2, r"KnownEntid::KnownEntid\{0: %s\.a\}" % src), (3, src + r"\.v")):
                got = args_in(g, op, i)
                c.ob("Y01.merge", f, bool(got) and all(re.fullmatch(w, x) for x in got), "what is %sed is %s" % (nm, sorted(got)), key="incoming:%s:%d" % (nm, i))
        c.done(g)

def E_name(part): return re.compile(part + r"\.e\b|LookupRef\{a: KnownEntid::KnownEntid\{0: %s\.a\}, v: %s\.v\}" % (part, part))

def isempty_not(g):
    """Edges contradicting that the builder has something in it."""
    e = contradicts(r"(?:TermBuilder|Vec)::is_empty\((?:TermBuilder::|Vec::new).*\)$", "0")
    return e

def instant(subj, yes):
    """Edges contradicting that the attribute `subj` is / isn't the transaction instant."""
    p = re.compile(subj)
    def f(ev):
        if ev.kind != "edge": return False
        r = relation(ev, "^" + subj + "$", r"^(3|.*DB_TX_INSTANT)$")
        if r is not None: return r == ("Ne" if yes else "Eq")
        ts = ev.g.T.operand(ev.frame, ev.data["o"])
        if ts and all(p.fullmatch(rend(t)) for t in ts) and any(str(v) == "3" for v, _ in ev.data["v"]):
            tag = str(ev.tag[2]) if ev.tag is not None else None
            return (tag != "3") if yes else (tag == "3")
        return False
    return f

@rule("Y01", "committing a transaction twice doesn't compile")
def y01_store(c):
    c.rule("Y01.store", "each round of a sync is one transaction, committed when it succeeds; there's another round exactly when a merge asks for one")
    for f in having(c, "Y01.store", r"store::Store::sync$", "mentat"):
        g = c.graph(f, None, same_crate=False, keep=True)
        sy, cm = call("sync"), call("InProgress::commit")
        ok = ret_of(g, "Ok")
        q = g.search(any_of(ok, sy), start=sy, block=cm)
        c.ob("Y01.store", f, bool(g.events(sy)) and bool(g.events(cm)) and q is None, "what a round did isn't kept: %s" % fmt_path(q or []), key="commit")
        q = g.search(cm, block=sy)
        c.ob("Y01.store", f, q is None, "commits without a sync: %s" % fmt_path(q or []), key="sync")
        for ev in g.events(sy):
            a = args_of(g, ev)
            c.ob("Y01.store", f, a[1:] == ps(f)[1:], "syncs with %s" % a[1:], key="with")
        more = lambda v: any_of(contradicts(r"sync\(.*\)$", "Merge"), contradicts(r"sync\(.*\)(\.\w+)*\.0$", v))
        q = g.search(ok, start=cm, block=sy, given=more("FullSync"))
        c.ob("Y01.store", f, q is None, "stops although a merge asks for another round: %s" % fmt_path(q or []), key="more")
        q = g.search(sy, start=cm, given=contradicts(r"sync\(.*\)(\.\w+)*\.0$", "None"))
        c.ob("Y01.store", f, q is None, "goes on although nothing asks for another round: %s" % fmt_path(q or []), key="end:merge")
        for v in ("NoChanges", "RemoteFastForward", "LocalFastForward", "BadRemoteState", "IncompatibleRemoteBootstrap"):
            q = g.search(sy, start=cm, given=contradicts(r"sync\(.*\)$", v))
            c.ob("Y01.store", f, q is None, "goes on after %s: %s" % (v, fmt_path(q or [])), key="end:" + v)
        c.done(g)

@rule("Y02", "SQLite returns rows in the order asked for")
def y02_process(c):
    c.rule("Y02.read", "the transactions read are those of the log after the given one, in order, each with all of its datoms as stored")
    n = 0
    for s in c.sql():
        if not re.search(r"Processor::process$", strip_generics(s.fn.path)): continue
        c.see(s.fn)
        c.ob("Y02.read", s.fn, not s.unparsed and len(s.stmts) == 2, "reads with %s" % (s.texts,), key="sql")
        for t, d in s.stmts:
            n += 1
            since = any("⟦" in str(x) for x in (t,))
            cols = [x[0][-1] for x in d["cols"]]
            c.ob("Y02.read", s.fn, cols == ["e", "a", "v", "value_type_tag", "tx", "added"], "reads %s" % cols, key="cols")
            c.ob("Y02.read", s.fn, [x[0] if isinstance(x, tuple) and isinstance(x[0], tuple) else x for x in d["order"]][:1] in ([("col", None, "tx")],) and "desc" not in str(d["order"]).lower(), "in the order %s" % (d["order"],), key="order")
            tabs = [x[0] for x in d["from"]] if d["from"] and isinstance(d["from"][0], (list, tuple)) else d["from"]
            c.ob("Y02.read", s.fn, "timelined_transactions" in str(tabs) and not d["group"] and not d["limit"] and not d["distinct"], "from %s" % tabs, key="from")
            w = str(d["where"])
            gt = re.search(r"\('gt', \('col', None, 'tx'\), |\('lt', .*?, \('col', None, 'tx'\)\)", w)
            c.ob("Y02.read", s.fn, "('eq', ('col', None, 'timeline'), ('lit', 0))" in w and (not since or gt is not None) and w.count("('col'") == (2 if since else 1) and "'or'" not in w, "where %s" % w[:200], key="since" if since else "all")
    c.floor("Y02.read", "readings of the log", n, 2)
    for f in having(c, "Y02.read", r"Processor::process$"):
        g = c.graph(f, None, same_crate=False, keep=True)
        g.T.opaque = lambda nm: re.search(r"TxReceiver::\w+$|to_tx_part$", nm) is not None
        tx = call("TxReceiver::tx")
        ok = ret_of(g, "Ok")
        db, frm, rec = ps(f)
        none = [ev for ev in g.events(lambda e: e.kind == "edge" and e.tag is not None and e.tag[2] == "Some")]
        rows = r"(?:Statement::query_and_then\(.*\)|.*rows.*)\[\]"
        ls = loops(g, rows)
        c.ob("Y02.read", f, bool(ls), "the rows aren't gone through", key="rows")
        nx = any_of(*[x for s, n2 in ls.values() for x in (s, n2)]) if ls else (lambda ev: False)
        same = lambda ev: ev.kind == "edge" and relation(ev, r"\.tx", r"\.tx$") == "Ne"
        # an already seen transaction's leftovers, if the receiver left some, are not a new one
        for some, end in ls.values():
            def differs(ev):
                if ev.kind != "edge": return False
                for op, a, b, truth in cond(ev):
                    if re.search(r"\.tx\b", rset(a) + rset(b)): return (op if truth else NEG[op]) == "Eq"
                return False
            q = g.search(any_of(nx, ok), start=some, block=tx, given=differs)
            c.ob("Y02.read", f, q is None, "a transaction isn't handed on: %s" % fmt_path(q or []), key="each")
            q = g.search(ok, block=end)
            c.ob("Y02.read", f, q is None, "stops before the last one: %s" % fmt_path(q or []), key="all")
        for ev in g.events(tx):
            a = args_of(g, ev)
            c.ob("Y02.read", f, a[0] == rec and re.fullmatch(rows + r"\.tx", a[1]) is not None and re.fullmatch(r"DatomsIterator::(?:DatomsIterator\{at_first: 1, at_last: 0, first: %s, rows: .*\}|new\(%s, .*\))" % (rows, rows), a[2]) is not None, "handed on is %s" % [x[-200:] for x in a], key="args")
        c.done(g)
    for f in having(c, "Y02.read", r"DatomsIterator.* as .*Iterator>::next$"):
        g = c.graph(f, None, small=0, keep=True)
        pk = r"Peekable::peek\(self\.rows\)"
        nt, ft = r"(?:%s|self\.rows\[\])(?:\.0)*\.tx$" % pk, r"^self\.first\.tx$"
        last, first = contradicts(r"^self\.at_last$", "0"), contradicts(r"^self\.at_first$", "0")
        got = answers(g, last, contradicts(r"^self\.at_first$", "1"))
        c.ob("Y02.read", f, got == ["self.first"], "a transaction's first datom is %s" % got, key="first")
        nxt = call("Peekable::next|Iterator::next")
        q = g.search(nxt, given=contradicts(r"^self\.at_first$", "1"))
        c.ob("Y02.read", f, q is None, "the first datom loses the one after it: %s" % fmt_path(q or []), key="first:only")
        differ = lambda ev: ev.kind == "edge" and relation(ev, nt, ft) == "Eq"
        equal = lambda ev: ev.kind == "edge" and relation(ev, nt, ft) == "Ne"
        st = g.events(lambda ev: ev.kind == "edge" and equal(ev))
        q = g.search(nxt, given=any_of(differ, first))
        c.ob("Y02.read", f, bool(st) and q is None, "takes another transaction's datom: %s" % fmt_path(q or []), key="own")
        pks = opt(r"^(?:%s|self\.rows\[\])" % pk, True)
        perr = lambda ev: ev.kind == "edge" and ev.tag is not None and ev.tag[2] in ("Err", "None", "!Ok", "!Some")
        q = g.search(out_(g), given=any_of(equal, first, last, perr), block=nxt)
        c.ob("Y02.read", f, q is None, "a datom of the transaction is left out: %s" % fmt_path(q or []), key="rest")
        got = [x for x in answers(g, equal, first, last, perr)]
        E = r"self\.rows\[\]"
        want = r"TxPart::TxPart\{partitions: Option::None\{\}, e: %s\.e, a: %s\.a, v: %s\.v, tx: %s\.tx, added: %s\.added\}|%s" % ((E,) * 6)
        c.ob("Y02.read", f, bool(got) and all(re.fullmatch(want, x) for x in got), "a datom is handed on as %s" % got, key="datom")
        wl = lambda v: (lambda ev: field_write("DatomsIterator", "at_first")(ev))
        q = g.search(out_(g), block=wl(0), given=any_of(last, contradicts(r"^self\.at_first$", "1")))
        c.ob("Y02.read", f, q is None, "the first datom comes again: %s" % fmt_path(q or []), key="once")
        c.done(g)
    for f in having(c, "Y02.read", r"tx_processor::to_tx_part$"):
        g = c.graph(f, None, small=0, keep=True)
        g.T.opaque = lambda nm: nm.endswith("from_sql_value_pair")
        row = ps(f)[0]
        R = lambda i: r"Row::get\(%s, %d\)" % (row, i)
        got = [x for x in answers(g) if not x.startswith("Result::Err")]
        want = r"TxPart::TxPart\{partitions: Option::None\{\}, e: %s, a: %s, v: [\w:<> ]*from_sql_value_pair\(%s, %s\), tx: %s, added: %s\}" % tuple(R(i) for i in range(6))
        c.ob("Y02.read", f, bool(got) and all(re.fullmatch(want, x) for x in got), "a row is read as %s" % got, key="row")
        c.done(g)
    for f in having(c, "Y02.read", r"<.*LocalTxSet as .*TxReceiver.*>::tx$"):
        g = c.graph(f, None, small=0, keep=True)
        me, tid, ds = ps(f)
        add = lambda ev: ev.kind == "call" and re.search(r"Vec::push$", ev.callee) is not None and args_of(g, ev) == [me + ".txs", "LocalTx::LocalTx{tx: %s, parts: %s}" % (tid, ds)]
        q = g.search(ret_of(g, "Ok"), block=add)
        c.ob("Y02.read", f, bool(g.events(add)) and q is None, "a local transaction isn't kept as it is: %s" % fmt_path(q or []), key="kept")
        c.done(g)

@rule("Y02", "a fresh uuid names nothing else")
def y02_upload(c):
    c.rule("Y02.sent", "a transaction is put only after each of its datoms has been, names them in order and its parent, and becomes the next one's parent")
    for f in having(c, "Y02.sent", r"<.*TxUploader.* as .*TxReceiver.*>::tx$"):
        g = c.graph(f, None, small=40, keep=True)
        g.T.opaque = lambda nm: re.search(r"GlobalTransactionLog::\w+$|allocate_partition_map_for_entids$", nm) is not None
        me, tid, ds = ps(f)
        U = r"v4::new_v4\(\)"
        ok = ret_of(g, "Ok")
        put, putx = call("GlobalTransactionLog::put_chunk"), call("GlobalTransactionLog::put_transaction")
        src = re.escape(ds) + r"\[\]"
        ls = loops(g, src)
        ls = {k: v for k, v in ls.items() if g.search(put, start=v[0], block=v[1]) is not None}
        end = turns(g, ls, put, putx)
        q = g.search(any_of(putx, ok), block=end)
        c.ob("Y02.sent", f, bool(ls) and q is None, "a datom isn't sent before its transaction: %s" % fmt_path(q or []), key="datoms")
        q = g.search(ok, block=putx)
        c.ob("Y02.sent", f, bool(g.events(putx)) and q is None, "a transaction isn't sent: %s" % fmt_path(q or []), key="transaction")
        lists = set()
        for ev in g.events(put):
            a = args_of(g, ev)
            c.ob("Y02.sent", f, a[0] == me + ".remote_client" and re.fullmatch(U, a[1]) is not None and re.fullmatch(src, a[2]) is not None, "sends %s" % a, key="datoms:args")
        pd = r"\{(?=.*%s\.remote_head)(?=.*(?:%s|%s\.rolling_temp_head)).*\}" % (me, U, me)
        for ev in g.events(putx):
            a = args_of(g, ev)
            lists.add(a[3])
            c.ob("Y02.sent", f, a[0] == me + ".remote_client" and re.fullmatch(U, a[1]) is not None, "the transaction is sent as %s" % a[1], key="transaction:id")
            for some, want in ((True, r"%s\.rolling_temp_head|%s" % (me, U)), (False, r"%s\.remote_head" % me)):
                got = args_in(g, putx, 2, opt(r"^(?:%s\.rolling_temp_head|(?:Option::Some\{(?:0: )?)?%s\}?)" % (me, U), some))
                flat = {y for x in got for y in (x[1:-1].split("|") if x.startswith("{") else [x])}
                if g.events(lambda ev: ev.kind == "call" and re.search(r"Option::unwrap_or(_else)?$", ev.callee) is not None and all(re.fullmatch(r"%s\.rolling_temp_head|%s" % (me, U), x) for x in split(args_of(g, ev)[0])) and re.fullmatch(r"%s\.remote_head|.*closure.*" % me, args_of(g, ev)[1]) is not None):
                    flat = {x for x in flat if (x != me + ".remote_head") == some}      # the one, or else the other
                c.ob("Y02.sent", f, bool(flat) and (all(re.fullmatch(want, x) for x in flat) if some else flat == {me + ".remote_head"}), "the parent of %s transaction is %s" % ("a later" if some else "the first", sorted(flat)), key="parent:%s" % some)
        for t in lists:
            adds = lambda ev: ev.kind == "call" and re.search(r"Vec::push$", ev.callee) is not None and args_of(g, ev)[0] == t and re.fullmatch(U, args_of(g, ev)[1]) is not None
            e2 = turns(g, ls, adds, putx)
            q = g.search(putx, block=e2)
            c.ob("Y02.sent", f, re.fullmatch(r"Vec::(new\(\)|with_capacity\(.*\))", t) is not None and q is None, "a datom isn't named by its transaction: %s" % fmt_path(q or []), key="named")
            two = [1 for s, n in ls.values() for ev in g.events(adds) if g.search(adds, start=is_ev(ev), block=any_of(s, n)) is not None]
            c.ob("Y02.sent", f, not two, "a datom is named twice", key="named:once")
        roll = lambda ev: field_write("TxUploader", "rolling_temp_head")(ev) and re.search(U, written(g, ev)) is not None
        q = g.search(ok, start=putx, block=roll)
        c.ob("Y02.sent", f, bool(g.events(roll)) and q is None, "a transaction sent isn't the next one's parent: %s" % fmt_path(q or []), key="roll")
        q = g.search(putx, start=roll)
        c.ob("Y02.sent", f, q is None, "a transaction is its own parent: %s" % fmt_path(q or []), key="roll:after")
        # one id names the transaction everywhere, another each datom
        def made(o, ev): return {t[3] for t in g.T.operand(ev.frame, o) if t[0] == "call" and t[1].endswith("new_v4")}
        txid = set().union(*[made(ev.data["a"][1], ev) for ev in g.events(putx)], set())
        keepid = [ev for ev in g.events(call("HashMap::insert")) if args_of(g, ev)[0] == me + ".tx_temp_uuids"]
        c.ob("Y02.sent", f, bool(keepid) and all(args_of(g, ev)[1] == tid and made(ev.data["a"][2], ev) == txid for ev in keepid) and g.search(ok, block=any_of(*[is_ev(ev) for ev in keepid])) is None if keepid else False, "the id a transaction was sent under isn't remembered", key="remembered")
        rl = set()
        for ev in g.events(field_write("TxUploader", "rolling_temp_head")):
            rl |= {t[3] for x in walk(frozenset(g.T.rvalue(ev.frame, ev.data[1], (), 0))) for t in [x] if t[0] == "call" and t[1].endswith("new_v4")}
        c.ob("Y02.sent", f, rl == txid and len(txid) == 1, "the next parent isn't the transaction sent", key="roll:id")
        did_ = set().union(*[made(ev.data["a"][1], ev) for ev in g.events(put)], set())
        c.ob("Y02.sent", f, len(did_) == 1 and not (did_ & txid), "datoms don't have ids of their own", key="datoms:id")
        parts = lambda ev: field_write("TxPart", "partitions")(ev)
        pw = [written(g, ev) for ev in g.events(parts)]
        q = g.search(any_of(put, putx), block=parts)
        c.ob("Y02.sent", f, bool(pw) and q is None and all(re.search(r"allocate_partition_map_for_entids\(\[?%s\.e\]?, %s\.local_partitions\)" % (src, me), x) for x in pw), "sent without the ids it needs: %s %s" % (pw[:1], fmt_path(q or [])), key="partitions")
        c.done(g)
    for f in having(c, "Y02.sent", r"<.*TxUploader.* as .*TxReceiver.*>::done$"):
        g = c.graph(f, None, small=0, keep=True)
        got = answers(g)
        c.ob("Y02.sent", f, got == ["UploaderReport::UploaderReport{temp_uuids: self.tx_temp_uuids, head: self.rolling_temp_head}"], "reports %s" % got, key="report")
        c.done(g)

@rule("Y02")
def y02_head(c):
    c.rule("Y02.head", "the remote's head moves to the last transaction sent once all are, and only then is what was sent recorded, for every transaction")
    for f in having(c, "Y02.head", r"Syncer::fast_forward_remote$"):
        g = sgraph(c, f)
        g.T.lossy = True
        db, frm, remote, head = ps(f)[:4]
        rep = r"Processor::process\(%s, %s, TxUploader::(?:new\(|TxUploader\{.*)%s, %s, SyncMetadata::get_partitions\(%s, PartitionsTable::Tolstoy\{\}\)\)\)" % (db, frm, remote, head, db)
        pr, sh, sm, sr = call("Processor::process"), call("GlobalTransactionLog::set_head"), call("TxMapper::set_lg_mappings"), call("SyncMetadata::set_remote_head")
        ok = ret_of(g, "Ok")
        q = g.search(ok, block=pr)
        c.ob("Y02.head", f, bool(g.events(pr)) and q is None, "nothing is sent: %s" % fmt_path(q or []), key="sends")
        some = opt("^" + rep + r"\.head", True)
        st = g.events(lambda ev: ev.kind == "edge" and some(ev))
        for nm, op in (("remote", sh), ("mapped", sm), ("known", sr)):
            q = g.search(ok, block=op, given=some)
            c.ob("Y02.head", f, bool(st) and bool(g.events(op)) and q is None, "what was sent isn't recorded (%s): %s" % (nm, fmt_path(q or [])), key=nm)
            q = g.search(op, given=opt("^" + rep + r"\.head", False))
            c.ob("Y02.head", f, q is None, "recorded although nothing was sent (%s): %s" % (nm, fmt_path(q or [])), key=nm + ":only")
            q = g.search(op, block=any_of(sh) if op is not sh else pr)
            c.ob("Y02.head", f, q is None, "recorded before it's done (%s): %s" % (nm, fmt_path(q or [])), key=nm + ":after")
        for op, want in ((sh, [remote, rep + r"\.head"]), (sr, [db, rep + r"\.head"]), (sm, [db, r"\[tuple\{0: (?:\w+::)*iter\(%s\.temp_uuids\)\[\]\.0, 1: (?:\w+::)*iter\(%s\.temp_uuids\)\[\]\.1\}\]" % (rep, rep)])):
            for ev in g.events(op):
                a = args_of(g, ev)
                okk = len(a) == len(want) and all(re.fullmatch(w, x) for w, x in zip(want, a))
                if op is sm and not okk:
                    okk = a[0] == db and filled(g, r"(?:tuple|LocalGlobalTxMapping::LocalGlobalTxMapping)\{\w+: .*temp_uuids.*\[\]\.0, \w+: .*temp_uuids.*\[\]\.1\}", r".*temp_uuids\)?", sm, a[1])
                c.ob("Y02.head", f, okk, "recorded is %s" % [x[-200:] for x in a], key="args:" + ev.callee.split("::")[-1])
        c.done(g)
    for f in having(c, "Y02.head", r"SyncMetadata::set_remote_head_and_map$"):
        g = c.graph(f, None, small=0, keep=True)
        tx, m = ps(f)
        for nm, op, want in (("head", call("set_remote_head"), [[tx, m + ".remote"]]), ("map", call("set_lg_mappings?"), [[tx, m], [tx, "array{0: %s}" % m]])):
            q = g.search(ret_of(g, "Ok"), block=op)
            c.ob("Y02.head", f, bool(g.events(op)) and q is None, "the %s isn't recorded: %s" % (nm, fmt_path(q or [])), key="both:" + nm)
            for ev in g.events(op): c.ob("Y02.head", f, args_of(g, ev) in want, "recorded is %s" % args_of(g, ev), key="both:%s:args" % nm)
        c.done(g)
    # how it's recorded
    WANT = {r"SyncMetadata::set_remote_head$": ("UPDATE", r"UPDATE tolstoy_metadata SET value = \? WHERE key = \?"), r"SyncMetadata::remote_head$": ("SELECT", r"SELECT value FROM tolstoy_metadata WHERE key = \?"),
            r"TxMapper::set_lg_mappings$": ("INSERT", r"INSERT OR REPLACE INTO tolstoy_tu \(tx, uuid\) VALUES \(\?, \?\)"), r"TxMapper::get$": ("SELECT", r"SELECT uuid FROM tolstoy_tu WHERE tx = \?"),
            r"TxMapper::get_tx_for_uuid$": ("SELECT", r"SELECT tx FROM tolstoy_tu WHERE uuid = \?"), r"SyncMetadata::root_and_head_tx$": ("SELECT", r"SELECT (DISTINCT )?tx FROM timelined_transactions WHERE timeline = 0( GROUP BY tx)? ORDER BY tx( ASC)?"),
            r"SyncMetadata::is_tx_empty$": ("SELECT", r"SELECT count\((rowid|\*|e)\) FROM timelined_transactions WHERE (timeline = 0|tx = \?|e (!=|<>) \?)( AND (timeline = 0|tx = \?|e (!=|<>) \?)){2}"),
            r"SyncMetadata::has_entity_assertions_in_tx$": ("SELECT", r"SELECT count\((rowid|\*|e)\) FROM timelined_transactions WHERE (timeline = 0|tx = \?|e = \?)( AND (timeline = 0|tx = \?|e = \?)){2}")}
    for pat, (kind, rx) in WANT.items():
        ss = [s for s in c.sql() if re.search(pat, strip_generics(s.fn.path)) and s.fn.crate == "mentat_tolstoy"]
        nm = re.sub(r"\W", "", pat.split("::")[-1])
        c.floor("Y02.head", "statements of " + nm, len(ss), 1)
        for s in ss:
            c.see(s.fn)
            ts = [re.sub(r"\s+", " ", t).strip() for t in s.texts]
            c.ob("Y02.head", s.fn, len(ts) == 1 and re.fullmatch(rx, ts[0], re.I) is not None, "%s runs %s" % (nm, ts), key="sql:" + nm)
            if s.params is not None and nm not in ("root_and_head_tx",):
                got = rset(s.params)
                p = ps(s.fn)
                U = r"(?:slice::to_vec\()?(?:Uuid::as_bytes\(%s\)|%s)\)?"
                last = p[-1]
                w = {"set_remote_head": lambda: r"array\{0: %s, 1: .*REMOTE_HEAD_KEY\}" % (U % (last, last)), "remote_head": lambda: r"array\{0: .*REMOTE_HEAD_KEY\}",
                     "set_lg_mappings": lambda: r"array\{0: %s\[\]\.local, 1: %s\}" % (last, U % (last + r"\[\]\.remote", "-")),
                     "get": lambda: r"array\{0: %s\}" % last, "get_tx_for_uuid": lambda: r"array\{0: %s\}" % (U % (last, last)), "is_tx_empty": lambda: r"array\{0: %s, 1: %s\}" % (last, last),
                     "has_entity_assertions_in_tx": lambda: r"array\{0: %s, 1: %s\}" % (p[2], p[1])}[nm]()
                if nm == "has_entity_assertions_in_tx" and "e = ? AND" in ts[0]: w = r"array\{0: %s, 1: %s\}" % (p[1], p[2])
                c.ob("Y02.head", s.fn, re.fullmatch(w, got) is not None, "%s is given %s" % (nm, got[:200]), key="bound:" + nm)
    for f in having(c, "Y02.head", r"SyncMetadata::set_remote_head$"):
        g = c.graph(f, None, small=0, keep=True)
        upd = contradicts(r"^Connection::execute\(.*\)$", 0)
        q = g.search(ret_of(g, "Ok"), given=upd)
        c.ob("Y02.head", f, bool(g.events(lambda ev: ev.kind == "edge" and upd(ev))) and q is None, "a head that wasn't stored counts as recorded: %s" % fmt_path(q or []), key="stored")
        c.done(g)
    for f in having(c, "Y02.head", r"TxMapper::set_lg_mappings$"):
        g = c.graph(f, None, small=0, keep=True)
        ex = lambda ev: ev.kind == "call" and re.search(r"Statement::(execute|insert)$", ev.callee) is not None
        ok = ret_of(g, "Ok")
        ls = loops(g, re.escape(ps(f)[1]) + r"\[\]")
        q = g.search(ok, block=turns(g, ls, ex, ok))
        c.ob("Y02.head", f, bool(ls) and q is None, "a transaction's id isn't recorded: %s" % fmt_path(q or []), key="each")
        c.done(g)
    for nm, v, want in (("is_tx_empty", 0, "1"), ("is_tx_empty", 1, "0"), ("has_entity_assertions_in_tx", 0, "0"), ("has_entity_assertions_in_tx", 1, "1")):
        for f in having(c, "Y02.head", r"SyncMetadata::%s$" % nm):
            g = c.graph(f, None, small=0, keep=True)
            got = [x for x in answers(g) if not x.startswith("Result::Err")]
            m = re.fullmatch(r"\((?:Connection::query_row\(.*\)|Row::get\(.*\)) (\w+) (\d+)\)", got[0]) if len(got) == 1 else None
            val = None if m is None else {"Eq": v == int(m.group(2)), "Ne": v != int(m.group(2)), "Gt": v > int(m.group(2)), "Ge": v >= int(m.group(2)), "Lt": v < int(m.group(2)), "Le": v <= int(m.group(2))}.get(m.group(1))
            c.ob("Y02.head", f, val is (want == "1"), "with %d, %s is %s" % (v, nm, [x[:100] for x in got]), key="%s:%d" % (nm, v))
            c.done(g)

@rule("Y02", "a status is compared by its code")
def y02_refused(c):
    c.rule("Y02.refused", "a request the remote doesn't answer as expected is an error")
    c.rule("Y02.remote", "each thing is sent to, and asked from, where it belongs; every transaction asked for comes with every datom it names, in order")
    n = 0
    for f in c.P.fns:
        if f.crate != "mentat_tolstoy" or f.body is None or not re.search(r"RemoteClient::put(::\{closure#\d+\})?$", strip_generics(f.path)): continue
        g = c.graph(f, None, small=0, keep=True)
        g.T.opaque = lambda nm: False
        st = lambda ev: ev.kind == "call" and re.search(r"Client::request$", ev.callee) is not None
        if not g.events(st): c.done(g); continue
        n += 1
        c.see(f)
        # the value made when the request is done
        code = r"Response::status\(.*\)"
        bad = eqn("^" + code + "$", r".", False)
        e = g.events(lambda ev: ev.kind == "edge" and bad(ev))
        good = lambda ev: ev.kind == "stmt" and isinstance(ev.data[1], dict) and ev.data[1].get("r") == "agg" and ev.data[1].get("v") == "Ok"
        okv = [ev for ev in g.events(lambda ev: ev.kind == "stmt" and isinstance(ev.data[1], dict) and ev.data[1].get("r") == "agg") if re.match(r"(Result::Ok\{|tuple\{\}$)", written(g, ev))]
        q = g.search(any_of(*[is_ev(x) for x in okv]) if okv else (lambda ev: False), start=st, given=bad)
        got = [x for x in answers(g, bad) if "Ready" in x]
        c.ob("Y02.refused", f, bool(e) and bool(got) and all("Err" in x and "tuple{}" not in x and "Ok" not in x for x in got), "a refusal is taken for %s" % [x[:200] for x in got], key="put")
        got = [x for x in answers(g, eqn("^" + code + "$", r".", True)) if "Ready" in x]
        c.ob("Y02.refused", f, bool(got) and all("BadRemoteResponse" not in x for x in got), "what was accepted is taken for %s" % [x[:200] for x in got], key="accepted")
        c.done(g)
    c.floor("Y02.refused", "requests that change the remote", n, 1)
    CODES = {"set_head": ("NO_CONTENT", r"/head$", 1), "put_transaction": ("CREATED", r"/transactions/⟦[^⟧]*⟧$", 1), "put_chunk": ("CREATED", r"/chunks/⟦[^⟧]*⟧$", 1)}
    for nm, (code, path, i) in CODES.items():
        for f in having(c, "Y02.remote", r"<.*RemoteClient as .*GlobalTransactionLog>::%s$" % nm):
            g = c.graph(f, None, small=0, keep=True)
            pt = call("RemoteClient::put")
            q = g.search(ret_of(g, "Ok"), block=pt)
            c.ob("Y02.remote", f, bool(g.events(pt)) and q is None, "%s sends nothing: %s" % (nm, fmt_path(q or [])), key=nm + ":sends")
            for ev in g.events(pt):
                kk = str(ev.data["a"][3])
                want = consts(c, g, ev, 3)
                c.ob("Y02.remote", f, want == {code}, "%s expects %s" % (nm, sorted(want)), key=nm + ":code")
                pay = args_of(g, ev)[2]
                p = ps(f)
                w = {"set_head": r".*SerializedHead\{head: %s\}.*" % p[1], "put_transaction": r".*SerializedTransaction\{parent: %s, chunks: %s\}.*" % (p[2], p[3]) if nm == "put_transaction" else "", "put_chunk": r".*to_string\(%s\).*" % (p[2] if nm == "put_chunk" else "")}[nm]
                c.ob("Y02.remote", f, re.fullmatch(w, pay) is not None, "%s sends %s" % (nm, pay[:200]), key=nm + ":payload")
            c.done(g)
    for f in having(c, "Y02.remote", r"<.*RemoteClient as .*GlobalTransactionLog>::transactions_after$"):
        g = c.graph(f, None, small=0, keep=True)
        g.T.opaque = lambda nm: re.search(r"RemoteClient::get_\w+$", nm) is not None
        me, tx = ps(f)
        ok = ret_of(g, "Ok")
        T = r"RemoteClient::get_transactions\(%s, %s\)" % (me, tx)
        C_ = r"RemoteClient::get_chunks\(%s, %s\[\]\)" % (me, T)
        P_ = r"RemoteClient::get_chunk\(%s, %s\[\]\)" % (me, C_)
        got = [x for x in answers(g) if not x.startswith("Result::Err")]
        item = r"Tx::Tx\{tx: %s\[\], parts: (Vec::(?:new\(\)|with_capacity\(.*\)))\}" % T
        kept = lambda ev, o: {(t[3] if len(t) > 3 else t) for t in g.T.operand(ev.frame, o) if t[0] == "call"}
        back = {(t[3] if len(t) > 3 else t) for ev in g.events(lambda ev: ev.kind == "stmt" and isinstance(ev.data[1], dict) and ev.data[1].get("r") == "agg" and ev.data[1].get("var") == "Ok" and ev.data[1]["a"])
                for t in g.T.operand(ev.frame, ev.data[1]["a"][0]) if t[0] == "call" and re.search(r"Vec::(new|with_capacity)$", t[1])}
        tl, cl = loops(g, T + r"\[\]"), loops(g, C_ + r"\[\]")
        add = lambda ev: ev.kind == "call" and re.search(r"Vec::push$", ev.callee) is not None and re.fullmatch(P_, args_of(g, ev)[1]) is not None
        mk = lambda ev: ev.kind == "call" and re.search(r"Vec::push$", ev.callee) is not None and re.fullmatch(item, args_of(g, ev)[1]) is not None
        c.ob("Y02.remote", f, len(back) == 1 and bool(g.events(mk)) and all(kept(ev, ev.data["a"][0]) == back for ev in g.events(mk)) and g.search(ok, start=any_of(*[s for s, n2 in tl.values()]) if tl else None, block=turns(g, tl, mk, ok)) is None, "a transaction asked for isn't handed on", key="after:transactions")
        q = g.search(mk, start=any_of(*[s for s, n2 in tl.values()]) if tl else None, block=turns(g, cl, add, mk))
        c.ob("Y02.remote", f, bool(tl) and bool(cl) and q is None, "a transaction asked for lacks a datom: %s" % fmt_path(q or []), key="after:datoms")
        fresh = lambda ev: ev.kind == "call" and re.search(r"Vec::(new|with_capacity)$", ev.callee) is not None
        q = g.search(any_of(*[s for s, n2 in cl.values()]) if cl else (lambda ev: False), start=any_of(*[s for s, n2 in tl.values()]) if tl else None, block=fresh)
        c.ob("Y02.remote", f, q is None, "transactions share their datoms: %s" % fmt_path(q or []), key="after:own")
        c.done(g)

def consts(c, g, ev, i):
    """Names of the constants an argument can be."""
    out, seen, todo, body = set(), set(), [ev.data["a"][i]], ev.frame.fn.body
    while todo:
        o = todo.pop()
        if "k" in o:
            out.add(str(o["k"].get("u", "?")).split("::")[-1])
            continue
        p = op_place(o)
        if p.local in seen: continue
        seen.add(p.local)
        ds = body.defs().get(p.local, [])
        if not ds or p.proj: out.add("?")
        for bi, si, st in ds:
            if si >= 0 and not st[0][1] and st[1]["r"] == "use": todo.append(st[1]["o"])
            else: out.add("?")
    return out

@rule("Y01")
def y01_failed(c):
    c.rule("Y01.failed", "a step of a sync that fails fails the sync")
    failing(c, "Y01.failed", r"Syncer::(sync|first_sync_against_non_empty|fast_forward_local|merge|remote_parts_to_builder)$|set_remote_head_and_map$", 14)

@rule("Y02")
def y02_failed(c):
    c.rule("Y02.failed", "a request or a step of an upload that fails fails the upload")
    failing(c, "Y02.failed", r"Syncer::fast_forward_remote$|Processor::process$|<.*TxUploader.* as .*TxReceiver.*>::tx$|RemoteClient as .*GlobalTransactionLog>::(set_head|put_transaction|put_chunk|transactions_after|head)$|SyncMetadata::set_remote_head$|TxMapper::set_lg_mappings$", 14)

STEPS = re.compile(OPS + r"|(Connection::(execute|prepare)|Statement::(execute|insert|query_and_then)|RemoteClient::(put|get_\w+)|savepoint|transact_builder|BuildTerms::(add|retract)|q_once|TxReceiver::tx|remote_parts_to_builder)$")

def failing(c, rl, pat, least):
    n = 0
    for f in having(c, rl, pat):
        if "Result<" not in f.body.ty(0): continue
        g = c.graph(f, None, small=0, keep=True)
        g.T.opaque = lambda nm: STEPS.search(nm) is not None
        ok = ret_of(g, "Ok")
        names = {}
        for ev in g.events(lambda ev: ev.kind == "call" and ev.frame is g.rootf):
            d = ev.data["d"]
            ty = ev.frame.fn.body.ty(d[0]) if not d[1:] or not d[1] else ""
            if re.match(r"(core::|std::)?result::Result<", ty) and STEPS.search(ev.callee):
                names.setdefault(ev.callee, []).append(ev)
        for nm, evs in sorted(names.items()):
            n += 1
            short = nm.split("::")[-1]
            good = succeeded(r".*::%s" % short)
            evs = [ev for ev in evs if ev.data["d"][0] != 0]                    # its own result is the answer
            q = g.search(ok, start=any_of(*[is_ev(ev) for ev in evs]), block=any_of(good, call(re.escape(short)))) if evs else None
            c.ob(rl, f, q is None, "goes on as if %s had worked: %s" % (short, fmt_path(q or [])), key="%s:%s" % (f.name, short))
        c.done(g)
    c.floor(rl, "steps that can fail", n, least)
