"""C02 every sample is tokenised and counted exactly once"""
from ctx import *

RULE = ("exactly-once dataflow in the batch entry point: one pass over the data source with one tokeniser call (or one "
        "send to the workers) per sample on every path; each worker tokenises every job it receives once and hands over its "
        "accumulated statistics; as many results are received as workers are spawned and each is merged once; "
        "the value returned is that accumulation, started from zero counters")

ENTRY = "tokenize_file"
SLICE = "FragmentTokenizer::process_slice"
NEW = "FragmentTokenizer::new"
MERGE = "TokenStats::merge"
OPQ = (SLICE, NEW, MERGE)


def sample_bytes(t, src):
    """is t the bytes of sample `src`"""
    while t.op == "payload" and t.a[0] is not src and t.a[0].op == "payload":
        t = t.a[0]
    return t is src or (t.op == "payload" and t.a[0] is src)


def zero_stats(v):
    """are all counters of a freshly built statistics value zero"""
    if v.op != "agg" or not v.a[0].endswith("TokenStats"):
        return False
    for f in v.a[2]:
        x = field(v, f)
        if f in ("token_set", "initial_size"):
            continue
        if x is ZERO:
            continue
        if x.op == "rep" and x.a[0] is ZERO:
            continue
        return False
    return True


def named(events, name):
    return [(e, ls) for e, ls in flat_events(events) if e.name == name]


def conts(L):
    return [p for p in L.paths if p.kind == "cont"]


def one_per_iteration(L, name):
    """every iteration of L has exactly one event `name`, directly in the iteration"""
    for p in L.paths:
        n = [e for e in p.events if not isinstance(e, tuple) and e.name == name]
        deep = [e for e, ls in flat_events(p.events) if e.name == name]
        if len(deep) != len(n):
            return None
        if p.kind == "cont" and len(n) != 1:
            return None
        if p.kind == "done" and n:
            return None
    return [(p, [e for e in p.events if not isinstance(e, tuple) and e.name == name]) for p in L.paths if p.kind != "done"]


def top_loops(events, name):
    """loops directly on the path that contain the event"""
    out = []
    for e in events:
        if isinstance(e, tuple) and any(x.name == name for p in e[1].paths for x, _ in flat_events(p.events)):
            out.append(e[1])
    return out


def accumulates(ctx, L, rule, fn, evs, name, pos_arg, src_of):
    """one leaf of L is the accumulated statistics: upd = mutout(name, pos_arg, args of the event) on every iteration;
    -> the leaf key or None"""
    keys = None
    for p, es in evs:
        if p.kind != "cont":
            continue
        e = es[0]
        mo = raw("mutout", name, pos_arg, *e.args)
        ks = {k for k, v in p.upd.items() if v is mo and e.args[pos_arg] is L.leaves[k]["phi"]}
        keys = ks if keys is None else keys & ks
    return sorted(keys, key=str)[0] if keys else None


def tokenizing_loop(ctx, fn, L, is_src, tok_ok):
    """check a loop that tokenises one source element per iteration; -> key of the statistics leaf"""
    w = L.span
    evs = one_per_iteration(L, SLICE)
    if not ctx.ob("once", "tokenise per element", evs is not None, w,
                  "an iteration tokenises its sample not exactly once", fn):
        return None
    good = True
    for p, es in evs:
        if p.kind == "exit":
            good &= ctx.ob("once", "exit", not es, w, "the loop is left after tokenising a sample, without looking at the rest", fn)
            continue
        e = es[0]
        good &= ctx.ob("once", "which bytes", is_src(e.args[1]), e.span,
                       "the tokeniser gets %s instead of the bytes of the current sample" % show(e.args[1]), fn)
        good &= ctx.ob("once", "tokeniser", tok_ok(e.args[0]), e.span,
                       "the tokeniser used is %s, not the one built for the token set" % show(e.args[0]), fn)
    k = accumulates(ctx, L, "once", fn, evs, SLICE, 2, None)
    ctx.ob("once", "accumulate", k is not None, w, "the statistics of a sample are not accumulated into the running statistics", fn)
    return k


def initial(ctx, fn, L, k, ts_ok, size_ok):
    v = L.leaves[k]["init"]
    ctx.ob("zero", "start", zero_stats(v), L.span, "accumulation starts from %s, not from zero counters" % show(v), fn)
    if v.op == "agg":
        ctx.ob("zero", "token set", ts_ok(field(v, "token_set")), L.span,
               "the statistics are for %s instead of the given token set" % show(field(v, "token_set")), fn)
        if size_ok:
            ctx.ob("zero", "initial size", size_ok(field(v, "initial_size")), L.span,
                   "the initial size recorded is %s" % show(field(v, "initial_size")), fn)


def worker_check(ctx, e, clos, by_value=False):
    """the body of a spawned worker -> ("send", result channel, job channel) or ("ret", None, jobs) or None"""
    fn = clos.a[0]
    try:
        ps = ctx.engine(OPQ).run(None, [clos], key=fn)
    except Exception as x:
        ctx.ob("analysis", "worker", False, None, "no summary of the worker: %s" % x, ENTRY)
        return None
    ctx.paths += len(ps)
    res = set()
    ctx.ob("worker", "normal end", len(ps) > 0, None, "the worker has no normal end", ENTRY)
    for p in ps:
        ls = top_loops(p.events, SLICE)
        if not ctx.ob("worker", "one job loop", len(ls) == 1 and len(named(p.events, SLICE)) ==
                      len([1 for q in ls[0].paths for x, _ in flat_events(q.events) if x.name == SLICE]),
                      e.span, "a worker path has %d loops that tokenise jobs, expected one" % len(ls), ENTRY):
            continue
        L = ls[0]
        chans = set()
        rec = one_per_iteration(L, "mpsc::recv")
        if rec is not None and not L.trips:
            ok = True
            for q, es in rec:
                x = es[0] if es else None
                if x is None or x.args[0].op != "rx":
                    ok = False
                    break
                chans.add(x.args[0])
                got = lit(is_variant(x.res, "Ok"))
                has = got in q.conds or got in q.asserts
                if q.kind == "exit":
                    ok &= ctx.ob("worker", "leaves only when no job is left", (got[0], not got[1]) in q.conds, x.span,
                                 "the worker stops although it received a job or the channel may not be closed: %s" % showlits(q.conds), ENTRY)
            ctx.ob("worker", "receives", ok, L.span, "the worker does not take one job per iteration from the job channel", ENTRY)
            if not ok:
                continue

            def is_src(t, rec=rec):
                return any(sample_bytes(t, payload(es[0].res, "Ok")) for q, es in rec if es)
        else:
            seqs = {t.a[0] for t in L.trips if t.op == "len" and t.a[0].op == "app" and t.a[0].a[0] == "recvs"}
            if not ctx.ob("worker", "receives", len(seqs) == 1 and list(seqs)[0].a[2] is S("iter") or
                          len(seqs) == 1 and list(seqs)[0].a[2] is S("into_iter"), L.span,
                          "the worker does not take its jobs, one per iteration, by blocking receives", ENTRY):
                continue
            sq = list(seqs)[0]
            chans.add(sq.a[1])

            def is_src(t, sq=sq, L=L):
                return sample_bytes(t, idx(sq, L.iota))
        tok = raw("call", NEW, sym("arg", 0))
        k = tokenizing_loop(ctx, ENTRY + " worker", L, is_src, lambda t: t is tok)
        if k is None:
            continue
        initial(ctx, ENTRY + " worker", L, k, lambda t: t in (sym("arg", 0), field(tok, "token_set")), None)
        # the value handed over
        ph = L.leaves[k]["phi"]
        finals = set()
        if L.trips and ph in L.final:
            finals.add(L.final[ph])
        for q in L.paths:
            if q.kind == "exit":
                finals.add(L.brk(q)[ph])
        sends = [x for x in p.events if not isinstance(x, tuple) and x.name == "mpsc::send"]
        if sends:
            ctx.ob("worker", "hands over once", len(sends) == 1 and sends[0].args[1] in finals, sends[0].span,
                   "the worker does not send its accumulated statistics exactly once", ENTRY)
            res.add(("send", sends[0].args[0], frozenset(chans)))
        else:
            v = p.val
            ctx.ob("worker", "hands over once", v in finals, e.span,
                   "the worker ends without handing over its accumulated statistics", ENTRY)
            res.add(("ret", None, frozenset(chans)))
    return list(res)[0] if len(res) == 1 else None


def same_chan(tx, rx):
    return tx.op == "tx" and rx.op == "rx" and tx.a[0] is rx.a[0]


def check(ctx):
    fn = ENTRY
    ps, eng = ctx.run(ENTRY, OPQ)
    w = ctx.where_fn(ENTRY)
    src = raw("call", "Sampler::iter", sym("arg", 1))
    tok = raw("call", NEW, sym("arg", 0))
    nsync = npar = 0
    # the tokeniser keeps the token set it is built for
    qs, _ = ctx.run(NEW, ("FragmentTokenizer::create_spans", "FragmentTokenizer::create_suffix_states"))
    for q in qs:
        ctx.ob("tokeniser", "token set", field(q.val, "token_set") is sym("arg", 0), ctx.where_fn(NEW),
               "the tokeniser holds another token set than it was built for", NEW)
    for p in ps:
        spawns = named(p.events, "thread::spawn")
        if not spawns:
            nsync += 1
            ls = top_loops(p.events, SLICE)
            if not ctx.ob("sync", "one pass", len(ls) == 1 and len(named(p.events, SLICE)) ==
                          sum(1 for q in ls[0].paths for x, _ in flat_events(q.events) if x.name == SLICE), w,
                          "on the path %s there are %d loops over the samples, expected one" % (showlits(p.conds), len(ls)), fn):
                continue
            L = ls[0]
            ctx.ob("sync", "every sample", L.trips == [length(src)], L.span,
                   "the loop takes %s iterations instead of one per sample" % [show(t) for t in L.trips], fn)
            k = tokenizing_loop(ctx, fn, L, lambda t: sample_bytes(t, idx(src, L.iota)), lambda t: t is tok)
            if k is None:
                continue
            initial(ctx, fn, L, k, lambda t: t in (sym("arg", 0), field(tok, "token_set")), lambda t: t is sym("arg", 2))
            ctx.ob("sync", "returns", p.val is L.final.get(L.leaves[k]["phi"]), w,
                   "the value returned is not the accumulated statistics", fn)
            continue
        npar += 1
        # spawning
        spl = top_loops(p.events, "thread::spawn")
        if not ctx.ob("parallel", "spawn loop", len(spl) == 1 and len(spl[0].trips) == 1, w,
                      "workers are not spawned in one counted loop", fn):
            continue
        SL = spl[0]
        sp = one_per_iteration(SL, "thread::spawn")
        if not ctx.ob("parallel", "one worker per iteration", sp is not None and all(q.kind == "cont" for q, _ in sp), SL.span,
                      "an iteration of the spawn loop does not start exactly one worker", fn):
            continue
        nworkers = SL.trips[0]
        wk = set()
        for q, es in sp:
            clos = es[0].args[0]
            if ctx.ob("parallel", "worker body", clos.op == "clos", es[0].span, "worker body is not known", fn):
                wk.add(worker_check(ctx, es[0], clos))
        if len(wk) != 1 or None in wk:
            ctx.ob("parallel", "worker protocol", False, SL.span, "the protocol of the worker is not established", fn)
            continue
        kind, rtx, jrx = list(wk)[0]
        ctx.ob("parallel", "one job channel", len(jrx) == 1, SL.span, "workers take jobs from %d channels" % len(jrx), fn)
        jrx = list(jrx)[0]
        # sending every sample
        sl = top_loops(p.events, "mpsc::send")
        if ctx.ob("parallel", "one pass", len(sl) == 1 and len(named(p.events, "mpsc::send")) ==
                  sum(1 for q in sl[0].paths for x, _ in flat_events(q.events) if x.name == "mpsc::send"), w,
                  "samples are sent in %d loops, expected one" % len(sl), fn):
            L = sl[0]
            ctx.ob("parallel", "every sample", L.trips == [length(src)], L.span,
                   "the sending loop takes %s iterations instead of one per sample" % [show(t) for t in L.trips], fn)
            sv = one_per_iteration(L, "mpsc::send")
            if ctx.ob("parallel", "sent once", sv is not None and all(q.kind == "cont" for q, _ in sv), L.span,
                      "an iteration does not send its sample exactly once", fn):
                for q, es in sv:
                    x = es[0]
                    ctx.ob("parallel", "sent to the workers", same_chan(x.args[0], jrx) and x.args[1] is idx(src, L.iota), x.span,
                           "what is sent is %s on %s, not the current sample to the workers" % (show(x.args[1]), show(x.args[0])), fn)
        # collecting
        ml = top_loops(p.events, MERGE)
        if not ctx.ob("parallel", "collect loop", len(ml) == 1 and len(named(p.events, MERGE)) ==
                      sum(1 for q in ml[0].paths for x, _ in flat_events(q.events) if x.name == MERGE), w,
                      "results are merged in %d loops, expected one" % len(ml), fn):
            continue
        L = ml[0]
        mv = one_per_iteration(L, MERGE)
        if not ctx.ob("parallel", "merged once", mv is not None and all(q.kind == "cont" for q, _ in mv), L.span,
                      "an iteration does not merge exactly one result", fn):
            continue
        for q, es in mv:
            x = es[0].args[1]
            ok = False
            if kind == "send":
                rc = [y for y in q.events if not isinstance(y, tuple) and y.name == "mpsc::recv"]
                if len(rc) == 1 and same_chan(rtx, rc[0].args[0]) and x is payload(rc[0].res, "Ok"):
                    ok = L.trips == [nworkers]
                elif not rc and x.op == "idx" and x.a[0].op == "app" and x.a[0].a[0] == "recvs" and same_chan(rtx, x.a[0].a[1]):
                    ok = (L.trips == [length(x.a[0])] or L.trips == [nworkers]) and x.a[0].a[2] is not S("try_iter")
            else:
                jn = [y for y in q.events if not isinstance(y, tuple) and y.name == "thread::join"]
                ok = len(jn) == 1 and x is payload(jn[0].res, "Ok") and L.trips == [nworkers]
            ctx.ob("parallel", "every worker's result", ok, es[0].span,
                   "the results merged (%s iterations of %s) are not exactly one per worker" % ([show(t) for t in L.trips], show(x)), fn)
        k = accumulates(ctx, L, "parallel", fn, mv, MERGE, 0, None)
        if ctx.ob("parallel", "accumulate", k is not None, L.span, "worker results are not accumulated", fn):
            initial(ctx, fn, L, k, lambda t: t in (sym("arg", 0), field(tok, "token_set")), lambda t: t is sym("arg", 2))
            ctx.ob("parallel", "returns", p.val is L.final.get(L.leaves[k]["phi"]), w,
                   "the value returned is not the accumulated statistics of the workers", fn)
    ctx.floor("paths that tokenise sequentially", nsync, 1)
    ctx.floor("paths that tokenise in parallel", npar, 1)
