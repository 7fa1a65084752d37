"""Acknowledgements.  The Avro handler is followed from one payload to the next, the bag by
its entries, the Kafka sink by what becomes of each message in flight: acked, tried again
or (never) neither."""
from rules import *


def last(c):
    return (c if isinstance(c, str) else c.path).rsplit("::", 1)[-1]


def call(t, *names):
    return isinstance(t, tuple) and len(t) > 2 and t[0] == "call" and last(t[1]) in names


def inside(t, v):
    return ("fld", ("var", t, v), "0")


def has(t, x):
    return t == x or isinstance(t, tuple) and any(has(y, x) for y in t if isinstance(y, tuple))


BAG = r"SyncAckBag::"
RETRIED = {"InvalidMessage", "UnknownTopicOrPartition", "LeaderNotAvailable", "NotLeaderForPartition", "RequestTimedOut", "NetworkException", "GroupLoadInProgress", "GroupCoordinatorNotAvailable", "MessageTimedOut", "NotCoordinatorForGroup", "NotEnoughReplicas", "NotEnoughReplicasAfterAppend", "NotController"}


def run(cx):
    client(cx)
    write(cx)
    bag(cx)
    sent(cx)
    settled(cx)
    retried(cx)


# ---------------------------------------------------------------- the client's side
def client(cx):
    parse = r"source::avro::Payload as .*From<.*>>::from$|source::avro::Payload::from$"
    p = cx.method("source::tcp::TCPStreamHandler", "AvroStreamHandler", "handle_stream")
    fl = cx.flow(p, opaque=(r"BufferedPayload::(read|new)$", r"^util::send$", r"source::nonblocking::write_all$", parse, BAG), key="c07")
    rd = [c for c in fl.calls if c.path.endswith("BufferedPayload::read")]
    polls = [c.blk for c in fl.calls if last(c) == "poll" and "Poll" in c.path]
    if not cx.ob("client", "reads", len(rd) == 1, "packets are not read in one place"):
        return
    rd = rd[0]
    n = 0
    for i, q in enumerate(trace(fl, [(rd.blk, s) for s in succs(fl, [rd.blk])], [rd.blk] + polls, cycles=1)):
        inst = "#%d" % i
        out = [c for c in q.calls if last(c) == "send" and "util" in c.path]
        bagged = [c for c in q.calls if re.search(BAG, c.path)]
        acks = [c for c in q.calls if last(c) in ("write_all", "write", "write_vectored") and not re.search("Cursor|WriteBytesExt", c.path)]
        # the parsed packet: what is matched Valid
        pk = [t for t, v in q.facts.items() if t[0] != "not" and v == ("v", "Valid") and has(t, rd.dest)]
        if q.facts.get(rd.dest) != ("v", "Ok") or not pk:
            cx.ob("client", inst + " nothing", not out and not bagged and not acks, "something is sent or acked for no packet")
            continue
        n += 1
        V = ("var", pk[0], "Valid")
        head = ("fld", V, "header")
        ctl, pid = ("fld", head, "control"), ("fld", head, "id")
        may = {k: could(q, lambda t: k if t == ctl else None, "u32") for k in (0, 1, 2, 3, 5, 0x80000000, 0x80000001)}
        sync = may[1]
        if not cx.ob("client", inst + " asked", all(may[k] == (sync if k & 1 else not sync) for k in may), "whether an ack is asked for is not what the packet's control bit says"):
            continue
        ok = len(out) == 1 and out[0].args[1][0] == "agg" and out[0].args[1][1] == "Raw"
        if not cx.ob("client", inst + " sent", ok, "a packet is not sent on once"):
            continue
        d = dict(out[0].args[1][2])
        cx.ob("client", inst + " bytes", d.get("bytes") == ("fld", V, "avro_blob"), "what is sent on is not the packet's content")
        cx.ob("client", inst + " metadata", d.get("metadata") == ("fld", V, "metadata"), "what is sent on has not the packet's metadata")
        cx.ob("client", inst + " order", d.get("order_by") == ("fld", head, "order_by"), "what is sent on has not the packet's order")
        cx.ob("client", inst + " encoding", d.get("encoding", ("",))[:2] == ("agg", "Avro"), "what is sent on is not told to be Avro")
        if not sync:
            cx.ob("client", inst + " unasked", not acks and not [c for c in bagged if last(c) != "remove"], "a packet is acked, or waited for, that did not ask for it")
            continue
        ident = d.get("connection_id")
        key = ident[2][0][1] if ident and ident[0] == "agg" and ident[1] == "Some" else None
        fresh = key is not None and call(key, "new_v4") and key[3] in q.blocks
        cx.ob("client", inst + " own", fresh, "packets of a connection share what their acks are told apart by")
        order = [(last(c), c) for c in q.calls if c in bagged or c in out or c in acks]
        names = [a for a, _ in order if a != "props_for"]
        want = ["prepare_wait", "send", "wait_for"]
        core = [a for a in names if a != "remove"]
        cx.ob("client", inst + " turn", core[:3] == want and len(core) == 4 and core[3] == "write_all", "a packet is not sent, waited for and acked in turn: %s" % names)
        cx.ob("client", inst + " key", all(c.args[1] == key for c in bagged), "what is waited for is not the packet sent")
        cx.ob("client", inst + " forgotten", names.count("remove") == 1 and names.index("remove") > names.index("wait_for") if "wait_for" in names and "remove" in names else False, "a packet that was acked is not forgotten, or before it was acked")
        if acks:
            w = [c for c in q.calls if last(c) in ("write_u64", "write_u32", "extend_from_slice", "push", "write_i64", "write_u8", "write_u16") and (has(acks[0].args[1], c.args[0]))]
            be = len(w) == 1 and last(w[0]) == "write_u64" and w[0].args[1] == pid and q.calls.index(w[0]) < q.calls.index(acks[0])
            endian = be and "BigEndian" in str(w[0].info.get("targs", "")) + w[0].fn + w[0].path
            direct = has_ack(acks[0].args[1], pid)
            cx.ob("client", inst + " reply", (endian and not direct) or (direct and not w), "what a client is answered is not its packet's id, big end first")
            cx.ob("client", inst + " to whom", strip(acks[0].args[0]) == ("arg", 4) or acks[0].args[0] == ("arg", 4), "the answer goes to another")
        gone = acks and any(q.facts.get(a.dest) == ("v", "Err") for a in acks)
        cx.ob("client", inst + " next", q.end in fl.ret_blocks if gone else q.end == rd.blk, "after an ack the next packet is not read, or one is although the client is gone")
    cx.floor("ways a packet is taken", n, 2)


def has_ack(t, pid):
    return call(t, "to_be_bytes") and "u64" in t[1] and t[2] == (pid,) or isinstance(t, tuple) and any(has_ack(x, pid) for x in t if isinstance(x, tuple))


def write(cx):
    fl = cx.flow("source::nonblocking::write_all")
    ws = [c for c in fl.calls if last(c) == "write"]
    if not cx.ob("answer", "site", len(ws) == 1 and call(ws[0].args[1], "index") and ws[0].args[1][2][0] == ("arg", 2), "an answer is not written from where it got to"):
        return
    w = ws[0]
    r = w.args[1][2][1]
    start = dict(r[2]).get("start") if r[0] == "agg" else None
    ok = start is not None and set(dict(r[2])) == {"start"}
    cx.ob("answer", "rest", ok, "an answer is not written from where it got to")
    LEN, n = ("call", "len"), inside(w.dest, "Ok")

    def env_for(at, k):
        def env(t):
            if t == start:
                return at
            if t == n:
                return k
            if call(t, "len") and t[2][0] == ("arg", 2):
                return 8
            return None
        return env

    def nxt(q):
        ix = [c for c in q.calls if last(c) == "index" and c.args[0] == ("arg", 2)]
        return dict(ix[-1].args[1][2])["start"] if ix and ix[-1].args[1][0] == "agg" else None
    for i, q in enumerate(trace(fl, stops=[w.blk])):
        if q.end == w.blk:
            cx.ob("answer", "begin #%d" % i, is_const(nxt(q) or ("",), 0), "an answer is not written from its beginning")
        else:
            cx.ob("answer", "begin #%d" % i, not could(q, env_for(0, 1), "u64"), "an answer is not written at all")
    for i, q in enumerate(trace(fl, [(w.blk, s) for s in succs(fl, [w.blk])], [w.blk])):
        v = q.facts.get(w.dest)
        if v == ("v", "Err"):
            e = inside(w.dest, "Err")
            back = errkind(q, e, "WouldBlock") is True or errkind(q, e, "Interrupted") is True
            if q.end == w.blk:
                cx.ob("answer", "again #%d" % i, back and nxt(q) == start, "an answer is written again after it failed, or not from where it got to")
            else:
                cx.ob("answer", "failed #%d" % i, not back and q.ret[0] == "agg" and q.ret[1] == "Err", "an answer is given up while it may be written later, or said to be written")
            continue
        for at_ in (0, 3, 7):
            for k in range(0, 8 - at_ + 1):
                if not could(q, env_for(at_, k), "u64"):
                    continue
                inst = "#%d %d+%d" % (i, at_, k)
                if at_ + k < 8:
                    try:
                        to = evalt(nxt(q), env_for(at_, k), "u64") if q.end == w.blk and nxt(q) else None
                    except Unknown:
                        to = None
                    cx.ob("answer", inst, to == at_ + k, "an answer is not written on from where it got to")
                else:
                    cx.ob("answer", inst, q.end != w.blk and q.ret[0] == "agg" and q.ret[1] == "Ok", "an answer that is written whole is not")


# ---------------------------------------------------------------- the bag
def bag(cx):
    B = "metric::ackbag::SyncAckBag::"
    df = cx.method("std::default::Default", r"SyncAckProps$", "default")
    fl = cx.flow(df)
    cx.ob("bag", "none yet", all(t[0] == "agg" and all(is_const(v, 0) for _, v in t[2]) for _, t, _ in fl.terms_at_return), "a packet begins with an ack")
    fl = cx.flow(B + "prepare_wait")
    for i, q in enumerate(trace(fl)):
        ins = [c for c in q.calls if last(c) == "insert" and "HashMap" in c.path]
        ok = len(ins) == 1 and ins[0].args[1] == ("arg", 2) and (ins[0].args[2][0] == "agg" and all(is_const(v, 0) for _, v in ins[0].args[2][2]) or call(ins[0].args[2], "default") or ins[0].args[2][0] == "default")
        cx.ob("bag", "prepare #%d" % i, ok, "an ack is not waited for anew")
    fl = cx.flow(B + "remove")
    for i, q in enumerate(trace(fl)):
        rm = [c for c in q.calls if last(c) in ("remove", "remove_entry", "clear", "drain", "retain")]
        cx.ob("bag", "remove #%d" % i, len(rm) == 1 and last(rm[0]).startswith("remove") and rm[0].args[1] == ("arg", 2), "another packet is forgotten")
    fl = cx.flow(B + "with_props")
    for i, q in enumerate(trace(fl)):
        got = [(t, v) for t, v in q.facts.items() if call(t, "get_mut")]
        cb = [c for c in q.calls if last(c) == "call_once"]
        if not cx.ob("bag", "ack #%d" % i, len(got) == 1 and got[0][0][2][1] == ("arg", 2), "an ack goes to another packet"):
            continue
        if got[0][1] == ("v", "Some"):
            cx.ob("bag", "ack #%d told" % i, len(cb) == 1 and has(cb[0].args[1], inside(got[0][0], "Some")), "an ack is lost")
        else:
            cx.ob("bag", "ack #%d late" % i, not cb, "an ack is counted for no packet")
    fl = cx.flow(B + "wait_for")
    naps = [c.blk for c in fl.calls if last(c) in ("sleep", "call", "call_mut", "park", "yield_now", "park_timeout", "wait", "wait_timeout") and "Deref" not in c.path]
    locks = [c for c in fl.calls if last(c) in ("lock", "try_lock", "read", "write")]
    cx.ob("bag", "waits", bool(locks), "what is waited for is not looked at")
    n = 0
    rets = list(fl.ret_blocks)
    st = set(c.blk for c in locks)
    for b in [None] + sorted(st):
        tr = trace(fl, stops=st) if b is None else trace(fl, [(b, s) for s in succs(fl, [b])], st)
        for i, q in enumerate(tr or []):
            inst = "wait %s #%d" % (b, i)
            if q.end in st:
                continue
            got = [(t, v) for t, v in q.facts.items() if call(t, "get", "get_mut", "contains_key") and t[2][1] == ("arg", 2)]
            if not cx.ob("bag", inst, b is not None and len(got) == 1, "a wait ends unlooked"):
                continue
            n += 1
            if got[0][1] == ("v", "None") or got[0][1] == ("c", False):
                continue
            cnt = lambda k: could(q, lambda t: k if t[0] == "fld" and has(t, got[0][0]) or call(t, "acks_received") else None, "u64")
            cx.ob("bag", inst + " acked", not cnt(0) and cnt(1) and cnt(2), "a wait ends before there is an ack, or goes on after")
    cx.ob("bag", "wait ends", n >= 2, "a wait does not end with an ack")
    # while a wait sleeps the bag is open for acks
    held = set()
    for c in locks:
        drops = [b for b, t, _, _ in fl.drops if has(t, c.dest)]
        held |= set(reach(fl, succs(fl, [c.blk]), avoid=drops))
    for b in naps:
        cx.ob("bag", "nap %d" % b, b not in held, "a wait keeps the bag shut while it sleeps", at(fl, b))
    cx.floor("naps", len(naps), 1)
    fl = cx.flow("metric::ackbag::global_ack_bag")
    cx.ob("bag", "one", all(t[0] == "static" for _, t, _ in fl.terms_at_return), "there is more than one bag")


# ---------------------------------------------------------------- the sink's side
def sent(cx):
    p = cx.method("sink::Sink", r"sink::kafka::Kafka$", "deliver_raw")
    fl = cx.flow(p, opaque=(BAG,))
    cx.ob("publish", "unacked", not [c for c in fl.calls if re.search(BAG, c.path)], "an event is acked before what became of it is known")
    for i, q in enumerate(trace(fl)):
        inst = "#%d" % i
        tp = [c for c in q.calls if last(c) == "try_payload"]
        pu = [c for c in q.calls if last(c) == "push" and c.args[0] == ("fld", ("arg", 1), "messages")]
        if not cx.ob("publish", inst, len(tp) == 1 and len(pu) == 1 and pu[0].args[1] == tp[0].dest, "an event is not handed to Kafka once and kept in flight"):
            continue
        a = tp[0].args
        cx.ob("publish", inst + " topic", has(a[1], ("fld", ("arg", 1), "topic_name")), "an event is published under another topic")
        cx.ob("publish", inst + " bytes", a[2] == ("arg", 4), "an event's bytes are not what is published")
        k = a[3][2][0] if call(a[3], "as_bytes") else a[3]
        pc = pieces(k)
        cx.ob("publish", inst + " key", pc == [(("arg", 2), "UpperHex")], "an event is not published under its order")
        cx.ob("publish", inst + " metadata", a[4] == ("arg", 5), "an event's metadata are not published")
        cx.ob("publish", inst + " whose", a[5] == ("arg", 6), "who waits for an event is not kept")
        W = [w for w in q.writes if w.root == ("arg", 1) and w.proj and w.proj[-1] == ("f", "message_bytes")]
        ok = False
        if len(W) == 1:
            try:
                ok = evalt(W[0].val, lambda t: 100 if t == ("fld", ("arg", 1), "message_bytes") else 7 if call(t, "len") and t[2][0] == ("arg", 4) else None, "u64") == 107
            except (Unknown, Overflow):
                ok = False
        cx.ob("publish", inst + " size", ok, "what is in flight is not counted")
    # an implementation for the real producer
    ims = [im["items"]["try_payload"] for im in cx.prog.impls if im["trait"].endswith("KafkaMessageSender") and "FutureProducer" in im["self"]]
    cx.ob("record", "site", len(ims) == 1, "there is no producer")
    for p in ims:
        fl = cx.flow(p)
        ls = loops(fl)
        cx.ob("record", "headers", len(ls) == 1 and ls[0].complete() and whole(fl, ls[0].it, inside(("arg", 5), "Some")), "not every metadatum goes along")
        for b in ls[0].body() if ls else []:
            add = [c for c in b.calls if last(c) == "add"]
            e = ls[0].elem
            ok = len(add) == 1 and has(add[0].args[1], ("fld", e, "0")) and has(add[0].args[2], ("fld", e, "1")) and b.end in ls[0].next
            cx.ob("record", "header", ok, "a metadatum does not go along as it is")
        for i, q in enumerate(trace(fl, ls[0].done if ls else None) + [q for q in trace(fl, stops=[b for L in ls for b in L.next]) if q.end in fl.ret_blocks]):
            inst = "#%d" % i
            sd = [c for c in q.calls if last(c) == "send" and "rdkafka" in c.path]
            if not cx.ob("record", inst, len(sd) == 1, "a record is not handed to Kafka once"):
                continue
            rec = {}
            t = sd[0].args[1]
            while isinstance(t, tuple) and t[0] == "call" and t[2]:
                rec.setdefault(last(t[1]), t[2][1] if len(t[2]) > 1 else t[2][0])
                if last(t[1]) == "to":
                    break
                t = t[2][0]
            cx.ob("record", inst + " what", rec.get("payload") == ("arg", 3) and rec.get("key") == ("arg", 4) and rec.get("to") == ("arg", 2) and "headers" in rec, "a record is not the event's")
            cx.ob("record", inst + " whose", has(q.ret, sd[0].dest) and any(x == ("arg", 6) for _, x in q.ret[2]) if q.ret[0] == "agg" else False, "what became of a record is not waited for, or for another")


def acked(fl, q, ls):
    """the ids whose packets are acked because of path q: directly, or put on a list that is gone through"""
    out = []
    for c in q.calls:
        if re.search(BAG, c.path) and last(c) == "with_props":
            out.append(("some", c.args[1]))
        if last(c) in ("push", "push_back", "insert") and c.args[0][0] == "call" and last(c.args[0][1]) in ("new", "with_capacity"):
            for L in ls:
                if L.it[0] != "iterop" and whole(fl, L.it, c.args[0]) and L.complete() and ackloop(fl, L, ls):
                    # and the list is gone through whatever happens
                    miss = must_reach(fl, [q.blocks[-1]] if q.blocks[-1] not in L.next else [L.next[0]], L.next, fl.ret_blocks)
                    if not miss:
                        out.append(("opt", c.args[1]))
    return out


def ackloop(fl, L, ls):
    st = [b for x in ls for b in x.next]
    ok = True
    for b in L.body(stops=st):
        w = [c for c in b.calls if re.search(BAG, c.path) and last(c) == "with_props"]
        e = L.elem
        v = b.facts.get(e)
        if v == ("v", "Some"):
            ok = ok and len(w) == 1 and w[0].args[1] == inside(e, "Some")
        elif v == ("v", "None"):
            ok = ok and not w
        else:
            ok = ok and len(w) == 1 and w[0].args[1] == e
        ok = ok and b.end in L.next
    return ok


def is_ack(fl, cx, path):
    """the closures given to with_props count an ack"""
    for c in fl.calls:
        if re.search(BAG, c.path) and last(c) == "with_props":
            yield c


def settled(cx):
    # how a message in flight ended
    ims = [im for im in cx.prog.impls if im["trait"].endswith("KafkaPublishable") and im["self"].endswith("KafkaPublishResult")]
    if not cx.ob("settled", "site", len(ims) == 1, "what became of a message is not asked"):
        return
    fl = cx.flow(ims[0]["items"]["finalize"])
    for i, q in enumerate(trace(fl)):
        w = [c for c in q.calls if last(c) == "wait"]
        if q.ret[0] == "agg" and q.ret[1] == "Some":
            cx.ob("settled", "future #%d" % i, len(w) == 1 and q.facts.get(w[0].dest) == ("v", "Ok") and q.ret[2][0][1] == inside(w[0].dest, "Ok"), "a message is said to be published unasked")
        else:
            cx.ob("settled", "future #%d" % i, not w or q.facts.get(w[0].dest) == ("v", "Err"), "what became of a message is not told")
    if "connection_id" in ims[0]["items"]:
        f2 = cx.flow(ims[0]["items"]["connection_id"])
        cx.ob("settled", "whose", all(t == ("fld", ("arg", 1), "connection_id") for _, t, _ in f2.terms_at_return), "who waits for a message is not told")
    else:
        cx.ob("settled", "whose", False, "who waits for a message is not told")
    ow = owner(cx)
    if not ow:
        return
    fl = cx.flow(ow, opaque=(BAG,))
    fz = [c for c in fl.calls if last(c) == "finalize"]
    if not cx.ob("settled", "asked", len({c.blk for c in fz}) == 1, "what became of a message is not asked in one place"):
        return
    fz = fz[0]
    ls = loops(fl)
    M = ("fld", ("arg", 1), "messages")
    src = fz.args[0]
    mine = [L for L in ls if L.elem == src]
    whole_ = any(L.complete() and whole(fl, strip_iter(L.it), M) for L in mine) or src == fl.elem(M) and not mine
    cx.ob("settled", "all", whole_, "not every message in flight is asked about")
    who = [c.dest for c in fl.calls if last(c) == "connection_id" and c.args[0] == src]
    R = fz.dest
    ok_, err = inside(inside(R, "Some"), "Ok"), inside(inside(R, "Some"), "Err")
    stops = [fz.blk] + [b for L in ls for b in L.next]
    seen, again = set(), set()
    ret = [t for _, t, _ in fl.terms_at_return]
    for i, q in enumerate(trace(fl, [(fz.blk, s) for s in succs(fl, [fz.blk])], stops)):
        it = [c.args[0] for c in q.calls if last(c) == "collect" and c.args[0][0] == "iterop" and c.args[0][2] == M]
        kept = [c.args[1] for c in q.calls if last(c) == "push" and any(c.args[0] == t for t in ret)]
        if it:
            r = it[-1][3]
            kept += [r[2][0][1]] if r[0] == "agg" and r[1] == "Some" else [] if r[0] == "agg" and r[1] == "None" else [("?",)]
        elif not mine:
            continue              # goes on to the next message; the same path ends the loop as well
        inst = "#%d" % i
        ids = acked(fl, q, ls)
        mineid = lambda t: any(t == w or t == inside(w, "Some") for w in who)
        acks = len(ids) == 1 and mineid(ids[0][1])
        noid = [v for w in who for v in [q.facts.get(w)] if v == ("v", "None")]
        v = q.facts.get(R)
        r2 = q.facts.get(inside(R, "Some"))
        kind = inside(err, "MessageProduction") if False else ("fld", ("var", ("fld", err, "0"), "MessageProduction"), "0")
        k = q.facts.get(kind)
        if v == ("v", "Some") and r2 == ("v", "Ok"):
            seen.add("published")
            cx.ob("settled", inst + " published", (acks or bool(noid)) and not kept, "a message that was published is not acked, or published again")
        elif v == ("v", "Some") and r2 == ("v", "Err") and k is not None and k[0] == "v" and k[1] in RETRIED:
            again.add(k[1])
            good = len(kept) == 1 and kept[0][0] == "agg"
            d = dict(kept[0][2]) if good else {}
            cx.ob("settled", inst + " " + k[1], good and not ids and ("fld", err, "1") in d.values() and any(w in d.values() for w in who), "a message is acked or lost that Kafka may yet take")
        else:
            seen.add("lost")
            cx.ob("settled", inst + " lost", (acks or bool(noid)) and not kept, "a message that was given up is not acked, or tried again")
            if v == ("v", "Some") and r2 == ("v", "Err") and k is None and q.facts.get(("fld", err, "0")) == ("v", "MessageProduction"):
                again |= set()
                ex = q.facts.get(("not", kind), frozenset())
                cx.ob("settled", inst + " given up", RETRIED <= ex, "a message is given up that Kafka may yet take: %s" % ", ".join(sorted(RETRIED - ex)[:3]))
    cx.ob("settled", "outcomes", seen == {"published", "lost"} and again == RETRIED, "not every outcome has its case")
    for c in is_ack(fl, cx, ow):
        ackfn(cx, fl, c)
    cx.ob("settled", "acks", bool(list(is_ack(fl, cx, ow))), "nothing is acked")


def strip_iter(t):
    while t[0] == "iterop":
        t = t[2]
    return t


def owner(cx):
    # who asks about the messages in flight
    ow = set()
    for p, b in cx.prog.bodies.items():
        for blk in b.blocks:
            t = blk[1] if blk else ("?",)
            if t[0] == "call" and isinstance(t[1], dict) and last(t[1].get("fn", "")) == "finalize" and "Publishable" in t[1].get("fn", ""):
                ow.add(re.sub(r"(::\{\{closure\}\}#\d+)+$", "", p))
    ow = [p for p in ow if "test" not in p]
    cx.ob("settled", "owner", len(ow) == 1, "what became of a message is not asked in one place")
    return ow[0] if len(ow) == 1 else None


def ackfn(cx, fl, c):
    """what with_props is given adds an ack"""
    f = c.args[2]
    path = f[1] if f[0] in ("closure", "fn") else None
    cs = [p for p in cx.prog.bodies if "::{{closure}}" in p and "kafka" in p and "acknowledge" in p] if path is None else [path]
    if path is None:
        # captures nothing: the closure is known by its type only
        cs = [p for p in cx.prog.bodies if re.search(r"^(<?sink::kafka).*\{\{closure\}\}#\d+$", p) and cx.prog.bodies[p].nargs == 2 and any("SyncAckProps" in str(l) for l in cx.prog.bodies[p].locals[:3])]
    ok = bool(cs)
    for p in cs:
        f2 = cx.flow(p)
        for q in trace(f2):
            good = False
            for w in q.writes:
                try:
                    good = good or all(evalt(w.val, lambda t: k if t[0] in ("fld", "arg") else None, "u64") > 0 for k in (0, 1, 5))
                except (Unknown, Overflow):
                    pass
            ok = ok and good
    cx.ob("settled", "ack counts", ok, "an ack is not counted")


def everyone(t, T):
    while call(t, "iter", "into_iter", "iter_mut", "collect", "enumerate", "drain") and t[2]:
        t = t[2][0]
    return t == T


def retried(cx):
    ow = owner(cx)
    p = cx.method("sink::Sink", r"sink::kafka::Kafka$", "flush")
    if not ow:
        return
    fl = cx.flow(p, opaque=(BAG, "^" + re.escape(ow) + "$"))
    aw = [c for c in fl.calls if c.path == ow]
    tp = [c for c in fl.calls if last(c) == "try_payload"]
    if not cx.ob("retry", "sites", len(aw) == 1 and len(tp) == 1, "messages to try again are not tried in one place"):
        return
    aw, tp = aw[0], tp[0]
    T = aw.dest
    E = fl.elem(T)
    ls = loops(fl)
    mains = [L for L in ls if L.elem == E]
    hdr = [L for L in ls if has(L.it, E) and L not in mains]
    acklists = [L for L in ls if ackloop(fl, L, ls)]
    a = tp.args
    msg = [t for t in [strip_some(x) for x in a[2:4]] if t]
    ok = len(msg) == 2 and call(msg[0], "payload") and call(msg[1], "key") and msg[0][2] == msg[1][2] and has(msg[0][2][0], E)
    if not cx.ob("retry", "same", ok, "what is tried again is not the message that failed"):
        return
    PAYL, KEY = msg
    cx.ob("retry", "topic", has(a[1], ("fld", ("arg", 1), "topic_name")), "a message is tried again under another topic")
    cx.ob("retry", "whose", a[5][0] == "fld" and a[5][1] == E, "who waits for a message that is tried again is forgotten")
    meta(cx, fl, a[4], msg[0][2][0], hdr)
    stops = [aw.blk, tp.blk] + [b for L in hdr + mains for b in L.next] + [b for L in acklists for b in L.next]
    starts = [(aw.blk, s) for s in succs(fl, [aw.blk])] + [e for L in hdr for e in L.done] + [e for L in mains for e in L.some]
    seen, losing = set(), []
    MS = ("fld", ("arg", 1), "messages")
    for i, q in enumerate(trace(fl, starts, stops)):
        inst = "#%d" % i
        if any(q.end in L.next for L in hdr):
            continue
        pay, key = q.facts.get(PAYL), q.facts.get(KEY)
        if q.end == tp.blk:
            seen.add("again")
            cx.ob("retry", inst + " whole", pay == ("v", "Some") and key == ("v", "Some"), "a message without content is tried again")
            continue
        drawn = pay is not None or key is not None or any(has(t, PAYL) or has(t, KEY) for t in q.facts)
        if not drawn:
            continue
        seen.add("lost")
        losing.append(q.facts)
        ids = acked(fl, q, ls)
        okk = len(ids) == 1 and ids[0][1][0] == "fld" and ids[0][1][1] == E or len(ids) == 1 and has(ids[0][1], a[5])
        noid = q.facts.get(a[5]) == ("v", "None")
        cx.ob("retry", inst + " lost", (pay == ("v", "None") or key == ("v", "None")) and (okk or noid), "a message that cannot be tried again is not acked, or one that can be is not tried")
    cx.ob("retry", "outcomes", seen == {"again", "lost"}, "a message that failed has no case")
    for w, other in ((PAYL, KEY), (KEY, PAYL)):
        cx.ob("retry", "lost without " + last(w[1]), any(f.get(w, ("v", "None")) == ("v", "None") and f.get(other, ("v", "Some")) == ("v", "Some") for f in losing), "a message that cannot be tried again crashes the sink")
    # what was tried again is in flight
    for i, q in enumerate(trace(fl, [(tp.blk, s) for s in succs(fl, [tp.blk])], stops)):
        it = [c.args[0] for c in q.calls if last(c) == "collect" and c.args[0][0] == "iterop"]
        pu = [c for c in q.calls if last(c) == "push" and c.args[1] == tp.dest]
        if it:
            r = it[-1][3]
            W = [w for w in q.writes if w.root == ("arg", 1) and w.proj == (("f", "messages"),)]
            cx.ob("retry", "kept #%d" % i, r[0] == "agg" and r[1] == "Some" and r[2][0][1] == tp.dest or r == tp.dest, "a message that was tried again is not in flight")
            cx.ob("retry", "in flight #%d" % i, len(W) == 1 and W[0].val[0] == "iterop" and W[0].val[1] in ("filter_map", "map", "flat_map") and everyone(W[0].val[2], T), "messages that were tried again are not in flight")
        elif mains:
            cx.ob("retry", "kept #%d" % i, len(pu) == 1, "a message that was tried again is not in flight")
            if pu and pu[0].args[0] != MS and not (pu[0].args[0][0] in ("fld", "phi")):
                Ws = [w for w in fl.writes if w.root == ("arg", 1) and w.proj == (("f", "messages"),) and w.val == pu[0].args[0]]
                cx.ob("retry", "in flight #%d" % i, bool(Ws), "messages that were tried again are not in flight")
    # a flush ends when nothing is in flight, and only then is the valve opened
    ends = 0
    mvals = {w.val for w in fl.writes if w.root == ("arg", 1) and w.proj == (("f", "messages"),)}
    for i, q in enumerate(trace(fl, stops=[aw.blk]) + trace(fl, [(aw.blk, s) for s in succs(fl, [aw.blk])], [aw.blk] + [b for L in hdr + mains for b in L.next], cycles=0) + trace(fl, [e for L in mains for e in L.done], [aw.blk] + [b for L in hdr + mains for b in L.next])):
        W = [w for w in q.writes if w.root == ("arg", 1) and w.proj == (("f", "message_bytes"),)]
        none = [v for t, v in q.facts.items() if t[0] != "not" and call(t, "is_empty") and (messages(t[2][0]) or t[2][0] in mvals)]
        none += [v for t, v in q.facts.items() if t[0] == "bin" and t[1] == "Eq" and call(t[2], "len") and (messages(t[2][2][0]) or t[2][2][0] in mvals) and is_const(t[3], 0)]
        done = any(v == ("c", True) for v in none)
        if q.end == aw.blk:
            cx.ob("drain", "#%d goes on" % i, not W, "what is in flight is forgotten")
            continue
        if q.end not in fl.ret_blocks:
            continue
        ends += 1
        cx.ob("drain", "#%d" % i, done, "a flush ends while messages are in flight")
        cx.ob("drain", "#%d open" % i, len(W) == 1 and is_const(W[0].val, 0), "after a flush something is still counted as in flight")
    cx.floor("ends of a flush", ends, 1)
    sh = cx.method("sink::Sink", r"sink::kafka::Kafka$", "shutdown")
    f3 = cx.flow(sh, opaque=(re.escape(p),))
    for i, q in enumerate(trace(f3)):
        cx.ob("drain", "shutdown #%d" % i, [c for c in q.calls if c.path == p], "what is in flight is dropped at shutdown")


def messages(t):
    if t == ("fld", ("arg", 1), "messages"):
        return True
    return t[0] == "phi" and t[2] == ("t", ("arg", 1)) and t[3] == (("f", "messages"),) or t[0] == "iterop"


def strip_some(t):
    return t[1][1] if t[0] == "fld" and t[1][0] == "var" and t[1][2] == "Some" else None


def meta(cx, fl, t, m, hdr):
    ins = []

    def go(x, d=0):
        if x[0] == "phi" and d < 6:
            for _, y, fs in phi_ins(fl, x):
                if y[0] == "agg" and y[1] == "None":
                    hd = [v for k, v in fs.items() if call(k, "headers")]
                    ok_ = hd == [("v", "None")]
                    cx.ob("retry", "metadata none", ok_, "a message's metadata are lost when it is tried again")
                go(y, d + 1)
        else:
            ins.append(x)
    go(t)
    some = [x for x in ins if x[0] == "agg" and x[1] == "Some"]
    none = [x for x in ins if x[0] == "agg" and x[1] == "None"]
    if not cx.ob("retry", "metadata", len(some) >= 1 and len(some) + len(none) == len(ins) and len(hdr) == 1 and hdr[0].complete(), "a message's metadata are lost when it is tried again"):
        return
    L = hdr[0]
    mp = some[0][2][0][1]
    hs = inside(("call", [c for c in fl.calls if last(c) == "headers"][0].path, (m,), [c for c in fl.calls if last(c) == "headers"][0].dest[3]), "Some")
    rng = L.it
    cx.ob("retry", "metadata all", rng[0] == "agg" and is_const(dict(rng[2]).get("start", ("",)), 0) and call(dict(rng[2]).get("end", ("",)), "count") and has(dict(rng[2])["end"], m), "not all metadata are tried again")
    for b in L.body(stops=L.next):
        ins_ = [c for c in b.calls if last(c) == "insert"]
        g = [c for c in b.calls if last(c) == "get"]
        if b.end not in L.next or any(b.facts.get(c.dest) == ("v", "None") for c in g):
            continue
        ok = len(ins_) == 1 and len(g) == 1 and ins_[0].args[0] == mp and g[0].args[1] == L.elem and has(ins_[0].args[1], ("fld", inside(g[0].dest, "Some"), "0")) and has(ins_[0].args[2], ("fld", inside(g[0].dest, "Some"), "1"))
        cx.ob("retry", "metadatum", ok, "a metadatum is tried again as another")
