"""Checks of the objects driven step by step: chunks, reassembly, buffer queue, stream ids,
permits, the SETUP builder, payload values."""
from gen_link import Gen, MAX24, cat, lit, norm, size
from vlib import build_exec, outcomes, record


def tier(c, quick, deep):
    return deep if c.deep else quick


def run_all(c, reqs, profiles):
    runs = []
    for i, (p, b) in enumerate(build_exec(profiles).items()):
        runs += record(b, p, reqs, start=i * len(reqs))
    c.notes["outcomes"] = outcomes(runs)
    return runs


def sample(c, xs, n):
    """All of them, or n picked at random."""
    return xs if len(xs) <= n else c.rng.sample(xs, n)


def count_bytes(n):
    """n bytes that differ from their neighbours."""
    return [[i % 251, 1] for i in range(n)]


# --------------------------------------------------------------------------- C09, C10

def pieces(o, n):
    if not o:
        return 0
    return 1 if not o[0] else (size(o[0]) - 1) // n + 1


def chunk_runs(g):
    """A random payload, cut with steps in any order."""
    r = g.r
    n = g.pick([0, 1, 2, 3, 5, 7, 8, 16, 64, 100, 255, 256, 257, 1000, 65535, 65536, MAX24, -1, -2, -3,
                1 << 16 | 3, (1 << 31) - 1])
    part = lambda: [] if r.random() < 0.2 else [g.string(g.length())]  # noqa
    m, d = part(), part()
    if n > 0 and r.random() < 0.5:      # at and around a multiple of the chunk size
        k = n * r.randrange(0, 6) + r.randrange(-1, 2)
        if 0 <= k < 1 << 24:
            s = [g.string(k)]
            if r.random() < 0.5:
                m = s
            else:
                d = s
    steps = [{"o": "new", "m": m, "d": d, "n": n}]
    if n == 0:
        return {"op": "chunks", "steps": steps}
    total = max(pieces(m, n if n > 0 else 1 << 62), pieces(d, n if n > 0 else 1 << 62))
    steps.append({"o": "len"})
    left = total
    for _ in range(r.randrange(1, 8)):
        x = r.random()
        if x < 0.3:
            steps.append({"o": "len"})
        elif x < 0.75:
            steps.append({"o": "next"})
            left -= 1
        elif total <= 70000:
            k = r.randrange(0, max(left, 0) + 3)
            if r.random() < 0.5:
                steps.append({"o": "skip", "k": k})
                left -= k
            else:
                steps.append({"o": "nth", "k": k})
                left -= k + 1
    if total <= 70000 and r.random() < 0.7:
        steps += [{"o": "skip", "k": max(left, 0) + r.randrange(0, 2)}, {"o": "len"},
                  {"o": "next"}, {"o": "next"}, {"o": "len"}]
    elif total <= 70000:
        steps.append({"o": g.pick(["count", "last", "fold"])})
    return {"op": "chunks", "steps": steps}


def check_chunks(c):
    m = c.model("MCFragment", dict({"EMIT": "1"}, **({"DEEP": "1"} if c.deep else {})))
    reqs = [{"op": "chunks", "steps": [{"o": "new", "m": x["m"], "d": x["d"], "n": x["n"]}]
             + [{"o": o} for o in x["ops"]]} for x in m.printed()]
    c.notes["runs_from_model"] = len(reqs)
    g = Gen(c.rng, big=0.01)
    reqs += [chunk_runs(g) for _ in range(tier(c, 2500, 30000))]
    # Very many chunks, one by one and at once.
    for k in COUNTS:
        n = g.pick([1, 2, 5])
        part = lambda: [] if c.rng.random() < 0.3 else \
            [norm([[c.rng.randrange(256), k * n - c.rng.randrange(n) - 1], [c.rng.randrange(256), 1]])]  # noqa
        m, d = part(), part()
        total = max(pieces(m, n), pieces(d, n))
        each = [{"o": "next"}, {"o": "len"}] * (k + 1) if k <= tier(c, 300, 2000) else []
        reqs.append({"op": "chunks", "steps": [{"o": "new", "m": m, "d": d, "n": n}, {"o": "len"}] + each
                     + [{"o": "skip", "k": max(0, total - 3 - len(each) // 2)}, {"o": "len"}, {"o": "next"},
                        {"o": "nth", "k": 0}, {"o": "len"}, {"o": "next"}, {"o": "next"}, {"o": "len"}]})
        reqs.append({"op": "chunks", "steps": [{"o": "new", "m": m, "d": d, "n": n}, {"o": g.pick(["count", "last", "fold"])}]})
    # Lengths whose chunk counts need more than 24 bits.
    for n in (1, 2, 3):
        for k in (1 << 24, (1 << 24) + 1, (1 << 25) + 3):
            reqs.append({"op": "chunks", "steps": [
                {"o": "new", "m": [], "d": [[[1, k]]], "n": n}, {"o": "len"}, {"o": "next"},
                {"o": "len"}, {"o": "skip", "k": 3}, {"o": "len"}]})
    # Chunks at and beyond what 24 bits count, and sizes no part reaches.
    sizes = [MAX24, 1 << 24, MAX24 + 2, (1 << 25) - 1, (1 << 31) - 1, -1, -2, -3]
    for i, n in enumerate(sizes):
        top = n if 0 < n < 1 << 26 else 1 << 24
        for k in {top - 1, top, top + 1, MAX24 + 3, 2 * top} if c.deep or i < 3 else {top + 1}:
            big, small = [[[7, 1], [1, k - 1]]], [[[2, 3]]]
            m, d = (big, small) if c.rng.random() < 0.5 else (small, big)
            reqs.append({"op": "chunks", "steps": [
                {"o": "new", "m": m, "d": d, "n": n}, {"o": "len"}, {"o": "next"},
                {"o": "len"}, {"o": "skip", "k": 3}, {"o": "len"}, {"o": "next"}]})
    runs = run_all(c, reqs, ("debug", "release") if c.deep else ("debug",))
    c.conform("TraceFragment", runs, kind="chunking run", heap="6g")


NOISE = ("CANCEL", "REQUEST_N", "KEEPALIVE", "METADATA_PUSH", "LEASE", "ERROR", "RESUME_OK", "SETUP",
         "RESUME")


def message_runs(g):
    r = g.r
    kind = g.pick(["bytes", "multi"])
    if r.random() < 0.6:
        n = g.pick([1, 2, 3, 5, 8, 16, 64, 255, 1000, 65536])
        lim = n * g.pick([3, 10, 40])
        m, d = g.part(lim), g.part(lim)
        noise = []
        for _ in range(r.randrange(0, 3)):
            a = g.args(g.pick(NOISE))
            if a["k"] == "ERROR":
                a["sid"], a["code"] = [0, 0, 0, 1], [0, 0, 2, 1]
            noise.append({"at": r.randrange(0, 6), "a": a})
        return {"op": "message", "steps": [{
            "o": "carry", "m": m, "d": d, "n": n, "kind": kind, "cut": r.randrange(0, 20),
            "first": g.pick(["REQUEST_RESPONSE", "REQUEST_FNF", "REQUEST_STREAM",
                             "REQUEST_CHANNEL", "PAYLOAD"]),
            "rest": g.pick(["PAYLOAD", "PAYLOAD", "REQUEST_FNF"]), "noise": noise}]}
    frames = []
    for _ in range(r.randrange(0, 6)):
        k = g.pick(["REQUEST_RESPONSE", "REQUEST_FNF", "REQUEST_STREAM", "REQUEST_CHANNEL", "PAYLOAD",
                    "PAYLOAD", "PAYLOAD", None])
        b = g.wire(k) if r.random() < 0.93 else g.wild()
        if r.random() < 0.06:
            from gen_link import size as sz
            n = r.randrange(0, 30)
            b = _take(b, min(n, sz(b)))
        if b:
            frames.append(b)
    return {"op": "message", "steps": [{"o": "join", "frames": frames, "kind": kind,
                                        "cut": r.randrange(0, 20)}]}


COUNTS = [15, 16, 17, 31, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128, 129, 200, 255, 256, 257, 300, 511, 512,
          513, 1000, 1023, 1024, 1025, 2000, 4096, 5000, 10000, 32767, 32768, 65535, 65536, 65537, 70000]


def many_fragments(c, g):
    """Messages of very many fragments."""
    r = c.rng
    out = []
    for n in COUNTS + ([1 << 20] if c.deep else []):
        size = g.pick([1, 1, 2, 7])
        k = n * size - r.randrange(size)
        big, small = [norm([[r.randrange(256), k // 2], [r.randrange(256), k - k // 2]])], g.pick([[], [[[5, 3]]]])
        m, d = g.pick([(big, small), (small, big), (big, big)]) if k < 1 << 22 else (small, big)
        kind = g.pick(["bytes", "multi"])
        out.append({"op": "message", "steps": [{
            "o": "carry", "m": m, "d": d, "n": size, "kind": kind, "cut": r.randrange(0, 20),
            "first": g.pick(["REQUEST_RESPONSE", "REQUEST_FNF", "REQUEST_STREAM", "REQUEST_CHANNEL", "PAYLOAD"]),
            "rest": "PAYLOAD", "noise": []}]})
        if n <= (2000 if c.deep else 300):
            # from elsewhere: fragments of all sorts
            out.append({"op": "message", "steps": [{
                "o": "join", "kind": kind, "cut": r.randrange(0, 20),
                "frames": [g.wire(g.pick(["REQUEST_FNF", "PAYLOAD"])) for _ in range(n)]}]})
    return out


def _take(s, n):
    out = []
    for v, k in s:
        if n <= 0:
            break
        out.append([v, min(k, n)])
        n -= k
    return norm(out)


def check_message(c):
    m = c.model("MCFragment", dict({"EMIT": "1"}, **({"DEEP": "1"} if c.deep else {})))
    reqs = []
    for i, x in enumerate(m.printed()):
        reqs.append({"op": "message", "steps": [{
            "o": "carry", "m": x["m"], "d": x["d"], "n": x["n"], "kind": ["bytes", "multi"][i % 2],
            "cut": i % 9, "rest": ["PAYLOAD", "REQUEST_FNF"][i // 5 % 2], "noise": [],
            "first": ["REQUEST_RESPONSE", "REQUEST_FNF", "REQUEST_STREAM", "REQUEST_CHANNEL",
                      "PAYLOAD"][i % 5]}]})
    c.notes["runs_from_model"] = len(reqs)
    g = Gen(c.rng, big=0.001)
    reqs += many_fragments(c, g)
    reqs += [message_runs(g) for _ in range(tier(c, 4000, 40000))]
    runs = run_all(c, reqs, ("debug", "release") if c.deep else ("debug",))
    c.conform("TraceFragment", runs, kind="reassembly run", heap="6g")


# --------------------------------------------------------------------------- C11

KINDS11 = ("bytes", "chain", "nested", "multi")


def segment(g, kind, at):
    """Chunks of one segment; bytes count on from at."""
    r = g.r
    k = 1 if kind == "bytes" else r.randrange(1, 3) if kind == "chain" else r.randrange(1, 5)
    out = []
    for _ in range(k):
        n = g.pick([1, 1, 2, 3, 5, 8, 20]) if r.random() < 0.95 else g.pick([255, 4096, 70000])
        if n > 100:
            out.append([[r.randrange(256), n]])
        else:
            out.append(norm([[(at + i) % 256, 1] for i in range(n)]))
        at += n
    return out


def queue_runs(g):
    r = g.r
    kind = g.pick(KINDS11)
    steps, left, at = [], 0, 0
    for _ in range(r.randrange(2, 16)):
        x = r.random()
        if x < 0.4 or not steps:
            s = segment(g, kind, at)
            n = sum(size(y) for y in s)
            at += n
            left += n
            steps.append({"o": "push", "s": s})
            continue
        if x < 0.5:
            steps.append({"o": "chunk"})
        elif x < 0.6:
            steps.append({"o": "vec", "n": r.randrange(0, 9)})
        elif x < 0.65:
            steps.append({"o": "rest"})
            left = 0
        elif x < 0.72:
            n = g.pick([1, 2, 4, 8])
            if n <= left:
                steps.append({"o": "num", "n": n})
                left -= n
        else:
            n = g.pick([0, 1, 2, 3, r.randrange(0, left + 1), left, r.randrange(0, left + 1)])
            n = min(n, left)
            steps.append({"o": g.pick(["advance", "copy", "get", "copy", "advance"]), "n": n})
            left -= n
    if r.random() < 0.3:
        n = left + g.pick([1, 2, 100, 70000])
        o = g.pick(["advance", "copy", "get"])
        steps.append({"o": o, "n": n})
    else:
        steps.append({"o": "rest"})
    return {"op": "queue", "kind": kind, "steps": steps}


def long_queue(g):
    """Very many segments, and views of very many slots."""
    r = g.r
    kind = g.pick(KINDS11)
    steps, left, at = [], 0, 0
    for _ in range(g.pick([17, 20, 33, 40, 65, 70, 130, 260, 300])):
        s = segment(g, kind, at)
        k = sum(size(y) for y in s)
        at, left = at + k, left + k
        steps.append({"o": "push", "s": s})
    for _ in range(r.randrange(2, 9)):
        x = r.random()
        if x < 0.6:
            steps.append({"o": "vec", "n": g.pick([0, 1, 15, 16, 17, 32, 33, 64, 65, 100, 128, 129, 256, 257, 1024, 2000])})
        elif x < 0.7:
            steps.append({"o": "chunk"})
        else:
            k = min(left, r.randrange(1, 1 + max(1, left // 2)))
            steps.append({"o": g.pick(["advance", "copy", "get"]), "n": k})
            left -= k
    return {"op": "queue", "kind": kind, "steps": steps + [{"o": g.pick(["rest", "vec"]), "n": 5000}]}


def check_queue(c):
    m = c.model("MCQueue", dict({"EMIT": "1"}, **({"DEEP": "1"} if c.deep else {})), heap="6g")
    reqs = []
    for steps in sample(c, m.printed(), tier(c, 9000, 60000)):
        single = all(len(s["s"]) == 1 for s in steps if s["o"] == "push")
        kind = c.rng.choice(KINDS11 if single else KINDS11[1:])
        out = []
        for s in steps:
            out.append(s)
            if c.rng.random() < 0.5:
                out.append({"o": "chunk"} if c.rng.random() < 0.5 else
                           {"o": "vec", "n": c.rng.randrange(0, 6)})
        # a refused request ends the run
        if steps[-1]["o"] in ("advance", "copy", "get"):
            while out[-1]["o"] in ("chunk", "vec"):
                out.pop()
        reqs.append({"op": "queue", "kind": kind, "steps": out})
    c.notes["runs_from_model"] = len(reqs)
    g = Gen(c.rng)
    reqs += [long_queue(g) for _ in range(tier(c, 150, 1500))]
    reqs += [queue_runs(g) for _ in range(tier(c, 5000, 60000))]
    runs = run_all(c, reqs, ("debug", "release") if c.deep else ("debug",))
    c.conform("TraceQueue", runs, kind="buffer queue run", heap="6g")


# --------------------------------------------------------------------------- C12, C14

MAX31 = (1 << 31) - 1


def pair(n):
    return [n >> 16 & 0xFFFF, n & 0xFFFF]


def stretch(i):
    """A number of the small model (0..7) as one of 0..2^31-1: the upper half at the top."""
    return i if i < 4 else MAX31 - (7 - i)


def id_runs(g):
    r = g.r
    side = g.pick(["client", "server", "at", "at"])
    steps = [{"o": "new", "side": side}]
    at = {"client": 1, "server": 2}.get(side)
    if at is None:
        at = g.pick([r.randrange(0, 8), MAX31 - r.randrange(0, 10), 1 << r.randrange(2, 31),
                     (1 << r.randrange(2, 31)) - r.randrange(1, 12), r.randrange(1 << 31)])
        # the counter is 32 bits wide; only the lower 31 count
        steps[0]["at"] = pair(at | (r.randrange(2) << 31))
    used, blocks = [], []
    near = lambda: (at + r.randrange(-4, 14)) & MAX31  # noqa
    for _ in range(r.randrange(2, 14)):
        x = r.random()
        if x < 0.5:
            steps.append({"o": "next"})
            at = (at + 2) & MAX31
        elif x < 0.8:
            i = near() or 1
            # ids in use are named one by one or in blocks, not both
            if not any(b <= i <= b + 2 * (k - 1) for b, k in blocks):
                steps.append({"o": "occupy", "id": pair(i)})
                used.append(i)
        elif x < 0.86 and used:
            steps.append({"o": "release", "id": pair(used.pop(r.randrange(len(used))))})
        elif x < 0.94:
            i = near() or 1
            n = min(g.pick([2, 5, 17, 33, 65, 129, 257, 1025, 5000]), (MAX31 - i) // 2 + 1)
            # blocks are apart from one another
            if all(i > b + 2 * (k - 1) or i + 2 * (n - 1) < b for b, k in blocks + [(u, 1) for u in used]):
                steps.append({"o": "block", "id": pair(i), "n": n})
                blocks.append((i, n))
            elif blocks:
                b, k = blocks.pop(r.randrange(len(blocks)))
                steps.append({"o": "unblock", "id": pair(b), "n": k})
        else:
            n = g.pick([3, 10, 100, 1000])
            steps.append({"o": "many", "n": n})
            at = (at + 2 * n) & MAX31
    steps.append({"o": "many", "n": r.randrange(1, 30)})
    return {"op": "ids", "steps": steps}


def check_ids(c):
    m = c.model("MCStreamId", dict({"EMIT": "1"}, **({"DEEP": "1"} if c.deep else {})), heap="6g",
                timeout=800)
    reqs = []
    seen = sample(c, m.printed(), tier(c, 8000, 80000))
    for h in seen:
        at = stretch(c.rng.randrange(8))
        steps = [{"o": "new", "side": "at", "at": pair(at | (c.rng.randrange(2) << 31))}]
        for s in h:
            steps.append(dict(s, id=pair(stretch(s["id"]))) if "id" in s else s)
        reqs.append({"op": "ids", "steps": steps + [{"o": "next"}]})
    c.notes["runs_from_model"] = len(reqs)
    g = Gen(c.rng)
    reqs += [id_runs(g) for _ in range(tier(c, 3000, 40000))]
    # Long series: past 2^16, and from far below the end past it.
    long = tier(c, 200000, 40000000)
    for st in ({"side": "client"}, {"side": "server"}, {"side": "at", "at": pair(MAX31 - 100001)},
               {"side": "at", "at": pair(MAX31 - 100000)}):
        reqs.append({"op": "ids", "steps": [
            dict(st, o="new"), {"o": "occupy", "id": pair(65537)}, {"o": "occupy", "id": pair(40000)},
            {"o": "many", "n": long}, {"o": "next"}]})
    # Very many ids in use: at the start, below the end, and on both sides of it.
    for at, blocks in ((1, [(1, 70000)]), (2, [(2, 33000), (66004, 40000)]), (MAX31 - 140001, [(MAX31 - 140001, 70001)]),
                       (MAX31 - 140000, [(MAX31 - 140000, 70001), (1, 300000)]),
                       (MAX31 - 1, [(MAX31 - 1, 1), (2, tier(c, 200000, 3000000))])):
        reqs.append({"op": "ids", "steps":
                     [{"o": "new", "side": "at", "at": pair(at)}]
                     + [{"o": "block", "id": pair(b), "n": n} for b, n in blocks]
                     + [{"o": "next"}, {"o": "many", "n": 1000},
                        {"o": "unblock", "id": pair(blocks[0][0]), "n": blocks[0][1]}, {"o": "next"}]})
    runs = run_all(c, reqs, ("debug", "release") if c.deep else ("debug",))
    c.conform("TraceStreamId", runs, kind="allocation run", heap="6g")


def permit_runs(g):
    r = g.r
    num = lambda: pair(g.pick([0, 1, 2, 3, MAX31 - 1, MAX31, MAX31 + 1, MAX31 + 2, (1 << 32) - 1,  # noqa
                               (1 << 32) - 2, r.randrange(1 << 32), r.randrange(1 << 31),
                               r.randrange(1 << 16), 1 << r.randrange(32)]))
    steps = [{"o": "new", "n": num()}, {"o": "load"}]
    for _ in range(r.randrange(1, 14)):
        x = r.random()
        if x < 0.3:
            steps.append({"o": "take"})
        elif x < 0.4:
            steps.append({"o": "many", "k": g.pick([1, 2, 5, 100, 300, 1000, 5000, 70000] if r.random() < 0.1
                                                   else [1, 2, 5, 20])})
        elif x < 0.7:
            steps.append({"o": "add", "n": num()})
        else:
            steps.append({"o": g.pick(["zero", "load"])})
    return {"op": "permits", "steps": steps + [{"o": "load"}, {"o": "zero"}]}


def big_number(n):
    """<<b, l>> of the small model as a number of up to 32 bits."""
    return pair((n[0] << 31) + stretch(n[1]))


def call(x):
    return dict(x, n=big_number(x["n"])) if "n" in x else x


def check_permits(c):
    m = c.model("MCPermits", dict({"EMIT": "1"}, **({"DEEP": "1"} if c.deep else {})), heap="6g",
                timeout=800)
    reqs = []
    for x in sample(c, m.printed(), tier(c, 15000, 100000)):
        steps = [{"o": "new", "n": big_number(x["init"])}] + [call(s) for s in x["ops"]]
        reqs.append({"op": "permits", "steps": steps + [{"o": "load"}, {"o": "zero"}]})
    c.notes["runs_from_model"] = len(reqs)
    g = Gen(c.rng)
    reqs += [permit_runs(g) for _ in range(tier(c, 5000, 60000))]
    runs = run_all(c, reqs, ("debug", "release"))
    c.conform("TracePermits", runs, kind="permit run", heap="6g", batch=60000)


# --------------------------------------------------------------------------- C16

def utf8(g, lim=255):
    r = g.r
    x = r.random()
    if x < 0.15:
        return []
    if x < 0.22:
        # the first byte that is not ASCII anywhere
        c = g.pick(["é", "ÿ", "€", "𝄞", "\u0080", "\ufeff"]).encode()
        n = r.randrange(0, lim + 1 - len(c))
        return cat([[g.pick([65, 47, 97]), n]] if n else [], lit(c),
                   [[66, r.randrange(0, lim - n - len(c) + 1)]])
    if x < 0.3:
        return lit("é".encode() * r.randrange(1, 5)) if r.random() < 0.5 else \
            cat(lit(b"text/"), lit("ü".encode()))
    if x < 0.5:
        return [[g.pick([65, 97, 126, 127, 1, 0]), g.pick([1, 2, 100, 126, 127, 128, 200, 254, lim])]]
    return lit(bytes(r.randrange(32, 127) for _ in range(r.randrange(1, 30))))


def builder_runs(g):
    r = g.r
    steps = [{"o": "new"}]
    for _ in range(r.randrange(0, 14) if r.random() < 0.98 else r.choice([50, 120, 300])):
        o = g.pick(["resume", "lease", "version", "ka", "lt", "tok", "mm", "dm", "meta", "data"])
        s = {"o": o}
        if o == "version":
            s.update(maj=g.pick([0, 1, 255, 256, 65535]), min=g.pick([0, 1, 2, 255, 256, 65535]))
        elif o in ("ka", "lt"):
            s["v"] = g.octets(4, 31)
        elif o == "tok":
            s["v"] = g.string(g.length(65535))
        elif o in ("mm", "dm"):
            s["v"] = utf8(g)
        elif o in ("meta", "data"):
            s["v"] = g.string(g.length())
        steps.append(s)
    return {"op": "setup", "steps": steps + [{"o": "build"}]}


def check_builder(c):
    m = c.model("MCSetupBuilder", dict({"EMIT": "1"}, **({"DEEP": "1"} if c.deep else {})), heap="6g",
                timeout=800)
    reqs = [{"op": "setup", "steps": [{"o": "new"}] + h + [{"o": "build"}]} for h in
            sample(c, m.printed(), tier(c, 8000, 60000))]
    reqs.append({"op": "setup", "steps": [{"o": "new"}, {"o": "build"}]})
    c.notes["runs_from_model"] = len(reqs)
    g = Gen(c.rng, big=0.001)
    reqs += [builder_runs(g) for _ in range(tier(c, 3000, 40000))]
    runs = run_all(c, reqs, ("debug", "release") if c.deep else ("debug",))
    c.conform("TraceSetupBuilder", runs, kind="builder run", heap="6g")


# --------------------------------------------------------------------------- C27 (and C02)

def value_runs(g):
    r = g.r
    steps = []
    for _ in range(r.randrange(1, 3)):
        steps.append({"o": "new"})
        for _ in range(r.randrange(0, 5)):
            v = g.text() if r.random() < 0.3 else g.letter() if r.random() < 0.4 else g.string(g.length())
            steps.append({"o": g.pick(["data", "meta"]), "v": v})
        steps += [{"o": "build"}, {"o": "look"}]
        if r.random() < 0.1:
            steps += [{"o": "default"}, {"o": "look"}]
    return {"op": "values", "steps": steps}


def small_values(g):
    r = g.r
    steps = []
    for _ in range(10):
        n = g.pick([0, 1, 255, 256, 65535, 65536, MAX24, r.randrange(1 << 24), 1 << r.randrange(24)])
        steps.append({"o": "u24", "v": n})
        steps.append({"o": "version", "maj": r.randrange(65536), "min": r.randrange(65536)})
    return {"op": "values", "steps": steps}


def check_values(c, aspect=None):
    m = c.model("MCPayloadVal", dict({"EMIT": "1"}, **({"DEEP": "1"} if c.deep else {})))
    reqs = [{"op": "values", "steps": h + [{"o": "look"}]} for h in m.printed()]
    reqs.append({"op": "values", "steps": [{"o": "default"}, {"o": "look"}]})
    g = Gen(c.rng, big=0.002)
    reqs += [value_runs(g) for _ in range(tier(c, 3000, 40000))]
    if aspect == "C02":
        reqs += [small_values(g) for _ in range(tier(c, 100, 1000))]
    runs = run_all(c, reqs, ("debug", "release") if c.deep else ("debug",))
    c.conform("TracePayloadVal", runs, {"ASPECT": aspect or c.pid}, kind="payload value run", heap="6g")
