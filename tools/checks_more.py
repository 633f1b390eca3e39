"""Checks that span the parts: independence (C28), delivery from end to end (C29), frames and
payloads as values (C30), memory (C31)."""
import checks_link
import checks_obj
import checks_session
import checks_tables
from checks_obj import chunk_runs, id_runs, message_runs, permit_runs, builder_runs, queue_runs, run_all, sample, \
    tier, value_runs
from checks_session import LONG, Play
from gen_link import Gen, KINDS, MAX24, cat, lit, norm, size, straddle
from vlib import build_exec, outcomes, record


# --------------------------------------------------------------------------- C28

# Which specification a part's run has to satisfy.
SPECS = {
    "link": ("TraceLink", None), "chunks": ("TraceFragment", None), "message": ("TraceFragment", None),
    "queue": ("TraceQueue", None), "ids": ("TraceStreamId", None), "permits": ("TracePermits", None),
    "setup": ("TraceSetupBuilder", None), "values": ("TracePayloadVal", {"ASPECT": "C27"}),
    "session": ("TraceSession", {"ASPECT": "ALL"}), "tables": ("TraceTables", None), "twins": ("TraceTwins", None),
}


def one_session(c, g):
    """A session whose time limit is never reached."""
    p = Play(c, g)
    run = c.rng.choice([checks_session.run_fnf, checks_session.run_par, checks_session.run_push,
                        checks_session.run_status])
    steps = [s for s in run(p) if s["o"] != "end"]
    steps[0]["timeout"] = LONG
    if any(s["o"] == "begin" for s in steps):
        # A push that waits goes on waiting while others take their turns: its time is not the session's own.
        for s in steps:
            for a in s["list"] if s["o"] == "answers" else ():
                a["after"] = 0
    return {"op": "session", "steps": steps}


def part(c, g, kind):
    if kind == "link":
        if c.rng.random() < 0.15:
            # frames whose encoding is refused, and what comes after them
            return dict(checks_link.refused(g), aspect="C02")
        pid = c.rng.choice(["C01", "C02", "C04"])
        q = checks_link.rnd(pid, g)
        return dict(q, aspect=pid)
    if kind == "session":
        return one_session(c, g)
    if kind == "tables":
        steps = c.rng.choice(c.lookups)
        return {"op": "tables", "steps": [c.rng.choice(steps) for _ in range(c.rng.randrange(1, 6))]}
    if kind == "twins":
        return twin_runs(g)
    return {"chunks": chunk_runs, "message": message_runs, "queue": queue_runs, "ids": id_runs,
            "permits": permit_runs, "setup": builder_runs, "values": value_runs}[kind](g)


def parts(c, g, orders):
    r = c.rng
    kinds = list(SPECS)
    x = r.random()
    if x < 0.35:        # several of a kind
        ks = [r.choice(["session", "session", "ids", "permits", "link", "queue", "message"])] * r.randrange(2, 6)
    else:
        ks = [r.choice(kinds) for _ in range(r.randrange(2, 7))]
    reqs = [part(c, g, k) for k in ks]
    if r.random() < 0.5:
        turns = [t - 1 for t in r.choice(orders) if t - 1 < len(reqs)]
    else:
        turns = [i for i, q in enumerate(reqs) for _ in q["steps"]]
        r.shuffle(turns)
    return {"op": "among", "mode": "turns" if r.random() < 0.75 else "threads", "reqs": reqs, "turns": turns}


def storm(c, g):
    """Threads that do the same over and over, so that they meet within it."""
    r = c.rng
    kind = r.choice(["tables", "tables", "tables", "twins", "link", "link", "chunks", "message", "queue", "ids",
                     "permits", "setup", "values", "session"])
    kinds = [kind] * r.randrange(2, 5) if r.random() < 0.85 else [kind, r.choice(["link", "chunks", "setup", "message"])]
    reqs = [part(c, g, k) for k in kinds]
    reqs = [q if len(str(q)) < 20000 and "16777216" not in str(q) else part(c, g, "chunks") for q in reqs]
    if kinds[0] == kinds[-1] == "tables":
        # a few lookups, most of them with something to be found
        steps = r.choice(c.lookups)
        few = [r.choice(steps[:60] if r.random() < 0.7 else steps) for _ in range(r.randrange(2, 5))]
        reqs = [{"op": "tables", "steps": [r.choice(few) for _ in range(r.choice([1, 1, 1, 2, 3]))]} for _ in kinds]
    elif r.random() < 0.25:
        reqs[0] = reqs[-1]
    # The requests of threads of a session's own are left out: there are threads enough.
    reqs = [dict(q, steps=[s for s in q["steps"] if s["o"] != "par"]) if q["op"] == "session" else q for q in reqs]
    return {"op": "among", "mode": "storm", "reqs": reqs, "turns": []}


def check_among(c):
    m = c.model("MCAmong", {"EMIT": "1"})
    orders = m.printed()
    c.notes["orders_of_the_model"] = len(orders)
    g = Gen(c.rng, big=0.0005)
    slow = ("u24", "u24over", "words", "values")
    c.lookups = [[s for s in f(c) if s["o"] not in slow and len(str(s)) < 5000]
                 for f in checks_tables.STEPS.values()]
    reqs = [parts(c, g, orders) for _ in range(tier(c, 1200, 12000))]
    reqs += [storm(c, g) for _ in range(tier(c, 240, 3000))]
    apart = {}
    n = at = 0
    for p, b in build_exec(("debug", "release") if c.deep else ("debug",)).items():
        for r in record_nested(b, p, reqs):
            for q, got in r:
                kind = (q["op"], q.get("aspect"))
                run = {"id": n, "req": q, "profile": p, "steps": []}
                if isinstance(got, dict):
                    run["dead"] = got["t"]
                else:
                    run["steps"] = [dict(s, r=x) for s, x in zip(q["steps"], got)]
                apart.setdefault(kind, []).append(run)
                n += 1
            at += 1
    c.notes["runs_together"] = at
    for (op, aspect), runs in sorted(apart.items(), key=str):
        spec, env = SPECS[op]
        c.notes.setdefault("outcomes", {})[op + (aspect or "")] = outcomes(runs)
        c.conform(spec, runs, {"ASPECT": aspect} if aspect else env, kind="%s run among others" % op, heap="6g",
                  batch=5000)


def record_nested(binary, profile, reqs):
    """For every request, its parts with what the code gave for each."""
    for r in record(binary, profile, reqs, nested=True):
        q = r["req"]
        if r.get("dead"):
            yield [(x, {"t": r["dead"]}) for x in q["reqs"]]
        else:
            yield list(zip(q["reqs"], r["results"]))


# --------------------------------------------------------------------------- C29

def heard(c, q):
    """The run with somebody at the other end of the connection."""
    r = c.rng
    first = dict(q["steps"][0])
    first["kind"] = r.choice(["bytes", "queue", "multi"])
    first["cuts"] = sorted(r.randrange(1, r.choice([8, 12, 40])) for _ in range(r.randrange(0, 5))) \
        if first["kind"] != "bytes" else []
    first["timeout"] = LONG
    return {"op": "session", "steps": [first] + q["steps"][1:]}


def check_delivery(c):
    for lane in ("fnf", "par"):
        c.model("MCDelivery", {"LANE": lane, "FULL": "1"}, heap="6g", timeout=800)
    g = Gen(c.rng, big=0.01)
    reqs = []
    for lane, run, many in (("C18", checks_session.run_fnf, checks_session.many_fnf),
                            ("C19", checks_session.run_par, checks_session.many_par)):
        xs = sample(c, checks_session.histories(c, lane), tier(c, 400, 4000))
        reqs += [checks_session.from_model(c, x, lane) for x in xs]
        reqs += [{"op": "session", "steps": run(Play(c, g))} for _ in range(tier(c, 400, 6000))]
        reqs += [{"op": "session", "steps": x} for x in many(c, g)]
    reqs = [heard(c, q) for q in reqs]
    runs = run_all(c, reqs, ("debug", "release") if c.deep else ("debug",))
    c.notes["messages_delivered"] = sum(len(s["r"].get("arrived", ())) for r in runs for s in r["steps"])
    for r in runs:      # not looked at
        for s in r["steps"]:
            s["r"].pop("log", None)
    c.conform("TraceDelivery", runs, kind="delivery run", heap="6g", batch=5000)
    c.assumptions += ["The receiver decodes with the code under test, and puts together with its hooks."]


# --------------------------------------------------------------------------- C30

def nearly(r, s):
    """The same bytes but for one, or two that changed places, or one more or less."""
    n = size(s)
    if n == 0:
        return [[r.randrange(256), 1]]
    i = r.choice([0, n - 1, n // 2, r.randrange(n), r.randrange(n)])
    at = lambda k: next(v for v, e in _ends(s) if k < e)  # noqa
    x = r.random()
    if x < 0.6 or n < 2:
        return norm(cat(head(s, i), [[at(i) ^ (1 << r.randrange(8)), 1]], tail(s, i + 1)))
    if x < 0.8:
        j = r.randrange(n)
        i, j = min(i, j), max(i, j)
        if i == j or at(i) == at(j):
            return norm(cat(head(s, i), [[at(i) ^ 1, 1]], tail(s, i + 1)))
        return norm(cat(head(s, i), [[at(j), 1]], head(tail(s, i + 1), j - i - 1), [[at(i), 1]], tail(s, j + 1)))
    if x < 0.9:
        return norm(cat(head(s, i), tail(s, i + 1)))
    return norm(cat(head(s, i), [[r.randrange(256), 1]], tail(s, i)))


def _ends(s):
    e = 0
    for v, k in s:
        e += k
        yield v, e


def head(s, n):
    out = []
    for v, k in s:
        if n <= 0:
            break
        out.append([v, min(k, n)])
        n -= k
    return out


def tail(s, n):
    out = []
    for v, k in s:
        if n < k:
            out.append([v, k - max(n, 0)])
        n -= k
    return out


def long_part(g):
    """Of a few KiB or more, of several runs."""
    r = g.r
    n = r.choice([100, 1000, 2000, 4096, 5000, 9000, 20000, 65536, 70000])
    return norm([[r.randrange(256), max(1, n // 4 + r.randrange(-9, 9))] for _ in range(4)])


def change(g, a):
    """The same arguments but for one or two."""
    r = g.r
    b = dict(a)
    fields = [x for x in a if x != "k"]
    other = g.args(a["k"])
    for _ in range(r.choice([1, 1, 1, 2])):
        x = r.choice(fields)
        v = b[x]
        y = r.random()
        if isinstance(v, bool):
            b[x] = not v
        elif isinstance(v, list) and len(v) in (4, 8) and all(isinstance(k, int) for k in v) and y < 0.6:
            # one bit
            k = r.randrange(8 * len(v))
            w = list(v)
            w[k // 8] ^= 1 << k % 8
            if x != "code":
                w[0] &= 127
            b[x] = w if any(w) or x not in ("n",) else v
        elif isinstance(v, list) and v and y < 0.6 and not isinstance(v[0], int):
            # one byte of a part
            opt = not (v[0] and isinstance(v[0][0], int))
            s = [list(z) for z in (v[0] if opt else v)]
            if s and x not in ("mm", "dm"):
                t = nearly(r, s)
                b[x] = [t] if opt else t
            else:
                b[x] = other[x]
        elif v == [] and y < 0.5 and x in ("meta", "data", "tok") and (a["k"], x) not in (
                ("METADATA_PUSH", "meta"), ("RESUME", "tok")):
            b[x] = [[]]
        else:
            b[x] = other[x]
    return b


def small_value(g, k):
    r = g.r
    if k == "fault":
        e = r.choice(["InComplete", "UnrecognizedFrameType", "InvalidStreamId"])
        return {"e": e, "code": r.choice([0, 15, 16, 63, 255]) if e == "UnrecognizedFrameType" else 0,
                "want": r.choice(["0", "non-zero", "> 0"]) if e == "InvalidStreamId" else "",
                "got": r.choice([0, 1, 2, 255, 256, 65536, (1 << 31) - 1]) if e == "InvalidStreamId" else 0}
    if k == "status":
        x = r.choice(["Unconnected", "Connecting", "Connected", "Closed", "Error", "Error"])
        return {"s": x, "m": r.choice(["", " ", "a", "A", "b", "closed", "a" * 300, "a" * 300 + "b", "\u00e9", straddle(r)])
                if x == "Error" else ""}
    if k == "version":
        return [r.choice([0, 1, 2, 255, 256, 65535]), r.choice([0, 1, 2, 255, 256, 65535])]
    if k == "u24":
        return g.pick([0, 1, 255, 256, 65535, 65536, 65537, (1 << 24) - 1, (1 << 24) - 256])
    if k == "flags":
        return r.randrange(1024)
    return r.randrange({"code": 10, "mime": 48, "type": 15}[k])


def small_twins(g):
    k = g.r.choice(["fault", "status", "version", "u24", "flags", "code", "mime", "type"])
    a = small_value(g, k)
    b = a if g.r.random() < 0.2 else small_value(g, k)
    if g.r.random() < 0.3 and k in ("fault", "status"):
        b = dict(a, **{x: v for x, v in small_value(g, k).items() if x in ("code", "want", "got", "m")})
        b = b if small(k, b) else a
    return {"o": "values", "k": k, "a": a, "b": b}


def small(k, v):
    """Whether it is a value: what is about nothing else stays empty."""
    if k == "status":
        return v["s"] == "Error" or v["m"] == ""
    return ((v["e"] == "UnrecognizedFrameType" or v["code"] == 0)
            and (v["e"] == "InvalidStreamId") == (v["want"] != "") and (v["e"] == "InvalidStreamId" or v["got"] == 0))


def twin_runs(g):
    r = g.r
    steps = []
    for _ in range(r.randrange(1, 4)):
        if r.random() < 0.25:
            steps += [small_twins(g) for _ in range(r.randrange(1, 9))]
            continue
        if r.random() < 0.25:
            part = lambda: [] if r.random() < 0.25 else [g.string(g.length() % 50)] if r.random() < 0.8 \
                else [g.letter()] if r.random() < 0.5 else [g.string(g.length())]  # noqa
            m, d = part(), part()
            m2, d2 = (m, d) if r.random() < 0.3 else (m, part()) if r.random() < 0.4 else \
                (part(), d) if r.random() < 0.5 else (d, m)
            if r.random() < 0.4:
                # long ones, next to the same
                m, d = r.choice([([], [long_part(g)]), ([long_part(g)], []), ([long_part(g)], [long_part(g)])])
                m2, d2 = m, d
                if d and r.random() < 0.6:
                    d2 = [nearly(r, d[0])]
                elif m:
                    m2 = [nearly(r, m[0])]
            steps.append({"o": "payloads", "m": m, "d": d, "m2": m2, "d2": d2})
            continue
        a = g.args()
        if r.random() < 0.15:
            x = r.choice([x for x in ("meta", "data") if x in a] or [None])
            if x and isinstance(a[x], list) and (a["k"], x) not in (("METADATA_PUSH", "meta"),):
                a = dict(a, **{x: [long_part(g)]})
                steps.append({"o": "frames", "a": a, "b": dict(a, **{x: [nearly(r, a[x][0])]})})
                continue
        x = r.random()
        b = a if x < 0.2 else change(g, a) if x < 0.85 else g.args(a["k"]) if x < 0.95 else g.args()
        steps.append({"o": "frames", "a": a, "b": b})
    return {"op": "twins", "steps": steps}


def check_twins(c):
    m = c.model("MCTwins", dict({"EMIT": "1"}, **({"DEEP": "1"} if c.deep else {})), heap="6g", timeout=800)
    pairs = sample(c, m.printed(), tier(c, 9000, 60000))
    reqs = [{"op": "twins", "steps": [dict({"o": "frames"}, **x)]} for x in pairs]
    c.notes["runs_from_model"] = len(reqs)
    g = Gen(c.rng, big=0.002)
    reqs += [twin_runs(g) for _ in range(tier(c, 4000, 40000))]
    runs = run_all(c, reqs, ("debug", "release") if c.deep else ("debug",))
    c.conform("TraceTwins", runs, kind="comparison", heap="6g")


# --------------------------------------------------------------------------- C31

def boasts(g):
    """The beginnings of frames that claim to be, or to hold, more than there is."""
    r = g.r
    out = []
    big = lambda n: list(r.choice([(1 << 8 * n) - 1, (1 << 8 * n - 1), (1 << 8 * n - 1) - 1,  # noqa
                                   r.randrange(1 << 8 * n)]).to_bytes(n, "big"))
    for k in KINDS:
        for fl in (0, 256, 256 | 128, 1023):
            w = 1024 * (KINDS.index(k) + 1) + fl
            head = cat(lit([0, 0, 0, 0 if k in ("SETUP", "LEASE", "KEEPALIVE", "METADATA_PUSH", "RESUME", "RESUME_OK")
                            else 1]), lit([w >> 8, w & 255]))
            rest = {"SETUP": [[0, 1, 0, 0] + big(4) + big(4) + (big(2) if fl & 128 else [3] + [65] * 3 + [1, 65] + big(3))],
                    "RESUME": [[0, 1, 0, 0] + big(2)], "LEASE": [big(4) + big(4)], "KEEPALIVE": [big(8)],
                    "REQUEST_STREAM": [big(4) + big(3)], "REQUEST_CHANNEL": [big(4) + big(3)],
                    "REQUEST_N": [big(4)], "ERROR": [big(4)], "RESUME_OK": [big(8)]}.get(k, [big(3)])[0]
            out.append(cat(head, lit(rest)))
            out.append(cat(head, lit(rest), g.string(r.randrange(0, 300))))
            out.append(cat(head, lit([r.choice([255, 128, r.randrange(256)]) for _ in range(r.randrange(0, 40))])))
    return out


def decodes(g, b):
    r = g.r
    kind = r.choice(["bytes", "slice", "queue", "multi"])
    return {"o": "decode", "b": b, "kind": kind, "cuts": g.cuts() if kind in ("queue", "multi") else [],
            "times": r.choice([30, 200]) if size(b) < 3000 else 3}


def often(a):
    """How often something is done with these parts."""
    n = sum(size(v[0]) if isinstance(v[0][0] if v[0] else [], list) else size(v)
            for x, v in a.items() if x in ("m", "d", "meta", "data") and v)
    return 100 if n < 3000 else 3


def weight(steps):
    """At least as much as the run's steps, their frames and what is noted of them may take."""
    n = 0
    for s in steps:
        n += 6000
        for x in ("m", "d"):
            v = s.get(x, [])
            v = v[0] if s["o"] == "fnf" and v else v
            n += 3 * size(v) if v else 0
        n += sum(3 * len(y["m"]) for y in s.get("list", []) if s["o"] == "status")
    return n


def weigh_runs(c, g):
    r = g.r
    x = r.random()
    if x < 0.45:
        b = g.wild() if r.random() < 0.5 else g.wire()
        return [decodes(g, b)]
    if x < 0.65:
        a = g.args()
        return [{"o": "encode", "a": a, "times": often(a)}]
    if x < 0.8:
        n = r.choice([1, 2, 7, 64, 1000, 65536, MAX24, -1, -2, -3, (1 << 31) - 1])
        m, d = g.part(max(1, n) * 2000 if n > 0 else None), g.part(max(1, n) * 2000 if n > 0 else None)
        return [{"o": "cut", "m": m, "d": d, "n": n, "times": often({"m": m, "d": d})}]
    if x < 0.9:
        k = r.choice([1, 2, 3, 10, 100, 300])
        frames = [dict(g.args("PAYLOAD"), sid=[0, 0, 0, 1], meta=g.part(200), data=g.part(200)) for _ in range(k)]
        for f in frames:
            f["fl"] |= 128
        return [{"o": "join", "frames": frames, "times": 100 if k < 20 else 3}]
    return [session_weight(c, g)]


def session_weight(c, g):
    r = g.r
    p = Play(c, g)
    mtu = r.choice([None, 1, 7, 100])
    first = [checks_session.new(server=r.random() < 0.5, mtu=[] if mtu is None else [mtu])]
    body = []
    small = lambda: {"o": "fnf", "m": g.part(40), "d": g.part(400)}  # noqa
    for _ in range(r.randrange(1, 5)):
        x = r.random()
        if x < 0.4:
            body.append(small())
        elif x < 0.55:
            body += [{"o": "refuse", "left": r.choice([0, 0, 1, 2]), "kind": r.choice(checks_session.KINDS), "cause": []},
                     small(), small()]
        elif x < 0.7:
            body.append({"o": "push", "m": g.string(r.randrange(0, 300))})
        elif x < 0.76:
            body += [{"o": "answers", "list": [{"t": "err", "kind": r.choice(checks_session.KINDS), "cause": [], "after": 0}]},
                     {"o": "push", "m": [[1, 5]]}]
        elif x < 0.79:
            body.append({"o": "status", "list": [{"s": r.choice(checks_session.STATUSES + ["Error"]), "m": "m" * r.choice([0, 1, 9, 100, 300])}
                                                 for _ in range(r.randrange(1, 4))]})
        elif x < 0.86:
            body += [{"o": "clone"}, {"o": "fnf", "m": [], "d": [], "on": 1}]
            break
        elif x < 0.93:
            i = 2 * r.randrange(1, 10 ** 9) + 1
            body += [{"o": "occupy", "id": checks_obj.pair(i)}, small(), {"o": "release", "id": checks_obj.pair(i)}]
        else:
            body.append({"o": "close"})
    return {"o": "session", "first": first, "body": body, "times": r.choice([20, 60, 400]), "size": weight(body)}


def check_memory(c):
    c.model("MCResources", {"DEEP": "1"} if c.deep else {})
    g = Gen(c.rng, big=0.02)
    steps = [decodes(g, b) for _ in range(tier(c, 4, 40)) for b in boasts(g)]
    reqs = [{"op": "weigh", "steps": [s]} for s in steps]
    c.notes["frames_that_claim_too_much"] = len(reqs)
    reqs += [{"op": "weigh", "steps": weigh_runs(c, g)} for _ in range(tier(c, 1500, 20000))]
    runs = run_all(c, reqs, ("debug", "release") if c.deep else ("debug",))
    most = {}
    for x in (s for q in runs for s in q["steps"]):
        k = x["o"]
        most[k] = [max(a, b) for a, b in zip(most.get(k, [0, 0, 0]), (
            x["r"]["peak"], x["r"]["kept"],
            100 * x["r"]["peak"] // (4096 + 256 * x["r"]["count"] + 4 * x["r"]["size"])))]
    c.notes["most_taken_kept_percent_of_bound"] = most
    c.conform("TraceResources", runs, kind="use of memory", heap="6g", by=1 << 29)
    c.assumptions += ["Memory is counted at the allocator, on the thread at work; a session's count includes what "
                      "its stand-ins take."]
