"""Checks of concurrent use: C13 (stream ids) and C15 (permits).

Small programs run under every schedule loom finds, larger ones on real threads; every distinct
history is validated against the specification: some sequential order has to explain it."""
from checks_obj import MAX31, big_number, call, pair, sample, stretch, tier
from gen_link import Gen
from vlib import LEVEL, MISSING, build_exec, build_loom, execute, log, record


def explored(c, progs, history):
    """Distinct histories of each program over all schedules."""
    b = build_loom()
    if b is None:
        c.notes["schedules"] = "not available: the code does not build with loom's atomics"
        return []
    if "ids" in MISSING[LEVEL[b]]:
        progs = [p for p in progs if p.get("side") != "at"]
    runs, total, cut = [], 0, 0
    for i, (p, r) in enumerate(zip(progs, execute(b, progs, hang=120))):
        if r is None or "hist" not in r:
            cut += 1
            continue
        total += r["schedules"]
        for k, h in enumerate(r["hist"]):
            runs.append({"id": i * 100000 + k, "req": p, "profile": "loom", "steps": history(p, h)})
        if r["died"]:
            # loom's own limits say nothing about the code
            if any(x in r["died"] for x in ("Model exceeded", "loom-", "deadlock")):
                cut += 1
            else:
                runs.append({"id": i * 100000 + 99999, "req": p, "profile": "loom", "steps": [],
                             "dead": "panic: " + r["died"]})
    c.notes["schedules"] = {"programs": len(progs), "schedules_explored": total,
                            "distinct_histories": len(runs), "programs_cut_short": cut}
    if cut:
        log("%s: %d of %d programs were not explored to the end" % (c.pid, cut, len(progs)))
    return runs


def stressed(c, reqs):
    runs = record(build_exec(("debug",))["debug"], "threads", reqs, start=10 ** 8)
    runs += record(build_exec(("release",))["release"], "threads", reqs, start=2 * 10 ** 8)
    # the same history again needs no second look
    seen, out = set(), []
    for r in runs:
        k = repr(r["steps"])
        if k not in seen or r.get("dead"):
            seen.add(k)
            out.append(r)
    c.notes["rounds_on_threads"] = len(runs)
    return out


# --------------------------------------------------------------------------- C13

def ids_history(p, h):
    ok = lambda **k: dict({"t": "ok"}, **k)  # noqa
    steps = [{"o": "new", "side": p["side"], "at": p["at"], "r": ok()}]
    steps += [{"o": "occupy", "id": i, "r": ok()} for i in p["used"]]
    steps.append({"o": "par", "todo": p["todo"], "r": ok(got=h["got"])})
    return steps + [{"o": "next", "r": ok(id=h["after"])}]


def starts(g):
    r = g.r
    return g.pick([1, 2, MAX31 - r.randrange(0, 12), r.randrange(0, 20), (1 << r.randrange(3, 31)) - r.randrange(0, 8),
                   r.randrange(1 << 31)])


def check_ids(c):
    env = {"PAR": "1", "EMIT": "1"}
    m = c.model("MCStreamId", dict(env, **({"DEEP": "1"} if c.deep else {})), heap="6g", timeout=800)
    progs = []
    for x in sample(c, [y for y in m.printed() if sum(y["todo"]) > 1], tier(c, 500, 4000)):
        at = stretch(x["at"]) | (c.rng.randrange(2) << 31)
        progs.append({"op": "ids", "side": "at", "at": pair(at), "bound": [], "ms": 3000,
                      "used": [pair(stretch(i)) for i in x["used"]],
                      "todo": [k for k in x["todo"] if k]})
    c.notes["programs_from_model"] = len(progs)
    g = Gen(c.rng)
    reqs = []
    for i in range(tier(c, 150, 1500)):
        at = starts(g)
        used = sorted({(at + 2 * c.rng.randrange(0, 9)) & MAX31 for _ in range(c.rng.randrange(0, 5))} - {0})
        todo = [c.rng.randrange(1, 3) for _ in range(c.rng.randrange(2, 4))]
        progs.append({"op": "ids", "side": g.pick(["client", "server", "at"]), "at": pair(at),
                      "used": [pair(u) for u in used], "todo": todo, "ms": 3000, "bound": []})
    for _ in range(tier(c, 40, 600)):
        at = g.pick([1, 2, MAX31 - c.rng.randrange(0, 900), starts(g)])
        used = {(at + 2 * c.rng.randrange(0, 600)) & MAX31 for _ in range(c.rng.randrange(0, 40))} - {0}
        k = c.rng.randrange(2, 9) if c.rng.random() < 0.8 else g.pick([12, 16, 17, 24, 32])
        reqs.append({"op": "ids", "steps":
                     [{"o": "new", "side": g.pick(["client", "server", "at", "at"]), "at": pair(at)}]
                     + [{"o": "occupy", "id": pair(u)} for u in sorted(used)]
                     + [{"o": "par", "todo": [c.rng.randrange(50, 200) // (1 + k // 10) for _ in range(k)]},
                        {"o": "next"}]})
    for _ in range(tier(c, 24, 300)):           # a rush of threads
        side = g.pick(["client", "server", "at", "at"])
        at = {"client": 1, "server": 2}.get(side) or g.pick([MAX31 - c.rng.randrange(0, 60000), starts(g)])
        k = c.rng.randrange(2, 17)
        n = g.pick([500, 5000, 20000])
        # runs of ids in use, too
        used = {(at + 2 * (i + j)) & MAX31 for i in [c.rng.randrange(0, 2 * n) for _ in range(c.rng.randrange(0, 12))]
                for j in range(g.pick([1, 1, 3, 9, 20]))} - {0}
        reqs.append({"op": "ids", "steps":
                     [{"o": "new", "side": side, "at": pair(at)}] + [{"o": "occupy", "id": pair(u)} for u in sorted(used)]
                     + [{"o": "rush", "at": pair(at), "todo": [n // k + 1 for _ in range(k)]}, {"o": "next"}]})
    runs = explored(c, progs, ids_history) + stressed(c, reqs)
    c.conform("TraceStreamId", runs, kind="concurrent allocation", heap="6g", batch=40000)


# --------------------------------------------------------------------------- C15

def permits_history(p, h):
    ok = lambda **k: dict({"t": "ok"}, **k)  # noqa
    return [{"o": "new", "n": p["init"], "r": ok()},
            {"o": "par", "calls": p["calls"], "r": ok(got=h["got"])},
            {"o": "load", "r": ok(v=h["after"])}]


def rnd_calls(g, n, adds):
    r = g.r
    num = lambda: pair(g.pick([0, 1, 2, 3, 7, MAX31 - 1, MAX31, MAX31 + 1, (1 << 32) - 1]))  # noqa
    one = lambda: {"o": "take"} if r.random() > adds else {"o": "add", "n": num()} \
        if r.random() < 0.8 else {"o": g.pick(["zero", "load"])}  # noqa
    return [one() for _ in range(n)]


def long_round(g):
    """Many takes and some additions, each addition so much larger than all the takes and different
    from the sums of the others that every count that is returned tells what came before it: there
    is next to nothing for TLC to search."""
    r = g.r
    k = r.randrange(2, 7) if r.random() < 0.8 else r.choice([12, 16, 17, 24, 32])
    calls = [[{"o": "take"} for _ in range(r.randrange(50, 200) // (1 + k // 10))] for _ in range(k)]
    sizes = [1 << i for i in range(11, 11 + r.choice([0, 5, 12, 18]))]
    r.shuffle(sizes)
    for n in sizes:
        p = calls[r.randrange(k)]
        p.insert(r.randrange(len(p) + 1), {"o": "add", "n": pair(n)})
    return [{"o": "new", "n": pair(g.pick([0, 100, 5000, 1 << 20, r.randrange(1 << 30)]))},
            {"o": "par", "calls": calls}, {"o": "load"}]


def check_permits(c):
    env = {"PAR": "1", "EMIT": "1"}
    m = c.model("MCPermits", dict(env, **({"DEEP": "1"} if c.deep else {})), heap="6g", timeout=800)
    progs = []
    for x in sample(c, m.printed(), tier(c, 600, 5000)):
        progs.append({"op": "permits", "init": big_number(x["init"]), "ms": 3000, "bound": [],
                      "calls": [[call(s) for s in p] for p in x["calls"]]})
    c.notes["programs_from_model"] = len(progs)
    g = Gen(c.rng)
    r = c.rng
    for _ in range(tier(c, 200, 2000)):
        k = r.randrange(2, 4)
        progs.append({"op": "permits", "init": pair(g.pick([0, 1, 2, 5, MAX31 - 2, MAX31])),
                      "calls": [rnd_calls(g, r.randrange(1, 3), 0.5) for _ in range(k)],
                      "ms": 3000, "bound": [] if k == 2 else [3]})
    reqs = []
    for _ in range(tier(c, 2500, 30000)):       # short mixed rounds
        reqs.append({"op": "permits", "steps": [
            {"o": "new", "n": pair(g.pick([0, 1, 3, MAX31 - 3, MAX31]))},
            {"o": "par", "calls": [rnd_calls(g, r.randrange(1, 5), 0.5) for _ in range(r.randrange(2, 4))]},
            {"o": "load"}]})
    for _ in range(tier(c, 60, 600)):           # longer ones of two threads
        reqs.append({"op": "permits", "steps": [
            {"o": "new", "n": pair(g.pick([0, 1, 30, MAX31 - 30, MAX31]))},
            {"o": "par", "calls": [rnd_calls(g, r.randrange(10, 40), g.pick([0, 0.2, 0.5, 1])) for _ in range(2)]},
            {"o": "load"}]})
    for _ in range(tier(c, 60, 600)):
        reqs.append({"op": "permits", "steps": long_round(g)})
    for _ in range(tier(c, 40, 600)):           # a rush of threads
        k = r.randrange(2, 17)
        n = g.pick([500, 5000, 20000])
        adds = g.pick([0, 0.3, 0.7, 1])
        calls = [{"o": "add", "n": pair(g.pick([0, 1, 1, 3, 50])), "k": n // k} if r.random() < adds
                 else {"o": "take", "k": n // k} for _ in range(k)]
        most = sum(x["k"] * (x["n"][0] * 65536 + x["n"][1]) for x in calls if x["o"] == "add")
        reqs.append({"op": "permits", "steps": [
            {"o": "new", "n": pair(g.pick([0, 10, n, MAX31 - most, r.randrange(1 << 30)]))},
            {"o": "rush", "calls": calls}, {"o": "load"}]})
    runs = explored(c, progs, permits_history) + stressed(c, reqs)
    c.conform("TracePermits", runs, kind="concurrent permit use", heap="6g", batch=40000)
