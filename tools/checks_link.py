"""Checks of the frame codec: C01..C08 and C17."""
from gen_link import Gen, KINDS
from vlib import build_exec, outcomes, record


def seg(g):
    return {"o": "seg", "cuts": g.cuts()}


def rnd(pid, g):
    """A random run for the given property."""
    r = g.r
    steps, kinds = [], []
    for _ in range(r.randrange(1, 4)):
        if pid in ("C01", "C02", "C03"):
            steps.append({"o": "send", "a": g.args()})
        elif pid == "C17":
            steps.append({"o": "send", "a": g.edge_args() if r.random() < 0.8 else g.args()})
        elif pid == "C05":
            steps.append({"o": "inject", "b": g.wild()})
        elif pid in ("C04", "C06"):
            kinds.append(g.pick(KINDS))
            steps.append({"o": "inject", "b": g.wire(kinds[-1])})
        else:
            steps.append({"o": "inject", "b": g.wire()} if r.random() < 0.8
                         else {"o": "send", "a": g.args()})
    for _ in range(len(steps)):
        if pid in ("C05", "C07", "C08") and r.random() < 0.5:
            for _ in range(r.randrange(1, 3)):
                steps.append({"o": "cut", "f": r.randrange(1000)} if r.random() < 0.5
                             else {"o": "poke", "i": r.randrange(40),
                                   "v": g.pick([0, 1, 2, 64, 127, 128, 255, r.randrange(256)])})
        if pid == "C04" and r.random() < 0.5:
            steps.append({"o": "poke", "i": r.randrange(18), "v": r.randrange(256)})
        if pid == "C06" and r.random() < 0.5:
            steps.append({"o": "poke", "i": r.randrange(12),
                          "v": g.pick([0, 1, 2, 3, 4, 128, 129])})
        if pid == "C07":
            steps += [seg(g), seg(g)]
        if pid == "C08":
            steps += [{"o": "relay"}] * r.randrange(1, 4)
        if pid in ("C01", "C02", "C05") and r.random() < 0.25:
            steps.append({"o": "relay"})
        if pid in ("C04", "C05", "C06") and r.random() < 0.4:
            k = kinds.pop(0) if kinds and r.random() < 0.9 else g.pick(KINDS)
            steps.append({"o": "body", "k": k, "sid": g.pick([[0, 0, 0, 0], g.sid()]),
                          "fl": 32 * r.randrange(32)})
        steps.append({"o": "recv"})
    return {"op": "link", "steps": steps}


def refused(g):
    """Sends of what cannot be encoded, with others before and after."""
    r = g.r
    steps = []
    for _ in range(r.randrange(2, 5)):
        a = g.args(r.choice(KINDS)) if r.random() < 0.5 else g.edge_args()
        if r.random() < 0.4:
            a = dict(g.args(r.choice(["REQUEST_FNF", "PAYLOAD", "REQUEST_STREAM", "SETUP"])),
                     meta=[[[r.randrange(256), (1 << 24) + r.choice([0, 0, 1])]]])
        steps.append({"o": "send", "a": a})
    return {"op": "link", "steps": steps + [{"o": "send", "a": g.args()}]}


MODEL = {
    "C01": {"ARGS": "1"}, "C02": {"ARGS": "1"}, "C03": {"ARGS": "1"},
    "C04": {"WILD": "1", "SCOPE": "1"}, "C05": {"WILD": "1", "CUTS": "1"}, "C06": {"SCOPE": "1"},
    "C07": {"CUTS": "1", "SCOPE": "1"}, "C08": {"WILD": "1", "CUTS": "1"}, "C17": {"RANGE": "1"},
}
# The steps of the emitted runs that matter to a property.
KEEP = {
    "C01": {"send", "recv"}, "C02": {"send", "relay"}, "C03": {"send"},
    "C04": {"inject", "send", "recv"}, "C05": {"inject", "send", "recv"},
    "C06": {"inject", "recv"}, "C07": {"inject", "send", "seg"},
    "C08": {"inject", "send", "relay"}, "C17": {"send", "recv"},
}
QUICK, DEEP = 2500, 40000


def check(c):
    pid = c.pid
    both = pid in ("C05", "C17") or c.deep
    bins = build_exec(("debug", "release") if both else ("debug",))
    env = dict(MODEL[pid], EMIT="1")
    if c.deep:
        env["DEEP"] = "1"
    m = c.model("MCLink", env, timeout=800, heap="6g" if c.deep else "3g")
    reqs = []
    for steps in m.printed():
        if steps[0]["o"] not in KEEP[pid]:
            continue
        steps = [s for s in steps if s["o"] in KEEP[pid]]
        reqs.append({"op": "link", "steps": steps})
    g = Gen(c.rng, big=0.004 if not c.deep else 0.01)
    n = DEEP if c.deep else QUICK
    reqs += [rnd(pid, g) for _ in range(n)]
    c.notes["runs_from_model"] = len(reqs) - n
    c.notes["random_runs"] = n
    runs = []
    for i, (p, b) in enumerate(bins.items()):
        runs += record(b, p, reqs, start=i * len(reqs))
    c.notes["outcomes"] = outcomes(runs)
    c.conform("TraceLink", runs, {"ASPECT": pid}, kind="codec run")
