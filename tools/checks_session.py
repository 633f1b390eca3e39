"""Checks of sessions: fire and forget (C18), concurrent requests (C19), metadata push and close
(C20), status watch (C21), keepalive watch (C22)."""
import os

from checks_obj import MAX31, pair, run_all, sample, tier
from gen_link import Gen, MAX24, norm, size, straddle
from vlib import VERIF, log, outcomes, validate

LANE = {"C18": "fnf", "C19": "par", "C20": "push", "C21": "status", "C22": "keep"}
LONG = 10 ** 8
KINDS = ["Io", "InvalidSetup", "UnsupportedSetup", "RejectedSetup", "RejectedResume",
         "ConnectionError", "ConnectionClose", "ApplicationError", "Rejected", "Canceled", "Invalid"]
STATUSES = ["Unconnected", "Connecting", "Connected", "Closed", "Error"]


def new(**k):
    return dict({"o": "new", "server": False, "mtu": [], "ids": [], "timeout": LONG,
                 "status": {"s": "Connected", "m": ""}}, **k)


# --------------------------------------------------------------------------- from the model

def from_model(c, x, pid=None):
    """A history of the model as a run for the real code."""
    pid = pid or c.pid
    r = c.rng
    unit = r.choice([1, 2, 5, 1000, 12345, 10 ** 7])
    steps = [new(mtu=x["mtu"], timeout=2 * unit if pid == "C22" else LONG,
                 server=x["start"] % 2 == 0 and x["start"] > 0)]
    if x["start"] == 7:
        steps[0]["ids"] = [pair(MAX31)]
    par = []
    n = 0
    for op in x["ops"]:
        o = op["o"]
        if o == "fnf" and pid == "C19":
            par.append(op)
        elif o == "fnf":
            steps.append({"o": "fnf", "m": op["m"], "d": op["d"]})
        elif o == "refuse":
            steps.append({"o": o, "left": op["left"], "kind": r.choice(KINDS), "cause": r.choice([[], ["no %d" % n]])})
        elif o == "occupy":
            steps.append({"o": o, "id": pair(op["id"])})
        elif o == "begin":
            steps.append({"o": o, "slot": op["p"], "m": [[op["p"], 1]], "poll": r.random() < 0.6})
        elif o == "join":
            steps.append({"o": o, "slots": [op["p"]]})
        elif o == "abandon":
            steps.append({"o": o, "slot": op["p"]})
        elif o == "answers":
            steps.append({"o": o, "list": [{"t": op["t"], "kind": r.choice(KINDS), "cause": [],
                                            "after": r.choice([0, 1, 20])}]})
        elif o == "status":
            n += 1
            steps.append({"o": o, "list": [{"s": op["s"], "m": "boom %d" % n}]})
        elif o == "advance":
            steps.append({"o": o, "ms": unit})
        elif o == "leave":
            steps.append({"o": "drop", "on": 0})
        else:
            steps.append({"o": o})
    if par:
        # the callers' own sequences, and the order in which they reach the transport
        callers = sorted(set(op["p"] for op in par))
        calls = [[{"o": "fnf", "m": op["m"], "d": op["d"]} for op in par if op["p"] == p] for p in callers]
        turns = [callers.index(p) + 1 for p in x["turns"]]
        steps.append({"o": "par", "calls": calls, "turns": turns})
        steps.append({"o": "fnf", "m": [], "d": []})
    if pid == "C20":
        steps = together(r, steps)
    # Several statuses may be published before the session looks.
    if pid == "C21" and r.random() < 0.4:
        steps = merge(steps)
    return {"op": "session", "steps": steps}


def together(r, steps):
    """Waiting for one push after the other, or for both at once."""
    out = []
    for s in steps:
        if s["o"] == "join" and out and out[-1]["o"] == "join" and r.random() < 0.5:
            out[-1] = {"o": "join", "slots": out[-1]["slots"] + s["slots"]}
        else:
            out.append(s)
    return out


def merge(steps):
    out = []
    for s in steps:
        if s["o"] == "status" and out and out[-1]["o"] == "status":
            out[-1] = {"o": "status", "list": out[-1]["list"] + s["list"]}
        else:
            out.append(s)
    return out


def histories(c, pid=None):
    pid = pid or c.pid
    env = {"EMIT": "1", "LANE": LANE[pid]}
    if c.deep and pid in ("C20", "C21"):
        env["DEEP"] = "1"
    m = c.model("MCSession", env, cfg="MCSessionSafe", heap="6g", timeout=800)
    seen, out = set(), []
    for x in m.printed():
        k = repr((x["ops"], x["mtu"], x["turns"], x["start"]))
        if k not in seen:
            seen.add(k)
            out.append(x)
    c.notes["histories_of_the_model"] = len(out)
    return out


def models(c):
    """The model itself, with everything the session may choose."""
    lane = LANE[c.pid]
    if lane == "par":
        c.model("MCSession", {"LANE": lane, "FULL": "1"})
        if c.deep:
            c.model("MCSession", {"LANE": lane}, cfg="MCSessionSafe", heap="8g", timeout=850)
    elif lane == "fnf":
        c.model("MCSession", {"LANE": lane, "DEEP": "1"} if c.deep else {"LANE": lane},
                cfg="MCSessionSafe", heap="8g", timeout=850)
    elif lane == "keep":
        c.model("MCSession", {"LANE": lane, "DEEP": "1"} if c.deep else {"LANE": lane},
                cfg="MCSessionSafe", heap="8g", timeout=850)
    else:
        c.model("MCSession", {"LANE": lane, "DEEP": "1"} if c.deep else {"LANE": lane})


# --------------------------------------------------------------------------- at random

class Play:
    """One random run."""

    def __init__(self, c, g):
        self.c, self.g, self.r = c, g, c.rng
        self.long = None        # draws a large number of fragments
        self.handles = 1
        self.live = [0]
        self.waits = []
        self.ended = False
        self.n = 0

    def payload(self, mtu):
        g, r = self.g, self.r

        def part():
            k = r.random()
            if k < 0.2:
                return []
            if k < 0.3:
                return [[]]
            if mtu is None or mtu < 0:
                return [g.string(g.length())]
            if k < 0.33 and self.long:
                # very many fragments; all but a few alike
                n = mtu * self.long() + r.randrange(mtu)
                return [[[r.randrange(256), min(n, MAX24)]]]
            n = mtu * r.randrange(0, 9) + r.choice([-1, 0, 1, r.randrange(0, mtu + 1)])
            return [g.string(max(0, min(n, MAX24)))]
        return {"m": part(), "d": part()}

    def on(self, s):
        if self.live[0] != 0 or len(self.live) > 1 and self.r.random() < 0.5:
            s["on"] = self.r.choice(self.live)
        return s

    def drop(self, all=False):
        """Lets go of a handle, or of all."""
        if all:
            out = [{"o": "drop", "on": k} for k in self.live]
            self.live = []
            return out
        if len(self.live) < 2:
            return []
        return [{"o": "drop", "on": self.live.pop(self.r.randrange(len(self.live)))}]

    def wait(self):
        """Pushes that are waited for later, together, or not at all."""
        r = self.r
        x = r.random()
        free = [k for k in (1, 2, 3, 4) if k not in self.waits]
        if free and self.live and (x < 0.5 or not self.waits):
            self.waits.append(free[0])
            return [self.on({"o": "begin", "slot": free[0], "m": self.g.string(self.g.length() % 1000),
                             "poll": r.random() < 0.6})]
        if not self.waits:
            return []
        if x < 0.85:
            ks = r.sample(self.waits, r.randrange(1, len(self.waits) + 1))
            self.waits = [k for k in self.waits if k not in ks]
            return [{"o": "join", "slots": ks}]
        return [{"o": "abandon", "slot": self.waits.pop(r.randrange(len(self.waits)))}]

    def fnf(self, mtu):
        return self.on(dict({"o": "fnf"}, **self.payload(mtu)))

    def push(self):
        n = self.g.length()
        if self.r.random() < 0.004:
            n = self.r.choice([MAX24 - 1, MAX24, MAX24 + 1, MAX24 + 2, 1 << 25])
        return self.on({"o": "push", "m": self.g.string(n)})

    def cause(self):
        return [] if self.r.random() < 0.4 else ["why %d" % self.r.randrange(1000) if self.r.random() < 0.9
                                                 else straddle(self.r, self.r.random() < 0.2)]

    def answers(self, most):
        r = self.r
        return {"o": "answers", "list": [
            {"t": r.choice(["ok", "err", "err"]), "kind": r.choice(KINDS), "cause": self.cause(),
             "after": r.choice([0, 0, 1, 7, r.randrange(0, most)])} for _ in range(r.randrange(1, 4))]}

    def refuse(self):
        r = self.r
        return {"o": "refuse", "left": r.choice([-1, 0, 0, 1, 1, 2, 3, 5, 9]), "kind": r.choice(KINDS),
                "cause": self.cause()}

    def status(self, most=4, names=STATUSES):
        r = self.r
        out = []
        for _ in range(r.randrange(1, most + 1)):
            self.n += 1
            out.append({"s": r.choice(names),
                        "m": r.choice(["boom %d", "refused: {%d}", "é %d", "%d", "a\nb %d", "", " %d ", "\u0000%d", "x" * 3000 + "%d",
                                       straddle(r, r.random() < 0.2), "%d" + straddle(r, False)])
                        .replace("%d", str(self.n))})
        return {"o": "status", "list": out}

    def clone(self):
        s = self.on({"o": "clone"})
        self.live.append(self.handles)
        self.handles += 1
        return s

    def ids(self, start):
        """An id at or after the start, of either side."""
        return pair(max(1, (start + self.r.choice([0, 0, 2, 2, 4, self.r.randrange(0, 14)])) & MAX31))


def start_ids(r):
    return r.choice([None, None, MAX31 - r.randrange(0, 12), r.randrange(1, 1 << 31),
                     (1 << r.randrange(3, 31)) - r.randrange(0, 6)])


def run_fnf(p):
    r = p.r
    p.long = lambda: r.choice([15, 16, 17, 63, 99, 100, 127, 128, 255, 256, 257, 500, 1000, 1024, 5000])  # noqa
    mtu = p.g.pick([None, 1, 2, 3, 7, 16, 64, 100, 255, 1000, 65536, -1, -2, -3])
    server = r.random() < 0.5
    at = start_ids(r)
    steps = [new(server=server, mtu=[] if mtu is None else [mtu],
                 ids=[] if at is None else [pair(at | (r.randrange(2) << 31))],
                 timeout=r.choice([LONG, 5000]))]
    base = at if at is not None else 2 if server else 1
    taken = []
    if r.random() < 0.3:
        steps.append(p.clone())
    for _ in range(r.randrange(1, 9)):
        x = r.random()
        if x < 0.55:
            steps.append(p.fnf(mtu))
            base += 2
        elif x < 0.7:
            steps.append(p.refuse())
        elif x < 0.8:
            taken.append(p.ids(base))
            steps.append(p.on({"o": "occupy", "id": taken[-1]}))
        elif x < 0.84 and taken:
            steps.append(p.on({"o": "release", "id": taken.pop(r.randrange(len(taken)))}))
        elif x < 0.89:
            steps.append(p.clone())
        elif x < 0.91:
            steps += p.drop()
        elif x < 0.93:
            steps.append(p.on({"o": "par", "turns": [], "calls": [[dict({"o": "fnf"}, **p.payload(mtu)) for _ in range(2)]]}))
        elif x < 0.95:
            steps.append(p.push())
        elif x < 0.97:
            steps += p.wait()
        else:
            steps.append({"o": "advance", "ms": r.choice([1, 3000, 20000])})
    return steps


def mixed(p, calls):
    """Pushes and closes between the requests of the callers."""
    for xs in calls:
        for _ in range(p.r.randrange(0, 3)):
            q = {"o": "close"} if p.r.random() < 0.3 else {"o": "push", "m": p.g.string(p.g.length() % 300)}
            xs.insert(p.r.randrange(len(xs) + 1), q)


def run_par(p):
    r = p.r
    mtu = p.g.pick([None, 1, 1, 2, 3, 7, 50, -2])
    at = start_ids(r)
    steps = [new(server=r.random() < 0.5, mtu=[] if mtu is None else [mtu],
                 ids=[] if at is None else [pair(at)])]
    for _ in range(r.randrange(0, 3)):
        steps.append({"o": "occupy", "id": p.ids(at if at is not None else 1)})
    for _ in range(r.randrange(1, 3)):
        k = r.randrange(2, 9) if r.random() < 0.95 else r.choice([9, 12, 15, 16])
        calls = [[{"o": "fnf", **p.payload(mtu)} for _ in range(r.randrange(1, 4))] for _ in range(k)]
        total = sum(pieces(x, mtu) for xs in calls for x in xs)
        turns = []
        if total <= 60 and r.random() < 0.7:
            turns = [i + 1 for i, xs in enumerate(calls) for x in xs for _ in range(pieces(x, mtu))]
            r.shuffle(turns)
        if r.random() < 0.25:
            steps.append(p.refuse())
        if r.random() < 0.3:
            steps.append(p.clone())
        if r.random() < 0.3:
            steps += p.drop()
        if r.random() < 0.2:
            mixed(p, calls)
        steps.append(p.on({"o": "par", "calls": calls, "turns": turns}))
        steps.append(p.fnf(mtu))
    return steps


def many_fnf(c, g):
    """Numbers no other run reaches: of fragments, and of requests on one session."""
    r = c.rng
    out = []
    for n in (32767, 32768, 65535, 65536, 65537, 70000) if c.deep else (65537,):
        mtu = r.choice([1, 2, 3])
        big = [[[r.randrange(256), n * mtu - r.randrange(mtu)]]]
        m, d = r.choice([([], big), (big, []), ([[[9, 3]]], big), (big, [[[9, 3]]])])
        out.append([new(mtu=[mtu]), {"o": "fnf", "m": m, "d": d}, {"o": "fnf", "m": [], "d": [[[1, 1]]]}])
    for n in (300, 1100, 3000) if c.deep else (300,):
        p = Play(c, g)
        out.append([new(server=r.random() < 0.5, mtu=[r.choice([1, 7, 100])])]
                   + [{"o": "fnf", "m": [], "d": [norm([[r.randrange(256), r.randrange(0, 9)]])]}
                      if r.random() < 0.97 else p.refuse() for _ in range(n)])
    return out


def many_par(c, g):
    r = c.rng
    out = []
    for _ in range(tier(c, 2, 20)):
        calls = [[{"o": "fnf", "m": [], "d": [norm([[r.randrange(256), r.randrange(0, 4)]])]}
                  for _ in range(r.randrange(5, 40))] for _ in range(8)]
        out.append([new(mtu=[1]), {"o": "par", "calls": calls, "turns": []}, {"o": "fnf", "m": [], "d": []}])
    for _ in range(tier(c, 2, 20)):
        calls = [[{"o": "fnf", "m": [], "d": [[[i, r.choice([100, 255, 256, 300])]]]}] for i in range(8)]
        out.append([new(mtu=[1]), {"o": "par", "calls": calls, "turns": []}, {"o": "fnf", "m": [], "d": []}])
    return out


def many_push(c, g):
    r = c.rng
    p = Play(c, g)
    out = [[new()] + [{"o": "push", "m": [[7, n]]} for n in
                      (MAX24 - 1, MAX24, MAX24 + 1, MAX24 + 2, 1 << 25, (1 << 25) + 1)]]
    for n in (300, 1100, 3000) if c.deep else (300,):
        out.append([new()] + [r.choice([{"o": "push", "m": [[i % 256, 1]]}, {"o": "close"}, p.answers(3)])
                              for i in range(n)] + [{"o": "push", "m": [[1, 1]]}, {"o": "close"}])
    return out


def many_status(c, g):
    p = Play(c, g)
    r = c.rng
    out = []
    for names, n in ((STATUSES, 12), (["Connecting", "Connected"], 12), (["Closed", "Error"], 8)):
        steps = [new()]
        for _ in range(tier(c, n, 5 * n)):
            x = p.status(150, names)
            steps += [x, {"o": "wake"}] if p.r.random() < 0.5 else [x]
        out.append(steps)
    for _ in range(tier(c, 20, 200)):
        # statuses of a session that was given up, or that nobody holds any more
        steps = [new(timeout=r.choice([LONG, 50])), p.status(2), p.status(2), p.status(2)]
        for x in r.sample([{"o": "drop", "on": 0}, {"o": "close"}, {"o": "advance", "ms": 200}, {"o": "wake"}],
                          r.randrange(1, 5)):
            steps.insert(r.randrange(1, len(steps) + 1), x)
        gone = [i for i, s in enumerate(steps) if s["o"] == "drop"]
        out.append([s for i, s in enumerate(steps) if not gone or s["o"] != "close" or i < gone[0]])
    return out


def many_keep(c, g):
    """Timeouts of months and years, and long lives."""
    r = c.rng
    out = []
    for unit in (10 ** 6, 1 << 20, 1 << 24, 10 ** 8, 1 << 31, 1 << 32, 1 << 33):
        for t in (1, 2, 3, 50, 100, 5000, (1 << 32) // unit + 1):
            if unit * t < 1 << 34:
                out.append([new(timeout=t, unit=unit), {"o": "fnf", "m": [], "d": []}]
                           + [{"o": "advance", "ms": k} for k in (1, max(1, t // 2), t, t, t + 1, t + 1)])
    for life in ("max", "seconds", "half", "millis", "age"):
        # for ever (tokio's clock loses its way past 2^30 ms when a timer is further off than 2^36 ms)
        for k in range(tier(c, 2, 8)):
            out.append([new(timeout=LONG, unit=r.choice([1, 10]), life=life, server=k % 2 == 0)]
                       + r.sample([{"o": "fnf", "m": [], "d": []}, {"o": "push", "m": [[1, 5]]}, {"o": "clone", "on": 0},
                                   {"o": "advance", "ms": r.randrange(1, 1000)}, {"o": "advance", "ms": LONG // 2}], 4))
    for _ in range(tier(c, 20, 200)):
        # a session that is left alone by all, in any order
        t = r.choice([1, 20, 1000])
        steps = [{"o": "end"}, {"o": "drop", "on": 0}, {"o": "drop", "on": 1}]
        r.shuffle(steps)
        for _ in range(r.randrange(0, 4)):
            steps.insert(r.randrange(len(steps) + 1), {"o": "advance", "ms": r.choice([1, t // 2 + 1, t])})
        out.append([new(timeout=t), {"o": "clone", "on": 0}] + steps + [{"o": "advance", "ms": 2 * t + 3}] * 2)
    for n in (300, 1000) if c.deep else (300,):
        # a long silence in small steps, and a long time after the close
        out.append([new(timeout=n)] + [{"o": "advance", "ms": r.randrange(1, 5)} for _ in range(n)]
                   + [{"o": "advance", "ms": 50 * n}])
        out.append([new(timeout=20)] + [{"o": "advance", "ms": 30} for _ in range(n)])
    return out


MANY = {"C18": many_fnf, "C19": many_par, "C20": many_push, "C21": many_status, "C22": many_keep}


def pieces(x, mtu):
    sizes = [size(o[0]) for o in (x["m"], x["d"]) if o]
    if mtu is None or mtu < 0 or sum(sizes) == 0:
        return 1
    return max(1, max((s - 1) // mtu + 1 for s in sizes))


def run_push(p):
    r = p.r
    mtu = r.choice([None, 2])
    steps = [new(server=r.random() < 0.5, mtu=[] if mtu is None else [mtu])]
    for _ in range(r.randrange(2, 10)):
        x = r.random()
        if not p.live:
            steps += p.wait() if x < 0.7 else [{"o": "advance", "ms": r.randrange(1, 1000)}]
        elif x < 0.2:
            steps.append(p.push())
        elif x < 0.45:
            steps += p.wait()
        elif x < 0.6:
            steps.append(p.answers(500))
        elif x < 0.7:
            steps.append(p.on({"o": "close"}))
        elif x < 0.77:
            steps.append(p.refuse())
        elif x < 0.86:
            steps.append(p.fnf(mtu))
        elif x < 0.9:
            calls = [[dict({"o": "fnf"}, **p.payload(mtu)) for _ in range(r.randrange(0, 3))]
                     for _ in range(r.randrange(2, 5))]
            mixed(p, calls)
            steps.append(p.on({"o": "par", "calls": calls, "turns": []}))
        elif x < 0.94:
            steps.append(p.clone())
        elif x < 0.97:
            steps += p.drop(r.random() < 0.2)
        else:
            steps.append({"o": "advance", "ms": r.randrange(1, 1000)})
    return steps + ([{"o": "join", "slots": p.waits}] if p.waits else [])


def run_status(p):
    r = p.r
    steps = [new(server=r.random() < 0.5, timeout=r.choice([LONG, LONG, 50, 1000]),
                 status={"s": r.choice(STATUSES), "m": "at first"})]
    for _ in range(r.randrange(2, 12)):
        x = r.random()
        if x < 0.5:
            steps.append(p.status(6))
        elif x < 0.65 or not p.live:
            steps.append({"o": "wake"})
        elif x < 0.75:
            steps.append({"o": "advance", "ms": r.choice([1, 40, 60, 900, 5000])})
        elif x < 0.79:
            steps.append(p.clone())
        elif x < 0.82:
            steps += p.drop(r.random() < 0.4)
        elif x < 0.88:
            steps.append(p.fnf(None))
        elif x < 0.92:
            steps.append(p.on({"o": "close"}))
        elif x < 0.95:
            steps.append({"o": "end"})
            if r.random() < 0.5:
                break
        else:
            steps.append(p.push())
    return ended(steps)


def ended(steps):
    """What is published after the end is not published."""
    ends = [i for i, s in enumerate(steps) if s["o"] == "end"]
    if ends:
        steps = [s for i, s in enumerate(steps) if i <= ends[0] or s["o"] not in ("status", "end")]
    return steps


def run_keep(p, peer=False):
    r = p.r
    p.handles, p.live, p.waits = 1, [0], []
    t = r.choice([1, 2, 3, 10, 100, 999, 30000, 10 ** 6, 5 * 10 ** 8])
    steps = [new(server=r.random() < 0.5, timeout=t, mtu=r.choice([[], [1]]))]
    for _ in range(r.randrange(2, 14)):
        x = r.random()
        if x < 0.5 or not p.live:
            ms = r.choice([1, t // 10 + 1, t // 3 + 1, t // 2 + 1, max(1, t - 1), t, t + 1])
            if r.random() < 0.1 and t < 10 ** 7:
                ms = 3 * t
            steps.append({"o": "advance", "ms": ms})
        elif x < 0.7:
            steps.append(p.fnf(r.choice([1, None]) if steps[0]["mtu"] == [] else 1))
        elif x < 0.78:
            steps.append(p.push())
        elif x < 0.82:
            steps.append(p.answers(max(1, min(3 * t, 10 ** 6))) if r.random() < 0.6 else p.refuse())
        elif x < 0.88:
            steps.append(p.status(2, STATUSES if r.random() < 0.3 else ["Unconnected", "Connecting", "Connected"]))
        elif x < 0.9:
            steps.append(p.clone())
        elif x < 0.92:
            steps += p.drop(r.random() < 0.4)
        elif x < 0.94:
            steps.append({"o": "end"})
        elif x < 0.96 and r.random() < 0.5:
            steps.append(p.on({"o": "close"}))
        elif peer:
            steps.append({"o": "peer"})
    if r.random() < 0.7 and t < 10 ** 8:
        steps += [{"o": "advance", "ms": 2 * t + 3}, {"o": "advance", "ms": 2 * t}]
    steps = ended(steps)
    total = sum(s.get("ms", 0) for s in steps)
    return steps if total < 2 * 10 ** 9 else run_keep(p, peer)


def real_keep(c):
    """Short lives on the machine's clock, with timeouts from none at all on."""
    r = c.rng
    for t in [0, 0, 1, 2, 5, 20, 60] * tier(c, 3, 10):
        steps = [new(server=r.random() < 0.5, timeout=t, real=True)]
        for _ in range(r.randrange(0, 4)):
            steps.append(r.choice([{"o": "advance", "ms": r.choice([0, 1, max(1, t // 2)])}, {"o": "end"},
                                   {"o": "fnf", "m": [], "d": []}, {"o": "clone", "on": 0}]))
        steps = [s for i, s in enumerate(steps) if s["o"] != "end" or {"o": "end"} not in steps[:i]]
        yield {"op": "session", "steps": steps + [{"o": "until"}, {"o": "advance", "ms": t + 3}]}


def unsettled(p, steps):
    """What goes on with the connection and with time is none of the callers' business."""
    r = p.r
    if r.random() < 0.5:
        return steps
    if r.random() < 0.4:
        steps[0] = dict(steps[0], timeout=r.choice([50, 1000]))
    for _ in range(r.randrange(1, 4)):
        at = r.randrange(1, len(steps) + 1)
        x = r.random()
        steps.insert(at, p.status(3) if x < 0.6 else p.refuse() if x < 0.7 else {"o": "advance", "ms": r.choice([1, 60, 3000])})
    return merge(steps)


RANDOM = {"C18": run_fnf, "C19": run_par, "C20": run_push, "C21": run_status, "C22": run_keep}


# --------------------------------------------------------------------------- the checks

def listed(pid, history):
    """The text of a finding listed in KNOWN_FINDINGS.txt."""
    with open(os.path.join(VERIF, "KNOWN_FINDINGS.txt")) as f:
        for ln in f:
            head = "finding: property=%s history=%s " % (pid, history)
            if ln.startswith(head):
                return "history=%s %s" % (history, ln[len(head):].strip())
    return None


def peers(c, runs):
    """Histories in which the peer sends frames. One that is no run of the specification, but is
    one of a session that does not listen, is the listed finding and nothing else."""
    bare = [{k: v for k, v in r.items() if k not in ("req", "profile")} for r in runs]
    env = {"ASPECT": c.pid}
    live = [b for b in bare if not b.get("dead")]
    acc, t, _ = validate("TraceSession", live, env) if live else (set(), None, None)
    deaf, _, _ = validate("TraceSession", live, dict(env, DEAF="1")) if live else (set(), None, None)
    what = listed(c.pid, "peer-sends-frames")
    known = deaf - acc if what else set()
    if known:
        c.known.append(what)
    c.notes["peer_histories"] = {"runs": len(runs), "accepted": len(acc), "known_finding": len(known)}
    return [r for r in runs if r["id"] not in known]


def check(c):
    models(c)
    xs = sample(c, histories(c), tier(c, 600, 6000))
    reqs = [from_model(c, x) for x in xs]
    g = Gen(c.rng, big=0.01)
    n = tier(c, 400, 6000)
    reqs += [{"op": "session", "steps": RANDOM[c.pid](Play(c, g))} for _ in range(n)]
    if c.pid in ("C18", "C19", "C20"):
        for q in reqs[-n:]:
            q["steps"] = unsettled(Play(c, g), q["steps"])
    reqs += [{"op": "session", "steps": x} for x in MANY[c.pid](c, g)]
    if c.pid == "C22":
        # a peer that sends every half timeout, as long as it takes
        alive = [{"o": "peer"}, {"o": "advance", "ms": 500}] * 8
        reqs.append({"op": "session", "steps": [new(timeout=1000)] + alive})
        reqs += [{"op": "session", "steps": run_keep(Play(c, g), peer=True)} for _ in range(n // 4)]
    runs = run_all(c, reqs, ("debug", "release") if c.deep else ("debug",))
    if c.pid == "C22":
        is_peer = lambda r: any(s["o"] == "peer" for s in r["req"]["steps"])  # noqa
        rest = peers(c, [r for r in runs if is_peer(r)])
        runs = [r for r in runs if not is_peer(r)] + rest
        seen = c.notes["outcomes"]
        timed = run_all(c, list(real_keep(c)), ("debug", "release") if c.deep else ("debug",))
        c.notes.update(outcomes=seen, outcomes_on_the_machines_clock=c.notes["outcomes"])
        c.conform("TraceSession", timed, {"ASPECT": c.pid, "REAL": "1"}, kind="session on the machine's clock")
    c.conform("TraceSession", runs, {"ASPECT": c.pid}, kind="session", heap="6g", batch=5000)
    c.assumptions += ["The transport and the clock are stand-ins: a recording DuplexConnection and "
                      "tokio's paused clock."]
