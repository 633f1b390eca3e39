"""Checks of lookups without state: mime types (C23), errors (C24), frame types and flags (C25),
24-bit integers and versions (C26)."""
import re
import os

from checks_obj import run_all, tier
from gen_link import straddle
from vlib import SPEC

ROUTES = ["u32-u32", "u32-usize", "usize-u32", "usize-usize", "parts-u32", "parts-usize",
          "u32-bytes", "usize-bytes", "parts-bytes"]
PROTOCOL = ["InvalidSetup", "UnsupportedSetup", "RejectedSetup", "RejectedResume",
            "ConnectionError", "ConnectionClose", "ApplicationError", "Rejected", "Canceled",
            "Invalid"]
DECODE = ["InComplete", "UnrecognizedFrameType", "InvalidStreamId"]


def table(name):
    """The second fields of a table of pairs in the specification."""
    t = open(os.path.join(SPEC, "Tables.tla")).read()
    t = t[t.index(name + " == <<"):]
    return re.findall(r'<<"([^"]*)", "([^"]*)">>', t[:t.index("\n>>")])


def batches(op, steps, n=50):
    return [{"op": op, "steps": steps[i:i + n]} for i in range(0, len(steps), n)]


def mutants(r, t):
    """Strings close to t."""
    yield from (t + " ", " " + t, t + "\0", t.upper(), t.capitalize(), t.swapcase(), t[:-1], t[1:],
                t + "; charset=utf-8", t + "/", t.replace("/", ""), t.replace("-", "_"),
                t.replace(".", "-"), t.replace("x-", ""), t + "+json", t + "s", t.split("/")[0],
                t.split("/")[-1], t.replace("v0", "v1"), t * 2)
    for _ in range(6):
        if t:
            i = r.randrange(len(t))
            yield t[:i] + t[i + 1:]
            yield t[:i] + r.choice("aeiostx0149/-.+ é") + t[i + 1:]
            yield t[:i] + r.choice("aeiostx0149/-.+ é") + t[i:]
            yield t[:i] + t[i:i + 2][::-1] + t[i + 2:]


def mime_steps(c):
    r = c.rng
    names = table("Mimes")
    steps = [{"o": "mime", "i": i} for i in range(len(names))]
    texts = [t for _, t in names] + [n for n, _ in names] + [n.lower() for n, _ in names]
    texts += ["", "unparseable", "UNPARSEABLE", "*/*", "text/*", "application/unknown", "/"]
    for _ in range(tier(c, 1, 20)):
        for _, t in names:
            texts += list(mutants(r, t))
    for _, t in names:
        texts += [t.replace("k", "\u212a"), t.replace("s", "\u017f"), t.replace("i", "\u0131"), "\ufeff" + t, t + "\n",
                  "\t" + t, "\u00a0" + t, t + "\u200b", t + ";", t + " ;", t + ";q=1", t + ",", "\"" + t + "\"",
                  t.replace("/", "%2F"), t.replace("/", "\\"), t.replace("/", " / "), t + "\0\0", t + "#"]
    texts += ["a" * n for n in (31, 32, 33, 63, 64, 65, 127, 128, 255, 256, 257, 65535, 65536, 70000)]
    # A type of one name with a subtype of another.
    halves = [t.split("/") for _, t in names if t]
    texts += ["%s/%s" % (a[0], b[1]) for a in halves for b in halves]
    for _ in range(tier(c, 500, 20000)):
        texts.append("".join(r.choice("abcx/-.+0 \té€") for _ in range(r.randrange(0, 30))))
    return steps + [{"o": "parse", "text": t} for t in texts]


def error_steps(c):
    r = c.rng
    causes = [[], [" "], ["  "], ["\t"], ["\n"], ["\r\n"], ["\u00a0"], ["\u200b"], ["\ufeff"], [" x "], ["x\n"], ["\0"],
              ["."], ["none"], ["None"], ["null"], ["()"], ["é" * 100], ["x" * 70000], ["a\n" * 300], [""], ["x"], ["a: b"], ["(0x00000101)"], ["line\nline"], ["é€"], ["I/O"],
              ["decoding"], ["REJECTED (0x00000202)"], ["{}"], ["%s"], ["x" * 3000]]
    for _ in range(tier(c, 20, 400)):
        causes.append(["".join(r.choice("ab:() 0x\n\"\\é") for _ in range(r.randrange(1, 40)))])
    causes += [[straddle(r)] for _ in range(tier(c, 12, 200))]
    steps = [{"o": "error", "kind": k, "src": s, "about": {}} for k in PROTOCOL for s in causes]
    steps += [{"o": "error", "kind": "Io", "src": s, "about": {"io": r.randrange(21)}} for s in causes if s]
    steps += [{"o": "error", "kind": "Io", "src": s, "about": {"io": i}} for s in (["x"], [""]) for i in range(21)]
    steps += [{"o": "error", "kind": "Io", "src": [], "about": {"io": i, "os": 0}} for i in range(21)]
    steps += [{"o": "error", "kind": "Io", "src": [], "about": {"io": 0, "os": i}} for i in range(1, 134)]
    steps.append({"o": "error", "kind": "InComplete", "src": [], "about": {}})
    steps += [{"o": "error", "kind": "UnrecognizedFrameType", "src": [], "about": {"code": v}}
              for v in list(range(64)) + [255, 256, 4095, 65535]]
    ids = [0, 1, 2, 7, 9, 10, 11, 100, 65535, 65536, (1 << 31) - 1]
    ids += [r.randrange(1 << r.randrange(1, 32)) for _ in range(30)]
    steps += [{"o": "error", "kind": "InvalidStreamId", "src": [], "about": {"want": w, "got": v}}
              for v in ids for w in ("0", "non-zero", "> 0")]
    return steps + [{"o": "code", "i": i} for i in range(10)] + [{"o": "own"}]


def type_steps(c):
    r = c.rng
    steps = [{"o": "type", "i": i} for i in range(15)] + [{"o": "values"}, {"o": "words"},
                                                          {"o": "own-types"}]
    # Every combination of the ten low bits; the type's bits are no flags.
    ws = list(range(1024)) + [w << 10 for w in range(64)]
    ws += [r.randrange(65536) for _ in range(tier(c, 1000, 0))]
    if c.deep:
        ws = range(65536)
    return steps + [{"o": "flags", "w": w} for w in ws]


def number_steps(c):
    r = c.rng
    steps, size = [], 1 << 20
    for route in ROUTES:
        steps += [{"o": "u24", "route": route, "lo": lo, "hi": lo + size}
                  for lo in range(0, 1 << 24, size)]
    over = [1 << 24, (1 << 24) + 1, (1 << 25) - 1, 1 << 31, (1 << 32) - 1]
    over += [(1 << k) + d for k in range(24, 32) for d in (-1, 0, 1, 5)]
    wide = [(1 << k) + d for k in range(24, 64) for d in (-1, 0, 1, 5, 255, (1 << 24) - 1)]
    wide += [(1 << 64) - 1]
    over += [r.randrange(1 << 24, 1 << 32) for _ in range(tier(c, 50, 2000))]
    wide += [r.randrange(1 << r.randrange(25, 65)) for _ in range(tier(c, 100, 4000))]
    for route, vs in (("u32", over), ("usize", over + wide)):
        steps += [{"o": "u24over", "route": route, "v": list((v % (1 << 64)).to_bytes(8, "big"))}
                  for v in vs if v < 1 << 64]
    steps.append({"o": "limits"})
    k = [0, 1, 2, 9, 10, 99, 100, 255, 256, 257, 511, 512, 1000, 32767, 32768, 65534, 65535]
    vs = [[a, b] for a in k for b in k]
    near = [[a + da, b + db] for a in (0, 1, 255, 65535) for b in (0, 1, 255, 65535)
            for da in (-1, 0, 1) for db in (-1, 0, 1)
            if 0 <= a + da < 65536 and 0 <= b + db < 65536]
    pairs = [(a, b) for a in near for b in near]
    pairs += [(v, r.choice(vs)) for v in vs]
    for _ in range(tier(c, 2000, 60000)):
        a = [r.randrange(1 << r.randrange(1, 17)), r.randrange(1 << r.randrange(1, 17))]
        b = r.choice([a, a[::-1], [a[0], r.randrange(65536)], [r.randrange(65536), a[1]],
                      [r.randrange(65536), r.randrange(65536)]])
        pairs.append((a, b))
    if not c.deep:
        pairs = r.sample(pairs, min(len(pairs), 5000))
    return steps + [{"o": "versions", "a": a, "b": b} for a, b in pairs]


STEPS = {"C23": mime_steps, "C24": error_steps, "C25": type_steps, "C26": number_steps}


def check(c):
    c.model("MCTables")
    reqs = batches("tables", STEPS[c.pid](c), 20)
    runs = run_all(c, reqs, ("debug", "release"))
    c.conform("TraceTables", runs, kind="lookups")
    c.assumptions += ["The tables of spec/Tables.tla were copied from the RSocket protocol and its "
                      "mime type extension."]
