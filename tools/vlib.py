"""Shared machinery of the checks: builds the executor, runs requests through the real code,
runs TLC, validates recorded runs against a Trace specification, writes evidence."""
import json
import os
import random
import re
import resource
import select
import shutil
import subprocess
import sys
import tempfile
import threading
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("BINATE_REPO", "/repo")
BUILD = os.path.join(VERIF, ".build")
SPEC = os.path.join(VERIF, "spec")
EVIDENCE = os.path.join(VERIF, "evidence")
REPLAYS = os.path.join(BUILD, "replays")
JAVA_CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
HANG_S = 30
MAX_HANGS = 3      # after so many blocked requests, the rest is not tried


class ToolError(Exception):
    """The check itself could not do its work (never a verdict about the code)."""


def log(*a):
    print(*a, file=sys.stderr, flush=True)


# --------------------------------------------------------------------------- building

def cargo_build(crate, target, args=(), rustflags="--cfg binate_verif", timeout=800):
    os.makedirs(BUILD, exist_ok=True)
    env = dict(os.environ)
    env["RUSTFLAGS"] = rustflags
    env["CARGO_NET_OFFLINE"] = "true"
    env.pop("CARGO_TARGET_DIR", None)
    cmd = ["cargo", "build", "--offline", "--quiet", "--manifest-path",
           os.path.join(VERIF, crate, "Cargo.toml"), "--target-dir", os.path.join(BUILD, target)]
    try:
        p = subprocess.run(cmd + list(args), env=env, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise ToolError("build of %s timed out" % crate)
    if p.returncode:
        raise ToolError("build of %s failed:\n%s" % (crate, p.stdout.decode()[-4000:]))


# The code under test is built with its hooks.  Should a change to it make that impossible, with
# fewer of them, or with none: what can be reached that way is still checked.
LEVELS = (("exec", ()), ("bare", ("fields",)), ("nobuf", ("buf",)), ("noerr", ("error",)),
          ("noids", ("ids", "fields")), ("nosession", ("session", "fields")), ("nobufbare", ("buf", "fields")),
          ("few", ("fields", "ids", "error")), ("buffers", ("session", "fields", "error", "ids")),
          ("sessions", ("buf", "error", "ids", "fields")),
          ("plain", ("buf", "session", "fields", "error", "ids")))
MISSING = dict(LEVELS)
OFF = {"fields": "binate_verif_bare", "buf": "binate_verif_no_buf", "error": "binate_verif_no_error",
       "ids": "binate_verif_no_ids", "session": "binate_verif_no_session"}
LEVEL = {}


def flags_of(level):
    if level == "plain":
        return ""
    return " ".join("--cfg " + x for x in ["binate_verif"] + [OFF[m] for m in MISSING[level]])


def build_exec(profiles=("debug",)):
    out = {}
    found = 0
    for p in profiles:
        while True:
            target = LEVELS[found][0]
            try:
                cargo_build("harness", target, ["--release"] if p == "release" else [], flags_of(target))
                break
            except ToolError as e:
                found += 1
                if found == len(LEVELS):
                    raise
                log("trying with fewer hooks: %s" % (e if found == 1 else LEVELS[found][0]))
        out[p] = os.path.join(BUILD, target, p, "binate-exec")
        LEVEL[out[p]] = target
    return out


OWN_ERRORS = ("Io", "InComplete", "UnrecognizedFrameType", "InvalidStreamId")


def plainer(steps, missing):
    """The steps of a session that need no more hooks than there are."""
    out = []
    for s in steps:
        if "fields" in missing:
            # whole payloads, ids from the first on
            if s["o"] in ("occupy", "release"):
                continue
            if s["o"] == "new":
                s = dict(s, mtu=[], ids=[])
            if s["o"] == "par":
                s = dict(s, turns=[])
        if "ids" in missing and s["o"] == "new":
            s = dict(s, ids=[])
        if "error" in missing:
            if s["o"] == "refuse":
                s = dict(s, kind="Io", cause=s["cause"] or ["x"])
            if s["o"] == "answers":
                s = dict(s, list=[dict(a, kind="Io", cause=a["cause"] or ["x"]) for a in s["list"]])
        out.append(s)
    return out


def possible(level, reqs):
    """Those of the requests, and of their steps, that need no more hooks than there are."""
    missing = MISSING[level]
    if not missing:
        return reqs
    out = []
    for q in reqs:
        if q["op"] == "among":
            try:
                out.append(dict(q, reqs=possible(level, q["reqs"]), turns=[]))
            except ToolError:
                pass
            continue
        op, first = q["op"], q["steps"][0]
        if op == "weigh":
            q = dict(q, steps=[dict(s, first=plainer(s["first"], missing), body=plainer(s["body"], missing))
                               if s["o"] == "session" else s for s in q["steps"]
                               if not (s["o"] == "session" and "session" in missing
                                       or s["o"] == "join" and "buf" in missing)])
        elif op == "session":
            if "session" in missing:
                continue
            q = dict(q, steps=plainer(q["steps"], missing))
        elif op in ("queue", "message"):
            if "buf" in missing:
                continue
        elif op == "ids":
            if "ids" in missing and first["side"] == "at":
                continue
        elif op == "tables" and "error" in missing:
            q = dict(q, steps=[s for s in q["steps"] if s["o"] != "error" or s["kind"] in OWN_ERRORS])
        if q["steps"]:
            out.append(q)
    if not out:
        raise ToolError("nothing can be checked without the hooks")
    return out


def build_loom():
    """The executor that explores schedules; None if the code under test cannot be built for it."""
    for target in ("exec", "sessions", "buffers"):
        try:
            cargo_build("loom", "loom-" + target, rustflags="--cfg loom " + flags_of(target), timeout=300)
            b = os.path.join(BUILD, "loom-" + target, "debug", "binate-loom")
            LEVEL[b] = target
            return b
        except ToolError as e:
            log("no exploration of schedules: %s" % e)
    return None


# --------------------------------------------------------------------------- executing

def _limits():
    lim = 6 << 30
    resource.setrlimit(resource.RLIMIT_AS, (lim, lim))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def _run_slice(binary, reqs, res, lo, hi, hang, errors, hangs=None):
    i = lo
    hangs = [] if hangs is None else hangs
    try:
        while i < hi:
            p = subprocess.Popen([binary], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                 stderr=subprocess.PIPE, preexec_fn=_limits)

            def feed(start=i, proc=p):
                try:
                    for r in reqs[start:hi]:
                        proc.stdin.write(r)
                        proc.stdin.write(b"\n")
                    proc.stdin.close()
                except (BrokenPipeError, ValueError, OSError):
                    pass
            err = []

            def drain(proc=p):
                for ln in proc.stderr:
                    if len(err) < 50:
                        err.append(ln)
            t = threading.Thread(target=feed, daemon=True)
            t.start()
            t2 = threading.Thread(target=drain, daemon=True)
            t2.start()
            buf = bytearray()
            fd = p.stdout.fileno()
            dead = None
            while i < hi:
                ready, _, _ = select.select([fd], [], [], hang)
                if not ready:
                    dead = "hang"
                    break
                c = os.read(fd, 1 << 20)
                if not c:
                    dead = "abort"
                    break
                buf += c
                if b"\n" in c:
                    lines = buf.split(b"\n")
                    buf = lines.pop()
                    for ln in lines:
                        if ln[:1] not in (b"[", b"{"):      # something a library said
                            continue
                        res[i] = json.loads(ln)
                        i += 1
            p.kill()
            rc = p.wait()
            t.join(5)
            t2.join(5)
            p.stdout.close()
            p.stderr.close()
            if i < hi:
                if dead == "abort" and rc == 3:
                    raise ToolError("executor refused %s: %s" % (reqs[i][:300], b"".join(err)))
                # What the code did to the process is its result for this request.
                res[i] = {"t": dead}
                i += 1
                hangs.extend([1] if dead == "hang" else [])
                if len(hangs) >= MAX_HANGS:
                    return
    except Exception as e:  # noqa
        errors.append(e)


def execute(binary, requests, workers=8, hang=HANG_S):
    """Runs the requests through the executor; a request that kills or blocks the process has
    the result {"t": "abort"} or {"t": "hang"}; None stands for requests not tried any more."""
    reqs = [json.dumps(r, separators=(",", ":")).encode() for r in requests]
    res = [None] * len(reqs)
    errors = []
    hangs = []
    n = max(1, min(workers, len(reqs) // 50 + 1))
    bounds = [len(reqs) * k // n for k in range(n + 1)]
    ts = [threading.Thread(target=_run_slice, args=(binary, reqs, res, bounds[k], bounds[k + 1],
                                                    hang, errors, hangs)) for k in range(n)]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    if errors:
        raise errors[0] if isinstance(errors[0], ToolError) else ToolError(repr(errors[0]))
    # A request that blocked is tried once more on its own, with more time.
    for k, r in enumerate(res):
        if isinstance(r, dict) and r.get("t") == "hang":
            one = [None]
            _run_slice(binary, [reqs[k]], one, 0, 1, hang * 2, errors)
            res[k] = one[0]
            if isinstance(one[0], dict) and one[0].get("t") == "hang":
                break
    return res


def record(binary, profile, reqs, start=0, nested=False):
    """Runs requests of several steps, pairs every step with its result. A nested request has
    requests in place of steps; their results are left as they are."""
    runs = []
    reqs = possible(LEVEL.get(binary, "exec"), reqs)
    for i, (q, res) in enumerate(zip(reqs, execute(binary, reqs))):
        if res is None:
            continue
        run = {"id": start + i, "req": q, "profile": profile}
        if isinstance(res, dict):
            run["dead"] = res["t"]
            run["steps"] = []
        elif nested:
            run["results"] = res
        else:
            run["steps"] = [dict(s, r=r) for s, r in zip(q["steps"], res)]
        runs.append(run)
    return runs


def outcomes(runs):
    """How often each step had which kind of outcome: shows that nothing is vacuous."""
    t = {}
    for r in runs:
        for s in r["steps"]:
            x = s["r"]
            k = s["o"] + ":" + x.get("t", "?")
            if x.get("t") == "err" and "err" in x:
                k += ":" + x["err"]["e"]
            t[k] = t.get(k, 0) + 1
    return t


# --------------------------------------------------------------------------- TLC

class Tlc:
    def __init__(self, out, rc, wall):
        self.out, self.rc, self.wall = out, rc, wall
        m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", out)
        self.generated = int(m[-1][0].replace(",", "")) if m else 0
        self.distinct = int(m[-1][1].replace(",", "")) if m else 0
        m = re.findall(r"depth of the complete state graph search is (\d+)", out)
        self.depth = int(m[-1]) if m else 0
        self.ok = rc == 0 and "Model checking completed. No error has been found." in out

    def printed(self):
        """JSON values printed by PrintT(ToJson(..)), in an order that does not depend on timing."""
        return [json.loads(json.loads(ln)) for ln in sorted(set(self.out.splitlines()))
                if ln.startswith('"') and ln.endswith('"')]


def tlc(module, env=None, workers=8, heap="3g", timeout=600, cfg=None, args=()):
    """Runs TLC on spec/<module>.tla."""
    meta = tempfile.mkdtemp(prefix="tlc-")
    e = dict(os.environ)
    e.update(env or {})
    cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss16m",
           "-Djava.io.tmpdir=" + meta, "-cp", JAVA_CP, "tlc2.TLC",
           "-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE",
           "-config", (cfg or module) + ".cfg"] + list(args) + [module + ".tla"]
    t0 = time.time()
    try:
        p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           timeout=timeout)
        return Tlc(p.stdout.decode(errors="replace"), p.returncode, time.time() - t0)
    except subprocess.TimeoutExpired:
        raise ToolError("TLC on %s timed out" % module)
    finally:
        shutil.rmtree(meta, ignore_errors=True)


def model_check(module, env=None, **kw):
    """A run of TLC on the model itself, which has to pass: the specification is ours."""
    r = tlc(module, env, **kw)
    if not r.ok:
        raise ToolError("the model %s does not satisfy its own properties:\n%s"
                        % (module, "\n".join(r.out.splitlines()[-60:])))
    return r


def apalache(module, init, length, inv, timeout=300):
    """True if Apalache finds no state (or step, for an inv with primes) that breaks inv."""
    d = tempfile.mkdtemp(prefix="apalache-")
    try:
        shutil.copy(os.path.join(SPEC, module + ".tla"), d)
        p = subprocess.run(["apalache-mc", "check", "--out-dir=" + d + "/out", "--next=Next", "--init=" + init,
                            "--length=%d" % length, "--inv=" + inv, module + ".tla"], cwd=d,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout,
                           env=dict(os.environ, JVM_ARGS="-Xmx2g -Djava.io.tmpdir=" + d))
    except (OSError, subprocess.TimeoutExpired) as e:
        raise ToolError("Apalache on %s: %s" % (module, e))
    finally:
        shutil.rmtree(d, ignore_errors=True)
    out = p.stdout.decode(errors="replace")
    if "The outcome is: NoError" in out and p.returncode == 0:
        return True
    if "The outcome is: Error" in out and p.returncode == 12:
        return False
    raise ToolError("Apalache on %s failed:\n%s" % (module, out[-1500:]))


def validate(module, runs, env=None, workers=8, heap="4g", timeout=700, show=False):
    """Validates runs ({"id":.., "steps":[..]}) with a Trace specification. Returns the set of
    accepted ids, TLC's result and, with show, the furthest step reached per run."""
    if not runs:
        raise ToolError("nothing to validate")
    d = tempfile.mkdtemp(prefix="trace-")
    try:
        path = os.path.join(d, "trace.ndjson")
        with open(path, "w") as f:
            for r in runs:
                f.write(json.dumps(r, separators=(",", ":")))
                f.write("\n")
        e = {"TRACE": path}
        e.update(env or {})
        if show:
            e["SHOW"] = "1"
        r = tlc(module, e, workers=workers, heap=heap, timeout=timeout)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    if not r.ok:
        raise ToolError("validation with %s failed:\n%s"
                        % (module, "\n".join(r.out.splitlines()[-60:])))
    acc = set(int(x) for x in re.findall(r'<<"ACCEPT", (\d+)>>', r.out))
    reached = {}
    for i, l in re.findall(r'<<"REACHED", (\d+), (\d+)>>', r.out):
        reached[int(i)] = max(reached.get(int(i), 0), int(l))
    return acc, r, reached


def _spots(x, out):
    """The places of the numbers and booleans in a recorded result."""
    for k, v in (x.items() if isinstance(x, dict) else enumerate(x) if isinstance(x, list) else ()):
        if isinstance(v, (bool, int)):
            out.append((x, k))
        else:
            _spots(v, out)


# --------------------------------------------------------------------------- a check

class Check:
    """One property's check in progress."""

    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.t0 = time.time()
        self.states = self.transitions = self.traces = 0
        self.samples = []
        self.notes = {}
        self.assumptions = []
        self.violations = []
        self.known = []
        self.rng = random.Random("%s/%d" % (pid, seed))

    @property
    def deep(self):
        return self.tier == "thorough"

    def model(self, module, env=None, **kw):
        r = model_check(module, env, **kw)
        self.states += r.distinct
        self.transitions += r.generated
        self.notes.setdefault("models", []).append(
            {"module": module, "env": {k: v for k, v in (env or {}).items()},
             "distinct_states": r.distinct, "states_generated": r.generated,
             "depth": r.depth, "wall_s": round(r.wall, 1)})
        return r

    def induct(self, module, steps=()):
        """IndInv holds at first and is kept by every step, from any state at all and with numbers of
        any size; what is said of steps holds; and what is wrong is found."""
        t0 = time.time()
        for init, length, inv in [("Init", 0, "IndInv"), ("IndInv", 1, "IndInv")] + \
                [("IndInv", 1, x) for x in steps]:
            if not apalache(module, init, length, inv):
                raise ToolError("%s: %s is not so" % (module, inv))
        if apalache(module, "IndInv", 1, "Wrong"):
            raise ToolError("%s: Wrong is not found to be wrong" % module)
        self.notes.setdefault("inductive", []).append(
            {"module": module, "invariants": ["IndInv"] + list(steps), "tool": "apalache",
             "trap": "Wrong is refuted", "wall_s": round(time.time() - t0, 1)})

    def violation(self, what, replay):
        os.makedirs(REPLAYS, exist_ok=True)
        path = os.path.join(REPLAYS, "%s-%d.json" % (self.pid, len(self.violations)))
        with open(path, "w") as f:
            json.dump({"property": self.pid, "what": what, "replay": replay}, f, indent=1)
        self.violations.append((what, path))

    def conform(self, module, runs, env=None, kind="run", limit=3, batch=20000, by=1, **kw):
        """Runs: {"id", "req", "steps"}, steps including the results r the code gave. Reports a
        violation for every run (up to a limit) the specification does not accept."""
        dead = [r for r in runs if r.get("dead")]
        live = [r for r in runs if not r.get("dead")]
        for r in dead[:limit]:
            self.violation("the code under test ended in %r" % r["dead"],
                           {"module": module, "request": r["req"]})
        accepted = 0
        for lo in range(0, len(live), batch):
            part = live[lo:lo + batch]
            acc, t, _ = validate(module, [{k: v for k, v in r.items() if k not in ("req", "profile")}
                                          for r in part], env, **kw)
            self.states += t.distinct
            self.transitions += t.generated
            self.notes.setdefault("validations", []).append(
                {"module": module, "runs": len(part), "distinct_states": t.distinct,
                 "wall_s": round(t.wall, 1)})
            accepted += len(acc)
            rejected = [r for r in part if r["id"] not in acc]
            if rejected:
                show = rejected[:limit]
                _, _, reached = validate(
                    module, [{k: v for k, v in r.items() if k not in ("req", "profile")}
                             for r in show], env, show=True, workers=2)
                for r in show:
                    at = reached.get(r["id"], 1)
                    steps = r.get("steps", [])
                    ev = steps[at - 1] if 0 < at <= len(steps) else None
                    self.violation(
                        "%s: step %d is not a step the specification allows" % (kind, at),
                        {"module": module, "env": env or {}, "profile": r.get("profile"),
                         "request": r["req"], "rejected_step": at, "event": ev, "run": r})
                log("%s: %d of %d runs rejected" % (self.pid, len(rejected), len(part)))
        self.traces += accepted
        if (self.deep or os.environ.get("CORRUPT")) and not self.violations:
            self.corrupt(module, live, env, by=by, **kw)
        for r in live[:1] + live[-1:]:
            if len(self.samples) < 6:
                t = json.dumps({k: v for k, v in r.items() if k != "req"})
                self.samples.append(json.loads(t) if len(t) < 6000 else t[:6000])
        return accepted

    def corrupt(self, module, live, env, n=80, by=1, **kw):
        """Shows that the validation is not vacuous: alters one recorded result in each of some
        accepted runs and counts how many of these the specification rejects. (A property that
        looks at part of a result does not notice changes elsewhere, so not all need to be.)"""
        small = [r for r in live if r.get("steps") and len(json.dumps(r["steps"])) < 4000]
        rng = random.Random("corrupt/%d" % self.seed)
        bad = []
        for r in rng.sample(small, min(n, len(small))):
            r = json.loads(json.dumps({k: v for k, v in r.items() if k not in ("req", "profile")}))
            spots = []
            for s in r["steps"]:
                _spots(s.get("r"), spots)
            if spots:
                holder, key = rng.choice(spots)
                v = holder[key]
                holder[key] = (not v) if isinstance(v, bool) else v + by if v < 255 or by > 1 else v - 1
                r["id"] = len(bad)
                bad.append(r)
        if not bad:
            return
        acc, _, _ = validate(module, bad, env, **kw)
        self.notes.setdefault("corrupted_runs", []).append(
            {"module": module, "altered": len(bad), "rejected": len(bad) - len(acc)})
        if len(acc) == len(bad) and len(bad) > 20:
            raise ToolError("%s accepts every altered run" % module)

    def finish(self):
        os.makedirs(EVIDENCE, exist_ok=True)
        cov = {"states": self.states, "transitions": self.transitions,
               "traces_validated_against_impl": self.traces, "samples": self.samples}
        cov.update(self.notes)
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed,
              "level": "model_checking", "coverage": cov, "assumptions": self.assumptions,
              "wall_s": round(time.time() - self.t0, 1), "violations": len(self.violations)}
        tmp = os.path.join(EVIDENCE, self.pid + ".json.tmp")
        with open(tmp, "w") as f:
            json.dump(ev, f, indent=1)
        os.replace(tmp, os.path.join(EVIDENCE, self.pid + ".json"))
        for k in self.known:
            print("KNOWN-FINDING: property=%s %s" % (self.pid, k))
        for what, path in self.violations:
            print("# " + what)
            print("VIOLATION property=%s replay=%s" % (self.pid, path))
        if not self.violations:
            print("OK property=%s states=%d traces=%d wall=%.1fs"
                  % (self.pid, self.states, self.traces, time.time() - self.t0))
        return 1 if self.violations else 0
