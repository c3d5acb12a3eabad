"""Runs one property's check: model-check the specification, let TLC generate behaviours of it, perform them on the
real code built from /repo, and let TLC validate the recorded traces against the same specification.

Outcomes: exit 0 (held on everything explored), exit 1 with a VIOLATION line, exit 2 (the check itself failed)."""

import concurrent.futures as cf
import hashlib
import json
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile
import threading
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
HARNESS = os.path.join(VERIF, "harness")
EVID = os.path.join(VERIF, "evidence")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
CHUNK = 6000  # trace lines per TLC run
JOBS = 7


class CheckError(Exception):
    """The machinery failed: nothing is said about the property."""


class Violation(Exception):
    def __init__(self, what, replay):
        super().__init__(what)
        self.what, self.replay = what, replay


def sh(cmd, timeout, env=None, cwd=None, merge=True):
    e = dict(os.environ)
    e.update(env or {})
    try:
        p = subprocess.run(cmd, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT if merge else subprocess.PIPE, timeout=timeout, env=e, cwd=cwd)
    except subprocess.TimeoutExpired as x:
        return None, (x.stdout or b"").decode("utf-8", "replace")
    return p.returncode, p.stdout.decode("utf-8", "replace")


def tla_val(v):
    if isinstance(v, bool):
        return "TRUE" if v else "FALSE"
    if isinstance(v, (set, frozenset)):
        return "{" + ", ".join(tla_val(x) for x in sorted(v)) + "}"
    if isinstance(v, (list, tuple)):
        return "<<" + ", ".join(tla_val(x) for x in v) + ">>"
    if isinstance(v, str):
        return v if v.startswith("@") is False and v in ("TRUE", "FALSE") else '"%s"' % v
    return str(v)


def write_cfg(path, constants, lines):
    with open(path, "w") as f:
        if constants:
            f.write("CONSTANTS\n")
            for k, v in constants.items():
                if isinstance(v, str) and v.startswith("<-"):     # another definition in place of one of the module's
                    f.write("  %s %s\n" % (k, v))
                else:
                    f.write("  %s = %s\n" % (k, tla_val(v)))
        f.write("\n".join(lines) + "\n")


def timed(what, f, *a):
    t = time.time()
    r = f(*a)
    if os.environ.get("VERIF_TIMING"):
        print("  %6.1fs %s" % (time.time() - t, what), file=sys.stderr)
    return r


def tours(edges, limit, share=1.0, seed=1):
    """Behaviours that together take every transition of the reachable state graph. edges: [history, source, target].
    Operations with several possible targets end their session, because the implementation chooses."""
    path, succ = {}, {}
    for h, a, b in edges:
        a, b, op = json.dumps(a), json.dumps(b), json.dumps(h[-1])
        path.setdefault(a, h[:-1])
        succ.setdefault(a, {}).setdefault(op, set()).add(b)
    out, todo, det = [], {}, {}
    for a, ops in succ.items():
        for op, bs in ops.items():
            if len(bs) == 1:
                todo.setdefault(a, []).append(op)
                det.setdefault(a, {})[op] = next(iter(bs))
            else:
                out.append(path[a] + [json.loads(op)])
    if share < 1:
        out = random.Random(seed).sample(out, int(len(out) * share))
    order = sorted(todo, key=lambda a: (len(path[a]), a))
    near = {a: {b: op for op, b in sorted(ops.items())} for a, ops in det.items()}   # one operation per neighbour
    for start in order:
        while todo[start]:
            at, sess = start, list(path[start])
            while len(sess) < limit:
                if todo.get(at):
                    op = todo[at].pop()
                    sess.append(json.loads(op))
                    at = det[at][op]
                    continue
                seen, queue, goal = {at: None}, [at], None      # walk to the nearest state with something left
                for x in queue:
                    if todo.get(x):
                        goal = x
                        break
                    for b, op in near.get(x, {}).items():
                        if b not in seen:
                            seen[b] = (x, op)
                            queue.append(b)
                    if len(seen) > 4000:
                        break
                if goal is None:
                    break
                walk = []
                while seen[goal]:
                    goal, op = seen[goal]
                    walk.append(op)
                if len(walk) > 12:
                    break
                for op in reversed(walk):
                    sess.append(json.loads(op))
                    at = det[at][op]
            out.append(sess)
    return out


class Runner:
    def __init__(self, plan, tier, seed, keep=False):
        self.plan, self.tier, self.seed, self.keep = plan, tier, seed, keep
        self.pid = plan["id"]
        self.t0 = time.time()
        self.tmp = tempfile.mkdtemp(prefix="verif-%s-" % self.pid)
        for n in os.listdir(SPEC):
            if n.endswith(".tla"):
                os.symlink(os.path.join(SPEC, n), os.path.join(self.tmp, n))
        self.cov = dict(states=0, transitions=0, traces_validated_against_impl=0, trace_events=0, samples=[],
                        model_checking=[], generated=[], implementations=[], operations={}, negative_controls=0)
        self.known_hits = {}
        self.n = 0
        self.lock = threading.Lock()
        self.built = {}

    # ---- TLC ------------------------------------------------------------------------------------
    def tlc(self, module, cfg, args=(), env=None, timeout=600, heap="3g", workers=1):
        self.n += 1
        meta = tempfile.mkdtemp(prefix="meta", dir=self.tmp)
        cmd = ["java", "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m", "-Djava.io.tmpdir=" + self.tmp,
               "-XX:TieredStopAtLevel=1" if timeout < 0 else "-XX:+TieredCompilation",
               "-cp", JARS, "tlc2.TLC", "-noGenerateSpecTE", "-deadlock", "-metadir", meta,
               "-workers", str(workers), "-config", cfg, *args, module + ".tla"]
        rc, out = sh(cmd, timeout, env=env, cwd=self.tmp)
        shutil.rmtree(meta, ignore_errors=True)
        if rc is None:
            raise CheckError("TLC timed out on %s\n%s" % (module, out[-2000:]))
        out = "\n".join(l for l in out.splitlines() if not re.match(r"(Parsing file|Semantic processing|Linting of|\(Use the -nowarning|Warning: Please run)", l))
        return rc, out

    @staticmethod
    def counts(out):
        m = re.findall(r"([\d,]+) states generated.*?, ([\d,]+) distinct states found", out)
        if not m:
            return None
        return int(m[-1][0].replace(",", "")), int(m[-1][1].replace(",", ""))

    def sel(self, items):
        for it in items:
            t = it.get("tier", "both")
            if t == "both" or t == self.tier:
                yield it

    def cst(self, it):
        c = dict(it.get("constants", {}))
        if self.tier == "thorough":
            c.update(it.get("thorough", {}))
        return c

    # ---- 1. the specification itself -------------------------------------------------------------
    def model_check(self, it):
        name = it["module"]
        cfg = os.path.join(self.tmp, "%s_mc%d.cfg" % (name, it["_k"]))
        lines = ["SPECIFICATION " + it.get("spec", "Spec")]
        lines += ["INVARIANT " + x for x in it.get("invariants", [])]
        lines += ["PROPERTY " + x for x in it.get("properties", [])]
        lines += ["CONSTRAINT " + x for x in it.get("constraints", [])]
        lines += ["VIEW " + it["view"]] if it.get("view") else []
        write_cfg(cfg, self.cst(it), lines)
        rc, out = self.tlc(name, cfg, timeout=1500 if self.tier == "thorough" else 400,
                           heap="6g", workers=it.get("workers", 2))
        c = self.counts(out)
        if rc != 0 or "No error has been found" not in out or not c:
            raise CheckError("model checking of %s failed (rc %s):\n%s" % (name, rc, out[-3000:]))
        return dict(module=name, constants={k: tla_val(v) for k, v in self.cst(it).items()},
                    invariants=it.get("invariants", []), properties=it.get("properties", []),
                    generated=c[0], distinct=c[1])

    # ---- 2. behaviours out of the specification ----------------------------------------------------
    def generate(self, it):
        name = it["module"]
        kind = it["kind"]
        cfg = os.path.join(self.tmp, "%s_gen%d.cfg" % (name, it["_k"]))
        cst = self.cst(it)
        lines = ["SPECIFICATION " + ("GSim" if kind == "sim" else "GSpec")]
        args = ()
        if kind == "cover":      # one behaviour per transition of the reachable state graph
            lines += ["VIEW GView", "ACTION_CONSTRAINT GEmit"]
        elif kind == "all":      # every behaviour of length Depth
            lines += ["ACTION_CONSTRAINT GEmitFull"]
        elif kind == "sim":      # random behaviours of length Depth
            lines += ["INVARIANT GEmitEnd"]
            args = ("-simulate", "num=%d" % (it["num_thorough"] if self.tier == "thorough" and "num_thorough" in it else it["num"]),
                    "-depth", str(cst["Depth"] + 2), "-seed", str(self.seed * 7919 + it["_k"]), "-aril", str(self.seed))
        elif kind == "cases":    # every initial-state case, one per behaviour
            lines += ["CONSTRAINT GNone", "INVARIANT GEmitState"]
        lines += ["CONSTRAINT " + x for x in it.get("constraints", [])]
        write_cfg(cfg, cst, lines)
        rc, out = self.tlc(name, cfg, args, timeout=900, heap="6g", workers=1)
        scripts = []
        edges = []
        for line in out.splitlines():
            if line.startswith('"SCRIPT '):
                scripts.append(json.loads(json.loads(line)[7:]))
            elif line.startswith('"EDGE '):
                edges.append(json.loads(json.loads(line)[5:]))
        if kind == "cover":
            scripts = tours(edges, it.get("session", 150), it.get("share", 1.0) if self.tier == "quick" else 1.0, self.seed)
        scripts = [[op for op in sc if op != ["nop"]] for sc in scripts]
        if kind == "sim":   # TLC evaluates the emitting invariant on every successor of the last state: keep one of them
            last = {}
            for sc in scripts:
                last.setdefault(json.dumps(sc[:-1]), []).append(sc)
            scripts = [v[(7 * k) % len(v)] for k, v in enumerate(last.values())]
        if not scripts:
            raise CheckError("no behaviours generated from %s (rc %s):\n%s" % (name, rc, out[-3000:]))
        if kind != "sim" and (rc != 0 or "No error has been found" not in out):
            raise CheckError("generation from %s failed (rc %s):\n%s" % (name, rc, out[-3000:]))
        return dict(kind=kind, module=name, constants={k: tla_val(v) for k, v in cst.items()}, scripts=scripts, edges=len(edges),
                    weight=it.get("weight", 1), only=it.get("only"))

    # ---- 3. the real code -----------------------------------------------------------------------
    def build(self, var):
        key = json.dumps([var["src"], var.get("cxx"), var.get("opt"), var.get("nosan"), var.get("flags"), var.get("repo_src"), var.get("libs")])
        with self.lock:
            fut = self.built.get(key)
            mine = fut is None
            if mine:
                fut = self.built[key] = cf.Future()
        if mine:
            try:
                fut.set_result(self.compile(var))
            except BaseException as e:
                fut.set_exception(e)
        return fut.result()

    def compile(self, var):
        out = os.path.join(self.tmp, "drv_" + var["name"])
        cxx = var.get("cxx", "g++")
        base = [cxx, "-std=gnu++20", "-w", "-g0"] + var.get("opt", ["-O1"])
        san = [] if var.get("nosan") else ["-fsanitize=address,undefined", "-fno-sanitize-recover=all"]
        inc = ["-isystem", os.path.join(REPO, "include"), "-I", HARNESS]
        src = [os.path.join(HARNESS, var["src"])] + [os.path.join(REPO, s) for s in var.get("repo_src", [])]
        cmd = base + san + var.get("flags", []) + inc + src + ["-o", out] + var.get("libs", [])
        rc, log = sh(cmd, 400)
        if rc == 0:
            return out
        if rc is None:
            raise CheckError("compiling the driver timed out")
        # Is it the toolchain, the driver, or the code under test? A driver uses the public interface only:
        # where it no longer compiles against the tree, the operations the property speaks of are not there.
        t = os.path.join(self.tmp, "t.cpp")
        with open(t, "w") as f:
            f.write("#include <vector>\n#include <iostream>\nint main(){ std::vector<int> v; std::cout<<v.size(); }\n")
        rc2, log2 = sh(base + san + [t, "-o", t + ".out"], 200)
        if rc2 != 0:
            raise CheckError("the compiler does not work here:\n" + log2[-2000:])
        rp = self.replay("compile", dict(kind="the operations of this property no longer compile",
                                         command=" ".join(cmd), log=log[-6000:]))
        raise Violation("the driver, which uses only the public interface, does not compile against the tree", rp)

    def run_driver(self, var, exe, sessions, tag):
        """Performs the sessions; returns one list of trace records per session."""
        env = {"ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=95:symbolize=0:allocator_may_return_null=1:detect_stack_use_after_return=0:quarantine_size_mb=64",
               "UBSAN_OPTIONS": "halt_on_error=1:exitcode=94", "VERIF_SEED": str(self.seed)}
        env.update(var.get("env", {}))
        done = []
        startup = 0
        while len(done) < len(sessions):
            rest = sessions[len(done):]
            sp = os.path.join(self.tmp, "s_%s_%s" % (var["name"], tag))
            tp = sp + ".trace"
            with open(sp, "w") as f:
                for s in rest:
                    for op in s:
                        f.write("\t".join(x if isinstance(x, str) else json.dumps(x, separators=(",", ":")) for x in op) + "\n")
            if os.path.exists(tp):
                os.unlink(tp)
            rc, log = sh([exe, sp, tp] + var.get("args", []), 600, env=env, cwd=self.tmp)
            lines = []
            if os.path.exists(tp):
                with open(tp, encoding="utf-8", errors="replace") as f:
                    for l in f:
                        if l.endswith("\n"):
                            lines.append(json.loads(l))
            k = 0
            full = True
            for s in rest:
                if k + len(s) <= len(lines):
                    done.append(lines[k:k + len(s)])
                    k += len(s)
                else:
                    full = False
                    break
            if full:
                if rc != 0 and rc is not None:
                    # every operation was performed but the process ended badly: blame its last session
                    done[-1] = done[-1] + [dict(op=["end"], out=dict(s="crash:%s" % rc, v=[]), obs=done[-1][-1]["obs"])]
                    self.note_crash(var, rc, log)
                break
            if not lines and startup < 3:   # died before the first operation: once more (sanitizer start-up)
                startup += 1
                continue
            part = lines[k:]
            s = rest[len(done) - (len(sessions) - len(rest))]
            prev = part[-1]["obs"] if part else (done[-1][-1]["obs"] if done else [])
            part = part + [dict(op=s[len(part)], out=dict(s="crash:%s" % rc, v=[]), obs=prev)]
            self.note_crash(var, rc, log)
            done.append(part)
            startup = 0
            if sum(1 for d in done if d[-1]["out"]["s"].startswith("crash")) >= 3:
                break               # enough: the trace is rejected anyway
        return done

    def note_crash(self, var, rc, log):
        self.last_crash = "driver %s ended with %s: %s" % (var["name"], rc, log[-1500:])

    # ---- 4. is the recorded trace a behaviour of the specification? ---------------------------------
    def of(self, var):
        """The trace specification for an implementation, and its constants."""
        own = "trace_cfg" in var
        return var.get("trace", self.plan["trace"]), dict(self.cst(var["trace_cfg"] if own else self.plan.get("trace_cfg", {})), **var.get("constants", {}))

    def validate(self, trace, tag, var):
        """None if TLC accepts; otherwise the number of the first line it cannot explain."""
        tp = os.path.join(self.tmp, "trace_%s.ndjson" % tag)
        with open(tp, "w") as f:
            for r in trace:
                f.write(json.dumps(r, separators=(",", ":")) + "\n")
        mod, constants = self.of(var)
        cfg = os.path.join(self.tmp, "tr_%s.cfg" % tag)
        write_cfg(cfg, constants, ["SPECIFICATION TSpec", "POSTCONDITION TAccepted"] +
                  ["INVARIANT " + x for x in self.plan.get("trace_invariants", [])])
        rc, out = self.tlc(mod, cfg, env={"TRACE": tp}, timeout=800, heap="3g")
        os.unlink(tp)
        c = self.counts(out)
        for m in re.finditer(r'"KNOWN (\w+) (\d+)"', out):
            self.known_hits.setdefault(m[1], 0)
            self.known_hits[m[1]] += 1
        m = re.search(r'"REACHED (\d+) OF (\d+)"', out)
        if not m or int(m[2]) != len(trace):
            if "is violated" in out and c:      # an invariant of the specification fails on the trace
                k = len(re.findall(r"^State \d+:", out, re.M))
                return k - 1 if k > 1 else 0, out
            if re.search(r"Attempted to|evaluating|Error: Evaluating", out):
                # a recorded value outside the types of the specification: find the line by bisection-free report
                d = re.findall(r"/\\ l = (\d+)", out)
                if d:
                    return int(d[-1]) - 1, out
            raise CheckError("trace validation failed (rc %s):\n%s" % (rc, out[-3000:]))
        if int(m[1]) == len(trace):
            return None, out
        return int(m[1]), out

    def replay(self, tag, data):
        d = os.path.join(EVID, "replays")
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, "%s-%s.json" % (self.pid, tag))
        data.update(property=self.pid, title=self.plan["title"], seed=self.seed, tier=self.tier)
        with open(p, "w") as f:
            json.dump(data, f, indent=1)
        return p

    def reject(self, var, exe, session, rec, line, out):
        """A session whose trace TLC rejects: perform it again on its own; report only if it is rejected again."""
        again = self.run_driver(var, exe, [session], "re")[0]
        bad, out2 = self.validate(again, "re", var)
        if bad is None:
            if not self.plan.get("once"):
                return None
            # a draw is random and need not repeat: the recorded trace itself is the evidence
            again, bad = rec, line
        h = hashlib.sha1(json.dumps(session).encode()).hexdigest()[:10]
        if bad >= len(again):
            bad = len(again) - 1
        what = "operation %s gave %s, observed %s: not a behaviour of %s" % (
            json.dumps(again[bad]["op"]), json.dumps(again[bad]["out"]), json.dumps(again[bad]["obs"])[:300], self.of(var)[0])
        rp = self.replay("%s-%s" % (var["name"], h), dict(
            kind="trace rejected by the specification", specification=self.of(var)[0] + ".tla", implementation=var["name"],
            script=session, first_rejected_line=bad, last_accepted=again[bad - 1] if bad else None,
            rejected=again[bad], trace=again[:bad + 1], crash=getattr(self, "last_crash", None)))
        raise Violation(what, rp)

    # ---- everything -----------------------------------------------------------------------------
    def run(self):
        plan = self.plan
        for key in ("mc", "gen"):
            for k, it in enumerate(plan.get(key, [])):
                it["_k"] = k
        with cf.ThreadPoolExecutor(max_workers=JOBS) as ex:
            vs = list(self.sel(plan["drivers"]))
            fb = [ex.submit(timed, "build " + v["name"], self.build, v) for v in vs]
            fg = [ex.submit(timed, "gen %s %s" % (it["module"], it["kind"]), self.generate, it) for it in self.sel(plan["gen"])]
            fm = [ex.submit(timed, "mc " + it["module"], self.model_check, it) for it in self.sel(plan.get("mc", []))]
            exes = [f.result() for f in fb]
            gens = [f.result() for f in fg]
            for g in gens:
                self.cov["generated"].append(dict(module=g["module"], kind=g["kind"], constants=g["constants"],
                                                  behaviours=len(g["scripts"]), model_transitions_covered=g["edges"]))
            work = []
            for v, exe in zip(vs, exes):
                for gi, g in enumerate(gens):
                    if g["only"] and v["name"] not in g["only"]:
                        continue
                    if v.get("gens") and g["kind"] not in v["gens"]:
                        continue
                    sessions, n = [], 0
                    for s in g["scripts"]:
                        if not s:
                            continue
                        s = s if s[0][0] == "new" else [["new"]] + s
                        s = s + plan.get("epilogue", [])
                        sessions.append(s)
                        n += len(s)
                        if n >= plan.get("chunk", CHUNK):
                            work.append((v, exe, sessions, "%d_%d" % (gi, len(work))))
                            sessions, n = [], 0
                    if sessions:
                        work.append((v, exe, sessions, "%d_%d" % (gi, len(work))))
            stop = []

            def job(w):
                if stop:
                    return None
                v, exe, sessions, tag = w
                tag = v["name"] + "_" + tag
                recs = timed("run " + tag, self.run_driver, v, exe, sessions, tag)
                flat = [r for s in recs for r in s]
                bad, out = timed("validate %s (%d lines)" % (tag, len(flat)), self.validate, flat, tag, v)
                if bad is not None:
                    stop.append(1)
                return w, recs, bad, out

            # a rejection in several chunks needs only one report
            results = [r for r in ex.map(job, work)]
            for f in fm:
                r = f.result()
                self.cov["model_checking"].append(r)
                self.cov["states"] += r["distinct"]
                self.cov["transitions"] += r["generated"]
        impl = {}
        unstable = 0
        for r in results:
            if r is None:
                continue
            (v, exe, sessions, tag), recs, bad, out = r
            if bad is not None:
                k, acc = 0, 0
                for k, s in enumerate(recs):
                    if bad < acc + len(s):
                        break
                    acc += len(s)
                self.reject(v, exe, sessions[k], recs[k], bad - acc, out)
                # not rejected on its own: once more in its context
                recs2 = self.run_driver(v, exe, sessions, tag)
                flat = [x for s in recs2 for x in s]
                bad2, _ = self.validate(flat, tag, v)
                if bad2 is None:
                    unstable += 1
                    continue
                rp = self.replay("%s-chunk" % v["name"], dict(kind="trace rejected by the specification (in context only)",
                                 specification=self.of(v)[0] + ".tla", implementation=v["name"], first_rejected_line=bad2,
                                 rejected=flat[min(bad2, len(flat) - 1)], trace=flat[max(0, bad2 - 200):bad2 + 1]))
                raise Violation("trace rejected at %s" % json.dumps(flat[min(bad2, len(flat) - 1)]), rp)
            d = impl.setdefault(v["name"], dict(implementation=v["name"], sessions=0, events=0))
            d["sessions"] += len(recs)
            for s in recs:
                d["events"] += len(s)
                for rec in s:
                    key = "%s -> %s" % (rec["op"][0], rec["out"]["s"])
                    self.cov["operations"][key] = self.cov["operations"].get(key, 0) + 1
            self.cov["traces_validated_against_impl"] += len(recs)
            self.cov["trace_events"] += sum(len(s) for s in recs)
            if len(self.cov["samples"]) < 3:
                s = recs[len(recs) // 2]
                self.cov["samples"].append(dict(implementation=v["name"], trace=s[:8]))
        if unstable:
            raise CheckError("%d rejections were not repeated by a second run" % unstable)
        self.cov["implementations"] = list(impl.values())
        missing = [o for o in plan.get("expect", []) if not any(k.startswith(o) for k in self.cov["operations"])]
        if missing:
            raise CheckError("operations never exercised: %s" % missing)
        self.negative_control([r for r in results if r is not None])
        self.cov["exhaustive"] = False

    def negative_control(self, results):
        """The binding must bite: one recorded number is changed in a trace just accepted, and TLC must reject it."""
        best = None
        for (v, exe, sessions, tag), recs, bad, out in results:
            for s in recs:
                if any(self.ints_of(r["obs"]) for r in s) and (best is None or len(s) > len(best)) and len(s) <= 60:
                    best, var = s, v
            if best:
                break
        if not best:
            return
        t = json.loads(json.dumps(best))
        for r in reversed(t):
            if self.bump(r, "obs"):
                break
        bad, _ = self.validate(t, "neg", var)
        if bad is None:
            raise CheckError("negative control: a corrupted trace was accepted")
        self.cov["negative_controls"] += 1

    @staticmethod
    def ints_of(x):
        if isinstance(x, bool) or isinstance(x, str):
            return False
        if isinstance(x, int):
            return True
        if isinstance(x, list):
            return any(Runner.ints_of(y) for y in x)
        if isinstance(x, dict):
            return any(Runner.ints_of(y) for y in x.values())
        return False

    @staticmethod
    def bump(c, k):
        v = c[k]
        if isinstance(v, int) and not isinstance(v, bool):
            c[k] = v + 1000
            return True
        if isinstance(v, list):
            return any(Runner.bump(v, i) for i in range(len(v)))
        if isinstance(v, dict):
            return any(Runner.bump(v, i) for i in v)
        return False

    def evidence(self, violations):
        os.makedirs(EVID, exist_ok=True)
        d = dict(property=self.pid, tier=self.tier, seed=self.seed, level="model_checking", coverage=self.cov,
                 assumptions=self.plan.get("assumptions", []), wall_s=round(time.time() - self.t0, 2), violations=violations)
        with open(os.path.join(EVID, self.pid + ".json"), "w") as f:
            json.dump(d, f, indent=1)


def known_findings(pid):
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return [k for k in json.load(f)["known"] if k["property"] == pid]


def check(plan, tier, seed, keep=False):
    r = Runner(plan, tier, seed, keep)
    try:
        r.run()
        listed = {k["marker"]: k for k in known_findings(plan["id"])}
        for m, n in sorted(r.known_hits.items()):
            if m not in listed:
                rp = r.replay("unlisted-" + m, dict(kind="deviation action not listed in known_findings.json", marker=m, times=n))
                raise Violation("deviation %s observed %d times and not listed" % (m, n), rp)
            print("KNOWN-FINDING: property=%s %s" % (plan["id"], listed[m]["what"]))
        r.cov["known_findings_observed"] = r.known_hits
        r.evidence(0)
        print("OK property=%s tier=%s states=%d traces=%d events=%d wall=%.1fs" % (
            plan["id"], tier, r.cov["states"], r.cov["traces_validated_against_impl"], r.cov["trace_events"], time.time() - r.t0))
        return 0
    except Violation as v:
        if not r.cov["samples"]:
            r.cov["samples"].append(v.what)
        r.evidence(1)
        print("REJECTED: " + (v.what if len(v.what) < 1500 else v.what[:700] + " ... " + v.what[-700:]))
        print("VIOLATION property=%s replay=%s" % (plan["id"], v.replay))
        return 1
    except CheckError as e:
        print("CHECK-ERROR property=%s: %s" % (plan["id"], e), file=sys.stderr)
        return 2
    finally:
        if keep:
            print("kept " + r.tmp)
        else:
            shutil.rmtree(r.tmp, ignore_errors=True)
