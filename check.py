#!/usr/bin/env python3
"""check.py ID: decide property ID of nobject-rs, as the working tree of /repo
has it, against the specification in spec/.   (VERIF_TIER, VERIF_SEED)

  1. build the harness with the library from /repo; collect the words and
     numbers of its source as additional inputs
  2. TLC explores the jobs of tools/jobs.py: the property's invariants on the
     specification, and every behaviour printed with its expected result
  3. the harness replays the behaviours into the library
  4. the harness records runs of the library on random files, and TLC decides
     whether each is a behaviour of the specification
  5. a corrupted expectation and a corrupted recording have to be noticed
  6. known findings are probed, evidence/ID.json is written

Exit 0: the property held.  Exit 1: VIOLATION line.  Exit 2: no answer.

check.py replay FILE: judge a replay file again.
"""
import concurrent.futures as cf
import copy
import glob
import json
import os
import resource
import shutil
import signal
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "tools"))
import harvest  # noqa: E402
import jobs as J  # noqa: E402

SPEC = os.path.join(HERE, "spec")
REPO_SRC = "/repo/src"
BUILD = os.path.join(HERE, "build")
TARGET = os.path.join(BUILD, "target")
CONFORM = os.path.join(TARGET, "release", "conform")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
TIER = os.environ.get("VERIF_TIER", "quick")
if TIER not in ("quick", "thorough"):
    TIER = "quick"
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
QUICK = TIER == "quick"
CORES = 8
WORKERS = 2
LIMIT = 780 if QUICK else 6 * 3600  # seconds for one tool run


class ToolError(Exception):
    pass


def quiet_core():
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def limited():
    quiet_core()
    resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))


def build():
    """The harness with the library as it is in /repo now."""
    for d in glob.glob(os.path.join(TARGET, "release", ".fingerprint", "nobject-rs-*")):
        shutil.rmtree(d, ignore_errors=True)
    env = dict(os.environ, CARGO_TARGET_DIR=TARGET, CARGO_NET_OFFLINE="true", RUSTC_WRAPPER="", CARGO_TERM_COLOR="never",
               RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu")
    for k in ("RUSTFLAGS", "CARGO_BUILD_TARGET", "CARGO_ENCODED_RUSTFLAGS"):
        env.pop(k, None)
    r = subprocess.run(["cargo", "build", "--release", "--offline", "--locked"], cwd=os.path.join(HERE, "harness"), env=env,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise ToolError("cannot build the harness:\n" + r.stdout[-3000:])


def look_around(work):
    """Words, numbers and amounts of the source, for TLC and the recorder."""
    path = os.path.join(work, "found.json")
    try:
        found = harvest.found(REPO_SRC)
    except Exception:  # inputs only: without them the check is a check still
        found = dict(words=["default"], values=["1"], sizes=[5], many=[5])
    with open(path, "w") as f:
        json.dump(found, f)
    os.environ["FOUND"] = path
    return {k: len(v) for k, v in found.items()}


# ---------------------------------------------------------------- TLC

def tla_set(names):
    return "{" + ", ".join('"%s"' % n for n in names) + "}"


def fields_line(kind, want):
    name = "Fields" if kind == "obj" else "Parts"
    if want == J.ALL:
        return " %s <- Everything" % name
    return " %s = %s" % (name, tla_set(want))


def config(prop, plan, job):
    """Module and configuration text of a TLC job."""
    typ, kind, p = job
    K = {"obj": "Obj", "mtl": "Mtl", "both": ""}[kind]
    want = plan.get(kind)
    lines = ["SPECIFICATION Spec", "CONSTANTS"]
    inv, props = [], []
    fields = fields_line(kind, want) if want else ""
    if typ == "mc":
        lines += [' Alpha = "%s"' % p["alpha"], " Depth = %d" % p["depth"], " EmitFrom = 1", fields, " NumVal <- Literal"]
        module = K + "MC"
        big = p["alpha"].endswith("Wide") or p["alpha"] in ("everything", "mapsCombined", "switches")
        if not big:
            inv += [i for i in J.INVARIANTS.get(prop, []) if i.startswith("Inv")]
            if p["depth"] <= 3 and prop in ("C02", "C12", "C15", "C24", "C10", "C01", "C22"):
                inv.append("WholeText")
        if kind == "obj" and prop == "C22":
            props.append("PropAppendOnly")
        if kind == "mtl" and prop == "C23":
            props.append("PropTouchesLast")
        if kind == "mtl" and prop == "C15" and p["depth"] <= 2:
            inv.append("Headless")
    elif typ == "text":
        lines += [' PoolName = "%s"' % p["pool"], " N = %d" % p["n"], " EmitFrom = %d" % p["start"], fields, " NumVal <- Literal"]
        module = K + "Text"
        inv.append("Begins0")
        if p["pool"] == "numChars":
            inv.append("NumberGrammar")
    elif typ == "layout":
        lines += [' Pool = "%s"' % p["pool"], " Depth = %d" % p["depth"], " EmitFrom = 1", " Reach = %d" % p["reach"],
                  " Uniform = %s" % ("TRUE" if p["uniform"] else "FALSE"), fields, " NumVal <- Literal"]
        module = K + "Layout"
        inv.append("SameMeaning")
    elif typ == "size":
        lines += [' Units = "%s"' % p["units"], ' Upto = "%s"' % p["upto"], fields, " NumVal <- Literal"]
        module = K + "Size"
        inv.append("ByLine")
    elif typ == "many":
        lines += [' Units = "%s"' % p["units"], ' Upto = "%s"' % p["upto"], fields, " NumVal <- Literal"]
        module = K + "Many"
        inv.append("ClosedForm")
    elif typ == "write":
        lines += [' Alpha = "%s"' % p["alpha"], " Depth = %d" % p["depth"], " Walk = %s" % ("TRUE" if p["walks"] else "FALSE"), fields, " NumVal <- Literal"]
        module = K + "Write"
        inv.append("RoundTrip")
    elif typ == "swap":
        lines += [' Alpha = "%s"' % p["alpha"], " Depth = %d" % p["depth"], " Swaps = %d" % p["swaps"], " Walk = %s" % ("TRUE" if p["walks"] else "FALSE"),
                  fields, " NumVal <- Literal"]
        module = K + "Swap"
        inv.append("SameModel")
    elif typ == "join":
        lines += [' AlphaA = "%s"' % p["first"], ' AlphaB = "%s"' % p["second"], " DepthA = %d" % p["depth"], " DepthB = %d" % p["then"],
                  " Walk = %s" % ("TRUE" if p["walks"] else "FALSE"), fields, " NumVal <- Literal"]
        module = K + "Join"
        inv.append("PutTogether")
    elif typ == "purity":
        lines += [" Threads = %d" % p["threads"], " Calls = %d" % p["calls"], ' PoolName = "%s"' % p["pool"]]
        module = "Purity"
        inv.append("OwnAnswers")
    elif typ == "trace":
        lines += [fields, " NumVal <- BitsOf", " Total = %s" % ("TRUE" if plan.get("total") else "FALSE")]
        module = K + "Trace"
        inv.append("Properties")
    inv.append("Told" if typ == "trace" else "Emit")
    lines.append("INVARIANTS " + " ".join(inv))
    if props:
        lines.append("PROPERTIES " + " ".join(props))
    if typ == "trace":
        lines.append("VIEW Where0")
    lines.append("CHECK_DEADLOCK FALSE")
    return module, "\n".join(lines) + "\n"


def title(job):
    typ, kind, p = job
    return " ".join([typ, kind] + ["%s=%s" % kv for kv in p.items()])


def tlc(work, n, module, cfg, env=None, walks=0, steps=0):
    """Runs TLC; returns (output file, states generated, distinct states)."""
    base = os.path.join(work, "job%d" % n)
    with open(base + ".cfg", "w") as f:
        f.write(cfg)
    meta = base + ".meta"
    out = base + ".out"
    # Random walks: one worker, so that they are the same in every run.
    how = ["-simulate", "num=%d" % walks, "-seed", str(SEED * 1000 + n), "-depth", str(steps + 1)] if walks else []
    cmd = ["java", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-Xss64m", "-Xmx3g", "-cp", JARS, "tlc2.TLC",
           "-noGenerateSpecTE"] + how + ["-workers", str(1 if walks else WORKERS), "-metadir", meta, "-config", base + ".cfg", module + ".tla"]
    with open(out, "w") as f:
        r = subprocess.run(cmd, cwd=SPEC, stdout=f, stderr=subprocess.STDOUT, env=dict(os.environ, **(env or {})),
                           timeout=LIMIT, preexec_fn=quiet_core)
    shutil.rmtree(meta, ignore_errors=True)
    gen = dist = None
    err = []
    with open(out) as f:
        for line in f:
            if line.startswith('"'):
                continue
            if "states generated," in line and "distinct states found" in line and not line.startswith("Progress"):
                w = line.replace(",", "").split()
                gen, dist = int(w[0]), int(w[3])
            elif walks and line.startswith("The number of states generated: "):
                gen = dist = int(line.split()[-1])
            elif len(err) < 40 and (err or line.startswith("Error") or "rror:" in line):
                err.append(line)
    if r.returncode != 0 or gen is None:
        raise ToolError("TLC failed on %s (%s):\n%s" % (module, out, "".join(err)))
    return out, gen, dist


# ------------------------------------------------------- the library

class Found(Exception):
    """A violation found where the harness itself did not survive."""

    def __init__(self, path, what):
        self.path, self.what = path, what


def conform(args, env=None, timeout=LIMIT):
    try:
        return subprocess.run([CONFORM] + args, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace",
                              preexec_fn=limited, timeout=timeout, env=dict(os.environ, **(env or {})))
    except subprocess.TimeoutExpired:
        return None


def summary(r):
    for line in r.stdout.split("\n"):
        if line.startswith("SUMMARY "):
            return json.loads(line[8:])
    raise ToolError("no summary from the harness: " + r.stdout[-500:] + r.stderr[-500:])


def isolate(prop, kind, work, mode, files):
    """The replay did not come back: finds a case that kills or hangs the library."""
    def survives(lo, hi):
        r = conform(["replay", prop, kind, work, mode] + files, env={"CASES": "%d-%d" % (lo, hi)}, timeout=90)
        return r is not None and r.returncode in (0, 1), r
    n = int(conform(["count", kind] + files).stdout.strip())
    lo, hi = 0, n
    ok, _ = survives(lo, hi)
    if ok:
        return None
    while hi - lo > 1:
        mid = (lo + hi) // 2
        if not survives(lo, mid)[0]:
            hi = mid
        elif not survives(mid, hi)[0]:
            lo = mid
        else:
            break
    r = conform(["case", kind, str(lo)] + files)
    path = os.path.join(work, "%s-crash.json" % prop)
    body = json.loads(r.stdout)
    body.update(property=prop, difference="the process did not survive loading this text (abort, stack overflow or no end)")
    with open(path, "w") as f:
        json.dump(body, f, indent=1)
    return path


def replay(prop, kind, work, mode, files):
    r = conform(["replay", prop, kind, work, mode] + files)
    if r is not None and r.returncode in (0, 1):
        return r, summary(r)
    if r is not None and r.returncode == 2:
        raise ToolError("replay: " + r.stderr[-2000:])
    path = isolate(prop, kind, work, mode, files)
    if path is None:
        raise ToolError("the replay ended with %s once, but not again" % (r.returncode if r else "a timeout"))
    raise Found(path, "the library did not survive")


def leaf_change(x):
    """x with its first leaf that can be changed, changed; None if there is none."""
    if isinstance(x, bool):
        return not x
    if isinstance(x, int):
        return x + 1
    if isinstance(x, str):
        return x + "1"
    if isinstance(x, list):
        for i, y in enumerate(x):
            z = leaf_change(y)
            if z is not None:
                return x[:i] + [z] + x[i + 1:]
        return x[:-1] if x else None
    if isinstance(x, dict):
        for k in sorted(x):
            if k in ("ok", "why"):
                continue
            z = leaf_change(x[k])
            if z is not None:
                return dict(x, **{k: z})
    return None


def self_test_replay(prop, kind, work, mode, files):
    """A corrupted expectation is reported (or, in total mode, nothing else is)."""
    if mode == "total":
        return "not applicable"
    r = conform(["case", kind, "richest"] + files)
    body = json.loads(r.stdout)
    wrong = leaf_change(body["expected"])
    if wrong is None:
        return "no case with content"
    path = os.path.join(work, "selftest.out")
    with open(path, "w") as f:
        f.write(json.dumps(json.dumps({"x": body["encoded"], "e": wrong})) + "\n")
    d = os.path.join(work, "selftest")
    os.makedirs(d, exist_ok=True)
    r = conform(["replay", prop, kind, d, mode, path])
    if r is None or r.returncode != 1:
        raise ToolError("a corrupted expectation was not noticed: %s" % path)
    return "corrupted expectation reported"


def record(prop, plan, work, n, job):
    typ, kind, p = job
    d = os.path.join(work, "trace%d" % n)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    want = plan[kind]
    parts = list(want) if want != J.ALL else []
    args = ["record", d, kind, p["profile"], str(p["count"]), str(p["lines"]), str(p["every"]), str(SEED * 1000 + n)] + parts
    r = conform(args)
    if r is None or r.returncode not in (0, 2):
        if not os.path.exists(os.path.join(d, "running.txt")):
            conform(args, env={"LOG_EVERY_TEXT": "1"}, timeout=120)
        path = os.path.join(work, "%s-crash.json" % prop)
        text = open(os.path.join(d, "running.txt"), errors="replace", newline="").read()
        with open(path, "w") as f:
            json.dump(dict(property=prop, kind=kind, text=text,
                           difference="the process did not survive loading this text (abort, stack overflow or no end)"), f, indent=1)
        raise Found(path, "the library did not survive")
    if r.returncode == 2:
        raise ToolError("record: " + r.stderr[-2000:])
    info = summary(r)
    info["corrupted"] = 0
    if not info["traces"]:
        return d, info
    # A last trace is one of the others, with one answer corrupted.
    lines = open(os.path.join(d, "traces.ndjson")).read().rstrip("\n").split("\n")
    if not plan.get("total"):
        for line in lines:
            t = json.loads(line)
            for s in reversed(t["steps"]):
                if s.get("got", {}).get("ok"):
                    z = leaf_change({k: v for k, v in s["got"].items()})
                    if z is not None:
                        s["got"] = z
                        info["corrupted"] = 1
                    break
            if info["corrupted"]:
                with open(os.path.join(d, "traces.ndjson"), "a") as f:
                    f.write(json.dumps(t) + "\n")
                break
    return d, info


def validate(prop, plan, work, n, job):
    """Records runs and has TLC decide them."""
    d, info = record(prop, plan, work, n, job)
    if not info["traces"]:
        return dict(gen=0, dist=0, info=info, bad=[], sample="")
    module, cfg = config(prop, plan, job)
    env = {"TRACES": os.path.join(d, "traces.ndjson"), "LITERALS": os.path.join(d, "literals.json")}
    out, gen, dist = tlc(work, n, module, cfg, env)
    verdicts = {}
    with open(out) as f:
        for line in f:
            if line.startswith('"{'):
                v = json.loads(json.loads(line))
                verdicts[v["trace"]] = v
    total = info["traces"] + info["corrupted"]
    if len(verdicts) != total:
        raise ToolError("%d of %d traces decided (%s)" % (len(verdicts), total, out))
    if info["corrupted"] and verdicts[total]["verdict"] != "rejected":
        raise ToolError("a corrupted recording was accepted (%s)" % d)
    bad = []
    for k in range(1, info["traces"] + 1):
        v = verdicts[k]
        if v["verdict"] == "rejected":
            t = json.loads(open(os.path.join(d, "traces.ndjson")).read().split("\n")[k - 1])
            full = json.loads(open(os.path.join(d, "texts.ndjson")).read().split("\n")[k - 1])["text"]
            upto = sum(len(s["t"]) for s in t["steps"][:v["step"]])
            path = os.path.join(work, "%s-trace-%d-%d.json" % (prop, n, k))
            with open(path, "w") as f:
                json.dump(dict(property=prop, kind=job[1], text=full[:upto], expected_bits=v["want"],
                               got=t["steps"][v["step"] - 1].get("got"), difference="not a behaviour of the specification"), f, indent=1)
            bad.append((upto, path))
            if len(bad) >= 20:
                break
    sample = json.loads(open(os.path.join(d, "texts.ndjson")).readline())["text"]
    shutil.rmtree(d, ignore_errors=True)
    os.remove(out)
    return dict(gen=gen, dist=dist, info=info, bad=[b[1] for b in sorted(bad)[:3]], sample=sample[:300])


# ------------------------------------------------------ known findings

def known(prop):
    """Probes the listed findings of this property on the library."""
    said = []
    path = os.path.join(HERE, "known-findings.jsonl")
    for line in open(path):
        if not line.startswith("{"):
            continue
        k = json.loads(line)
        if k["property"] != prop:
            continue
        f = os.path.join(BUILD, "probe.%d.txt" % os.getpid())
        with open(f, "w", newline="") as g:
            g.write(k["text"])
        r = conform(["show", k["kind"], f])
        os.remove(f)
        if r is not None and r.returncode == 0 and json.loads(r.stdout) == k["wrong"]:
            said.append(k)
            print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    return said


# ---------------------------------------------------------------- main

def decide(prop):
    start = time.time()
    plan = J.PLAN[prop]
    todo = list(plan["quick"])
    if not QUICK:
        todo += plan["thorough"]

    def weaker(a, b):  # a is contained in b
        return a[:2] == b[:2] and a[0] in ("mc", "write") and dict(a[2], depth=0) == dict(b[2], depth=0) and a[2]["depth"] < b[2]["depth"]
    todo = [a for i, a in enumerate(todo) if not any(weaker(a, b) for b in todo) and a not in todo[:i]]
    work = os.path.join(BUILD, "run", prop)
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    build()
    words = look_around(work)
    mode = "total" if plan.get("total") else "full"
    if plan.get("errors"):
        os.environ["ERRORS"] = "1"
    violations = []   # (path, what)
    states = transitions = traces = calls = 0
    samples, covered, tests = [], [], []

    def run(i_job):
        i, job = i_job
        t0 = time.time()
        if job[0] == "trace":
            r = validate(prop, plan, work, i, job)
            return i, job, r, time.time() - t0
        module, cfg = config(prop, plan, job)
        out, gen, dist = tlc(work, i, module, cfg, walks=job[2].get("walks", 0), steps=sum(job[2].get(k, 0) for k in ("depth", "swaps", "then")))
        return i, job, (out, gen, dist), time.time() - t0

    first = {}
    trouble = None
    order = sorted(enumerate(todo), key=lambda x: (x[1][0] == "trace", x[0]))
    try:
        with cf.ThreadPoolExecutor(CORES // WORKERS) as pool:
            futures = [pool.submit(run, x) for x in order]
            for fu in cf.as_completed(futures):
                if violations or trouble:  # what is running ends, the rest is left
                    for f in futures:
                        f.cancel()
                if fu.cancelled():
                    continue
                try:
                    i, job, r, took = fu.result()
                except Found as e:
                    violations.append((e.path, e.what))
                    continue
                except (ToolError, subprocess.TimeoutExpired) as e:
                    trouble = trouble or e
                    continue
                if job[0] == "trace":
                    states += r["dist"]
                    transitions += r["gen"]
                    traces += r["info"]["traces"]
                    calls += r["info"]["answers"]
                    covered.append(dict(job=title(job), states=r["dist"], traces=r["info"]["traces"], answers=r["info"]["answers"],
                                        refused=r["info"]["refused"], seconds=round(took, 1)))
                    if r["info"]["corrupted"]:
                        tests.append("corrupted recording rejected")
                    if len([s for s in samples if "recorded" in s]) < 1:
                        samples.append({"job": title(job), "recorded": r["sample"]})
                    violations += [(p, "recorded run rejected by the specification") for p in r["bad"]]
                    continue
                out, gen, dist = r
                states += dist
                transitions += gen
                kind, p = job[1], job[2]
                if job[0] == "purity":
                    q = conform(["purity", prop, work, str(p["fresh"]), str(p["rounds"]), out], timeout=LIMIT // 2)
                    if q is None or q.returncode not in (0, 1):
                        path = os.path.join(work, "%s-purity-crash.json" % prop)
                        shutil.copy(out, path)
                        violations.append((path, "the library did not survive the schedules"))
                        continue
                    s = summary(q)
                    calls += s["calls"] + s["concurrent_calls"]
                    lines = [l for l in q.stdout.split("\n") if l.startswith("VIOLATION")]
                else:
                    try:
                        q, s = replay(prop, kind, work, mode, [out])
                    except Found as e:
                        violations.append((e.path, e.what))
                        continue
                    calls += s["cases"]
                    lines = [l for l in q.stdout.split("\n") if l.startswith("VIOLATION")]
                    if kind not in first and q.returncode == 0:
                        first[kind] = True
                        tests.append(self_test_replay(prop, kind, work, mode, [out]))
                if s["cases"] == 0:
                    raise ToolError("no behaviours from " + title(job))
                traces += s["cases"]
                c = dict(job=title(job), states=dist, replayed=s["cases"], distinct=s["distinct"], seconds=round(took, 1))
                for k in ("refusals", "processes", "concurrent_calls"):
                    if k in s:
                        c[k] = s[k]
                covered.append(c)
                if len(samples) < 4 and s["samples"]:
                    samples.append({"job": title(job), **s["samples"][len(s["samples"]) // 2]})
                for l in lines:
                    old = l.split("replay=", 1)[1]
                    new = os.path.join(work, "job%d-%s" % (i, os.path.basename(old)))
                    os.replace(old, new)
                    violations.append((new, title(job)))
                os.remove(out)
    except (ToolError, subprocess.TimeoutExpired) as e:
        trouble = trouble or e
    if trouble and not violations:
        raise ToolError(str(trouble))
    said = known(prop)
    covered.sort(key=lambda c: c["job"])
    evidence = {
        "property": prop, "tier": TIER, "seed": SEED, "level": "model_checking",
        "coverage": {
            "states": states, "transitions": transitions, "traces_validated_against_impl": traces,
            "library_calls_compared": calls, "binding_self_tests": tests, "jobs": covered, "samples": samples,
            "inputs_from_source": words,
            "known_findings": [k["what"] for k in said],
        },
        "assumptions": [
            "TLC and the CommunityModules evaluate the specification correctly",
            "Rust's f32 parser gives the value of a decimal literal (compared with the library's result for every literal used)",
            "the public fields of the returned structures are all a caller sees",
        ],
        "wall_s": round(time.time() - start, 2),
        "violations": len(violations),
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(evidence, f, indent=1)
    print("%s: %d states, %d traces compared with the library, %d calls, %.1f s" % (prop, states, traces, calls, time.time() - start))
    for path, what in violations[:8]:
        print("VIOLATION property=%s replay=%s" % (prop, path))
        print("  " + what)
        try:
            b = json.load(open(path))
            print("  text %r: %s" % (b.get("text", "")[:300], b.get("difference")))
        except (OSError, ValueError):
            pass
    return 1 if violations else 0


def judge_again(path):
    build()
    b = json.load(open(path))
    print(json.dumps({k: b[k] for k in ("expected", "expected_bits", "difference") if k in b}, indent=1))
    f = os.path.join(BUILD, "again.txt")
    with open(f, "w", newline="") as g:
        g.write(b["text"])
    r = conform(["show", b["kind"].lower(), f], timeout=60)
    print("the library now answers:", r.stdout if r is not None else "nothing in 60 s")
    return 0


def main():
    if len(sys.argv) == 3 and sys.argv[1] == "replay":
        return judge_again(sys.argv[2])
    if len(sys.argv) == 2 and sys.argv[1] == "setup":
        build()
        return 0
    if len(sys.argv) != 2 or sys.argv[1] not in J.PLAN:
        print(__doc__)
        return 2
    return decide(sys.argv[1])


if __name__ == "__main__":
    try:
        sys.exit(main())
    except ToolError as e:
        print("no answer: %s" % e)
        sys.exit(2)
