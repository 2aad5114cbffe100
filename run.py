#!/usr/bin/env python3
"""Decide one property: run.py <PROPERTY> [--replay FILE]

  1. TLC checks the property's specification exhaustively (small constants).
  2. TLC generates behaviours of the specification as operation lists with the
     expected observations (-simulate, seeded with VERIF_SEED).
  3. A Go driver, compiled into /repo's module through an overlay, replays the
     behaviours on the real code and compares.
Exit 0: held.  Exit 1 + VIOLATION line: the real code disagrees with the
specification.  Exit 2: the machinery failed (no verdict)."""
import json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, os.path.join(VERIF, "tools"))
from checks import CHECKS  # noqa: E402

CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
T0 = time.time()


class Broken(Exception):
    pass


def say(*a):
    print("[%6.1fs]" % (time.time() - T0), *a, flush=True)


def tlc(args, work, spec, cfg, timeout, overrides=None):
    d = tempfile.mkdtemp(dir=work)
    for f in os.listdir(os.path.join(VERIF, "spec")):
        if f.endswith(".tla"):
            shutil.copy(os.path.join(VERIF, "spec", f), d)
    text = open(os.path.join(VERIF, "spec", cfg)).read()
    for k, v in (overrides or {}).items():
        text, n = re.subn(r"\b%s\s*=\s*\S+" % k, "%s = %s" % (k, v), text)
        if n == 0:
            raise Broken("no constant %s in %s" % (k, cfg))
    open(os.path.join(d, "run.cfg"), "w").write(text)
    cmd = ["java", "-XX:+UseParallelGC", "-Xss256m", "-Xmx%s" % os.environ.get("VERIF_HEAP", "12g"), "-cp", CP, "tlc2.TLC",
           "-metadir", os.path.join(d, "meta"), "-noGenerateSpecTE", "-config", "run.cfg"] + args + [spec + ".tla"]
    try:
        p = subprocess.run(cmd, cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise Broken("TLC on %s/%s exceeded %ds" % (spec, cfg, timeout))
    out = p.stdout
    shutil.rmtree(d, ignore_errors=True)
    return p.returncode, out


def model_check(work, st, tier):
    o = dict(st.get("const", {}))
    o.update(st.get("const_" + tier, {}))
    rc, out = tlc(["-workers", "8"], work, st["spec"], st["cfg"], st.get("timeout", 1500), o)
    m = re.search(r"([\d,]+) states generated, ([\d,]+) distinct states found, 0 states left", out)
    if rc != 0 or not m or "No error has been found" not in out:
        raise Broken("TLC did not accept %s/%s (rc %d):\n%s" % (st["spec"], st["cfg"], rc, out[-3000:]))
    gen, dist = (int(x.replace(",", "")) for x in m.groups())
    dm = re.search(r"depth of the complete state graph search is (\d+)", out)
    say("TLC %s/%s %s: %d distinct states, %d transitions" % (st["spec"], st["cfg"], o, dist, gen))
    return {"spec": st["spec"], "cfg": st["cfg"], "constants": {k: str(v) for k, v in o.items()}, "distinct_states": dist,
            "transitions": gen, "depth": int(dm.group(1)) if dm else 0}


def parse_traces(out):
    res = []
    for l in out.splitlines():
        if l.startswith('<<"TRACE", '):
            res.append(json.loads(l.strip()[len('<<"TRACE", '):-2]))
    return res


def generate(work, st, tier, seed):
    o = dict(st.get("const", {}))
    o.update(st.get("const_" + tier, {}))
    if st.get("mode", "simulate") == "simulate":
        num = st["num_" + tier]
        args = ["-simulate", "num=%d" % num, "-depth", str(st.get("depth", 100)), "-seed", str(seed), "-workers", "1"]
    else:  # bfs: the specification is enumerated completely and prints every maximal behaviour
        args = ["-workers", "1"]
    rc, out = tlc(args, work, st["spec"], st["cfg"], st.get("timeout", 900), o)
    if rc != 0 or "Error:" in out:
        raise Broken("TLC failed generating from %s/%s (rc %d):\n%s" % (st["spec"], st["cfg"], rc, out[-3000:]))
    traces = parse_traces(out)
    if not traces:
        raise Broken("no behaviours from %s/%s:\n%s" % (st["spec"], st["cfg"], out[-2000:]))
    m = re.search(r"The number of states generated: ([\d,]+)", out) or re.search(r"([\d,]+) states generated", out)
    seen, uniq = set(), []
    for t in traces:
        if t not in seen:
            seen.add(t)
            uniq.append(t)
    say("TLC generated %d behaviours (%d distinct) of %s/%s %s" % (len(traces), len(uniq), st["spec"], st["cfg"], o))
    return uniq, int(m.group(1).replace(",", "")) if m else 0


def go_env():
    e = dict(os.environ)
    e.update(PATH="/opt/veriftools/go1.23.12/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
             HOME="/root", GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=readonly", CGO_ENABLED="1")
    e.pop("GOROOT", None)
    return e


def build(work, area, race=False):
    ov = {}
    for d in ("w", area):
        hd = os.path.join(VERIF, "harness", d)
        for f in sorted(os.listdir(hd)):
            if f.endswith(".go"):
                ov["%s/zzverif/%s/%s" % (REPO, d, f)] = os.path.join(hd, f)
    inj = os.path.join(VERIF, "harness", area, "inject")  # files that go into packages of the code under test
    for root, _, fs in os.walk(inj):
        for f in fs:
            ov[os.path.join(REPO, os.path.relpath(os.path.join(root, f), inj))] = os.path.join(root, f)
    of = os.path.join(work, "ov_%s.json" % area)
    json.dump({"Replace": ov}, open(of, "w"))
    out = os.path.join(work, "drv_" + area)
    cmd = ["go", "build", "-overlay", of, "-o", out] + (["-race"] if race else []) + ["./zzverif/" + area]
    p = subprocess.run(cmd, cwd=REPO, env=go_env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise Broken("build of driver %s failed:\n%s" % (area, p.stdout[-4000:]))
    say("built driver %s from %s" % (area, REPO))
    return out


def real_crash(err):
    """The first non-runtime frame of the crashing goroutine, if it is in the code under test."""
    m = re.search(r"^(panic: .*|fatal error: .*)$", err, re.M)
    if not m:
        return None
    tail = err[m.start():]
    g = re.search(r"^goroutine \d+.*\[running.*$", tail, re.M)
    if not g:
        return None
    for l in tail[g.end():].splitlines()[1:]:
        if l == "":
            break
        if l.startswith("\t") or not l.strip():
            continue
        if re.match(r"(runtime|panic|internal|sync|math/big|reflect|bytes|encoding|sort|os|time)[./(]", l):
            continue
        if "/zzverif/" in l or l.startswith("main."):
            return None
        if "goquarkchain/" in l or "go-ethereum/" in l:
            return m.group(1) + " in " + l
        return None
    return None


def drive(work, exe, traces, prop, st, par=8, tag=""):
    tf = os.path.join(work, "traces%s.jsonl" % tag)
    rf = os.path.join(work, "result%s.json" % tag)
    with open(tf, "w") as f:
        for t in traces:
            f.write(t + "\n")
    if os.path.exists(rf):
        os.remove(rf)
    cmd = [exe, "-traces", tf, "-out", rf, "-prop", prop, "-par", str(par)] + st.get("args", [])
    ef = open(os.path.join(work, "stderr%s.txt" % tag), "w+")
    try:
        p = subprocess.run(cmd, cwd=work, stdout=subprocess.DEVNULL, stderr=ef, timeout=st.get("drive_timeout", 800), env=dict(os.environ, TMPDIR=work))
        rc = p.returncode
    except subprocess.TimeoutExpired:
        raise Broken("driver exceeded its time limit")
    ef.seek(0)
    err = ef.read()
    if not os.path.exists(rf):
        return None, rc, err
    return json.load(open(rf)), rc, err


def save_replay(prop, n, body):
    d = os.path.join(VERIF, "evidence", "replay")
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, "%s-%d.json" % (prop, n))
    json.dump(body, open(p, "w"))
    return p


def known_findings(prop):
    """Listed findings: lines 'finding: property=<id> match=<substring of the message> :: <description>'."""
    p = os.path.join(VERIF, "known-findings.txt")
    res = []
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\S+) match=(.*?) :: (.*)", l.strip())
            if m and m.group(1) == prop:
                res.append((m.group(2), m.group(3)))
    return res


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    chk = CHECKS[prop]
    work = tempfile.mkdtemp(prefix="verif_%s_" % prop, dir=os.environ.get("VERIF_TMP"))
    status = 2
    try:
        status = decide(prop, tier, seed, chk, work)
    except Broken as e:
        print("ERROR (no verdict):", e, flush=True)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    sys.exit(status)


def decide(prop, tier, seed, chk, work):
    replay = None
    if "--replay" in sys.argv:
        replay = json.load(open(sys.argv[sys.argv.index("--replay") + 1]))
    cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": [], "specs": [], "drivers": []}
    violations = []
    known = known_findings(prop)
    hit = set()
    if not replay:
        for st in chk.get("mc", []):
            if tier == "quick" and st.get("thorough_only"):
                continue
            r = model_check(work, st, tier)
            cov["states"] += r["distinct_states"]
            cov["transitions"] += r["transitions"]
            cov["specs"].append(r)
    for i, st in enumerate(chk["run"]):
        if tier == "quick" and st.get("thorough_only"):
            continue
        if replay and replay["stage"] != i:
            continue
        exe = build(work, st["driver"], st.get("race", False))
        if replay:
            traces, gen_states = replay["traces"], 0
        else:
            traces, gen_states = generate(work, st, tier, seed * 1009 + i)
        par = st.get("par", 8)
        res, rc, err = drive(work, exe, traces, prop, st, par, str(i))
        if res is None:
            why = real_crash(err)
            if why:
                res2, rc2, err2 = drive(work, exe, traces, prop, st, par, "x%d" % i)
                if res2 is None and real_crash(err2):
                    p = save_replay(prop, len(violations), {"property": prop, "stage": i, "traces": traces, "crash": why, "stderr": err[-6000:]})
                    violations.append((p, "the process died: " + why))
                    continue
            raise Broken("driver %s died (rc %s):\n%s" % (st["driver"], rc, err[-3000:]))
        if res["errors"] and not res["violations"]:
            raise Broken("driver %s: %s" % (st["driver"], "\n".join(res["errors"][:3])))
        say("driver %s: %d traces, %d operations, %d comparisons, %d disagreements, %.1fs" % (
            st["driver"], res["traces"], res["steps"], res["checks"], len(res["violations"] or []), res["wall_ms"] / 1000.0))
        cov["traces_validated_against_impl"] += res["traces"]
        cov["drivers"].append({"driver": st["driver"], "generator": st["spec"] + "/" + st["cfg"], "behaviours": res["traces"],
                               "generated_states": gen_states, "operations": res["steps"], "comparisons": res["checks"], "ops": res["ops"]})
        cov["samples"] += [json.loads(x)[:40] if isinstance(json.loads(x), list) else json.loads(x) for x in [json.dumps(s) for s in (res["sample"] or [])[:1]]]
        bad = {}
        for v in res["violations"] or []:
            k = [d for (m, d) in known if m in v["msg"]]
            if k:
                hit.add(k[0])
                continue
            bad.setdefault(v["index"], v)
        tried = 0
        for idx in sorted(bad)[:6]:
            v = bad[idx]
            raw = traces[idx]
            # a disagreement counts when the behaviour disagrees again on its own
            again = False
            for _ in range(3):
                # (schedules that leave timing to the code are tried several times side by side)
                r2, rc2, err2 = drive(work, exe, [raw] * st.get("copies", 1), prop, st, st.get("copies", 1), "v%d" % i)
                tried += 1
                if r2 is None and real_crash(err2):
                    again = True
                elif r2 is not None and any(not any(m in x["msg"] for (m, _) in known) for x in (r2["violations"] or [])):
                    again = True
                if again:
                    break
            if again:
                p = save_replay(prop, len(violations), {"property": prop, "stage": i, "traces": [raw], "step": v["step"], "message": v["msg"]})
                violations.append((p, "step %d: %s" % (v["step"], v["msg"])))
                if len(violations) >= 3:
                    break
        if bad and not violations:
            raise Broken("disagreement did not reproduce: " + next(iter(bad.values()))["msg"])
        if violations:
            break
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov,
          "assumptions": chk.get("assumptions", []), "wall_s": round(time.time() - T0, 2), "violations": len(violations)}
    if not replay:
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(VERIF, "evidence", prop + ".json"), "w"), indent=1)
    for m, d in known:
        if d in hit:
            print("KNOWN-FINDING: property=%s %s" % (prop, d))
    for p, msg in violations:
        print(msg[:3000])
        print("VIOLATION property=%s replay=%s" % (prop, p))
    if violations:
        return 1
    say("%s held on everything explored" % prop)
    return 0


if __name__ == "__main__":
    main()
