#!/usr/bin/env python3
"""run.py <property> [--replay FILE] : builds the monitors against /repo's working tree and decides one property.

Exit 0: held on everything explored. Exit 1 with a VIOLATION line: broken. Exit 3: inconclusive (build failure,
watchdog). Rewrites evidence/<property>.json.
"""
import argparse, json, os, re, resource, shutil, signal, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO") or "/repo"  # a scratch copy while bugs are being planted; the registered commands do not set it
EVID = os.environ.get("VERIF_EVID") or os.path.join(VERIF, "evidence")

# parts: (binary, race, scale%) ; cmds: the repository's own commands that the part drives
PROPS = json.load(open(os.path.join(VERIF, "checks.json")))

GOENV = dict(os.environ, GOFLAGS="-mod=mod", GOPROXY="off", GOWORK="off", GOTOOLCHAIN="local", GONOSUMDB="*",
             GONOSUMCHECK="1", GOFLAGS_EXTRA="")


def log(*a):
    print(*a, flush=True)


class Build:
    def __init__(self, tmp):
        self.tmp = tmp
        self.mod = os.path.join(tmp, "go.mod")
        with open(os.path.join(REPO, "go.mod")) as f:
            lines = [l for l in f if "// indirect" not in l]
        with open(self.mod, "w") as f:
            f.writelines(lines)
            f.write("\nreplace github.com/amarin/logging => %s/stubs/logging\n" % VERIF)
            f.write("replace github.com/amarin/libxml => %s/stubs/libxml\n" % VERIF)
        shutil.copy(os.path.join(REPO, "go.sum"), os.path.join(tmp, "go.sum"))
        rep = {}
        for pkg in sorted(os.listdir(os.path.join(VERIF, "harness"))):
            d = os.path.join(VERIF, "harness", pkg)
            if not os.path.isdir(d):
                continue
            for fn in sorted(os.listdir(d)):
                if fn.endswith(".go"):
                    rep["%s/internal/zverif/%s/%s" % (REPO, pkg, fn)] = os.path.join(d, fn)
        self.overlay = os.path.join(tmp, "overlay.json")
        json.dump({"Replace": rep}, open(self.overlay, "w"))

    def go(self, pkg, out, race=False):
        cmd = ["go", "build", "-modfile", self.mod, "-overlay", self.overlay, "-o", out]
        if race:
            cmd.append("-race")
        cmd.append(pkg)
        r = subprocess.run(cmd, cwd=REPO, env=GOENV, capture_output=True, text=True, timeout=800)
        if r.returncode != 0:
            log("BUILD FAILED: %s\n%s" % (" ".join(cmd), r.stdout + r.stderr))
            return False
        return True


def limits(as_bytes, cpu):
    def f():
        os.setsid()
        if as_bytes:
            resource.setrlimit(resource.RLIMIT_AS, (as_bytes, as_bytes))
        if cpu:
            resource.setrlimit(resource.RLIMIT_CPU, (cpu, cpu + 5))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    return f


def run_child(cmd, tmp, env, as_bytes, cpu, wall, name):
    so = open(os.path.join(tmp, name + ".stdout"), "wb")
    se = open(os.path.join(tmp, name + ".stderr"), "wb")
    p = subprocess.Popen(cmd, cwd=tmp, env=env, stdout=so, stderr=se, preexec_fn=limits(as_bytes, cpu))
    timed = False
    before = resource.getrusage(resource.RUSAGE_CHILDREN)
    try:
        p.wait(wall)
    except subprocess.TimeoutExpired:
        timed = True
        try:
            os.kill(p.pid, signal.SIGQUIT)  # shows where it is
            p.wait(5)
        except (subprocess.TimeoutExpired, ProcessLookupError):
            pass
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except ProcessLookupError:
        pass
    p.wait()
    so.close(); se.close()
    err = open(os.path.join(tmp, name + ".stderr"), "rb").read().decode("utf8", "replace")
    after = resource.getrusage(resource.RUSAGE_CHILDREN)
    used = after.ru_utime + after.ru_stime - before.ru_utime - before.ru_stime
    if cpu and not timed and p.returncode in (-signal.SIGXCPU, -signal.SIGKILL) and used >= cpu:
        return -signal.SIGXCPU, timed, err  # Go takes no notice of the signal, then the hard limit ends it
    return p.returncode, timed, err


def read_slots(path):
    res = []
    try:
        for line in open(path, "rb").read().decode("utf8", "replace").split("\n"):
            line = line.strip("\0 ").strip()
            if line.startswith("RUN "):
                res.append(line.split()[1])
    except FileNotFoundError:
        pass
    return res


def crash_text(err):
    keep = []
    for l in err.split("\n"):
        if re.match(r"(fatal error|panic|runtime:|unexpected fault|SIGSEGV|WARNING: DATA RACE|signal )", l):
            keep.append(l)
    return "; ".join(keep[:4]) or err[-300:].replace("\n", " | ")


def race_reports(err):
    blocks = re.findall(r"WARNING: DATA RACE\n(.*?)\n={10,}", err, re.S)
    seen = {}
    for b in blocks:
        fns = re.findall(r"^  (\S+\(.*?)\)?$", b, re.M)
        key = " <-> ".join(f for f in fns if "zverif" not in f)[:300]
        seen.setdefault(key, b)
    return seen, len(blocks)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--replay")
    ap.add_argument("--keep", action="store_true")
    ap.add_argument("--scale", type=int, default=100)
    args = ap.parse_args()
    prop = args.prop
    if prop == "setup":
        return setup()
    cfg = PROPS[prop]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    only = None
    if args.replay:
        rep = json.load(open(args.replay))
        seed, tier, only = rep["seed"], rep["tier"], (rep["part"], rep["case"])
    os.makedirs(EVID, exist_ok=True)
    started = time.time()
    tmp = tempfile.mkdtemp(prefix="zverif-%s-" % prop, dir=os.environ.get("TMPDIR", "/tmp"))
    try:
        return decide(prop, cfg, seed, tier, only, tmp, started, args.scale)
    finally:
        if args.keep:
            log("kept", tmp)
        else:
            subprocess.run(["chmod", "-R", "u+rwx", tmp], stderr=subprocess.DEVNULL)
            shutil.rmtree(tmp, ignore_errors=True)


def known_findings(prop):
    res = {}
    path = os.path.join(VERIF, "known_findings.jsonl")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if not line:
                continue
            e = json.loads(line)
            if e.get("status") == "finding" and e["property"] == prop:
                res[e["key"]] = e["what"]
    return res


def setup():
    """Builds every monitor and command once."""
    tmp = tempfile.mkdtemp(prefix="zverif-setup-")
    try:
        b = Build(tmp)
        todo = {("./internal/zverif/" + p["bin"], bool(p.get("race"))) for c in PROPS.values() for p in c["parts"]}
        todo |= {("./cmd/" + x, False) for c in PROPS.values() for p in c["parts"] for x in p.get("cmds", [])}
        return 0 if all([b.go(pkg, os.path.join(tmp, "x"), race) for pkg, race in sorted(todo)]) else 3
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def decide(prop, cfg, seed, tier, only, tmp, started, scale):
    b = Build(tmp)
    known = known_findings(prop)
    knownfile = os.path.join(tmp, "known")
    open(knownfile, "w").write("".join(k + "\n" for k in known))
    merged = {"evaluations": 0, "distinct_nontrivial": 0, "nontrivial_cases": 0, "rule": [], "samples": [],
              "cases_by_group": {}, "cases_skipped": 0, "skipped_because": [], "events": {}, "maxima": {}, "distinct_seen": {}}
    violations, suppressed, inconclusive = [], [], []
    for pi, part in enumerate(cfg["parts"]):
        name = part["bin"] + ("-race" if part.get("race") else "")
        pname = "%d-%s" % (pi, name)
        if only and only[0] != pname:
            continue
        binp = os.path.join(tmp, "bin-" + name)
        if not os.path.exists(binp) and not b.go("./internal/zverif/" + part["bin"], binp, part.get("race", False)):
            inconclusive.append("build of %s failed" % name)
            continue
        extra = []
        okb = True
        for c in part.get("cmds", []):
            cp = os.path.join(tmp, c)
            if not os.path.exists(cp) and not b.go("./cmd/" + c, cp):
                inconclusive.append("build of %s failed" % c)
                okb = False
            extra += ["-x", "%s=%s" % (c, cp)]
        if not okb:
            continue
        outp = os.path.join(tmp, pname + ".json")
        slots = os.path.join(tmp, pname + ".slots")
        scr = os.path.join(tmp, pname + ".scratch")
        os.makedirs(scr, exist_ok=True)
        cmd = [binp, "-check", part.get("check", prop), "-tier", tier, "-seed", str(seed + part.get("seed_add", 0)), "-scratch", scr, "-known", knownfile,
               "-scale", str(scale * part.get("scale", 100) // 100 if tier == "quick" else scale), "-x", "self=" + binp] + extra
        if part.get("workers"):
            cmd += ["-workers", str(part["workers"])]
        env = dict(os.environ, GOTRACEBACK="all", GOMORPHY_STUB_LOG="")
        env.pop("GOMORPHY_STUB_LOG")
        if part.get("tz"):  # dates mean the same wherever one lives
            env["TZ"] = part["tz"]
        if part.get("race"):
            env["GORACE"] = "halt_on_error=0 exitcode=0 history_size=3"
        as_bytes = 0 if part.get("race") else part.get("as_gb", 16) << 30
        run = cmd + ["-out", outp, "-slots", slots]
        if only:
            run += ["-only", only[1]]
        else:
            run += ["-stuck", str(part.get("stuck", 200) if tier == "quick" else 900)]
        wall = part.get("wall", 400) if tier == "quick" else part.get("wall_thorough", 6 * 3600)
        rc, timed, err = run_child(run, tmp, env, as_bytes, 0, wall, pname)
        if timed or rc not in (0, 1) or not os.path.exists(outp):
            # the process hung or died: find out which case does that
            cases = read_slots(slots)
            stuck = re.findall(r"^STUCK (\S+)$", err, re.M)
            cases = stuck + [cs for cs in cases if cs not in stuck]
            if only:
                cases = [only[1]]
            found = False
            cpu_case = part.get("cpu_case", 100 if tier == "quick" else 1000)
            for cs in cases[:16]:
                if time.time() - started > 780 and tier == "quick":
                    break
                o2 = outp + ".one"
                if os.path.exists(o2):
                    os.remove(o2)
                wall_case = part.get("wall_case", 1500) if tier != "quick" else max(20, min(part.get("wall_case", 150), 840 - (time.time() - started)))
                r2, t2, e2 = run_child(cmd + ["-out", o2, "-only", cs, "-workers", "1"], tmp, env, as_bytes,
                                       cpu_case, wall_case, pname + ".one")
                if r2 == 1 and os.path.exists(o2):
                    v = json.load(open(o2))["violations"][0]
                elif not t2 and (r2 == -signal.SIGXCPU or "SIGXCPU" in e2):
                    v = {"key": "", "msg": "does not finish: exceeded %d s of processor time" % cpu_case, "ops": []}
                elif not t2 and r2 != 0 and re.search(r"^(fatal error|panic|runtime:|unexpected fault)", e2, re.M):
                    v = {"key": "", "msg": "process died: " + crash_text(e2), "ops": [], "stack": e2[:6000]}
                elif t2 and (cs in stuck or only) and wall_case >= 60:
                    # it did not finish among the others and does not alone, in many times the time it takes
                    v = {"key": "", "msg": "does not finish: still running after %d s alone" % wall_case, "ops": [], "stack": e2[:12000]}
                else:
                    continue
                v["group"], v["index"] = cs.rsplit(":", 1)
                v["part"] = pname
                violations.append(v)
                found = True
                break
            if found:
                break  # the time of the other parts is gone
            if not found:
                if not timed and rc == 2 and re.search(r"^(fatal error|panic|runtime:)", err, re.M) and cases:
                    violations.append({"group": cases[0].rsplit(":", 1)[0], "index": cases[0].rsplit(":", 1)[1], "key": "",
                                       "msg": "process died with cases %s running: %s" % (cases, crash_text(err)),
                                       "ops": [], "stack": err[:8000], "part": pname})
                else:
                    inconclusive.append("%s: exit %s timed out %s cases %s: %s" % (pname, rc, timed, cases, err[-2000:]))
            continue
        res = json.load(open(outp))
        if part.get("race"):
            seen, n = race_reports(err)
            res["counts"]["race_reports"] = n
            for k, blk in seen.items():
                violations.append({"group": "race", "index": 0, "key": "", "msg": "data race: " + k, "ops": [], "stack": blk, "part": pname})
        for v in res["violations"]:
            v["part"] = pname
            violations.append(v)
        for v in res["suppressed"]:
            suppressed.append(v)
        merged["evaluations"] += res["evaluations"]
        merged["distinct_nontrivial"] += res["distinct_nontrivial"]
        merged["cases_skipped"] += res["skipped"]
        merged["skipped_because"] += res["skipped_why"] or []
        merged["nontrivial_cases"] += res["nontrivial"]
        if res["rule"] not in merged["rule"]:
            merged["rule"].append(res["rule"])
        merged["samples"] += res["samples"]
        for k, v in res["by_group"].items():
            merged["cases_by_group"]["%s/%s" % (name, k)] = merged["cases_by_group"].get("%s/%s" % (name, k), 0) + v
        for k, v in res["counts"].items():
            merged["events"][k] = merged["events"].get(k, 0) + v
        for k, v in res["maxes"].items():
            merged["maxima"][k] = max(merged["maxima"].get(k, 0), v)
        for k, v in res["distinct_seen"].items():
            merged["distinct_seen"][k] = merged["distinct_seen"].get(k, 0) + v
    merged["rule"] = " ".join(merged["rule"]) or "none ran"
    if not violations and not inconclusive:
        if merged["evaluations"] == 0 or merged["distinct_nontrivial"] < 2:
            inconclusive.append("the monitors observed nothing")
        if merged["cases_skipped"] * 2 > merged["evaluations"]:
            inconclusive.append("most cases could not be set up: %s" % merged["skipped_because"][:3])
        for need in cfg.get("must_see", []):
            if not only and not merged["events"].get(need):
                inconclusive.append("no %s event was observed" % need)
    if not only:
        ev = {"property": prop, "tier": tier, "seed": seed, "level": cfg["level"], "coverage": merged,
              "assumptions": cfg.get("assumptions", []), "wall_s": round(time.time() - started, 2),
              "violations": len(violations)}
        with open(os.path.join(EVID, prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, ensure_ascii=False)
    for k in sorted({v["key"] for v in suppressed}):
        log("KNOWN-FINDING: property=%s %s" % (prop, known[k]))
    if violations:
        v = min(violations, key=lambda x: len(x.get("ops") or []) or 10 ** 6)
        rdir = os.path.join(EVID, "replay")
        os.makedirs(rdir, exist_ok=True)
        rp = os.path.join(rdir, "%s-%s-%s.json" % (prop, v["group"], v["index"]))
        rep = {"property": prop, "seed": seed, "tier": tier, "part": v["part"], "case": "%s:%s" % (v["group"], v["index"]),
               "message": v["msg"], "ops": v.get("ops"), "stack": v.get("stack", ""), "run": "python3 run.py %s --replay <this file>" % prop,
               "others": [{"case": "%s:%s" % (x["group"], x["index"]), "message": x["msg"][:1000]} for x in violations if x is not v]}
        with open(rp, "w") as f:
            json.dump(rep, f, indent=1, ensure_ascii=False)
        log("%s: %s" % (prop, v["msg"][:3000]))
        for o in (v.get("ops") or [])[-12:]:
            log("   ", o[:300])
        log("VIOLATION property=%s replay=%s" % (prop, rp))
        return 1
    if inconclusive:
        for i in inconclusive:
            log("INCONCLUSIVE %s: %s" % (prop, i))
        return 3
    log("%s held: %d cases, %d distinct non-trivial, %s, %.1fs" % (
        prop, merged["evaluations"], merged["distinct_nontrivial"],
        ", ".join("%s=%d" % kv for kv in sorted(merged["events"].items())[:8]), time.time() - started))
    return 0


if __name__ == "__main__":
    sys.exit(main())
