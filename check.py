#!/usr/bin/env python3
"""Run the check of one property:  check.py <ID> <quick|thorough>      or  check.py --replay <file>

Builds the harness from /repo's current working tree (ordinary and thread-safe build), enumerates the bounded space of
the property on both builds, writes evidence/<ID>.json and exits 0 (held on everything) or 1 (VIOLATION line printed).
Any other exit status means that the check itself could not run.
"""
import fcntl, glob, json, os, re, shutil, struct, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
TARGET = os.path.join(VERIF, "target")
SCRATCH = os.path.join(VERIF, "scratch")
REPLAYS = os.path.join(VERIF, "replays")
EVIDENCE = os.path.join(VERIF, "evidence")
KNOWN = os.path.join(VERIF, "known_findings.txt")
SLOT = 4096

# Properties about one build only.
SYNC_ONLY = {"C04": "conc", "C32": "conc", "C39": "concloc"}
# Decided by comparing the two builds over the enumerations of these properties.
PARITY = ["C01", "C03", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C18",
          "C19", "C20", "C21", "C23", "C24", "C25", "C26", "C27", "C28", "C29", "C34", "C35", "C37", "C38"]

# Those compared with the build of the optional features: languages with extensions are asked for by C36 only.
PARITY_EXTENDED = ["C01", "C03", "C07", "C09", "C10", "C11", "C12", "C13", "C15", "C16", "C19", "C20", "C21", "C23", "C24", "C25",
                   "C26", "C27", "C34", "C35", "C38"]

LEVEL = "model_checking"


def log(*a):
    print(*a, flush=True)


def env():
    e = dict(os.environ)
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    for k in ("RUSTFLAGS", "CARGO_TARGET_DIR", "RUSTC_WRAPPER", "CARGO_BUILD_TARGET"):
        e.pop(k, None)
    return e


def cargo(crate, features, binary, out):
    """Build, forcing everything that comes from /repo to be compiled again, and copy the binary to `out`."""
    for f in glob.glob(os.path.join(TARGET, "build", "release", ".fingerprint", "i18n*")):
        shutil.rmtree(f, ignore_errors=True)
    for f in glob.glob(os.path.join(TARGET, "build", "release", ".fingerprint", "conc*")):
        shutil.rmtree(f, ignore_errors=True)
    e = env()
    e["CARGO_TARGET_DIR"] = os.path.join(TARGET, "build")
    cmd = ["cargo", "build", "--offline", "--release", "--bin", binary]
    if features:
        cmd += ["--features", features]
    r = subprocess.run(cmd, cwd=os.path.join(VERIF, crate), env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        log(r.stdout[-6000:])
        log(f"ERROR: {crate} does not build against /repo ({features or 'plain'})")
        sys.exit(2)
    shutil.copy2(os.path.join(TARGET, "build", "release", binary), out + ".new")
    os.replace(out + ".new", out)


def instrument():
    """Copy the crates of /repo with std::sync and std::cell replaced by scheduling points."""
    e = env()
    e["CARGO_TARGET_DIR"] = os.path.join(TARGET, "tools")
    e["VSYNC"] = os.path.join(VERIF, "conc", "vsync")
    r = subprocess.run(["cargo", "build", "--offline", "--release"], cwd=os.path.join(VERIF, "conc", "rewrite"), env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode == 0:
        r = subprocess.run([os.path.join(TARGET, "tools", "release", "conc-rewrite"), "/repo", os.path.join(TARGET, "conc-src"), "crates/utility", "crates/provider/core", "crates/provider/sqlite3", "crates/localiser"],
                           env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        log(r.stdout[-6000:])
        log("ERROR: the sources of /repo could not be instrumented")
        sys.exit(2)


def build(which):
    os.makedirs(TARGET, exist_ok=True)
    with open(os.path.join(TARGET, ".lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        for w in which:
            if w == "plain":
                cargo("mc", "", "mc", os.path.join(TARGET, "mc-plain"))
            elif w == "sync":
                cargo("mc", "sync", "mc", os.path.join(TARGET, "mc-sync"))
            elif w == "extended":
                cargo("mc", "extended", "mc", os.path.join(TARGET, "mc-extended"))
            elif w in ("conc", "concloc"):
                instrument()
                cargo("conc", "localiser" if w == "concloc" else "", w, os.path.join(TARGET, w))


def known_cases(prop):
    """Cases of the known findings of a property: lines `known: property=<id> case=<case> :: <what fails>`."""
    out = {}
    if os.path.exists(KNOWN):
        for line in open(KNOWN, encoding="utf-8"):
            m = re.match(r"known: property=(\S+) case=(.*?) :: (.*)$", line.rstrip("\n"))
            if m and m.group(1) == prop:
                out[m.group(2)] = m.group(3)
    return out


def slots(progress):
    out = []
    try:
        data = open(progress, "rb").read()
    except OSError:
        return out
    for i in range(0, len(data), SLOT):
        n = struct.unpack("<I", data[i:i + 4])[0]
        if 0 < n <= SLOT - 4:
            out.append(data[i + 4:i + 4 + n].decode("utf-8", "replace"))
    return out


class Crash(Exception):
    pass


def run_once(binary, prop, tier, tag, parity=None, only=None, limit=None):
    """One run of a harness binary.  Returns (report or None, description of the crash, active cases)."""
    os.makedirs(SCRATCH, exist_ok=True)
    base = os.path.join(SCRATCH, f"{prop}-{tag}-{os.getpid()}")
    out, progress, known = base + ".json", base + ".progress", base + ".known"
    with open(known, "w", encoding="utf-8") as f:
        f.write("".join(k + "\n" for k in known_cases(prop)))
    # Databases are written in memory where possible.
    work = f"/dev/shm/verif-{prop}-{tag}-{os.getpid()}" if os.access("/dev/shm", os.W_OK) else base + ".d"
    os.makedirs(work, exist_ok=True)
    cmd = [binary, prop, "--tier", tier, "--out", out, "--progress", progress, "--known", known, "--scratch", work]
    if parity:
        cmd += ["--parity", parity]
    if only is not None:
        cmd += ["--only", only]
    limit = limit or (700 if tier == "quick" else 6 * 3600)
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=limit, cwd=work)
        rc, err = p.returncode, p.stderr.decode("utf-8", "replace")[-3000:]
    except subprocess.TimeoutExpired as t:
        rc, err = "timeout", (t.stderr or b"").decode("utf-8", "replace")[-3000:]
    active = slots(progress)
    report = None
    if rc in (0, 1) and os.path.exists(out):
        report = json.load(open(out, encoding="utf-8"))
    for f in (out, progress, known):
        if os.path.exists(f):
            os.unlink(f)
    shutil.rmtree(work, ignore_errors=True)
    if report is not None:
        return report, "", []
    return None, f"exit {rc}: {err.strip()[-1500:]}", active


def run(binary, prop, tier, tag, parity=None, only=None):
    """Run; a crash or hang of the code under test is a violation once it has been reproduced."""
    report, crash, active = run_once(binary, prop, tier, tag, parity, only)
    if report is not None:
        return report
    log(f"{prop} {tag}: run ended abnormally ({crash}); looking for the case")
    if "HARNESS" in crash and "HANG" not in crash:
        log(f"ERROR: the harness itself failed: {crash}")
        sys.exit(2)
    found = []
    for case in active:
        r, c, _ = run_once(binary, prop, tier, tag + "-confirm", None, case, 200)
        if r is None:
            found.append({"case": case, "expected": "returns", "actual": "process ended or hung: " + c})
        elif r["violation_count"]:
            found += r["violations"]
        if found:
            break
    if not found:
        r, c, again = run_once(binary, prop, tier, tag, parity, only)
        if r is not None:
            return r
        if set(again) & set(active) and "timeout" not in c:
            found = [{"case": x, "expected": "returns", "actual": "process ended or hung: " + c} for x in again if x in active]
        else:
            log(f"ERROR: abnormal end twice, without a common case: {c}")
            sys.exit(2)
    return {"property": prop, "build": tag, "states": len(active), "transitions": len(active), "wall_s": 0.0, "outcomes": {}, "distinct_outcomes": 0,
            "samples": active[:3], "bounds": [], "known": [], "violation_count": len(found), "violations": found}


def settle(prop, tier, reports, t0, assumptions=()):
    """Write the evidence, print findings and exit."""
    os.makedirs(EVIDENCE, exist_ok=True)
    violations, known = [], []
    for r in reports:
        violations += [dict(v, build=r["build"]) for v in r["violations"]]
        known += [k for k in r["known"] if k not in known]
    kf = known_cases(prop)
    for k in known:
        log(f"KNOWN-FINDING: property={prop} {k}: {kf.get(k, '')}")
    samples = []
    for r in reports:
        samples += [s for s in r["samples"] if s not in samples][:12]
    outcomes = {}
    for r in reports:
        for k, v in r["outcomes"].items():
            outcomes[k] = outcomes.get(k, 0) + v
    ev = {
        "property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": LEVEL,
        "coverage": {
            "states": max(r["states"] for r in reports),
            "transitions": sum(r["transitions"] for r in reports),
            "traces_validated_against_impl": sum(r.get("validated", r["states"]) for r in reports),
            "exhaustive": not violations,
            "builds": [r["build"] for r in reports],
            "distinct_outcomes": max(r["distinct_outcomes"] for r in reports),
            "outcomes": dict(sorted(outcomes.items(), key=lambda x: -x[1])[:40]),
            "bounds": sorted({b for r in reports for b in r["bounds"]}),
            "samples": samples[:20],
        },
        "assumptions": list(assumptions) + [
            "states: distinct inputs, configurations or histories; transitions: calls of the real code, summed over the builds; traces: cases whose real outcome was compared with the model, summed over the builds",
        ],
        "wall_s": round(time.time() - t0, 2),
        "violations": sum(r["violation_count"] for r in reports),
    }
    for r in reports:
        for k, v in r.get("extra", {}).items():
            ev["coverage"][k] = v
    with open(os.path.join(EVIDENCE, prop + ".json"), "w", encoding="utf-8") as f:
        json.dump(ev, f, indent=1, ensure_ascii=False)
    if violations:
        os.makedirs(REPLAYS, exist_ok=True)
        violations.sort(key=lambda v: (len(v["case"]), v["case"]))
        path = os.path.join(REPLAYS, prop + ".json")
        with open(path, "w", encoding="utf-8") as f:
            json.dump({"property": prop, "tier": tier, "violations": violations[:50]}, f, indent=1, ensure_ascii=False)
        for v in violations[:5]:
            log(f"  [{v['build']}] {v['case']}\n    expected: {v['expected'][:1000]}\n    actual:   {v['actual'][:1000]}")
        log(f"VIOLATION property={prop} replay={path}")
        sys.exit(1)
    c = ev["coverage"]
    log(f"{prop} {tier}: held on {c['states']} states, {c['transitions']} transitions, {c['distinct_outcomes']} outcome classes, {ev['wall_s']} s")
    sys.exit(0)


def differences(a, b, name="sync", limit=40):
    """Lines of the two outcome files (one per worker) that differ: (build, line) pairs, and the number of lines."""
    out, n = [], 0
    for i in range(64):
        x, y = f"{a}.{i}", f"{b}.{i}"
        if not os.path.exists(x) and not os.path.exists(y):
            continue
        text = [open(f, "rb").read() if os.path.exists(f) else b"" for f in (x, y)]
        n += text[0].count(b"\n")
        if text[0] != text[1] and len(out) < limit:
            p, q = text[0].splitlines(), text[1].splitlines()
            if len(p) == len(q):
                for u, v in zip(p, q):
                    if u != v and len(out) < limit:
                        out += [("plain", u), (name, v)]
            else:
                s, t = set(p), set(q)
                out += [("plain", u) for u in p if u not in t][:limit] + [(name, u) for u in q if u not in s][:limit]
        for f in (x, y):
            if os.path.exists(f):
                os.unlink(f)
    return [(w, l.decode("utf-8", "replace")) for w, l in out], n


def parity(ident, tier, t0, other, props, first=()):
    build(["plain", other])
    reports, total = [], {"property": ident, "build": f"plain against {other}", "states": 0, "transitions": 0, "outcomes": {}, "distinct_outcomes": 0,
                          "samples": [], "bounds": [], "known": [], "violation_count": 0, "violations": [], "validated": 0, "wall_s": 0}
    known = known_cases(ident)
    for prop in props:
        if total["violation_count"] and tier == "quick":
            break
        files = {}
        n = {}
        for w in ("plain", other):
            files[w] = os.path.join(SCRATCH, f"parity-{prop}-{w}-{os.getpid()}")
            os.makedirs(SCRATCH, exist_ok=True)
            r, crash, active = run_once(os.path.join(TARGET, "mc-" + w), prop, tier, "parity-" + w, files[w])
            if r is None:
                # The other build decides whether this is a difference.
                n[w] = ("crash", active)
            else:
                n[w] = ("ok", r)
        if n["plain"][0] != n[other][0]:
            bad = "plain" if n["plain"][0] == "crash" else other
            for case in (n[bad][1] or ["unknown case"]):
                total["violations"].append({"case": f"{prop}: {case}", "expected": "the same in both builds", "actual": f"the {bad} build ends abnormally, the other does not"})
                total["violation_count"] += 1
        elif n["plain"][0] == "ok":
            a, b = n["plain"][1], n[other][1]
            total["states"] += a["states"]
            total["transitions"] += a["transitions"] + b["transitions"]
            total["outcomes"][f"{prop} cases"] = a["states"]
            diff, lines = differences(files["plain"], files[other], other)
            total["validated"] += lines
            for w, text in diff:
                case, _, outcome = text.partition("\t=> ")
                case = f"{prop}: {case}"
                if case in known:
                    if case not in total["known"]:
                        total["known"].append(case)
                    continue
                total["violations"].append({"case": case, "expected": "the same line from both builds", "actual": f"only in the {w} build: {outcome}"})
                total["violation_count"] += 1
            total["samples"] += a["samples"][:1]
            total["bounds"] += [f"{prop}: {x}" for x in a["bounds"]]
        else:
            total["outcomes"][f"{prop} ends abnormally in both builds"] = 1
        for w in files:
            for f in glob.glob(files[w] + ".*"):
                os.unlink(f)
    total["distinct_outcomes"] = len(total["outcomes"])
    settle(ident, tier, [run(os.path.join(TARGET, "mc-" + w), ident, tier, w) for w in first] + [total], t0)


def main():
    t0 = time.time()
    if len(sys.argv) == 3 and sys.argv[1] == "--replay":
        d = json.load(open(sys.argv[2], encoding="utf-8"))
        prop = d["property"]
        bad = 0
        builds = sorted({v["build"] for v in d["violations"]})
        if prop in ("C33", "C36") or prop in SYNC_ONLY:
            os.execv(sys.executable, [sys.executable, os.path.abspath(__file__), prop, d["tier"]])
        build(builds)
        for v in d["violations"][:10]:
            r, c, _ = run_once(os.path.join(TARGET, "mc-" + v["build"]), prop, d["tier"], v["build"], None, v["case"])
            log(v["case"], "->", c if r is None else json.dumps(r["violations"], ensure_ascii=False))
            bad |= r is None or r["violation_count"] > 0
        sys.exit(1 if bad else 0)
    if len(sys.argv) == 2 and sys.argv[1] == "--setup":
        build(["plain", "sync", "extended", "conc", "concloc"])
        log("built")
        return
    prop, tier = sys.argv[1], sys.argv[2]
    assert tier in ("quick", "thorough")
    if prop == "C33":
        parity("C33", tier, t0, "sync", PARITY + (["C31"] if tier == "thorough" else []))
    if prop == "C36":
        parity("C36", tier, t0, "extended", PARITY_EXTENDED, ["extended"])
    if prop in SYNC_ONLY:
        w = SYNC_ONLY[prop]
        build([w])
        settle(prop, tier, [dict(run(os.path.join(TARGET, w), prop, tier, w), build=w)], t0)
    builds = ["plain", "sync"]
    build(builds)
    reports = []
    for w in builds:
        reports.append(run(os.path.join(TARGET, "mc-" + w), prop, tier, w))
        if reports[-1]["violation_count"] and tier == "quick":
            break
    settle(prop, tier, reports, t0)


if __name__ == "__main__":
    main()
