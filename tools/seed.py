#!/usr/bin/env python3
"""Writes /verif/seeded/<id>/ from tools/bugs.py, after confirming each change in a scratch copy of /repo.

  seed.py [ID...]      (all bugs without a folder when no ID is given; -f ID to redo)
The scratch copy lies in /tmp/seed and is removed by hand when done."""
import json, os, subprocess, sys, shutil
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import bugs
W = "/tmp/seed/repo"
DEPS = {
    "utility": 'i18n_utility-rizzen-yazston = { path = "@REPO@/crates/utility", default-features = false%s }',
    "lexer": 'i18n_lexer-rizzen-yazston = { path = "@REPO@/crates/lexer", default-features = false, features = ["icu_compiled_data"] }',
    "localiser": 'i18n_localiser-rizzen-yazston = { path = "@REPO@/crates/localiser", default-features = false, features = ["icu_compiled_data"%s] }',
    "provider": 'i18n_provider-rizzen-yazston = { path = "@REPO@/crates/provider/core", default-features = false }',
    "sqlite3": 'i18n_provider_sqlite3-rizzen-yazston = { path = "@REPO@/crates/provider/sqlite3", default-features = false%s }',
    "rusqlite": 'rusqlite = { version = "0.32.1", default-features = false }',
    "icu_calendar": 'icu_calendar = { version = "1.5.0", default-features = false, features = ["compiled_data"] }',
    "fixed_decimal": 'fixed_decimal = { version = "0.5.6", default-features = false, features = ["ryu"] }',
}
KITS = {"loc": ["utility", "lexer", "localiser", "provider"], "prov": ["utility", "provider", "sqlite3", "rusqlite"],
        "locprov": ["utility", "lexer", "localiser", "provider", "sqlite3", "rusqlite"],
        "lex": ["lexer"], "reg": ["utility"]}

def sh(cmd, cwd=W, env=None, timeout=900):
    e = dict(os.environ); e.update(env or {})
    p = subprocess.run(cmd, shell=True, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    return p.returncode, p.stdout

def tests():
    env = {"CARGO_TARGET_DIR": "/tmp/seed/target", "CARGO_INCREMENTAL": "1", "CARGO_PROFILE_DEV_DEBUG": "line-tables-only", "CARGO_TERM_COLOR": "never", "CARGO_NET_OFFLINE": "true"}
    rc, out = sh("rm -rf /tmp/seed/target/debug/.fingerprint/i18n*; timeout 800 cargo test --workspace --no-fail-fast --offline -- --test-threads 8", env=env)
    open("/tmp/seed/test.log", "w").write(out)
    sh("python3 /opt/vp/results.py /tmp/seed/res.json cargo:/tmp/seed/test.log")
    base = json.load(open("/opt/vp/BASELINE.json")); res = json.load(open("/tmp/seed/res.json"))
    want = base.get("stable") or base.get("passed") or base.get("pass")
    got = set(res.get("passed") or res.get("pass"))
    return [t for t in want if t not in got], len(want)

def main():
    args = sys.argv[1:]
    force = "-f" in args
    args = [a for a in args if a != "-f"]
    os.makedirs("/tmp/seed", exist_ok=True)
    for b in bugs.BUGS:
        if args and b["id"] not in args: continue
        dst = "/verif/seeded/" + b["id"]
        if os.path.exists(dst) and not force: continue
        sh("rm -rf /tmp/seed/repo && git clone -q /repo /tmp/seed/repo && cp /repo/Cargo.lock /tmp/seed/repo/", cwd="/tmp")
        tmp = "/tmp/seed/bug"; shutil.rmtree(tmp, ignore_errors=True); os.makedirs(tmp)
        shutil.copy(HERE + "/demo/demo.sh", tmp)
        kit = b["kit"]
        sync = b.get("sync", False)
        deps = []
        for k in KITS[kit] + b.get("deps", []):
            d = DEPS[k]
            if "%s" in d:
                d = d % ({"utility": ', features = ["sync"]', "sqlite3": ', features = ["sync"]', "localiser": ', "sync"'}[k] if sync else
                         {"utility": ', features = ["icu_extended"]', "sqlite3": "", "localiser": ', "icu_extended"'}[k] if b.get("extended") else "")
            deps.append(d)
        toml = open(HERE + "/demo/Cargo.toml.in").read().replace("@DEPS@", "\n".join(deps))
        if sync: toml = toml.replace("sync = []", 'default = ["sync"]\nsync = []')
        open(tmp + "/Cargo.toml.in", "w").write(toml)
        if kit.startswith("loc"): shutil.copy(HERE + "/demo/kit_loc.rs", tmp)
        if kit.endswith("prov"): shutil.copy(HERE + "/demo/kit_prov.rs", tmp)
        open(tmp + "/main.rs", "w").write(b["demo"].strip() + "\n")
        env = {"DEMO_TARGET": "/tmp/seed/dtarget"}
        clean = "rm -rf /tmp/seed/dtarget/debug/.fingerprint/i18n* /tmp/seed/dtarget/debug/.fingerprint/demo*; "
        rc, out = sh(clean + f"bash {tmp}/demo.sh", env=env)
        if rc != 0:
            print(b["id"], "DEMO FAILS ON CLEAN", rc, out[-3000:]); continue
        for f, old, new in b["edits"]:
            p = f"{W}/{f}"; t = open(p).read()
            n = b.get("count", 1)
            if t.count(old) != n:
                print(b["id"], "EDIT MATCHES", t.count(old), "times:", old[:80]); break
            # Lines taken away must be those of the original repository.
            open(p, "w").write(t.replace(old, new))
        else:
            _, diff = sh("git diff")
            base = subprocess.run("git rev-list --max-parents=0 HEAD", shell=True, cwd="/repo", capture_output=True, text=True).stdout.strip()
            mine = []
            for f in {e[0] for e in b["edits"]}:
                _, bl = sh(f"git blame -s -l HEAD -- {f}")
                removed = [l[1:] for l in diff.splitlines() if l.startswith("-") and not l.startswith("---")]
                for l in bl.splitlines():
                    h, rest = l.split(" ", 1); body = rest.split(") ", 1)[-1] if ") " in rest else ""
                    if not (h.lstrip("^").startswith(base[:20])) and body in removed and len(body.strip()) > 6: mine.append(body)
            rc, out = sh(clean + f"bash {tmp}/demo.sh", env=env)
            if rc == 0 or "did not build" in out:
                print(b["id"], "DEMO NOT FAILING WITH PATCH", rc, out[-3000:]); continue
            bad, n = tests()
            if bad:
                print(b["id"], "TESTS FAIL", bad[:5]); continue
            shutil.rmtree(dst, ignore_errors=True)
            shutil.copytree(tmp, dst)
            open(dst + "/patch.diff", "w").write(diff)
            json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(dst + "/meta.json", "w"), indent=1)
            print(b["id"], "ok,", n, "tests pass;", "demo:", out.strip().splitlines()[-2][:150] if len(out.strip().splitlines()) > 1 else out.strip(), ("TOUCHES MY LINES " + str(mine[:3])) if mine else "")
main()
