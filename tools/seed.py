#!/usr/bin/env python3
"""Plant bugs: seed.py DEFS.py [id...]; for every definition, applies the edits to /repo, keeps the
patch under /verif/seeded/<id>, runs the repository's tests, the demonstration and the property's
quick check, and undoes the edits. Used while developing only; no check reads /verif/seeded."""
import sys, os, json, subprocess, importlib.util, shutil
R = "/repo"; S = "/verif/seeded"
def sh(cmd, **k): return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)
def tests():
    e = dict(os.environ); e.pop("CARGO_TARGET_DIR", None)
    b = sh("bash /opt/vp/build.sh", env=e)
    if b.returncode: return "build failed:\n" + (b.stdout + b.stderr)[-1500:]
    sh("bash /opt/vp/test.sh /tmp/seed/t.json", env=e)
    base = json.load(open("/opt/vp/BASELINE.json")); t = json.load(open("/tmp/seed/t.json"))
    miss = [x for x in base["stable"] if x not in t["passed"]]
    return "" if not miss else "tests fail: %s" % miss[:6]
def demo(d):
    e = dict(os.environ); e.pop("CARGO_TARGET_DIR", None)
    return subprocess.run(["bash", d + "/demo.sh"], cwd=R, capture_output=True, text=True, env=e, timeout=300)
HARNESS = os.path.join(os.path.dirname(os.path.abspath(__file__)), "demo")
def main():
    spec = importlib.util.spec_from_file_location("defs", sys.argv[1]); m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
    want = sys.argv[2:]
    assert sh("git -C /repo status --porcelain").stdout == "", "dirty repo"
    for s in m.SEEDS:
        if want and s["id"] not in want: continue
        d = f"{S}/{s['id']}"; os.makedirs(d, exist_ok=True)
        try:
            for f, old, new in s["edits"]:
                p = f"{R}/{f}"; t = open(p).read()
                n = s.get("nth", {}).get(old, None)
                if n is None: assert t.count(old) == 1, (s["id"], f, t.count(old), old); t = t.replace(old, new)
                else:
                    parts = t.split(old); assert len(parts) > n + 1
                    t = old.join(parts[:n+1]) + new + old.join(parts[n+1:])
                open(p, "w").write(t)
            diff = sh("git -C /repo diff").stdout
            open(d + "/patch.diff", "w").write(diff)
            json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
            if "main" in s:
                shutil.copy(HARNESS + "/demo.sh", d + "/demo.sh")
                open(d + "/main.rs", "w").write(open(HARNESS + "/prelude.rs").read() + s["main"])
            else:
                shutil.copy(HARNESS + "/demo_server.sh", d + "/demo.sh")
                open(d + "/client.py", "w").write(open(HARNESS + "/prelude.py").read() + s["client"])
            t = tests()
            if t: print(s["id"], "REJECTED", t, flush=True); shutil.rmtree(d); continue
            r = demo(d)
            dm = "demo ok" if r.returncode else "DEMO DOES NOT FAIL"
            if "error[" in r.stderr or "error:" in r.stderr and "panicked" not in r.stderr: dm = "DEMO BROKEN " + r.stderr[-1500:]
            c = sh(f"bash /verif/check.sh {s['property']} quick")
            v = [l for l in c.stdout.splitlines() if l.startswith("VIOLATION")]
            print(s["id"], s["property"], dm, "CAUGHT" if c.returncode == 1 and v else f"MISSED rc={c.returncode}", r.stderr.strip()[-160:].replace("\n", " "), flush=True)
        except AssertionError as e: print(s["id"], "ASSERT", e, flush=True)
        finally:
            sh("git -C /repo checkout -- .")
    from concurrent.futures import ThreadPoolExecutor
    ids = [s["id"] for s in m.SEEDS if (not want or s["id"] in want) and os.path.isdir(f"{S}/{s['id']}")]
    with ThreadPoolExecutor(4) as ex:
        for i, r in zip(ids, ex.map(lambda i: demo(f"{S}/{i}"), ids)):
            if r.returncode: print(i, "DEMO FAILS ON CLEAN", r.stderr[-800:], flush=True)
    print("DONE", flush=True)
main()
