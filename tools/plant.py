"""Planted bugs (run by hand; no check reads this or /verif/seeded).
   plant.py make [ID...]     write seeded/ID from tools/plant/specs.py and confirm each in a scratch copy
   plant.py catch [ID...]    apply each to /repo, run its property's check (or --checks A,B), undo it
"""
import json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = os.path.join(V, "tools", "plant")
S = os.path.join(V, "seeded")
SCR = "/tmp/s/repo"
sys.path.insert(0, P)

def sh(cmd, cwd=None, env=None, t=900):
    r = subprocess.run(cmd, shell=True, cwd=cwd, env={**os.environ, **(env or {})}, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=t)
    return r.returncode, r.stdout.decode(errors="replace")

def scratch(SCR):
    if not os.path.isdir(SCR):
        os.makedirs("/tmp/s", exist_ok=True)
        sh(f"cp -a /repo {SCR}")
    head = sh("git -C /repo rev-parse HEAD")[1].strip()
    sh(f"git -C {SCR} fetch -q /repo; git -C {SCR} checkout -qf {head}; git -C {SCR} checkout -- .")

def original(file, old):
    """every changed line must come from the base commit"""
    src = open(f"/repo/{file}").read()
    at = src.index(old)
    first = src[:at].count("\n") + 1
    last = first + old.rstrip("\n").count("\n")
    rc, out = sh(f"git -C /repo blame -s -L {first},{last} {file}")
    return all(l.startswith("^") for l in out.splitlines())

def one(sid, sp, SCR):
    d = os.path.join(S, sid)
    sh("git checkout -- . && git clean -fdq", cwd=SCR)
    for f, old, new in sp["edits"]:
        p = f"{SCR}/{f}"
        t = open(p).read()
        n = t.count(old)
        if n != 1: return f"{sid} BAD EDIT {f} {n} {old[:60]!r}"
        open(p, "w").write(t.replace(old, new))
    orig = [original(f, old) for f, old, _ in sp["edits"]]
    diff = sh("git diff --text", cwd=SCR)[1]
    env = {"CARGO_TARGET_DIR": SCR + "/target", "CARGO_NET_OFFLINE": "true"}
    rc, out = sh("cargo test --offline --workspace 2>&1", cwd=SCR, env=env)
    sh("git checkout -- . && git clean -fdq", cwd=SCR)
    if os.path.isdir(d): shutil.rmtree(d)
    os.makedirs(d)
    open(f"{d}/patch.diff", "w").write(diff)
    shutil.copy(f"{P}/demo_{sp.get('kind','rust')}.sh", f"{d}/demo.sh"); os.chmod(f"{d}/demo.sh", 0o755)
    if sp.get("kind") == "ts": shutil.copy(f"{P}/check.cjs", d)
    open(f"{d}/main.rs", "w").write(open(f"{P}/prelude.rs").read() + "\nfn main() {\n" + sp["demo"].strip("\n") + "\n}\n")
    json.dump({"property": sp["property"], "needs": sp["needs"], "what_it_breaks": sp["breaks"]}, open(f"{d}/meta.json", "w"), indent=1)
    if rc != 0:
        return f"{sid} TESTS FAIL " + str([l for l in out.splitlines() if "FAILED" in l or l.startswith("error")][:6])
    a, ao = sh(f"bash {d}/demo.sh", cwd=SCR)
    sh(f"git apply {d}/patch.diff", cwd=SCR)
    b, bo = sh(f"bash {d}/demo.sh", cwd=SCR)
    sh("git checkout -- . && git clean -fdq", cwd=SCR)
    good = a == 0 and b != 0
    r = f"{sid} {'OK' if good else 'DEMO'} {'' if all(orig) else '(non-original lines)'} clean={a} patched={b}"
    if not good: r += "\n  clean: " + ao[-500:] + "\n  patched: " + bo[-500:]
    elif "-v" in sys.argv: r += "\n  patched: " + bo[-400:]
    return r

def make(ids):
    from specs import SPECS
    from concurrent.futures import ThreadPoolExecutor
    import queue
    n = 4
    q = queue.Queue()
    for k in range(n): scratch(f"{SCR}{k}"); q.put(f"{SCR}{k}")
    def job(it):
        d = q.get()
        try: print(one(it[0], it[1], d), flush=True)
        except Exception as e: print(it[0], "EXC", e, flush=True)
        finally: q.put(d)
    with ThreadPoolExecutor(n) as ex:
        list(ex.map(job, [it for it in SPECS.items() if not ids or it[0] in ids]))

def catch(ids):
    extra = [a.split("=")[1].split(",") for a in sys.argv if a.startswith("--checks=")]
    env = {"VERIF_SEED": "1", "VERIF_TIER": "quick"}
    if sh("git -C /repo status --short")[1].strip(): sys.exit("/repo is not clean")
    for sid in sorted(os.listdir(S)):
        if ids and sid not in ids: continue
        d = f"{S}/{sid}"
        prop = json.load(open(f"{d}/meta.json"))["property"]
        rc, out = sh(f"git -C /repo apply {d}/patch.diff")
        if rc: print(sid, "does not apply", out); continue
        try:
            for c in (extra[0] if extra else [prop]):
                rc, out = sh(f"python3 vp.py {c}", cwd=V, env=env, t=1200)
                v = [l for l in out.splitlines() if l.startswith("VIOLATION")]
                print(sid, c, "caught" if rc == 1 and v else f"MISSED rc={rc}", v[:1], flush=True)
                if "-v" in sys.argv or rc not in (0, 1): print(out[-1500:])
        finally:
            sh("git -C /repo checkout -- . && git -C /repo clean -fdq")

if __name__ == "__main__":
    ids = [a for a in sys.argv[2:] if not a.startswith("-")]
    {"make": make, "catch": catch}[sys.argv[1]](ids)
