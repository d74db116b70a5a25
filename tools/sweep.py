#!/usr/bin/env python3
"""sweep.py LIST.py [name-prefix ...]: runs the property checks against mutations of copies of /repo.

LIST.py defines M = [(name, props, [(file, old, new), ...]), ...]; props is a list of property ids
(what is expected to notice).  kind "R" (props starting with "R") marks a behaviour-preserving edit:
then every listed check must stay quiet.  Each slot works in its own user/mount namespace, with copies
of /repo, /verif and /opt/vp mounted over the real ones; nothing real is touched."""
import sys, os, subprocess, json, shutil, queue, threading, runpy, time

SLOTS = int(os.environ.get("SLOTS", "3"))
ROOT = os.environ.get("SWEEP_ROOT", "/tmp/sweep")

def slot_cmd(slot, cmd, timeout=900):
    s = f"{ROOT}/{slot}"
    full = ["unshare", "-Urm", "bash", "-c",
            f"mount --bind {s}/repo /repo && mount --bind {s}/verif /verif && mount --bind {s}/vp /opt/vp && cd /verif && {cmd}"]
    try:
        p = subprocess.run(full, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
        return p.returncode, p.stdout.decode(errors="replace")
    except subprocess.TimeoutExpired as e:
        return 124, (e.stdout or b"").decode(errors="replace")

def run(slot, m):
    name, props, edits = m
    repo = f"{ROOT}/{slot}/repo"
    subprocess.check_call(["git", "-C", repo, "checkout", "-q", "--", "."])
    for f, old, new in edits:
        p = f"{repo}/{f}"
        s = open(p).read()
        if s.count(old) < 1:
            return f"{name}: PATTERN {s.count(old)} {f}: {old[:40]!r}"
        n = 1
        if old.startswith("@all "):
            n = -1
        open(p, "w").write(s.replace(old, new, 1))
    rc, out = slot_cmd(slot, "bash /opt/vp/build.sh")
    if rc: return f"{name}: BUILD FAILS\n{out[-600:]}"
    rc, out = slot_cmd(slot, f"bash /opt/vp/test.sh {ROOT}/{slot}/t.json")
    b = json.load(open("/opt/vp/BASELINE.json")); r = json.load(open(f"{ROOT}/{slot}/t.json"))
    want = b.get("passed") or b.get("stable") or b
    bad = [x for x in want if x not in set(r.get("passed", []))]
    t = f"tests-fail={len(bad)} " if bad else ""
    keep = props and props[0] == "R"
    res = []
    ok = keep
    for p in (props[1:] if keep else props):
        t0 = time.time()
        rc, out = slot_cmd(slot, f"./check.sh {p} -workers {max(2, 8 // SLOTS)}", 900)
        ex = "" if "exhaustive=true" in out or "exhaustive: true" in out else "!"
        v = [l for l in out.splitlines() if l.startswith("VIOLATION")]
        res.append(f"{p}:rc{rc}{'' if rc != 0 else ''} {time.time()-t0:.0f}s")
        tail = out.strip().splitlines()[-1] if out.strip() else ""
        if rc == 0 and "false" in tail: res[-1] += " NOT-EXHAUSTIVE " + tail[-200:]
        if keep and rc != 0: ok = False
        if not keep and rc == 1 and v: ok = True
        if rc not in (0, 1): res[-1] += " ERR " + out[-400:]
        if not keep and ok: break
    return f"{name}: {'ok' if ok else 'MISSED' if not keep else 'ALARM'} {t}{' '.join(res)}"

def main():
    ns = runpy.run_path(sys.argv[1])
    M = ns["M"]
    if len(sys.argv) > 2:
        M = [m for m in M if any(m[0].startswith(a) for a in sys.argv[2:])]
    names = [m[0] for m in M]
    assert len(set(names)) == len(names), [n for n in names if names.count(n) > 1]
    for i in range(SLOTS):
        d = f"{ROOT}/{i}"
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        subprocess.check_call(["cp", "-a", "/repo", d + "/repo"])
        subprocess.check_call(["rsync", "-a", "--exclude", "seeded", "--exclude", ".git", "/verif", d] if shutil.which("rsync") else ["cp", "-a", "/verif", d + "/verif"])
        subprocess.check_call(["cp", "-a", "/opt/vp", d + "/vp"])
    q = queue.Queue()
    for m in M: q.put(m)
    lock = threading.Lock()
    def work(i):
        while True:
            try: m = q.get_nowait()
            except queue.Empty: return
            try: r = run(i, m)
            except Exception as e: r = f"{m[0]}: EXC {e!r}"
            with lock: print(r, flush=True)
    ts = [threading.Thread(target=work, args=(i,)) for i in range(SLOTS)]
    [t.start() for t in ts]; [t.join() for t in ts]
    shutil.rmtree(ROOT, ignore_errors=True)

main()
