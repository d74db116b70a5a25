#!/usr/bin/env python3
"""autosweep.py MUTANTS.jsonl OUT.log [N [SEED]]: runs checks against generated mutants (tools/automut) in copies of
/repo, as sweep.py does.  A mutant is dropped when it does not build or fails the stable tests."""
import sys, os, json, random, subprocess, shutil, threading, queue, time
os.environ.setdefault("SWEEP_ROOT", "/tmp/autosweep")
ROOT, SLOTS = os.environ["SWEEP_ROOT"], int(os.environ.get("SLOTS", "3"))
GUI = "1pass-app/gui/"
PROPS = {
 "1pass-term/control/cobra/clicontrol.go": "C14 C16 C19 C31 C13 C12",
 GUI+"1passwidget.go": "C26 C25 C27 C30", GUI+"detailswidget.go": "C26 C25 C28", GUI+"itemswidget.go": "C26 C25",
 "1pass-up/component/github/updater.go": "C21 C22 C24 C20 C23 C33 C18",
 "1pass-core/core/service/itemservice.go": "C06 C08 C28 C07 C09 C11 C05", "1pass-core/core/service/keyservice.go": "C01 C02 C03 C04 C08",
 "1pass-parse/repo/file/itemrepo.go": "C07 C09 C15 C08", "1pass-app/cli/cobra.go": "C29 C32", "1pass-parse/repo/file/configrepo.go": "C17 C16 C32",
 "1pass-core/core/domain/itemcategory.go": "C10 C07 C31 C26 C14", "1pass-core/core/service/updateservice.go": "C18 C20 C33 C32",
 GUI+"passprompt.go": "C25 C26 C30", "1pass-core/core/domain/datatype.go": "C28 C06", GUI+"errdialog.go": "C26 C25 C30", GUI+"helpwidget.go": "C26 C25",
 GUI+"versionwidget.go": "C27 C25 C26", "1pass-app/main.go": "C32 C29", "1pass-parse/repo/file/profilerepo.go": "C15 C04 C03",
 GUI+"gocui.go": "C26 C25 C27", "1pass-core/core/domain/logicval.go": "C16 C19", "1pass-core/core/facade/vaultfacade.go": "C05 C04 C32",
 "1pass-core/core/service/vaultservice.go": "C15 C04", "1pass-core/core/domain/static.go": "C32 C18 C20", "1pass-core/core/domain/error.go": "C14 C18",
 "1pass-term/control/gocui/guicontrol.go": "C26 C27 C31", "1pass-core/core/facade/configfacade.go": "C17 C16", "1pass-core/core/service/configservice.go": "C17 C16",
}
EXTRA = {"1pass-core/core/facade/updatefacade.go": "C18 C33 C20"}

def slot_cmd(slot, cmd, timeout=600):
    s = f"{ROOT}/{slot}"
    full = ["unshare", "-Urm", "bash", "-c", f"mount --bind {s}/repo /repo && mount --bind {s}/verif /verif && mount --bind {s}/vp /opt/vp && cd /verif && {cmd}"]
    try:
        p = subprocess.run(full, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
        return p.returncode, p.stdout.decode(errors="replace")
    except subprocess.TimeoutExpired as e:
        return 124, (e.stdout or b"").decode(errors="replace")

def run(slot, m):
    repo = f"{ROOT}/{slot}/repo"
    subprocess.check_call(["git", "-C", repo, "checkout", "-q", "--", "."])
    p = f"{repo}/{m['File']}"
    s = open(p, "rb").read()
    old = s[m["From"]:m["To"]].decode()
    open(p, "wb").write(s[:m["From"]] + m["New"].encode() + s[m["To"]:])
    name = f"{m['File'].split('/')[-1]}:{m['Line']}:{m['Op']} {old[:70]!r} -> {m['New'][:70]!r}"
    rc, _ = slot_cmd(slot, "bash /opt/vp/build.sh")
    if rc: return "nobuild " + name
    slot_cmd(slot, f"bash /opt/vp/test.sh {ROOT}/{slot}/t.json")
    b = json.load(open("/opt/vp/BASELINE.json")); r = json.load(open(f"{ROOT}/{slot}/t.json"))
    want = b.get("passed") or b.get("stable") or b
    if [x for x in want if x not in set(r.get("passed", []))]: return "tests " + name
    res = []
    for p in PROPS.get(m["File"], EXTRA.get(m["File"], "C32")).split():
        t0 = time.time()
        rc, out = slot_cmd(slot, f"./check.sh {p} -workers {max(2, 8 // SLOTS)}")
        if rc == 1 and "VIOLATION" in out: return f"caught {p} {time.time()-t0:.0f}s {name}"
        res.append(f"{p}:{rc}:{time.time()-t0:.0f}s{'!' if 'bounds: false' in out else ''}")
    return f"SURVIVES {name} [{' '.join(res)}]"

ms = [json.loads(l) for l in open(sys.argv[1])]
random.seed(int(sys.argv[4]) if len(sys.argv) > 4 else 1)
random.shuffle(ms)
only = os.environ.get("ONLY")
if only: ms = [m for m in ms if any(o in m["File"] for o in only.split(","))]
skip = os.environ.get("SKIP")
if skip: ms = [m for m in ms if not any(o in m["File"] for o in skip.split(","))]
if len(sys.argv) > 3: ms = ms[:int(sys.argv[3])]
for i in range(SLOTS):
    d = f"{ROOT}/{i}"; shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    subprocess.check_call(["cp", "-a", "/repo", d + "/repo"])
    os.makedirs(d + "/verif")
    for x in os.listdir("/verif"):
        if x not in (".git", "seeded"): subprocess.check_call(["cp", "-a", "/verif/" + x, d + "/verif/" + x])
    subprocess.check_call(["cp", "-a", "/opt/vp", d + "/vp"])
q = queue.Queue(); [q.put(m) for m in ms]
lock = threading.Lock(); out = open(sys.argv[2], "a")
def work(i):
    while True:
        try: m = q.get_nowait()
        except queue.Empty: return
        try: r = run(i, m)
        except Exception as e: r = f"EXC {e!r} {m}"
        with lock: print(r, file=out, flush=True)
ts = [threading.Thread(target=work, args=(i,)) for i in range(SLOTS)]
[t.start() for t in ts]; [t.join() for t in ts]
shutil.rmtree(ROOT, ignore_errors=True)
