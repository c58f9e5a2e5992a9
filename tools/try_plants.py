#!/usr/bin/env python3
"""try_plants.py [--all] [--dir DIR] [-j N] [--tier T] [--seed S] [id...]
runs the quick check of each planted bug's property (or all checks) with the bug applied. Every run sees /repo and
/verif through overlays of its own in a mount namespace, so that neither is touched and several can run at once."""
import argparse, concurrent.futures as cf, json, os, re, shutil, subprocess, tempfile, time
V = "/verif"
ap = argparse.ArgumentParser(); ap.add_argument("--all", action="store_true"); ap.add_argument("--dir", default=V + "/seeded"); ap.add_argument("-j", type=int, default=1)
ap.add_argument("--tier", default="quick"); ap.add_argument("--seed", default="1"); ap.add_argument("--props", default=""); ap.add_argument("--quiet-expected", action="store_true"); ap.add_argument("ids", nargs="*")
A = ap.parse_args()
def inside(base, patch, cmd):
    """cmd run with patch applied to /repo, as far as it can tell"""
    mk = lambda n: (os.makedirs(base + "/" + n, exist_ok=True), base + "/" + n)[1]
    script = "set -e; for d in repo verif; do mount -t overlay overlay -o lowerdir=/$d,upperdir=%s/$d.u,workdir=%s/$d.w /$d; done; python3 -c 'import fcntl,socket,struct; s=socket.socket(); fcntl.ioctl(s,0x8914,struct.pack(\"16sh\",b\"lo\",0x41))'; cd /repo; git config --global --add safe.directory /repo 2>/dev/null || true; [ -e %s/applied ] || git apply %s; touch %s/applied; cd /verif; exec %s" % (base, base, base, patch, base, cmd)
    for d in ("repo", "verif"): mk(d + ".u"); mk(d + ".w")
    return subprocess.run(["unshare", "-Urmn", "bash", "-c", script], capture_output=True, text=True, env=dict(os.environ, VERIF_SEED=A.seed, HOME=mk("home"), CARGO_HOME="/root/.cargo", RUSTUP_HOME="/root/.rustup"))
def one(i):
    d = os.path.join(A.dir, i); own = json.load(open(d + "/meta.json"))["property"] if os.path.exists(d + "/meta.json") else ""
    props = A.props.split(",") if A.props else ["C%02d" % n for n in range(1,38)] if A.all else [own]
    base = tempfile.mkdtemp(prefix="plantrun-"); caught, other, text = [], [], ""
    try:
        for p in props:
            t = time.time(); r = inside(base, os.path.abspath(d + "/patch.diff"), "/verif/check %s --tier %s" % (p, A.tier))
            hit = r.returncode == 1 and "VIOLATION property=%s " % p in r.stdout
            if hit: caught.append(p)
            elif r.returncode != 0: other.append("%s rc=%d %s" % (p, r.returncode, (r.stdout + r.stderr)[-300:]))
            line = next((l for l in r.stdout.splitlines() if l.startswith("violated")), "")
            if p == own or hit and len(props) < 6: text += "%-5s %s rc=%d %.0fs %s\n" % (p, "caught" if hit else "MISSED", r.returncode, time.time() - t, line[:160])
    finally:
        subprocess.run(["chmod", "-R", "u+rwx", base]); shutil.rmtree(base, ignore_errors=True)
    return i, own, caught, other, text
ids = A.ids or sorted(x for x in os.listdir(A.dir) if os.path.exists(A.dir + "/" + x + "/patch.diff"))
missed = []
with cf.ThreadPoolExecutor(A.j) as ex:
    for i, own, caught, other, text in ex.map(one, ids):
        print("%-28s %s" % (i, text.strip()) + ("\n   caught by " + " ".join(caught) if A.all or A.props else "") + ("\n   NO ANSWER: " + "; ".join(other) if other else ""), flush=True)
        if own not in caught: missed.append(i)
print("missed:", missed)
