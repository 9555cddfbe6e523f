#!/usr/bin/env python3
"""Runs checks against changed copies of /repo, without touching /repo or /verif:
mutants.py [-p Cxx,Cyy] [-j N] [-t thorough] ID_OR_PATCH...   (ID: of seeded/; default: all of them, each against its property)
Prints per change and check: exit code, seconds, last VIOLATION line. Copies live under /tmp/mut and are removed."""
import argparse, concurrent.futures as cf, json, os, shutil, subprocess, sys, tempfile, time
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("MUT_REPO", "/repo")
ap = argparse.ArgumentParser()
ap.add_argument("-p", default="")
ap.add_argument("-j", type=int, default=1)
ap.add_argument("-t", default="quick")
ap.add_argument("-k", action="store_true", help="keep output")
ap.add_argument("ids", nargs="*")
A = ap.parse_args()


def one(ident):
    if os.path.exists(ident):
        patch, props = os.path.abspath(ident), []
    else:
        d = os.path.join(VERIF, "seeded", ident)
        patch, props = os.path.join(d, "patch.diff"), [json.load(open(d + "/meta.json"))["property"]]
    if A.p:
        props = A.p.split(",")
    w = tempfile.mkdtemp(prefix="mut")
    res = []
    try:
        subprocess.run(["cp", "-a", REPO, w + "/repo"], check=True)
        subprocess.run(["rm", "-rf", w + "/repo/target"])
        subprocess.run(["rsync", "-a", "--exclude", "seeded", VERIF + "/", w + "/verif"], check=False) if shutil.which("rsync") else subprocess.run(["cp", "-a", VERIF, w + "/verif"], check=True)
        if patch != "/dev/null":
            subprocess.run(["git", "-C", w + "/repo", "apply", patch], check=True)
        for p in props:
            t = time.time()
            r = subprocess.run(["unshare", "-rm", "bash", "-c", "mount --bind %s/repo /repo && mount --bind %s/verif /verif && cd /verif && exec python3 check.py %s" % (w, w, p)],
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=dict(os.environ, VERIF_TIER=A.t, VERIF_SEED="1"))
            out = r.stdout.decode(errors="replace")
            v = [l for l in out.splitlines() if "VIOLATION" in l]
            res.append("%-28s %s rc=%d %4ds %s" % (os.path.basename(ident), p, r.returncode, time.time() - t, v[-1][:150] if v else "-- " + " | ".join(out.splitlines()[-3:])[:300]))
            if A.k:
                open("/tmp/mut.%s.%s.log" % (os.path.basename(ident), p), "w").write(out)
    except Exception as e:
        res.append("%s: %r" % (ident, e))
    finally:
        shutil.rmtree(w, ignore_errors=True)
    return res


ids = A.ids or sorted(os.listdir(VERIF + "/seeded"))
with cf.ThreadPoolExecutor(A.j) as ex:
    for r in ex.map(one, ids):
        print("\n".join(r), flush=True)
