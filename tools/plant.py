#!/usr/bin/env python3
"""Plants bugs in scratch copies of /repo, shown at /repo inside of private mount namespaces.

plant.py make FILE            write seeded/<id>/ for each bug listed in FILE
plant.py verify [ID ...]      the tests pass, and the demonstration tells the trees apart
plant.py check [ID[:Cxx] ...] which checks catch it
"""
import json, os, subprocess, sys, shutil
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEED = os.path.join(HERE, "seeded")
WORK = "/tmp/plants"
BASE = "98e50f7"
DEMO = '#!/bin/bash\nexec env PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" MPLBACKEND=Agg /opt/venv/bin/python "$(dirname "$0")/demo.py"\n'


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=isinstance(cmd, str), capture_output=True, text=True, **kw)


def original(path, line):
    out = sh(["git", "-C", "/repo", "blame", "-s", "-L", "%d,%d" % (line, line), "--", path]).stdout
    com = out.split()[0].lstrip("^")
    return sh(["git", "-C", "/repo", "merge-base", "--is-ancestor", com, BASE]).returncode == 0


def make(fname):
    ns = {}
    exec(open(fname).read(), ns)
    for bug in ns["BUGS"]:
        bid = bug["id"]
        folder = os.path.join(SEED, bid)
        os.makedirs(folder, exist_ok=True)
        work = os.path.join(WORK, "make")
        shutil.rmtree(work, ignore_errors=True)
        diff = ""
        bad = False
        edits = {}
        for path, old, new in bug["edits"]:
            src = edits.get(path) or open(os.path.join("/repo", path)).read()
            if src.count(old) != 1:
                print(bid, "text occurs", src.count(old), "times:", repr(old[:60]))
                bad = True
                break
            edits[path] = src.replace(old, new)
        if bad:
            continue
        for path, txt in edits.items():
            for side, val in (("a", open(os.path.join("/repo", path)).read()), ("b", txt)):
                tgt = os.path.join(work, side, path)
                os.makedirs(os.path.dirname(tgt), exist_ok=True)
                open(tgt, "w").write(val)
        diff = sh("diff -ru a b", cwd=work).stdout
        diff = "\n".join(ll.split("\t")[0] if ll.startswith(("---", "+++")) else ll for ll in diff.split("\n") if not ll.startswith("diff -ru"))
        open(os.path.join(folder, "patch.diff"), "w").write(diff)
        open(os.path.join(folder, "demo.py"), "w").write(bug["demo"].lstrip("\n"))
        open(os.path.join(folder, "demo.sh"), "w").write(DEMO)
        os.chmod(os.path.join(folder, "demo.sh"), 0o755)
        json.dump(dict(property=bug["property"], needs=bug["needs"], what_it_breaks=bug["breaks"]),
                  open(os.path.join(folder, "meta.json"), "w"), indent=1)
        # which of the lines taken away are those of the original repository
        path, num, removed = None, 0, []
        for ll in diff.split("\n"):
            if ll.startswith("--- "):
                path = ll[6:]
            elif ll.startswith("@@"):
                num = int(ll.split()[1].split(",")[0][1:])
            elif ll.startswith("-"):
                removed.append((ll, original(path, num)))
                num += 1
            elif ll.startswith(" "):
                num += 1
        mine = [ll for ll, orig in removed if not orig]
        if mine or not removed:
            print(bid, "NOT ORIGINAL" if mine else "(only adds lines)", mine)
        shutil.rmtree(work, ignore_errors=True)


def copy(bid):
    work = os.path.join(WORK, "%s-%d" % (bid, os.getpid()))
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    sh(["cp", "-a", "/repo", work + "/repo"])
    rr = sh(["git", "apply", os.path.join(SEED, bid, "patch.diff")], cwd=work + "/repo")
    if rr.returncode:
        print(bid, "does not apply:", rr.stderr)
        return None
    return work


def inside(work, cmd, verif=False):
    mnt = "mount --bind %s/repo /repo && " % work
    if verif:
        mnt += "mount --bind %s/verif /verif && " % work
    return sh(["unshare", "-m", "bash", "-c", mnt + cmd], cwd="/")


def verify(bid):
    work = copy(bid)
    if work is None:
        return False
    demo = os.path.join(work, "demo")
    shutil.copytree(os.path.join(SEED, bid), demo)
    res = []
    rr = sh(["bash", demo + "/demo.sh"], cwd="/repo")
    res.append("demo quiet" if rr.returncode == 0 else "DEMO FAILS UNPATCHED " + rr.stderr[-300:] + rr.stdout[-300:])
    rr = inside(work, "cd /repo && bash %s/demo.sh" % demo)
    res.append("demo fails: " + (rr.stderr.strip().split("\n") or [""])[-1][:100] if rr.returncode else "DEMO MISSES THE BUG")
    rr = inside(work, "bash /opt/vp/build.sh && bash /opt/vp/test.sh %s/out.json" % work)
    try:
        out = json.load(open(work + "/out.json"))
        stable = json.load(open("/opt/vp/BASELINE.json"))["stable"]
        lost = sorted(set(stable) - set(out["passed"]))
        res.append("tests pass" if not lost else "TESTS FAIL %s" % lost[:3])
    except Exception as err:
        res.append("NO TESTS %r %s" % (err, rr.stderr[-300:]))
    shutil.rmtree(work, ignore_errors=True)
    good = not any(rr.split(":")[0].isupper() or rr[:5].isupper() for rr in res)
    print("OK  " if good else "BAD ", bid, "|", " | ".join(res), flush=True)
    return good


def check(arg):
    bid, _, pid = arg.partition(":")
    pids = [pid] if pid else [json.load(open(os.path.join(SEED, bid, "meta.json")))["property"]]
    if pid == "all":
        pids = [cc["property"] for cc in json.load(open(os.path.join(HERE, "MANIFEST.json")))["checks"]]
    work = copy(bid)
    if work is None:
        return
    os.makedirs(work + "/verif")
    sh("tar --exclude=.git --exclude=seeded -C %s -cf - . | tar -C %s/verif -xf -" % (HERE, work))
    for pp in pids:
        rr = inside(work, "cd /verif && VERIF_SEED=1 VERIF_TIER=quick ./check %s" % pp, verif=True)
        vio = [ll for ll in rr.stdout.split("\n") if ll.startswith("VIOLATION")]
        print("CAUGHT" if rr.returncode == 1 and vio else "quiet " if rr.returncode == 0 else "BROKEN", bid, pp,
              "rc=%d" % rr.returncode, rr.stdout.strip().split("\n")[-1][:110] if rr.returncode < 2 else rr.stderr[-400:], flush=True)
    shutil.rmtree(work, ignore_errors=True)


if __name__ == "__main__":
    cmd, *args = sys.argv[1:]
    if cmd == "make":
        make(args[0])
    else:
        for bid in args or sorted(os.listdir(SEED)):
            {"verify": verify, "check": check}[cmd](bid)
