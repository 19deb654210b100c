#!/usr/bin/env python3
"""Helpers for planted bugs (development only; no check uses this).
   plant.py verify ID...   apply the patch to /repo, build, run stable tests, the demonstration and the property's check, undo
   plant.py kit ID...      refresh the demonstration's kit (stand-in headers, exploration runtime)"""
import json, os, re, subprocess, sys, tarfile, io
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = os.path.join(V, "seeded")
REPO = os.environ.get("PLANT_REPO", "/repo")   # where plant() edits
B = "score/mw/com/impl/bindings/lola/"
SHM = """score/memory/shared/memory_region_bounds.cpp
score/memory/shared/memory_region_map.cpp
score/memory/shared/memory_resource_proxy.cpp
score/memory/shared/memory_resource_registry.cpp
score/memory/shared/offset_ptr.cpp
score/memory/shared/offset_ptr_bounds_check.cpp
score/memory/shared/pointer_arithmetic_util.cpp
score/memory/shared/shared_memory_error.cpp""".split()
EVENT = SHM + """score/mw/com/impl/bindings/lola/consumer_event_data_control_local_view.cpp
score/mw/com/impl/bindings/lola/event_control.cpp
score/mw/com/impl/bindings/lola/event_data_control_composite.cpp
score/mw/com/impl/bindings/lola/event_slot_status.cpp
score/mw/com/impl/bindings/lola/event_subscription_control.cpp
score/mw/com/impl/bindings/lola/provider_event_data_control_local_view.cpp
score/mw/com/impl/bindings/lola/slot_collector.cpp
score/mw/com/impl/bindings/lola/slot_decrementer.cpp
score/mw/com/impl/bindings/lola/transaction_log.cpp
score/mw/com/impl/bindings/lola/transaction_log_local_view.cpp
score/mw/com/impl/bindings/lola/transaction_log_registration_guard.cpp
score/mw/com/impl/bindings/lola/transaction_log_set.cpp
score/mw/com/impl/com_error.cpp""".split()
DEMO = r'''#!/bin/bash
# Builds demo.cpp with the sources it exercises from the current directory (the repository) and runs it.
here=$(cd "$(dirname "$0")" && pwd)
work=$(mktemp -d /tmp/demo.XXXXXXXX) || exit 2
trap 'rm -rf "${work:?}"' EXIT
tar -xzf "$here/kit.tar.gz" -C "$work" || exit 2
src="@SRCS@"
flags="-std=c++17 -O1 -g1 -Wno-everything -pthread -I$PWD -I$work/shim -I$work/rt -I$work/harness @TSAN@"
jobs=""
for s in $src; do [ -f "$s" ] && jobs="$jobs $s"; done
printf '%s\n' $jobs "$here/demo.cpp" | xargs -P 8 -I{} sh -c 'clang++ '"$flags"' -c "$1" -o "'"$work"'/$(echo "$1" | tr / _).o"' _ {} || { echo "demo does not compile"; exit 2; }
@RT@
clang++ -pthread -o "$work/demo" "$work"/*.o -ldl -lrt || exit 2
cd "$work" && timeout 250 ./demo @ARGS@
rc=$?
echo "demo: exit $rc"
exit $rc
'''


def kit(d, mc):
    def flt(ti):
        return None if "__pycache__" in ti.name else ti
    buf = os.path.join(d, "kit.tar.gz")
    import gzip
    with open(buf, "wb") as f, gzip.GzipFile(fileobj=f, mode="wb", mtime=0, filename="") as g:
        with tarfile.open(fileobj=g, mode="w") as t:
            def add(p, arc):
                def f2(ti):
                    ti.mtime = 0; ti.uid = ti.gid = 0; ti.uname = ti.gname = ""
                    return flt(ti)
                t.add(p, arc, filter=f2)
            add(os.path.join(V, "shim"), "shim")
            if mc:
                add(os.path.join(V, "rt"), "rt")
                for h in sorted(os.listdir(os.path.join(V, "harness"))):
                    if h.endswith(".h"):
                        add(os.path.join(V, "harness", h), "harness/" + h)


def plant(id, prop, edits, demo, srcs, needs, breaks, mc=True, args=None):
    """edits: list of (file, old, new) or (file, old, new, count)"""
    d = os.path.join(S, id)
    os.makedirs(d, exist_ok=True)
    try:
        for e in edits:
            f, old, new = e[:3]
            p = os.path.join(REPO, f)
            t = open(p).read()
            assert t.count(old) == (e[3] if len(e) > 3 else 1), (f, old, t.count(old))
            open(p, "w").write(t.replace(old, new))
        diff = subprocess.run(["git", "-C", REPO, "diff"], capture_output=True, text=True).stdout
        assert diff
        open(os.path.join(d, "patch.diff"), "w").write(diff)
    finally:
        subprocess.run(["git", "-C", REPO, "checkout", "-q", "--", "."])
    open(os.path.join(d, "demo.cpp"), "w").write(demo)
    sh = DEMO.replace("@SRCS@", " ".join(srcs))
    sh = sh.replace("@TSAN@", "-fsanitize=thread -mllvm -tsan-instrument-func-entry-exit=0" if mc else "")
    sh = sh.replace("@RT@", 'clang++ -std=c++17 -O2 -w -pthread -I"$work/rt" -c "$work/rt/mc.cpp" -o "$work/mc.o" || exit 2' if mc else "")
    sh = sh.replace("@ARGS@", args if args is not None else ("--property " + prop + " --replay-dir $work" if mc else ""))
    open(os.path.join(d, "demo.sh"), "w").write(sh)
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    kit(d, mc)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(os.path.join(d, "meta.json"), "w"), indent=1)


def plant_h(id, prop, edits, harness, case, needs, breaks):
    """the demonstration is one exploration of a harness"""
    srcs = [l.split("/obj/")[1][:-2] for l in open(os.path.join(V, "build", "bin", harness + ".members")).read().split() if "/obj/score/" in l]
    demo = open(os.path.join(V, "harness", harness + ".cpp")).read()
    plant(id, prop, edits, demo, srcs, needs, breaks, args="--property " + prop + " --case " + case + " --replay-dir $work")


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)


def verify(id, check=True):
    d = os.path.join(S, id)
    prop = json.load(open(d + "/meta.json"))["property"]
    assert not sh("git -C /repo status --short").stdout.strip(), "repo dirty"
    res = {}
    r = sh("bash " + d + "/demo.sh", cwd="/repo"); res["demo_clean"] = r.returncode
    if r.returncode: print(r.stdout[-300:], r.stderr[-500:])
    try:
        a = sh("git -C /repo apply " + d + "/patch.diff"); res["apply"] = a.returncode
        r = sh("bash /opt/vp/build.sh"); res["build"] = r.returncode
        r = sh("bash /opt/vp/test.sh /tmp/plant/t.json"); res["test_rc"] = r.returncode
        t = json.load(open("/tmp/plant/t.json"))
        base = json.load(open("/opt/vp/BASELINE.json"))
        passed = set(t.get("passed", []))
        stable = base.get("stable") or base.get("passed") or base.get("tests") or []
        res["stable_missing"] = len([x for x in stable if x not in passed])
        r = sh("bash " + d + "/demo.sh", cwd="/repo"); res["demo_bug"] = r.returncode
        if not r.returncode or r.returncode == 2: print(r.stdout[-300:], r.stderr[-300:])
        else: res["demo_says"] = r.stdout.strip()[-300:]
        if check:
            r = sh("./check " + prop + " quick", cwd=V); res["check"] = r.returncode
            res["says"] = [l for l in r.stdout.splitlines() if "VIOLATION" in l][:2]
            if r.returncode not in (0, 1): print(r.stdout[-800:], r.stderr[-800:])
    finally:
        subprocess.run(["git", "-C", "/repo", "checkout", "-q", "--", "."])
    ok = res.get("demo_clean") == 0 and res["apply"] == 0 and res["build"] == 0 and res["stable_missing"] == 0 and res["demo_bug"] not in (0,)
    print(id, prop, "VALID" if ok else "INVALID", "CAUGHT" if res.get("check") == 1 else "MISSED", json.dumps(res))


def pre(id):
    """demonstration and check in the scratch clone PLANT_REPO, without build and stable tests"""
    d = os.path.join(S, id)
    prop = json.load(open(d + "/meta.json"))["property"]
    r0 = sh("bash " + d + "/demo.sh", cwd=REPO)
    try:
        a = sh("git -C " + REPO + " apply " + d + "/patch.diff")
        r1 = sh("bash " + d + "/demo.sh", cwd=REPO)
        e = dict(os.environ, VERIF_REPO=REPO, VERIF_BUILD=os.environ.get("VERIF_BUILD", "/tmp/mut/build"))
        r2 = sh("./check " + prop + " quick", cwd=V, env=e)
    finally:
        sh("git -C " + REPO + " checkout -q -- .")
    print(id, prop, "demo", r0.returncode, r1.returncode, "apply", a.returncode, "check", r2.returncode, r1.stdout.strip()[-200:].replace("\n", " | ") if r1.returncode not in (0, 2) else (r1.stdout + r1.stderr)[-300:], flush=True)


if __name__ == "__main__":
    for i in sys.argv[2:]:
        if sys.argv[1] == "verify":
            verify(i)
        elif sys.argv[1] == "pre":
            pre(i)
        elif sys.argv[1] == "kit":
            kit(os.path.join(S, i), "rt/mc.cpp" in open(os.path.join(S, i, "demo.sh")).read())
    if sys.argv[1] == "verify":
        sh("bash /opt/vp/build.sh")
