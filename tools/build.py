#!/usr/bin/env python3
"""Builds the harnesses against /repo's current working tree.

/repo/score is mirrored (only files whose content changed are rewritten) into /verif/build/src, so that ninja's
time stamps only move when the code moves; every C++ source of the product that compiles is put into one archive, the
harnesses are linked against it.  Nothing is written into /repo.
"""
import os, re, subprocess, sys, fcntl, hashlib

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
SRC = os.path.join(BUILD, "src")
OBJ = os.path.join(BUILD, "obj")
BIN = os.path.join(BUILD, "bin")
EXCL = re.compile(r"_test\.cpp$|/tests?/|mock|benchmark|qnx|/example|fake|_stub|/tutorial/|/doc/|/docs/|test_offset_ptr|"
                  r"test_resources|test_types|/test_|gtest")
EXT = (".h", ".hpp", ".cpp", ".inl", ".json", ".ipp", ".tpp")
CXX = "clang++"
COMMON = "-std=c++17 -O1 -g1 -fno-omit-frame-pointer -Wno-everything -pthread"
TSAN = "-fsanitize=thread -mllvm -tsan-instrument-func-entry-exit=0"


def read(p):
    try:
        with open(p, "rb") as f:
            return f.read()
    except OSError:
        return None


def sync():
    """Mirror /repo/score; returns the relative paths of product sources."""
    want = set()
    srcs = []
    top = os.path.join(REPO, "score")
    for d, dirs, files in os.walk(top):
        dirs[:] = sorted(x for x in dirs if not x.startswith("."))
        for f in sorted(files):
            if not f.endswith(EXT):
                continue
            p = os.path.join(d, f)
            rel = os.path.relpath(p, REPO)
            if os.path.islink(p) and not os.path.exists(p):
                continue
            want.add(rel)
            dst = os.path.join(SRC, rel)
            data = read(p)
            if data is not None and read(dst) != data:
                os.makedirs(os.path.dirname(dst), exist_ok=True)
                with open(dst, "wb") as o:
                    o.write(data)
            if f.endswith(".cpp") and not EXCL.search("/" + rel):
                srcs.append(rel)
    for d, dirs, files in os.walk(SRC):
        for f in files:
            rel = os.path.relpath(os.path.join(d, f), SRC)
            if rel not in want:
                os.unlink(os.path.join(SRC, rel))
    return srcs


def write_if_changed(path, text):
    if read(path) != text.encode():
        with open(path, "w") as f:
            f.write(text)


def harnesses():
    h = os.path.join(VERIF, "harness")
    return sorted(f[:-4] for f in os.listdir(h) if f.endswith(".cpp"))


def generate(srcs):
    inc = f"-I{SRC} -I{VERIF}/shim -I{VERIF}/rt -I{VERIF}/harness"
    n = ["ninja_required_version = 1.8", f"builddir = {BUILD}",
         "rule lib", f"  command = {CXX} {COMMON} {TSAN} {inc} -MMD -MF $out.d -c $in -o $out",
         "  depfile = $out.d", "  deps = gcc", "  description = CC $in",
         "rule rt", f"  command = {CXX} -std=c++17 -O2 -g1 -Wall -pthread {inc} -MMD -MF $out.d -c $in -o $out",
         "  depfile = $out.d", "  deps = gcc", "  description = RT $in"]
    objs = []
    for s in srcs:
        o = f"{OBJ}/{s}.o"
        n.append(f"build {o}: lib {SRC}/{s}")
        objs.append(o)
    n.append(f"build {OBJ}/mc.o: rt {VERIF}/rt/mc.cpp")
    for h in harnesses():
        n.append(f"build {OBJ}/harness/{h}.o: lib {VERIF}/harness/{h}.cpp")
    n.append("build lib: phony " + " ".join(objs))
    write_if_changed(os.path.join(BUILD, "build.ninja"), "\n".join(n) + "\n")
    return objs


def stamp(paths):
    h = hashlib.sha256()
    for p in paths:
        try:
            st = os.stat(p)
            h.update(f"{p}:{st.st_mtime_ns}:{st.st_size};".encode())
        except OSError:
            h.update(f"{p}:none;".encode())
    return h.hexdigest()


def link(h, members=None):
    """Links one harness against the archive, or against exactly the given objects."""
    out = os.path.join(BIN, h)
    ho = f"{OBJ}/harness/{h}.o"
    if not os.path.exists(ho):
        return False, f"{h}: object missing"
    inputs = members if members is not None else [f"{BUILD}/libscore.a"]
    key = stamp([ho, f"{OBJ}/mc.o"] + (members if members is not None else read(f"{BUILD}/libscore.a.key").decode().split()))
    if read(out + ".key") == key.encode() and os.path.exists(out):
        return True, ""
    # a harness may ask for linker options in a line "// link: ..."
    extra = [w for l in (read(os.path.join(VERIF, "harness", h + ".cpp")) or b"").decode().splitlines()[:8] if l.startswith("// link:") for w in l[8:].split()]
    r = subprocess.run([CXX, "-pthread", "-Wl,--trace", "-o", out + ".tmp", ho, f"{OBJ}/mc.o"] + inputs + extra + ["-ldl", "-lrt"],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        return False, h + ": " + r.stdout[-3000:]
    os.replace(out + ".tmp", out)
    if members is None:
        used = sorted(set(l.strip() for l in r.stdout.splitlines() if l.startswith(OBJ) and l.endswith(".cpp.o")))
        m = re.findall(r"\((" + re.escape(OBJ) + r"[^)]*\.cpp\.o)\)", r.stdout)
        used = sorted(set(used) | set(m))
        with open(os.path.join(BIN, h + ".members"), "w") as f:
            f.write("\n".join(used))
        key = stamp([ho, f"{OBJ}/mc.o"] + read(f"{BUILD}/libscore.a.key").decode().split())
    with open(out + ".key", "w") as f:
        f.write(key)
    return True, ""


def ninja(targets, verbose):
    r = subprocess.run(["ninja", "-C", BUILD, "-k", "0"] + ([] if verbose else ["--quiet"]) + targets,
                       stdout=None if verbose else subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return r.returncode, "" if verbose else (r.stdout or "")


def build(which=None, verbose=False):
    """Builds the named harnesses (all if None). Returns (ok, log)."""
    os.makedirs(BUILD, exist_ok=True)
    os.makedirs(BIN, exist_ok=True)
    with open(os.path.join(BUILD, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        srcs = sync()
        objs = generate(srcs)
        hs = which if which else harnesses()
        # Fast path: only the objects the last link of these harnesses used.
        if which:
            mem = {}
            for h in hs:
                d = read(os.path.join(BIN, h + ".members"))
                if d is None:
                    break
                mem[h] = [m for m in d.decode().split("\n") if m]
            objset = set(objs)
            if len(mem) == len(hs) and all(m in objset for ms in mem.values() for m in ms):
                need = sorted(set(m for ms in mem.values() for m in ms))
                rc, log = ninja(need + [f"{OBJ}/mc.o"] + [f"{OBJ}/harness/{h}.o" for h in hs], verbose)
                if rc == 0 and all(link(h, mem[h])[0] for h in hs):
                    return True, log
        targets = ["lib", f"{OBJ}/mc.o"] + [f"{OBJ}/harness/{h}.o" for h in hs]
        rc, log = ninja(targets, verbose)
        bad = []
        if rc:
            # Objects that are out of date because their compilation failed must not be linked.
            q = subprocess.run(["ninja", "-C", BUILD, "-k", "0", "-n", "-v"] + targets, stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, text=True).stdout
            for m in re.finditer(r"-o (\S+\.o)\b", q):
                bad.append(m.group(1))
                if os.path.exists(m.group(1)):
                    os.unlink(m.group(1))
        ok_objs = [o for o in objs if os.path.exists(o)]
        lib = os.path.join(BUILD, "libscore.a")
        key = "\n".join(ok_objs)
        if os.path.exists(lib):
            os.unlink(lib)
        rsp = os.path.join(BUILD, "ar.rsp")
        with open(rsp, "w") as f:
            f.write(key)
        subprocess.run(["ar", "rcsT", lib, "@" + rsp], check=True)
        write_if_changed(lib + ".key", key)
        ok = True
        from concurrent.futures import ThreadPoolExecutor
        with ThreadPoolExecutor(8) as ex:
            for res, l in ex.map(lambda h: link(h), hs):
                if not res:
                    ok = False
                    log += "\n" + l
        if bad:
            log += "\nnot compiled: " + " ".join(bad)
        return ok, log


if __name__ == "__main__":
    names = [a for a in sys.argv[1:] if not a.startswith("-")]
    ok, log = build(names or None, verbose="-v" in sys.argv)
    if log.strip():
        print(log[-12000:])
    sys.exit(0 if ok else 1)
