#!/usr/bin/env python3
"""Builds the simulator against the current working tree of the repository.

Everything is compiled from /repo's sources as they are now; objects are cached
under /verif/build by the hash of their preprocessed text and flags, so a change
to what the code says always leads to a rebuild and nothing is written to /repo.
"""
import fcntl, glob, hashlib, os, shutil, subprocess, sys, re
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("H265SIM_REPO", "/repo")
BUILD = os.environ.get("H265SIM_BUILD", os.path.join(os.path.dirname(HERE), "build"))
CXX = "clang++"
DEFS = ["FDUMP_DEFINE", "RTP_DEFINE", "FPRINT_ERRORS"]
BASE = ["-std=c++17", "-g1", "-O1", "-fno-omit-frame-pointer", "-w"]
SAN = ["-fsanitize=address,undefined", "-fno-sanitize-recover=all",
       "-fno-sanitize=vptr,function"]
# the traced programs: no runtime, undefined behaviour and bad indices trap
TRAP = ["-fsanitize=undefined", "-fsanitize-trap=undefined", "-fno-sanitize=vptr,function", "-D_GLIBCXX_ASSERTIONS"]
COV = ["-fsanitize-coverage=trace-pc-guard"]


def run(cmd, **kw):
    r = subprocess.run(cmd, capture_output=True, **kw)
    if r.returncode != 0:
        sys.stderr.write("FAILED: %s\n%s\n" % (" ".join(cmd), r.stderr.decode(errors="replace")[-8000:]))
        raise SystemExit(2)
    return r.stdout


def compile_one(src, flags, odir):
    pre = run([CXX] + flags + ["-E", src])
    # line markers carry absolute paths only; keep them, they feed __LINE__/asserts
    h = hashlib.sha256()
    h.update(VERSION)
    h.update("\0".join(flags).encode())
    h.update(pre)
    obj = os.path.join(odir, os.path.basename(src) + "." + h.hexdigest()[:24] + ".o")
    if os.path.exists(obj):
        os.utime(obj)
    else:
        tmp = obj + ".%d.tmp" % os.getpid()
        run([CXX] + flags + ["-c", src, "-o", tmp])
        os.rename(tmp, obj)
    return obj


def link(objs, flags, out):
    h = hashlib.sha256(("\0".join(objs + flags)).encode()).hexdigest()[:24]
    path = out + "." + h
    if os.path.exists(path):
        os.utime(path)
    else:
        tmp = path + ".%d.tmp" % os.getpid()
        run([CXX] + objs + flags + ["-o", tmp])
        os.rename(tmp, path)
    return path


def prune(d, keep):
    files = sorted((os.path.join(d, f) for f in os.listdir(d)), key=os.path.getmtime, reverse=True)
    for f in files[keep:]:
        if os.path.isfile(f):
            os.unlink(f)


def build(extra_sim=None):
    """Returns {'sim': path, 'cli': path, 'reader': path}."""
    global VERSION
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        VERSION = run([CXX, "--version"])
        gen = os.path.join(BUILD, "gen")
        odir = os.path.join(BUILD, "obj")
        bdir = os.path.join(BUILD, "bin")
        for d in (gen, odir, bdir):
            os.makedirs(d, exist_ok=True)
        # config.h is only used by the command-line tool
        cfg = open(os.path.join(REPO, "src/config.h.in")).read()
        cfg = re.sub(r"@\w+@", "0", cfg)
        cfg = re.sub(r"#cmakedefine\w*\s+(\w+).*", r"/* #undef \1 */", cfg)
        write_if_changed(os.path.join(gen, "config.h"), cfg)
        sys.path.insert(0, HERE)
        import gen_visit
        tmp = os.path.join(gen, "visit.tmp.%d" % os.getpid())
        gen_visit.generate(os.path.join(REPO, "include"), DEFS, tmp, CXX)
        write_if_changed(os.path.join(gen, "visit.h"), open(tmp).read())
        os.unlink(tmp)
        inc = ["-I" + os.path.join(REPO, "include"), "-I" + gen, "-I" + os.path.join(REPO, "src")]
        d = ["-D" + x for x in DEFS]
        lib = sorted(glob.glob(os.path.join(REPO, "src/*.cc")))
        cli = os.path.join(REPO, "tools/h265nal.cc")
        jobs = []  # (group, src, flags)
        for s in lib:
            jobs.append(("libsan", s, BASE + SAN + COV + d + inc))
            jobs.append(("libraw", s, BASE + TRAP + d + inc))
        ya = os.path.join(REPO, "ya_getopt")
        clii = inc + (["-I" + ya] if os.path.isdir(ya) else [])
        jobs.append(("cli", cli, BASE + TRAP + d + clii))
        jobs.append(("reader", os.path.join(HERE, "reader.cc"), BASE + TRAP + d + inc))
        for s in sorted(glob.glob(os.path.join(HERE, "*.cc"))):
            if os.path.basename(s) == "reader.cc":
                continue
            if extra_sim is not None and os.path.basename(s) not in extra_sim:
                continue
            jobs.append(("sim", s, BASE + SAN + d + inc + ["-I" + HERE]))
        objs = {}
        with ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as ex:
            # longest first: simulator sources
            order = sorted(range(len(jobs)), key=lambda i: jobs[i][0] != "sim")
            futs = {i: ex.submit(compile_one, jobs[i][1], jobs[i][2], odir) for i in order}
            for i in range(len(jobs)):
                objs.setdefault(jobs[i][0], []).append(futs[i].result())
        res = {
            "sim": link(objs["libsan"] + objs["sim"], SAN + ["-lpthread", "-ldl"], os.path.join(bdir, "h265sim")),
            "cli": link(objs["cli"] + objs["libraw"], TRAP, os.path.join(bdir, "h265nal")),
            "reader": link(objs["reader"] + objs["libraw"], TRAP, os.path.join(bdir, "reader")),
        }
        prune(odir, 400)
        prune(bdir, 24)
        return res


def write_if_changed(path, text):
    if os.path.exists(path) and open(path).read() == text:
        return
    with open(path, "w") as f:
        f.write(text)


if __name__ == "__main__":
    print(build())
