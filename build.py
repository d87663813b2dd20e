#!/usr/bin/env python3
"""Content-addressed parallel builder.

usage: build.py VARIANT CHECK...     prints nothing; leaves build/bin/VARIANT/CHECK
Compiles the fuel library sources out of /repo's working tree (never a copy) together with the
framework (mc/) and the check (checks/CHECK.cpp).  An object file is reused only if the
content of its source, of every header of /repo's C++ tree and of mc/, and the flags are the same.
"""
import sys, os, glob, hashlib, subprocess, concurrent.futures as cf

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("MC_REPO", "/repo")
B = os.environ.get("MC_BUILD", os.path.join(HERE, "build"))
I = os.path.join(REPO, "CppLisp", "CppLispInterpreter")
D = os.path.join(REPO, "CppLisp", "CppLispDebugger")

VARIANTS = {
    # fast: optimised, libstdc++ precondition checks on (out of range container access aborts)
    "fast": ("g++", ["-O1", "-g0", "-D_GLIBCXX_ASSERTIONS", "-fwrapv"]),
    # san: address + undefined behaviour sanitizers
    "san": ("clang++", ["-O1", "-gline-tables-only", "-fsanitize=address,undefined",
                        "-fno-sanitize=vptr,signed-integer-overflow", "-fwrapv", "-fno-sanitize-recover=all",
                        "-fno-omit-frame-pointer", "-D_GLIBCXX_ASSERTIONS"]),
    # tsan: data race detector
    "tsan": ("clang++", ["-O1", "-gline-tables-only", "-fsanitize=thread", "-fwrapv", "-D_GLIBCXX_ASSERTIONS"]),
}

def read(p):
    with open(p, "rb") as f:
        return f.read()

def digest(*parts):
    h = hashlib.sha256()
    for p in parts:
        if isinstance(p, str):
            p = p.encode()
        h.update(p); h.update(b"\0")
    return h.hexdigest()[:32]

def main():
    variant, checks = sys.argv[1], sys.argv[2:]
    cxx, flags = VARIANTS[variant]
    common = ["-w", "-fPIC", "-DUNIT_TEST", "-I" + I, "-I" + D, "-I" + os.path.join(HERE, "mc")]
    libsrc = sorted(glob.glob(I + "/*.cpp")) + sorted(glob.glob(D + "/*.cpp"))
    libsrc = [s for s in libsrc if os.path.basename(s).lower() not in ("dllmain.cpp", "stdafx.cpp")]
    repo_hdr = digest(*[read(h) for h in sorted(glob.glob(I + "/*.h") + glob.glob(D + "/*.h"))])
    mc_hdr = digest(*[read(h) for h in sorted(glob.glob(HERE + "/mc/*.h") + glob.glob(HERE + "/mc/*.inc"))])
    mcsrc = sorted(glob.glob(HERE + "/mc/*.cpp"))
    os.makedirs(B + "/obj", exist_ok=True)
    os.makedirs(B + "/bin/" + variant, exist_ok=True)
    jobs = []   # (src, obj, cmd)

    def obj_for(src, std, hdr, opt=None):
        f = [opt] + flags[1:] if opt else flags
        cmd = [cxx, "-std=" + std] + f + common
        o = os.path.join(B, "obj", digest(" ".join(cmd), hdr, read(src)) + "-" + os.path.basename(src) + ".o")
        if not os.path.exists(o):
            jobs.append((src, o, cmd + ["-c", src, "-o"]))
        return o

    libobjs = [obj_for(s, "c++14", repo_hdr) for s in libsrc]
    mcobjs = [obj_for(s, "c++14" if os.path.basename(s).startswith("adapter") else "c++17",
                      mc_hdr + (repo_hdr if os.path.basename(s).startswith("adapter") else "")) for s in mcsrc]
    chk = {c: obj_for(os.path.join(HERE, "checks", c + ".cpp"), "c++17", mc_hdr) for c in checks}

    def run(job):
        src, o, cmd = job
        tmp = o + ".tmp%d" % os.getpid()
        p = subprocess.run(cmd + [tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode == 0:
            os.replace(tmp, o)
        return src, p.returncode, p.stdout

    # longest first
    jobs.sort(key=lambda j: -os.path.getsize(j[0]))
    bad = False
    with cf.ThreadPoolExecutor(max_workers=os.cpu_count() or 8) as ex:
        for src, rc, out in ex.map(run, jobs):
            if rc != 0:
                bad = True
                sys.stderr.write("build failed: %s\n%s\n" % (src, out[-6000:]))
    if bad:
        sys.exit(3)
    for c in checks:
        objs = libobjs + mcobjs + [chk[c]]
        out = os.path.join(B, "bin", variant, c)
        stamp = out + ".stamp"
        want = digest(*objs)
        if os.path.exists(out) and os.path.exists(stamp) and read(stamp).decode() == want:
            continue
        tmp = out + ".tmp%d" % os.getpid()
        link = [cxx] + [f for f in flags if f.startswith("-fsanitize") or f.startswith("-fno-sanitize")] \
            + objs + ["-o", tmp, "-ldl", "-lpthread"]
        p = subprocess.run(link, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode != 0:
            sys.stderr.write("link failed: %s\n%s\n" % (c, p.stdout[-6000:]))
            sys.exit(3)
        os.replace(tmp, out)
        with open(stamp, "w") as f:
            f.write(want)

main()
