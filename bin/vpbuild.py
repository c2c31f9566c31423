#!/usr/bin/env python3
"""Builds the library under test (from /repo's working tree) and the harnesses.

Objects live in /verif/build/<key>, where the key is a hash of every source and
flag that goes in, so a stale build can never be used.
"""
import glob, hashlib, os, re, shutil, subprocess, sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")
BUILD = os.path.join(VERIF, "build") if REPO == "/repo" else "/tmp/vpbuild" + REPO.replace("/", "-")

WRAPS = ("malloc calloc realloc free mmap munmap read write recv send sendmsg recvmsg accept "
         "epoll_create1 epoll_create epoll_wait epoll_pwait poll").split()

CLANG_COV = ["-fsanitize-coverage=inline-8bit-counters"]
VARIANTS = {
    # name: (cc, cflags, cxx, cxxflags, poll?, vtable enforcement?)
    "asan":     dict(cc="clang", cflags=["-O1", "-g1", "-fsanitize=address", "-fno-omit-frame-pointer"] + CLANG_COV,
                     cxx="clang++", cxxflags=["-O1", "-g1", "-fsanitize=address", "-fno-omit-frame-pointer"]),
    "asanpoll": dict(cc="clang", cflags=["-O1", "-g1", "-fsanitize=address", "-fno-omit-frame-pointer"] + CLANG_COV,
                     cxx="clang++", cxxflags=["-O1", "-g1", "-fsanitize=address", "-fno-omit-frame-pointer"], poll=True),
    "vte":      dict(cc="clang", cflags=["-O1", "-g1", "-fsanitize=address", "-fno-omit-frame-pointer"] + CLANG_COV,
                     cxx="clang++", cxxflags=["-O1", "-g1", "-fsanitize=address", "-fno-omit-frame-pointer"], vte=True),
    "plain":    dict(cc="gcc", cflags=["-O2", "-g1"], cxx="g++", cxxflags=["-O2", "-g1"]),
    "plainpoll": dict(cc="gcc", cflags=["-O2", "-g1"], cxx="g++", cxxflags=["-O2", "-g1"], poll=True),
    "tsan":     dict(cc="clang", cflags=["-O1", "-g1", "-fsanitize=thread"],
                     cxx="clang++", cxxflags=["-O1", "-g1", "-fsanitize=thread"]),
    "tsanpoll": dict(cc="clang", cflags=["-O1", "-g1", "-fsanitize=thread"],
                     cxx="clang++", cxxflags=["-O1", "-g1", "-fsanitize=thread"], poll=True),
}

def read(p):
    with open(p, "rb") as f:
        return f.read()

def config_h(v):
    text = open(os.path.join(REPO, "config.h.cmake")).read()
    cm = open(os.path.join(REPO, "CMakeLists.txt")).read()
    m = re.search(r"PROJECT\s*\(\s*rcpr\s+VERSION\s+(\d+)\.(\d+)\.(\d+)", cm, re.I)
    major, minor, rel = m.groups() if m else ("0", "4", "2")
    text = text.replace("@RCPR_VERSION_MAJOR@", major).replace("@RCPR_VERSION_MINOR@", minor).replace("@RCPR_VERSION_REL@", rel)
    on = {"RCPR_FIBER_FOUND", "HAS_PSOCK_ASYNC"}
    if v.get("vte"):
        on.add("RCPR_VTABLE_RUNTIME_ENFORCEMENT")
    else:
        on.add("RCPR_VTABLE_CHECK_ASSERT")
    def sub(m):
        return "#define %s" % m.group(1) if m.group(1) in on else "/* #undef %s */" % m.group(1)
    return re.sub(r"#cmakedefine\s+(\w+)", sub, text)

def lib_sources(v):
    src = os.path.join(REPO, "src")
    out = []
    for root, dirs, files in os.walk(src):
        dirs.sort()
        rel = os.path.relpath(root, src).split(os.sep)
        if rel[:2] == ["psock", "platform"] and len(rel) > 2:
            if rel[2] != ("poll" if v.get("poll") else "epoll"):
                continue
        for f in sorted(files):
            if f.endswith(".c") or f.endswith(".s") or f.endswith(".S"):
                out.append(os.path.join(root, f))
    return out

def all_inputs():
    out = []
    for base in ("src", "include"):
        for root, dirs, files in os.walk(os.path.join(REPO, base)):
            for f in files:
                out.append(os.path.join(root, f))
    out += [os.path.join(REPO, "config.h.cmake"), os.path.join(REPO, "CMakeLists.txt")]
    return sorted(out)

def key_of(paths, extra):
    h = hashlib.sha256()
    for p in paths:
        h.update(p.encode()); h.update(b"\0"); h.update(hashlib.sha256(read(p)).digest())
    h.update(repr(extra).encode())
    return h.hexdigest()[:16]

def run_ninja(d, target=None):
    cmd = ["ninja", "-C", d, "-j", str(max(2, (os.cpu_count() or 4)))]
    if target:
        cmd.append(target)
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        sys.stderr.write(r.stdout[-6000:])
        sys.stderr.write("\nvpbuild: build failed in %s\n" % d)
        sys.exit(2)

def prune(prefix, keep):
    for p in glob.glob(os.path.join(BUILD, prefix + "-*")):
        if os.path.abspath(p) != os.path.abspath(keep):
            shutil.rmtree(p, ignore_errors=True)

def build_lib(name):
    v = VARIANTS[name]
    inputs = all_inputs()
    key = key_of(inputs, (name, v, "1"))
    d = os.path.join(BUILD, "lib-%s-%s" % (name, key))
    lib = os.path.join(d, "librcpr.a")
    if os.path.exists(os.path.join(d, "ok")):
        return d
    prune("lib-" + name, d)
    os.makedirs(os.path.join(d, "include", "rcpr"), exist_ok=True)
    with open(os.path.join(d, "include", "rcpr", "config.h"), "w") as f:
        f.write(config_h(v))
    inc = ["-I" + os.path.join(d, "include"), "-I" + os.path.join(REPO, "include")]
    lines = ["rule cc", "  command = %s %s %s -fPIC -std=gnu11 -w -D_GNU_SOURCE -U_FORTIFY_SOURCE -MMD -MF $out.d -c $in -o $out" % (v["cc"], " ".join(v["cflags"]), " ".join(inc)),
             "  depfile = $out.d",
             "rule as", "  command = gcc -c -I$dir $in -o $out",
             "rule ar", "  command = rm -f $out && ar crs $out $in"]
    objs = []
    for s in lib_sources(v):
        o = os.path.relpath(s, REPO).replace("/", "__") + ".o"
        if s.endswith(".c"):
            lines.append("build %s: cc %s" % (o, s))
        else:
            lines.append("build %s: as %s\n  dir = %s" % (o, s, os.path.dirname(s)))
        objs.append(o)
    lines.append("build librcpr.a: ar " + " ".join(objs))
    lines.append("default librcpr.a")
    with open(os.path.join(d, "build.ninja"), "w") as f:
        f.write("\n".join(lines) + "\n")
    run_ninja(d)
    open(os.path.join(d, "ok"), "w").close()
    return d

def build_harness(name, variant, defs=()):
    v = VARIANTS[variant]
    libd = build_lib(variant)
    hdir = os.path.join(VERIF, "harness")
    srcs = [os.path.join(hdir, name + ".cpp"), os.path.join(hdir, "vp.cpp")]
    deps = sorted(glob.glob(os.path.join(hdir, "*.hpp"))) + srcs
    # a harness may name further functions to interpose: "// WRAPS: name name"
    extra = re.findall(r"^// WRAPS: (.*)$", open(srcs[0]).read(), re.M)
    more = " ".join(extra).split()
    key = key_of(deps, (libd, v, WRAPS + more, tuple(defs)))
    d = os.path.join(BUILD, "h-%s-%s-%s" % (name, variant, key))
    exe = os.path.join(d, "run")
    if os.path.exists(exe):
        return exe
    prune("h-%s-%s" % (name, variant), d)
    os.makedirs(d, exist_ok=True)
    inc = ["-I" + os.path.join(libd, "include"), "-I" + os.path.join(REPO, "include"), "-I" + hdir]
    wraps = " ".join("-Wl,--wrap=" + w for w in WRAPS + more)
    lines = ["rule cxx", "  command = %s %s %s %s -std=c++17 -w -D_GNU_SOURCE -U_FORTIFY_SOURCE -c $in -o $out" % (
                v["cxx"], " ".join(v["cxxflags"]), " ".join(inc), " ".join("-D" + x for x in defs)),
             "rule link", "  command = %s %s %s -o $out.tmp $in %s -lpthread && mv $out.tmp $out" % (
                v["cxx"], " ".join(v["cxxflags"]), wraps, os.path.join(libd, "librcpr.a"))]
    objs = []
    for s in srcs:
        o = os.path.basename(s) + ".o"
        lines.append("build %s: cxx %s" % (o, s)); objs.append(o)
    lines.append("build run: link " + " ".join(objs))
    with open(os.path.join(d, "build.ninja"), "w") as f:
        f.write("\n".join(lines) + "\n")
    run_ninja(d, "run")
    return exe

if __name__ == "__main__":
    if len(sys.argv) == 2:
        print(build_lib(sys.argv[1]))
    else:
        print(build_harness(sys.argv[1], sys.argv[2]))
