#!/usr/bin/env python3
"""Builds the library under test from /repo's working tree, one build per sanitizer, and the harnesses against it.

Everything lands in /verif/build (git-ignored), keyed by the content of the sources, so a changed /repo is always
rebuilt and an unchanged one is not.  Nothing is written into /repo.
"""
import os, sys, hashlib, subprocess, glob, shutil, tempfile, concurrent.futures, fcntl, json

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("PIRE_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
JOBS = 8

COMMON = ["-std=c++11", "-include", "limits", "-DPIRE_CHECKED", "-w", "-fno-omit-frame-pointer"]
SAN = ["-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-sanitize=vptr"]
VARIANTS = {
    # name: (compiler, flags, link flags)
    "asan":   ("g++", ["-O1", "-g1"] + SAN, SAN),
    "scalar": ("g++", ["-O1", "-g1", "-U__SSE2__", "-U__MMX__", "-DPIRE_VERIF_SCALAR"] + SAN, SAN),
    "fast":   ("g++", ["-O2", "-g1"], []),
    "nocheck": ("g++", ["-O2", "-g1", "-UPIRE_CHECKED"], []),
    "tsan":   ("g++", ["-O1", "-g1", "-fsanitize=thread"], ["-fsanitize=thread"]),
    "vg":     ("g++", ["-O1", "-g1", "-gdwarf-4"], []),
}

class BuildError(Exception):
    pass

def run(cmd, cwd=None):
    p = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode:
        raise BuildError("%s\n%s" % (" ".join(cmd), p.stdout.decode("utf8", "replace")[-6000:]))

def sources():
    res = []
    for root, dirs, files in os.walk(os.path.join(REPO, "pire")):
        dirs.sort()
        for f in sorted(files):
            if f.endswith((".h", ".cpp", ".y", ".lpp", ".hpp", ".inc")):
                res.append(os.path.join(root, f))
    return res

def digest(paths, extra=""):
    h = hashlib.sha256(extra.encode())
    for p in paths:
        h.update(p.encode()); h.update(b"\0")
        with open(p, "rb") as f:
            h.update(f.read())
        h.update(b"\0")
    return h.hexdigest()[:16]

_repo_hash = None
def repo_hash():
    global _repo_hash
    if _repo_hash is None:
        _repo_hash = digest(sources(), json.dumps(VARIANTS, sort_keys=True) + " ".join(COMMON))
    return _repo_hash

CONFIG_H = """#ifndef PIRE_VERIF_CONFIG_H
#define PIRE_VERIF_CONFIG_H
#define PIRE_ALIGNOF_SIZE_T 8
#define PIRE_ALIGNOF_UINT64_T 8
#define PIRE_HAVE_ALIGNAS 1
#define PIRE_HAVE_ATTR_ALIGNED 1
#define PIRE_HAVE_LAMBDAS 1
#define PIRE_HAVE_SCOPED_EXPR 1
#define PIRE_PACKAGE_VERSION "0.0.6"
#define PIRE_VERSION "0.0.6"
#endif
"""

class Lock:
    def __init__(self, name):
        os.makedirs(BUILD, exist_ok=True)
        self.path = os.path.join(BUILD, name + ".lock")
    def __enter__(self):
        self.f = open(self.path, "w"); fcntl.flock(self.f, fcntl.LOCK_EX)
    def __exit__(self, *a):
        self.f.close()

def gen_dir():
    """Generated sources: config.h, the bison parser, the flex scanner of the inliner."""
    d = os.path.join(BUILD, "gen-" + repo_hash())
    with Lock("gen"):
        if os.path.exists(os.path.join(d, "ok")):
            return d
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(os.path.join(d, "pire"))
        # Forwarding headers are not needed: <pire/x.h> falls through to /repo via -I order
        with open(os.path.join(d, "pire", "config.h"), "w") as f:
            f.write(CONFIG_H)
        run(["bison", "-y", "-d", "-o", os.path.join(d, "pire", "re_parser.cpp"), os.path.join(REPO, "pire", "re_parser.y")])
        hpp = os.path.join(d, "pire", "re_parser.hpp")
        if os.path.exists(hpp):
            shutil.copy(hpp, os.path.join(d, "pire", "re_parser.h"))
        run(["flex", "-o", os.path.join(d, "pire", "inline.cpp"), os.path.join(REPO, "pire", "inline.lpp")])
        open(os.path.join(d, "ok"), "w").close()
    return d

def includes():
    g = gen_dir()
    return ["-I" + g, "-I" + os.path.join(g, "pire"), "-I" + os.path.join(REPO, "pire"), "-I" + REPO]

def lib(variant):
    cc, flags, _ = VARIANTS[variant]
    g = gen_dir()
    d = os.path.join(BUILD, "lib-%s-%s" % (variant, repo_hash()))
    out = os.path.join(d, "libpire.a")
    with Lock("lib-" + variant):
        if os.path.exists(out):
            return out
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        srcs = [s for s in sources() if s.endswith(".cpp")]
        srcs.append(os.path.join(g, "pire", "re_parser.cpp"))
        jobs = []
        for s in srcs:
            rel = os.path.relpath(s, REPO if s.startswith(REPO + "/") else g).replace("/", "_")
            o = os.path.join(d, rel + ".o")
            jobs.append(([cc] + COMMON + flags + includes() + ["-c", s, "-o", o], o))
        with concurrent.futures.ThreadPoolExecutor(JOBS) as ex:
            list(ex.map(lambda j: run(j[0]), jobs))
        tmp = out + ".tmp.a"
        run(["ar", "rcs", tmp] + [o for _, o in jobs])
        for _, o in jobs:
            os.unlink(o)
        os.rename(tmp, out)
        prune("lib-%s-" % variant, d)
    return out

def prune(prefix, keep):
    """Remove outdated build directories of the same kind."""
    for p in glob.glob(os.path.join(BUILD, prefix + "*")):
        if p != keep and os.path.isdir(p):
            shutil.rmtree(p, ignore_errors=True)

def compile_binary(name, srcs, variant, extra=(), link=(), deps=()):
    cc, flags, lflags = VARIANTS[variant]
    library = concurrent.futures.ThreadPoolExecutor(1).submit(lib, variant)
    hdrs = sorted(glob.glob(os.path.join(VERIF, "harness", "*.h")))
    h = digest(sorted(set(list(srcs) + hdrs + list(deps))), repo_hash() + variant + repr(extra) + repr(link))
    d = os.path.join(BUILD, "bin-%s-%s-%s" % (name, variant, h))
    out = os.path.join(d, name)
    with Lock("bin-%s-%s" % (name, variant)):
        if os.path.exists(out):
            library.result()
            return out
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        objs = [os.path.join(d, "o%d.o" % i) for i in range(len(srcs))]
        jobs = [[cc] + COMMON + flags + list(extra) + includes() + ["-I" + os.path.join(VERIF, "harness"), "-c", s, "-o", o] for s, o in zip(srcs, objs)]
        with concurrent.futures.ThreadPoolExecutor(JOBS) as ex:
            list(ex.map(run, jobs))
        run([cc] + objs + [library.result()] + lflags + list(link) + ["-lpthread", "-o", out + ".tmp"])
        for o in objs:
            os.unlink(o)
        os.rename(out + ".tmp", out)
        prune("bin-%s-%s-" % (name, variant), d)
    return out

def tool(path, variant):
    """A command-line tool of the repository itself."""
    g = gen_dir()
    src = os.path.join(g, "pire", "inline.cpp") if path.endswith("inline.lpp") else os.path.join(REPO, path)
    deps = sorted(glob.glob(os.path.join(REPO, "tools", "common", "*"))) + [h for h in glob.glob(os.path.join(os.path.dirname(src), "*.h"))]
    return compile_binary(os.path.basename(path).split(".")[0], [src], variant, deps=deps)

def compiler():
    """The command that compiles @in, which uses the library, to @out."""
    return "\x1f".join([shutil.which("g++") or "g++"] + COMMON[:-1] + ["-O0"] + includes() + ["@in", lib("fast"), "-lpthread", "-o", "@out"])

def harness(name, variant, **kw):
    return compile_binary(name, [os.path.join(VERIF, "harness", name + ".cpp")], variant, **kw)

if __name__ == "__main__":
    try:
        for a in sys.argv[1:]:
            v, *hs = a.split(":")
            print(lib(v))
            for h in hs:
                print(harness(h, v))
    except BuildError as e:
        print(e); sys.exit(2)
