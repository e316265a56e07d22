#!/usr/bin/env python3
"""Builds the harness from the current working tree of /repo (and of /verif).

Objects are cached under /verif/build (ignored by git) by the hash of everything they depend on: the
compiler flags, the source file, and the contents of all files it includes, directly or not.
"""
import fcntl
import hashlib
import os
import re
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("PPV_REPO", "/repo")
BUILD = os.environ.get("PPV_BUILD", os.path.join(VERIF, "build"))
CXX = "g++"


def read(path):
    try:
        with open(path, "rb") as f:
            return f.read()
    except OSError:
        return b""


def text(path):
    return read(path).decode("utf-8", "replace").strip()


def repo_flags():
    quote = lambda s: '"' + s.replace("\\", "\\\\").replace('"', '\\"').replace("\n", "\\n") + '"'
    return [
        "-DPROGRAM_NAME=" + quote("pdftotext++"),
        "-DPROGRAM_DESCRIPTION=" + quote(text(REPO + "/project.description")),
        "-DPROGRAM_USAGE=" + quote(text(REPO + "/project.usage")),
        "-DVERSION=" + quote(text(REPO + "/project.version")),
        "-DCONFIG_SEMANTIC_ROLES_DETECTION_MODELS_DIR="
        + quote(REPO + "/resources/models/2021-08-30_model-3K-documents"),
    ]


SAN = ["-fsanitize=address,undefined", "-fno-sanitize-recover=undefined"]


def common_flags():
    # Three files of the repository use std::find, strstr, strlen without their header.
    return (["-std=c++20", "-O1", "-g1", "-w", "-D_GLIBCXX_ASSERTIONS", "-fno-omit-frame-pointer"]
            + SAN + ["-include", "algorithm", "-include", "cstring", "-I" + VERIF + "/stub",
                     "-I/usr/include/poppler"])


INCLUDE = re.compile(rb'^\s*#\s*include\s*(["<])([^">]+)[">]', re.M)


class Hasher:
    def __init__(self):
        self.files = {}
        self.deps = {}
        self.flags = {}

    def content(self, path):
        if path not in self.files:
            self.files[path] = read(path)
        return self.files[path]

    def closure(self, path, seen, dirs):
        path = os.path.normpath(path)
        if path in seen:
            return
        seen.add(path)
        for kind, name in INCLUDE.findall(self.content(path)):
            name = name.decode("utf-8", "replace")
            bases = ([os.path.dirname(path)] if kind == b'"' else []) + dirs
            for base in bases:
                cand = os.path.join(base, name)
                if os.path.isfile(cand):
                    self.closure(cand, seen, dirs)
                    break

    def key(self, src, flags, dirs):
        seen = set()
        self.closure(src, seen, dirs)
        h = hashlib.sha256()
        h.update("\0".join(flags).encode())
        for p in sorted(seen):
            h.update(p.encode() + b"\0" + hashlib.sha256(self.content(p)).digest())
        return h.hexdigest()[:32]


class BuildError(Exception):
    pass


def compile_one(job):
    src, flags, out = job
    if os.path.exists(out):
        os.utime(out)
        return None
    tmp = out + ".tmp%d" % os.getpid()
    p = subprocess.run([CXX] + flags + ["-c", src, "-o", tmp], stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        return "compiling %s failed:\n%s" % (src, p.stdout[-4000:])
    os.rename(tmp, out)
    return None


def repo_sources():
    res = []
    for d, _, files in os.walk(REPO + "/src"):
        res += [os.path.join(d, f) for f in files if f.endswith(".cpp")]
    return sorted(res)


def harness_sources(prop=None):
    res = []
    for f in sorted(os.listdir(VERIF + "/harness")):
        if not f.endswith(".cpp"):
            continue
        path = VERIF + "/harness/" + f
        props = set(re.findall(r'PPV_(?:PROP|REGRESS)\("([A-Z]\d+)"', text(path)))
        # Files without checks are the support library: needed by everything.
        if prop is None or not props or prop in props:
            res.append(path)
    return res


LOG_SYMBOLS = ["_ZNK3ppp5utils3log6Logger%sEi" % m for m in ("5trace", "5debug", "4info")]


def weak_log(obj):
    """A copy of an object file, with the methods of the logger being weak symbols (see harness/fastlog.cpp)."""
    out = obj[:-2] + ".weak.o"
    if not os.path.exists(out):
        tmp = out + ".tmp%d" % os.getpid()
        subprocess.run(["objcopy"] + ["--weaken-symbol=" + s for s in LOG_SYMBOLS] + [obj, tmp], check=True)
        os.rename(tmp, out)
    else:
        os.utime(out)
    return out


def link(objs, out_name):
    h = hashlib.sha256("\0".join(objs).encode()).hexdigest()[:16]
    out = "%s/bin/%s-%s" % (BUILD, out_name, h)
    if not os.path.exists(out):
        tmp = out + ".tmp%d" % os.getpid()
        p = subprocess.run([CXX] + SAN + ["-o", tmp] + objs
                           + ["-lpoppler", "-lutf8proc", "-lboost_program_options"],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode != 0:
            raise BuildError("linking %s failed:\n%s" % (out_name, p.stdout[-4000:]))
        os.rename(tmp, out)
    else:
        os.utime(out)
    return out


def gc(directory, keep):
    """Removes the oldest files of the cache, which otherwise grows without limits."""
    files = sorted(((os.path.getmtime(os.path.join(directory, f)), f)
                    for f in os.listdir(directory)), reverse=True)
    for _, f in files[keep:]:
        os.unlink(os.path.join(directory, f))


def build(prop=None):
    """Returns the paths of the harness, the command line program, and the latter with fast logging."""
    for d in ("obj", "bin"):
        os.makedirs(BUILD + "/" + d, exist_ok=True)
    with open(BUILD + "/lock", "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        gc(BUILD + "/obj", 1500)
        gc(BUILD + "/bin", 120)
        hasher = Hasher()
        dirs = [VERIF + "/stub"]
        jobs, main_obj, fast_obj, lib_objs, harness_objs = [], None, None, [], []
        for src in repo_sources():
            flags = common_flags() + repo_flags()
            rel = os.path.relpath(src, REPO)
            out = "%s/obj/%s-%s.o" % (BUILD, rel.replace("/", "_"), hasher.key(src, flags, dirs))
            jobs.append((src, flags, out))
            if rel == "src/pdftotext++.cpp":
                main_obj = out
            else:
                lib_objs.append(out)
        sources = harness_sources(prop)
        # The checks of the logger use the real one.
        real_log = any("utils/Log.h" in text(src) for src in sources)
        for src in sources:
            if real_log and src.endswith("/fastlog.cpp"):
                continue
            flags = common_flags() + ["-DPPV_REPO_DIR=\"%s\"" % REPO, "-I" + REPO + "/src", "-I" + VERIF + "/harness"]
            hdirs = dirs + [REPO + "/src", VERIF + "/harness"]
            out = "%s/obj/h_%s-%s.o" % (BUILD, os.path.basename(src), hasher.key(src, flags, hdirs))
            jobs.append((src, flags, out))
            harness_objs.append(out)
            if src.endswith("/fastlog.cpp"):
                fast_obj = out
        # The biggest files first.
        jobs.sort(key=lambda j: -len(hasher.content(j[0])))
        with ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as ex:
            errors = [e for e in ex.map(compile_one, jobs) if e]
        if errors:
            raise BuildError("\n".join(errors))
        cli = fast_cli = link([main_obj] + lib_objs, "pdftotext++")
        if not real_log:
            lib_objs = [weak_log(o) if "_Log.cpp-" in o else o for o in lib_objs]
            fast_cli = link([main_obj, fast_obj] + lib_objs, "pdftotext++-fast")
        harness = link(harness_objs + lib_objs, "ppv-" + (prop or "all"))
        return harness, cli, fast_cli


if __name__ == "__main__":
    try:
        for path in build(sys.argv[1] if len(sys.argv) > 1 else None):
            print(path)
    except BuildError as e:
        print(e, file=sys.stderr)
        sys.exit(2)
