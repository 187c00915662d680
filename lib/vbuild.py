"""Builds /repo's sources together with a harness, from the current working tree.

Objects are cached under /verif/.build by the SHA-256 of the *preprocessed*
translation unit plus the flags, so the cache can never serve a stale object:
whatever the working tree contains right now is what gets compiled and linked.
"""
import concurrent.futures as cf
import hashlib
import os
import re
import subprocess
import sys
import threading

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, ".build")
CXX = os.environ.get("VERIF_CXX", "g++")
JOBS = int(os.environ.get("VERIF_JOBS", "8"))

BASE = ["-std=c++17", "-g1", "-fno-omit-frame-pointer", "-ffp-contract=off",
        "-DEDYN_DEBUG", "-pthread", "-w"]
CONFIGS = {
    # asan: memory errors + undefined behaviour, every report fatal
    "asan": ["-O1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all",
             "-fno-sanitize=vptr", "-D_GLIBCXX_ASSERTIONS"],
    "tsan": ["-O1", "-fsanitize=thread"],
    "plain": ["-O1", "-D_GLIBCXX_ASSERTIONS"],
    "fast": ["-O2"],
}
CONFIGS["asan"].append("-DVF_ASAN=1")
# asanl: for builds of the whole engine; without the pointer checks of UBSan that
# ASan subsumes (null, alignment, pointer-overflow, ...), which double the compile time
CONFIGS["asanl"] = ["-O1", "-fsanitize=address,bool,enum,bounds,float-cast-overflow,integer-divide-by-zero,"
                    "shift,signed-integer-overflow,unreachable,return", "-fno-sanitize-recover=all",
                    "-D_GLIBCXX_ASSERTIONS", "-DVF_ASAN=1"]
CONFIGS["tsan"].append("-DVF_TSAN=1")

INCLUDE = re.compile(r'^[ \t]*#[ \t]*include[ \t]*([<"])([^>"\n]+)[>"]', re.M)


class BuildError(Exception):
    pass


def _read(path):
    with open(path, encoding="utf-8", errors="replace") as f:
        return re.sub(r"/\*.*?\*/", "", f.read(), flags=re.S)


def _closure_uses_entt(path, seen):
    if path in seen:
        return False
    seen.add(path)
    text = _read(path)
    if re.search(r"\bentt::", re.sub(r"//.*", "", text)):
        return True
    inc = os.path.join(REPO, "include")
    for kind, name in INCLUDE.findall(text):
        if name.startswith("entt/"):
            return True
        dirs = [inc] if kind == "<" else [os.path.dirname(path), inc]
        for d in dirs:
            p = os.path.normpath(os.path.join(d, name))
            if os.path.isfile(p):
                if _closure_uses_entt(p, seen):
                    return True
                break
    return False


def repo_sources():
    out = []
    for d, dirs, files in os.walk(os.path.join(REPO, "src", "edyn")):
        dirs[:] = sorted(x for x in dirs if x not in ("windows",))
        for f in sorted(files):
            if f.endswith(".cpp"):
                out.append(os.path.join(d, f))
    return out


def core_sources():
    """EnTT-free sources: exactly those the repository's own build compiles."""
    return [s for s in repo_sources() if not _closure_uses_entt(s, set())]


# Source subsets for monitors that need only part of the EnTT-dependent code. If
# a subset no longer links (code moved between files), build() takes all sources.
SUBSETS = {
    "graph": [r"core/entity_graph", r"collision/dynamic_tree"],
    "geo": [r"shapes/", r"collision/collide/", r"collision/(contact_point|contact_manifold|raycast|broadphase|dynamic_tree|tree_node|query_aabb).*", r"util/shape_.*",
            r"util/aabb_util", r"dynamics/moment_of_inertia", r"sys/update_rotated_meshes", r"sys/update_aabbs", r"util/polyhedron_shape_initializer"],
}
SUBSETS["msg"] = [r"parallel/message_dispatcher"]
SUBSETS["net"] = [r"shapes/(convex_mesh|compound_shape|polyhedron_shape)", r"util/(shape_util|aabb_util)", r"networking/util/pool_snapshot", r"sys/update_rotated_meshes", r"replication/map_child_entity"]
# slowest to compile, started first
HEAVY = ["networking/sys/client_side", "simulation/simulation_worker", "edyn.cpp", "networking/sys/server_side",
         "simulation/stepper_async", "simulation/stepper_sequential", "replication", "dynamics/solver", "collision/narrowphase"]


def subset_sources(name):
    pats = [re.compile(r"/src/edyn/" + x) for x in SUBSETS[name]]
    core = set(core_sources())
    return [s for s in repo_sources() if s in core or any(p.search(s) for p in pats)]


def gen_settings(defs=()):
    """What cmake's configure_file would make of build_settings.h.in."""
    src = os.path.join(REPO, "cmake", "in", "build_settings.h.in")
    text = open(src).read()
    on = {"EDYN_DISABLE_PROFILING"} | set(defs)

    def sub(m):
        name = m.group(1)
        return f"#define {name}" if name in on else f"/* #undef {name} */"
    text = re.sub(r"#cmakedefine\s+(\w+)", sub, text)
    h = hashlib.sha256(text.encode()).hexdigest()[:12]
    d = os.path.join(BUILD, "settings-" + h)
    p = os.path.join(d, "edyn", "build_settings.h")
    if not os.path.exists(p):
        os.makedirs(os.path.dirname(p), exist_ok=True)
        tmp = p + f".{os.getpid()}.{threading.get_ident()}"
        open(tmp, "w").write(text)
        os.replace(tmp, p)
    return d


_SEM = threading.BoundedSemaphore(JOBS)
_LOCKS = {}
_LOCKS_GUARD = threading.Lock()


def _compile(src, flags):
    with _LOCKS_GUARD:
        lock = _LOCKS.setdefault((src, tuple(flags)), threading.Lock())
    with lock, _SEM:
        return _compile1(src, flags)


def _compile1(src, flags):
    """Returns the object path for src under flags (compiling if needed)."""
    pp = subprocess.run([CXX, *flags, "-E", src], stdout=subprocess.PIPE,
                        stderr=subprocess.PIPE)
    if pp.returncode != 0:
        raise BuildError(f"preprocess {src}:\n{pp.stderr.decode(errors='replace')[-4000:]}")
    h = hashlib.sha256()
    h.update("\0".join([CXX, *[f for f in flags]]).encode())
    h.update(pp.stdout)
    obj = os.path.join(BUILD, "obj", h.hexdigest()[:40] + ".o")
    if os.path.exists(obj):
        try:
            os.utime(obj)
        except OSError:
            pass
        return obj
    tmp = f"{obj}.{os.getpid()}.tmp.o"
    cc = subprocess.run([CXX, *flags, "-c", src, "-o", tmp], stdout=subprocess.PIPE,
                        stderr=subprocess.STDOUT)
    if cc.returncode != 0:
        raise BuildError(f"compile {src}:\n{cc.stdout.decode(errors='replace')[-6000:]}")
    os.replace(tmp, obj)
    return obj


def build(name, harness, config, sources="core", extra=(), defs=(), exclude=()):
    """Build harness (path or list) against /repo; returns the executable."""
    os.makedirs(os.path.join(BUILD, "obj"), exist_ok=True)
    os.makedirs(os.path.join(BUILD, "bin"), exist_ok=True)
    settings = gen_settings(defs)
    flags = BASE + CONFIGS[config] + ["-I", settings, "-I", os.path.join(REPO, "include"),
                                      "-I", os.path.join(VERIF, "harness"),
                                      *[x for x in extra if not x.startswith("-DVF_")]]
    hextra = [x for x in extra if x.startswith("-DVF_")]  # -DVF_*: seen by the harness only
    if sources != "core" and sources != "none":
        flags += ["-I", os.path.join(VERIF, "minientt")]
    if sources in ("core", "mini"):  # mini: core sources, stand-in EnTT headers on the path
        srcs = core_sources()
    elif sources == "full":
        srcs = sorted(repo_sources(), key=lambda s: min([i for i, h in enumerate(HEAVY) if h in s] or [99]))
    elif sources in SUBSETS:
        srcs = subset_sources(sources)
    elif sources == "none":
        srcs = []
    else:
        srcs = [os.path.join(REPO, s) for s in sources]
    srcs = [s for s in srcs if not any(s.endswith(e) for e in exclude)]
    hs = [harness] if isinstance(harness, str) else list(harness)
    hs = [os.path.join(VERIF, "harness", h) for h in hs]
    with cf.ThreadPoolExecutor(JOBS) as ex:
        # big harness units first
        objs = list(ex.map(lambda s: _compile(*s), [(h, flags + hextra) for h in hs] + [(s, flags) for s in srcs]))
    hobjs, lobjs = objs[:len(hs)], sorted(set(objs[len(hs):]))
    key = hashlib.sha256("\0".join([*hobjs, *lobjs, *flags]).encode()).hexdigest()[:24]
    exe = os.path.join(BUILD, "bin", f"{name}-{config}-{key}")
    if os.path.exists(exe):
        return exe
    lib = os.path.join(BUILD, f"lib-{key}-{os.getpid()}-{threading.get_ident()}.a")
    tmp = f"{exe}.{os.getpid()}.{threading.get_ident()}"
    link = [CXX, *[f for f in flags if f.startswith("-fsanitize") or f.startswith("-g")],
            *hobjs]
    try:
        if lobjs:
            subprocess.run(["ar", "crs", lib, *lobjs], check=True)
            link += ["-Wl,--start-group", lib, "-Wl,--end-group"]
        link += ["-pthread", "-o", tmp]
        r = subprocess.run(link, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode != 0:
            if isinstance(sources, str) and sources in SUBSETS:
                return build(name, harness, config, "full", extra, defs, exclude)
            raise BuildError("link:\n" + r.stdout.decode(errors="replace")[-4000:])
        os.replace(tmp, exe)
    finally:
        if os.path.exists(lib):
            os.unlink(lib)
    return exe


def prune(max_bytes=3 << 30):
    """Keep the cache bounded: drop the oldest files."""
    files = []
    for d, _, fs in os.walk(BUILD):
        for f in fs:
            p = os.path.join(d, f)
            try:
                st = os.stat(p)
            except OSError:
                continue
            files.append((st.st_mtime, st.st_size, p))
    total = sum(f[1] for f in files)
    for _, size, p in sorted(files):
        if total <= max_bytes:
            break
        if p.endswith(".h"):
            continue
        try:
            os.unlink(p)
            total -= size
        except OSError:
            pass
