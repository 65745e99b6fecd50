"""Build helper: instrumented ("sym") and plain ("nat") objects of /repo's sources.

Objects are cached by the content of everything under /repo and /verif they were
compiled from, so a run after a change recompiles exactly what the change reaches.
"""
import hashlib, json, os, re, shutil, subprocess, sys, time, fcntl
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SYM_REPO", "/repo")
BUILD = os.environ.get("SYM_BUILD", os.path.join(VERIF, "build"))
ENGINE = os.path.join(VERIF, "engine")
LLVM = "/usr/lib/llvm-20"
CXX = "/usr/bin/clang++-20"
CC = "/usr/bin/clang-20"
LDFLAGS = ["-fuse-ld=gold"] if os.path.exists("/usr/bin/ld.gold") else []
LINK = {"tidy": ["-lclangTidy", "-lclangTidyUtils"]}  # further libraries a harness needs
JOBS = int(os.environ.get("SYM_BUILD_JOBS", "8"))

COMMON = ["-std=gnu++20", "-fno-exceptions", "-fno-rtti", "-fno-strict-aliasing", "-fno-common", "-w",
          "-D_GNU_SOURCE", "-D__STDC_CONSTANT_MACROS", "-D__STDC_LIMIT_MACROS", "-DHAVE_CLANG_CONFIG_H", "-DNDEBUG",
          "-fPIC", f"-I{LLVM}/include"]
MODES = {
    "sym": ["-O1", "-g1", "-fno-vectorize", "-fno-slp-vectorize", "-D_GLIBCXX_EXTERN_TEMPLATE=0", "-D_GLIBCXX_ASSERTIONS"],
    "nat": ["-O1", "-g1", "-D_GLIBCXX_ASSERTIONS"],
}


class BuildError(Exception):
    pass


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


def fhash(path, memo={}):
    try:
        st = os.stat(path)
    except OSError:
        return "missing"
    k = (path, st.st_mtime_ns, st.st_size)
    if k not in memo:
        with open(path, "rb") as f:
            data = f.read()
        if path.startswith(os.path.realpath(REPO) + "/src/"):
            data = uncommented(data)
        memo[k] = hashlib.sha256(data).hexdigest()
    return memo[k]


TOKEN = re.compile(rb'''R"([^()\\\s]{0,16})\(.*?\)\1"|"(?:\\.|[^"\\\n])*"|(?:(?<=\bL)|(?<=\bu)|(?<=\bU)|(?<=\bu8)|(?<![0-9A-Za-z_]))'(?:\\.|[^'\\\n])+'|//(?:\\\r?\n|[^\n])*|/\*.*?\*/''', re.S)


def uncommented(data):
    """the text without its comments (lines stay where they are): what does not change this needs no recompilation"""
    def keep(m):
        t = m.group(0)
        return t if t[:2] not in (b"//", b"/*") else b" " + b"\n" * t.count(b"\n")

    return b"\n".join(x.rstrip() for x in TOKEN.sub(keep, data).rstrip().split(b"\n"))


def hjoin(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(str(p).encode())
        h.update(b"\0")
    return h.hexdigest()[:32]


def atomic(path, data):
    tmp = f"{path}.{os.getpid()}.{id(data)}.tmp"
    with open(tmp, "w" if isinstance(data, str) else "wb") as f:
        f.write(data)
    os.replace(tmp, path)


def toolchain():
    """pass plugin, runtime, globals object; returns their paths"""
    d = os.path.join(BUILD, "tool")
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        inc = [f"-I{LLVM}/include", "-D_GNU_SOURCE", "-D__STDC_CONSTANT_MACROS", "-D__STDC_LIMIT_MACROS"]
        steps = [
            ("SymPass.so", ["SymPass.cpp"], [CXX, "-std=c++17", "-O1", "-fno-rtti", "-fno-exceptions", "-fPIC", "-shared", *inc, f"{ENGINE}/SymPass.cpp"]),
            ("libsymrt.so", ["symrt.cpp", "exports.map"], [CXX, "-std=c++17", "-O2", "-g1", "-fPIC", "-shared", "-fvisibility=hidden", f"{ENGINE}/symrt.cpp",
                                                           "-lz3", "-ldl", f"-Wl,--version-script={ENGINE}/exports.map"]),
            ("rtglobals.o", ["rtglobals.c"], [CC, "-O1", "-fPIC", "-c", f"{ENGINE}/rtglobals.c"]),
            ("rtnative.o", ["rtnative.cpp", "symapi.h"], [CXX, "-std=c++17", "-O1", "-fPIC", "-c", f"-I{ENGINE}", f"{ENGINE}/rtnative.cpp"]),
        ]

        def one(s):
            name, deps, cmd = s
            out = os.path.join(d, name)
            key = hjoin(*cmd, *[fhash(os.path.join(ENGINE, x)) for x in deps])
            kf = out + ".key"
            if os.path.exists(out) and os.path.exists(kf) and open(kf).read() == key:
                return
            r = sh([*cmd, "-o", out])
            if r.returncode:
                raise BuildError(f"building {name} failed:\n{r.stdout[-4000:]}")
            atomic(kf, key)

        with ThreadPoolExecutor(4) as ex:
            list(ex.map(one, steps))
    return d


def pch(mode):
    d = os.path.join(BUILD, "pch")
    os.makedirs(d, exist_ok=True)
    src = os.path.join(ENGINE, "pch.h")
    out = os.path.join(d, f"{mode}.pch")
    cmd = [CXX, *COMMON, *MODES[mode], "-x", "c++-header", src]
    key = hjoin(*cmd, fhash(src))
    with open(out + ".lock", "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if not (os.path.exists(out) and os.path.exists(out + ".key") and open(out + ".key").read() == key):
            r = sh([*cmd, "-o", out])
            if r.returncode:
                raise BuildError("building the precompiled header failed:\n" + r.stdout[-4000:])
            atomic(out + ".key", key)
    return out


def gen_dir():
    """checks.json.h as cmake's configure_file would write it"""
    text = open(f"{REPO}/checks.json").read()
    tmpl = open(f"{REPO}/checks.json.h.in").read()
    rep = f'\nR"meta({text})meta"\n'
    out = tmpl.replace("${SUPPORTED_CHECKS_JSON_STR}", rep)
    d = os.path.join(BUILD, "gen", hjoin(out))
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, "checks.json.h")
    if not os.path.exists(p):
        atomic(p, out)
    return d


def version():
    cm = open(f"{REPO}/CMakeLists.txt").read()
    v = dict(re.findall(r'set\(CLAZY_VERSION_(MAJOR|MINOR|PATCH)\s+"?(\d+)"?', cm))
    return f"{v.get('MAJOR', '1')}.{v.get('MINOR', '0')}"


def parse_deps(path):
    try:
        t = open(path).read()
    except OSError:
        return []
    t = t.replace("\\\n", " ")
    t = t.split(":", 1)[1] if ":" in t else ""
    out = []
    for x in t.split():
        x = os.path.realpath(x)
        if x.startswith(os.path.realpath(REPO) + "/") or x.startswith(VERIF + "/"):
            if not x.startswith(BUILD + "/pch"):
                out.append(x)
    return sorted(set(out))


def _rel(p):
    for base, tag in ((os.path.realpath(REPO), "R"), (BUILD, "B"), (VERIF, "V")):
        if p.startswith(base + "/"):
            return tag + ":" + p[len(base) + 1:]
    return p


def compile_one(src, mode, tool, gen, pchf, extra=()):
    obj_dir = os.path.join(BUILD, "obj", mode)
    os.makedirs(obj_dir, exist_ok=True)
    flags = [*COMMON, *MODES[mode], *extra]
    tkey = hjoin(*flags, fhash(f"{tool}/SymPass.so") if mode == "sym" else "", fhash(f"{ENGINE}/pch.h"), os.path.basename(gen) if 0 else "")
    sid = hjoin(_rel(os.path.realpath(src)), tkey)
    index = os.path.join(obj_dir, sid + ".idx")
    entries = []
    if os.path.exists(index):
        try:
            entries = json.load(open(index))
        except ValueError:
            entries = []
    unrel = {"R": os.path.realpath(REPO), "V": VERIF, "B": BUILD}

    def content_key(deps):
        return hjoin(sid, *[x for d in deps for x in (d, fhash(unrel[d[0]] + "/" + d[2:] if d[1:2] == ":" else d))])

    for deps, key in entries:
        if content_key(deps) == key and os.path.exists(f"{obj_dir}/{key}.o"):
            return f"{obj_dir}/{key}.o", False
    t = f"{obj_dir}/{sid}.{os.getpid()}"
    cmd = [CXX, *flags, f"-DCLAZY_VERSION=\"{version()}\"", f"-I{ENGINE}", f"-I{VERIF}/harness", f"-I{gen}", f"-I{REPO}", f"-I{REPO}/src"]
    if mode == "sym":
        cmd += [f"-fpass-plugin={tool}/SymPass.so"]
    cmd += ["-include-pch", pchf, "-MD", "-MF", t + ".d", "-c", src, "-o", t + ".o"]
    r = sh(cmd)
    if r.returncode:
        raise BuildError(f"compiling {src} ({mode}) failed:\n{r.stdout[-6000:]}")
    deps = [_rel(x) for x in parse_deps(t + ".d")]
    s = _rel(os.path.realpath(src))
    if s not in deps:
        deps.append(s)
    key = content_key(deps)
    os.replace(t + ".o", f"{obj_dir}/{key}.o")
    os.unlink(t + ".d")
    entries = [e for e in entries if e[0] != deps or e[1] != key][-6:] + [[deps, key]]
    atomic(index, json.dumps(entries))
    return f"{obj_dir}/{key}.o", True


def all_sources():
    """what the clazy plugin and clazy-standalone are built from (all of src/ that the build files mention)"""
    listed = ""
    for f in sorted(x for x in os.listdir(REPO) if x == "CMakeLists.txt" or x.endswith(".cmake")):
        try:
            listed += open(f"{REPO}/{f}").read()
        except OSError:
            pass
    out = []
    for root, _, files in os.walk(f"{REPO}/src"):
        for f in files:
            if f.endswith(".cpp") and f not in ("ClazyClangTidyModule.cpp", "ClazyStandaloneMain.cpp", "MiniAstDumper.cpp") and "/" + f in listed:
                out.append(os.path.join(root, f))
    return sorted(out)


def compile_all(srcs, mode, tool=None, gen=None, pchf=None):
    tool = tool or toolchain()
    gen = gen or gen_dir()
    pchf = pchf or pch(mode)
    with ThreadPoolExecutor(JOBS) as ex:
        return list(ex.map(lambda s: compile_one(s, mode, tool, gen, pchf), srcs))


def build(name, harness_srcs, mode="sym"):
    """link one harness against all of clazy; returns (exe, info)"""
    t0 = time.time()
    tool, gen = toolchain(), gen_dir()
    pchf = pch(mode)
    hs = [os.path.join(VERIF, "harness", h) for h in harness_srcs]
    rs = all_sources()
    exe_dir = os.path.join(BUILD, "exe" if REPO == "/repo" else "exe-alt")
    os.makedirs(exe_dir, exist_ok=True)
    res = compile_all(hs + rs, mode, tool, gen, pchf)
    objs = [r[0] for r in res]
    exe = os.path.join(exe_dir, f"{name}.{mode}.{hjoin(*objs, fhash(tool + '/libsymrt.so'), fhash(tool + '/rtnative.o'))[:16]}")
    info = {"compiled": sum(1 for r in res if r[1]), "objects": len(objs)}
    if not os.path.exists(exe):
        hobj, robj = objs[: len(hs)], objs[len(hs):]
        tmp = exe + f".{os.getpid()}.tmp"
        rt = [f"{tool}/rtglobals.o", f"{tool}/libsymrt.so", f"-Wl,-rpath,{tool}"] if mode == "sym" else [f"{tool}/rtnative.o"]
        ar = tmp + ".a"
        sh(["ar", "rcsT", ar, *robj])
        cmd = [CXX, *LDFLAGS, *hobj, ar, *rt, "-rdynamic", f"-L{LLVM}/lib", f"-Wl,-rpath,{LLVM}/lib", *LINK.get(name, []), "-lclang-cpp", "-lLLVM-20", "-o", tmp]
        r = sh(cmd)
        os.unlink(ar)
        if r.returncode:
            raise BuildError(f"linking {name} ({mode}) failed:\n{r.stdout[-6000:]}")
        for old in os.listdir(exe_dir):
            if old.startswith(f"{name}.{mode}.") and not old.endswith(".tmp"):
                try:
                    os.unlink(os.path.join(exe_dir, old))
                except OSError:
                    pass
        os.replace(tmp, exe)
    info["build_s"] = round(time.time() - t0, 2)
    return exe, info
