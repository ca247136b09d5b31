#!/usr/bin/env python3
"""Builds libfsm/libre/programs from the working tree of /repo (never inside it), and the harnesses in
/verif/checks against them. Objects are cached by content, so a check that follows setup_cmd recompiles
only what changed. Usage: build.py [--repo DIR] TARGET...   (TARGET: check name, 'progs', or 'all')"""
import hashlib, os, re, subprocess, sys, glob, shutil, json, fcntl, threading
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
CACHE = os.environ.get("VERIF_CACHE", os.path.join(VERIF, ".cache"))
JOBS = 8
SAN = ("-fsanitize=address,undefined -fno-sanitize=nonnull-attribute,pointer-overflow,alignment,function "
       "-fno-sanitize-recover=all -fno-omit-frame-pointer")
VARIANTS = {
    # name: (cc, cflags, ldflags)
    "san": ("clang", "-std=c99 -g1 -O1 -w -pthread " + SAN, SAN),
    "tsan": ("clang", "-std=c99 -g1 -O1 -w -pthread -fsanitize=thread -fno-omit-frame-pointer", "-fsanitize=thread"),
    "plain": ("gcc", "-std=c99 -g1 -O2 -w -pthread", ""),
}

def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode()); h.update(b"\0")
    return h.hexdigest()[:32]

def read(p):
    with open(p, "rb") as f: return f.read()

_ver = {}
def ccver(cc):
    if cc not in _ver:
        _ver[cc] = subprocess.run([cc, "--version"], capture_output=True).stdout
    return _ver[cc]

def headers_hash(roots, exts=(".h", ".inc", ".hpp", ".def")):
    h = hashlib.sha256()
    for root in roots:
        for d, _, fs in sorted(os.walk(root)):
            for f in sorted(fs):
                if f.endswith(exts):
                    p = os.path.join(d, f); h.update(os.path.relpath(p, root).encode()); h.update(read(p))
    return h.hexdigest()

def sources(repo):
    """group -> list of source files, as the project's Makefiles declare them"""
    out = []
    for mk in glob.glob(repo + "/src/**/Makefile", recursive=True):
        d = os.path.relpath(os.path.dirname(mk), repo)
        txt = open(mk).read()
        for m in re.finditer(r"^SRC\s*\+=\s*(\S+\.c)\s*$", txt, re.M):
            if "$" not in m.group(1): out.append(m.group(1))
        if d == "src/libre/class": out += [os.path.relpath(p, repo) for p in glob.glob(os.path.join(repo, d, "*.c"))]
        if d == "src/libre/dialect":
            for m in re.finditer(r"^DIALECT\s*\+=\s*(\S+)", txt, re.M):
                for n in ("lexer", "parser", "re_dialect_" + m.group(1)):
                    out.append(f"src/libre/dialect/{m.group(1)}/{n}.c")
    out = sorted(set(p for p in out if os.path.exists(os.path.join(repo, p))))
    g = {}
    for p in out:
        parts = p.split("/")
        g.setdefault(parts[1], []).append(p)
    return g

def flags_for(p):
    f = "-I include"
    if p.startswith("src/libre/class/"): f += " -I src/libre -DLF_HEADER='\"class.h\"'"
    else: f += " -I src"
    if p.startswith("src/libfsm/vm/"): f += " -I src/libfsm"
    if p.endswith("/lexer.c"): f += " -DLX_HEADER='\"lexer.h\"'"
    m = re.match(r"src/libre/dialect/(\w+)/parser\.c", p)
    if m:
        f += f" -DDIALECT={m.group(1)}"
        if m.group(1) == "pcre": f += " -DPCRE_DIALECT=1"
    return f

class BuildError(Exception): pass

def run(cmd, cwd=None):
    r = subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True, errors="replace")
    if r.returncode: raise BuildError(f"{cmd}\n{r.stdout[-3000:]}{r.stderr[-6000:]}")
    return r

def compile_c(repo, src, variant, hh, extra=""):
    cc, cf, _ = VARIANTS[variant]
    if src.startswith("src/libre/class/") or src == "src/libre/class_name.c":
        cf = "-std=c99 -O0 -w"  # tables only
    if variant == "san" and src.startswith("src/lx/"): cf += " -fno-sanitize-address-globals-dead-stripping"  # its lexer has the names of libfsm's
    cmd = f"{cc} {cf} {flags_for(src)} {extra}"
    key = sha(cmd, ccver(cc), src, read(os.path.join(repo, src)), hh)
    obj = os.path.join(CACHE, "o", key + ".o")
    if not os.path.exists(obj):
        tmp = f"{obj}.{os.getpid()}.{threading.get_ident()}.o"
        run(f"{cmd} -c -o {tmp} {src}", cwd=repo)
        os.replace(tmp, obj)
    else:
        os.utime(obj)
    return obj

_libs, _liblock = {}, threading.Lock()
def library(repo, variant, ex, extra=""):
    with _liblock:
        k = (repo, variant, extra)
        if k not in _libs: _libs[k] = _library(repo, variant, ex, extra)
        return _libs[k]

def _library(repo, variant, ex, extra=""):
    """-> (libfsm archive incl. adt and print, libre archive): names outside .syms hidden as the real build does"""
    hh = headers_hash([repo + "/src", repo + "/include"])
    g = sources(repo)
    groups = {}
    futs = {k: [ex.submit(compile_c, repo, p, variant, hh, extra) for p in g[k]] for k in ("adt", "print", "libfsm", "libre")}
    for k, fs in futs.items(): groups[k] = [f.result() for f in fs]
    libs = []
    for k in ("adt", "print", "libfsm", "libre"):
        symf = os.path.join(repo, f"src/{k}/{k}.syms")
        syms = read(symf) if os.path.exists(symf) else b""
        key = sha(k, variant, syms, *groups[k])
        out = os.path.join(CACHE, "l", f"{k}-{key}.o")
        if not os.path.exists(out):
            tmp = out + f".{os.getpid()}.{threading.get_ident()}"
            run(f"ld -r -o {tmp} " + " ".join(groups[k]))
            if syms:
                keep = [re.sub(rb"#.*", b"", l).strip() for l in syms.split(b"\n")]
                with open(tmp + ".keep", "wb") as f: f.write(b"\n".join(s for s in keep if s) + b"\n")
                run(f"objcopy --keep-global-symbols={tmp}.keep {tmp}")
                os.unlink(tmp + ".keep")
            os.replace(tmp, out)
        else: os.utime(out)
        libs.append(out)
    return libs

def program(repo, name, variant, ex, libs, srcs, extra_link=""):
    hh = headers_hash([repo + "/src", repo + "/include"])
    objs = [f.result() for f in [ex.submit(compile_c, repo, p, variant, hh) for p in srcs]]
    cc, cf, lf = VARIANTS[variant]
    key = sha(name, variant, *objs, *libs)
    out = os.path.join(CACHE, "b", f"{name}-{key}")
    if not os.path.exists(out):
        tmp = out + f".{os.getpid()}.{threading.get_ident()}"
        run(f"{cc} {lf} -pthread -o {tmp} {' '.join(objs)} {' '.join(libs)} -ldl {extra_link}")
        os.replace(tmp, out)
    else: os.utime(out)
    return out

RETEST = {"retest": ("main.c", "runner.c"), "reperf": ("reperf.c", "runner.c"), "cvtpcre": ("cvtpcre.c",)}

def programs(repo, variant, ex, libs, names=("fsm", "re", "rx", "lx")):
    g = sources(repo); out = {}
    for n in names:
        srcs = g.get(n) or [p for p in g["retest"] if os.path.basename(p) in RETEST[n]]
        if n == "retest": srcs = [p for p in srcs if os.path.basename(p) in RETEST[n]]
        out[n] = program(repo, n, variant, ex, libs, srcs)
    return out

CXX = {"tsan": "clang++ -std=c++17 -g1 -O1 -w -pthread -fsanitize=thread", "san": "clang++ -std=c++17 -g1 -O1 -w -pthread " + SAN, "plain": "g++ -std=c++17 -g1 -O2 -w -pthread"}

def compile_cxx(repo, src, variant, hh, extra=""):
    cmd = f"{CXX[variant]} -I {VERIF}/lib -I include -I src {extra}"
    key = sha(cmd, ccver("clang"), read(src), hh)
    obj = os.path.join(CACHE, "o", key + ".o")
    if not os.path.exists(obj):
        tmp = f"{obj}.{os.getpid()}.{threading.get_ident()}.o"
        run(f"{cmd} -c -o {tmp} {src}", cwd=repo)
        os.replace(tmp, obj)
    else: os.utime(obj)
    return obj

def check_meta(name):
    """first line of the .cpp: // BUILD: variant=san progs=re,lx libs=-lpcre2-8"""
    first = open(os.path.join(VERIF, "checks", name + ".cpp")).readline()
    m = dict(re.findall(r"(\w+)=(\S+)", first))
    return m

def build_check(repo, name, ex):
    meta = check_meta(name); variant = meta.get("variant", "san")
    # harness objects depend on the public headers (and, when they say so, on internal ones)
    roots = [VERIF + "/lib", repo + "/include"] + ([repo + "/src"] if meta.get("internal") else [])
    hh = headers_hash(roots)
    f1 = ex.submit(compile_cxx, repo, f"{VERIF}/checks/{name}.cpp", variant, hh)
    f2 = ex.submit(compile_cxx, repo, f"{VERIF}/lib/pbt.cpp", variant, headers_hash([VERIF + "/lib"]))
    libs = library(repo, variant, ex)
    objs = [f1.result(), f2.result()]
    key = sha(name, *objs, *libs, meta.get("libs", ""))
    out = os.path.join(CACHE, "b", f"{name}-{key}")
    if not os.path.exists(out):
        tmp = out + f".{os.getpid()}.{threading.get_ident()}"
        xl = libs
        if meta.get("internal"):
            # white-box data structures: nothing hidden, libfsm+adt only
            pass
        run(f"{CXX[variant]} -o {tmp} {' '.join(objs)} {' '.join(xl)} {meta.get('libs', '').replace(',', ' ')} -ldl")
        os.replace(tmp, out)
    else: os.utime(out)
    progs = {}
    if meta.get("progs"):
        pv = meta.get("progvariant", "san")
        pl = libs if pv == variant else library(repo, pv, ex)
        progs = programs(repo, pv, ex, pl, meta["progs"].split(","))
    return out, progs

def prepare():
    for d in ("o", "l", "b"): os.makedirs(os.path.join(CACHE, d), exist_ok=True)
    # keep the cache small
    tot = []
    for d in ("o", "l", "b"):
        for e in os.scandir(os.path.join(CACHE, d)):
            s = e.stat(); tot.append((s.st_mtime, s.st_size, e.path))
    size = sum(t[1] for t in tot)
    if size > 6e9:
        for t in sorted(tot):
            if size < 3e9: break
            try: os.unlink(t[2]); size -= t[1]
            except OSError: pass

def all_checks():
    return sorted(os.path.basename(p)[:-4] for p in glob.glob(VERIF + "/checks/*.cpp"))

def build(names, repo=None):
    repo = repo or REPO
    prepare()
    with open(os.path.join(CACHE, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        with ThreadPoolExecutor(JOBS) as ex, ThreadPoolExecutor(8) as ex2:
            fs = {n: ex2.submit(build_check, repo, n, ex) for n in names}
            return {n: f.result() for n, f in fs.items()}

if __name__ == "__main__":
    a = sys.argv[1:]; repo = REPO
    if a and a[0] == "--repo": repo = a[1]; a = a[2:]
    if a == ["all"]: a = all_checks()
    try:
        for n, (b, p) in build(a, repo).items(): print(n, b, *[f"{k}={v}" for k, v in p.items()])
    except BuildError as e:
        print(e); sys.exit(1)
