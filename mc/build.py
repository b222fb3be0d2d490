#!/usr/bin/env python3
"""Builds the harnesses from /repo's working tree with the hooks on.

Output goes to /verif/.build (ignored by git). Uses ninja, so that repeated
runs rebuild only what changed.
"""
import glob, hashlib, json, os, shutil, subprocess, sys

VERIF = os.path.realpath(os.path.join(os.path.dirname(__file__), ".."))
REPO = os.environ.get("MC_REPO", "/repo")
COMPAT = "/opt/vp/compat"
OUT = os.environ.get("MC_BUILD", os.path.join(VERIF, ".build"))

# Translation units whose third-party headers declare functions in terms of
# std::mutex or std::atomic keep the standard types (same layout).
NO_SHIM = ("recordio_protobuf_reader", "image_reader", "recordio_protobuf.pb")

LIBS = ("-labsl_strings -labsl_strings_internal -labsl_base -labsl_throw_delegate "
        "-labsl_raw_logging_internal -labsl_int128 -lfmt -lprotobuf -lz "
        "-lopencv_imgcodecs -lopencv_imgproc -lopencv_core -lpthread")

def variant(name):
    common = ("-std=c++17 -g1 -fPIC -DMLIO_VERIF -DMLIO_BUILD_IMAGE_READER -DFMT_SHARED "
              "-D_GLIBCXX_ASSERTIONS -DFMT_DEPRECATED_OSTREAM -w")
    inc = (f"-I{REPO}/include -I{REPO}/src -I{OUT}/gen -isystem {OUT}/natsort "
           f"-isystem /usr/include/opencv4 -isystem {COMPAT}/include")
    if name == "mc":
        return dict(flags=f"{common} -O1 -fsanitize=address -fno-omit-frame-pointer -I{VERIF}/mc/include {inc}",
                    shim=True, link="-fsanitize=address", libs=LIBS)
    if name == "race":
        # Calls the race detector (race.cc) for each access to memory.
        return dict(flags=f"{common} -O1 -fsanitize=thread -fno-omit-frame-pointer -DMC_RACE -D_GLIBCXX_EXTERN_TEMPLATE=0 -I{VERIF}/mc/include {inc}",
                    shim=True, link="", libs=LIBS)
    if name == "real":
        return dict(flags=f"{common} -O1 {inc}", shim=False, link="", libs=LIBS + " -ltbb")
    if name == "py":
        # The Python package, with the address sanitizer.
        return dict(flags=f"{common} -UMLIO_VERIF -O1 -fsanitize=address -fno-omit-frame-pointer {inc} -I/usr/include/python3.12",
                    shim=False, link="-fsanitize=address -shared", libs=LIBS + " -ltbb")
    raise SystemExit(f"unknown variant {name}")

def write_if_changed(p, s):
    os.makedirs(os.path.dirname(p), exist_ok=True)
    if os.path.exists(p) and open(p).read() == s: return
    open(p, "w").write(s)

def prepare():
    # natsort, patched the way third-party/CMakeLists.txt does it.
    n = f"{OUT}/natsort"
    st = f"{OUT}/natsort-stage"
    shutil.rmtree(st, ignore_errors=True)
    os.makedirs(st); os.makedirs(n, exist_ok=True)
    for f in glob.glob(f"{REPO}/third-party/natsort/*"):
        shutil.copy(f, st)
    subprocess.run(["patch", "-s", "-i", "strnatcmp.h.patch"], cwd=st, check=True)
    for f in ("strnatcmp.c", "strnatcmp.h"):
        s = open(f"{st}/{f}").read()
        write_if_changed(f"{n}/{f}", s)
    proto = f"{REPO}/src/mlio/detail/protobuf/recordio_protobuf.proto"
    g = f"{OUT}/gen/mlio/detail/protobuf"
    os.makedirs(g, exist_ok=True)
    tmp = f"{OUT}/gen-stage"; os.makedirs(tmp, exist_ok=True)
    subprocess.run(["protoc", f"--proto_path={os.path.dirname(proto)}", f"--cpp_out={tmp}", proto], check=True)
    for f in os.listdir(tmp):
        write_if_changed(f"{g}/{f}", open(f"{tmp}/{f}").read())

def python_package(o, binary, V, script):
    """A copy of the mlio package with extensions built from the sources, and a launcher."""
    p = f"{OUT}/pypkg"
    if f"build {p}/libmlio.so" in "\n".join(o): pass
    else:
        src = f"{REPO}/src/mlio-py/mlio"
        shutil.rmtree(f"{p}/mlio", ignore_errors=True)
        shutil.copytree(src, f"{p}/mlio", ignore=lambda d, names: [n for n in names if not (n.endswith(".py") or os.path.isdir(os.path.join(d, n))) or n == "__pycache__"])
        write_if_changed(f"{p}/mlio.egg-info/PKG-INFO", "Metadata-Version: 2.1\nName: mlio\nVersion: 0.0\n")
        suffix = ".cpython-312-x86_64-linux-gnu.so"
        o.append(f"build {p}/libmlio.so: link {OUT}/py/libmlio.a\n  link = {V['link']} -Wl,--whole-archive\n  libs = -Wl,--no-whole-archive {V['libs']}")
        ext = []
        for name, where, d, cc in (("_core", "mlio", f"{src}/core", sorted(glob.glob(f"{src}/core/*.cc"))),
                                   ("insights", "mlio/contrib", f"{src}/contrib/insights", [f"{src}/contrib/insights/{x}" for x in ("column_analyzer.cc", "utils.cc", "module.cc", "hll/hyperloglog.cc")])):
            objs = []
            for s in cc:
                obj = f"{p}/obj/{name}/{os.path.basename(s)}.o"
                o.append(f"build {obj}: cxx {s}\n  flags = {V['flags']} -fvisibility=hidden -I{d} -isystem {src}/contrib/insights/hll")
                objs.append(obj)
            so = f"{p}/ext/{name}{suffix}"
            o.append(f"build {so}: link {' '.join(objs)} | {p}/libmlio.so\n  link = {V['link']}\n  libs = {p}/libmlio.so -Wl,-rpath,{p} -lfmt")
            link = f"{p}/{where}/{name}{suffix}"
            if not os.path.lexists(link): os.symlink(so, link)
            ext.append(so)
        o.append(f"build {p}/all: phony {' '.join(ext)}")
    asan = subprocess.run(["gcc", "-print-file-name=libasan.so"], stdout=subprocess.PIPE, text=True).stdout.strip()
    stdcxx = subprocess.run(["g++", "-print-file-name=libstdc++.so"], stdout=subprocess.PIPE, text=True).stdout.strip()
    w = f"{p}/launch/{binary}"
    write_if_changed(w, f"""#!/bin/sh
export LD_PRELOAD="{os.path.realpath(asan)} {os.path.realpath(stdcxx)}" PYTHONMALLOC=malloc PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1
export ASAN_OPTIONS=detect_leaks=0:abort_on_error=0:exitcode=78:max_free_fill_size=4096:free_fill_byte=85:quarantine_size_mb=32:allocator_may_return_null=1
export PYTHONPATH={p}:{VERIF}/mc/py OPENBLAS_NUM_THREADS=1
exec /usr/bin/python3 {script} "$@"
""")
    os.chmod(w, 0o755)
    b = f"{OUT}/bin/{binary}"
    os.makedirs(os.path.dirname(b), exist_ok=True)
    o.append(f"build {b}: launcher {w} | {p}/all")

def ninja_file(harnesses, extra):
    """harnesses: list of (binary, variant, [sources], extra flags, needs_lib)"""
    o = ["ninja_required_version = 1.5", f"builddir = {OUT}"]
    o += ["rule cxx", "  command = g++ $flags -MMD -MF $out.d -c $in -o $out", "  depfile = $out.d", "  deps = gcc", "  description = CXX $out",
          "rule cc", "  command = gcc -O1 -g1 -fPIC -c $in -o $out",
          "rule pch", "  command = g++ $flags -MMD -MF $out.d -x c++-header -c $in -o $out", "  depfile = $out.d", "  deps = gcc",
          "rule launcher", "  command = cp -p $in $out && touch $out",
          "rule ar", "  command = rm -f $out && ar rcs $out $in",
          "rule cxxrace", f"  command = g++ $flags -MMD -MF $out.d -c $in -o $out && objcopy --redefine-syms={VERIF}/mc/race.syms $out", "  depfile = $out.d", "  deps = gcc", "  description = CXX $out",
          "rule link", "  command = g++ $link -o $out $in $libs", "  description = LINK $out"]
    o.append(f"build {OUT}/natsort.o: cc {OUT}/natsort/strnatcmp.c")
    o.append(f"build {OUT}/absl_string_view.o: cxx {COMPAT}/absl_string_view.cc\n  flags = -std=c++17 -O1 -fPIC")
    srcs = sorted(glob.glob(f"{REPO}/src/mlio/**/*.cc", recursive=True)) + [f"{OUT}/gen/mlio/detail/protobuf/recordio_protobuf.pb.cc"]
    used = sorted({h[1] for h in harnesses if h[1]})
    for v in used:
        V = variant(v)
        d = f"{OUT}/{v}"
        os.makedirs(d, exist_ok=True)
        pch = {}
        if V["shim"]:
            for k, df in (("shim", ""), ("noshim", "-DMC_NO_SYNC_SHIM")):
                h = f"{d}/{k}/shim.h"
                write_if_changed(h, f'#include "{VERIF}/mc/include/shim.h"\n')
                o.append(f"build {h}.gch: pch {h}\n  flags = {V['flags']} {df}")
                pch[k] = h
        objs = []
        for s in srcs:
            b = os.path.relpath(s, f"{REPO}/src") if s.startswith(REPO) else os.path.relpath(s, f"{OUT}/gen")
            obj = f"{d}/{b}.o"
            fl = V["flags"]; dep = ""
            if V["shim"]:
                k = "noshim" if any(x in os.path.basename(s) for x in NO_SHIM) else "shim"
                fl += f" -include {pch[k]}" + (" -DMC_NO_SYNC_SHIM" if k == "noshim" else "")
                dep = f" | {pch[k]}.gch"
            o.append(f"build {obj}: {'cxxrace' if v == 'race' else 'cxx'} {s}{dep}\n  flags = {fl} -Winvalid-pch")
            objs.append(obj)
        o.append(f"build {d}/libmlio.a: ar {' '.join(objs)} {OUT}/natsort.o {OUT}/absl_string_view.o")
        V["pch"] = pch
    for binary, v, sources, flags, lib in harnesses:
        V = variant(v)
        if v == "py":
            python_package(o, binary, V, sources[0])
            continue
        objs = []
        if v == "race":
            # The checker itself is a library of its own that shares no code
            # with what it watches.
            so = f"{OUT}/race/libmcrace.so"
            if f"build {so}:" not in "\n".join(o):
                for c in ("mc", "race"):
                    o.append(f"build {OUT}/race/rt/{c}.o: cxx {VERIF}/mc/{c}.cc\n  flags = {V['flags'].replace('-fsanitize=thread', '')} -I{VERIF}/mc")
                o.append(f"build {so}: link {OUT}/race/rt/mc.o {OUT}/race/rt/race.o\n  link = -shared -Wl,-Bsymbolic\n  libs = -ldl -lpthread")
            for s in sources:
                if os.path.basename(s) == "mc.cc": continue
                obj = f"{OUT}/h/{binary}/{os.path.basename(s)}.o"
                o.append(f"build {obj}: cxxrace {s}\n  flags = {V['flags']} -I{VERIF}/mc {flags}")
                objs.append(obj)
            o.append(f"build {OUT}/bin/{binary}: link {' '.join(objs)} {OUT}/race/libmlio.a {so}\n  link = -rdynamic\n  libs = -Wl,-rpath,{OUT}/race {V['libs']}")
            continue
        for s in sources:
            obj = f"{OUT}/h/{binary}/{os.path.basename(s)}.o"
            o.append(f"build {obj}: cxx {s}\n  flags = {V['flags']} -I{VERIF}/mc {flags}")
            objs.append(obj)
        deps = " ".join(objs) + (f" {OUT}/{v}/libmlio.a" if lib else "")
        o.append(f"build {OUT}/bin/{binary}: link {deps}\n  link = {V['link']} \n  libs = {V['libs'] if lib else '-lpthread'}")
    write_if_changed(f"{OUT}/build.ninja", "\n".join(o) + "\n")

def forget_stale():
    """Ninja goes by times. Where a source has other contents than at the last
    build but an older time than what was built from it then (a copied or
    restored tree), what was built from it is removed."""
    rec = f"{OUT}/sources.json"
    try: old = json.load(open(rec))
    except (OSError, ValueError): old = {}
    new = {}
    for top in ("include", "src", "third-party"):
        for d, _, names in os.walk(f"{REPO}/{top}"):
            for n in names:
                if n.endswith((".cc", ".h", ".c", ".hpp")):
                    p = os.path.join(d, n)
                    new[p] = hashlib.sha256(open(p, "rb").read()).hexdigest()
    for p in set(old) & set(new):
        if old[p] == new[p]: continue
        t = os.stat(p).st_mtime_ns
        for d, _, names in os.walk(OUT):
            for n in names:
                o = os.path.join(d, n)
                if (n == os.path.basename(p) + ".o" or not p.endswith(".cc") and n.endswith((".o", ".gch"))) and os.stat(o).st_mtime_ns >= t:
                    os.remove(o)
    write_if_changed(rec, json.dumps(new))

def build(harnesses):
    os.makedirs(OUT, exist_ok=True)
    prepare()
    forget_stale()
    # Always the whole file: ninja forgets what it knows of targets left out.
    from properties_map import HARNESSES
    ninja_file(list(HARNESSES.values()), "")
    r = subprocess.run(["ninja", "-C", OUT, "-k", "4"] + [f"{OUT}/bin/{h[0]}" for h in harnesses],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        sys.stdout.write(r.stdout[-6000:])
        raise SystemExit(3)
