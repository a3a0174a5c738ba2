#!/usr/bin/env python3
"""Builds the simulator against /repo's current working tree.

build.py [--flavour asan|plain] [--group core|ui] -> prints the path of the binary.
Objects are cached by the hash of (command, preprocessed dependencies are not
tracked: every source and header of the tree goes into the key), so that a
change anywhere in /repo/src rebuilds what is compiled from it."""
import concurrent.futures, fcntl, glob, hashlib, os, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("SIM_REPO", "/repo")
OUT = os.environ.get("SIM_BUILD", os.path.join(VERIF, "build"))
CXX = "g++-14"
SRC = os.path.join(REPO, "src")

LIB = ["app", "domain", "domain/*", "infra/*", "infra/*/*", "utils"]
SIM = ["common.cpp", "main.cpp"]

FLAVOURS = {
    "asan": ["-O1", "-g1", "-fsanitize=address,undefined", "-fno-sanitize=vptr", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"],
    "plain": ["-O2", "-g1", "-D_GLIBCXX_ASSERTIONS", "-DSIM_PLAIN"],
}
LDFLAGS = {"asan": ["-fsanitize=address,undefined"], "plain": []}

def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b"\0")
    return h.hexdigest()[:20]

def headers_key(d, exts):
    h = hashlib.sha256()
    for root, dirs, files in os.walk(d):
        dirs.sort()
        for f in sorted(files):
            if f.endswith(exts):
                p = os.path.join(root, f)
                h.update(os.path.relpath(p, d).encode() + b"\0" + open(p, "rb").read() + b"\0")
    return h.hexdigest()

def lib_sources():
    r = []
    for pat in LIB:
        r += sorted(glob.glob(os.path.join(SRC, pat, "*.cpp")))
    return sorted(set(r))

# One binary per part of the program, so that a change to one part which does
# not build here leaves the checks of the others alone.
GROUPS = {
    "core": [("world_state.cpp", "HAVE_STATE"), ("world_session.cpp", "HAVE_SESSION"), ("world_disk.cpp", "HAVE_DISK")],
    "layout": [("world_layout.cpp", "HAVE_LAYOUT")],
    "ui": [("world_log.cpp", "HAVE_LOG"), ("world_cli.cpp", "HAVE_CLI")],
    "gui": [("world_gui.cpp", "HAVE_GUI")],
}

QT = "/usr/include/x86_64-linux-gnu/qt6"
QT_TOOLS = "/usr/lib/qt6/libexec"
QT_FLAGS = ["-fPIC", "-DQT_NO_DEBUG", "-DQT_CORE_LIB", "-DQT_GUI_LIB", "-DQT_WIDGETS_LIB", '-DOEMSH_VERSION="0.0.0-sim"',
    '-DOEMSH_BUGREPORT="b"', '-DOEMSH_FUNDING="f"', '-DOEMSH_HOMEPAGE="h"', '-DOEMSH_OEMS_MESHING="m"'] + \
    [x for d in ("", "/QtCore", "/QtGui", "/QtWidgets") for x in ("-isystem", QT + d)]

def generate_qt():
    """moc, uic and rcc of the graphical interface, in a folder named after what they read."""
    ui = os.path.join(SRC, "ui/qt")
    mocs = [p for p in sorted(glob.glob(os.path.join(ui, "**/*.hpp"), recursive=True)) if b"Q_OBJECT" in open(p, "rb").read()]
    mocs += [p for p in sorted(glob.glob(os.path.join(HERE, "shims_qt/*.hpp"))) if b"Q_OBJECT" in open(p, "rb").read()]
    uis = sorted(glob.glob(os.path.join(ui, "**/*.ui"), recursive=True))
    qrcs = sorted(glob.glob(os.path.join(ui, "**/*.qrc"), recursive=True))
    key = sha(*[x for p in mocs + uis + qrcs for x in (p, open(p, "rb").read())])
    gen = os.path.join(OUT, "gen", key)
    if not os.path.exists(os.path.join(gen, "done")):
        os.makedirs(gen, exist_ok=True)
        def tool(*cmd):
            p = subprocess.run(cmd, capture_output=True, text=True)
            if p.returncode:
                sys.stderr.write(" ".join(cmd) + "\n" + p.stderr[:4000])
                raise SystemExit(2)
        for p in mocs:
            tool(os.path.join(QT_TOOLS, "moc"), p, "-o", os.path.join(gen, "moc_" + os.path.basename(p)[:-4] + ".cpp"))
        for p in uis:
            tool(os.path.join(QT_TOOLS, "uic"), p, "-o", os.path.join(gen, "ui_" + os.path.basename(p)[:-3] + ".h"))
        for p in qrcs:
            tool(os.path.join(QT_TOOLS, "rcc"), "--name", "resources", p, "-o", os.path.join(gen, "qrc_" + os.path.basename(p)[:-4] + ".cpp"))
        with open(os.path.join(gen, "changelog.hpp"), "w") as f:
            f.write('#pragma once\n#include <string_view>\ninline std::string_view constexpr changelog = "";\n')
        open(os.path.join(gen, "done"), "w").close()
    os.utime(gen)
    return gen

def build(flavour="asan", group="core"):
    os.makedirs(OUT, exist_ok=True)
    with open(os.path.join(OUT, "lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        return _build(flavour, group)

def _build(flavour, group):
    objdir = os.path.join(OUT, flavour)
    os.makedirs(objdir, exist_ok=True)
    flags = ["-std=c++23", "-D_GLIBCXX_USE_TBB_PAR_BACKEND=0"]
    flags += ["-w", "-pthread"] + FLAVOURS[flavour]
    hk = headers_key(SRC, (".hpp", ".h", ".in"))
    shk = headers_key(HERE, (".hpp", ".h", "QApplication", "QFileDialog", "QProcess", "QTemporaryFile"))
    jobs, objs = [], []
    gen = generate_qt() if group == "gui" else None
    def job(src, extra=(), shims=False, qt=False):
        data = open(src, "rb").read()
        sim = src.startswith(HERE)
        inc = (["-I" + os.path.join(HERE, "shims")] if shims else []) + ["-I" + SRC] + (["-I" + HERE] if sim else [])
        if qt:
            inc = ["-I" + os.path.join(HERE, "shims_qt")] + inc + ["-I" + gen] + QT_FLAGS
        cmd = [CXX, "-c", src] + flags + inc + list(extra)
        key = sha(" ".join(cmd), data, hk, shk if sim or shims or qt else "")
        o = os.path.join(objdir, os.path.basename(src).replace(".cpp", "") + "-" + key + ".o")
        objs.append(o)
        if not os.path.exists(o):
            jobs.append((cmd + ["-o", o + ".tmp"], o))
        else:
            os.utime(o)
    for s in lib_sources():
        job(s)
    worlds = [(w, d) for w, d in GROUPS[group] if os.path.exists(os.path.join(HERE, w))]
    defs = ["-D" + d for _, d in worlds]
    for s in sorted(glob.glob(os.path.join(HERE, "*.cpp"))):
        b = os.path.basename(s)
        if b.startswith("world_"):
            if b in [w for w, _ in worlds]:
                job(s, shims=group == "ui", qt=group == "gui")
        else:
            job(s, defs if b == "main.cpp" else ())
    if group == "gui":
        for s in sorted(glob.glob(os.path.join(SRC, "ui/qt/**/*.cpp"), recursive=True)) + sorted(glob.glob(os.path.join(gen, "*.cpp"))):
            job(s, qt=True)
    if group == "ui":
        for s in sorted(glob.glob(os.path.join(SRC, "ui/cli/*.cpp"))):
            job(s, ['-DOEMSH_VERSION="0.0.0-sim"'], shims=True)
        if "-DHAVE_CLI" in defs:
            # From a copy elsewhere, so that "ui/qt/main_window.hpp" is the stand-in.
            copy = os.path.join(OUT, "main.cpp")
            with open(os.path.join(SRC, "main.cpp"), "rb") as f: data = f.read()
            with open(copy, "wb") as f: f.write(data)
            job(copy, ["-Dmain=openemsh_main", '-DOEMSH_VERSION="0.0.0-sim"'], shims=True)
    def run(j):
        cmd, o = j
        p = subprocess.run(cmd, capture_output=True, text=True)
        if p.returncode:
            return " ".join(cmd) + "\n" + p.stderr[:6000]
        os.rename(o + ".tmp", o)
        return None
    errs = []
    if jobs:
        jobs.sort(key=lambda j: -os.path.getsize(j[0][2]))
        with concurrent.futures.ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as ex:
            errs = [e for e in ex.map(run, jobs) if e]
    if errs:
        sys.stderr.write("\n".join(errs))
        raise SystemExit(2)
    key = sha(*objs, *LDFLAGS[flavour])
    exe = os.path.join(objdir, "sim-%s-%s" % (group, key))
    if not os.path.exists(exe):
        cmd = [CXX, "-o", exe + ".tmp"] + objs + LDFLAGS[flavour] + ["-rdynamic", "-lpugixml", "-ldl", "-pthread"] + (["-lQt6Widgets", "-lQt6Gui", "-lQt6Core"] if group == "gui" else [])
        p = subprocess.run(cmd, capture_output=True, text=True)
        if p.returncode:
            sys.stderr.write(p.stderr[:8000])
            raise SystemExit(2)
        os.rename(exe + ".tmp", exe)
    os.utime(exe)
    # Products which are not used any more go, so that the folder stays small.
    old = time.time() - 7200
    for f in glob.glob(os.path.join(objdir, "*")):
        try:
            if os.path.getmtime(f) < old:
                os.unlink(f)
        except OSError:
            pass
    return exe

if __name__ == "__main__":
    fl = sys.argv[sys.argv.index("--flavour") + 1] if "--flavour" in sys.argv else "asan"
    gr = sys.argv[sys.argv.index("--group") + 1] if "--group" in sys.argv else "core"
    print(build(fl, gr))
