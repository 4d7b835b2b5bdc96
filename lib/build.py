"""Builds the driver binaries from /repo's current working tree.

Everything is built in /verif/build/<hash of the sources>/; /repo is only read.
"""
import fcntl
import glob
import hashlib
import os
import re
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")

GLOBALCONF = "global-boxes-conf"

VARIANTS = {
    "plain": dict(cc="gcc", cflags=["-O1", "-g", "-w", "-DWRAP_REALLOC"], ldflags=[]),
    "asan": dict(
        cc="gcc",
        cflags=["-O1", "-g", "-w", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined",
                "-fno-omit-frame-pointer"],
        ldflags=["-fsanitize=address,undefined"], guards=True),
}


def guarded():
    """The library functions which guards.c stands before"""
    text = open(os.path.join(VERIF, "lib", "guards.c"), encoding="utf-8").read()
    return sorted(set(re.findall(r"__wrap_(\w+)\(", text)))


class BuildError(Exception):
    pass


def _makevar(name, default):
    try:
        text = open(os.path.join(REPO, "Makefile"), encoding="utf-8").read()
        m = re.search(r"^%s\s*\??=\s*(\S+)" % name, text, re.M)
        if m:
            return m.group(1)
    except OSError:
        pass
    return default


def source_hash():
    h = hashlib.sha256()
    for base in ("src",):
        for root, dirs, files in os.walk(os.path.join(REPO, base)):
            dirs.sort()
            for f in sorted(files):
                p = os.path.join(root, f)
                h.update(os.path.relpath(p, REPO).encode() + b"\0")
                with open(p, "rb") as fp:
                    h.update(fp.read())
                h.update(b"\0")
    for f in (os.path.join(REPO, "Makefile"), os.path.join(VERIF, "lib", "driver.c"),
              os.path.join(VERIF, "lib", "guards.c"), os.path.abspath(__file__)):
        with open(f, "rb") as fp:
            h.update(fp.read())
    return h.hexdigest()[:20]


def _run(cmd, cwd):
    p = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode:
        raise BuildError("%s\n%s" % (" ".join(cmd), p.stdout.decode("utf-8", "replace")[-4000:]))


def version():
    return _makevar("BVERSION", "0.0")


def build(variant="plain"):
    """Returns the path of the driver binary for the variant, building it if needed."""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, ".lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        h = source_hash()
        d = os.path.join(BUILD, h)
        exe = os.path.join(d, "driver-" + variant)
        if os.path.exists(exe):
            os.utime(d)
            return exe
        # keep at most a few old builds
        old = sorted((p for p in glob.glob(os.path.join(BUILD, "*")) if os.path.isdir(p) and p != d),
                     key=os.path.getmtime)
        for p in old[:-6]:
            shutil.rmtree(p, ignore_errors=True)
        src = os.path.join(d, "src")
        if not os.path.isdir(src):
            tmp = src + ".tmp"
            shutil.rmtree(tmp, ignore_errors=True)
            shutil.copytree(os.path.join(REPO, "src"), tmp)
            hdr = open(os.path.join(tmp, "boxes.in.h"), encoding="utf-8").read()
            hdr = hdr.replace("--BVERSION--", version())
            # relative, so that each case has a "system-wide" file of its own in its scratch directory
            hdr = hdr.replace("--GLOBALCONF--", GLOBALCONF)
            open(os.path.join(tmp, "boxes.h"), "w", encoding="utf-8").write(hdr)
            _run(["flex", "--header-file=lex.yy.h", "lexer.l"], tmp)
            _run(["bison", "--defines=parser.h", "-o", "parser.c", "parser.y"], tmp)
            os.rename(tmp, src)
        v = VARIANTS[variant]
        objd = os.path.join(d, "obj-" + variant)
        os.makedirs(objd, exist_ok=True)
        cs = sorted(glob.glob(os.path.join(src, "*.c")))
        if not os.path.exists(os.path.join(src, "lex.yy.c")):
            raise BuildError("no lex.yy.c")
        own = [os.path.join(VERIF, "lib", "driver.c")]
        wrap = [] if v.get("guards") else ["-Wl,--wrap=realloc"]
        if v.get("guards"):
            own.append(os.path.join(VERIF, "lib", "guards.c"))
            wrap = ["-Wl,--wrap=" + f for f in guarded()]

        def comp(c):
            o = os.path.join(objd, os.path.basename(c)[:-2] + ".o")
            cmd = [v["cc"]] + v["cflags"] + ["-I" + src]
            if c not in own:
                cmd += ["-Dmain=boxes_main"]
            _run(cmd + ["-c", c, "-o", o], src)
            return o

        with ThreadPoolExecutor(8) as ex:
            objs = list(ex.map(comp, cs + own))
        _run([v["cc"]] + v["ldflags"] + wrap + objs + ["-o", exe + ".tmp", "-lunistring", "-lpcre2-32", "-lncurses"], d)
        os.rename(exe + ".tmp", exe)
        shutil.rmtree(objd, ignore_errors=True)
        return exe


if __name__ == "__main__":
    for name in sys.argv[1:] or list(VARIANTS):
        print(build(name))
