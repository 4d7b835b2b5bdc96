"""C20: where the configuration is found."""
import os
import shutil

import common as C
import pbt

FILES = [".boxes", "box-designs", "boxes-config", "boxes"]
CFG = "BOX gen\nsample\nx\nends\nshapes { w (\"%s \") }\nelastic (w)\nEND gen\n"


class World:
    """A directory tree with configuration files, each with a design of its own"""

    def __init__(self, d, ctx):
        self.d, self.root, self.n = d, ctx.sut().fresh_dir("w"), 0
        self.marks = {}

    def path(self, *p):
        return os.path.join(self.root, *p)

    def config(self, path):
        self.n += 1
        os.makedirs(os.path.dirname(path), exist_ok=True)
        mark = "cfg%d" % self.n
        with open(path, "w") as f:
            f.write(CFG % mark)
        self.marks[path] = mark
        return path

    def directory(self, path, p=0.35):
        """With some of the files; returns the one that counts (None if there is none)"""
        d = self.d
        os.makedirs(path, exist_ok=True)
        first = None
        for n in FILES:
            f = os.path.join(path, n)
            if os.path.exists(f):
                if first is None and f in self.marks:
                    first = f
                continue
            k = d.weighted([(1 - p, "none"), (p, "file"), (0.08, "dir"), (0.05, "dangling"), (0.05, "linkdir"), (0.05, "link"), (0.05, "similar")])
            if k == "file":
                self.config(f)
                first = first or f
            elif k == "dir":
                os.mkdir(f)
            elif k == "dangling":
                os.symlink("/nonexistent/x", f)
            elif k == "linkdir":
                os.makedirs(os.path.join(path, "directory of " + n), exist_ok=True)
                os.symlink(os.path.join(path, "directory of " + n), f)
            elif k == "similar":
                self.config(f + d.choice([".cfg", "~", "x", ".conf"]))
            elif k == "link":
                t = self.config(os.path.join(path, "target of " + n))
                os.symlink(t, f)
                self.marks[f] = self.marks[t]
                first = first or f
        return first


def discovery(d, ctx):
    w = World(d, ctx)
    env = {"HOME": None, "XDG_CONFIG_HOME": None, "BOXES": None}
    args = []
    cwd = w.path("cwd")
    os.makedirs(cwd)
    want, error, via = None, None, None

    def named(how, msg):
        """A file or directory named by -f or BOXES: (argument, file or None, error)"""
        k = d.weighted([(3, "file"), (3, "dir"), (1, "missing"), (0.3, "empty"), (0.5, "link"), (0.5, "relative"), (0.5, "unicode"), (0.3, "long")])
        p = w.path(how)
        if k == "file":
            return w.config(p), p, None
        if k == "unicode":
            p = w.path("ü 漢 " + how)
            return w.config(p), p, None
        if k == "long":
            p = w.path(*["directory-%d-" % i + "x" * d.int(1, 150) for i in range(d.int(1, 6))], how)
            return w.config(p), p, None
        if k == "relative":
            w.config(os.path.join(cwd, "rel-" + how))
            return "rel-" + how, os.path.join(cwd, "rel-" + how), None
        if k == "empty":
            return "", None, "Couldn't find config file at ''%s" % msg
        if k == "link":
            w.config(p)
            os.symlink(p, p + "-link")
            return p + "-link", p, None
        if k == "missing":
            return p, None, "Couldn't find config file at '%s'%s" % (p, msg)
        f = w.directory(p, 0.3)
        arg = p + d.choice(["", "/", ""])
        return arg, f, "Couldn't find config file in directory '%s'%s" % (arg, msg)

    # what is there in the places without a name
    places = []
    if d.bool(0.8):
        home = w.path("home") if d.bool(0.95) else w.path(*["home-" + "y" * d.int(1, 150)] * d.int(1, 5))
        env["HOME"] = home + d.choice(["", "", "/"])
        dot = os.path.join(home, ".config", "boxes")
        k = d.weighted([(6, "dir"), (1, "none"), (0.5, "file")])
        h = None
        if k == "dir":
            c = w.directory(dot, 0.25) if d.bool(0.6) else None
            h = w.directory(home, 0.15)
        elif k == "file":
            w.config(home)
        places.append(h)
        xdg_home = c if k == "dir" else None
    else:
        places.append(None)
        xdg_home = None
    if d.bool(0.5):
        x = w.path("xdg") if d.bool(0.95) else w.path(*["xdg-" + "z" * d.int(1, 150)] * d.int(1, 5))
        env["XDG_CONFIG_HOME"] = x + d.choice(["", "/"])
        k = d.weighted([(6, "dir"), (1, "none"), (1, "above"), (0.5, "file")])
        if k == "dir":
            places.append(w.directory(os.path.join(x, "boxes"), 0.25))
        elif k == "above":
            w.directory(x, 0.4)       # these are one level too high, apart from the one named "boxes", which is no directory
            b = os.path.join(x, "boxes")
            places.append(None)
            if os.path.isdir(b):
                places[-1] = w.directory(b, 0.3)
        elif k == "file":
            w.config(os.path.join(x, "boxes"))
    places.append(xdg_home)
    k = d.weighted([(2, "none"), (2, "file"), (0.5, "dir")])
    g = os.path.join(cwd, "global-boxes-conf")
    if k == "file":
        places.append(w.config(g))
    elif k == "dir":
        w.directory(g, 0.5)         # has to be a file
    via = "places"
    want = ([p for p in places if p] + [None])[0]
    error = None if want else "Can't find config file."
    if d.bool(0.35):
        env["BOXES"], want, error = named("by-env", " from BOXES environment variable")
        via = "BOXES"
    if d.bool(0.25):
        arg, want, error = named("by-option", "")
        args = d.choice([["-f", arg], ["--config", arg], ["--config=" + arg]] + ([["-f" + arg]] if arg else []))
        via = "-f"
    d.nontrivial = want is not None and len(w.marks) > 1 or want is None and len(w.marks) > 0
    d.key = repr((sorted(os.path.relpath(k, w.root) for k in w.marks), sorted((k, v) for k, v in env.items()), args, via))
    d.sample = {"environment": {k: v for k, v in env.items() if v}, "options": args, "files": sorted(w.marks), "expected": want or error}
    d.label(via)
    pics = ("files", sorted(w.marks)), ("environment", repr(env)), ("options", repr(args))
    r = ctx.run(args, "text\n", env=env, cwd=cwd)
    if want:
        if r.code or r.err or C.decode(r.out) != "%s text\n" % w.marks[want]:
            C.fail("%s should be used: exit code %d, output %r, message %r" % (want, r.code, r.out, r.err), *pics)
        r = ctx.run(args + ["-l"], "", env=env, cwd=cwd)
        head = C.decode(r.out).split("\n")[0]
        name = head[head.find('"') + 1:head.rfind('"')]
        if r.code or not head.startswith("1 Available Style in ") or not os.path.samefile(os.path.join(cwd, name), want):
            C.fail("the listing should be about %s: exit code %d, heading %r" % (want, r.code, head), *pics)
    else:
        if r.code != 1 or r.out or error not in C.decode(r.err):
            C.fail("boxes should fail with %r: exit code %d, output %r, message %r" % (error, r.code, r.out, r.err), *pics)
    shutil.rmtree(w.root, ignore_errors=True)


PARTS = [pbt.Part("discovery", discovery, 20000, 200000, "there is a choice, or there is none but wrong files exist")]
ASSUMPTIONS = ["the three system-wide directories (/etc/xdg/boxes, /usr/local/share/boxes, /usr/share/boxes) do not exist; the "
               "system-wide file is a relative path in the tested build, and nothing else differs"]
