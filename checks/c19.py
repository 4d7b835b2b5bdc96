"""C19: inheritance from parent configurations."""
import re

import common as C
import gen as G
import model as M
import notation as N
import pbt

PRIM = ["one", "two", "three", "Four", "five"]
MORE = ["more-%d" % i for i in range(20)]
ALIAS = ["al-1", "al-2", "al-3", "al-4"]
FILES = ["a.cfg", "sub/b.cfg", "c ü.cfg", "sub/d d.cfg", "e"] + ["f%d.cfg" % i for i in range(9)]


class File:
    def __init__(self, name, path):
        self.name, self.path = name, path
        self.designs, self.parents, self.items = [], [], []


def recase(d, s):
    return d.choice([s, s, s.upper(), s.lower(), s.capitalize()])


def family(d, ctx, clash=False, missing=True):
    """Files with designs and references to each other (also in circles); the first one is the one given by -f"""
    n = d.weighted([(3, 2), (3, 3), (2, 4), (1, 5), (1, 1), (0.3, d.int(6, 14))])
    scratch = ctx.sut().scratch
    files = []
    for i in range(n):
        name = FILES[i]
        f = File(name, name if d.bool() else scratch + "/" + name)
        files.append(f)
    glob = None
    if d.bool(0.3):
        glob = File("global-boxes-conf", ":global:")
        files.append(glob)
    for k, f in enumerate(files):
        used = set()
        prim = d.shuffled(PRIM)
        many = d.bool(0.03)
        if many:
            prim = d.shuffled(PRIM + MORE)
        al = d.shuffled(ALIAS + (PRIM if clash else []))
        for _ in range(d.int(4, 20) if many else d.weighted([(1, 0), (3, 1), (3, 2), (1, 3)])):
            p = prim.pop()
            if p.lower() in used:
                continue
            used.add(p.lower())
            g = G.design(d, name=recase(d, p))
            N.decorate(d, g, rules=False)
            g.sample = "%s of file %d" % (p, k)
            for _ in range(d.small(0, 2, 0.6)):
                if al:
                    a = al.pop()
                    if a.lower() not in used:
                        used.add(a.lower())
                        g.aliases.append(recase(d, a))
            f.designs.append(g)
        cand = [x for x in files if x is not f or d.bool(0.2)]
        f.parents = [d.choice(cand) for _ in range(d.weighted([(3, 1), (3, 2), (1, 3), (2 if k else 0.5, 0), (0.1, 8)]))] if cand else []
        if not f.designs and not f.parents:
            g = N.decorate(d, G.design(d, name="solo"), rules=False)
            g.sample = "solo of file %d" % k
            f.designs.append(g)
        items = [("d", g) for g in f.designs]
        for p in f.parents:
            items.insert(d.int(0, len(items)) if d.bool(0.5) else 0, ("p", p.path if p is not glob else d.choice([":global:", ":GLOBAL:"])))
        # in file order
        f.parents = [[x for x in files if x.path == i[1].lower() or x.path == i[1]][0] for i in items if i[0] == "p"]
        if missing and d.bool(0.2):
            items.insert(d.int(0, len(items)), ("m", d.choice(["no such file.cfg", "/nowhere/x", "sub", "sub/"])))
        f.items = items
    for f in files:
        out, f.bad = "", []
        for kind, x in f.items:
            if kind == "d":
                out += N.write(d, [x], eol="\n", bom=False, comments=False, wild=0)
                if not out.endswith("\n"):
                    out += "\n"
            else:
                if kind == "m":
                    f.bad.append((out.count("\n") + 1, x))
                out += d.choice(["parent ", "PARENT ", "Parent  ", "parent\t"]) + x + d.choice(["", " ", "\t "]) + "\n"
            if d.bool(0.2):
                out += d.choice(["\n", "# comment\n"])
        f.text = out
        ctx.file(f.name, out)
    ctx.sut().write("sub/placeholder", "")
    if not glob:
        import os
        p = os.path.join(scratch, "global-boxes-conf")
        if os.path.exists(p):
            os.unlink(p)
        ctx.sut()._written.pop("global-boxes-conf", None)
    return files, glob


def order(files):
    """The files in the order of their precedence"""
    first = files[0]
    known, queue = [], [first]
    i = 0
    while i < len(queue):
        uniq = []
        for p in queue[i].parents:
            if p not in uniq:
                uniq.append(p)
        for p in reversed(uniq):
            if p not in known:
                known.append(p)
                queue.append(p)
        i += 1
    return known, queue


def merged(queue):
    """The designs that are in effect: [design], their aliases as they are in effect"""
    out = []
    for f in queue:
        new = []
        for g in f.designs:
            taken = {a.lower() for x, al in out for a in al}
            al = [a for a in g.aliases if a.lower() not in taken]
            if g.name.lower() not in {x.name.lower() for x, _ in out}:
                new.append((g, al))
        out += new
    return out


def show(files):
    return [("file " + f.path, f.text) for f in files]


def body(out):
    """Listing without its heading"""
    i = out.find(b"\n\n")
    j = out.find(b"Configuration Files:\n")
    if j >= 0:
        i = out.find(b"\n\n", j)
    return out[i:].lstrip(b"\n")


def inherit(d, ctx):
    files, glob = family(d, ctx)
    known, queue = order(files)
    eff = merged(queue)
    text = G.text(d, 1, maxlines=3)
    a = ["-f", files[0].path]
    d.key = "\0".join(f.text for f in files)
    d.sample = {"files": {f.path: f.text[:200] for f in files}, "order": [f.path for f in queue]}
    d.nontrivial = len(eff) > 0 and len(queue) > 1 and any(f.designs for f in queue[1:])
    d.label("%d files" % len(set(queue)))
    pics = show(files) + [("order", [f.path for f in queue])]
    want_msgs = sorted("boxes: %s: line %d: parent config file not found: %s" % (
        f.path if f is not glob else "global-boxes-conf", l, x) for f in queue for l, x in f.bad)
    first = {}
    for f in queue:
        for g in f.designs:
            for n in [g.name] + g.aliases:
                first.setdefault(n.lower(), g)
    runs = [["-l"], ["-q", "(all)"], []] + [["-d", d.choice([n, n.upper(), n.lower()])] for g, al in eff for n in [g.name] + al
                                            if first[n.lower()] is g]
    res = [ctx.run(a + x, text) for x in runs]
    if not eff:
        for x, r in zip(runs, res):
            if r.code != 1 or r.out or b"no valid" not in r.err:
                C.fail("%r without any design: exit code %d, output %r, message %r" % (x, r.code, r.out, r.err), *pics)
        return
    # one file with the same designs
    keep = [g.aliases for g, _ in eff]
    for g, al in eff:
        g.aliases = al
    one = "".join(G.config(g) for g, _ in eff)
    for (g, _), k in zip(eff, keep):
        g.aliases = k
    cfg = ctx.file("merged.cfg", one)
    for x, r in zip(runs, res):
        c = C.ok(ctx.run(["-f", cfg] + x, text), x)
        if r.code != 0:
            C.fail("%r: exit code %d, message %r" % (x, r.code, r.err), *pics)
        want, got = (c.out, r.out) if x != ["-l"] else (body(c.out), body(r.out))
        if want != got:
            C.fail("%r: not the same as a single file with the designs in effect" % x, *pics, ("single file", one),
                   ("with the single file", want), ("with the parents", got))
        msgs = sorted(l for l in r.err.decode("utf-8", "replace").split("\n") if l)
        if x == ["-l"] and sorted(set(msgs)) != sorted(set(want_msgs)):
            C.fail("missing parents: messages %r instead of %r" % (msgs, want_msgs), *pics)
        if not want_msgs and msgs:
            C.fail("%r: unexpected messages %r" % (x, msgs), *pics)
    # heading
    head = C.decode(res[0].out)
    n = len(eff)
    title = "%d Available Style%s" % (n, "" if n == 1 else "s") + (":" if known else " in \"%s\":" % files[0].path)
    if head.split("\n")[:3] != [title, "-" * M.width(title), ""]:
        C.fail("the listing should begin with %r, underlined" % title, *pics, ("listing", head))
    if known:
        names = ["    - %s" % files[0].path] + ["    - %s (parent)" % (f.path if f is not glob else "global-boxes-conf") for f in known]
        i = head.find("Configuration Files:\n")
        got = head[i:].split("\n")[1:1 + len(names) + 1]
        if i < 0 or got != names + [""]:
            C.fail("the listing should name these files, in this order: %r" % names, *pics, ("listing", head))
    elif "Configuration Files" in head:
        C.fail("files named although there are no parents", *pics, ("listing", head))
    # and without naming the design, removal finds designs of parents
    g = d.choice(eff)[0]
    box = ctx.run(a + ["-d", g.name], text)
    r1 = ctx.run(a + ["-r"], box.out)
    r2 = ctx.run(["-f", cfg, "-r"], box.out)
    if (r1.code, r1.out) != (r2.code, r2.out):
        C.fail("removal without -d differs from that with a single file", *pics, ("box", box.out), ("single file", one),
               ("with the single file", r2.out + r2.err), ("with the parents", r1.out + r1.err))


def clashes(d, ctx):
    """A name stands for the design of the file that comes first, be it its name or its alias"""
    files, glob = family(d, ctx, clash=True, missing=False)
    known, queue = order(files)
    text = G.word(d, 0) + "\n"
    a = ["-f", files[0].path]
    d.key = "\0".join(f.text for f in files)
    d.sample = {"files": {f.path: f.text[:200] for f in files}, "order": [f.path for f in queue]}
    first, where = {}, {}
    for f in queue:
        for g in f.designs:
            for n in [g.name] + g.aliases:
                first.setdefault(n.lower(), g)
                where.setdefault(n.lower(), set()).add(f)
    for n, g in sorted(first.items()):
        d.nontrivial = d.nontrivial or len(where[n]) > 1
        r = C.ok(ctx.run(a + ["-d", n], text), a + ["-d", n])
        cfg = ctx.file("single.cfg", G.config(g))
        c = C.ok(ctx.run(["-f", cfg], text))
        if r.out != c.out:
            C.fail("-d %s: not the design of the first file" % n, *(show(files) + [("order", [f.path for f in queue]),
                   ("wanted", c.out), ("got", r.out)]))
    r = ctx.run(a + ["-d", "nobody"], text)
    if r.code != 1 or r.out or b"unknown box design -- nobody" not in r.err:
        C.fail("-d nobody: exit code %d, output %r, message %r" % (r.code, r.out, r.err), *show(files))


PARTS = [
    pbt.Part("inherit", inherit, 2500, 60000, "there are designs, and files other than the first one contribute some"),
    pbt.Part("clashes", clashes, 2500, 50000, "some name occurs in several files"),
]
ASSUMPTIONS = ["relative parent paths refer to the working directory", "the parents of one file are read from the last to the first, "
               "and before their own parents (as documented by the existing tests)"]
