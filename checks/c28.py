"""C28: which design is used."""
import common as C
import gen as G
import model as M
import notation as N
import pbt

POOL = ["alpha", "Beta", "c-box", "Delta", "x1", "Mixed-Case", "a", "A-b", "und_er", "zurich", "box1", "endless", "parent2", "design", "al",
        "alp", "alphabet", "beta2", "be", "x", "x11", "i", "ii", "samples", "SHAPE", "w", "NW"]


def recase(d, s):
    """ASCII letters in another case"""
    k = d.int(0, 4)
    if k == 0:
        return s
    f = [None, str.upper, str.lower, str.swapcase, None][k]
    return "".join((f(c) if f else (c.upper() if d.bool() else c.lower())) if c < "\x7f" else c for c in s)


def world(d, dup=0.0):
    """Designs which can be told apart: each has a west shape of its own"""
    names = d.shuffled(POOL)
    many = d.choice(["designs", "aliases"]) if d.bool(0.04) else ""
    if many:
        names = d.shuffled(POOL + ["name%d" % i for i in range(120)])
    gs, i, low = [], 0, set()
    for k in range(d.int(7, 30) if many == "designs" else d.int(1, 6)):
        n = names[i]
        i += 1
        g = M.Design(n, {"W": ["<%d>" % k], "N": [d.choice("-=~")]}, ["W", "N"])
        if d.bool(0.3):
            g.padding = [0, 0, 0, d.int(0, 3)]
        if d.bool(0.3):
            g.indent = d.choice(["text", "box", "none"])
        for _ in range(d.small(0, 3, 0.8) if many != "aliases" else d.int(3, 15)):
            g.aliases.append(names[i])
            i += 1
        gs.append(g)
    return gs


def broken(d, name):
    """A design that is rejected"""
    k = d.int(0, 4)
    if k == 0:
        return "BOX %s\nshapes { w (\"!\") }\nelastic (w)\nEND %s\n" % (name, name)
    if k == 1:
        return "BOX %s\nsample\nx\nends\nelastic (w)\nEND %s\n" % (name, name)
    if k == 2:
        return "BOX %s\nsample\nx\nends\nshapes { w (\"!\") }\nelastic (e)\nEND %s\n" % (name, name)
    if k == 3:
        return "BOX %s\nsample\nx\nends\nshapes { w (\"!\") }\nelastic (w)\nEND other-%s\n" % (name, name)
    return "BOX %s\nsample\nx\nends\nshapes { w (\"!\") nw (\"!!\") }\nelastic (w)\nEND %s\n" % (name, name)


def expect(ctx, g, args, text):
    cfg = ctx.file("alone.cfg", G.config(g))
    return C.ok(ctx.run(["-f", cfg, "-d", g.name] + args, text), args)


def operation(d, g):
    op = d.weighted([(4, "draw"), (2, "-r"), (2, "-m"), (1, "-l")])
    lines = [G.line(d, 1) for _ in range(d.int(1, 5))]
    if op in ("-r", "-m"):
        # a box of that design, roughly, and of others
        lines = [d.choice([g.shapes["W"][0], g.shapes["W"][0], "<0>", "<1>"]) + " " * d.int(0, 3) + l for l in lines]
    if not any(l.strip() for l in lines):
        lines[0] = "x"
    return ([] if op == "draw" else [op]), "\n".join(lines) + "\n"


def by_name(d, ctx):
    gs = world(d)
    cfg = ctx.file("c.cfg", N.write(d, gs) if d.bool(0.4) else "".join(G.config(g) for g in gs))
    g = d.choice(gs)
    name = d.choice([g.name] + g.aliases)
    args, text = operation(d, g)
    want = expect(ctx, g, args, text)
    if args == ["-l"]:
        want.out = want.out.replace(b"alone.cfg", b"c.cfg")
    nm = recase(d, name)
    argv = ["-f", cfg] + d.choice([["-d", nm], ["--design", nm], ["--design=" + nm], ["-d" + nm]]) + args
    r = C.ok(ctx.run(argv, text), argv)
    d.nontrivial = len(gs) > 1
    d.key = repr((nm, [(x.name, x.aliases) for x in gs], args))
    d.sample = {"designs": [(x.name, x.aliases) for x in gs], "asked for": nm, "operation": args}
    d.label("alias" if name != g.name else "primary name", args[0] if args else "draw")
    if r.out != want.out:
        C.fail("not the design %s for -d %r" % (g.name, nm), ("designs", repr([(x.name, x.aliases) for x in gs])), ("wanted", want.out), ("got", r.out))


def unknown(d, ctx):
    gs = world(d)
    cfg = ctx.file("c.cfg", "".join(G.config(g) for g in gs))
    have = [n for g in gs for n in [g.name] + g.aliases]
    k = d.choice(["other", "part", "longer", "shape", "empty"])
    n = d.choice(have)
    if k == "other":
        n = d.choice(POOL + ["nothing", "ß", "-", "*", ".*", "%s"])
    elif k == "part":
        n = n[:d.int(1, len(n))] if d.bool() else n[d.int(0, len(n) - 1):]
    elif k == "longer":
        n = d.choice([n + "x", "x" + n, n + " ", " " + n, n + ",", n + "\n", n + "," + n, n + "*"])
    elif k == "shape":
        n = d.choice(["<Command Line Definition>", "design", "default", "w", "sample", "0", "1"])
    else:
        n = ""
    if n.lower() in [x.lower() for x in have]:
        raise pbt.Discard()
    args, text = operation(d, gs[0])
    argv = ["-f", cfg, "-d", n] + args
    r = ctx.run(argv, text)
    d.nontrivial = True
    d.key = repr((n, have))
    d.sample = {"designs": have, "asked for": n, "message": r.err.decode("utf-8", "replace")}
    d.label(k)
    if r.code != 1 or r.out or b"design" not in r.err:
        C.fail("design %r is not there, but: exit code %d, output %r, message %r" % (n, r.code, r.out[:300], r.err), ("designs", repr(have)))


def default(d, ctx):
    """Without -d: the first valid one"""
    gs = world(d)
    s, nbad = "", 0
    parts = []
    for i, g in enumerate(gs):
        while d.bool(0.3):
            parts.append(broken(d, "broken%d" % nbad))
            nbad += 1
        parts.append(G.config(g))
    cfg = ctx.file("c.cfg", "".join(parts))
    text = "\n".join(G.line(d, 1) for _ in range(d.int(1, 5))) + "\nx\n"
    want = expect(ctx, gs[0], [], text)
    r = ctx.run(["-f", cfg], text)
    d.nontrivial = len(gs) > 1
    first_bad = not parts[0].startswith("BOX " + gs[0].name)
    d.key = repr(parts)
    d.sample = {"designs": [p.split("\n")[0] for p in parts], "used": gs[0].name}
    d.label("first ones rejected" if first_bad else "first one")
    if r.out != want.out:
        C.fail("not the first valid design", ("config", "".join(parts)), ("wanted", want.out), ("got", r.out), ("messages", r.err))
    if not first_bad and (r.code or r.err):
        C.fail("exit code %d and message %r although the first design is all right" % (r.code, r.err), ("config", "".join(parts)))


def duplicates(d, ctx):
    """A name that comes again does not replace the design which had it first"""
    gs = world(d)
    g = d.choice(gs)
    n = d.choice([g.name] + g.aliases)
    other = M.Design("intruder", {"W": ["<intruder>"]}, ["W"])
    if d.bool():
        other.name = recase(d, n)
    else:
        other.aliases = [recase(d, n)]
    i = gs.index(g)
    k = d.int(i + 1, len(gs))
    allg = gs[:k] + [other] + gs[k:]
    cfg = ctx.file("c.cfg", "".join(G.config(x) for x in allg))
    args, text = [], "some\n  text\n"
    h = d.choice(gs)
    name = d.choice([h.name] + h.aliases) if d.bool(0.4) else n
    owner = next(x for x in gs if name in [x.name] + x.aliases)
    want = expect(ctx, owner, args, text)
    r = ctx.run(["-f", cfg, "-d", recase(d, name)], text)
    d.nontrivial = True
    d.key = repr([(x.name, x.aliases) for x in allg]) + name
    d.sample = {"designs": [(x.name, x.aliases) for x in allg], "asked for": name}
    if r.out != want.out:
        C.fail("-d %s: not the design which had the name first" % name, ("designs", repr([(x.name, x.aliases) for x in allg])), ("wanted", want.out), ("got", r.out),
               ("messages", r.err))


PARTS = [
    pbt.Part("by name", by_name, 5000, 80000, "more than one design"),
    pbt.Part("unknown", unknown, 3000, 40000, "all"),
    pbt.Part("default", default, 3000, 40000, "more than one design"),
    pbt.Part("duplicates", duplicates, 3000, 40000, "all"),
]
ASSUMPTIONS = ["letter case of ASCII letters only"]
