"""C21: listing of the designs, and of the details of one."""
import common as C
import gen as G
import model as M
import notation as N
import pbt

NAMES = N.NAMES + ["des%d" % i for i in range(40)] + ["a", "B", "b1", "c_box", "cbox", "Alphabet", "ALPHA-2", "zz", "z_", "design-with-a-very-long-name-" + "x" * 40]
TAGS = ["alpha", "beta", "c-d", "x1", "long-tag-name", "zeta", "a", "ab", "tag-1", "tag-2",
        "long-tag-names", "a-tag-with-a-really-long-name-of-many-characters-1", "a-tag-with-a-really-long-name-of-many-characters-2"]


def full(d, name):
    al = d.choice([G.Alpha(), G.Alpha(extra="\"'\\#$%{}()"), G.Alpha(G.BOXNARROW, G.BOXWIDE), G.Alpha("\"\\'", "")])
    g = N.decorate(d, G.design(d, name=name, alpha=al), tags=d.choice([TAGS, TAGS[:3], TAGS[5:], TAGS[10:] + TAGS[4:5]]))
    if d.bool(0.2):
        g.author = g.designer = N.person(d)
        if d.bool() and g.author:
            g.author = g.author[::-1].strip() or "x"      # as long, and often another
            g.designer = g.designer.strip() or "y"
    if d.bool(0.2):
        lines = g.sample.split("\n")
        lines[0] = "  " + lines[0]
        i = d.int(0, len(lines) - 1)
        lines.insert(i + 1, d.choice(["", "   ", "\tx", "x  "]) if i + 1 < len(lines) else "end")
        g.sample = "\n".join(lines)
    return g


def expected_list(gs, path):
    n = len(gs)
    head = "%d Available Style%s in \"%s\":" % (n, "" if n == 1 else "s", path)
    out = [head, "-" * M.width(head), ""]
    for g in sorted(gs, key=lambda g: g.name.lower()):
        names = g.name + (" alias " + ", ".join(g.aliases) if g.aliases else "")
        if g.author is not None and g.designer is not None and g.author != g.designer:
            out += [names, "%s, coded by %s:" % (g.designer, g.author)]
        elif g.designer is not None:
            out += [names, g.designer + ":"]
        elif g.author is not None:
            out += [names, "unknown artist, coded by %s:" % g.author]
        else:
            out += [names + ":"]
        out += [""] + g.sample.split("\n") + ["", ""]
    count = {}
    for g in gs:
        for t in g.tags:
            count[t] = count.get(t, 0) + 1
    if count:
        out.append(" | ".join("%s (%d)" % (t, count[t]) for t in sorted(count)))
    return "\n".join(out) + "\n"


def esc(s):
    return s.replace("\\", "\\\\").replace('"', '\\"')


def expected_details(g, path):
    out = ["Complete Design Information for \"%s\":" % g.name]
    out.append("-" * len(out[0]))

    def item(k, v):
        out.append("%-24s%s" % (k + ":", v))

    def rules(k, rs, word):
        if not rs:
            item(k, "none")
        for i, (mode, a, b) in enumerate(rs):
            v = "%d. (%s) \"%s\" %s \"%s\"" % (i + 1, "once" if mode == "once" else "glob", a, word, b)
            if i == 0:
                item(k, v)
            else:
                out.append(" " * 24 + v)
    item("Alias Names", ", ".join(g.aliases) or "none")
    item("Author", g.author if g.author is not None else "(unknown author)")
    item("Original Designer", g.designer if g.designer is not None else "(unknown artist)")
    item("Configuration File", path)
    item("Indentation Mode", {"box": "box (indent box)", "text": "text (retain indentation inside of box)",
                              "none": "none (discard indentation)"}[g.indent or "box"])
    rules("Replacement Rules", g.replace, "WITH")
    rules("Reversion Rules", g.reverse, "TO")
    mw = max(sum(g.w(n) for n in M.SIDES[s] if n in g.shapes) for s in (M.TOP, M.BOTTOM))
    mh = max(sum(g.h(n) for n in M.SIDES[s] if n in g.shapes) for s in (M.LEFT, M.RIGHT))
    item("Minimum Box Dimensions", "%d x %d  (width x height)" % (mw, mh))
    t, r, b, l = g.padding
    item("Default Padding", ", ".join("%s %d" % x for x in (("left", l), ("top", t), ("right", r), ("bottom", b)) if x[1]) or "none")
    item("Default Killblank", "no" if g.empty_side(M.TOP) and g.empty_side(M.BOTTOM) else "yes")
    item("Tags", ", ".join(g.tags) or "none")
    item("Elastic Shapes", ", ".join(n for n in M.ALL if n in g.elastic))
    first = True
    for n in M.ALL:
        if n not in g.shapes or all(M.is_blank(x) for x in g.shapes[n]):
            continue
        v = g.shapes[n]
        for i, x in enumerate(v):
            out.append("%-24s%3s%s \"%s\"%s" % ("Defined Shapes:" if first and i == 0 else "", n if i == 0 else "",
                                                ":" if i == 0 else " ", esc(x), "," if i < len(v) - 1 else " "))
        first = False
    return "\n".join(out) + "\n"


def some_designs(d, n):
    pool = d.shuffled(NAMES)
    low, gs = set(), []
    for p in pool:
        if len(gs) == n:
            break
        if p.lower() in low:
            continue
        low.add(p.lower())
        g = full(d, p)
        for _ in range(d.small(0, 3, 0.6) if not d.bool(0.03) else d.int(4, 16)):
            a = d.choice(["al", "Other", "x-", "y_y", "a1b2"]) + str(d.int(1, 99))
            a = a.replace("-", "") if a.endswith("-") else a
            if a.lower() not in low:
                low.add(a.lower())
                g.aliases.append(a)
        gs.append(g)
    return gs


def file_name(d):
    return d.weighted([(6, "c.cfg"), (1, "漢字.cfg"), (1, "ü ö"), (1, "a b.c"), (1, "x" * d.int(30, 200)), (1, "e\u0301 %s %d")])


def listing(d, ctx):
    gs = some_designs(d, d.weighted([(2, 1), (3, 2), (3, 4), (1, 9), (0.5, d.int(10, 16)), (0.1, 45)]))
    cfg = ctx.file(file_name(d), N.write(d, gs, eol="\n"))
    args = ["-f", cfg, d.choice(["-l", "--list"])]
    if d.bool(0.2):
        args += d.choice([["-s", "20x5"], ["-a", "c"], ["-p", "a3"], ["-i", "none"], ["-k", "true"], ["-r"], ["-t", "4"]])
    want, got = expected_list(gs, cfg), C.decode(C.ok(ctx.run(args), args).out)
    d.nontrivial = len(gs) > 1
    d.key = want
    d.sample = {"listing": want[:500]}
    d.label("%d designs" % len(gs))
    if want != got:
        C.fail("wrong listing", ("wanted", want), ("got", got))


def details(d, ctx):
    gs = some_designs(d, d.count(1, 4, 40, 0.02))
    cfg = ctx.file(file_name(d), N.write(d, gs, eol="\n"))
    g = d.choice(gs)
    n = d.choice([g.name] + g.aliases)
    args = ["-f", cfg, "-l", "-d", d.choice([n, n.upper(), n.lower()])]
    want, got = expected_details(g, cfg), C.decode(C.ok(ctx.run(args), args).out)
    d.nontrivial = True
    d.key = want
    d.sample = {"details": want[:500]}
    if want != got:
        C.fail("wrong details", ("design", G.config(g)), ("wanted", want), ("got", got))


PARTS = [
    pbt.Part("listing", listing, 8000, 60000, "more than one design"),
    pbt.Part("details", details, 13000, 100000, "all (distinct designs)"),
]
ASSUMPTIONS = ["names differ in more than their case"]
