"""C07: tabs."""
import common as C
import gen as G
import model as M
import pbt


def tabbed_text(d, level):
    lines = []
    common = d.choice(["", "", "\t", "\t\t", "  \t", "    ", "\t  ", " \t\t", "\t" * 5])
    for _ in range(d.small(1, 8, 2.5)):
        z = d.weighted([(7, "text"), (1, "blank"), (1, "tab")])
        if z == "blank":
            lines.append("")
        elif z == "tab":
            lines.append("\t" * d.int(1, 2))
        else:
            l = common if d.bool(0.8) else " " * d.int(0, 9)
            l += d.choice(["", "", "\t", " ", " \t", "\t ", "\t\t", "   "])
            for i in range(d.int(1, 4)):
                if i:
                    l += d.choice(["\t", " ", "\t\t", " \t", "\t "])
                l += G.word(d, level, 1, 10)
            l += d.choice(["", "", "\t", " \t"])
            lines.append(l)
    return "\n".join(lines) + ("\n" if d.bool(0.9) else "")


def draw(d, ctx):
    g = G.design(d, alpha=C.alpha(d), open_p=0.3)
    stop = d.weighted([(4, 8), (3, 4), (2, 2), (2, 3), (1, 1), (1, 5), (1, 7), (1, 16), (1, 13)])
    level = d.choice([0, 1, 2])
    text = tabbed_text(d, level)
    o, args = M.Opts(), []
    if d.bool(0.25):
        G.opt_padding(d, o, args, 4)
    if d.bool(0.25):
        G.opt_align(d, o, args)
    if d.bool(0.2):
        G.opt_size(d, o, args)
    if d.bool(0.4):
        G.opt_indent(d, o, args)
    o.tabstop = stop
    plain, final_nl = M.split_input(text)
    expanded = "\n".join(M.expand(l, stop) for l in plain) + ("\n" if text.endswith("\n") else "")
    res = {}
    for e in "eku":
        oo = M.Opts(**dict(o.__dict__))
        oo.tabexp = e
        sfx = "%d%s" % (stop, e if (e != "e" or d.bool()) else "")
        how = d.choice([["-t", sfx], ["-t" + sfx], ["--tabs", sfx], ["--tabs=" + sfx]])
        if stop == 8 and e == "e" and d.bool():
            how = []
        res[e] = C.Drawn(g, oo, args + how, text).run(ctx)
    pre = C.Drawn(g, o, args + ["-t", "8e"], expanded).run(ctx)
    d.nontrivial = "\t" in text
    d.key = (text, stop, tuple(args), repr(g.given))
    d.label("tab stop %d" % stop)
    d.sample = {"text": text[:200], "options": args, "stop": stop, "k": "\n".join(res["k"].rows)[:300]}
    pics = (("input", text), ("options", repr((stop, args))), ("design", G.config(g)), ("expanded before", pre.rows)) + \
        tuple((e, res[e].rows) for e in "eku")
    if not M.same_rows(pre.rows, res["e"].rows):
        C.fail("expanding the tabs before gives a different box", *pics)
    for e in "ku":
        if not M.same_rows(res["e"].rows, [M.expand(r, stop) for r in res[e].rows]):
            C.fail("with %s, the box is not at the same columns" % e, *pics)
    if any("\t" in r for r in res["e"].rows):
        C.fail("tabs in the output of mode e", *pics)
    # the white space in front of each row
    box = res["e"].p
    if not res["e"].rows:
        return
    if box.mode == "b":
        n = M.rows_of("\n".join(res["e"].rows))[0]
        common = min((len(r) - len(r.lstrip(" ")) for r in n if r.strip(" ")), default=0)
        if box.indent <= common:
            for e in "ku":
                for exp, got in zip(res[e].p.rows, res[e].rows):
                    if M.is_blank(got):
                        continue
                    want = exp[:len(exp) - len(exp.lstrip(" \t"))]
                    have = got[:len(got) - len(got.lstrip(" \t"))]
                    if M.width(M.expand(want, stop)) == M.width(M.expand(have, stop)) and want != have:
                        C.fail("with %s, the indentation should be written as %r, but is %r" % (e, want, have), *pics)
    for e in "ku":
        for r in res[e].rows:
            if "\t" in r.lstrip(" \t"):
                C.fail("tab inside a row", *pics)


def rows_src(d, ctx):
    """Plain box with few options: rows are put exactly next to their input lines."""
    shape = d.choice([
        M.Design("t", {"W": ["|"], "E": ["|"]}, ["W", "E"]),
        M.Design("t", {n: ["+"] for n in ("NW", "N", "NE", "E", "SE", "S", "SW", "W")}, ["N", "E", "S", "W"]),
        M.Design("t", {"W": ["#"]}, ["W"]),
        M.Design("t", {"N": ["=="], "S": ["=", "-"]}, ["N", "S"])])
    stop = d.choice([8, 4, 2, 3])
    text = tabbed_text(d, 0)
    e = d.choice("ku")
    o = M.Opts(tabstop=stop, tabexp=e)
    c = C.Drawn(shape, o, ["-t", "%d%s" % (stop, e)], text).run(ctx)
    d.nontrivial = "\t" in text and c.p.rows and c.p.indent > 0
    d.key = (text, stop, e, shape.name, repr(shape.given))
    d.sample = {"text": text[:200], "output": "\n".join(c.rows)[:300]}
    if not c.exact():
        C.fail("indentation differs", *c.pics())


def unexpand(s, stop):
    n = len(s) - len(s.lstrip(" "))
    return "\t" * (n // stop) + " " * (n % stop) + s[n:]


def removed(d, ctx):
    """Removing and mending a box whose rows begin with tabs."""
    g = G.design(d, alpha=C.alpha(d), open_p=0.2)
    g.indent = d.choice(["box", "box", "none", None])
    stop = d.weighted([(4, 8), (3, 4), (2, 2), (2, 3), (1, 5), (1, 7), (1, 16)])
    lead = d.choice(["\t", "\t\t", "  \t", "    ", "\t  ", " \t\t", "\t" * 5, "", " \t \t "])
    lines = []
    for _ in range(d.small(1, 7, 2.5)):
        own = d.choice(["", "", " ", "  ", "      "]) if lines else ""
        lines.append(lead + own + " ".join(G.word(d, d.int(0, 1), 1, 8) for _ in range(d.int(1, 3))))
    text = "\n".join(lines) + "\n"
    cfg = ctx.file("c.cfg", G.config(g))
    m = d.choice("eku")
    box = C.ok(ctx.run(["-f", cfg, "-t", "%d%s" % (stop, m)], text))
    box = C.decode(box.out)
    pic = (("input", text), ("options", "-t %d%s" % (stop, m)), ("design", G.config(g)), ("box", box))
    res = {}
    for e in "eku":
        r = C.ok(ctx.run(["-f", cfg, "-d", g.name, "-r", "-t", "%d%s" % (stop, e)], box))
        res[e] = C.decode(r.out)
    d.nontrivial = "\t" in box
    d.key = (text, stop, m, repr(g.given))
    d.sample = {"text": text[:150], "box": box[:300], "removed": res["k"][:150]}
    pic += tuple(("removed, " + e, res[e]) for e in "eku")
    if "\t" in res["e"]:
        C.fail("tabs in the output of mode e", *pic)
    e = res["e"].split("\n")
    for k in "ku":
        got = res[k].split("\n")
        if [M.expand(x, stop).rstrip(" ") for x in got] != [x.rstrip(" ") for x in e]:
            C.fail("removing with %s gives other columns" % k, *pic)
    for x, y in zip(res["u"].split("\n"), e):
        if x.strip() and x != unexpand(y, stop):
            C.fail("with u, the indentation should be all tabs: %r, not %r" % (unexpand(y, stop), x), *pic)
    if m == "k" and g.indent in ("box", None) and [x.rstrip() for x in e] == [M.expand(x, stop).rstrip() for x in text.split("\n")]:
        d.label("round trip")
        if [x.rstrip() for x in res["k"].split("\n")] != [x.rstrip() for x in text.split("\n")]:
            C.fail("with k, the tabs of the box's indentation are not those of the text", *pic)
    again = {}
    for k in "eku":
        r = C.ok(ctx.run(["-f", cfg, "-d", g.name, "-m", "-t", "%d%s" % (stop, k)], box))
        again[k] = C.decode(r.out)
    pic += tuple(("mended, " + k, again[k]) for k in "eku")
    e = again["e"].split("\n")
    for k in "ku":
        if [M.expand(x, stop) for x in again[k].split("\n")] != e:
            C.fail("mending with %s gives other columns" % k, *pic)
    if "\t" in again["e"]:
        C.fail("tabs in the output of mode e", *pic)


PARTS = [
    pbt.Part("draw", draw, 4500, 250000, "the text contains tabs (distinct text, tab stop, options, shapes)"),
    pbt.Part("restore", rows_src, 6000, 300000, "the indentation contains tabs (distinct text, mode, shapes)"),
    pbt.Part("remove", removed, 3000, 100000, "the box's rows begin with tabs (distinct text, distance, mode, shapes)"),
]
ASSUMPTIONS = ["tab stops count characters (as in the program and its documentation), not columns"]
