"""C06: indent modes."""
import common as C
import gen as G
import model as M
import pbt

FULL = {"b": "box", "t": "text", "n": "none"}


def indented_text(d, level, tabs, o):
    """Text with a common indentation (mostly); lines with less columns than that only if blank"""
    k = d.weighted([(6, "common"), (2, "any"), (1, "none")])
    if k == "any":
        return C.gen_text(d, tabs, level, big=False)
    ind = 0 if k == "none" else d.small(1, 40, 5) if not d.bool(0.04) else d.int(41, 300)
    lines = []
    n = d.small(1, 8, 2) if not d.bool(0.05) else d.int(9, 150)
    # now and then, only one line has as little indentation as that
    least = d.int(0, n - 1) if n > 8 and d.bool(0.6) else None
    for i in range(n):
        if i == least:
            lines.append(" " * ind + G.word(d, level))
            continue
        z = d.weighted([(6, "text"), (1, "blank"), (1, "short")])
        if z == "blank":
            lines.append("")
        elif z == "short":
            lines.append(" " * d.int(0, ind))
        else:
            l = " " * ind + (" " * d.small(1, 6, 1) if least is not None or d.bool(0.4) else "") + G.word(d, level)
            if d.bool(0.4):
                l += " " * d.int(1, 3) + G.word(d, level)
            if tabs and ind >= o.tabstop and d.bool(0.6):
                # some of the indentation as tabs
                n = d.int(1, ind // o.tabstop)
                l = "\t" * n + l[n * o.tabstop:]
            lines.append(l)
    return "\n".join(lines) + ("\n" if d.bool(0.9) else "")


def inside(c, want_lead):
    """text lines inside the box at the right columns? (default alignment)"""
    m = C.measure(c)
    if m is None:
        return "box and text cannot be told apart"
    for k, x, y in m[2]:
        if x != c.p.pad[3] + want_lead[k]:
            return "line %d should begin at column %d inside the box, but is at %d" % (k, c.p.pad[3] + want_lead[k], x)
    return None


def modes(d, ctx):
    g = G.design(d, alpha=C.alpha(d), indent=False, open_p=0.25)
    o, args = M.Opts(), []
    if d.bool(0.3):
        G.opt_padding(d, o, args, 4)
    if d.bool(0.25):
        G.opt_size(d, o, args)
    tabs = d.bool(0.35)
    if tabs:
        G.opt_tabs(d, o, args)
    text = indented_text(d, d.choice([0, 1, 2]), tabs, o)
    lines = M.read_input(text, o)[1]
    leads = [M.leading(l) for l in lines if l != ""]
    indent = min(leads, default=0)
    d.nontrivial = indent > 0
    d.key = (text, tuple(args), repr(g.given))
    res = {}
    for mode in "nbt":
        how = d.choice(["option", "design", "both"]) if mode != "b" else d.choice(["option", "design", "both", "default"])
        oo = M.Opts(**dict(o.__dict__))
        oo.indent = mode
        g.indent = None
        a = list(args)
        if how in ("option", "both"):
            v = FULL[mode]
            v = v[:d.int(1, len(v))]
            a += d.choice([["-i", v], ["-i" + v], ["--indent", v], ["--indent=" + v]])
        if how == "design":
            g.indent = FULL[mode]
        elif how == "both":
            g.indent = d.choice(["box", "text", "none"])
        d.label("mode %s by %s" % (FULL[mode], how))
        res[mode] = C.Drawn(g, oo, a, text).run(ctx, name="c%s.cfg" % mode)
        res[mode].cfg = g.indent
    n, b, t = res["n"], res["b"], res["t"]
    d.sample = {"text": text[:200], "options": args, "none": "\n".join(n.rows)[:300], "box": "\n".join(b.rows)[:300],
                "text mode": "\n".join(t.rows)[:300]}
    pics = (("input", text), ("options", repr(args)), ("design", G.config(g)), ("none", n.rows), ("box", b.rows),
            ("text", t.rows))
    exp = [" " * indent + r if not M.is_blank(r) else r for r in n.rows]
    if not M.same_rows(exp, b.untabbed()):
        C.fail("mode box should be mode none plus %d columns in front of each row" % indent, *pics)
    if indent == 0 and (not M.same_rows(n.rows, b.rows) or not M.same_rows(n.rows, t.rows)):
        C.fail("without indentation, all modes should give the same box", *pics)
    full = {k: C.lead(l) for k, l in enumerate(lines) if C.norm(l)}
    if not n.exact():
        cut = {k: v - indent for k, v in full.items()}
        bad = inside(n, cut)
        if bad:
            C.fail("mode none: " + bad, *n.pics())
    if not t.exact():
        bad = inside(t, full)
        if bad:
            C.fail("mode text: " + bad, *t.pics())


PARTS = [
    pbt.Part("modes", modes, 6000, 300000, "the text has a common indentation (distinct text, options, shapes)"),
]
ASSUMPTIONS = ["designs whose opposite sides can be made equally long"]
