"""C08: removing a box gives back its text."""
import common as C
import gen as G
import model as M
import pbt


def strip_blank(lines):
    lines = list(lines)
    while lines and not lines[0]:
        lines.pop(0)
    while lines and not lines[-1]:
        lines.pop()
    return lines


def original(text, o, mode):
    """What should come back: lines, tabs expanded, right-trimmed"""
    lines = [C.norm(l) for l in M.read_input(text, o)[1]]
    if mode == "n":
        raw = M.read_input(text, o)[1]
        ind = min([M.leading(l) for l in raw if l] or [0])
        lines = [l[ind:] for l in lines]
    return lines


def removable_design(d, **kw):
    k = d.weighted([(3, "any"), (2, "blanks"), (2, "multi"), (1, "wide")])
    al = C.alpha(d)
    for _ in range(4):
        if k == "blanks":
            g = G.design(d, alpha=al, blanks=0.35, blank_shape_p=0.1, **kw)
        elif k == "multi":
            g = G.design(d, alpha=al, multi=0.9, maxw=4, maxh=3, **kw)
        elif k == "wide":
            g = G.design(d, alpha=al, multi=0.3, maxw=9, maxh=5, **kw)
        else:
            g = G.design(d, alpha=al, **kw)
        if C.removable(g):
            return g
    return G.fallback("gen", al, [0, 0, 0, 0], None)


def moved(d, g, box, mode):
    """
    The box with blanks behind its rows (unless blanks may be its right side), blank lines around it, or moved to
    the right; how far it was moved
    """
    blank_right = not g.empty_side(M.RIGHT) and any(M.is_blank(l) for n in ("ENE", "E", "ESE") for l in g.shapes.get(n, []))
    rows = box.split("\n")
    end = rows.pop() if rows and rows[-1] == "" else None
    shift = 0
    if not blank_right and d.bool(0.5):
        rows = [r + " " * d.choice([0, 0, 1, 3, 9]) for r in rows]
    if mode == "b" and "\t" not in box and d.bool(0.5):
        shift = d.choice([1, 2, 4, 11])
        rows = [" " * shift + r if r.strip() else r for r in rows]
    if d.bool(0.3):
        rows = [""] * d.int(0, 2) + rows + [d.choice(["", " "])] * d.int(0, 2)
    return "\n".join(rows) + ("" if end is None else "\n"), shift


def there_and_back(d, ctx):
    g = removable_design(d)
    o, args = M.Opts(), []
    if d.bool(0.35):
        G.opt_indent(d, o, args)
    tabs = d.bool(0.25)
    if tabs:
        G.opt_tabs(d, o, args)
    text = C.gen_text(d, tabs, big=d.bool(0.15))
    dargs = []
    if d.bool(0.25):
        oo = M.Opts(**dict(o.__dict__))
        G.opt_size(d, oo, dargs)
        p = M.draw(g, oo, text)
        if p.rows and p.pad == g.padding:
            o = oo
        else:
            dargs = []
    c = C.Drawn(g, o, args + dargs, text).run(ctx)
    if C.too_long(c):
        raise C.Discard("long rows")
    mode = o.indent or g.mode()
    cfg = ctx.file("c.cfg", G.config(g))
    kill = d.choice([[], ["-k", "true"], ["-k", "false"]])
    rargs = ["-f", cfg, "-d", d.choice([g.name, g.name.upper()]), d.choice(["-r", "--remove"])] + args + kill
    box, shift = C.decode(c.r.out), 0
    if d.bool(0.3):
        box, shift = moved(d, g, box, mode)
    r = C.ok(ctx.run(rargs, box), rargs)
    rows, ended = C.rows_of(r)
    want = strip_blank([" " * shift + l if l else l for l in original(text, o, mode)])
    got = strip_blank([C.norm(M.expand(x, o.tabstop)) for x in rows])
    d.nontrivial = bool(want)
    d.key = (text, tuple(args + dargs), repr(g.given), repr(g.padding))
    d.sample = {"box": "\n".join(c.rows)[:300], "removed": "\n".join(rows)[:300]}
    d.label("left open" if g.empty_side(M.LEFT) else "left visible", "mode " + mode)
    if want != got:
        C.fail("removing the box does not give back the text", ("box", box.split("\n")), ("removed", rows), ("wanted", want),
               *c.pics()[:3])


def lookalike(d, ctx):
    """Text made of the same characters as the box: plain designs still give it back."""
    cs = d.choice(["+-|*/\\=#", "─│┌┐└┘├┤", "*"])
    al = G.Alpha(cs)
    g = G.design(d, alpha=al, multi=0, blanks=0, blank_shape_p=0, open_p=0.2, maxw=3)
    if not C.removable(g) or any(n not in g.given for n in M.CORNERS if not g.empty_side(M.LEFT)
                                 and not g.empty_side(M.RIGHT) and not g.empty_side(M.TOP)
                                 and not g.empty_side(M.BOTTOM)):
        g = G.fallback("gen", al, [0, 0, 0, 0], None)
    lines = ["".join(d.choice(cs + "ab  ") for _ in range(d.int(0, 14))) for _ in range(d.int(1, 6))]
    if any(g.empty_side(i) for i in range(4)):
        # open sides: text next to them must not look like the box
        lines = ["z" + l + "z" for l in lines]
    text = "\n".join(lines) + "\n"
    c = C.Drawn(g, M.Opts(), [], text).run(ctx)
    cfg = ctx.file("c.cfg", G.config(g))
    rargs = ["-f", cfg, "-d", "gen", "-r"]
    rows, _ = C.rows_of(C.ok(ctx.run(rargs, c.r.out), rargs))
    want = strip_blank(original(text, c.o, g.mode()))
    got = strip_blank([C.norm(x) for x in rows])
    d.nontrivial = bool(want)
    d.key = (text, repr(g.given), repr(g.padding))
    d.sample = {"box": "\n".join(c.rows)[:300], "removed": "\n".join(rows)[:300]}
    if want != got:
        C.fail("removing the box does not give back the text", ("box", c.rows), ("removed", rows), ("wanted", want),
               *c.pics()[:3])


PARTS = [
    pbt.Part("roundtrip", there_and_back, 7000, 400000, "the text is not blank (distinct text, options, design)"),
    pbt.Part("lookalike", lookalike, 4000, 200000, "the text is not blank (distinct text, design)"),
]
ASSUMPTIONS = ["left sides which are open, or visible in each row and beginning in the first column of some row"]
