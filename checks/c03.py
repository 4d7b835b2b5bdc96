"""C03: the size of the box."""
import common as C
import gen as G
import model as M
import pbt


def size_of(rows, o):
    rows = [C.box_only(M.expand(r, o.tabstop)) for r in rows]
    return len(rows), max([M.width(r) for r in rows], default=0), [M.width(r) for r in rows]


def check(c):
    eh, ew, ews = size_of(c.p.rows, c.o)
    gh, gw, gws = size_of(c.rows, c.o)
    if eh != gh:
        C.fail("the box should be %d rows high, but is %d" % (eh, gh), *c.pics())
    if ew != gw:
        C.fail("the box should be %d columns wide, but is %d" % (ew, gw), *c.pics())
    if ews != gws and C.box_only("".join(c.p.rows)) != C.box_only("".join(c.rows)) \
            and not C.outline_candidates(c):
        C.fail("the rows of the box should be of the widths %r, but are of %r" % (ews, gws), *c.pics())


def solid(d):
    """Designs with visible sides"""
    k = d.weighted([(3, "full"), (2, "open"), (1, "any"), (2, "long")])
    al = C.alpha(d)
    if k == "full":
        return G.design(d, any_sizes=0.2, alpha=al, open_p=0, blanks=0, blank_shape_p=0, multi=0.4)
    if k == "open":
        return G.design(d, any_sizes=0.2, alpha=al, open_p=0.4, blanks=0, blank_shape_p=0.05, multi=0.4)
    if k == "long":
        return G.design(d, any_sizes=0.2, alpha=al, open_p=0.1, blanks=0, blank_shape_p=0, multi=0.9, maxw=5, maxh=4)
    return G.design(d, any_sizes=0.2, alpha=al, maxw=4, maxh=3)


def fit(d, ctx):
    g = solid(d)
    o, args, tabs = C.gen_options(d, align=0.3, size=0, padding=0.5, tabs=0.15)
    text = C.gen_text(d, tabs, big=d.bool(0.3))
    c = C.Drawn(g, o, args, text).run(ctx)
    d.nontrivial = True
    d.key = (repr(g.given), repr(g.elastic), len(c.rows), c.p.innerw)
    d.sample = {"shapes": g.given, "options": args, "output": "\n".join(c.rows)[:500]}
    check(c)


def requested(d, ctx):
    g = solid(d)
    o, args, tabs = C.gen_options(d, align=0.3, size=0, padding=0.45, tabs=0.1)
    text = C.gen_text(d, tabs, big=False)
    # around the size of the text, where padding and size compete, or anything
    p = M.draw(g, o, text)
    k = d.weighted([(3, "near"), (1, "any")])
    if k == "near":
        w = max(1, p.maxline + g.w("NW") + g.w("NE") + d.int(-6, 16))
        h = max(1, len(p.lines) + g.h("NW") + g.h("SW") + d.int(-4, 10))
    else:
        w, h = d.small(1, 400, 60), d.small(1, 150, 20)
        if d.bool(0.1):
            w, h = d.int(400, 3000), d.small(1, 1500, 20)
    which = d.choice(["both", "w", "h"])
    if which != "h":
        o.reqwidth = w
    if which != "w":
        o.reqheight = h
    args = args + [d.choice(["-s", "--size"]), {"both": "%dx%d" % (w, h), "w": str(w), "h": "x%d" % h}[which]]
    c = C.Drawn(g, o, args, text).run(ctx)
    d.nontrivial = True
    d.key = (repr(g.given), repr(g.elastic), which, w, h, len(c.p.lines), c.p.maxline)
    d.sample = {"shapes": g.given, "options": args, "text": text[:200], "output": "\n".join(c.rows)[:500]}
    small = (o.reqwidth and o.reqwidth < c.p.maxline + g.w("NW") + g.w("NE") + sum(c.p.pad[1::2])) or \
        (o.reqheight and o.reqheight < len(c.p.lines) + g.h("NW") + g.h("SW") + sum(c.p.pad[0::2]))
    d.label("request smaller than needed" if small else "request large enough")
    check(c)
    # direct: full designs of 1-column elastic shapes get exactly what was asked for, if text and shapes fit
    if not any(g.empty_side(i) for i in range(4)):
        # (blanks at the right edge cannot be seen)
        edge = not any(l.endswith(" ") for s in M.EAST for l in g.shapes.get(s, []))
        if edge and o.reqwidth and all(g.w(s) == 1 for s in g.elastic if s in M.NORTH + M.SOUTH):
            least = max(g.minwidth(), c.p.maxline + g.w("NW") + g.w("NE"))
            if size_of(c.rows, o)[1] - (c.p.indent if c.p.mode == "b" else 0) != max(least, o.reqwidth):
                C.fail("width %d asked for, at least %d needed" % (o.reqwidth, least), *c.pics())
        if o.reqheight and all(g.h(s) == 1 for s in g.elastic if s in M.EAST + M.WEST):
            least = max(g.minheight(), len(c.p.lines) + g.h("NW") + g.h("SW"))
            if len(c.rows) != max(least, o.reqheight):
                C.fail("height %d asked for, at least %d needed" % (o.reqheight, least), *c.pics())


PARTS = [
    pbt.Part("fit", fit, 5000, 300000, "a box was drawn without -s (distinct shapes and size)"),
    pbt.Part("requested", requested, 8000, 500000, "a box was drawn with -s (distinct shapes, request, text size)"),
]
ASSUMPTIONS = ["designs whose opposite sides can be made equally long"]
