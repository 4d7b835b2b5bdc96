"""C02: the outline is made of exactly the design's shapes."""
import common as C
import gen as G
import model as M
import pbt


def outline(c):
    """None, or what is wrong with the outline of a drawing"""
    exp = [C.box_only(r) for r in c.p.rows]
    got = [C.box_only(r) for r in c.rows]
    if c.o.tabexp != "e":
        exp = [M.expand(r, c.o.tabstop) for r in exp]
        got = [M.expand(r, c.o.tabstop) for r in got]
    if exp == got:
        return None
    if C.outline_candidates(c) is None:
        return "the outline is not made of the design's shapes"
    return None


def random_design(d):
    """Emphasis on complicated sides"""
    k = d.weighted([(4, "multi"), (2, "any"), (2, "blank"), (1, "plain"), (2, "big")])
    al = C.alpha(d)
    if k == "multi":
        return G.design(d, any_sizes=0.2, alpha=al, multi=1.0, open_p=0.15, maxw=4, maxh=3)
    if k == "blank":
        return G.design(d, any_sizes=0.2, alpha=al, blanks=0.6, blank_shape_p=0.4, maxh=3)
    if k == "plain":
        return G.design(d, any_sizes=0.2, alpha=al, multi=0, open_p=0, blanks=0)
    if k == "big":
        return G.design(d, any_sizes=0.2, alpha=al, multi=0.5, open_p=0.2, maxw=7, maxh=6)
    return G.design(d, any_sizes=0.2, alpha=al)


def draw(d, ctx):
    g = random_design(d)
    o, args, tabs = C.gen_options(d, align=0.3, tabs=0.1)
    text = C.gen_text(d, tabs, big=False) if d.bool(0.8) else "\n" * d.int(1, 3)
    c = C.Drawn(g, o, args, text).run(ctx)
    d.nontrivial = True
    d.key = (repr(g.given), repr(g.elastic), len(c.rows), max(map(len, c.rows), default=0))
    d.sample = {"shapes": g.given, "elastic": g.elastic_given, "output": "\n".join(c.rows)[:500]}
    for side, n in zip(M.SIDES, ("top", "right", "bottom", "left")):
        if all(x not in g.given for x in side[1:4]):
            d.label("side left out: " + n)
        elif g.empty_side(M.SIDES.index(side)):
            d.label("side blank: " + n)
        if len([x for x in side[1:4] if x in g.elastic]) > 1:
            d.label("two elastic shapes in the " + n)
    bad = outline(c)
    if bad:
        C.fail(bad, *c.pics())


def empty_text(d, ctx):
    """Sizes forced by -s around next to no text: any length of the sides"""
    g = random_design(d)
    o, args = M.Opts(), []
    G.opt_size(d, o, args, 120, 60)
    text = d.choice(["\n", "a\n", "", "  \n\n"])
    c = C.Drawn(g, o, args, text).run(ctx)
    d.nontrivial = bool(c.rows)
    d.key = (repr(g.given), repr(g.elastic), len(c.rows), max(map(len, c.rows), default=0))
    d.sample = {"shapes": g.given, "elastic": g.elastic_given, "options": args, "output": "\n".join(c.rows)[:500]}
    bad = outline(c)
    if bad:
        C.fail(bad, *c.pics())


PARTS = [
    pbt.Part("draw", draw, 9000, 500000, "a box was drawn (distinct shapes, elastic shapes and size)"),
    pbt.Part("size", empty_text, 4000, 200000, "a box was drawn (distinct shapes, elastic shapes and size)"),
]
ASSUMPTIONS = ["designs whose opposite sides can be made equally long",
               "how two elastic shapes of one side share the room is left open"]
