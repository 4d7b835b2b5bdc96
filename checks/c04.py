"""C04: padding."""
import common as C
import gen as G
import model as M
import pbt


def distances(c):
    """(top, right, bottom, left) distances of the text block from the sides, or None"""
    m = C.measure(c)
    if m is None or not m[2]:
        return None
    W, H, pos = m
    lead = {k: C.lead(c.p.lines[k]) for k, _, _ in pos}
    k, x, y = pos[0]
    left, top = x - lead[k], y - k
    return top, W - left - c.p.maxline, H - top - len(c.p.lines), left


def padding(d, ctx):
    al = C.alpha(d)
    g = G.design(d, alpha=al, open_p=0.2, multi=0.3, blanks=0.05)
    o, args, tabs = C.gen_options(d, align=0, size=0, padding=0, tabs=0.1)
    if d.bool(0.85):
        for _ in range(d.weighted([(5, 1), (1, 2)])):
            G.opt_padding(d, o, args, d.choice([4, 12, 50]))
    # alignment without justification
    if d.bool(0.4):
        k, v = d.choice("lcr"), d.choice("tcb")
        o.halign, o.valign = k, v
        args += ["-a", "h%sv%s" % (k, v)]
    text = C.gen_text(d, tabs, big=False, nonblank=True)
    c = C.Drawn(g, o, args, text).run(ctx)
    pad = c.p.pad
    d.nontrivial = any(pad)
    d.key = (tuple(args), tuple(g.padding), repr(g.given), len(c.p.lines), c.p.maxline)
    d.sample = {"options": args, "design padding": g.padding, "output": "\n".join(c.rows)[:500]}
    dist = distances(c)
    if dist is None:
        if not c.exact():
            C.fail("box and text cannot be told apart in the output", *c.pics())
        return
    for i, n in enumerate(("top", "right", "bottom", "left")):
        if dist[i] < pad[i]:
            C.fail("%s padding should be %d, but there are only %d" % (n, pad[i], dist[i]), *c.pics())
    need_w = max(g.minwidth(), c.p.maxline + pad[1] + pad[3] + g.w("NW") + g.w("NE")) - g.w("NW") - g.w("NE")
    at = {"l": 3, "r": 1}.get(o.halign)
    if at is not None and dist[at] != pad[at]:
        C.fail("the text should be %d from the side it is at, but is %d" % (pad[at], dist[at]), *c.pics())
    at = {"t": 0, "b": 2}.get(o.valign)
    if at is not None and dist[at] != pad[at]:
        C.fail("the text should be %d from the side it is at, but is %d" % (pad[at], dist[at]), *c.pics())
    # no more room than the shapes need
    if all(g.w(s) == 1 for s in g.elastic if s in M.NORTH + M.SOUTH) and dist[1] + dist[3] + c.p.maxline > need_w:
        C.fail("too much room at the left and right", *c.pics())
    need_h = max(g.minheight(), len(c.p.lines) + pad[0] + pad[2] + g.h("NW") + g.h("SW")) - g.h("NW") - g.h("SW")
    if all(g.h(s) == 1 for s in g.elastic if s in M.EAST + M.WEST) and dist[0] + dist[2] + len(c.p.lines) > need_h:
        C.fail("too much room at the top and bottom", *c.pics())


def sized(d, ctx):
    """With -s: padding is given up only as far as the size demands it."""
    g = G.design(d, alpha=C.alpha(d), open_p=0.15, multi=0.2, blanks=0.05)
    o, args, tabs = C.gen_options(d, align=0, size=0, padding=0.9, tabs=0, pad_hi=6)
    text = C.gen_text(d, False, big=False, nonblank=True)
    p = M.draw(g, o, text)
    w = max(1, p.maxline + g.w("NW") + g.w("NE") + d.int(-2, 14))
    h = max(1, len(p.lines) + g.h("NW") + g.h("SW") + d.int(-2, 12))
    which = d.choice(["both", "w", "h"])
    if which != "h":
        o.reqwidth = w
    if which != "w":
        o.reqheight = h
    args = args + ["-s", {"both": "%dx%d" % (w, h), "w": str(w), "h": "x%d" % h}[which]]
    c = C.Drawn(g, o, args, text).run(ctx)
    dist = distances(c)
    full = [g.padding[i] if o.padding[i] is None else o.padding[i] for i in range(4)]
    d.nontrivial = any(full)
    d.key = (tuple(args), tuple(g.padding), repr(g.given), len(p.lines), p.maxline)
    d.sample = {"options": args, "design padding": g.padding, "output": "\n".join(c.rows)[:500]}
    d.label("padding given up" if full != c.p.pad else "padding kept")
    if dist is None:
        if not c.exact():
            C.fail("box and text cannot be told apart in the output", *c.pics())
        return
    for i, n in enumerate(("top", "right", "bottom", "left")):
        if dist[i] < c.p.pad[i]:
            C.fail("%s padding should be %d, but there are only %d" % (n, c.p.pad[i], dist[i]), *c.pics())
        if not (o.reqheight if i in (0, 2) else o.reqwidth) and dist[i] < full[i]:
            C.fail("%s padding should be %d, but there are only %d" % (n, full[i], dist[i]), *c.pics())
    if dist[0] != c.p.pad[0] or dist[3] != c.p.pad[3]:
        C.fail("the text should be at %r from top and left, but is at %r" % ((c.p.pad[0], c.p.pad[3]), (dist[0], dist[3])),
               *c.pics())


PARTS = [
    pbt.Part("padding", padding, 9000, 400000, "some padding is in effect (distinct options, design, text size)"),
    pbt.Part("sized", sized, 5000, 300000, "the full padding is not zero (distinct options, design, text size)"),
]
ASSUMPTIONS = ["designs whose opposite sides can be made equally long"]
