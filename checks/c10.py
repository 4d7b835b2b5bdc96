"""C10: mending a box."""
import common as C
import gen as G
import model as M
import pbt
from c08 import removable_design


def closed(g):
    """The first row of the top and the last row of the bottom are visible (else they are not part of the box)"""
    return ((g.empty_side(M.TOP) or not all(M.is_blank(g.shapes[n][0]) for n in M.NORTH if n in g.shapes))
            and (g.empty_side(M.BOTTOM) or not all(M.is_blank(g.shapes[n][-1]) for n in M.SOUTH if n in g.shapes)))


def box_of(d, ctx, open_p=0.25):
    """A box around a text, and what is needed to draw it again"""
    g = removable_design(d, open_p=open_p)
    if not closed(g):
        raise C.Discard("outermost row is blank")
    o, args = M.Opts(), []
    if d.bool(0.3):
        G.opt_indent(d, o, args)
    if d.bool(0.25):
        G.opt_padding(d, o, args, 5)
    if d.bool(0.3):
        G.opt_size(d, o, args, 40, 14)
    level = d.choice([0, 1, 2])
    text = G.text(d, level, maxlines=d.choice([2, 4, 9]), nonblank=True)
    return C.Drawn(g, o, args, text).run(ctx), level


def fits(c):
    """Padding of the size wanted (a box may be too small for it), the text block neither moved nor cut"""
    want = [c.g.padding[i] if c.o.padding[i] is None else c.o.padding[i] for i in range(4)]
    return c.p.pad == want


def redrawn(c, lines, final_nl, o=None):
    """The box drawn afresh around these lines of text (in terms of the room inside the box)"""
    ind = " " * (c.p.indent if c.p.mode == "b" else 0)
    text = "\n".join(ind + l for l in lines) + ("\n" if final_nl else "")
    return M.draw(c.g, o or c.o, text), text


def content(c):
    """Lines of text in the box: as drawn, with the rows below which are neither text nor padding"""
    below = c.p.innerh - c.p.above - len(c.p.lines) - c.p.pad[M.BOTTOM]
    return [C.norm(l) for l in c.p.lines] + [""] * below


def check(d, c, ctx, box, p, what, args):
    r = C.ok(ctx.run(args, box), args)
    rows, _ = C.rows_of(r)
    if not M.same_rows(p.rows, rows):
        C.fail(what, ("box", box), ("mended", rows), ("wanted", p.rows), ("design", C.G.config(c.g)),
               ("options", repr(args[3:])), ("edits", repr(getattr(c, "edits", ""))), ("text", c.text))
    return "\n".join(rows) + "\n"


def intact(d, ctx):
    """Mending an intact box with the options it was drawn with changes nothing, however often it is done."""
    c, _ = box_of(d, ctx)
    if not fits(c) or not c.rows:
        raise C.Discard("padding does not fit")
    cfg = ctx.file("c.cfg", G.config(c.g))
    args = ["-f", cfg, "-d", c.g.name, d.choice(["-m", "--mend"])] + c.args
    d.nontrivial = True
    d.key = (c.text, tuple(c.args), repr(c.g.given), repr(c.g.padding))
    d.sample = {"box": "\n".join(c.rows)[:300], "options": c.args}
    d.label("left open" if c.g.empty_side(M.LEFT) else "left visible", "mode " + c.p.mode)
    # the same content again
    p, _ = redrawn(c, content(c), True)
    out = c.r.out
    if p.rows != c.p.rows:
        d.label("redrawn differently")      # minimum size reached by the padding: the size stays, see model
    for i in range(d.int(1, 3) if p.pad == c.p.pad else 1):     # a size too small for all padding moves the text
        out = check(d, c, ctx, out, p, "mended box differs from a new one around the same text", args)


def edited(d, ctx):
    """Mending after the text was edited in place."""
    c, level = box_of(d, ctx, open_p=0.15)
    if not fits(c) or not c.rows:
        raise C.Discard("padding does not fit")
    g, p = c.g, c.p
    cfg = ctx.file("c.cfg", G.config(g))
    o = c.o
    lines = content(c)
    nt = 0 if g.empty_side(M.TOP) else p.nt
    nb = 0 if g.empty_side(M.BOTTOM) else p.nb
    lw = 0 if g.empty_side(M.LEFT) else g.w("NW")
    rw = 0 if g.empty_side(M.RIGHT) else g.w("NE")
    full = [" " * (p.indent if p.mode == "b" else 0) + r for r in p.full]
    rows = full[nt:len(full) - nb]
    first = p.above                              # row of the first line of text
    before = (p.indent if p.mode == "b" else 0) + lw + p.pad[M.LEFT]
    edits = []
    bare = [False] * len(lines)                  # right side typed over

    def cut(row, col):
        return "".join(ch for ch in C.cells(row)[:col] if ch is not None)

    for _ in range(d.small(1, 4, 1)):
        vis = [i for i, l in enumerate(lines) if l]
        k = d.choice(["over", "insert", "shift", "delete", "new", "change"])
        if k in ("over", "insert", "shift", "change"):
            if not vis:
                continue
            i = d.choice(vis)
            old, row = lines[i], rows[first + i]
            if k == "change":                    # other text of the same width
                lines[i] = "".join("x" if M.cw(ch) == 1 and not M.blank(ch) else ch for ch in old)
                rows[first + i] = row.replace(old, lines[i], 1)
                if old not in row:
                    continue
            else:
                more = (" " * d.int(0, 2) if k == "over" else "") + G.word(d, level, 1, 12)
                body = cut(row, before) + old + more
                right = "".join(ch for ch in C.cells(row)[-rw:] if ch is not None) if rw and not bare[i] else ""
                if k == "over":                  # typed over the right side
                    tail = p.innerw - p.pad[M.LEFT] + before - M.width(body)
                    if tail >= 0 and right:
                        body += " " * tail + right
                    else:
                        bare[i] = True
                elif k == "insert":              # the right side was moved
                    body = cut(row, before) + old + more + \
                        "".join(ch for ch in C.cells(row)[before + M.width(old):] if ch is not None)
                else:                            # right side directly behind the text
                    body += right
                lines[i] = old + more
                rows[first + i] = body
        elif k == "delete":
            inner = [i for i in range(len(lines)) if 0 < i < len(lines) - 1]
            if not inner:
                continue
            i = d.choice(inner)
            del lines[i], rows[first + i], bare[i]
        else:
            at = d.int(1, len(lines)) if lines else 0
            if at >= len(lines) and (not lines or not lines[-1]):
                continue
            new = G.word(d, level, 1, 14)
            src = rows[first + at - 1]
            lines.insert(at, new)
            rows.insert(first + at, cut(src, before) + new)
            bare.insert(at, True)
        edits.append(k)
    if not edits or len(set(map(len, [edits, edits]))) != 1 or not any(lines):
        raise C.Discard("nothing edited")
    if min(M.leading(l) for l in lines if l) != min(M.leading(C.norm(l)) for l in p.lines if C.norm(l)):
        raise C.Discard("the outermost line was removed")
    if lw and not any(r[p.indent if p.mode == "b" else 0:][:1].strip(" ") for r in full[:nt] + rows +
                      full[len(full) - nb:]):
        raise C.Discard("the row in which the left side begins was removed")
    if (lines[0] == "") != (C.norm(p.lines[0]) == "") or (lines[-1] == "") != (content(c)[-1] == ""):
        raise C.Discard("blank line at the edge")
    whole = full[:nt] + rows + full[len(full) - nb:]
    box = "".join(r.rstrip(" ") + "\n" for r in whole)
    margs = []
    q, text = redrawn(c, lines, True, o)
    if not q.rows:
        raise C.Discard("nothing")
    args = ["-f", cfg, "-d", g.name, "-m"] + c.args + margs
    d.nontrivial = True
    d.key = (box, tuple(args[2:]), repr(g.given), repr(g.padding))
    d.sample = {"box": box[:300], "options": c.args, "edits": edits}
    d.label(*edits)
    c.edits = edits
    out = check(d, c, ctx, box, q, "mended box differs from a new one around the edited text", args)
    # drawing that text with boxes itself
    dargs = ["-f", cfg, "-d", g.name] + c.args
    fresh = C.ok(ctx.run(dargs, text), dargs)
    if not M.same_rows(C.rows_of(fresh)[0], M.rows_of(out)[0]):
        C.fail("mended box differs from a new one", ("box", box), ("mended", out), ("new", C.decode(fresh.out)))
    if [c.o.reqwidth, c.o.reqheight] == [0, 0]:
        check(d, c, ctx, out, M.draw(g, o, redrawn(c, content_of(g, o, q), True)[1]), "mending twice", args)


def content_of(g, o, q):
    below = q.innerh - q.above - len(q.lines) - q.pad[M.BOTTOM]
    return [C.norm(l) for l in q.lines] + [""] * below


def restyle(d, ctx):
    """Mending with other alignment draws the same text in that way."""
    c, _ = box_of(d, ctx)
    if not fits(c) or not c.rows:
        raise C.Discard("padding does not fit")
    o, args = M.Opts(**dict(c.o.__dict__)), list(c.args)
    G.opt_align(d, o, args)
    if not o.reqwidth and not o.reqheight and d.bool(0.5):
        G.opt_size(d, o, args, 50, 20)
    cfg = ctx.file("c.cfg", G.config(c.g))
    p, _ = redrawn(c, content(c), True, o)
    margs = ["-f", cfg, "-d", c.g.name, "-m"] + args
    d.nontrivial = True
    d.key = (c.text, tuple(args), repr(c.g.given), repr(c.g.padding))
    d.sample = {"box": "\n".join(c.rows)[:300], "options": args}
    check(d, c, ctx, c.r.out, p, "mended box differs from a new one with these options", margs)


PARTS = [
    pbt.Part("intact", intact, 3500, 200000, "a box was mended (distinct text, options, design)"),
    pbt.Part("edited", edited, 4500, 300000, "an edited box was mended (distinct box, options, design)"),
    pbt.Part("restyle", restyle, 3000, 150000, "a box was mended with other options (distinct text, options, design)"),
]
ASSUMPTIONS = ["left sides which are open, or visible in each row and beginning in the first column of some row",
               "mending with the padding the box was drawn with",
               "the outermost line of the text is not removed or moved by editing"]
