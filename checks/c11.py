"""C11: removing a damaged box."""
import common as C
import gen as G
import model as M
import pbt
from c08 import removable_design


def join(cells):
    return "".join(ch for ch in cells if ch is not None)


def damaged(d, ctx):
    g = removable_design(d, open_p=0.2)
    o, args = M.Opts(), []
    if d.bool(0.25):
        G.opt_indent(d, o, args)
    if d.bool(0.2):
        G.opt_padding(d, o, args, 4)
    dargs = []
    if d.bool(0.25):
        G.opt_align(d, o, dargs)
    if d.bool(0.2):
        G.opt_size(d, o, dargs, 40, 12)
    text = G.text(d, d.choice([0, 1, 2]), maxlines=d.choice([2, 4, 9]), nonblank=True)
    c = C.Drawn(g, o, args + dargs, text).run(ctx)
    p = c.p
    ind = p.indent if p.mode == "b" else 0
    full = [" " * ind + r for r in p.full]
    if not M.same_rows([r.rstrip(" ") for r in full], c.rows):
        raise C.Discard("unusual indentation")
    nt = 0 if g.empty_side(M.TOP) else p.nt
    nb = 0 if g.empty_side(M.BOTTOM) else p.nb
    lw = 0 if g.empty_side(M.LEFT) else g.w("NW")
    rw = 0 if g.empty_side(M.RIGHT) else g.w("NE")
    top, rows, bottom = full[:nt], full[nt:len(full) - nb], full[len(full) - nb:]
    want = [C.norm(l).strip(" ") for l in p.lines if C.norm(l)]
    partial = False
    done = []
    state = ["intact"] * len(rows)
    for _ in range(d.small(1, 6, 2)):
        k = d.choice(["right", "right", "left", "top", "bottom", "top row", "part right", "blanks", "trim", "bare", "shift"])
        i = d.int(0, len(rows) - 1) if rows else None
        if k in ("right", "left", "part right", "shift", "bare") and (i is None or state[i] != "intact"):
            continue
        if k == "right" and rw:
            cells = C.cells(rows[i])
            if not any(x is not None and x.strip(" ") for x in cells[-rw:]):
                continue
            rows[i] = join(cells[:-rw])
        elif k == "left" and lw:
            # the text moves to the left, or something else is in place of the shape
            cells = C.cells(rows[i])
            rows[i] = join(cells[:ind] + ([" "] * lw if d.bool() else []) + cells[ind + lw:])
        elif k == "part right" and rw > 1:
            cells = C.cells(rows[i])
            n = d.int(1, rw - 1)
            rows[i] = join(cells[:-n])
            partial = True
        elif k == "top" and top:
            top = []
        elif k == "bottom" and bottom:
            bottom = []
        elif k == "top row" and len(top) > 1:
            j = d.int(0, len(top) - 1)
            top = top[:j] + top[j + 1:]
            partial = True          # a remaining blank row may not count as part of the box
        elif k == "blanks":
            top = [" " * d.int(0, 3) for _ in range(d.int(0, 3))] + top
            bottom = bottom + [" " * d.int(0, 3) for _ in range(d.int(0, 3))]
        elif k == "trim":
            top, rows, bottom = [[r.rstrip(" ") for r in x] for x in (top, rows, bottom)]
            state = ["trimmed"] * len(rows)
        elif k == "shift" and lw:
            rows[i] = " " * d.int(1, 5) + rows[i]
        elif k == "bare":
            new = " " * d.int(0, 9) + G.line(d, d.choice([0, 1]), lead=False).strip()
            if not new.strip():
                continue
            at = d.int(0, len(rows))
            rows.insert(at, new)
            state.insert(at, "bare")
            i = None
        else:
            continue
        if i is not None and k in ("right", "left", "part right", "shift"):
            state[i] = k
        done.append(k)
    if not done:
        raise C.Discard("no damage")
    want = [t for t in (C.text_only(r).strip(" ") for r in rows) if t]
    box = "".join(r + "\n" for r in top + rows + bottom)
    cfg = ctx.file("c.cfg", G.config(g))
    kill = d.choice([[], ["-k", "true"], ["-k", "false"]])
    rargs = ["-f", cfg, "-d", g.name, "-r"] + args + kill
    r = C.ok(ctx.run(rargs, box), rargs)
    out, _ = C.rows_of(r)
    d.nontrivial = True
    d.key = (box, tuple(args + dargs + kill), repr(g.given), repr(g.padding))
    d.sample = {"box": box[:300], "removed": "\n".join(out)[:300], "damage": done}
    d.label(*done)
    pics = (("box", box), ("removed", out), ("design", G.config(g)), ("options", repr(rargs[3:])),
            ("damage", repr(done)))
    got = [t for t in (C.text_only(x).strip(" ") for x in out) if t]
    if got != want:
        C.fail("the text in the damaged box was not returned", *pics)
    if not partial and any(C.box_only(x) for x in out):
        C.fail("intact pieces of the box were not removed", *pics)
    # rows without any part of the box
    for t in (r for r, s in zip(rows, state) if s == "bare"):
        if t not in [C.norm(x) for x in out] and not g.empty_side(M.LEFT):
            C.fail("a line without any part of a box was changed: %r" % t, *pics)


def foreign(d, ctx):
    """A text without any box is returned as it is."""
    g = removable_design(d)
    text = G.text(d, d.choice([0, 1, 2]), maxlines=8)
    cfg = ctx.file("c.cfg", G.config(g))
    kill = d.choice([["-k", "false"], []])
    args = ["-f", cfg, "-d", g.name, "-r"] + kill
    r = C.ok(ctx.run(args, text), args)
    want = [C.norm(l) for l in M.split_input(text)[0]]
    got = [C.norm(x) for x in C.rows_of(r)[0]]
    if g.empty_side(M.LEFT):
        # the padding cannot be told from the text's own indentation
        n = min(g.padding[M.LEFT], min([M.leading(l) for l in want if l] or [0]))
        want = [l[n:] for l in want]
    strip = lambda ls: "\n".join(ls).strip("\n").split("\n")
    d.nontrivial = any(want)
    d.key = (text, tuple(kill), repr(g.given), repr(g.padding))
    d.sample = {"text": text[:300]}
    if strip(want) != strip(got):
        C.fail("a text without a box was changed", ("text", text), ("removed", C.decode(r.out)), ("wanted", want),
               ("design", G.config(g)), ("options", repr(args[3:])))


PARTS = [
    pbt.Part("damaged", damaged, 8000, 400000, "a damaged box was removed (distinct box, options, design)"),
    pbt.Part("foreign", foreign, 3500, 100000, "the text is not blank (distinct text, design)"),
]
ASSUMPTIONS = ["left sides which are open, or visible in each row and beginning in the first column of some row"]
