"""C12: blank lines of a removed box's content."""
import common as C
import gen as G
import model as M
import pbt
from c08 import removable_design, strip_blank


def tells(g):
    """Rows of blank content can be told from blank lines around the box."""
    for side in (M.TOP, M.BOTTOM):
        if not g.empty_side(side):
            for i in range(g.h(M.SIDES[side][0])):
                if all(M.is_blank(g.shapes[n][i]) for n in M.SIDES[side] if n in g.shapes):
                    return False
    if not g.empty_side(M.TOP) and not g.empty_side(M.BOTTOM):
        return True
    for names, side in ((("WNW", "W", "WSW"), M.LEFT), (("ENE", "E", "ESE"), M.RIGHT)):
        if not g.empty_side(side) and not any(M.is_blank(l) for n in names for l in g.shapes.get(n, [])):
            return True
    return False


def kill(d, ctx):
    for _ in range(5):
        g = removable_design(d)
        if tells(g) and C.removable(g):
            break
    else:
        g = G.fallback("gen", C.alpha(d), [0, 0, 0, 0], None)
    o, args = M.Opts(), []
    # blank lines in abundance
    core = G.text(d, d.choice([0, 1, 2])) if d.bool(0.9) else ""
    blank = lambda: "".join(d.choice(["\n", "\n", "  \n", " \n"]) for _ in range(d.small(0, 4, 1.2) if not d.bool(0.03) else d.int(5, 130)))
    text = blank() + core + blank()
    if d.bool(0.4):
        n = d.count(0, 3, 40)
        m = d.count(0, 3, 40)
        o.padding[0], o.padding[2] = n, m
        args += ["-p", "t%db%d" % (n, m)]
    if d.bool(0.3):
        h = d.count(1, 16, 160)
        o.reqheight = h
        args += ["-s", "x%d" % h]
    if d.bool(0.3):
        o.valign = d.choice("tcb")
        args += ["-a", "v" + o.valign]
    c = C.Drawn(g, o, args, text).run(ctx)
    if not c.rows:
        raise C.Discard()
    p = c.p
    lines = [C.norm(l) for l in M.read_input(text, o)[1]]
    content = [""] * p.above + lines + [""] * (p.innerh - p.above - len(lines))
    before, after = [d.small(0, 2, 0.3) if not d.bool(0.03) else d.int(3, 120) for _ in range(2)]
    box = b"\n" * before + c.r.out.rstrip(b"\n") + b"\n" + b"\n" * after
    how = d.choice(["true", "false", "default"])
    spell = {"true": [["-k", "true"], ["-k", "yes"], ["-k", "on"], ["-k", "1"], ["--kill-blank"], ["-ktrue"],
                      ["-k", "t"]],
             "false": [["-k", "false"], ["-k", "no"], ["-k", "off"], ["-k", "0"], ["--no-kill-blank"], ["-kno"],
                       ["-k", "f"]],
             "default": [[]]}[how]
    cfg = ctx.file("c.cfg", G.config(g))
    rargs = ["-f", cfg, "-d", "gen", "-r"] + d.choice(spell)
    r = C.ok(ctx.run(rargs, box), rargs)
    rows, _ = C.rows_of(r)
    got = [C.norm(x) for x in rows]
    killed = how == "true" or (how == "default" and not (g.empty_side(M.TOP) and g.empty_side(M.BOTTOM)))
    if killed:
        inner = strip_blank(content)
    else:
        # the design's padding is part of the box
        inner = list(content)
        for _ in range(g.padding[0]):
            if inner and not inner[0]:
                inner.pop(0)
        for _ in range(g.padding[2]):
            if inner and not inner[-1]:
                inner.pop()
    want = [""] * before + inner + [""] * after
    d.nontrivial = content != strip_blank(content)
    d.key = (text, tuple(args), how, before, after, repr(g.given))
    d.sample = {"box": box.decode()[:300], "options": rargs[4:], "removed": "\n".join(rows)[:300]}
    d.label("blank lines " + how, "killed" if killed else "kept", "blank lines around the box" if before + after else "alone")
    if not p.lines or not any(C.norm(l) for l in p.lines):
        d.label("no text at all")
    a, b = [x for x in want if x], [x for x in got if x]
    if a != b:
        if [x.strip() for x in a] != [x.strip() for x in b]:
            return      # text damaged: not a matter of blank lines
    if [bool(x) for x in want] != [bool(x) for x in got]:
        C.fail("blank lines should be %s" % ("killed" if killed else "kept"), ("box", box.decode()), ("removed", rows),
               ("wanted", want), *c.pics()[1:3])


PARTS = [
    pbt.Part("kill", kill, 7000, 350000, "the content of the box begins or ends with blank lines (distinct text, options, design)"),
]
ASSUMPTIONS = ["designs by which each row of the content can be told from the surroundings of the box"]
