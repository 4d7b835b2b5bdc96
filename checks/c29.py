"""C29: the designs that come with boxes."""
import re

import c21
import c22
import common as C
import gen as G
import model as M
import pbt
import shipped
from c08 import original, strip_blank
from c10 import closed

_CACHE = []
ESC = re.compile(r"\x1b\[[0-9;]*m")


def designs():
    """All of them, without their colours"""
    if not _CACHE:
        out = shipped.read()
        for g in out:
            g.coloured = any("\x1b" in l for s in g.given.values() for l in s)
            g.sample = ESC.sub("", g.sample)
            g.given = {n: [ESC.sub("", l) for l in s] for n, s in g.given.items()}
        _CACHE.extend(out)
    return _CACHE


def substitute(rules, line):
    """The rules in this file only use constructs that Python knows, too"""
    for mode, pat, to in rules:
        line = re.sub(pat, lambda m: re.sub(r"\\(.)", r"\1", to).replace("$0", m.group(0)), line, count=1 if mode == "once" else 0)
    return line


def subst(g):
    if not g.replace:
        return None

    def fn(lines, maxline):
        new = [substitute(g.replace, l) for l in lines]
        if any(l != l.rstrip(M.WS) for l in new):
            raise pbt.Discard("trailing blanks")
        return new, max([M.width(l) for l in new] or [0])
    return fn


def any_text(d, g, **kw):
    text = C.gen_text(d, **kw)
    pieces = ["*/", "/*", "-->", "<!--", "(*", "*)", "\\", "*\\/", "|", "#", "//", "&"]
    if d.bool(0.25):
        lines = text.split("\n")
        i = d.int(0, len(lines) - 1)
        k = d.int(0, len(lines[i]))
        lines[i] = lines[i][:k] + d.choice(pieces) + lines[i][k:]
        text = "\n".join(lines)
    return text


def cmd(d, g, remove=False):
    """Choose the design in one of the possible ways"""
    n = d.choice([g.name] + g.aliases)
    k = d.choice(["", "upper", "swap"])
    n = n.upper() if k == "upper" else n.swapcase() if k == "swap" else n
    first = not remove and g is designs()[0] and d.bool(0.3)
    return ["-f", shipped.path()] + ([] if first else ["-d", n])


def plain_blanks(row):
    """Which kind of blanks there are does not matter"""
    return "".join(" " * M.cw(ch) if M.blank(ch) else ch for ch in row).rstrip(" ")


def draw(d, ctx):
    g = d.choice(designs())
    o, args, tabs = C.gen_options(d, align=0.3, padding=0.25, size=0.25, indent=0.3, tabs=0.2)
    text = any_text(d, g, tabs=tabs)
    p = M.draw(g, o, text, subst(g))
    a = cmd(d, g) + args
    env = {}
    if g.coloured:
        env = {"TERM": d.choice(["dumb", "xterm-256color"])}
    r = C.ok(ctx.run(a, text, env=env), a)
    rows = M.rows_of(ESC.sub("", C.decode(r.out)), "\n")[0]
    d.nontrivial = bool(text.strip())
    d.key = (g.name, text, tuple(args))
    d.sample = {"design": g.name, "text": text[:100], "options": args, "box": "\n".join(rows)[:400]}
    d.label(g.name)
    want = [plain_blanks(M.expand(x, o.tabstop)) for x in p.rows]
    rows = [plain_blanks(M.expand(x, o.tabstop)) for x in rows]
    if want != rows:
        C.fail("not the box that the design %s stands for" % g.name, ("text", text), ("options", repr(a)), ("design", G.config(g)),
               ("wanted", want), ("got", rows))


# Blank or single left and right sides (see C08); headline spaces its letters out
NOT_REMOVABLE = ("parchment", "diamonds", "xes", "spring", "scroll-akn", "weave", "headline")
# What ends a comment in those languages whose designs escape it
ENDS = {"c": "*/", "c-cmt": "*/", "c-cmt2": "*/", "javadoc": "*/", "peek": "*/", "cc": "*/", "jstone": "*/",
        "html": "-->", "html-cmt": "-->", "caml": "*)"}


def removable():
    """Designs as required by C08, whose rules for removal undo those for drawing"""
    return [g for g in designs() if g.name not in NOT_REMOVABLE]


def restored(g, line):
    """What is left of a line that was drawn and removed: all of it, unless it looks escaped already"""
    if "\\" in line or "+*" in line or "*+" in line:
        return substitute(g.reverse, substitute(g.replace, line))
    return line


def back(d, ctx):
    g = d.choice(removable())
    o, args = M.Opts(), []
    if d.bool(0.25):
        G.opt_indent(d, o, args)
    text = any_text(d, g)
    M.draw(g, o, text, subst(g))
    mode = o.indent or g.mode()
    env = {"TERM": d.choice(["dumb", "xterm-256color"])}
    a = cmd(d, g) + args
    box = C.ok(ctx.run(a, text, env=env), a).out
    if any(len(l) > 16300 for l in box.split(b"\n")):
        raise pbt.Discard("long rows")
    colour = ["--no-color"] if g.coloured else []
    ra = cmd(d, g, True) + [d.choice(["-r", "--remove"])] + args + colour + d.choice([[], ["-k", "true"], ["-k", "false"]])
    r = C.ok(ctx.run(ra, box), ra)
    rows = C.rows_of(r)[0]
    want = strip_blank([C.norm(restored(g, l)) for l in original(text, o, mode)])
    got = strip_blank([C.norm(x) for x in rows])
    d.nontrivial = bool(want)
    d.key = (g.name, text, tuple(args))
    d.sample = {"design": g.name, "box": C.decode(box)[:400], "removed": "\n".join(rows)[:200]}
    d.label(g.name)
    if want != got:
        C.fail("removing the box of design %s does not give back the text" % g.name, ("box", box), ("removed", rows), ("wanted", want))


def comment(d, ctx):
    """Text in a comment does not end it"""
    known = [g for g in designs() if g.name in ENDS]
    if len(known) != len(ENDS):
        C.fail("designs for comments are missing", ("there", [g.name for g in known]))
    g = d.choice(known)
    end = ENDS[g.name]
    args = []
    G.opt_indent(d, M.Opts(), args)
    lines = ["".join(d.choice([end, end, end[0], end[-1], "a", " ", "x", "\\", "+", end[:-1]]) for _ in range(d.small(1, 9, 4)))
             for _ in range(d.small(1, 5, 2))]
    text = "\n".join(lines) + "\n"
    plain = "".join(c if c in " \n" else "x" for c in text)
    a = cmd(d, g) + args
    boxes = [C.ok(ctx.run(a, t), a).out for t in (text, plain)]
    # what joins the box's own characters does not belong to the text, neither do those at the line's ends
    n, m = [b.count(end.encode()) for b in boxes]
    d.nontrivial = end in text and n == m
    d.key = (g.name, text, tuple(args))
    d.sample = {"design": g.name, "box": C.decode(boxes[0])[:400]}
    d.label(g.name)
    if n != m:
        C.fail("the text ends the comment", ("text", text), ("box", boxes[0]), ("args", repr(a)))


def mend(d, ctx):
    """Mending an intact box changes nothing"""
    g = d.choice([g for g in removable() if closed(g) and not g.replace])
    o, args = M.Opts(), []
    if d.bool(0.25):
        G.opt_indent(d, o, args)
    text = G.text(d, d.choice([0, 1, 2]), maxlines=d.choice([2, 4, 9]), nonblank=True)
    a = cmd(d, g, True) + args
    box = C.ok(ctx.run(a, text), a).out
    rows = C.decode(box).split("\n")
    a += [d.choice(["-m", "--mend"])]
    r = C.ok(ctx.run(a, box), a)
    d.nontrivial = True
    d.key = (g.name, text, tuple(args))
    d.sample = {"design": g.name, "box": C.decode(box)[:400]}
    d.label(g.name)
    if [M.rtrim_blank(ESC.sub("", x)) for x in C.rows_of(r)[0]] != [M.rtrim_blank(ESC.sub("", x)) for x in rows[:-1 if rows[-1] == "" else None]]:
        C.fail("mending changes an intact box of design %s" % g.name, ("box", box), ("mended", r.out))


def trimmed(s):
    return [l.rstrip(" ") for l in s.split("\n")]


def listed(d, ctx):
    """List, details, queries"""
    gs = designs()
    k = d.choice(["list", "details", "query", "query"])
    a = ["-f", shipped.path()]
    if k == "list":
        a += [d.choice(["-l", "--list"])]
        want = c21.expected_list(gs, shipped.path())
    elif k == "details":
        g = d.choice(gs)
        a += ["-l", "-d", d.choice([g.name, g.name.upper()] + g.aliases)]
        want = c21.expected_details(g, shipped.path())
        d.label(g.name)
    else:
        tags = sorted({t for g in gs for t in g.tags})
        q = [d.weighted([(3, ""), (2, "+"), (2, "-")]) + t for t in d.shuffled(tags)[:d.weighted([(3, 1), (3, 2), (2, 3)])]]
        if d.bool(0.2):
            q.insert(d.int(0, len(q)), "(all)")
        a += ["-q", ",".join(q)]
        want = c22.expected(gs, q)
    d.nontrivial = bool(want)
    d.key = tuple(a)
    r = ctx.run(a, "", env={"TERM": "dumb"})
    C.ok(r, a)
    d.sample = {"arguments": a[2:], "output": C.decode(r.out)[:200]}
    d.label(k)
    if trimmed(C.decode(r.out)) != trimmed(want):
        C.fail("wrong output for %r" % a, ("wanted", want), ("got", r.out))


PARTS = [
    pbt.Part("draw", draw, 5000, 200000, "the text is not blank (distinct design, text, options)"),
    pbt.Part("back", back, 5000, 200000, "the text is not blank (distinct design, text, options)"),
    pbt.Part("comment", comment, 2000, 60000, "the text contains the end of a comment (distinct design, text, options)"),
    pbt.Part("mend", mend, 3000, 100000, "all (distinct design, text, options)"),
    pbt.Part("listed", listed, 500, 10000, "something is listed (distinct arguments)"),
]
ASSUMPTIONS = ["the reader for the configuration file in lib/shipped.py knows the constructs used there",
               "the substitution rules in that file mean the same to Python as to PCRE2"]
