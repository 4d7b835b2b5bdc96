"""C01: every line of the text is in the box, complete, in order, nothing else is."""
import common as C
import gen as G
import model as M
import pbt


def content_rows(d):
    """Output rows with everything but text erased."""
    return [C.text_only(r) for r in d.untabbed()]


def preserved(d):
    """None, or what is wrong"""
    rows = content_rows(d)
    lines = [C.norm(l) for l in M.read_input(d.text, d.o)[1]]
    rows = [C.norm(r) for r in rows]
    vis = [i for i, r in enumerate(rows) if r.strip()]
    want = [i for i, l in enumerate(lines) if l.strip()]
    if not want:
        return "text out of nothing" if vis else None
    if not vis:
        return "the text is missing"
    if len(rows) < len(lines):
        return "%d lines of text in %d rows" % (len(lines), len(rows))
    dy = vis[0] - want[0]
    if dy < 0 or dy + len(lines) > len(rows):
        return "blank lines of the text are missing"
    dx = None
    for i, row in enumerate(rows):
        line = lines[i - dy] if 0 <= i - dy < len(lines) else ""
        if d.o.justify:
            if row.strip(" ") != line.strip(" "):
                return "row %d should have the text %r, but has %r" % (i, line.strip(), row.strip())
            continue
        if not line.strip():
            if row.strip():
                return "row %d should have no text, but has %r" % (i, row.strip())
            continue
        k = (len(row) - len(row.lstrip(" "))) - (len(line) - len(line.lstrip(" ")))
        if dx is None:
            dx = k
        if row.lstrip(" ") != line.lstrip(" "):
            return "row %d should have the text %r, but has %r" % (i, line, row)
        if k != dx:
            return "row %d is shifted by %d columns, but the rows before by %d" % (i, k, dx)
    return None


def check(c, d):
    bad = preserved(c)
    if bad:
        C.fail(bad, *c.pics())


def draw(d, ctx):
    o, args, tabs = C.gen_options(d, align=0.4)
    g = G.design(d, alpha=C.alpha(d))
    text = C.gen_text(d, tabs)
    c = C.Drawn(g, o, args, text).run(ctx)
    lines = M.read_input(text, o)[1]
    d.nontrivial = any(l.strip() for l in lines)
    d.key = (text, tuple(args), repr(g.given))
    d.sample = {"text": text[:300], "options": args, "output": "\n".join(c.rows)[:600]}
    if len(lines) > 1:
        d.label("several lines")
    if any(ord(ch) > 0x2000 for ch in text):
        d.label("wide characters")
    check(c, d)


def huge(d, ctx):
    """Long lines and long texts: the boundaries of input buffers"""
    g = G.design(d, alpha=C.alpha(d, False), multi=0.1, maxh=1)
    o, args, _ = C.gen_options(d, align=0.3, padding=0.1, size=0.1, tabs=0)
    k = d.choice(["long", "many", "both"])
    level = d.choice([0, 1, 2])
    bytes_per = (1, 2, 4)[level]
    lines = []
    if k != "many":
        for _ in range(d.int(1, 3)):
            n = d.choice([d.int(900, 1100), d.int(2000, 2100), d.int(4000, 4200), d.int(8100, 8300), d.int(15000, 16000)])
            n = n // (1 if d.bool(0.6) else bytes_per)
            pool = [G.word(d, level) for _ in range(5)]
            s = " " * d.int(0, 5)
            while len(s) < n:
                s += d.choice(pool) + " " * d.int(0, 2)
            while len(s.encode()) > 16000:
                s = s[:-100]
            lines.append(s)
    if k != "long":
        pool = [G.line(d, level) for _ in range(12)]
        lines += [d.choice(pool) for _ in range(d.choice([d.int(90, 110), d.int(190, 260), d.int(500, 2000)]))]
    text = "\n".join(lines) + ("\n" if d.bool() else "")
    c = C.Drawn(g, o, args, text).run(ctx)
    d.nontrivial = True
    d.key = (len(text), hash(text))
    d.sample = {"bytes": len(text.encode()), "lines": len(lines), "longest": max(map(len, lines))}
    check(c, d)


def toolong(ctx):
    """The finding: a line too long for boxes' buffers loses text."""
    cfg = ctx.file("t.cfg", G.config(M.Design("t", {"W": ["|"]}, ["W"])))
    text = "a" * 16380 + "END\n"
    r = ctx.run(["-f", cfg], text)
    return r.code == 0 and b"END" not in r.out


KNOWN = {"long-line": toolong}
PARTS = [
    pbt.Part("draw", draw, 14000, 600000, "the text has a visible character (distinct text, options, shapes)"),
    pbt.Part("huge", huge, 250, 6000, "lines of up to 16000 bytes, or up to 2000 of them"),
]
ASSUMPTIONS = ["lines of at most 16,000 bytes (longer ones are the finding long-line)",
               "column widths as given by libunistring"]
