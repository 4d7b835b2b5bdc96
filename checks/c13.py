"""C13: escape sequences."""
import re

import common as C
import gen as G
import model as M
import pbt
from c08 import removable_design, original, strip_blank

SEQ = re.compile("\x1b(?:[\\[(][^\x40-\x7e]*[\x40-\x7e]|[\x30-\x7e])")
STARTS = ["\x1b[31m", "\x1b[1;32m", "\x1b[38;5;203m", "\x1b[48;2;1;22;255m", "\x1b[4m", "\x1b[7;1m", "\x1b[96m", "\x1b[58;5;9m",
          "\x1b[11m", "\x1b[73m"]
RESETS = ["\x1b[0m", "\x1b[m", "\x1b[39m", "\x1b[49m", "\x1b[59m", "\x1b[10m", "\x1b[75m"]
OWN = {"\x1b[31m": "\x1b[39m", "\x1b[38;5;203m": "\x1b[39m", "\x1b[48;2;1;22;255m": "\x1b[49m", "\x1b[96m": "\x1b[39m",
       "\x1b[58;5;9m": "\x1b[59m", "\x1b[11m": "\x1b[10m", "\x1b[73m": "\x1b[75m"}
ODD = ["\x1b7", "\x1b8", "\x1b=", "\x1bc", "\x1b[K", "\x1b[2J", "\x1bM", "\x1b[?25l", "\x1bD", "\x1b[1A", "\x1b[;m", "\x1b(B\x1b[m",
       "\x1b[0;39m"]


def odd(d):
    """Any other sequence"""
    k = d.int(0, 5)
    if k < 2:
        return d.choice(ODD)
    if k == 2:
        c = chr(d.int(0x30, 0x7e))
        return "\x1b" + (c if c not in "[(" else "7")
    params = "".join(d.choice("0123456789;?<=>:") for _ in range(d.small(0, 12, 3)))
    inter = "".join(chr(d.int(0x20, 0x2f)) for _ in range(d.choice([0, 0, 0, 1, 2])))
    return "\x1b[" + params + inter + chr(d.int(0x40, 0x7e))


def plain(s):
    return SEQ.sub("", s)


def neat(d, s, p=0.5):
    """Sequences begin right before a visible character, and end right after one."""
    out, on = "", False
    for i, ch in enumerate(s):
        vis = not M.blank(ch)
        if vis and not on and d.bool(p * 0.5):
            out += d.choice(STARTS)
            on = True
        elif vis and on and d.bool(0.1):
            out += d.choice(STARTS)
        out += ch
        if on and vis and (d.bool(0.4) or not s[i + 1:].strip(" ")):
            out += d.choice(RESETS)
            on = False
    return out


def each(d, s):
    """Like lolcat does: each character coloured on its own"""
    seq = d.choice(STARTS[:4])
    return "".join(seq + ch + "\x1b[0m" for ch in s)


def wild(d, s):
    """Anywhere up to the last visible character"""
    end = len(s.rstrip(M.WS))
    if not end:
        return s
    at = sorted(d.int(0, end) for _ in range(d.small(0, 4, 1.5)))
    out, last = "", 0
    for a in at:
        out += s[last:a] + (odd(d) if d.bool(0.3) else d.choice(d.choice([STARTS, RESETS])))
        last = a
    return out + s[last:]


STYLES = {"neat": neat, "wild": wild, "none": lambda d, s: s, "each": lambda d, s: each(d, s.rstrip(M.WS)) if s.strip(M.WS) else s}


def colour_design(d, g, style):
    f = STYLES[style]
    given = {n: [f(d, l) + (l[len(l.rstrip(M.WS)):] if style == "each" and l.strip(M.WS) else "") for l in v]
             for n, v in g.given.items()}
    return M.Design(g.name, given, g.elastic_given, g.padding, g.indent)


def colour_text(d, text, style):
    f = STYLES[style]
    return "\n".join(f(d, l) for l in text.split("\n"))


def same_visible(a, b):
    r = lambda rows: [C.norm(x) for x in rows]
    return r(a) == r(b)


def layout(d, ctx):
    g = G.design(d, alpha=C.alpha(d))
    o, args, _ = C.gen_options(d, align=0.5, padding=0.3, size=0.3, indent=0.3, tabs=0)
    text = G.text(d, d.choice([0, 1, 2]), maxlines=d.choice([3, 8]))
    ds = d.choice(["none", "none", "neat", "wild", "each"])
    ts = d.choice(["neat", "neat", "wild", "each", "none"]) if ds != "none" else d.choice(["neat", "neat", "wild", "each"])
    ctext = colour_text(d, text, ts)
    cdesign = colour_design(d, g, ds)
    p = M.draw(g, o, text)
    cfg = ctx.file("c.cfg", G.config(cdesign))
    term = d.choice(["xterm-256color", "xterm-color", "linux", "dumb", "vt100", "nosuchterm", None])
    runs = {}
    for how in (["--color"], ["--no-color"], []):
        a = ["-f", cfg] + args + how
        runs[" ".join(how)] = C.decode(C.ok(ctx.run(a, ctext, env={"TERM": term}), a).out)
    col, mono, auto = runs["--color"], runs["--no-color"], runs[""]
    rows, _ = M.rows_of(col)
    d.nontrivial = "\x1b" in ctext or ds != "none"
    d.key = (ctext, tuple(args), repr(cdesign.given), term)
    d.sample = {"text": ctext[:200], "options": args, "box": col[:300], "design": ds, "style": ts}
    d.label("design " + ds, "text " + ts, "terminal %s" % term)
    pics = (("text", ctext.replace("\x1b", "\\e")), ("options", repr(args)),
            ("design", G.config(cdesign).replace("\x1b", "\\e")), ("wanted", p.rows),
            ("--color", col.replace("\x1b", "\\e")), ("--no-color", mono.replace("\x1b", "\\e")))
    if not same_visible([plain(r) for r in rows], p.rows):
        C.fail("escape sequences change the layout", *pics)
    if "\x1b" in mono or mono != plain(col):
        C.fail("--no-color is not the coloured output without its sequences", *pics)
    want = col if term in ("xterm-256color", "xterm-color", "linux") else mono
    if auto != want:
        C.fail("with terminal type %r, colours are%s printed" % (term, "" if want is mono else " not"), *pics)
    if ts in ("neat", "each") and o.justify == "":
        # all sequences of the text are in the row of their line
        nt = 0 if g.empty_side(M.TOP) else p.nt
        for i, l in enumerate(M.split_input(ctext)[0]):
            # without the indentation, which may be cut with its colours
            vis = len(plain(l)) - len(plain(l).lstrip(" "))
            core = l
            while vis:
                m = SEQ.match(core)
                if m:
                    core = core[m.end():]
                else:
                    core, vis = core[1:], vis - 1
            core = core.rstrip(M.WS)
            if ts == "each":
                while core.startswith("\x1b[0m"):
                    core = core[4:]
            if plain(core).strip() and core not in rows[nt + p.above + i]:
                C.fail("sequences of the text were lost in row %r, wanted %r" % (rows[nt + p.above + i], core), *pics)


def remove(d, ctx):
    g = removable_design(d)
    o, args = M.Opts(), []
    if d.bool(0.3):
        G.opt_indent(d, o, args)
    text = G.text(d, d.choice([0, 1, 2]), maxlines=d.choice([3, 6]), nonblank=True)
    kind = d.choice(["text coloured", "design coloured", "lolcat", "design coloured, box not", "both", "design coloured, box recoloured"])
    cdesign = colour_design(d, g, d.choice(["neat", "each"] if "recol" not in kind else ["each"])) if "design" in kind or kind == "both" else g
    if "\x1b" not in repr(cdesign.given).replace("\\x1b", "\x1b"):
        cdesign = g
    if kind.endswith("recoloured") and any(M.is_blank(l) for side in (M.LEFT, M.RIGHT) if not g.empty_side(side)
                                           for n in M.SIDES[side] for l in g.shapes.get(n, ())):
        # blank rows are uncoloured and match as they are, which makes boxes content with the literal comparison
        kind, cdesign = "lolcat", g
    style = d.choice(["neat", "each"])
    ctext = colour_text(d, text, style) if kind in ("text coloured", "both") else text
    cfg = ctx.file("c.cfg", G.config(cdesign))
    dargs = ["-f", cfg] + args + [d.choice(["--no-color"]) if kind == "design coloured, box not" else "--color"]
    box = C.decode(C.ok(ctx.run(dargs, ctext), dargs).out)
    if kind.endswith("recoloured"):
        other = d.choice(["\x1b[35m", "\x1b[1;95m", "\x1b[38;5;99m"])
        box = SEQ.sub(lambda m: d.choice(["\x1b[0m", "\x1b[m"]) if m.group() in RESETS else other, box)
    if kind == "lolcat":
        box = "\n".join(each(d, l) for l in box.split("\n"))
    rargs = ["-f", cfg, "-d", g.name, "-r"] + args
    stop = 0
    if d.bool(0.2):
        stop = d.choice([2, 3, 4, 8])
        rargs += ["-t", "%d%s" % (stop, d.choice("uuk"))]
    out = {}
    for how in ("--color", "--no-color"):
        a = rargs + [how]
        out[how] = C.decode(C.ok(ctx.run(a, box), a).out)
    mode = o.indent or g.mode()
    want = strip_blank(original(text, o, mode))
    d.nontrivial = "\x1b" in box or kind == "design coloured, box not"
    d.key = (ctext, tuple(args), repr(cdesign.given), kind)
    d.sample = {"box": box[:300], "removed": out["--color"][:300], "kind": kind}
    d.label(kind)
    pics = (("design", G.config(cdesign).replace("\x1b", "\\e")), ("kind", kind), ("options", repr(args)),
            ("box", box.replace("\x1b", "\\e")),
            ("removed", out["--color"].replace("\x1b", "\\e")), ("--no-color", out["--no-color"].replace("\x1b", "\\e")),
            ("wanted", want))
    if "\x1b" in out["--no-color"]:
        C.fail("escape sequence in spite of --no-color", *pics)
    for how in ("--color", "--no-color"):
        rows = [plain(x) for x in M.rows_of(out[how])[0]]
        got = strip_blank([C.norm(M.expand(x, stop) if stop else x) for x in rows])
        if got != want:
            C.fail("removing the box does not give back the text (%s)" % how, *pics)
    if kind == "text coloured" and style == "neat":
        left = M.rows_of(out["--color"])[0]
        for l in ctext.split("\n"):
            core = l.strip(M.WS)
            if plain(core).strip(M.WS):
                while left and core not in left[0]:
                    left.pop(0)
                if not left:
                    C.fail("line %r lost colours" % core, *pics)
                left.pop(0)
    if out["--no-color"] != plain(out["--color"]):
        C.fail("--no-color is not the coloured output without its sequences", *pics)


def late(d, s):
    """Coloured from some visible character on, and reset only behind the trailing blanks, or between them"""
    end = len(s.rstrip(M.WS))
    vis = [i for i, ch in enumerate(s) if not M.blank(ch)]
    if not vis:
        return s
    a = d.choice([vis[0], d.choice(vis)])
    cut = d.choice([end, len(s)]) + d.int(0, 2)
    s += " " * max(0, cut - len(s)) + d.choice(["", " ", "   "])
    on = d.choice(STARTS)
    return s[:a] + on + s[a:cut] + d.choice(["\x1b[0m", "\x1b[m", OWN.get(on, "\x1b[0m")]) + s[cut:]


def leak(d, ctx):
    """A line which resets its colours must not colour the rest of the box."""
    k = d.choice(["config", "config", "-c", "mend"])
    text = G.text(d, d.choice([0, 1, 2]), maxlines=d.choice([3, 8]), nonblank=True)
    ctext = "\n".join(late(d, l) if d.bool(0.8) else l for l in text.split("\n"))
    o, args, _ = C.gen_options(d, align=0.5, padding=0.3, size=0.3, indent=0.3, tabs=0)
    if k == "-c":
        g = M.Design("<Command Line Definition>", {"W": ["#"]}, ["W"], [0, 0, 0, 1])
        a = ["-c", "#"] + args + ["--color"]
    else:
        g = G.design(d, alpha=C.alpha(d))
        a = ["-f", ctx.file("c.cfg", G.config(g))] + args + ["--color"]
    out = C.decode(C.ok(ctx.run(a, ctext), a).out)
    if k == "mend":
        # what was drawn, as text
        a = ["-c", ">>", "--color"]
        ctext = out
        out = C.decode(C.ok(ctx.run(a, out), a).out)
    rows, _ = M.rows_of(out)
    d.nontrivial = "\x1b" in ctext
    d.key = (ctext, tuple(a), repr(g.given))
    d.sample = {"text": ctext[:200], "box": out[:300]}
    d.label(k)
    pics = (("text", ctext.replace("\x1b", "\\e")), ("arguments", repr(a)), ("box", out.replace("\x1b", "\\e")))
    state = None
    for i, r in enumerate(rows):
        for m in SEQ.findall(r):
            state = None if m in RESETS else m
        if state:
            C.fail("row %d leaves the colour on, although its text has it reset: %r" % (i, r), *pics)
    if o.justify == "" and k in ("config", "-c"):
        nt = 0 if g.empty_side(M.TOP) else M.draw(g, o, text).nt
        above = M.draw(g, o, text).above
        for i, l in enumerate(M.split_input(ctext)[0]):
            l = plain(l)[:0] + l
            first = min([j for j in range(len(l)) if not M.blank(l[j])] or [0])
            core = re.sub("[ ]*(\x1b\\[(0|10|39|49|59|75)?m)?[ ]*$", "", l[first:])
            if plain(core).strip() and core not in rows[nt + above + i]:
                C.fail("sequences of the text were lost in row %r, wanted %r" % (rows[nt + above + i], core), *pics)


PARTS = [
    pbt.Part("layout", layout, 10000, 250000, "there are escape sequences in text or design (distinct text, options, design, terminal)"),
    pbt.Part("remove", remove, 10000, 250000, "there are escape sequences in the box or the design (distinct)"),
    pbt.Part("leak", leak, 5000, 100000, "there are escape sequences in the text (distinct)"),
]
ASSUMPTIONS = ["no sequence other than a reset is placed behind trailing blanks (they make them visible, e.g. by a background colour)",
               "sequences of cut indentation may be cut with it"]
