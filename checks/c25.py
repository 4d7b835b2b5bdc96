"""C25: -c makes a design out of one string."""
import os
import re

import common as C
import gen as G
import model as M
import pbt
from c08 import strip_blank, original

SPECIAL = list("\"'\\#$%{}()[]*?+.^|&;<>~`!@,:=-_/ ") + ["$0", "$1", "\\1", "\\n", "%s", "%n", "\\\\", "\"\"", "ends", "END", "box", "--", "-", "${x}", "&amp;"]
COLOURS = ["\x1b[31m", "\x1b[1m", "\x1b[38;5;12m", "\x1b[0;7m"]


def plain_string(d):
    """What may be given to -c, without escape sequences"""
    k = d.weighted([(3, "usual"), (4, "special"), (2, "wide"), (1, "words")])
    if k == "usual":
        return d.choice(["#", "//", "*", ";", "--", "%", ">", "=> ", "/* ", "REM", "# #", " *", "  //", "dnl", "''", "--  "])
    if k == "special":
        return "".join(d.choice(SPECIAL) for _ in range(d.int(1, 6)))
    if k == "wide":
        return "".join(d.choice(G.BOXWIDE + G.BOXNARROW + G.WIDE + "äé #") for _ in range(d.int(1, 5)))
    return G.word(d, 1, 1, 12) + d.choice(["", " ", ": "])


def the_design(s):
    return M.Design("<Command Line Definition>", {"W": [s]}, ["W"], [0, 0, 0, 1])


def surroundings(d, ctx):
    """Any state of the configuration; none of it matters. Returns (args, kwargs)"""
    k = d.weighted([(3, "none"), (1, "missing"), (1, "broken"), (1, "good"), (1, "env"), (1, "directory"), (1, "home")])
    args, env = [], {}
    sut = ctx.sut()
    if k == "missing":
        args = ["-f", "there-is-no-such-config"]
    elif k == "broken":
        args = ["-f", ctx.file("broken.cfg", d.choice(["BOX", "BOX x\nEND y\n", "\0\0\0", "parent nowhere\n"]))]
    elif k == "good":
        args = ["-f", ctx.file("good.cfg", G.config(M.Design("other", {"N": ["="], "W": ["!"]}, ["N", "W"])))]
    elif k == "env":
        env["BOXES"] = d.choice(["nowhere", ctx.file("broken.cfg", "BOX\n"), "."])
    elif k == "directory":
        args = ["-f", sut.scratch]
    elif k == "home":
        env["HOME"] = d.choice([None, "nowhere", ""])
    d.label("config: " + k)
    return args, {"env": env}


def spelled(d, s):
    k = d.int(0, 3)
    if k == 0:
        return ["-c" + s]
    if k == 1:
        return ["--create=" + s]
    return [["-c", s], ["--create", s]][k - 2]


def drawing(d, ctx):
    s = plain_string(d)
    if not s:
        raise pbt.Discard()
    o, args, tabs = C.gen_options(d)
    text = C.gen_text(d, tabs)
    if o.justify and any(c in text for c in "\u00a0\u2003\u3000\u2009\u1680"):
        raise pbt.Discard()
    g = the_design(s)
    p = M.draw(g, o, text)
    cargs, kw = surroundings(d, ctx)
    words = [cargs, spelled(d, s)] + [[a, b] for a, b in zip(args[::2], args[1::2])]
    argv = [x for w in d.shuffled(words) for x in w]
    r = C.ok(ctx.run(argv, text, **kw), argv)
    rows, ended = C.rows_of(r)
    d.nontrivial = any(not M.is_blank(l) for l in p.lines)
    d.key = (s, text, tuple(args))
    d.sample = {"string": s, "options": args, "output": "\n".join(rows)[:300]}
    if not M.same_rows(p.rows, rows) or not (ended == p.final_nl or not p.rows or M.is_blank(p.rows[-1])):
        C.fail("not what a design with the west shape %r would give" % s, ("input", text), ("arguments", repr(argv)), ("expected", p.rows), ("got", rows))


def literally(d, ctx):
    """
    The definition itself: S, a blank, and the line; S may have escape sequences and all, too. No options which move the text.
    """
    s = plain_string(d)
    if d.bool(0.5):
        parts = list(s)
        for _ in range(d.int(1, 2)):
            parts.insert(d.int(0, len(parts)), d.choice(COLOURS + ["e\u0301", "\u200d", "ﬁ", "\u00a0", "\U0001f469"]))
        s = "".join(parts)
        if "\x1b" in s:
            s += "\x1b[0m"
            d.label("coloured")
    if not any(M.cw(ch) and not M.blank(ch) for ch in re.sub("\x1b\\[[0-9;]*m", "", s)):
        raise pbt.Discard()
    lines = [G.line(d, d.int(0, 2), punct=d.bool()) for _ in range(d.int(1, 6))]
    ind = min([M.leading(l) for l in lines if l.strip()] or [0])
    text = "\n".join(lines) + "\n"
    mode = d.choice([None, "box", "text", "none"])
    cargs, kw = surroundings(d, ctx)
    argv = cargs + spelled(d, s) + (["-i", mode] if mode else []) + ["--color"]
    r = C.ok(ctx.run(argv, text, **kw), argv)
    rows, _ = C.rows_of(r)
    d.nontrivial = True
    d.key = (s, text, mode)
    d.sample = {"string": s, "output": "\n".join(rows)[:300]}
    want = []
    for l in lines:
        l = C.norm(l)
        if mode == "text":
            want.append(s + " " + l)
        elif mode == "none":
            want.append(s + " " + l[ind:])
        else:
            want.append(" " * ind + s + " " + l[ind:])
    # what comes of colours among the trailing blanks is another matter (C13)
    tail = lambda x: re.sub("(?:[ ]|\x1b\\[[0-9;]*m)*$", "", x)
    got, want = [tail(x) for x in rows], [tail(x) for x in want]
    if got != want and [x.rstrip(M.WS) for x in rows] != [x.rstrip(M.WS) for x in want]:
        C.fail("the string %r should be in front of each line, literally" % s, ("input", text), ("arguments", repr(argv)), ("expected", want), ("got", rows))


def back(d, ctx):
    """Removing and mending with the same -c"""
    s = plain_string(d)
    if not s.strip() or s[0] == " ":
        raise pbt.Discard()
    al = d.bool(0.3)
    o, args = M.Opts(), []
    if d.bool(0.4):
        G.opt_indent(d, o, args)
    if d.bool(0.3):
        k = d.int(0, 4)
        o.padding[3] = k
        args += ["-p", "l%d" % k]
    text = C.gen_text(d, False, big=d.bool(0.1))
    if al:
        # text which has the string in it as well
        lines = text.split("\n")
        for _ in range(d.int(1, 3)):
            i = d.int(0, max(0, len(lines) - 2))
            lines[i] = d.choice(["", " ", "  "]) + s + d.choice(["", " ", "x"]) + lines[i]
        text = "\n".join(lines)
        d.label("string in the text")
    g = the_design(s)
    mode = o.indent or "b"
    cargs, kw = surroundings(d, ctx)
    base = cargs + spelled(d, s) + args
    r = C.ok(ctx.run(base, text, **kw), base)
    box = C.decode(r.out)
    rows, _ = C.rows_of(r)
    if any(len(x.encode()) > 16300 for x in rows):
        raise pbt.Discard()
    d.nontrivial = any(x.strip() for x in text.split("\n"))
    d.key = (s, text, tuple(args))
    if d.bool(0.6):
        d.label("remove")
        argv = base + [d.choice(["-r", "--remove"])]
        got, _ = C.rows_of(C.ok(ctx.run(argv, box, **kw), argv))
        want = strip_blank(original(text, o, mode))
        got = strip_blank([C.norm(x) for x in got])
        d.sample = {"string": s, "box": box[:200], "removed": "\n".join(got)[:200]}
        if got != want:
            C.fail("removing does not give back the text", ("string", s), ("arguments", repr(argv)), ("box", box), ("wanted", want), ("got", got))
        return
    d.label("mend")
    lines = rows
    if d.bool(0.5):
        # lines which have lost their trailing blanks, or have got some
        lines = [x.rstrip() + " " * d.int(0, 3) for x in lines]
    argv = base + [d.choice(["-m", "--mend"])]
    got, _ = C.rows_of(C.ok(ctx.run(argv, "\n".join(lines) + "\n", **kw), argv))
    d.sample = {"string": s, "box": box[:200], "mended": "\n".join(got)[:200]}
    if [x.rstrip(M.WS) for x in got] != [x.rstrip(M.WS) for x in rows]:
        C.fail("mending changes a box which is fine", ("string", s), ("arguments", repr(argv)), ("box", "\n".join(lines)), ("wanted", rows), ("got", got))


def same_as_config(d, ctx):
    """Drawing, removing, mending of anything: the same as with a design of that shape in a config file"""
    s = plain_string(d)
    if not s:
        raise pbt.Discard()
    cfg = ctx.file("c.cfg", "BOX own\nsample\nx\nends\nshapes {\n w (%s)\n}\nelastic (w)\npadding { left 1 }\nEND own\n" % G.quote(s))
    if not s.strip():
        raise pbt.Discard()     # the configuration file may not have such a design
    o, args, tabs = C.gen_options(d)
    if d.bool(0.3):
        args += d.choice([["-k", "true"], ["-k", "false"]])
    if d.bool(0.3):
        args += ["-e", d.choice(["LF", "CRLF", "CR"])]
    if d.bool(0.2):
        args += [d.choice(["--color", "--no-color"])]
    op = d.choice([[], ["-r"], ["-m"]])
    lines = []
    for _ in range(d.int(1, 7)):
        l = G.line(d, 1, tabs=tabs)
        k = d.int(0, 5)
        if k == 0:
            l = s + " " + l
        elif k == 1:
            l = d.choice(["", " ", "   "]) + s + l
        elif k == 2:
            l = s.strip() + " " + l
        elif k == 3:
            l = d.choice([s, s + " ", s[:1], s[1:], ""])
        lines.append(l)
    text = "\n".join(lines) + d.choice(["", "\n"])
    a1 = spelled(d, s) + args + op
    a2 = ["-f", cfg, "-d", "own"] + args + op
    r1 = ctx.run(a1, text)
    r2 = ctx.run(a2, text)
    d.nontrivial = any(l.strip() for l in lines)
    d.key = (s, text, tuple(args + op))
    d.sample = {"string": s, "arguments": a1, "output": r1.out[:300].decode("utf-8", "replace")}
    d.label("draw" if not op else op[0])
    if r1.code != r2.code or r1.out != r2.out:
        C.fail("-c differs from the same design in a config file", ("input", text), ("arguments", repr(a1)), ("-c", r1.out), ("config file", r2.out),
               ("messages", repr((r1.err, r2.err))))


PARTS = [
    pbt.Part("drawing", drawing, 5000, 100000, "the text is not blank"),
    pbt.Part("literally", literally, 5000, 100000, "all"),
    pbt.Part("back", back, 4000, 80000, "the text is not blank"),
    pbt.Part("config", same_as_config, 4000, 80000, "the text is not blank"),
]
ASSUMPTIONS = ["removal: the string does not begin with a blank", "no tabs in the string"]
