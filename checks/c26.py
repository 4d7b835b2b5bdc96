"""C26: the same run in other surroundings."""
import os

import common as C
import gen as G
import model as M
import notation as N
import pbt
from c24 import hostile

ENVS = [("FOO", "bar"), ("COLUMNS", "10"), ("LINES", "5"), ("PAGER", "less"), ("TZ", "Asia/Tokyo"), ("EDITOR", "boxes"), ("PWD", "/nonexistent"),
        ("USER", "x"), ("LOGNAME", "y"), ("SHELL", "/bin/false"), ("LS_COLORS", "x=1"), ("MALLOC_PERTURB_", "165"), ("LANGUAGE", "de:fr"),
        ("LANG", "xx_YY"), ("BOXES_X", "1"), ("DESIGN", "two"), ("OPTIONS", "-r"), ("BOX", "1"), ("CLICOLOR_FORCE", "1"), ("CI", "true"),
        ("XDG_DATA_HOME", "/x"), ("TMPDIR", "/nonexistent"), ("COLORFGBG", "0;15"), ("POSIXLY_CORRECT", "1"), ("BOXES", "nowhere"),
        ("XDG_CONFIG_HOME", "nowhere"), ("HOME", "nowhere"), ("_", "boxes")]


def design(d, name):
    al = d.choice([G.Alpha(), G.Alpha(G.BOXNARROW, G.BOXWIDE)])
    g = N.decorate(d, G.design(d, name=name, alpha=al), tags=("a", "b", "c-d"))
    g.aliases = [name + "-alias"] if d.bool(0.3) else []
    return g


def a_run(d, ctx):
    """(design, config text, arguments without the config, stdin, op)"""
    g = design(d, "one")
    op = d.weighted([(5, "draw"), (2, "-r"), (2, "-m"), (1, "-l"), (1, "-q")])
    o, args, tabs = C.gen_options(d)
    if d.bool(0.2):
        args += ["-e", d.choice(["LF", "CRLF", "CR"])]
    if d.bool(0.3):
        args += [d.choice(["--color", "--no-color"])]
    if op in ("-r", "-m") and d.bool(0.3):
        args += ["-k", d.choice(["true", "false"])]
    k = d.int(0, 9)
    text = hostile(d) if k < 2 else C.gen_text(d, tabs, big=k == 2).encode()
    if k > 7:
        text = text.replace(b"\n", b"\r\n")
    if op in ("-r", "-m"):
        cfg = ctx.file("c.cfg", G.config(g))
        r = ctx.run(["-f", cfg, "-d", "one"], text)
        if r.code == 0 and d.bool(0.85):
            text = r.out
            if d.bool(0.4) and text:
                i = d.int(0, len(text) - 1)
                text = text[:i] + d.choice([b"", b"x", b" ", b"\n"]) + text[i + 1:]
    if op == "-q":
        args += ["-q", d.choice(["a", "b", "(all)", "-a", "+a,-b"])]
    elif op != "draw":
        args.append(op)
    if d.bool(0.25):
        args += ["-n", d.choice(["UTF-8", "UTF-8", "ISO-8859-1", "UTF-16LE"])]
    return g, G.config(g), args, text, op


def surroundings(d, ctx):
    g, cfgtext, args, text, op = a_run(d, ctx)
    listing = op in ("-l", "-q")
    cfg = ctx.file("c.cfg", cfgtext)
    base = ["-f", cfg] + (["-d", "one"] if not listing or (op == "-l" and d.bool()) else [])
    first = ctx.run(base + args, text, perturb=1)
    k = d.weighted([(3, "memory"), (3, "environment"), (2, "directory"), (4, "pieces"), (2, "file"), (2, "outfile"), (3, "debug"), (4, "designs"), (1, "sanitizer"), (2, "all")])
    if listing and k == "designs":
        k = "debug"
    kw, more, argv, stdin = {"perturb": d.int(2, 255)}, [], base, text
    names = [k] if k != "all" else d.subset(["environment", "directory", "pieces", "debug", "designs"], 0.6)
    if listing and "designs" in names:
        names.remove("designs")
    if "environment" in names:
        env = dict(d.subset(ENVS, 0.4))
        kw["env"] = env
    if "directory" in names:
        kw["cwd"] = ctx.sut().fresh_dir("elsewhere")
        if d.bool():
            for n in (".boxes", "boxes-config", "parent"):
                with open(os.path.join(kw["cwd"], n), "w") as f:
                    f.write("BOX one\nsample\nx\nends\nshapes { w (\"WRONG\") }\nelastic (w)\nEND one\n")
    if "pieces" in names:
        kw["stdin_pipe"] = True
    if "file" in names:
        more = [ctx.file("in.txt", text)]
        stdin = b"wrong\n"
    if "outfile" in names:
        # an output file, which may exist
        out = os.path.join(ctx.sut().scratch, "out.txt")
        if os.path.exists(out):
            os.unlink(out)
        before = d.choice([None, b"", b"old\n", b"0123456789\n" * 1000])
        if before is not None:
            with open(out, "wb") as f:
                f.write(before)
        more = ["-", out]
    if "debug" in names:
        more = ["-x", d.choice(["debug", "debug:all", "debug:main,regexp", "debug:lexer,parser", "debug:discovery"])] + more
    if "designs" in names:
        # other designs around it, all valid, none with its name
        extra = [G.config(design(d, n)) for n in d.subset(["zwei", "drei", "vier", "fuenf"], 0.6)]
        i = d.int(0, len(extra))
        if op != "draw" or d.bool(0.7):
            s = "".join(extra[:i]) + cfgtext + "".join(extra[i:])
        else:
            # the first one is the default
            s = cfgtext + "".join(extra)
            base = ["-f", cfg]
        argv = ["-f", ctx.file("many.cfg", s)] + base[2:]
    second = ctx.run(argv + (more[:2] if more[:1] == ["-x"] else []) + args + (more[2:] if more[:1] == ["-x"] else more), stdin,
                     variant="asan" if k == "sanitizer" else "plain", **kw)
    if "outfile" in names:
        if second.out:
            C.fail("output to stdout although there is an output file", ("arguments", repr(args)), ("stdout", second.out))
        with open(out, "rb") as f:
            second.out = f.read()
    d.nontrivial = bool(first.out)
    d.key = repr((cfgtext, args, text, sorted(names)))
    d.sample = {"arguments": args, "other": sorted(names), "output": first.out[:120].decode("utf-8", "replace")}
    d.label(*names)
    d.label("op " + op, "exit code %d" % first.code)
    same_err = True
    if "debug" not in names and "designs" not in names:
        same_err = first.err == second.err
    if first.code != second.code or first.out != second.out or not same_err:
        C.fail("another result in other surroundings (%s): exit codes %d and %d, messages %r and %r" % (
            ", ".join(names), first.code, second.code, first.err[-200:], second.err[-200:]),
            ("input", text), ("arguments", repr(args)), ("first", first.out), ("second", second.out))


def lengths(d, ctx):
    """
    What comes of a line does not depend on where in the input it is read: a text of many lines, each of which is drawn by its own as
    well. (Designs with a west shape only, which draw each line for itself.)
    """
    s = d.choice(["#", "// ", "│", "＊"])
    n = d.int(2, 60)
    lines = []
    for _ in range(n):
        k = d.int(0, 8)
        if k == 0:
            l = "x" * d.int(1, 9000)
        elif k == 1:
            l = "漢" * d.int(1, 3000)
        else:
            l = G.line(d, 2, lead=False)
        lines.append("." + l.strip())
    eol = d.choice(["\n", "\n", "\r\n"])
    text = eol.join(lines) + d.choice(["", eol])
    kw = {"stdin_pipe": True, "perturb": d.int(1, 255)} if d.bool(0.7) else {}
    r = C.ok(ctx.run(["-c", s], text, **kw))
    rows, _ = C.rows_of(r)
    want = [s + " " + l for l in lines]
    d.nontrivial = len(text) > 200
    d.key = text[:5000] + s
    d.sample = {"lines": n, "bytes": len(text)}
    if rows != want:
        bad = [i for i in range(min(len(rows), len(want))) if rows[i] != want[i]][:1]
        C.fail("line %r of %d lines came out wrong (%d rows)" % (bad, n, len(rows)), ("wanted", want[bad[0]] if bad else ""), ("got", rows[bad[0]] if bad else ""))


PARTS = [
    pbt.Part("surroundings", surroundings, 6000, 250000, "something was output"),
    pbt.Part("lengths", lengths, 1200, 30000, "more than 200 characters"),
]
ASSUMPTIONS = ["LC_ALL and TERM are not unrelated variables"]
