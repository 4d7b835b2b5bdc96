"""C23: command lines in all spellings; malformed ones."""
import os
import re

import common as C
import gen as G
import model as M
import pbt

LONG = ["align", "create", "color", "no-color", "design", "eol", "config", "help", "indent", "kill-blank", "no-kill-blank", "list",
        "mend", "encoding", "padding", "tag-query", "remove", "size", "tabs", "version", "extra"]
NAME = {"a": "align", "c": "create", "d": "design", "e": "eol", "f": "config", "i": "indent", "n": "encoding", "p": "padding",
        "q": "tag-query", "s": "size", "t": "tabs", "x": "extra", "l": "list", "m": "mend", "r": "remove", "h": "help", "v": "version"}
MINLEN = {}
for _l in LONG:
    _k = len(_l)
    while _k > 1 and not [m for m in LONG if m != _l and m.startswith(_l[:_k - 1])]:
        _k -= 1
    MINLEN[_l] = _k


def long_name(d, name):
    if d.bool(0.5):
        return "--" + name
    d.label("abbreviated")
    return "--" + name[:d.int(MINLEN[name], len(name))]


def recase(d, s):
    k = d.int(0, 2)
    return s if k == 0 else s.upper() if k == 1 else "".join(c.upper() if d.bool() else c for c in s)


def pad_spec(d, pad):
    """a specification which gives these values (None: not specified)"""
    parts = []
    letters = {0: "t", 1: "r", 2: "b", 3: "l"}
    if all(p is not None for p in pad) and d.bool():
        parts.append(("a", pad[d.int(0, 3)]))
    for _ in range(d.small(0, 2, 0.5)):
        # overridden further on
        k = d.choice("tblrhv")
        for i in {"h": (1, 3), "v": (0, 2), "t": (0,), "r": (1,), "b": (2,), "l": (3,)}[k]:
            if pad[i] is None:
                break
        else:
            parts.append((k, d.int(0, 20)))
    last = []
    for a, b, k in ((1, 3, "h"), (0, 2, "v")):
        if pad[a] is not None and pad[a] == pad[b] and d.bool(0.6):
            last.append((k, pad[a]))
        else:
            last += [(letters[i], pad[i]) for i in (a, b) if pad[i] is not None]
    if pad[0] is not None and pad.count(pad[0]) == 4 and d.bool(0.6):
        last = [("a", pad[0])]
    return "".join(recase(d, k) + "%s%d" % ("0" if d.bool(0.05) else "", v) for k, v in parts + d.shuffled(last))


def options(d, op):
    """
    [(short name, canonical value or None, function giving another spelling of the value)]
    """
    out = []
    same = lambda d, v: v

    def add(p, name, value, f=same):
        if d.bool(p):
            out.append((name, value, f))

    hal, val, jus = d.choice("lcr"), d.choice("tcb"), d.choice("lcr")

    def align(d, v):
        parts = d.shuffled(["h" + hal, "v" + val, "j" + jus])
        if val == "c" and hal == jus and d.bool(0.7):
            parts = [hal]
        elif d.bool(0.2):
            parts.insert(0, d.choice("lcr"))
        elif d.bool(0.2):
            parts.insert(0, d.choice(["hl", "hr", "vb", "jc", "vt"]))
        return "".join(recase(d, x) for x in parts)
    if d.bool(0.3):
        hal, val, jus = d.choice([("l", "c", "l"), ("c", "c", "c"), ("r", "c", "r")])
    add(0.5, "a", "h%sv%sj%s" % (hal, val, jus), align)
    eol = d.choice(["LF", "CRLF", "CR"])
    add(0.3, "e", eol, lambda d, v: recase(d, v.lower()))
    ind = d.choice(["box", "text", "none"])
    add(0.4, "i", ind, lambda d, v: recase(d, v[:d.int(1, len(v))]))
    add(0.2, "n", "UTF-8", lambda d, v: d.choice(["UTF-8", "utf-8", "utf8", "UTF8"]))
    pad = [d.int(0, 5) for _ in range(4)]
    if d.bool(0.4):
        pad = [pad[0], pad[1], pad[0], pad[1] if d.bool() else pad[0]]
        if d.bool():
            pad = [pad[0]] * 4
    if d.bool(0.3):
        pad[d.int(0, 3)] = None
    canon = "".join("%s%d" % (k, p) for k, p in zip("trbl", pad) if p is not None)
    if canon:
        add(0.5, "p", canon, lambda d, v: pad_spec(d, pad))
    w, h = d.int(1, 60), d.int(1, 15)
    k = d.int(0, 2)
    if k == 0:
        add(0.5, "s", "%dx%d" % (w, h), lambda d, v: recase(d, v))
    elif k == 1:
        add(0.5, "s", "%d" % w, lambda d, v: d.choice([v, v + "x0", v + "X0", v + "x", v + "X"]))
    else:
        add(0.5, "s", "x%d" % h, lambda d, v: d.choice([v, "0" + v, v.upper()]))
    ts, mode = d.choice([1, 3, 4, 8, 16]), d.choice("eku")
    add(0.4, "t", "%d%s" % (ts, mode), lambda d, v: "%d%s" % (ts, "" if mode == "e" and d.bool() else recase(d, mode)))
    kb = d.choice([True, False])
    add(0.4, "k", "true" if kb else "false",
        lambda d, v: recase(d, d.choice(["true", "yes", "on", "1", "t"] if kb else ["false", "no", "off", "0", "f"])))
    add(0.3, "C", None)
    return out


def is_option(group, name):
    a = group[0]
    if not a.startswith("--"):
        return len(group) == 2 and a[-1] == name or len(group) == 1 and a[1] == name
    a = a[2:].split("=")[0]
    return len(a) >= MINLEN[NAME[name]] and NAME[name].startswith(a)


EARLIER = {
    "a": lambda d, v: d.choice(["l", "c", "r", "hr", "vb", "jr", "hrvtjl", "hcvb", "rvb"]),
    "d": lambda d, v: d.choice(["first", "second", "third-one", "no such design", "x"]),
    "e": lambda d, v: d.choice(["LF", "CRLF", "CR"]),
    "f": lambda d, v: d.choice(["no-such-file", ".", "in.txt", "/"]),
    "i": lambda d, v: d.choice(["box", "text", "none", "b", "t", "n"]),
    "n": lambda d, v: d.choice(["ISO-8859-1", "ASCII", "no-such-encoding", "UTF-16"]),
    "p": lambda d, v: ("a%d" if len(v) >= 8 else v[0] + "%d") % d.int(0, 20),
    "s": lambda d, v: ("%d" % d.int(1, 60) if "x" not in v else "x%d" % d.int(1, 20) if v[0] == "x" else
                       "%dx%d" % (d.int(1, 60), d.int(1, 20))),
    "t": lambda d, v: "%d%s" % (d.int(1, 16), d.choice(["", "e", "k", "u"])),
}


def spell(d, opts, flags):
    """The options as a list of argument groups, in any order"""
    groups = []
    loose = []
    for f in flags:
        if d.bool(0.5):
            loose.append(f)
        else:
            groups.append(["-" + f] if d.bool() else [long_name(d, NAME[f])])
    for name, value, other in opts:
        if name == "C":
            groups.append([long_name(d, value)])
            continue
        v = other(d, value)
        if name == "k":
            if d.bool(0.3):
                groups.append([long_name(d, "kill-blank" if value == "true" else "no-kill-blank")])
                d.label("-k in words")
                continue
            how = d.choice([0, 1])
        else:
            how = d.int(0, 3)
        if how == 0:
            groups.append(["-" + name, v])
        elif how == 1:
            # flags may go in front, in the same argument
            front = ""
            while loose and d.bool(0.6):
                front += loose.pop()
            if front:
                d.label("clustered")
            if d.bool() and v:
                groups.append(["-" + front + name + v])
            else:
                groups.append(["-" + front + name, v])
        elif how == 2:
            groups.append([long_name(d, NAME[name]), v])
        else:
            groups.append([long_name(d, NAME[name]) + "=" + v])
    if loose:
        groups.append(["-" + "".join(d.shuffled(loose))])
    groups = d.shuffled(groups)
    for name, value, _ in opts:
        # the last one counts of those which are given several times
        if name not in EARLIER or not d.bool(0.12):
            continue
        at = [i for i, g_ in enumerate(groups) if is_option(g_, name)]
        if len(at) != 1:
            continue
        later = groups[at[0]][-1]
        v = EARLIER[name](d, value)
        if v is None or (name == "t" and v[-1] in "ek" + "u" and later[-1] in "0123456789"):
            continue
        k = d.int(0, 2)
        g_ = ["-" + name, v] if k == 0 else ["-" + name + v] if k == 1 else [long_name(d, NAME[name]) + "=" + v]
        groups.insert(d.int(0, at[0]), g_)
        d.label("given twice: -" + name)
    return groups


def world(d, ctx):
    al = d.choice([G.Alpha(), G.Alpha(G.BOXNARROW, G.BOXWIDE)])
    gs = []
    for n in ("first", "Second", "third-one"):
        g = G.design(d, name=n, alpha=al)
        g.tags = d.subset(["a", "b", "c-d"], 0.5)
        gs.append(g)
    return gs, ctx.file("c.cfg", "".join(G.config(g) for g in gs))


def spelling(d, ctx):
    gs, cfg = world(d, ctx)
    op = d.weighted([(6, "draw"), (3, "remove"), (2, "mend"), (1, "list"), (1, "query"), (1, "create")])
    d.label(op)
    text = C.gen_text(d, tabs=d.bool(0.3), big=False, level=d.int(0, 1))
    opts = [o if o[0] != "C" else ("C", d.choice(["color", "no-color"]), None) for o in options(d, op)]
    flags = []
    if op == "create":
        opts.append(("c", d.choice(["#", "//", " *", "=>", "-", "--", "-x"]), lambda d, v: v))
    elif op != "list" and op != "query" and d.bool(0.7):
        opts.append(("d", d.choice(gs).name, lambda d, v: recase(d, v)))
    if op == "remove":
        flags.append("r")
    elif op == "mend":
        flags.append("m")
        if d.bool(0.3):
            flags.append("r")
    elif op == "list":
        flags.append("l")
    elif op == "query":
        opts.append(("q", d.choice(["a", "b", "+a,-b", "(all)", "-a", "a,b", "c-d"]), lambda d, v: v))
    if op in ("remove", "mend"):
        g = next((g for g in gs for o in opts if o[0] == "d" and g.name == o[1]), gs[0])
        r = C.ok(ctx.run(["-f", cfg, "-d", g.name], text))
        if d.bool(0.8):
            text = C.decode(r.out)
            if op == "mend":
                text = text.replace(d.choice("abcdefg "), d.choice(["", "xx", " "]), d.int(0, 2))
    canon = ["-f", cfg]
    for o in opts:
        canon += ["--" + o[1]] if o[0] == "C" else ["-" + o[0], o[1]]
    canon += ["-" + f for f in flags]
    want = ctx.run(canon, text)
    nobox = want.code == 1 and b"autodetection failed" in want.err and op in ("remove", "mend")
    if nobox:
        d.label("no box found")
    elif want.code != 0 or want.err:
        C.fail("well-formed command line %r rejected: exit code %d, message %r" % (canon, want.code, want.err), ("input", text))

    # the same in other words
    groups = spell(d, opts + [("f", d.choice([cfg, "c.cfg", "./c.cfg"]), lambda d, v: v)], flags)
    words = op + " " + " ".join(x for g_ in groups for x in g_)
    if op == "list":
        # the header of the list has the path of the config in it
        groups = [[x.replace("./c.cfg", cfg) if x.endswith("./c.cfg") else x.replace("c.cfg", cfg) if not x.endswith(cfg) and
                   x.endswith("c.cfg") else x for x in g_] for g_ in groups]
    infile = d.choice([None, None, "-", "in.txt", "abs", "-in"])
    outfile = None
    if infile is not None and d.bool(0.6):
        outfile = d.choice(["-", "out.txt", "abs"])
    ops = []
    if infile in ("in.txt", "abs", "-in"):
        p = ctx.file("-in" if infile == "-in" else "in.txt", text)
        ops.append(p if infile == "abs" else infile)
        d.label("input file")
    elif infile == "-":
        ops.append("-")
    if outfile:
        outp = os.path.join(ctx.sut().scratch, "out.txt")
        if outfile != "-":
            if d.bool(0.7):
                with open(outp, "w") as f:
                    f.write("something longer or shorter which was there before\n" * d.int(1, 60))
            elif os.path.exists(outp):
                os.unlink(outp)
            d.label("output file")
        ops.append(outp if outfile == "abs" else outfile)
    args = [x for g_ in groups for x in g_]
    if infile == "-in":
        args += ["--"] + ops
    else:
        k = d.int(0, 3)
        if k == 0:
            args += ["--"] + ops
        elif k == 1:
            args += ops
        else:
            # operands anywhere between the options
            pos = sorted(d.int(0, len(groups)) for _ in ops)
            args, j = [], 0
            for i in range(len(groups) + 1):
                while j < len(ops) and pos[j] == i:
                    args.append(ops[j])
                    j += 1
                if i < len(groups):
                    args += groups[i]
    stdin = "this is not the text\n" if infile in ("in.txt", "abs", "-in") else text
    got = ctx.run(args, stdin)
    d.nontrivial = len(groups) > 1
    d.key = words + text[:60]
    d.sample = {"canonical": canon, "other": args}
    out = got.out
    if outfile and outfile != "-":
        try:
            with open(outp, "rb") as f:
                out = f.read()
        except OSError as e:
            C.fail("output file not written with %r: %s; exit code %d, message %r" % (args, e, got.code, got.err))
        if op in ("list", "query"):
            # these go to standard output
            if out != got.out:
                out = got.out if got.out else out
        elif got.out:
            C.fail("something on standard output although an output file is given: %r" % got.out[:300], ("arguments", repr(args)))
    if got.code != want.code or out != want.out or got.err != want.err:
        C.fail("two spellings of a command line differ: exit code %d instead of %d, message %r" % (got.code, want.code, got.err),
               ("canonical", repr(canon)), ("other", repr(args)), ("input", text), ("wanted", want.out), ("got", out))


BAD = {
    "a": ["", "x", "h", "hx", "hl v", "vl", "vr", "ht", "jt", "jb", "lx", "123", "hlv", "hl,vt", "left", "hcvcj", "-", "hlvtjx", "hv", " hl"],
    "c": [""],
    "e": ["", "x", "LFCR", "crl", "lff", "C", "L", "\n", "crlf ", " lf", "0", "none"],
    "i": ["", "x", "boxx", "textt", "nonee", "bx", "bt", "o", "tex t", "b ", "0", "boxtextnone", "tt"],
    "k": ["", "x", "2", "maybe", "truee", "-1", "y e s", "nope", "10", "o", "tr", "fals"],
    "p": ["", "a", "3", "x3", "a-1", "a3b", "ab3", "a 3", "a+3", "a3,b2", "a3x", "a3x3", "l2rX", "33", "a 3b4", "h2v", "a1.5", "a99999999999",
          "a2147483648", "a18446744073709551617", "a3 ", "a=3", "hl3", "äb3"],
    "s": ["", "x", "0", "0x0", "-5", "5x-3", "x-1", "abc", "10abc", "10x20x30", "10x5y", "ax5", "1.5", "10,5", "-1x-1", "0x", "x0", "-2x3", "5 5",
          "99999999999999999999", "5x99999999999999999999", "5xx5", "y5"],
    "t": ["", "0", "17", "-1", "k", "4x", "4kk", "4ke", "x4", "99999999999", "4294967300", "8 e", "8,", "e", "4294967304k", "100", "-8", "ek"],
    "q": ["", "A", "a b", "a,a", "+", "a_b", "none", "1a", ",", "a-", "+a,-a"],
    "x": ["", "foo", "debugx", "debug:foo", "debug:main,foo", "(und", "DEBUG:nothing", "undoc", "xdebug"],
}


# what is right, as far as it matters for small changes of right values
GOOD = {
    "a": (r"(h[clr]|v[ctb]|j[clr]|[clr])+", ["hcvc", "l", "r", "c", "hl", "vtjr", "lvb", "hrvbjl"], "hvjclrtbx1 "),
    "e": (r"lf|cr|crlf", ["LF", "CR", "crlf"], "crlf x"),
    "i": (r"b(ox?)?|t(e(xt?)?)?|n(o(ne?)?)?", ["box", "text", "none", "b", "t", "n", "te", "no"], "boxten1 "),
    "k": (r"on|yes|true|t|1|off|no|false|f|0", ["on", "yes", "true", "1", "off", "no", "false", "0", "t", "f"], "onyestruefals01x"),
    "p": (r"([ahvtblr]\d+)+", ["a1", "h2v1", "l3", "t1b2r3", "a0l10"], "ahvtblrx-.,12"),
    "s": (r"\d*[1-9]\d*(x\d*)?|\d*x\d*[1-9]\d*", ["10", "10x5", "x3", "4x", "120x30"], "x0123ab,."),
    "t": (r"0*([1-9]|1[0-6])[eku]?", ["8", "4e", "2k", "16u", "1", "10e"], "eku0123x-"),
}


def bad_value(d, o):
    """an argument which the option does not accept"""
    if o not in GOOD or d.bool(0.5):
        return d.choice(BAD[o])
    rx, good, chars = GOOD[o]
    v = d.choice(good)
    for _ in range(d.int(1, 4)):
        i = d.int(0, len(v))
        how = d.choice(["insert", "insert", "append", "delete", "replace"])
        c = d.choice(chars)
        v = v[:i] + c + v[i:] if how == "insert" else v + c if how == "append" else v[:i] + (c if how == "replace" else "") + v[i + 1:]
        if v[:1] not in " -" and not re.fullmatch(rx, v, re.I):
            d.label("changed until it was wrong")
            return v
    raise pbt.Discard()


def malformed(d, ctx):
    gs, cfg = world(d, ctx)
    text = C.gen_text(d, big=False, level=0)
    opts = [o if o[0] != "C" else ("C", d.choice(["color", "no-color"]), None) for o in options(d, "draw") if d.bool(0.5)]
    kind = d.weighted([(8, "argument"), (2, "option"), (1, "flag value"), (1, "missing"), (1, "third file"), (1, "input file")])
    d.label(kind)
    flags = [f for f in "rml" if d.bool(0.12)]
    bad = []
    tail = []
    stdin = text
    if kind == "argument":
        o = d.choice("aceikpqstx" + "psit")
        v = bad_value(d, o)
        opts = [x for x in opts if x[0] != o or d.bool(0.3)]
        if o == "k":
            opts = [x for x in opts if x[0] != "k" or d.bool(0.5)]
        how = d.int(0, 3) if o != "k" else d.int(0, 1)
        if how == 0 or (how == 1 and not v):
            bad = ["-" + o, v]
        elif how == 1:
            bad = ["-" + o + v]
        elif how == 2:
            bad = ["--" + NAME[o], v]
        else:
            bad = ["--" + NAME[o] + "=" + v]
        d.label("-" + o)
    elif kind == "option":
        bad = [d.choice(["-z", "-Z", "-D", "-F", "-L", "-o", "-w", "--foo", "--desing=x", "--dir", "--lists", "-rz", "-lW", "--design-name", "--x",
                         "--kill", "--co=1", "--removed", "--c=3", "--e=lf", "--no", "--ta=4", "-1", "-j"])]
        if bad == ["--kill"]:
            bad = ["--kill-blanks"]
    elif kind == "flag value":
        bad = [d.choice(["--list", "--mend", "--remove", "--help", "--version", "--color", "--no-color", "--kill-blank", "--no-kill-blank"]) +
               d.choice(["=", "=1", "=true", "=x"])]
    elif kind == "missing":
        tail = [d.choice(["-a", "-c", "-d", "-e", "-f", "-i", "-k", "-n", "-p", "-q", "-s", "-t", "-x", "--align", "--design", "--tabs", "--size", "-rd"])]
    elif kind == "third file":
        tail = ["in.txt", "out.txt", d.choice(["more", "-", "out.txt", ""])]
    else:
        tail = [d.choice(["there-is-no-such-file", "no/such/directory/in.txt", "", "in.txt/x"])]
    ctx.file("in.txt", text)
    groups = spell(d, opts + [("f", cfg, lambda d, v: v)], flags)
    if bad:
        groups.insert(d.int(0, len(groups)), bad)
    args = [x for g_ in groups for x in g_]
    outp = os.path.join(ctx.sut().scratch, "out.txt")
    before = b"what was there before\n"
    with open(outp, "wb") as f:
        f.write(before)
    if kind in ("argument", "option", "flag value", "missing") and d.bool(0.6):
        args = (args + ["in.txt", "out.txt"]) if d.bool() else ["in.txt"] + args + ["out.txt"]
        stdin = ""
        d.label("output file")
    elif kind == "input file" and d.bool(0.6):
        tail.append("out.txt")
        d.label("output file")
    args += tail
    r = ctx.run(args, stdin)
    with open(outp, "rb") as f:
        after = f.read()
    d.nontrivial = True
    d.key = repr((bad, tail, args[:4]))
    d.sample = {"arguments": args, "message": r.err.decode("utf-8", "replace")[:100]}
    if r.code != 1 or r.out or not r.err.startswith(b"boxes: ") or after != before:
        C.fail("malformed command line (%r) should be rejected with exit code 1 and a message only: exit code %d, stdout %r, stderr %r, output file %s"
               % (bad or tail, r.code, r.out[:200], r.err[:300], "untouched" if after == before else "changed: %r" % after[:100]),
               ("arguments", repr(args)))


def information(d, ctx):
    """-h, -?, -v and their long names"""
    cfg = ctx.file("c.cfg", "BOX a\nsample\nx\nends\nshapes { w (\"#\") }\nelastic (w)\nEND a\n")
    which = d.choice(["help", "version"])
    groups = spell(d, [o if o[0] != "C" else ("C", d.choice(["color", "no-color"]), None) for o in options(d, "draw") if d.bool(0.4)],
                   [f for f in "rml" if d.bool(0.1)])
    env = {}
    if d.bool(0.7):
        env["BOXES"] = cfg
    it = d.choice(["-" + which[0], long_name(d, which)])
    if which == "help" and d.bool(0.2):
        args = ["-?"] + [x for g_ in groups for x in g_]
    else:
        groups.insert(d.int(0, len(groups)), [it])
        args = [x for g_ in groups for x in g_]
    if d.bool(0.2):
        args.append("no-such-file")
    r = ctx.run(args, "text\n", env=env)
    d.nontrivial = len(groups) > 1
    d.key = repr(args)
    d.sample = {"arguments": args, "output": r.out.decode("utf-8", "replace")[:80]}
    d.label(which)
    out = C.decode(r.out)
    if r.code != 0:
        C.fail("exit code %d for %r, message %r" % (r.code, args, r.err))
    if r.err and (env or which == "version"):
        C.fail("message on standard error for %r: %r" % (args, r.err))
    if which == "version":
        if not out.startswith("boxes ") and not out.startswith("boxes version ") or out.count("\n") != 1:
            C.fail("unexpected version information for %r: %r" % (args, out))
    else:
        missing = [l for l in LONG if l not in ("extra",) and "--" + l not in out]
        if missing or "Usage:" not in out:
            C.fail("help for %r lacks %r" % (args, missing or "usage"), ("output", out))


PARTS = [
    pbt.Part("spelling", spelling, 6000, 100000, "at least two options, spelled differently"),
    pbt.Part("malformed", malformed, 5000, 80000, "all (distinct command lines)"),
    pbt.Part("information", information, 1500, 15000, "other options besides"),
]
ASSUMPTIONS = ["GNU getopt rules: options may follow operands, unambiguous abbreviations of long names are accepted",
               "when -k is given several times or with -m only well-formedness is checked; of -a, -d, -e, -f, -i, -n, -p, -s, -t the last one counts"]
