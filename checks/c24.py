"""
C24: whatever bytes come in, boxes ends with exit code 0 or 1, within its time, and without touching memory it does not own.
Everything runs under AddressSanitizer and UndefinedBehaviorSanitizer.
"""
import os
import re

import common as C
import gen as G
import model as M
import notation as N
import pbt

ESC = ["\x1b[31m", "\x1b[0m", "\x1b[1;38;5;12m", "\x1b[m", "\x1b(B", "\x1b[", "\x1b", "\x1b[3", "\x1b[31;", "\x1b[K", "\x1b]0;x\x07", "\x1b(",
       "\x1b[0", "\x1b[?25l", "\x1b[999999999999m", "\x1b\x1b[0m", "\x1b[31m\x1b[0m"]
COMBINING = ["\u0301", "\u0308", "\u200d", "\u200b", "\ufe0f", "\u20d0", "\u0e31", "\ufeff", "\u00ad", "\u202e", "\u2028", "\u0085"]
RARE = ["\U0010ffff", "\U0001f468\u200d\U0001f469", "\ud7ff", "\ue000", "\ufffd", "\ufffe", "\U0001f1e9\U0001f1ea", "\U000e0001", "ﬁ", "İ", "ß", "\u1680"]
RAW = [b"\xff", b"\xc3", b"\xe2\x82", b"\xf0\x9f\x98", b"\xc0\x80", b"\xed\xa0\x80", b"\xf5\x80\x80\x80", b"\x80", b"\xfe\xff", b"\xef\xbb\xbf", b"\xf4\x90\x80\x80"]
CONTROL = ["\0", "\x01", "\x07", "\x08", "\x0b", "\x0c", "\x0e", "\x1f", "\x7f", "\r", "\r\r", "\x9b31m"]
ENC = ["UTF-8", "utf8", "ISO-8859-1", "ISO-8859-15", "ASCII", "UTF-16", "UTF-16LE", "UTF-16BE", "UTF-32", "UTF-7", "SHIFT_JIS", "GB18030", "EUC-JP",
       "CP1252", "KOI8-R", "ISO-2022-JP", "none", "", "UTF-8//TRANSLIT", "UCS-2", "BIG5", "x" * 200, "CP437", "HZ", "EBCDIC-US"]


def piece(d):
    """bytes"""
    k = d.weighted([(8, "word"), (4, "blank"), (3, "punct"), (2, "wide"), (1, "esc"), (1, "comb"), (1, "rare"), (1, "raw"), (1, "ctl"), (2, "nl"),
                    (1, "run")])
    if k == "word":
        return G.word(d, d.int(0, 2), 1, 6).encode()
    if k == "blank":
        return d.choice([" ", "  ", "\t", " " * d.small(1, 40, 4), "\u3000", "\u00a0", "\t\t"]).encode()
    if k == "punct":
        return "".join(d.choice(G.PUNCT) for _ in range(d.int(1, 4))).encode()
    if k == "wide":
        return "".join(d.choice(G.WIDE) for _ in range(d.int(1, 4))).encode()
    if k == "esc":
        return d.choice(ESC).encode()
    if k == "comb":
        return d.choice(COMBINING).encode()
    if k == "rare":
        return d.choice(RARE).encode("utf-8", "surrogatepass")
    if k == "raw":
        return d.choice(RAW)
    if k == "ctl":
        return d.choice(CONTROL).encode()
    if k == "nl":
        return d.choice([b"\n", b"\r\n", b"\n\n", b"\r", b"\n\n\n"])
    return d.choice([b"x", b"-", b" ", "漢".encode(), b"\t", b"\n", b"\x1b[31m", b"#"]) * d.small(1, 300, 20)


def hostile(d, mean=6, hi=60):
    s = b"".join(piece(d) for _ in range(d.small(0, hi, mean)))
    if d.bool(0.7):
        s += b"\n"
    return s


def any_text(d):
    k = d.weighted([(6, "hostile"), (4, "plain"), (1, "huge line"), (1, "bytes"), (1, "empty")])
    if k == "hostile":
        return hostile(d)
    if k == "plain":
        return C.gen_text(d, tabs=d.bool(0.4), big=d.bool(0.3)).encode()
    if k == "huge line":
        d.label("huge line")
        n = d.choice([16000, 16369, 16370, 16371, 16380, 16381, 16382, 16383, 16384, 16385, 32766, 32768, 40000, 5000])
        unit = d.choice([b"x", b"ab ", "ä".encode(), "漢".encode(), b"\t", b" ", b"a\t", b"\x1b[31m", b"x\x1b[0m"])
        s = unit * (n // len(unit)) + d.choice([b"", b"y", b" z", b"\t", b"\xc3"])
        return hostile(d, 2) + s + d.choice([b"", b"\n", b"\r\n"]) + hostile(d, 2)
    if k == "bytes":
        return bytes(d.int(0, 255) for _ in range(d.small(0, 200, 20)))
    return d.choice([b"", b"\n", b"\n\n", b" ", b" \n", b"\t", b"\r\n", b"\0", b"\0\n", b"\xef\xbb\xbf", b"\xef\xbb\xbf\n"])


HUGE = ["65535", "100000", "2147483647", "2147483648", "4294967295", "4294967297", "9223372036854775807", "9223372036854775808", "-1",
        "18446744073709551615", "99999999999999999999"]


def number(d, hi=30):
    return str(d.small(0, hi, 4))


def any_option(d):
    k = d.weighted([(3, "a"), (2, "e"), (3, "i"), (2, "k"), (2, "n"), (4, "p"), (4, "s"), (4, "t"), (2, "color"), (1, "x")])
    if k == "a":
        return ["-a", d.choice([d.choice("lcr"), "h%sv%sj%s" % (d.choice("lcr"), d.choice("tcb"), d.choice("lcr")), "v" + d.choice("tcb")])]
    if k == "e":
        return ["-e", d.choice(["LF", "CRLF", "CR"])]
    if k == "i":
        return ["-i", d.choice(["box", "text", "none"])]
    if k == "k":
        return d.choice([["-k", "true"], ["-k", "false"], ["--kill-blank"], ["--no-kill-blank"]])
    if k == "n":
        return ["-n", d.choice(ENC)]
    if k == "p":
        return ["-p", "".join(d.choice("ahvtrbl") + number(d) for _ in range(d.int(1, 4)))]
    if k == "s":
        return ["-s", d.choice([number(d, 120) + "x" + number(d, 40), "x" + number(d, 60), str(d.int(1, 200))])]
    if k == "t":
        return ["-t", str(d.choice([1, 2, 3, 4, 7, 8, 16])) + d.choice(["", "e", "k", "u"])]
    if k == "color":
        return [d.choice(["--color", "--no-color"])]
    d.label("debug")
    return ["-x", d.choice(["debug", "debug:all", "debug:main,lexer,parser", "debug:regexp,discovery", "(undoc)", "(undoc)debug:all"])]


def any_env(d):
    env = {}
    if d.bool(0.15):
        env["LC_ALL"] = d.choice(["C", "POSIX", "C.utf8", "xx_YY", ""])
    if d.bool(0.1):
        env["TERM"] = d.choice([None, "", "dumb", "xterm-256color", "no-such-terminal", "x" * 300, "vt100"])
    return env


MAY = (0, 1)


def judge(d, r, args, what):
    """The sanitizers have been asked already (by the exit code)"""
    if r.code not in MAY:
        C.fail("exit code %d for %s, arguments %r; stderr %r" % (r.code, what, args, r.err[-300:]))
    if b"runtime error" in r.err or b"AddressSanitizer" in r.err:
        C.fail("sanitizer report: %r" % r.err[-600:])
    if r.code == 1 and not r.err:
        C.fail("exit code 1 without a message, for %r" % (args,))
    if r.err.count(b"\n") > 5000 and "-x" not in args:
        C.fail("no end of messages: %r" % r.err[:300])


def run(d, ctx, args, stdin, what, **kw):
    r = ctx.run(args, stdin, variant="asan", **kw)
    judge(d, r, args, what)
    return r


# --- designs ------------------------------------------------------------------------------------------------------

def shape_text(d, w, wild):
    if d.bool(0.2):
        return " " * w
    s = ""
    for _ in range(w):
        s += d.choice(G.PUNCT + "ab  ") if not wild else d.choice(d.choice([G.PUNCT, "x  ", G.WIDE, COMBINING, ESC, ["\t", "\x1b[31m", "é"]]))
    return s


def wild_design(d, name):
    """Config text of a design which is nearly valid: shapes of fitting sizes, mostly"""
    wild = d.bool(0.4)
    heights = {M.TOP: d.small(0, 4, 1), M.BOTTOM: d.small(0, 4, 1)}
    widths = {M.LEFT: d.small(0, 5, 1.5), M.RIGHT: d.small(0, 5, 1.5)}
    sides = d.subset([0, 1, 2, 3], 0.8) or [3]
    shapes = {}
    for side in sides:
        for n in M.SIDES[side][1:4]:
            if d.bool(0.6):
                w = widths[side] if side in widths else d.small(1, 4, 1)
                h = heights[side] if side in heights else d.small(1, 3, 1)
                shapes[n] = (w, h)
    for c, a, b in (("NW", M.TOP, M.LEFT), ("NE", M.TOP, M.RIGHT), ("SE", M.BOTTOM, M.RIGHT), ("SW", M.BOTTOM, M.LEFT)):
        if d.bool(0.6):
            shapes[c] = (widths[b], heights[a])
    if not shapes:
        shapes["W"] = (1, 1)
    el = [n for n in shapes if n not in ("NW", "NE", "SE", "SW") and d.bool(0.5)]
    if not el:
        el = [n for n in shapes if n not in ("NW", "NE", "SE", "SW")][:1]
    if d.bool(0.04):
        el.append(d.choice(M.ALL))
    out = ["BOX " + name]
    out.append("sample\n" + d.choice(["x", "\n", "+--+\n|  |", "  x\n y", "\x1b[31mx", "漢"]) + "\nends")
    rows = []
    for n in d.shuffled(list(shapes)):
        w, h = shapes[n]
        if d.bool(0.03):
            w, h = d.small(0, 5, 2), d.small(0, 5, 2)
        rows.append("  %s (%s)" % (n.lower(), ", ".join(G.quote(shape_text(d, w, wild)) for _ in range(h))))
    out.append("shapes {\n" + "\n".join(rows) + "\n}")
    out.append("elastic (" + ", ".join(n.lower() for n in el) + ")")
    for kw, w in (("replace", "with"), ("reverse", "to")):
        for _ in range(d.small(0, 2, 0.25)):
            d.label("rules")
            pat = d.choice(["a", "", "^", "$", "x*", "\\b", "(a)|(b)", ".", "[^ ]+", "\\s*$", "(", "[", "(?=a)", "\\x{1F600}", "(.)(.)", "^ *", "(a*)*b"])
            sub = d.choice(["", "x", "$1", "$0$0", "\\1", "${1}", "$", "漢", "$9", "\\U$0", "\x1b[31m$0\x1b[0m", "${x}", "\\", "${1:+a:b}"])
            out.append("%s %s %s %s %s" % (kw, d.choice(["global", "once", ""]), G.quote(pat), w, G.quote(sub)))
    if d.bool(0.4):
        out.append("padding { %s }" % " ".join("%s %s" % (d.choice(["left", "top", "all", "horizontal", "vertical", "right", "bottom"]), number(d, 12))
                                            for _ in range(d.int(1, 3))))
    if d.bool(0.2):
        out.append("indent " + d.choice(["\"box\"", "\"text\"", "\"none\"", "box"]))
    if d.bool(0.2):
        out.append("tags (\"a\", \"b-c\")")
    out.append("END " + name)
    return "\n".join(out) + "\n"


def designs(d, n):
    out = ""
    for i in range(n):
        name = ["one", "two", "three"][i]
        if d.bool(0.5):
            out += wild_design(d, name)
        else:
            al = d.choice([G.Alpha(), G.Alpha(G.BOXNARROW, G.BOXWIDE)])
            out += G.config(N.decorate(d, G.design(d, name=name, alpha=al)))
    return out


def drawing(d, ctx):
    """Drawing, removing and mending with hostile texts and odd designs"""
    cfg = ctx.file("c.cfg", designs(d, d.int(1, 2)), ("asan",))
    text = any_text(d)
    args = ["-f", cfg]
    if d.bool(0.5):
        args += ["-d", d.choice(["one", "two"])]
    if d.bool(0.1):
        args = ["-c", d.choice(["#", "// ", "\x1b[31m#", "漢", " ", "é", "\t", "\"", "\\", "x" * 300, "e\u0301", "\u0301"])]
    for _ in range(d.small(0, 5, 1.5)):
        args += any_option(d)
    op = d.weighted([(5, "draw"), (2, "-r"), (2, "-m")])
    if op != "draw":
        args.append(op)
    env = any_env(d)
    r = run(d, ctx, args, text, "text", env=env)
    d.nontrivial = len(text) > 3
    d.key = repr((text, args))
    d.sample = {"arguments": args, "text": text[:60].decode("utf-8", "backslashreplace"), "exit code": r.code}
    d.label(op, "exit code %d" % r.code)


def mutate(d, b, n):
    """Bytes changed in n places"""
    for _ in range(n):
        k = d.int(0, 7)
        i = d.int(0, len(b))
        j = min(len(b), i + d.small(1, 30, 3))
        if k == 0:
            b = b[:i] + b[j:]
        elif k == 1:
            b = b[:i] + piece(d) + b[i:]
        elif k == 2:
            b = b[:i] + piece(d) + b[j:]
        elif k == 3:
            b = b[:j] + b[i:]
        elif k == 4:
            b = b[:i]
        elif k in (5, 6):
            lines = b.split(b"\n")
            x = d.int(0, len(lines) - 1)
            y = d.int(0, len(lines) - 1)
            if k == 5:
                del lines[x]
            elif d.bool():
                lines[x], lines[y] = lines[y], lines[x]
            else:
                lines.insert(x, lines[y])
            b = b"\n".join(lines)
        else:
            b = b[:i] + bytes([d.int(0, 255)]) + b[i + 1:]
    return b


def damaged(d, ctx):
    """Removal and mending of boxes which were damaged"""
    cfg = ctx.file("c.cfg", designs(d, d.int(1, 2)), ("asan",))
    name = d.choice(["one", "two"])
    text = d.choice([hostile(d), C.gen_text(d, big=False).encode(), C.gen_text(d, tabs=True, big=False).encode()])
    args = ["-f", cfg, "-d", name]
    opts = []
    for _ in range(d.small(0, 3, 1)):
        opts += any_option(d)
    r = run(d, ctx, args + opts, text, "text")
    b = mutate(d, r.out, d.small(0, 6, 2))
    args = ["-f", cfg] + (["-d", name] if d.bool(0.5) else [])
    for _ in range(d.small(0, 4, 1)):
        args += any_option(d)
    args.append(d.choice(["-r", "-m"]))
    r2 = run(d, ctx, args, b, "damaged box")
    d.nontrivial = r.code == 0 and b != r.out
    d.key = repr((b, args))
    d.sample = {"arguments": args, "box": b[:80].decode("utf-8", "backslashreplace"), "exit code": r2.code}
    d.label(args[-1], "exit code %d" % r2.code)


TOKENS = ["BOX", "END", "box", "end", "sample", "ends", "shapes", "{", "}", "(", ")", ",", "elastic", "\"x\"", "\"\"", "n", "w", "nw", "sse", "e", "se",
          "replace", "reverse", "with", "to", "global", "once", "padding", "left", "all", "top", "3", "-1", "99999999999", "author", "designer", "created",
          "revision", "revdate", "indent", "delim", "delimiter", "tags", "parent", ":global:", "alias", "\"a\", \"bb\"", "# comment\n", "\n", "\"", "'", "\\",
          "\"unfinished", "$", "@\"", "name", "\0", "\x1b", "\xff", "\"漢\"", "\"\x1b[31m\"", "\"\t\"", "DELIM ?\"", "delimiter \\'", ";", "=", "horiz",
          "design-name", "\"\x01\"", "\r\n", "\ufeff", "shapes {", "sample\nx\nends\n", "elastic (n)", "end x", "BOX x", "include", "\"" + "y" * 120 + "\"",
          "\"a\\\0b\"", "\"ab\0c\"", "author \"x\\\0\"", "\"\\\\\"", "parent\r\n", "delim \0x", "\"\\\r\n\""]


def config_text(d):
    k = d.weighted([(3, "mutated"), (2, "tokens"), (1, "spliced"), (1, "long")])
    if k == "mutated":
        s = designs(d, d.int(1, 3))
        if d.bool(0.5):
            try:
                gs = []
                for n, al in N.distinct_names(d, d.int(1, 3)):
                    g = N.decorate(d, G.design(d, name=n, alpha=G.Alpha()))
                    g.aliases = al
                    gs.append(g)
                s = N.write(d, gs)
            except ValueError:
                pass
        return mutate(d, s.encode("utf-8", "surrogatepass"), d.small(1, 12, 2)), k
    if k == "tokens":
        return b"".join(d.choice(TOKENS).encode("utf-8", "surrogatepass") + d.choice([b" ", b"\n", b""]) for _ in range(d.small(1, 80, 15))), k
    if k == "spliced":
        lines = designs(d, 2).split("\n")
        for _ in range(d.small(1, 10, 3)):
            i = d.int(0, len(lines) - 1)
            w = lines[i].split(" ")
            w.insert(d.int(0, len(w)), d.choice(TOKENS))
            if d.bool():
                del w[d.int(0, len(w) - 1)]
            lines[i] = " ".join(w)
        return "\n".join(lines).encode("utf-8", "surrogatepass"), k
    s = designs(d, 1)
    n = d.choice([500, 1000, 1024, 2000, 8000, 16380, 16384, 20000, 40000])
    x = d.choice(["x", "\"", "ä", " ", "漢", "\\", "a b ", "'", "?"])
    if x in "\"\\'?":
        n = min(n, 2000)        # any of them may be the delimiter: the scanner then tries all ends of the line (quadratic)
    x *= n
    where = d.choice(["# ", "author \"", "sample ", "w (\"", "BOX ", "replace \"", "tags (\"", "parent ", "parent \"", "", "delim ", "revision \"",
                      "designer \""])
    lines = s.split("\n")
    lines.insert(d.int(0, len(lines)), where + x + d.choice(["", "\"", "\")"]))
    return "\n".join(lines).encode(), k


def configs(d, ctx):
    """Anything as config file"""
    b, k = config_text(d)
    if d.bool(0.3):
        p2, _ = config_text(d)
        ctx.file("parent.cfg", p2, ("asan",))
        b = d.choice([b"parent parent.cfg\n", b"parent \"parent.cfg\"\n", b"PARENT c.cfg\n"]) + b
    cfg = ctx.file("c.cfg", b, ("asan",))
    args = ["-f", cfg]
    what = d.choice([["-l"], ["-q", "(all)"], [], ["-d", "one"], ["-d", "x"], ["-r"], ["-m"], ["-l", "-d", "one"], ["-d", "beta"]])
    args += what
    if d.bool(0.2):
        args += ["-x", d.choice(["debug:all", "debug:lexer", "debug:parser,main", "(undoc)"])]
        d.label("debug")
    stdin = d.choice([b"text\n", b"", b"a\n  b\n", b"#x\n#y\n"])
    r = run(d, ctx, args, stdin, "config", env=any_env(d))
    d.nontrivial = len(b) > 20
    d.key = repr((b, what))
    d.sample = {"config": b[:200].decode("utf-8", "backslashreplace"), "arguments": what, "exit code": r.code}
    d.label(k, "exit code %d" % r.code)


def commandlines(d, ctx):
    """Any arguments, and odd surroundings"""
    cfg = ctx.file("c.cfg", "BOX one\ntags (\"a\")\nsample\nx\nends\nshapes { w (\"#\") n (\"-\") }\nelastic (w, n)\nEND one\n", ("asan",))
    args = []
    for _ in range(d.small(0, 6, 2)):
        k = d.int(0, 6)
        o = d.choice("acdefhiklmnpqrstvx")
        v = d.choice([lambda: d.choice(HUGE), lambda: hostile(d, 2, 6).replace(b"\0", b""), lambda: d.choice(["x", "true", "debug:all", "1x1", "a1", "hc", "one", "UTF-8"]),
                      lambda: b"", lambda: d.choice(["a", "h", "l", "x"]) + d.choice(HUGE), lambda: d.choice(HUGE) + "x" + d.choice(HUGE),
                      lambda: b"y" * d.choice([10, 1000, 1023, 1024, 1025, 5000])])()
        if isinstance(v, str):
            v = v.encode()
        if k <= 3:
            args += [b"-" + o.encode(), v]
        elif k == 4:
            args.append(b"--" + d.choice(["align", "create", "design", "eol", "config", "indent", "encoding", "padding", "tag-query", "size", "tabs", "extra",
                                          "list", "mend", "kill-blank"]).encode() + b"=" + v)
        elif k == 5:
            args.append(b"-" + v)
        else:
            args.append(v)
    # never read or write any file outside of the scratch directory
    args = [a for a in args if b"/" not in a]
    joined = b" ".join(args)
    if re.search(rb"-[a-z]*[ps].*\d{5}|--[ps].*\d{5}", joined):
        # boxes that huge take all memory there is
        args = [re.sub(rb"\d{5,}", b"77", a) for a in args]
    env = any_env(d)
    if d.bool(0.7):
        env["BOXES"] = cfg
    else:
        env["BOXES"] = d.choice(["", "nowhere", ".", "x" * 5000, "c.cfg", "\udcff", "%s%n%s"])
    for v in ("HOME", "XDG_CONFIG_HOME"):
        if d.bool(0.3):
            env[v] = d.choice([None, "", "x" * 5000, "nowhere", ".", "\udcff\udcfe", "%s%n"])
    r = run(d, ctx, args, any_text(d) if d.bool(0.5) else b"text\n", "command line", env=env, cwd=ctx.sut("asan").fresh_dir("cwd"))
    d.nontrivial = len(args) > 0
    d.key = repr((args, env))
    d.sample = {"arguments": [a.decode("utf-8", "backslashreplace")[:60] for a in args], "exit code": r.code}
    d.label("exit code %d" % r.code)


PARTS = [
    pbt.Part("drawing", drawing, 7000, 200000, "text of more than three bytes"),
    pbt.Part("damaged", damaged, 4000, 150000, "a box was drawn and then changed"),
    pbt.Part("configs", configs, 7000, 200000, "config of more than 20 bytes"),
    pbt.Part("commandlines", commandlines, 4000, 80000, "at least one argument"),
]
ASSUMPTIONS = ["sizes and paddings up to 5 digits only: boxes beyond that need more memory than there is",
               "memory that is never released is not an error", "10 s of CPU time under the sanitizers are 'no end'"]
