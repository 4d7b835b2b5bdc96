"""C16: substitution rules. Python's re is the reference for regular expressions."""
import re

import common as C
import gen as G
import model as M
import pbt
from c08 import removable_design, original, strip_blank

LETTERS = "abcde"
TEXT = "aaabbcdexAB19.- +(ä好"


class Pat:
    """Generates patterns that mean the same to PCRE2 and to Python."""

    def __init__(self, d, safe=False):
        self.d, self.safe = d, safe
        self.groups = 0
        self.always = []        # groups that take part in every match
        self.unbounded = 0      # repetitions; several ones multiply

    def atom(self):
        d = self.d
        k = d.weighted([(8, "lit"), (4, "class"), (0 if self.safe else 2, "neg"), (2, "esc"), (0 if self.safe else 2, "dot"),
                        (1, "punct"), (1, "uni")])
        if k == "lit":
            return d.choice(LETTERS)
        if k == "class":
            return d.choice(["[ab]", "[a-c]", "[a-zA-Z]", "[0-9]", "[-.]", "[bä]", "[A-Z]", "[[:alpha:]]", "[[:digit:]]"])
        if k == "neg":
            return d.choice(["[^a]", "[^ab ]", "\\D", "\\W", "\\S", "[^\\w]"])
        if k == "esc":
            return d.choice(["\\d", "\\w"] + ([] if self.safe else ["\\s"]))
        if k == "punct":
            return d.choice(["\\.", "\\+", "\\(", "-", "\\-", "x"] + ([] if self.safe else [" "]))
        if k == "uni":
            return d.choice(["ä", "好", "A", "B"])
        return "."

    def piece(self, depth, sure):
        """(pattern, can match empty, has unbounded repetition)"""
        d = self.d
        k = d.weighted([(8, "atom"), (3 if depth else 0, "group"), (1 if depth else 0, "noncap"),
                        (0 if self.safe else 1, "assert")])
        if k == "assert":
            return d.choice(["\\b", "(?=[a-c])", "(?!b)", "(?<=a)", "(?<!b)", "(?!\\b)", "(?=.*b)"]), True, True
        q = d.weighted([(8, ""), (2, "+"), (2, "*"), (2, "?"), (1, "{2}"), (1, "{1,3}"), (1, "+?"), (1, "*?"), (1, "??")])
        if "*" in q or "+" in q:
            self.unbounded += 1
            if self.unbounded > 2:
                q = "?"
        if k == "atom":
            return self.atom() + q, q in ("*", "?", "*?", "??"), "*" in q or "+" in q
        if k == "group":
            self.groups += 1
            n = self.groups
            opt = q in ("*", "?", "*?", "??")
            p, nul, unb = self.alt(depth - 1, sure and not opt)
            if nul or unb or "|" in p and ("*" in q or "+" in q):
                q, opt = "", False
            if sure and not opt:
                self.always.append(n)
            return "(" + p + ")" + q, nul or opt, unb or "*" in q or "+" in q
        p, nul, unb = self.alt(depth - 1, sure and q not in ("*", "?", "*?", "??"))
        if nul or unb or "|" in p and ("*" in q or "+" in q):
            q = ""
        return "(?:" + p + ")" + q, nul or q in ("*", "?", "*?", "??"), unb or "*" in q or "+" in q

    def seq(self, depth, sure):
        ps = [self.piece(depth, sure) for _ in range(self.d.small(1, 4, 0.8))]
        return "".join(p[0] for p in ps), all(p[1] for p in ps), any(p[2] for p in ps)

    def alt(self, depth, sure):
        n = self.d.weighted([(5, 1), (2, 2), (1, 3)])
        ps = [self.seq(depth, sure and n == 1) for _ in range(n)]
        return "|".join(p[0] for p in ps), any(p[1] for p in ps), any(p[2] for p in ps)

    def whole(self):
        d = self.d
        p, nul, unb = self.alt(2, True)
        if "|" in p:
            # also an alternative in the whole pattern
            pass
        if not self.safe and d.bool(0.15):
            p = "^" + ("(?:" + p + ")" if "|" in p else p)
        if not self.safe and d.bool(0.15):
            p = ("(?:" + p + ")" if "|" in p else p) + "$"
        back = self.always and d.bool(0.1)
        if back:
            p = ("(?:" + p + ")" if "|" in p else p) + "\\%d" % d.choice(self.always)
        if d.bool(0.08) and not back:       # (references to ä and Ä are the same to PCRE2 only)
            p = "(?i)" + p.replace("ä", "b")
        if not self.safe and d.bool(0.05):
            p = d.choice(["^", "$", "^$", "^.*$", "^\\s+", "(?=b)", "\\b"])
            self.always = []
            self.groups = 0
        return p


def to_python(p):
    return re.compile(p.replace("[[:alpha:]]", "[a-zA-Z]").replace("[[:digit:]]", "[0-9]"), re.ASCII)


def template(d, pat):
    """Replacement: list of ("lit", s) / ("group", n) / ("def", n, s) / ("case", c)"""
    out = []
    case = False
    for _ in range(d.small(0, 4, 1.3)):
        k = d.weighted([(5, "lit"), (4, "group"), (1 if pat.groups else 0, "def"), (1, "case")])
        if k == "lit":
            out.append(("lit", d.choice(["x", "yy", "-", "<", ">", "[Z]", "ö", "本", "a", "b", "1", "X.Y", "{}", "|", "&", "%s"])))
        elif k == "group":
            out.append(("group", d.choice([0] + pat.always)))
        elif k == "def":
            out.append(("def", d.int(1, pat.groups), d.choice(["", "n", "qq"])))
        elif not case:
            out.append(("case", d.choice("ULul")))
            case = out[-1][1] in "UL"
            if not case:
                out.append(("lit", d.choice(["abc", "X", "öx"])))
        else:
            out.append(("case", "E"))
            case = False
    if case:
        out.append(("case", "E"))       # or else it would go on in the next match
    return out


def spell(d, tpl):
    s = ""
    for i, t in enumerate(tpl):
        if t[0] == "lit":
            s += t[1]
        elif t[0] == "group":
            nxt = tpl[i + 1] if i + 1 < len(tpl) else None
            plain = nxt is None or nxt[0] != "lit" or not nxt[1][0].isdigit()
            s += "$%d" % t[1] if plain and d.bool() else "${%d}" % t[1]
        elif t[0] == "def":
            s += "${%d:-%s}" % t[1:]
        else:
            s += "\\" + t[1]
    return s


def up(ch):
    return ch.upper()


def down(ch):
    return ch.lower()


def expand(tpl, m):
    out, force, keep = "", 0, 0
    for t in tpl:
        if t[0] == "case":
            if t[1] in "UL":
                force = keep = 1 if t[1] == "U" else -1
            elif t[1] == "E":
                force = keep = 0
            else:
                force, keep = (1 if t[1] == "u" else -1), 0
            continue
        if t[0] == "lit":
            s = t[1]
        elif t[0] == "group":
            s = m.group(t[1])
        else:
            s = m.group(t[1]) if m.group(t[1]) is not None else t[2]
        for ch in s:
            out += up(ch) if force > 0 else down(ch) if force < 0 else ch
            force = keep
    return out


def run(ctx, a, text):
    r = ctx.run(a, text)
    if r.code == 1 and b"match limit exceeded" in r.err:
        raise pbt.Discard("match limit")
    return C.ok(r, a)


class Rule:
    def __init__(self, d, safe=False, blanksafe=False):
        if d.bool(0.15):
            # literal
            self.pat = re.escape(d.choice(["ab", "a", "b.", "c", "de"])) if d.bool() else d.choice(["ab", "a", "cd"])
            pat = Pat(d)
        else:
            pat = Pat(d, safe)
            self.pat = pat.whole()
        self.re = to_python(self.pat)
        with pbt.limit(2):
            on_blanks = (safe or blanksafe) and any(self.re.search(" " * n) for n in (*range(12), 40))
        if on_blanks:
            self.pat = "ab"
            self.re, pat.always, pat.groups = to_python("ab"), [], 0
        self.tpl = template(d, pat)
        self.with_ = spell(d, self.tpl)
        self.mode = d.choice(["global", "once", ""])

    def config(self):
        return (self.mode, self.pat, self.with_)

    def apply(self, line):
        with pbt.limit(2):      # the model backtracks without end on some patterns
            return self.re.sub(lambda m: expand(self.tpl, m), line, count=1 if self.mode == "once" else 0)


def apply_all(rules, line):
    for r in rules:
        line = r.apply(line)
        if len(line) > 1500:
            raise pbt.Discard("grows too much")
        if "\n" in line:
            raise pbt.Discard()
    return line


def rule_text(d, solid=False):
    """solid: for removal; nothing in it looks like a box"""
    chars = "".join(c for c in TEXT if c not in C.BOXSET) if solid else TEXT
    lines = []
    n = d.small(1, 6, 1.5)
    most = 16
    if d.bool(0.04):
        n, most = d.choice([(d.int(20, 130), 16), (n, 150)])
    for i in range(n):
        k = d.small(0, most, 7 if most == 16 else 50)
        s = "".join(d.choice(chars) for _ in range(k))
        if not solid and d.bool(0.3):
            s = " " * d.small(1, 5, 2) + s
        lines.append(s.rstrip())
    if solid:
        lines[0] = lines[0].strip() or "a"
        lines[-1] = lines[-1].strip() or "b"
    return "\n".join(lines) + "\n"


def others(d, n):
    """Other designs with rules of their own, before and behind"""
    out = []
    for i in range(n):
        g = G.design(d, name="o%d" % i)
        g.replace = [Rule(d).config() for _ in range(d.int(0, 2))]
        g.reverse = [Rule(d).config() for _ in range(d.int(0, 2))]
        out.append(g)
    return out


def blank_rows(g, text, box):
    """Removing the box may leave blank rows, or blanks in rows"""
    n = (0 if g.empty_side(M.TOP) else g.h("NW")) + (0 if g.empty_side(M.BOTTOM) else g.h("SW"))
    if box.count(b"\n") != n + text.count("\n"):
        return True
    rows = [l for side in (M.TOP, M.BOTTOM) if not g.empty_side(side) for n in M.SIDES[side] for l in g.shapes.get(n, [])]
    return g.padding[0] or g.padding[2] or any(M.is_blank(l) for l in rows) or any(not l.strip() for l in text.split("\n")[:-1])


def surround(d, g):
    k = d.small(0, 2, 0.4)
    o = others(d, k)
    at = d.int(0, k)
    return "".join(G.config(x) for x in o[:at] + [g] + o[at:])


def draw(d, ctx):
    g = G.design(d, alpha=C.alpha(d))
    rules = [Rule(d) for _ in range(d.weighted([(4, 1), (3, 2), (2, 3), (1, 5), (0.4, 9), (0.2, 15)]))]
    rev = [Rule(d) for _ in range(d.small(0, 2, 0.4))]
    g.replace = [r.config() for r in rules]
    g.reverse = [r.config() for r in rev]
    o, args, _ = C.gen_options(d, align=0.3, padding=0.2, size=0.2, indent=0.4, tabs=0)
    text = rule_text(d)
    changed = []

    def subst(lines, maxline):
        new = [apply_all(rules, l) for l in lines]
        changed.extend(a for a, b in zip(lines, new) if a != b)
        if any(l != l.rstrip(M.WS) for l in new):
            raise pbt.Discard("trailing blanks")
        return new, max(M.width(l) for l in new)
    p = M.draw(g, o, text, subst)
    cfgtext = surround(d, g)
    cfg = ctx.file("c.cfg", cfgtext)
    a = ["-f", cfg, "-d", "gen"] + args
    r = run(ctx, a, text)
    rows, _ = C.rows_of(r)
    d.nontrivial = bool(changed)
    d.key = (text, repr(g.replace), tuple(args), repr(g.given))
    d.sample = {"text": text[:200], "rules": g.replace, "box": "\n".join(rows)[:300]}
    d.label("%d rules" % len(rules), *sorted({m or "default" for m, _, _ in g.replace}))
    if not M.same_rows(p.rows, rows):
        C.fail("not the box of the substituted text", ("text", text), ("rules", repr(g.replace)), ("options", repr(args)),
               ("design", G.config(g)), ("wanted", p.rows), ("got", rows))


def remove(d, ctx):
    g = removable_design(d)
    closed = not g.empty_side(M.RIGHT)
    o, args = M.Opts(), []
    if d.bool(0.3):
        G.opt_indent(d, o, args)
    text = rule_text(d, solid=True)
    cfg = ctx.file("plain.cfg", G.config(g))
    box = C.ok(ctx.run(["-f", cfg] + args, text), args).out
    h = M.Design(g.name, g.given, g.elastic_given, g.padding, g.indent)
    rev = [Rule(d, closed, blank_rows(g, text, box)) for _ in range(d.weighted([(4, 1), (3, 2), (2, 3), (0.3, 8), (0.2, 14)]))]
    rules = [Rule(d) for _ in range(d.small(0, 2, 0.4))]
    h.reverse = [r.config() for r in rev]
    h.replace = [r.config() for r in rules]
    cfg = ctx.file("c.cfg", surround(d, h))
    a = ["-f", cfg, "-d", "gen", "-r"] + args
    got = C.rows_of(run(ctx, a, box))[0]
    orig = original(text, o, o.indent or g.mode())
    want = [C.norm(apply_all(rev, l)) for l in orig]
    got = [C.norm(l) for l in got]
    d.nontrivial = want != orig
    d.key = (text, repr(h.reverse), tuple(args), repr(g.given))
    d.sample = {"text": text[:200], "rules": h.reverse, "removed": "\n".join(got)[:300]}
    d.label("right closed" if closed else "right open")
    # vertical padding of the design may remain, depending on what -k means for it
    if strip_blank(got) != strip_blank(want):
        C.fail("not the reversion of the text in the box", ("box", box), ("rules", repr(h.reverse)),
               ("options", repr(args)), ("design", G.config(h)), ("wanted", want), ("got", got))


def mend(d, ctx):
    """Reversion, then replacement again"""
    g = removable_design(d)
    if not all(M.is_blank(l) is False for n in ("N", "S") for l in g.shapes.get(n, ["x"])):
        g = G.fallback("gen", C.ALPHAS[0], list(g.padding), g.indent)
    text = rule_text(d, solid=True)
    closed = not g.empty_side(M.RIGHT)
    rev = [Rule(d, closed, True) for _ in range(d.count(0, 2, 12))]
    rules = [Rule(d) for _ in range(d.count(0, 2, 12))]
    g.reverse = [r.config() for r in rev]
    g.replace = [r.config() for r in rules]
    cfg = ctx.file("c.cfg", G.config(g))
    a = ["-f", cfg, "-d", "gen"]
    box = run(ctx, a, text).out
    got = C.rows_of(run(ctx, a + ["-m"], box))[0]
    # by hand
    plain = M.Design(g.name, g.given, g.elastic_given, g.padding, g.indent)
    cfg2 = ctx.file("p.cfg", G.config(plain))
    inner = C.rows_of(C.ok(ctx.run(["-f", cfg2, "-d", "gen", "-r", "-k", "false"], box)))[0]
    mid = "\n".join(apply_all(rev, l).rstrip() for l in inner) + "\n"
    want = C.rows_of(run(ctx, a, mid))[0]
    d.nontrivial = bool(rev) and bool(rules) and "\n".join(inner) + "\n" != text
    d.key = (text, repr(g.reverse), repr(g.replace), repr(g.given))
    d.sample = {"text": text[:200], "rules": g.replace, "reverse": g.reverse, "mended": "\n".join(got)[:300]}
    inner = strip_blank(inner)
    if not inner or "".join(apply_all(rev, inner[0])).strip() == "" or apply_all(rev, inner[-1]).strip() == "":
        raise pbt.Discard()
    if g.mode() != "b" or "\n " in "\n" + mid:
        # what is indentation and what is not would need a closer look
        if "\n " in "\n" + mid:
            raise pbt.Discard()
    if strip_blank(got) != strip_blank(want):
        C.fail("mending is not reversion and drawing", ("box", box), ("replace", repr(g.replace)), ("reverse", repr(g.reverse)),
               ("design", G.config(g)), ("text in between", mid), ("wanted", want), ("got", got))


BAD_PATTERNS = ["(", ")", "[a", "*a", "a{2,1}", "(?<a", "a\\", "[b-a]", "(?P<n", "+", "a**b(", "[[:nope:]]", "\\x{110000000}", "(?<=a+)b"]
BAD_REPLACEMENTS = ["${", "$9", "${1", "$", "\\q", "${9}", "a$", "${1:-", "x${a}", "$1"]


def malformed(d, ctx):
    """A rule which cannot be applied ends the run, if it is applied at all; else it does no harm"""
    g = removable_design(d) if d.bool(0.5) else G.fallback("gen", C.ALPHAS[0], [0, 0, 0, 0], "")
    text = "".join(d.choice(["", "  "]) + "".join(d.choice("abcde") for _ in range(d.int(1, 6))) + "\n" for _ in range(d.small(1, 5, 1.5)))
    text = text.lstrip(" ")
    kind = d.choice(["replace", "reverse"])
    which = d.choice(["pattern", "replacement", "never"])
    if which == "pattern":
        rule = (d.choice(["global", "once", ""]), d.choice(BAD_PATTERNS), d.choice(["x", "$1", ""]))
    else:
        rule = (d.choice(["global", "once", ""]), "[a-e]" if which == "replacement" else "Q", d.choice(BAD_REPLACEMENTS))
    harmless = [("global", "[0-9]", "n"), ("once", "^Q*", ""), ("", "X(Y)", "$1")]
    for k in ("replace", "reverse"):
        setattr(g, k, [d.choice(harmless) for _ in range(d.small(0, 2, 0.5))])
    plain = ctx.file("plain.cfg", G.config(g))
    elsewhere = d.bool(0.15)
    if elsewhere:
        o = G.fallback("other", C.ALPHAS[0], [0, 0, 0, 0], "")
        setattr(o, kind, [rule])
        cfg = ctx.file("c.cfg", "".join(G.config(x) for x in d.shuffled([o, g])))
    else:
        rules = getattr(g, kind)
        rules.insert(d.int(0, len(rules)), rule)
        cfg = ctx.file("c.cfg", G.config(g))
    op = d.choice(["", "-r", "-m"])
    box = C.ok(ctx.run(["-f", plain, "-d", "gen"], text)).out
    a = ["-d", "gen"] + ([op] if op else [])
    want = C.ok(ctx.run(["-f", plain] + a, box if op else text))
    got = ctx.run(["-f", cfg] + a, box if op else text)
    applied = not elsewhere and which != "never" and (op == "-m" or (op == "-r") == (kind == "reverse"))
    d.nontrivial = True
    d.key = (text, rule, kind, op, elsewhere, repr(g.given))
    d.sample = {"text": text, "rule": [kind] + list(rule), "option": op, "exit": got.code, "message": got.err.decode("utf-8", "replace")[:150]}
    d.label(which, kind, op or "draw", "applied" if applied else "not applied")
    if applied:
        if got.code != 1 or got.out or not got.err:
            C.fail("a rule that cannot be applied was not reported", ("rule", repr((kind,) + rule)), ("design", G.config(g)),
                   ("text", box if op else text), ("exit code", str(got.code)), ("got", got.out))
    elif got.code != 0 or got.out != want.out or got.err:
        C.fail("a rule that is not applied has an effect", ("rule", repr((kind,) + rule)), ("design", G.config(g)),
               ("text", box if op else text), ("exit code", str(got.code)), ("wanted", want.out), ("got", got.out))


PARTS = [
    pbt.Part("draw", draw, 12000, 500000, "a rule changed the text (distinct cases)"),
    pbt.Part("remove", remove, 6000, 250000, "a rule changed the text (distinct cases)"),
    pbt.Part("mend", mend, 3000, 100000, "rules of both kinds, and the drawn text differs from the input (distinct cases)"),
    pbt.Part("malformed", malformed, 3000, 60000, "all (distinct cases)"),
]
ASSUMPTIONS = ["the meaning of patterns is Python's re (ASCII classes), on constructs that both engines document alike",
               "no tabs and escape sequences in the text; substitutions that leave trailing blanks are not judged",
               "inside of a closed right side, patterns that can match blanks are not used on removal"]
