"""C18: broken designs are reported and ignored; valid ones never rejected."""
import re

import common as C
import gen as G
import model as M
import notation as N
import pbt

NAMES = ["alpha", "beta", "gamma", "delta", "c-box", "Mixed"]


def good(d, name, plain=False):
    g = G.design(d, name=name, alpha=d.choice(C.ALPHAS))
    N.decorate(d, g, rules=not plain)
    if d.bool(0.4):
        g.aliases = [name + "-x"] + ([name + "-y"] if d.bool(0.3) else [])
    return g


def block(lines, first, last=None):
    """index range of an entry of the plain notation"""
    for i, l in enumerate(lines):
        if l.split(" ")[0].split("\n")[0] == first:
            return i
    return -1


# Each fault: fn(d, g, others) -> text of the design, or None if it does not apply. The structure (braces, ENDS, END)
# stays intact. g is a valid design; plain notation is one list item per entry, made by G.config.

def entries(g):
    """the entries of the plain notation, each with its lines"""
    ls = G.config(g).rstrip("\n").split("\n")
    out, i = [], 0
    while i < len(ls):
        l = ls[i]
        j = i + 1
        if l == "sample":
            while ls[j] != "ends":
                j += 1
            j += 1
        elif l == "shapes {":
            while ls[j] != "}":
                j += 1
            j += 1
        out.append(ls[i:j])
        i = j
    return out


def find(es, word):
    for i, e in enumerate(es):
        if re.match(r"%s\b" % word, e[0]):
            return i
    raise AssertionError((word, es))


def text(es):
    return "\n".join("\n".join(e) for e in es) + "\n"


def middle(d, es):
    """a place for another entry: behind the first line and in front of the END line"""
    return d.int(1, len(es) - 1)


def f_missing(word):
    def fn(d, g, o):
        es = entries(g)
        del es[find(es, word)]
        return text(es)
    return fn


def f_dup_sample(d, g, o):
    es = entries(g)
    es.insert(d.int(find(es, "sample") + 1, len(es) - 1), ["sample", "again", "ends"])
    return text(es)


def f_blank_sample(d, g, o):
    es = entries(g)
    es[find(es, "sample")] = ["sample"] + ["   "] * d.int(0, 2) + ["ends"]
    return text(es)


def f_ctl_sample(d, g, o):
    es = entries(g)
    es[find(es, "sample")] = ["sample", "ab" + d.choice("\x01\x07\x0c\x7f") + "c", "ends"]
    return text(es)


def pick_shape(d, g, cond=lambda n: True):
    names = [n for n in M.ALL if n in g.given and cond(n)]
    return d.choice(names) if names else None


def f_unequal_lines(d, g, o):
    n = pick_shape(d, g)
    v = list(g.given[n])
    if d.bool():
        v.insert(d.int(1, len(v)), v[0] + "x" * d.int(1, 2))
    elif len(v) > 1 and M.width(v[-1]) > 1:
        v[-1] = "y" * (M.width(v[-1]) - 1)
    else:
        v.append(v[0] + "y")
    g.given[n] = v
    return G.config(g)


def f_empty_line(d, g, o):
    n = pick_shape(d, g)
    v = list(g.given[n])
    v[d.int(0, len(v) - 1)] = ""
    g.given[n] = v
    return G.config(g)


def f_ctl_shape(d, g, o):
    n = pick_shape(d, g)
    v = list(g.given[n])
    i = d.int(0, len(v) - 1)
    v[i] = d.choice(["\x01", "\x07", "\x7f"]) + v[i][1:]
    g.given[n] = v
    return G.config(g)


def f_dup_shape(d, g, o):
    n = pick_shape(d, g)
    es = entries(g)
    e = es[find(es, "shapes")]
    k = [i for i, l in enumerate(e) if l.startswith("  %s (" % n.lower())][0]
    e.insert(d.int(k + 1, len(e) - 1), e[k])
    return text(es)


def f_invisible(d, g, o):
    for n in g.given:
        g.given[n] = [" " * M.width(l) for l in g.given[n]]
    return G.config(g)


def f_sizes(d, g, o):
    """a shape of another size than the others of its side"""
    names = [n for n in M.ALL if n in g.given]
    for n in d.shuffled(names):
        v = list(g.given[n])
        new = v + [v[0]] if d.bool() else [l + "x" for l in v]
        given = dict(g.given)
        given[n] = new
        if not M.valid(given, g.elastic_given):
            g.given = given
            return G.config(g)
    return None


def f_elastic(d, g, o):
    """elastic shapes which are not allowed"""
    for _ in range(6):
        el = list(g.elastic_given)
        k = d.choice(["add", "drop", "swap"])
        if k != "add" and el:
            el.pop(d.int(0, len(el) - 1))
        if k != "drop":
            el.append(d.choice([n for n in M.ALL if n not in el]))
        if el and not M.valid(g.given, el):
            g.elastic_given = el
            return G.config(g)
    return None


def f_end_name(d, g, o):
    es = entries(g)
    es[-1] = ["END " + d.choice(["other", g.name + "x", g.name[:-1] or "q"] + g.aliases)]
    return text(es)


def f_dup_name(d, g, o):
    if not o:
        return None
    x = d.choice(o)
    g.name = d.choice([x.name, x.name.upper(), x.name.swapcase()] + x.aliases)
    g.aliases = []
    return G.config(g)


def f_dup_alias(d, g, o):
    if not o:
        return None
    x = d.choice(o)
    g.aliases = [d.choice([x.name, x.name.upper()] + x.aliases)]
    if d.bool(0.3):
        g.aliases.insert(0, g.name + "-z")
    return G.config(g)


def f_indent(d, g, o):
    g.indent = d.choice(["", "bo", "boxes", "left", "t", "Nones", "böx", " box"])
    if not g.indent:
        es = entries(g)
        es.insert(middle(d, es), ['indent ""'])
        return text(es)
    return G.config(g)


def f_ctl_author(d, g, o):
    es = entries(g)
    es.insert(middle(d, es), ['%s "Jane%sDoe"' % (d.choice(["author", "designer"]), d.choice("\x01\x07\x0b\x7f"))])
    return text(es)


def f_unterminated(d, g, o):
    es = entries(g)
    k = d.choice(["entry", "entry2", "shape", "rule"])
    if k == "entry":
        es.insert(middle(d, es), ['author "Jane Doe'])
    elif k == "entry2":
        es.insert(middle(d, es), ['designer "Jane Doe\\"'])
    elif k == "rule":
        es.insert(middle(d, es), ['replace "a with b'])
    else:
        e = es[find(es, "shapes")]
        i = d.int(1, len(e) - 2)
        j = e[i].rindex('")')
        e[i] = e[i][:j] + ")"
        if e[i].count('"') % 2 == 0 or "\\" in e[i]:
            return None
    return text(es)


STRAY = ["%", "42", ",", ")", "(", "word", "author", "designer", "indent", "replace", 'replace "a"', 'replace "a" to "b"',
         'reverse "a" with "b"', "replace once", 'replace twice "a" with "b"', '"string"', "tags", "tags ()", 'tags ("a",)',
         'tags ("a"', "padding { }", "padding { top }", "padding { 3 }", 'padding { top "3" }', "elastic ( )",
         "elastic (nx)", "elastic (n,)", "elastic (n e)", "wörd", "w\u0085rd", "once", "with", "author 42", 'author ("x")', "$",
         'delim "', "delim \\\\", "delim abc", "delim xx", "delim \\#", "delimiter \\a", "padding { top 1, left 2 }"]


def f_stray(d, g, o):
    es = entries(g)
    s = d.choice(STRAY)
    at = middle(d, es)
    # a keyword and the entry behind it must not make sense together
    nxt = es[at][0] if at < len(es) else ""
    if s in ("tags", "word", "wörd", "author", "replace", "designer", "indent") and nxt[:1] in "\"'":
        return None
    es.insert(at, [s])
    return text(es)


def f_no_comma(d, g, o):
    es = entries(g)
    e = es[find(es, "shapes")]
    for i in range(1, len(e) - 1):
        if '", "' in e[i] and "\\" not in e[i]:
            e[i] = e[i].replace('", "', '" "', 1) if d.bool() else e[i].replace('", "', '",, "', 1)
            return text(es)
    i = find(es, "elastic")
    if "," in es[i][0]:
        es[i] = [es[i][0].replace(",", d.choice(["", ",,", ";"]), 1)]
        return text(es)
    return None


def f_shape_syntax(d, g, o):
    es = entries(g)
    e = es[find(es, "shapes")]
    i = d.int(1, len(e) - 2)
    k = d.choice(["name", "noparen", "equals", "number", "string"])
    name, rest = e[i].strip().split(" ", 1)
    if k == "name":
        e[i] = "  " + d.choice(["nx", "north", "x", "nn", "42"]) + " " + rest
    elif k == "noparen":
        e[i] = "  " + name + " " + rest[1:]
    elif k == "equals":
        e[i] = "  " + name + " = " + rest
    elif k == "number":
        e[i] = "  " + name + " (42)"
    else:
        e[i] = "  " + name + " " + rest + ' "x"'
    return text(es)


def f_empty(d, g, o):
    return "BOX %s\nEND %s\n" % (g.name, g.name)


def f_empty_shapes(d, g, o):
    es = entries(g)
    es[find(es, "shapes")] = ["shapes {" + d.choice([" ", " w () ", " nw () e () "]) + "}"]
    return text(es)


def f_name(d, g, o):
    es = entries(g)
    n = d.choice(["böse", "1x", "-x", "漢字", "a b", "a,", "a;b", '"a"', "_x"])
    es[0] = ["BOX " + n]
    if n != "a b" and d.bool():
        es[-1] = ["END " + n]
    return text(es)


FAULTS = [
    ("no sample", f_missing("sample"), r"mandatory"), ("no shapes", f_missing("shapes"), r"mandatory"),
    ("no elastic", f_missing("elastic"), r"mandatory"), ("two samples", f_dup_sample, r"duplicate SAMPLE"),
    ("blank sample", f_blank_sample, r"SAMPLE block must not be empty"), ("control in sample", f_ctl_sample, r""),
    ("shape lines of different length", f_unequal_lines, r"equal length"), ("empty shape line", f_empty_line, r""),
    ("control in shape", f_ctl_shape, r"invalid character|syntax"), ("shape given twice", f_dup_shape, r"duplicate"),
    ("invisible box", f_invisible, r"at least one non-empty shape"), ("sizes differ", f_sizes, r""),
    ("elastic shapes", f_elastic, r""), ("other name at end", f_end_name, r"differs"),
    ("name in use", f_dup_name, r"duplicate box design name"), ("alias in use", f_dup_alias, r"already in use"),
    ("indent value", f_indent, r""), ("control in string", f_ctl_author, r""),
    ("unterminated string", f_unterminated, r"(?i)unterminated string"), ("stray", f_stray, r""),
    ("commas", f_no_comma, r""), ("syntax in shapes", f_shape_syntax, r""), ("empty design", f_empty, r""),
    ("empty shapes", f_empty_shapes, r""), ("bad name", f_name, r""),
]


def messages(ctx_err, cfg, lo, hi, what, pics):
    """All messages are about that file and those lines"""
    ls = ctx_err.decode("utf-8", "replace").split("\n")[:-1]
    located = False
    if not ls:
        C.fail("%s is not reported" % what, *pics)
    for l in ls:
        m = re.match(r"boxes: (.*?): line (\d+): .", l)
        if not l or not m and l.startswith("boxes: illegal character"):
            continue        # more information, in front of the actual message
        if not m or m.group(1) != cfg:
            C.fail("%s: message without file name and line number: %r" % (what, l), *pics)
        located = True
        if not lo <= int(m.group(2)) <= hi:
            C.fail("%s: message for line %s, but the design is in lines %d to %d: %r" % (what, m.group(2), lo, hi, l), *pics)
    if not located:
        C.fail("%s: no message with file name and line number" % what, *pics)
    return ls


def broken(d, ctx):
    n = d.small(0, 4, 1.5) if not d.bool(0.06) else d.int(5, 25)
    names = d.shuffled(NAMES) + ["n%d" % i for i in range(25)]
    gs = [good(d, names[i], True) for i in range(n)]
    at = d.int(0, n)
    # several broken designs in a row, now and then
    bs, bad, name = [], "", None
    for bname in d.shuffled(["bad", "broken-1", "broken-2"])[:d.weighted([(5, 1), (3, 2), (1, 3)])]:
        b = good(d, bname, True)
        # with many designs, it is the names that matter
        fname, fn, msg = d.choice([f for f in FAULTS if f[0] in ("name in use", "alias in use")] if n > 4 and d.bool(0.7) else FAULTS)
        t = fn(d, b, gs[:at])
        if t is None:
            raise pbt.Discard()
        if bad and not bad.endswith("\n"):
            bad += "\n"
        bad += t
        name = name + ", " + fname if name else fname
        if fname not in ("name in use", "alias in use", "bad name"):
            bs.append(b)
        d.label(fname)
    if "," in name:
        msg = None
        d.label("several broken designs")
    before = N.write(d, gs[:at], eol="\n", bom=False) if at else ""
    if before and not before.endswith("\n"):
        before += "\n"
    after = N.write(d, gs[at:], eol="\n", bom=False) if at < n else ""
    cfgtext = before + bad + after
    lo = before.count("\n") + 1
    hi = lo + bad.count("\n") - 1
    # a missing piece is noticed where something else stands instead
    m = re.search(r"(?m)^[^#\n]*\bbox\b", after, re.I)
    hi += after[:m.end()].count("\n") + 1 if m else after.count("\n") + 1
    text = G.text(d, 1, maxlines=3)
    pics = ("config", cfgtext), ("fault", name)
    cfg = ctx.file("c.cfg", before + after)
    a = ["-f", cfg]
    clean = {}
    runs = [("default", [])] + ([("listing", ["-l"]), ("query", ["-q", "(all)"])] if n else [])
    runs += [("design " + x, ["-d", x]) for g in gs for x in [g.name] + g.aliases]
    for k, args in runs:
        clean[k] = ctx.run(a + args, text)
        if n and (clean[k].code or clean[k].err):
            C.fail("valid designs: exit code %d, message: %r" % (clean[k].code, clean[k].err), ("config", before + after))
    ctx.file("c.cfg", cfgtext)
    d.nontrivial = True
    d.key = cfgtext
    d.sample = {"fault": name, "broken design": bad[:300]}
    for k, args in runs:
        r = ctx.run(a + args, text)
        if n == 0:
            if r.code != 1 or r.out or not re.search(rb"no valid", r.err):
                C.fail("no valid design, but exit code %d, output %r, message %r" % (r.code, r.out, r.err), *pics)
            continue
        if r.code or r.out != clean[k].out:
            C.fail("the broken design (%s) disturbs the others: exit code %d, message %r" % (k, r.code, r.err), *pics,
                   ("without it", clean[k].out), ("with it", r.out))
        if k == "listing":
            ls = messages(r.err, cfg, lo, hi, "the broken design", pics)
            if msg and not any(re.search(msg, l) for l in ls):
                C.fail("the message does not tell the fault (%s): %r" % (msg, ls), *pics)
        if k == "default" and at > 0 and r.err:
            C.fail("message about a design behind the one that is used: %r" % r.err, *pics)
        if k == "default" and at == 0:
            messages(r.err, cfg, lo, hi, "the broken design", pics)
    # not available
    for b in bs:
        for x in [b.name] + b.aliases:
            r = ctx.run(a + ["-d", x], text)
            if r.code != 1 or r.out or b"unknown box design -- " + x.encode() not in r.err:
                C.fail("-d %s: exit code %d, output %r, message %r" % (x, r.code, r.out, r.err), *pics)


# --- no valid design is rejected, no invalid one accepted -------------------------------------------------------------

def rules(d, ctx):
    """Random shapes and elastic shapes: accepted exactly if the rules for designs allow it"""
    given, el = {}, []
    names = d.subset(M.ALL, d.choice([0.15, 0.4, 0.7]))
    w, h = [d.choice([1, 1, 2]) for _ in range(2)], [d.choice([1, 1, 2]) for _ in range(2)]
    for n in names:
        sw = w[0] if n in M.SIDES[M.LEFT] else w[1] if n in M.SIDES[M.RIGHT] else d.int(1, 2)
        sh = h[0] if n in M.SIDES[M.TOP] else h[1] if n in M.SIDES[M.BOTTOM] else d.int(1, 2)
        if d.bool(0.04):
            sw += 1
        if d.bool(0.04):
            sh += 1
        given[n] = [(" " if d.bool(0.2) else d.choice("+-|x")) * sw] * sh
    for side in M.SIDES:
        pres = [n for n in side[1:4] if n in given]
        k = d.weighted([(8, "ok"), (1, "any")])
        if k == "ok" and pres:
            if len(pres) == 3 and d.bool(0.5):
                el += [pres[0], pres[2]]
            else:
                el.append(d.choice(pres))
        elif k == "any":
            el += d.subset(side, 0.3)
    el = sorted(set(el), key=M.ALL.index)
    if not el:
        el = [d.choice(M.ALL)]
    g = M.Design("gen", {n: list(v) for n, v in given.items()}, el) if M.valid(given, el) else None
    want = g is not None
    if want:
        es = G.config(g)
    else:
        class X:
            pass
        x = X()
        x.name, x.aliases, x.author, x.designer, x.tags, x.indent, x.sample = "gen", [], None, None, [], None, "s"
        x.given, x.elastic_given, x.replace, x.reverse, x.padding = given, el, [], [], [0] * 4
        es = G.config(x)
        if not given:
            es = es.replace("shapes {\n}", "shapes {\n w ()\n}")
    if d.bool(0.3):
        ls = es.split("\n")
        i = [k for k, l in enumerate(ls) if l.startswith("elastic")][0]
        e = ls.pop(i)
        ls.insert(d.choice([1, i]), e)
        es = "\n".join(ls)
    cfg = ctx.file("c.cfg", es + "BOX other\nsample\nx\nends\nshapes { w (\"#\") }\nelastic (w)\nEND other\n")
    r = ctx.run(["-f", cfg, "-q", "(all)"])
    got = b"gen\n" in r.out
    d.nontrivial = True
    d.key = es
    d.sample = {"config": es, "valid": want}
    d.label("valid" if want else "invalid")
    if r.code or not r.out.endswith(b"other\n") or got != want or bool(r.err) == want:
        C.fail("this design should be %s: exit code %d, output %r, message %r" % (
            "accepted" if want else "rejected", r.code, r.out, r.err), ("config", es))
    if not want:
        messages(r.err, cfg, 1, es.count("\n") + 1, "the design", [("config", es)])


# --- tolerated ------------------------------------------------------------------------------------------------------

TOLERATED = [
    ("padding { left -3 }", r"padding"), ("padding { foo 3 }", r"padding area"), ("padding { leftt 2 }", r"padding area"),
    ('tags ("no good")', r"invalid tag"), ('tags ("UPPER")', r"invalid tag"), ('tags ("")', r"tag"), ('tags ("t1,t1")', r"duplicate tag"),
    ('tags "none"', r"invalid tag"), ('tags ("a--b")', r"invalid tag"), ('tags "t-"', r"invalid tag"), ('tags "1a"', r"invalid tag"),
]


def tolerated(d, ctx):
    """Wrong tags and padding entries are reported and left out"""
    g = good(d, "gen", True)
    g.tags = [t for t in g.tags if t != "t1"]
    es = entries(g)
    add, msg = d.choice(TOLERATED)
    if add == "padding { left -3 }" and d.bool():
        add = "padding { %s -%d }" % (d.choice(["left", "all", "top", "h"]), d.int(1, 99))
    at = middle(d, es)
    es.insert(at, [add])
    line = "\n".join("\n".join(e) for e in es[:at]).count("\n") + 2
    two = text(es)
    es[at] = ['tags "t1"'] if "t1,t1" in add else []
    es = [e for e in es if e]
    one = text(es)
    txt = G.text(d, 1, maxlines=3)
    cfg = ctx.file("c.cfg", one)
    runs = [[], ["-d", "gen"], ["-l"], ["-l", "-d", "gen"], ["-q", "(all)"]]
    clean = [C.ok(ctx.run(["-f", cfg] + a, txt), a) for a in runs]
    ctx.file("c.cfg", two)
    d.nontrivial = True
    d.key = two
    d.sample = {"entry": add}
    d.label(add.split(" ")[0])
    for a, c in zip(runs, clean):
        r = ctx.run(["-f", cfg] + a, txt)
        if r.code or r.out != c.out:
            C.fail("%r: the design is not used as if the wrong entry were missing: exit code %d, message %r" % (a, r.code, r.err),
                   ("config", two), ("wanted", c.out), ("got", r.out))
        ls = messages(r.err, cfg, line, line + 1, "wrong entry", [("config", two)])
        if not re.search(msg, ls[0]):
            C.fail("message does not tell what is wrong: %r" % ls, ("config", two))


PARTS = [
    pbt.Part("broken", broken, 2500, 60000, "all (distinct configurations)"),
    pbt.Part("rules", rules, 8000, 200000, "all (distinct designs)"),
    pbt.Part("tolerated", tolerated, 1500, 20000, "all (distinct configurations)"),
]
ASSUMPTIONS = ["faults keep the structure of the definition (braces, ENDS, END); a missing one may swallow what follows"]
