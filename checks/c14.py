"""C14: character encodings."""
import ctypes
import functools

import common as C
import gen as G
import model as M
import pbt
from c08 import removable_design

libc = ctypes.CDLL(None)
libc.iconv_open.restype = ctypes.c_void_p
libc.iconv_open.argtypes = [ctypes.c_char_p, ctypes.c_char_p]
libc.iconv.restype = ctypes.c_size_t
libc.iconv.argtypes = [ctypes.c_void_p] + [ctypes.c_void_p] * 4
libc.iconv_close.argtypes = [ctypes.c_void_p]


def iconv(data, frm, to):
    """With the C library; None if impossible"""
    cd = libc.iconv_open(to.encode(), frm.encode())
    if cd in (None, ctypes.c_void_p(-1).value):
        return None
    inp, out = ctypes.create_string_buffer(data, len(data)), ctypes.create_string_buffer(16 * len(data) + 16)
    ip, op = ctypes.c_void_p(ctypes.addressof(inp)), ctypes.c_void_p(ctypes.addressof(out))
    il, ol = ctypes.c_size_t(len(data)), ctypes.c_size_t(len(out))
    r = libc.iconv(cd, ctypes.byref(ip), ctypes.byref(il), ctypes.byref(op), ctypes.byref(ol))
    if r != ctypes.c_size_t(-1).value:
        r = libc.iconv(cd, None, None, ctypes.byref(op), ctypes.byref(ol))
    libc.iconv_close(cd)
    return None if r == ctypes.c_size_t(-1).value else out.raw[:len(out) - ol.value]


# name for boxes, name for Python
ENCODINGS = [("ISO-8859-1", "iso8859-1"), ("ISO_8859-15", "iso8859-15"), ("iso-8859-2", "iso8859-2"),
             ("ISO-8859-5", "iso8859-5"), ("ISO-8859-7", "iso8859-7"), ("CP1252", "cp1252"), ("CP1251", "cp1251"),
             ("KOI8-R", "koi8-r"), ("CP437", "cp437"), ("cp850", "cp850"), ("MACINTOSH", "mac-roman"),
             ("EUC-JP", "euc-jp"), ("EUC-KR", "euc-kr"), ("GB18030", "gb18030"), ("GBK", "gbk"), ("BIG5", "big5"),
             ("SHIFT_JIS", "shift-jis"), ("CP932", "cp932"), ("US-ASCII", "ascii"), ("ISO-2022-JP", "iso2022-jp"),
             ("UTF-8", "utf-8")]
ALL = G.WORD + G.NARROW + G.WIDE + G.BOXNARROW + G.BOXWIDE + "ąćęłÄÖÜçÅñ«»¬½¼αβΓΣабвгЖШ中文字体測試日本한국あいうアイウ「」、。ａｂ¡¿§±¶…–—‘’“”•™"


# in which all characters other than ASCII take two columns
CJK = ("EUC-JP", "EUC-KR", "GBK", "BIG5")


@functools.lru_cache(None)
def table(enc):
    """character -> bytes, for the characters on which C library and Python agree"""
    name, py = enc
    t = {}
    for ch in set(ALL):
        try:
            b = ch.encode(py)
        except UnicodeEncodeError:
            continue
        if name in CJK and ord(ch) > 127 and M.cw(ch) != 2:
            continue
        if iconv(b, name, "UTF-8") == ch.encode() and iconv(ch.encode(), "UTF-8", name) == b:
            t[ch] = b
    return t


@functools.lru_cache(None)
def pools(enc):
    """(characters for text, for shapes) of an encoding: narrow, wide"""
    t = table(enc)
    text = "".join(sorted((c for c in t if c not in G.WORD and c not in C.BOXSET), key=ALL.index))
    nar = "".join(c for c in G.BOXNARROW if c in t)
    wid = "".join(c for c in G.BOXWIDE if c in t)
    return text, nar, wid


def available(d):
    return d.choice([e for e in ENCODINGS if table(e)])


def some_text(d, pool, **kw):
    text = G.text(d, 0, **kw)
    if not pool:
        return text
    # replace some letters by others of the encoding
    return "".join(d.choice(pool) if ch not in " \t\n" and d.bool(0.3) else ch for ch in text)


def convert(s, enc):
    """None if not all of it can be encoded; stateful encodings by line, as boxes reads lines"""
    try:
        return b"\n".join(l.encode(enc[1]) for l in s.split("\n"))
    except UnicodeEncodeError:
        return None


def back(b, enc, pics):
    try:
        return b.decode(enc[1])
    except UnicodeDecodeError as e:
        C.fail("the output is not valid %s: %s" % (enc[0], e), *pics)


def run_both(ctx, args, text, enc, env, pics):
    """Result in UTF-8, result in the other encoding (decoded)"""
    u = C.ok(ctx.run(args + ["-n", "UTF-8"], text, env={"LC_ALL": "C"} if env else None), args)
    a = args + ["-n", enc[0]]
    data = convert(text, enc)
    e = C.ok(ctx.run(a, data, env={"LC_ALL": "C"} if env else None), a)
    us = C.decode(u.out)
    pics.append(("UTF-8", us))
    pics.append((enc[0], repr(e.out)))
    return us, back(e.out, enc, pics), e.out


def same(d, ctx):
    enc = available(d)
    tpool, nar, wid = pools(enc)
    env = d.bool(0.2)
    g = removable_design(d)
    if d.bool(0.7) and (nar or wid):
        # use characters of the encoding in the shapes
        m = {}
        for n, v in g.given.items():
            for l in v:
                for ch in l:
                    if ch != " " and ch not in m:
                        c = d.choice((wid or ch) if M.cw(ch) == 2 else (nar or ch))
                        m[ch] = c if M.cw(c) == M.cw(ch) else ch
        g = M.Design(g.name, {n: ["".join(m.get(c, c) for c in l) for l in v] for n, v in g.given.items()},
                     g.elastic_given, g.padding, g.indent)
    t = table(enc)
    for v in g.given.values():
        for l in v:
            if any(c not in t and c not in G.BOXCH + " " for c in l):
                g = G.fallback("gen", C.ALPHAS[0], [0, 0, 0, 0], None)
    if enc[0] == "SHIFT_JIS":  # no backslash and tilde there
        ren = {ord("\\"): "/", ord("~"): "^"}
        g = M.Design(g.name, {n: [l.translate(ren) for l in v] for n, v in g.given.items()}, g.elastic_given,
                     g.padding, g.indent)
    if not C.removable(g):
        g = G.fallback("gen", C.ALPHAS[0], [0, 0, 0, 0], None)
    o, args, tabs = C.gen_options(d, align=0.3, padding=0.3, size=0.2, tabs=0.3)
    text = some_text(d, tpool, maxlines=d.choice([3, 6]), tabs=tabs)
    if tpool and d.bool(0.3):
        # rules with characters of the text (and new ones), which can be in any encoding
        seen = [c for c in text if c in tpool] or list(tpool[:3])
        for rules in (g.replace, g.reverse):
            for _ in range(d.int(0, 2)):
                rules.append((d.choice(["", "once", "global"]), d.choice(seen) + d.choice(["", "", "?", "+", "."]),
                              d.choice([d.choice(tpool), d.choice(tpool) + "x", "y"])))
        d.label("rules")
    cfg = ctx.file("c.cfg", G.config(g))
    base = ["-f", cfg, "-d", "gen"]
    pics = [("text", text), ("options", repr(args)), ("design", G.config(g)), ("encoding", enc[0])]
    us, es, raw = run_both(ctx, base + args, text, enc, env, pics)
    d.nontrivial = any(ord(c) > 127 for c in us) and enc[0] not in ("UTF-8",)
    d.key = (text, enc, tuple(args), repr(g.given))
    d.sample = {"encoding": enc[0], "text": text[:200], "box": us[:300]}
    d.label(enc[0])
    if us != es:
        C.fail("the box is different in %s" % enc[0], *pics)
    if enc[0] != "ISO-2022-JP" and raw != convert(us, enc):
        C.fail("the output is not the transcoded one", *pics)
    op = d.choice(["-r", "-m"])
    pics = [("box", us), ("design", G.config(g)), ("encoding", enc[0]), ("operation", op)]
    us2, es2, raw2 = run_both(ctx, base + [op], us, enc, env, pics)
    if us2 != es2:
        C.fail("%s gives something else in %s" % (op, enc[0]), *pics)
    d.label(op)


SUBST = {}


def substitute(ctx, enc, ch):
    """What is printed for this character alone"""
    if (enc, ch) not in SUBST:
        s = C.ok(ctx.run(["-c", ch, "-n", enc[0]], b"x")).out.decode(enc[1])
        s = s[:-2] if s.endswith(" x") else ""
        if not s or not all(" " <= c <= "~" for c in s):
            C.fail("the character %r is not replaced in %s, but becomes %r" % (ch, enc[0], s))
        SUBST[enc, ch] = s
    return SUBST[enc, ch]


def question(d, ctx):
    """Shapes with characters that the encoding does not have; each becomes what it becomes alone (mostly '?')."""
    enc = available(d)
    tpool, nar, wid = pools(enc)
    g = G.design(d, alpha=d.choice([G.Alpha(G.BOXNARROW, G.BOXWIDE), G.Alpha(G.BOXNARROW + G.BOXCH, G.BOXWIDE)]))
    if enc[0] == "SHIFT_JIS":
        ren = {ord("\\"): "/", ord("~"): "^"}
        g = M.Design(g.name, {n: [l.translate(ren) for l in v] for n, v in g.given.items()}, g.elastic_given,
                     g.padding, g.indent)
    if enc[0] in CJK and any(ord(c) > 127 and M.cw(c) != 2 for v in g.given.values() for l in v for c in l):
        raise pbt.Discard()
    t = table(enc)
    allowed = set(t) | set(" \t\n") | set(map(chr, range(32, 127)))
    # Only those characters which both converters know or neither
    for v in g.given.values():
        for l in v:
            for c in l:
                if c not in allowed:
                    try:
                        c.encode(enc[1])
                    except UnicodeEncodeError:
                        if iconv(c.encode(), "UTF-8", enc[0]) is None:
                            continue
                    raise pbt.Discard()
    o, args, tabs = C.gen_options(d, align=0.3, padding=0.3, size=0.2, tabs=0)
    text = some_text(d, tpool, maxlines=4)
    cfg = ctx.file("c.cfg", G.config(g))
    pics = [("text", text), ("options", repr(args)), ("design", G.config(g)), ("encoding", enc[0])]
    us, es, raw = run_both(ctx, ["-f", cfg] + args, text, enc, False, pics)
    want = "".join(c if c in allowed else substitute(ctx, enc, c) for c in us)
    d.nontrivial = want != us
    d.key = (text, enc, tuple(args), repr(g.given))
    d.sample = {"encoding": enc[0], "text": text[:200], "box": us[:300], "result": es[:300]}
    d.label(enc[0])
    if want != es:
        C.fail("not exactly the substitute for each character that %s does not have" % enc[0], *(pics + [("wanted", want)]))


def invalid_bytes(d, ctx):
    """Bytes that mean nothing in the encoding count as a '?' each"""
    enc, bad = d.choice([("UTF-8", b"\xff"), ("UTF-8", b"\xfe"), ("US-ASCII", b"\xe4"), ("US-ASCII", b"\xff"),
                         ("UTF-8", b"\xc0"), ("CP1252", b"\x81"), ("ISO-8859-7", b"\xff")])
    g = G.design(d)
    o, args, tabs = C.gen_options(d, align=0.3, padding=0.3, size=0.2, tabs=0.3)
    text = G.text(d, 0, maxlines=4, tabs=tabs)
    # a letter that stands for the invalid byte
    chars, hit = [], 0
    for ch in text:
        if ch in G.WORD and d.bool(0.25):
            ch, hit = "?", hit + 1
        chars.append(ch)
    want_text = "".join(chars)
    data = want_text.encode().replace(b"?", bad)
    cfg = ctx.file("c.cfg", G.config(g))
    a = ["-f", cfg] + args + ["-n", enc]
    r = C.ok(ctx.run(a, data), a)
    w = C.ok(ctx.run(["-f", cfg] + args, want_text), args)
    d.nontrivial = hit > 0
    d.key = (data, tuple(a))
    d.sample = {"encoding": enc, "text": repr(data[:200]), "box": w.text()[:300]}
    d.label(enc)
    if r.code != 0 or r.out != w.text().encode({"ISO-8859-7": "iso8859-7"}.get(enc, enc)):
        C.fail("invalid bytes do not count as question marks", ("text", repr(data)), ("design", G.config(g)),
               ("wanted", w.out), ("got", repr(r.out)), ("encoding", enc))


def listing(d, ctx):
    """Listings are converted as well"""
    enc = available(d)
    tpool, nar, wid = pools(enc)
    pool = (tpool + nar + wid) or "x"
    gs = []
    for i in range(d.int(1, 3)):
        g = G.design(d, name="n%d" % i)
        w = lambda: "".join(d.choice(pool) if d.bool() else d.choice(G.WORD) for _ in range(d.int(1, 9)))
        g.sample = "\n".join(w() for _ in range(d.int(1, 3)))
        g.author, g.designer = w(), w()
        gs.append(g)
    if enc[0] == "SHIFT_JIS":
        raise pbt.Discard()
    cfg = ctx.file("c.cfg", "".join(G.config(g) for g in gs))
    args = ["-f", cfg, "-l"]
    pics = [("config", "".join(G.config(g) for g in gs)), ("encoding", enc[0])]
    us, es, raw = run_both(ctx, args, "", enc, False, pics)
    d.nontrivial = any(ord(c) > 127 for c in us) and enc[0] != "UTF-8"
    d.key = (enc, us)
    d.sample = {"encoding": enc[0], "listing": us[:300]}
    d.label(enc[0])
    if us != es:
        C.fail("the listing is different in %s" % enc[0], *pics)


def unknown(d, ctx):
    """An unknown encoding is reported, and the one of the system used"""
    name = d.choice(["nosuch", "UTF8x", "ISO-8859-99", "-", "latin-x", "x" * 300, "%s", "no such"])
    g = G.design(d, alpha=G.Alpha(G.BOXNARROW))
    text = G.text(d, 2)
    loc = d.choice(["C.UTF-8", "C"])
    cfg = ctx.file("c.cfg", G.config(g))
    op = d.choice([[], ["-r", "-d", "gen"], ["-m", "-d", "gen"]])
    want = C.ok(ctx.run(["-f", cfg] + op, text, env={"LC_ALL": loc}))
    r = ctx.run(["-f", cfg, "-n", name] + op, text, env={"LC_ALL": loc})
    d.nontrivial = bool(text.strip())
    d.key = (name, text, loc, tuple(op))
    d.sample = {"encoding": name, "text": text[:100], "locale": loc}
    if r.code != 0 or r.out != want.out:
        C.fail("unknown encoding: not the same output as without", ("wanted", want.out), ("got", r.out), ("name", name),
               ("stderr", r.err))
    if name.encode() not in r.err or b"encoding" not in r.err.lower():
        C.fail("unknown encoding not reported", ("stderr", r.err), ("name", name))


PARTS = [
    pbt.Part("same", same, 6000, 250000, "there are non-ASCII characters, and the encoding is not UTF-8 (distinct cases)"),
    pbt.Part("question-marks", question, 4000, 150000, "some characters of the box are not in the encoding (distinct cases)"),
    pbt.Part("invalid-bytes", invalid_bytes, 2500, 80000, "the text contains invalid bytes (distinct cases)"),
    pbt.Part("listing", listing, 1500, 50000, "the listing contains non-ASCII characters (distinct cases)"),
    pbt.Part("unknown", unknown, 800, 20000, "the text is not blank (distinct cases)"),
]
ASSUMPTIONS = ["narrow non-ASCII characters are not used in EUC-JP, EUC-KR, GBK, BIG5, where they take two columns",
               "ASCII-compatible encodings only: UTF-16/32 text cannot be read line by line by boxes (documented as text files)",
               "the conversion tables are those on which the C library and Python agree",
               "each of the tested invalid bytes is invalid whatever follows"]
