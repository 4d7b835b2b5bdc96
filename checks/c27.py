"""C27: failing reads and writes."""
import os

import common as C
import gen as G
import model as M
import notation as N
import pbt


def operation(d, ctx, big=False):
    """(arguments, stdin, label): something which succeeds and prints something"""
    op = d.weighted([(5, "draw"), (3, "-r"), (2, "-m"), (2, "-l"), (1, "-ld"), (2, "-q"), (1, "-h"), (1, "-v"), (1, "-c")])
    al = d.choice([G.Alpha(), G.Alpha(G.BOXNARROW, G.BOXWIDE)])
    gs = []
    for n in ("one", "two", "three")[:d.int(1, 3)]:
        g = N.decorate(d, G.design(d, name=n, alpha=al), rules=False)
        g.tags = ["a"] if d.bool() else ["a", "b"]
        g.sample = "\n".join([G.word(d)] * d.small(1, 400, 6 if not big else 200))
        gs.append(g)
    cfg = ctx.file("c.cfg", "".join(G.config(g) for g in gs))
    k = d.small(1, 300, 8 if not big else 80)
    line = G.line(d, 1, lead=False)
    text = "\n".join([G.word(d, 1, 1, 30) + line] * k) + "\n"
    args = ["-f", cfg]
    if op in ("draw", "-r", "-m"):
        args += ["-d", gs[-1].name]
        if d.bool(0.3):
            args += ["-e", d.choice(["LF", "CRLF", "CR"])]
    if op == "-q":
        args += ["-q", d.choice(["a", "(all)"])]
    elif op == "-ld":
        args += ["-l", "-d", "one"]
    elif op == "-c":
        args = ["-c", "#"]
    elif op != "draw":
        args.append(op)
    if op in ("-r", "-m"):
        text = C.decode(C.ok(ctx.run(["-f", cfg, "-d", gs[-1].name], text)).out)
    return args, text, op


def reported(d, r, args, what):
    if r.code in (0, 99) or r.signal or not r.err.strip():
        C.fail("%s is not reported: exit code %d, message %r" % (what, r.code, r.err[-300:]), ("arguments", repr(args)), ("output", r.out[:300]))


def output_fault(d, ctx):
    """The output ends after any number of bytes, or is not possible at all"""
    big = d.bool(0.25)
    args, text, op = operation(d, ctx, big)
    env = {"BOXES": args[1]} if op == "-h" else {}
    full = C.ok(ctx.run(args, text, env=env), args).out
    if not full:
        raise pbt.Discard()
    k = d.weighted([(5, "limit"), (2, "full"), (1, "closed"), (2, "broken")])
    d.label(k, op)
    sut = ctx.sut()
    path = os.path.join(sut.scratch, "out.txt")
    named = op not in ("-h", "-v") and d.bool(0.5)       # these print to standard output
    d.nontrivial = True
    d.key = repr((args, text[:300], k, named, d.int(0, 0)))
    if k == "limit":
        n = d.choice([0, 1, 4095, 4096, 4097, len(full) - 1, len(full), len(full) + 1, d.int(0, len(full)), d.int(0, len(full)), d.int(0, len(full))])
        n = max(0, n)
        d.key += str(n)
        with open(path, "wb"):
            pass
        if named:
            r = ctx.run(args + [ctx.file("in.txt", text), path], b"", fsize_bytes=n)
        else:
            r = ctx.run(args, text, stdout_path=path, fsize_bytes=n, env=env)
        with open(path, "rb") as f:
            got = f.read()
        d.sample = {"arguments": args, "bytes possible": n, "bytes needed": len(full), "exit code": r.code}
        if not full.startswith(got):
            C.fail("something else was written with a limit of %d bytes" % n, ("arguments", repr(args)), ("full", full), ("written", got))
        if n < len(full):
            reported(d, r, args, "output which cannot be written beyond %d of %d bytes" % (n, len(full)))
        elif r.code != 0 or got != full or r.err:
            C.fail("the limit of %d bytes is enough for %d, but: exit code %d, %d bytes, message %r" % (n, len(full), r.code, len(got), r.err))
        return
    if k == "full":
        r = ctx.run(args + ([ctx.file("in.txt", text), "/dev/full"] if named else []), text, **({} if named else {"stdout_path": "/dev/full"}), env=env)
    elif k == "closed":
        r = ctx.run(args, text, stdout_closed=True, env=env)
    else:
        r = ctx.run(args, text, stdout_broken=True, env=env)
    d.sample = {"arguments": args, "fault": k, "exit code": r.code, "message": r.err.decode("utf-8", "replace")[:100]}
    reported(d, r, args, "output which cannot be written (%s)" % k)


def input_fault(d, ctx):
    """The input cannot be opened or read, or the output file cannot be created"""
    args, text, op = operation(d, ctx)
    while op in ("-l", "-ld", "-q", "-h", "-v"):
        # these read no input
        args, text, op = operation(d, ctx)
    sut = ctx.sut()
    dd = sut.fresh_dir("d")
    good = ctx.file("in.txt", text)
    k = d.weighted([(2, "missing"), (2, "directory"), (2, "io error"), (1, "stdin is a directory"), (1, "stdin io error"), (1, "stdin closed"), (2, "output directory"),
                    (2, "no such directory"), (1, "not a directory"), (1, "loop"), (1, "name too long")])
    d.label(k, op)
    out = []
    outp = os.path.join(dd, "out.txt")
    if d.bool(0.4):
        out = [outp]
    kw, stdin = {}, b"some text\n"
    if k == "missing":
        files = [d.choice([os.path.join(dd, "nothing"), os.path.join(dd, "no", "in.txt"), good + "/x", ""])] + out
    elif k == "directory":
        files = [d.choice([dd, ".", "/"])] + out
    elif k == "io error":
        files = ["/proc/self/mem"] + out
    elif k == "stdin is a directory":
        files, kw = d.choice([[], ["-"] + out]), {"stdin_path": dd}
    elif k == "stdin io error":
        files, kw = d.choice([[], ["-"] + out]), {"stdin_path": "/proc/self/mem"}
    elif k == "stdin closed":
        files, kw = [], {"stdin_closed": True}
    elif k == "output directory":
        files = [good, dd]
    elif k == "no such directory":
        files = [good, os.path.join(dd, "no", "out.txt")]
    elif k == "not a directory":
        files = [good, good + "/out.txt"]
    elif k == "loop":
        os.symlink("loop", os.path.join(dd, "loop"))
        p = os.path.join(dd, "loop")
        files = d.choice([[p] + out, [good, p]])
    else:
        p = os.path.join(dd, "x" * 300)
        files = d.choice([[p] + out, [good, p]])
    argv = (args + files) if d.bool() else (files + args)
    r = ctx.run(argv, stdin, **kw)
    d.nontrivial = True
    d.key = repr((args[2:], files, k))
    d.sample = {"arguments": args[2:] + files, "fault": k, "exit code": r.code, "message": r.err.decode("utf-8", "replace")[:100]}
    reported(d, r, argv, k)
    if r.out:
        C.fail("output although the input or output failed (%s): %r" % (k, r.out[:300]), ("arguments", repr(argv)))
    with open(good, "rb") as f:
        if f.read() != text.encode():
            C.fail("the input file has changed (%s)" % k, ("arguments", repr(argv)))


def complete(d, ctx):
    """Exit code 0: everything has been written, to a file, a pipe, or standard output alike; the input is as it was."""
    args, text, op = operation(d, ctx, d.bool(0.4))
    if op in ("-h", "-v"):
        raise pbt.Discard()
    sut = ctx.sut()
    first = C.ok(ctx.run(args, text), args).out
    inp = ctx.file("in.txt", text)
    path = os.path.join(sut.scratch, "out.txt")
    with open(path, "wb") as f:
        f.write(b"old contents\n" * d.small(0, 3000, 100))
    st = os.stat(inp)
    r = C.ok(ctx.run(args + [inp, path], b"wrong\n"), args)
    with open(path, "rb") as f:
        got = f.read()
    with open(inp, "rb") as f:
        now = f.read()
    d.nontrivial = len(first) > 4096
    d.key = repr((args[2:], text[:2000], len(first)))
    d.sample = {"arguments": args, "bytes": len(first)}
    d.label(op)
    if got != first or r.out:
        C.fail("the output file does not have the complete output", ("arguments", repr(args)), ("wanted", first), ("got", got), ("standard output", r.out))
    if now != text.encode() or os.stat(inp).st_mtime_ns != st.st_mtime_ns:
        C.fail("the input file has changed", ("arguments", repr(args)))


PARTS = [
    pbt.Part("output", output_fault, 5000, 100000, "all (faults at any byte)"),
    pbt.Part("input", input_fault, 4000, 60000, "all"),
    pbt.Part("complete", complete, 2000, 40000, "more than 4096 bytes of output"),
]
ASSUMPTIONS = ["faults are injected through the file system: size limits (RLIMIT_FSIZE), /dev/full, closed descriptors, a pipe nobody reads (SIGPIPE ignored), "
               "directories, /proc/self/mem (EIO)"]
