"""Client for the fork-server driver: runs the real boxes program on one case at a time."""
import os
import select
import struct
import tempfile
import shutil

import build


class DriverError(Exception):
    """Infrastructure trouble (not a verdict about boxes)."""


class Result:
    __slots__ = ("status", "cpu_ms", "out", "err")

    def __init__(self, status, cpu_ms, out, err):
        self.status, self.cpu_ms, self.out, self.err = status, cpu_ms, out, err

    @property
    def signal(self):
        return os.WTERMSIG(self.status) if os.WIFSIGNALED(self.status) else 0

    @property
    def code(self):
        """exit code, or -signal"""
        return -os.WTERMSIG(self.status) if os.WIFSIGNALED(self.status) else os.WEXITSTATUS(self.status)

    @property
    def crashed(self):
        """Killed by a signal, or ended by a sanitizer."""
        return os.WIFSIGNALED(self.status) or self.code == 99

    def text(self):
        return self.out.decode("utf-8")

    def brief(self):
        return {"code": self.code, "out": self.out[:4000].decode("utf-8", "backslashreplace"),
                "err": self.err[:4000].decode("utf-8", "backslashreplace")}


BASE_ENV = {"LC_ALL": "C.UTF-8", "LANG": "C.UTF-8", "TERM": "xterm-color", "PATH": "/usr/bin:/bin"}


def s(b):
    if isinstance(b, str):
        b = b.encode("utf-8", "surrogateescape")
    return struct.pack("<I", len(b)) + b


class Sut:
    def __init__(self, variant="plain", scratch=None):
        self.variant = variant
        self.exe = build.build(variant)
        self.own_scratch = scratch is None
        self.scratch = scratch or tempfile.mkdtemp(prefix="bxv-", dir="/tmp")
        self.home = os.path.join(self.scratch, "home")
        os.makedirs(self.home, exist_ok=True)
        self.proc = None
        self.execs = 0
        self._written = {}

    # -- files ---------------------------------------------------------------------------------------------------
    def write(self, name, data):
        """Write a file in the scratch directory (skipped if it already has that content)."""
        if isinstance(data, str):
            data = data.encode("utf-8")
        if self._written.get(name) == data:
            return os.path.join(self.scratch, name)
        p = os.path.join(self.scratch, name)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "wb") as f:
            f.write(data)
        self._written[name] = data
        return p

    def fresh_dir(self, name="d"):
        p = os.path.join(self.scratch, name)
        shutil.rmtree(p, ignore_errors=True)
        os.makedirs(p)
        for k in [k for k in self._written if k.startswith(name + "/")]:
            del self._written[k]
        return p

    # -- process -------------------------------------------------------------------------------------------------
    def _start(self):
        req_r, req_w = os.pipe()
        rep_r, rep_w = os.pipe()
        env = {"ASAN_OPTIONS": "detect_leaks=0:exitcode=99:abort_on_error=0:allocator_may_return_null=1:"
                               "max_allocation_size_mb=1024:detect_stack_use_after_return=0:handle_segv=1:"
                               "handle_abort=1:symbolize=0:quarantine_size_mb=16:malloc_context_size=8",
               "UBSAN_OPTIONS": "exitcode=99:print_stacktrace=0:halt_on_error=1",
               "PATH": "/usr/bin:/bin", "LC_ALL": "C.UTF-8"}

        self.proc = self._spawn(req_r, rep_w, env)
        os.close(req_r)
        os.close(rep_w)
        self.w, self.r = req_w, rep_r

    def _spawn(self, req_r, rep_w, env):
        os.set_inheritable(req_r, True)
        os.set_inheritable(rep_w, True)
        errfd = os.open(os.path.join(self.scratch, ".driver-err"), os.O_WRONLY | os.O_CREAT | os.O_APPEND, 0o600)
        acts = [(os.POSIX_SPAWN_OPEN, 0, "/dev/null", os.O_RDONLY, 0),
                (os.POSIX_SPAWN_OPEN, 1, "/dev/null", os.O_WRONLY, 0),
                (os.POSIX_SPAWN_DUP2, errfd, 2),
                (os.POSIX_SPAWN_DUP2, req_r, 200), (os.POSIX_SPAWN_DUP2, rep_w, 201),
                (os.POSIX_SPAWN_DUP2, 200, 3), (os.POSIX_SPAWN_DUP2, 201, 4),
                (os.POSIX_SPAWN_CLOSE, 200), (os.POSIX_SPAWN_CLOSE, 201)]
        pid = os.posix_spawn(self.exe, [self.exe], env, file_actions=acts)
        os.close(errfd)
        return pid

    def close(self):
        if self.proc:
            os.close(self.w)
            os.close(self.r)
            try:
                os.kill(self.proc, 9)
            except OSError:
                pass
            try:
                os.waitpid(self.proc, 0)
            except OSError:
                pass
            self.proc = None
        if self.own_scratch:
            shutil.rmtree(self.scratch, ignore_errors=True)

    def _rd(self, n):
        parts = []
        while n:
            ready, _, _ = select.select([self.r], [], [], 300)
            if not ready:
                raise DriverError("no reply from driver")
            b = os.read(self.r, min(n, 1 << 20))
            if not b:
                raise DriverError("driver ended: " + open(os.path.join(self.scratch, ".driver-err"), "rb")
                                  .read()[-500:].decode("utf-8", "replace"))
            parts.append(b)
            n -= len(b)
        return b"".join(parts)

    def run(self, args, stdin=b"", env=None, cwd=None, cpu=10, as_mb=None, fsize_mb=64, perturb=0,
            stdin_path=None, stdout_path=None, stderr_path=None, stdin_closed=False, stdout_closed=False,
            stdin_pipe=False, stdout_broken=False, full_env=None, fsize_bytes=None):
        """Run `boxes args` with the given standard input. Returns a Result."""
        if isinstance(stdin, str):
            stdin = stdin.encode("utf-8")
        if full_env is None:
            e = dict(BASE_ENV)
            e["HOME"] = self.home
            if env:
                for k, v in env.items():
                    if v is None:
                        e.pop(k, None)
                    else:
                        e[k] = v
        else:
            e = full_env
        if as_mb is None:
            as_mb = 0 if self.variant == "asan" else 2048
        flags = (1 if stdin_path else 0) | (2 if stdout_path else 0) | (4 if stderr_path else 0) \
            | (8 if stdin_closed else 0) | (16 if stdout_closed else 0) | (32 if stdin_pipe else 0) \
            | (64 if stdout_broken else 0) | (128 if fsize_bytes is not None else 0)
        if fsize_bytes is not None:
            fsize_mb = fsize_bytes
        body = [struct.pack("<5I", cpu, as_mb, fsize_mb, flags, perturb), s(cwd or self.scratch),
                struct.pack("<I", len(args) + 1), s("boxes")]
        body += [s(a) for a in args]
        body.append(struct.pack("<I", len(e)))
        body += [s(k + "=" + v) for k, v in e.items()]
        body.append(s(stdin_path if stdin_path else stdin))
        body.append(s(stdout_path or ""))
        body.append(s(stderr_path or ""))
        body = b"".join(body)
        msg = struct.pack("<I", len(body)) + body
        for attempt in (0, 1):
            try:
                if not self.proc:
                    self._start()
                off = 0
                while off < len(msg):
                    off += os.write(self.w, msg[off:off + (1 << 20)])
                st, ms = struct.unpack("<II", self._rd(8))
                n, = struct.unpack("<I", self._rd(4))
                out = self._rd(n)
                n, = struct.unpack("<I", self._rd(4))
                err = self._rd(n)
                self.execs += 1
                return Result(st, ms, out, err)
            except (DriverError, BrokenPipeError, OSError) as ex:
                if self.proc:
                    os.close(self.w)
                    os.close(self.r)
                    try:
                        os.kill(self.proc, 9)
                        os.waitpid(self.proc, 0)
                    except OSError:
                        pass
                    self.proc = None
                if attempt:
                    raise DriverError(str(ex))
