"""Run the instrumented programs and classify how they ended."""
import os, re, resource, select, shutil, signal, subprocess, tempfile

SAN_RE = re.compile(r"(ERROR: AddressSanitizer[^\n]*|runtime error:[^\n]*|ERROR: LeakSanitizer[^\n]*|"
                    r"AddressSanitizer:DEADLYSIGNAL|Assertion [^\n]*failed|terminate called[^\n]*|==\d+==ERROR[^\n]*)")
BASE_ENV = {
    "PATH": os.environ.get("PATH", "/usr/bin:/bin"), "LC_ALL": "C", "HOME": "/nonexistent",
    "ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=0:"
                    "detect_stack_use_after_return=0:symbolize=1:max_allocation_size_mb=4000",
    "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:exitcode=99",
}


class Res:
    """rc: exit status (negative: signal); timeout: True when the watchdog ended it; san: report text or None."""

    def __init__(self, args, cwd, rc, out, err, timeout):
        self.args, self.cwd, self.rc, self.out, self.err, self.timeout = args, cwd, rc, out, err, timeout
        m = SAN_RE.search(err)
        self.san = None
        if rc == 99 or (m and rc != 0):
            self.san = (m.group(0) if m else "sanitizer exit") + "\n" + err[-2500:]
        elif rc < 0 and not timeout:
            self.san = "killed by signal %d\n%s" % (-rc, err[-1500:])

    @property
    def ok(self):
        return self.rc == 0 and not self.timeout

    @property
    def oom(self):
        return "allocator is out of memory" in self.err or "exceeds maximum supported size" in self.err \
            or "allocation-size-too-big" in self.err

    def brief(self):
        return "rc=%s%s args=%s\n%s" % (self.rc, " TIMEOUT" if self.timeout else "", " ".join(map(str, self.args)),
                                        (self.san or self.err[-800:] or self.out[-400:]))

    def sig(self):
        """A short, line-number-free description of a failure, for matching and de-duplicating."""
        if self.timeout:
            return "hang"
        if not self.san:
            return "rc=%d" % self.rc
        first = self.san.split("\n")[0]
        kind = re.sub(r"0x[0-9a-f]+|==\d+==|\d+", "#", first)[:90]
        fn = ""
        for m in re.finditer(r"#\d+ 0x[0-9a-f]+ in ([^\n]+)", self.err):
            f = m.group(1)
            if "/src/" in f and "shim.c" not in f and "sanitizer" not in f and "libc" not in f.split(" ")[-1]:
                fn = re.sub(r"\(.*", "", f).split(" ")[0]
                break
        return (kind + " @" + fn).strip()


def _limit(n):
    def f():
        resource.setrlimit(resource.RLIMIT_FSIZE, (n, n))
        signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
    return f


def zrun_limited(argv, cwd, fsize, env=None, timeout=60):
    """As zrun, but no file may grow beyond fsize bytes (writes beyond it fail, as on a full disk)."""
    e = dict(BASE_ENV)
    e.update({k: str(v) for k, v in (env or {}).items()})
    p = subprocess.Popen([str(a) for a in argv], cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                         stdin=subprocess.DEVNULL, start_new_session=True, preexec_fn=_limit(fsize))
    to = False
    try:
        out, err = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        to = True
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        out, err = p.communicate()
    return Res(argv, cwd, p.returncode, out.decode("latin1"), err.decode("latin1"), to)


def zrun(argv, cwd, env=None, timeout=60, stdin=None, maxout=4000000):
    e = dict(BASE_ENV)
    if env:
        e.update({k: str(v) for k, v in env.items()})
    fo = open(os.path.join(cwd, ".zv_out"), "wb+")
    fe = open(os.path.join(cwd, ".zv_err"), "wb+")
    to = False
    fi = subprocess.DEVNULL
    if stdin is not None:
        fi = open(os.path.join(cwd, ".zv_in"), "wb+")
        fi.write(stdin if isinstance(stdin, bytes) else stdin.encode("latin1"))
        fi.seek(0)
    p = subprocess.Popen([str(a) for a in argv], cwd=cwd, env=e, stdout=fo, stderr=fe,
                         stdin=fi, start_new_session=True)
    if stdin is not None:
        fi.close()
    fd = os.pidfd_open(p.pid)
    try:
        po = select.poll()
        po.register(fd, select.POLLIN)
        if not po.poll(timeout * 1000):
            to = True
        else:
            rc = p.wait()
    finally:
        os.close(fd)
    if to:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        rc = p.wait()
    fo.seek(0)
    fe.seek(0)
    out = fo.read(maxout).decode("latin1")
    err = fe.read(maxout).decode("latin1")
    fo.close()
    fe.close()
    return Res(argv, cwd, rc, out, err, to)


class Scratch:
    def __enter__(self):
        self.d = tempfile.mkdtemp(prefix="zv_")
        return self.d

    def __exit__(self, *a):
        shutil.rmtree(self.d, ignore_errors=True)
