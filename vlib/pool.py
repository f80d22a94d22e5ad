"""Runs jobs that execute the real binary, in worker processes with private scratch directories."""
import multiprocessing as mp, os, shutil, subprocess, tempfile, itertools, time

BASE = "/dev/shm" if os.path.isdir("/dev/shm") and os.access("/dev/shm", os.W_OK) else None
_state = {}

def scratch_root():
    return tempfile.mkdtemp(prefix="amverif-", dir=BASE)

class Box:
    """A fresh scratch directory; run() executes the binary with cwd in it."""
    def __init__(self, root, binary):
        self.root, self.binary = root, binary
        self.n = 0
        self.dir = None
        self.runs = 0
    def fresh(self):
        if self.dir:
            shutil.rmtree(self.dir, ignore_errors=True)
        self.n += 1
        self.dir = os.path.join(self.root, "s%d" % self.n)
        os.mkdir(self.dir)
        return self.dir
    def write(self, name, data):
        p = os.path.join(self.dir, name)
        if isinstance(data, str): data = data.encode("utf-8")
        with open(p, "wb") as f: f.write(data)
        return name
    def read(self, name):
        """bytes of the file or None."""
        try:
            with open(os.path.join(self.dir, name), "rb") as f: return f.read()
        except (FileNotFoundError, IsADirectoryError, NotADirectoryError):
            return None
    def unlink(self, *names):
        for n in names:
            try: os.unlink(os.path.join(self.dir, n))
            except FileNotFoundError: pass
    def run(self, *args, stdin=None, timeout=60):
        """-> (returncode, stdout bytes, stderr bytes)"""
        self.runs += 1
        env = {"PATH": "/usr/bin:/bin", "LANG": "C.UTF-8", "TZ": "UTC", "HOME": self.root, "TMPDIR": self.root,
               "RUST_BACKTRACE": "0"}
        try:
            p = subprocess.run([self.binary] + list(args), cwd=self.dir, env=env,
                               input=stdin if stdin is not None else b"", stdout=subprocess.PIPE,
                               stderr=subprocess.PIPE, timeout=timeout)
            return p.returncode, p.stdout, p.stderr
        except subprocess.TimeoutExpired:
            return -99, b"", b"TIMEOUT"

NOBODY = 65534

def _init(root, binary, fn):
    # The program under test runs as an unprivileged user that owns nothing but the scratch directory.
    if os.geteuid() == 0:
        try:
            os.setgroups([]); os.setgid(NOBODY); os.setuid(NOBODY)
        except OSError:
            pass
    d = tempfile.mkdtemp(prefix="w", dir=root)
    _state["box"] = Box(d, binary)
    _state["fn"] = fn

def _call(arg):
    box = _state["box"]
    before = box.runs
    r = _state["fn"](box, arg)
    return r, box.runs - before

def run_jobs(binary, fn, jobs, procs=None):
    """Maps fn(box, job) over jobs; returns (results in order, number of program runs)."""
    root = scratch_root()
    try:
        exe = os.path.join(root, "accountmerge")
        shutil.copy(binary, exe)
        os.chmod(exe, 0o755)
        binary = exe
        if os.geteuid() == 0:
            try: os.chown(root, NOBODY, NOBODY)
            except OSError: pass
        with mp.get_context("fork").Pool(procs or os.cpu_count() or 4, _init, (root, binary, fn)) as pool:
            res, total = [], 0
            for r, n in pool.imap(_call, jobs, chunksize=8):
                res.append(r); total += n
        return res, total
    finally:
        shutil.rmtree(root, ignore_errors=True)
