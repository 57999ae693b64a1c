"""Runs the built dieharder program in a scratch directory."""
import concurrent.futures as cf, os, shutil, subprocess, tempfile
import vp


class Cli:
    def __init__(self, variant="opt"):
        self.exe = os.path.join(vp.build(variant), "dieharder")
        self.dir = tempfile.mkdtemp(prefix="vpcli_", dir=vp.shm())

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)

    def run(self, args, stdin=b"", timeout=120, env=None, cwd=None):
        e = {"PATH": os.environ.get("PATH", "/usr/bin:/bin"), "LC_ALL": "C"}
        e.update(env or {})
        try:
            kw = {"stdin": stdin} if hasattr(stdin, "fileno") else {"input": stdin}
            r = subprocess.run([self.exe, *map(str, args)], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, env=e, cwd=cwd or self.dir, **kw)
            return r.returncode, r.stdout, r.stderr
        except subprocess.TimeoutExpired as t:
            return "timeout", t.stdout or b"", t.stderr or b""


def pmap(fn, items, n=vp.NPROC):
    with cf.ThreadPoolExecutor(n) as ex:
        return list(ex.map(fn, items))
