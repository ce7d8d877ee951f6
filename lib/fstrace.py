"""System calls of a child on one directory, as events for SaveFileTrace."""
import os
import re
import subprocess

CALLS = ("open,openat,creat,write,writev,pwrite64,ftruncate,truncate,fsync,fdatasync,fchmod,chmod,fchmodat,fchmodat2,close,"
         "rename,renameat,renameat2,unlink,unlinkat,link,linkat,newfstatat,stat,lstat,copy_file_range,sendfile,dup,dup2,dup3,fallocate")
INJECTABLE = {"open", "openat", "creat", "write", "writev", "pwrite64", "ftruncate", "fsync", "fdatasync", "fchmod", "chmod", "fchmodat", "fchmodat2",
              "close", "rename", "renameat", "renameat2", "unlink", "unlinkat", "link", "linkat", "newfstatat", "copy_file_range"}


def run(cmd, env, out, inject=None, timeout=60, cwd=None):
    c = ["strace", "-f", "-q", "-xx", "-s", "4000000", "-o", out, "-e", "trace=" + CALLS, "-e", "signal=none"]
    if inject:
        c += ["-e", "inject=" + inject]
    return subprocess.run(c + cmd, env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, stdin=subprocess.DEVNULL,
                          timeout=timeout, cwd=cwd).returncode


def calls(path):
    """(pid, name, args, result, injected) in order of completion."""
    pend = {}
    for line in open(path, errors="replace"):
        m = re.match(r"(\d+)\s+(.*)", line.rstrip("\n"))
        if not m:
            continue
        pid, rest = m.group(1), m.group(2)
        if rest.endswith("<unfinished ...>"):
            pend[pid] = rest[:-len("<unfinished ...>")]
            continue
        r = re.match(r"<\.\.\. \w+ resumed>(.*)", rest)
        if r:
            rest = pend.pop(pid, "") + r.group(1)
        c = re.match(r"(\w+)\((.*)\)\s+= (-?\d+|\?)(.*)$", rest)
        if not c:
            continue
        yield pid, c.group(1), c.group(2).strip(), -1 if c.group(3) == "?" else int(c.group(3)), "INJECTED" in c.group(4)


def text(s):
    m = re.search(r'"((?:\\x[0-9a-f]{2})*)"', s)
    return bytes.fromhex(m.group(1).replace("\\x", "")) if m else None


def texts(s):
    return [bytes.fromhex(m.replace("\\x", "")) for m in re.findall(r'"((?:\\x[0-9a-f]{2})*)"', s)]


class Files:
    """The files of a directory as the calls leave them, with the events that led there."""

    def __init__(self, d, existing, chunks):
        self.d = d
        self.chunks = chunks  # bytes -> number
        self.ino = []         # content so far, list of chunk numbers
        self.names = {}
        self.fds = {}         # descriptor -> inode or path of a directory
        self.ev = []
        self.seen = set()     # contents any inode has had
        self.marks = []
        self.tid = None
        self.created = []
        for n in existing:
            self.names[n] = len(self.ino)
            self.ino.append([self.chunk(open(os.path.join(d, n), "rb").read())] if n == "cache.json" else [0])
        for c in self.ino:
            self.seen.add(tuple(c))

    def chunk(self, b):
        return self.chunks.setdefault(bytes(b), len(self.chunks) + 1)

    def path(self, args, k=0):
        """k-th path argument, inside the directory, or None"""
        ps = texts(args)
        if k >= len(ps):
            return None
        p = ps[k].decode("utf-8", "replace")
        if not p.startswith("/"):
            # relative to a directory descriptor or the working directory, which is the directory
            at = re.findall(r"(AT_FDCWD|\b\d+)\s*,\s*\"", args)
            base = self.d
            if k < len(at) and at[k] != "AT_FDCWD":
                base = self.fds.get(int(at[k]), self.d)
                if not isinstance(base, str):
                    return None
            p = os.path.join(base, p)
        p = os.path.normpath(p)
        if os.path.dirname(p) == self.d:
            return os.path.basename(p)
        return None

    def change(self, ino, content):
        self.ino[ino] = content
        self.seen.add(tuple(content))

    def add(self, e, **kw):
        kw["e"] = e
        self.ev.append(kw)

    def feed(self, pid, name, args, res):
        if name in ("newfstatat", "stat", "lstat"):
            p = (texts(args) or [b""])[0]
            if p.startswith(b"/verif-"):
                m = p[7:].decode()
                self.marks.append(m)
                if m == "begin":
                    self.tid = pid
                    self.add("begin")
                else:
                    self.add("end", ok=m == "saved", cleanup=True)
            return
        if res < 0:
            return
        if name in ("open", "openat", "creat"):
            n = self.path(args)
            if n is None or "O_DIRECTORY" in args:
                ps = texts(args)
                self.fds[res] = os.path.normpath(os.path.join(self.d, ps[0].decode("utf-8", "replace"))) if ps else "?"
                return
            create, excl, trunc = "O_CREAT" in args or name == "creat", "O_EXCL" in args, "O_TRUNC" in args or name == "creat"
            if n not in self.names and not create:
                return
            mode = 0
            m = re.search(r", 0?([0-7]+)$", args)
            if create and m:
                mode = int(m.group(1), 8)
            self.add("open", fd=res, name=n, create=create, excl=excl, trunc=trunc, mode=mode & ~0o022)
            if n not in self.names:
                self.names[n] = len(self.ino)
                self.ino.append([])
                self.seen.add(())
                self.created.append(n)
            elif trunc:
                self.change(self.names[n], [])
            self.fds[res] = self.names[n]
            return
        if name in ("rename", "renameat", "renameat2", "link", "linkat"):
            a, b = self.path(args, 0), self.path(args, 1)
            if a is None or b is None:
                if a is not None or b is not None:
                    self.add("foreign", name=a or b)
                return
            self.add("rename" if name.startswith("rename") else "link", name=a, to=b)
            if a in self.names:
                self.names[b] = self.names[a]
                if name.startswith("rename"):
                    del self.names[a]
            return
        if name in ("unlink", "unlinkat"):
            a = self.path(args)
            if a is not None and a in self.names:
                self.add("unlink", name=a)
                del self.names[a]
            return
        if name in ("chmod", "fchmodat", "fchmodat2"):
            a = self.path(args)
            m = re.search(r"\"\s*,\s*0?([0-7]+)", args)
            if a in self.names and m:
                self.add("chmod", name=a, mode=int(m.group(1), 8))
            return
        m = re.match(r"(\d+)", args)
        if not m:
            return
        fd = int(m.group(1))
        ino = self.fds.get(fd)
        if name == "close":
            self.fds.pop(fd, None)
            if isinstance(ino, int):
                self.add("close", fd=fd)
            return
        if name in ("dup", "dup2", "dup3") and isinstance(ino, int):
            self.add("foreign", name=name)
            return
        if name == "copy_file_range":
            src, dst = ino, self.fds.get(int(re.findall(r"(\d+), (?:NULL|\[\d+\])", args)[1]))
            if isinstance(dst, int):
                self.add("foreign", name=name)
            return
        if not isinstance(ino, int):
            return
        if name in ("write", "writev", "pwrite64"):
            b = b"".join(texts(args))[:res]
            c = self.chunk(b)
            self.add("write", fd=fd, c=c)
            self.change(ino, self.ino[ino] + [c])
        elif name == "ftruncate":
            self.add("truncate", fd=fd)
            self.change(ino, [])
        elif name in ("fsync", "fdatasync"):
            self.add("sync", fd=fd)
        elif name == "fchmod":
            self.add("fchmod", fd=fd, mode=int(re.search(r", 0?([0-7]+)$", args).group(1), 8))

    def content(self, seq):
        back = {v: k for k, v in self.chunks.items()}
        return b"".join(back[c] for c in seq)
