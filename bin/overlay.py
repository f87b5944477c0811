"""Go build overlay: the syscall package with a hook on every call that
changes files, so that the harness sees what a store does to its files."""
import json, os, re, subprocess

HOOKS = {
    # function: (when, hook call)
    "write": ("post", "VerifHook(1, fd, \"\", p[:n], 0, 0)"),
    "pwrite": ("post", "VerifHook(2, fd, \"\", p[:n], offset, 0)"),
    "Ftruncate": ("post", "VerifHook(3, fd, \"\", nil, length, 0)"),
    "Fsync": ("post", "VerifHook(4, fd, \"\", nil, 0, 0)"),
    "Fdatasync": ("post", "VerifHook(4, fd, \"\", nil, 0, 0)"),
    "openat": ("post", "VerifHook(5, fd, path, nil, int64(flags), int64(dirfd))"),
    "Close": ("pre", "VerifHook(6, fd, \"\", nil, 0, 0)"),
    "Renameat": ("post", "VerifHook(7, olddirfd, oldpath, []byte(newpath), 0, 0)"),
    "unlinkat": ("post", "VerifHook(8, dirfd, path, nil, int64(flags), 0)"),
    "Mkdirat": ("post", "VerifHook(9, dirfd, path, nil, 0, 0)"),
    "Truncate": ("post", "VerifHook(10, 0, path, nil, length, 0)"),
    "Dup": ("post", "VerifHook(11, fd, \"\", nil, int64(oldfd), 0)"),
    "Dup3": ("post", "VerifHook(11, newfd, \"\", nil, int64(oldfd), 0)"),
    "linkat": ("post", "VerifHook(12, olddirfd, oldpath, []byte(newpath), 0, 0)"),
}


def make(work, env):
    root = subprocess.check_output(["go", "env", "GOROOT"], env=env, text=True).strip()
    arch = subprocess.check_output(["go", "env", "GOARCH"], env=env, text=True).strip()
    src = os.path.join(root, "src", "syscall", "zsyscall_linux_%s.go" % arch)
    s = open(src).read()
    for f, (when, call) in HOOKS.items():
        m = re.search(r"^func %s\(([^)]*)\) \(([^)]*)\) \{$" % f, s, re.M)
        if not m:
            raise SystemExit("no function %s in %s" % (f, src))
        names = ", ".join(a.split()[0] for a in m.group(1).split(", "))
        res = ", ".join(a.split()[0] for a in m.group(2).split(", "))
        hook = "if VerifHook != nil%s {\n\t\t%s\n\t}\n" % (" && err == nil" if when == "post" else "", call)
        inner = "\t%s = verif_%s(%s)\n" % (res, f, names)
        body = (hook and ("\t" + hook if when == "pre" else "")) + inner + ("\t" + hook if when == "post" else "")
        s = s[:m.start()] + m.group(0) + "\n" + body + "\treturn\n}\n\n" + \
            "func verif_%s(%s) (%s) {" % (f, m.group(1), m.group(2)) + s[m.end():]
    s += "\n// VerifHook is told of every call that changed a file.\n" \
         "var VerifHook func(op, fd int, path string, data []byte, x, y int64)\n"
    dst = os.path.join(work, "zsyscall.go")
    open(dst, "w").write(s)
    j = os.path.join(work, "overlay.json")
    json.dump({"Replace": {src: dst}}, open(j, "w"))
    return j
