"""Deleting files by extension (C21), in a scratch folder and as an unprivileged user."""
import json
import os
import shutil
import sys
import tempfile
import general
from record import Episode, limit, Hang

NOBODY = 65534
EXTS = [".txt", ".py", ".dat", ".t", "", "txt", ".tar.gz", ".TXT", ".", "a", ".t[1]", ".t?", "*", "?", "[a]", ".t1"]
STEMS = ["a", "b", "c", "x.txt", "data", ".hidden", "", "long name", "x.py.txt", "txt", "ä", "tx", "a.tx", "-rf", "a\nb", "[a]", "a*", "~",
         "\u6f22", "\U0001f600", os.fsdecode(b"a\xff"), os.fsdecode(b"\x80\xe2"), "n" * 200]


def codes(s):
    return [ord(c) for c in s]


def plant(g, at, depth, exts, out, links):
    """random folder content; at is an absolute path"""
    for _ in range(int(g.integers(0, 6))):
        name = str(g.choice(STEMS)) + str(g.choice(exts))
        if name in ("", ".", "..") or os.path.lexists(os.path.join(at, name)):
            continue
        p = os.path.join(at, name)
        x = g.random()
        if x < 0.3 and depth > 0:
            os.mkdir(p)
            plant(g, p, depth - 1, exts, out, links)
        elif x < 0.42:
            links.append(p)
        else:
            with open(p, "wb") as f:
                f.write(os.fsencode(name))


def listing(root):
    out = []

    def walk(at, path):
        with os.scandir(at) as it:
            entries = sorted(it, key=lambda x: x.name)
        for x in entries:
            kind = "link" if x.is_symlink() else "dir" if x.is_dir() else "file"
            out.append(dict(at=[codes(n) for n in path + [x.name]], kind=kind))
            if kind == "dir":
                walk(x.path, path + [x.name])
    walk(root, [])
    return out


def in_child(f, coding="utf-8"):
    """f() in a child without privileges, its output thrown away; -> ("ok" or what happened)"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            null = os.open(os.devnull, os.O_RDWR)
            os.dup2(null, 1)
            os.dup2(null, 2)
            sys.stdout = open(os.devnull, "w", encoding=coding, errors="strict")
            if os.getuid() == 0:
                os.setgroups([])
                os.setgid(NOBODY)
                os.setuid(NOBODY)
            try:
                with limit(8):
                    f()
                msg = "ok"
            except Hang:
                msg = "does not return"
            except Exception as x:
                msg = "raised " + type(x).__name__
            os.write(w, msg.encode())
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r) as p:
        msg = p.read()
    os.waitpid(pid, 0)
    return msg or "died"


def clean(e, top, folder, ext, deep, kw=None):
    before = listing(top)
    path = os.path.join(top, *folder) if folder else top
    how = kw or {}
    arg = path + ("/" if how.get("slash") else "")
    if how.get("relative"):
        def call():
            os.chdir(top)
            general.delete_files_with_extension(os.path.join(".", *folder), ext, deep)
    elif deep or how.get("explicit"):
        def call():
            general.delete_files_with_extension(arg, ext, deep)
    else:
        def call():
            general.delete_files_with_extension(arg, ext)
    msg = in_child(call, how.get("coding", "utf-8"))
    if msg != "ok":
        e.event(e="raised", what=("does not return from" if "return" in msg else msg + " in") + " delete_files_with_extension()")
        e.dead = True
        return
    e.event(e="files", before=before, after=listing(top), folder=[codes(x) for x in folder], ext=codes(ext), deep=bool(deep))


def scratch():
    top = tempfile.mkdtemp(prefix="optics-files-")
    os.chmod(top, 0o777)
    return top


def open_up(top):
    for root, dirs, files in os.walk(top):
        os.chmod(root, 0o777)
        for f in files:
            p = os.path.join(root, f)
            if not os.path.islink(p):
                os.chmod(p, 0o666)


def cleanups(g, id, own):
    e = Episode(id, own, [])
    top = scratch()
    try:
        exts = list({str(g.choice(EXTS)) for _ in range(2)} | {".txt"})
        os.mkdir(os.path.join(top, "work"))
        os.mkdir(os.path.join(top, "outside"))
        links = []
        plant(g, os.path.join(top, "work"), 3, exts, None, links)
        plant(g, os.path.join(top, "outside"), 1, exts, None, links)
        with open(os.path.join(top, "outside", "keep.txt"), "w") as f:
            f.write("x")
        everything = [os.path.join(r, n) for r, ds, fs in os.walk(top) for n in ds + fs] + [os.path.join(top, "missing.txt")]
        for p in links:
            if not os.path.lexists(p):
                to = everything[int(g.integers(len(everything)))] if g.random() < 0.7 else os.path.join(top, "outside")
                os.symlink(to if g.random() < 0.5 else os.path.relpath(to, os.path.dirname(p)), p)
        if g.random() < 0.05:                             # many files, or a deep folder
            at = os.path.join(top, "work")
            for k in range(int(g.integers(3, 15))):
                at = os.path.join(at, str(g.choice(["d", "e.txt", "x"])))
                if os.path.lexists(at):
                    break
                os.mkdir(at)
                for i in range(int(g.choice([1, 2, 60]))):
                    open(os.path.join(at, "f%d%s" % (i, g.choice(exts))), "w").close()
        open_up(top)
        folders = [["work"]] * 3 + [list(os.path.relpath(os.path.join(r, d), top).split(os.sep)) for r, ds, fs in os.walk(top) for d in ds
                                    if not os.path.islink(os.path.join(r, d))]
        for _ in range(int(g.integers(1, 4))):
            if e.dead:
                break
            folder = folders[int(g.integers(len(folders)))] if g.random() < 0.4 else ["work"]
            ext = str(g.choice(exts)) if g.random() < 0.8 else str(g.choice(EXTS))
            how = [{}, {}, dict(slash=True), dict(relative=True), dict(explicit=True)][int(g.integers(5))]
            how = dict(how, coding=str(g.choice(["utf-8", "ascii", "cp1252"])))
            clean(e, top, folder, ext, bool(g.random() < 0.5), how)
    finally:
        shutil.rmtree(top, ignore_errors=True)
    return e


def register(suite):
    suite("C21", "cleanups", cleanups, 400, 5000)
