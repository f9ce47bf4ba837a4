"""Mirrors /repo into /repo/_build/tree, translating Python 2 sources to Python 3.

Only files whose output changed are rewritten, so mtimes drive incremental builds.
*.py goes through lib2to3 (standard fixers) and the rewrites in PY_EXTRA.
*.pyx is rewritten by PYX_EXTRA only. Everything else is copied as it is, but for
the checked-in protoc output, which build.sh regenerates from schema.proto."""

import hashlib
import os
import re
import shutil
import sys
import warnings
from concurrent.futures import ProcessPoolExecutor

warnings.simplefilter("ignore")
from lib2to3.refactor import RefactoringTool, get_fixers_from_package

SRC = "/repo"
DST = os.environ.get("VT_TREE", "/verif/build/tree")
CACHE = os.environ.get("VT_CACHE", "/verif/build/2to3-cache")
TOP = ("benchmarks", "cmake", "distributions", "examples", "include", "src")
FILES = ("CMakeLists.txt", "setup.py", "README.md", "LICENSE.txt", "Makefile")
GENERATED = {
    "distributions/io/schema_pb2.py",
    "include/distributions/io/schema.pb.h",
    "include/distributions/io/schema.pb.cc",
    "src/io/schema.pb.cc",
}
# names which Python 3 or numpy >= 1.24 dropped, and which lib2to3 has no fixer for
PY_EXTRA = [
    (re.compile(r"\b(?:numpy|np)\.(int|float)\b(?!\w)"), r"\1"),
    (re.compile(r"(?<![\w.])file\((?=filename)"), "open("),
]
PYX_EXTRA = [
    (re.compile(r"\.iter(items|keys|values)\("), r".\1("),
    (re.compile(r"(?<!in )(?<![\w.])range\(([^()\n]*)\)"), r"list(range(\1))"),
]


def translate(args):
    rel, text = args
    tool = RefactoringTool(get_fixers_from_package("lib2to3.fixes"))
    try:
        out = str(tool.refactor_string(text + ("" if text.endswith("\n") else "\n"), os.path.join(SRC, rel)))
        for pattern, repl in PY_EXTRA:
            out = pattern.sub(repl, out)
        compile(out, "/repo/" + rel, "exec")
    except Exception as e:
        return rel, None, "%s: %s: %s" % (rel, type(e).__name__, e)
    return rel, out, None


def wanted():
    for name in FILES:
        if os.path.isfile(os.path.join(SRC, name)):
            yield name
    for top in TOP:
        for d, dirs, files in os.walk(os.path.join(SRC, top)):
            dirs[:] = [x for x in dirs if x not in ("__pycache__", "build", "data", "results")]
            for f in files:
                rel = os.path.relpath(os.path.join(d, f), SRC)
                if rel in GENERATED or f.endswith((".so", ".pyc", ".cpp", ".swp")):
                    continue
                yield rel


def put(rel, data):
    path = os.path.join(DST, rel)
    try:
        if open(path, "rb").read() == data:
            return
    except OSError:
        pass
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "wb") as f:
        f.write(data)


def main():
    os.makedirs(CACHE, exist_ok=True)
    me = hashlib.sha256(open(__file__, "rb").read()).hexdigest()
    rels, todo, keys, bad = set(wanted()), [], {}, []
    for rel in sorted(rels):
        data = open(os.path.join(SRC, rel), "rb").read()
        if rel.endswith(".py"):
            # fix_import looks for siblings
            near = repr(sorted(x for x in os.listdir(os.path.dirname(os.path.join(SRC, rel)))
                               if not x.startswith(("_build", "__pycache__"))))
            key = os.path.join(CACHE, hashlib.sha256(
                (me + rel + near).encode() + b"\0" + data).hexdigest())
            if os.path.exists(key):
                put(rel, open(key, "rb").read())
            else:
                keys[rel] = key
                try:
                    todo.append((rel, data.decode("utf-8")))
                except UnicodeDecodeError as e:
                    bad.append("%s: %s" % (rel, e))
            continue
        if rel.endswith(".pyx"):
            text = data.decode("utf-8", "surrogateescape")
            for pattern, repl in PYX_EXTRA:
                text = pattern.sub(repl, text)
            data = text.encode("utf-8", "surrogateescape")
        put(rel, data)
    if todo:
        with ProcessPoolExecutor(min(8, len(todo))) as pool:
            for rel, out, err in pool.map(translate, todo):
                if err:
                    bad.append(err)
                    continue
                put(rel, out.encode())
                with open(keys[rel] + ".tmp", "w") as f:
                    f.write(out)
                os.replace(keys[rel] + ".tmp", keys[rel])
    # drop what /repo no longer has
    for d, dirs, files in os.walk(DST):
        if "__pycache__" in dirs:
            dirs.remove("__pycache__")
            shutil.rmtree(os.path.join(d, "__pycache__"))
        for f in files:
            rel = os.path.relpath(os.path.join(d, f), DST)
            if rel not in rels and rel not in GENERATED and not f.endswith(".so"):
                os.remove(os.path.join(d, f))
    for line in bad:
        print("error:", line, file=sys.stderr)
    return bool(bad)


if __name__ == "__main__":
    sys.exit(main())
