"""Makes /verif/.build/ws: a copy of the cargo workspace in /repo that builds offline.

Every Cargo.toml loses the git dependency concrete-ntt (optional, not available offline) and the
feature entries that name it; src/ directories are copied byte for byte.  A file is rewritten only
when its content differs, so cargo sees exactly the sources that changed, whatever their mtimes.
Usage: mirror.py [REPO [WS]]"""
import os, re, shutil, sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = sys.argv[1] if len(sys.argv) > 1 else os.environ.get("VP_REPO", "/repo")
WS = sys.argv[2] if len(sys.argv) > 2 else os.path.join(HERE, ".build", "ws")
SKIP = {".git", "target", "Cargo.lock", "tests", "benches", "examples", ".cargo", ".github"}


def strip(text):
    text = re.sub(r"(?m)^concrete-ntt\s*=\s*\{[^}\n]*\bgit\s*=[^}\n]*\}[^\n]*\n", "", text)
    text = re.sub(r'"(?:dep:concrete-ntt|concrete-ntt\??/[^"]*)"\s*,?\s*', "", text)
    # targets and dev-dependencies of the library crates are not built from here
    text = re.sub(r"(?ms)^\[\[(?:bench|example|test)\]\].*?(?=^\[|\Z)", "", text)
    text = re.sub(r"(?ms)^\[dev-dependencies\].*?(?=^\[|\Z)", "", text)
    return text


def put(path, data):
    try:
        with open(path, "rb") as f:
            if f.read() == data:
                return
    except OSError:
        pass
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "wb") as f:
        f.write(data)


wanted = set()
for d, dirs, files in os.walk(REPO):
    dirs[:] = [x for x in dirs if x not in SKIP]
    rel = os.path.relpath(d, REPO)
    for n in files:
        if n in SKIP or not (n.endswith(".rs") or n == "Cargo.toml"):
            continue
        src = os.path.join(d, n)
        data = open(src, "rb").read()
        if n == "Cargo.toml":
            data = strip(data.decode()).encode()
        dst = os.path.normpath(os.path.join(WS, rel, n))
        wanted.add(dst)
        put(dst, data)
for d, dirs, files in os.walk(WS, topdown=False):
    for n in files:
        p = os.path.join(d, n)
        if p not in wanted and n != "Cargo.lock":
            os.remove(p)
    if d != WS and not os.listdir(d):
        os.rmdir(d)
