#!/usr/bin/env python3
"""Author planted bugs: seed.py make ID... validates each definition of tools/seeds/ in a scratch copy and writes
/verif/seeded/ID; seed.py try ID... applies it to /repo, runs the check of its property (or those given with -c) and
undoes it; seed.py probe ID... does the same for the changes without a demonstration of seeds/probes.py; seed.py quiet
SET... expects no alarm on the behaviour-preserving edits of seeds/refactors.py."""
import importlib.util, json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SCRATCH = "/tmp/plant"

DEMO_RS = r'''#!/bin/bash
# cwd is the repository. Builds demo.rs against its library and runs it: 0 when the property held.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
work=$(mktemp -d)
trap 'find "$work" -delete' EXIT
mkdir -p "$work/src"
cp "$here/demo.rs" "$work/src/main.rs"
cp "$here/Cargo.lock" "$work/Cargo.lock"
cat > "$work/Cargo.toml" <<END
[package]
name = "demo"
version = "0.1.0"
edition = "2021"

[dependencies]
server = { path = "$repo/server" }
@DEPS@
[workspace]
END
cd "$work" || exit 3
CARGO_TARGET_DIR="$work/target" CARGO_NET_OFFLINE=true cargo build --offline > build.log 2>&1 || { tail -20 build.log; exit 3; }
timeout 200 ./target/debug/demo > out.log 2> err.log
rc=$?
tail -c 1500 err.log
exit $rc
'''

DEMO_PY = r'''#!/bin/bash
# cwd is the repository. Builds its servers and lets demo.py talk to one on 127.0.0.1:7878: 0 when the property held.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
work=$(mktemp -d)
trap 'find "$work" -delete' EXIT
mkdir -p "$work/src"
echo > "$work/src/lib.rs"
cp "$here/Cargo.lock" "$work/Cargo.lock"
cat > "$work/Cargo.toml" <<END
[package]
name = "demo"
version = "0.1.0"
edition = "2021"

[dependencies]
server = { path = "$repo/server" }
tokio = { version = "1", features = ["full"] }

[[bin]]
name = "simple_server"
path = "$repo/server/src/simple.rs"

[[bin]]
name = "multi_server"
path = "$repo/server/src/multi.rs"

[[bin]]
name = "async_server"
path = "$repo/server/src/async.rs"

[workspace]
END
CARGO_TARGET_DIR="$work/target" CARGO_NET_OFFLINE=true cargo build --offline --manifest-path "$work/Cargo.toml" > "$work/build.log" 2>&1 || { tail -20 "$work/build.log"; exit 3; }
cd "$work" || exit 3
timeout 250 python3 -B "$here/demo.py" "$work/target/debug"
'''

DEMO_TSAN = DEMO_RS.replace(
    'cargo build --offline > build.log', 'RUSTFLAGS=-Zsanitizer=thread cargo +nightly build --offline -Zbuild-std --target x86_64-unknown-linux-gnu > build.log'
).replace("timeout 200 ./target/debug/demo", "TSAN_OPTIONS='exitcode=66' timeout 120 ./target/x86_64-unknown-linux-gnu/debug/demo")

CLIENT = r'''import json, os, socket, subprocess, sys, threading, time

BIN = sys.argv[1]


class Server:
    def __init__(self, name):
        self.p = subprocess.Popen([os.path.join(BIN, name)], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        for _ in range(200):
            try:
                socket.create_connection(("127.0.0.1", 7878), 1).close()
                return
            except OSError:
                time.sleep(0.05)
        raise SystemExit("the server does not start")

    def alive(self):
        return self.p.poll() is None

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.p.kill()
        self.p.wait()


def connect(timeout=20):
    s = socket.create_connection(("127.0.0.1", 7878), timeout)
    return s


def request(query, user="admin", headers=(), raw_body=None):
    body = raw_body if raw_body is not None else json.dumps({"query": query}).encode()
    head = "POST / HTTP/1.1\r\nUsername: %s\r\n" % user
    for k, v in headers:
        head += "%s: %s\r\n" % (k, v)
    return (head + "Content-Length: %d\r\n\r\n" % len(body)).encode() + body


def read_all(s):
    data = b""
    while True:
        try:
            d = s.recv(65536)
        except (socket.timeout, ConnectionError):
            break
        if not d:
            break
        data += d
    return data


def split(data):
    """status line and body of a response, or None"""
    if b"\n \n" not in data and b"\n\n" not in data and b"\r\n\r\n" not in data:
        return None
    for sep in (b"\r\n\r\n", b"\n\n", b"\n \n"):
        if sep in data:
            head, body = data.split(sep, 1)
            break
    n = None
    for line in head.split(b"\n"):
        if line.lower().startswith(b"content-length:"):
            n = int(line.split(b":")[1])
    return int(head.split()[1]), body[:n], body, n


def ask(query, user="admin", timeout=20, **kw):
    """(status, payload text) or None when nothing complete came"""
    try:
        s = connect(timeout)
        s.sendall(request(query, user, **kw))
        r = split(read_all(s))
        s.close()
    except OSError:
        return None
    return (r[0], r[1].decode("utf-8", "replace")) if r else None


def check(cond, what):
    if not cond:
        print("BROKEN:", what, file=sys.stderr)
        sys.exit(1)


'''


def load():
    out = {}
    d = os.path.join(VERIF, "tools", "seeds")
    for f in sorted(os.listdir(d)):
        if f.endswith(".py"):
            spec = importlib.util.spec_from_file_location(f[:-3], os.path.join(d, f))
            m = importlib.util.module_from_spec(spec)
            spec.loader.exec_module(m)
            for b in getattr(m, "BUGS", []):
                assert b["id"] not in out, b["id"]
                out[b["id"]] = b
    return out


def sh(cmd, cwd=None, timeout=900, env=None):
    return subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout, env=env)


def tests(repo):
    p = sh(["cargo", "test", "--workspace", "--offline", "--no-fail-fast"], cwd=repo)
    ok = re.findall(r"^test (\S+)(?: - should panic)? \.\.\. ok", p.stdout, re.M)
    return p, set(ok)


def make(bid, b):
    if not os.path.exists(SCRATCH):
        sh(["cp", "-a", "/repo", SCRATCH])
    sh(["git", "checkout", "-q", "--", "."], cwd=SCRATCH)
    sh(["git", "fetch", "-q", "/repo", "HEAD"], cwd=SCRATCH)
    head = sh(["git", "-C", "/repo", "rev-parse", "HEAD"]).stdout.strip()
    sh(["git", "reset", "-q", "--hard", head], cwd=SCRATCH)
    stable = {t.split("::", 1)[1] for t in json.load(open("/opt/vp/BASELINE.json"))["stable"]}
    tmp = tempfile.mkdtemp(prefix="seed-")
    d = os.path.join(tmp, bid)
    os.makedirs(d)
    try:
        kind = "rs" if "rs" in b else "py"
        open(os.path.join(d, "demo.sh"), "w").write((DEMO_TSAN if b.get('tsan') else DEMO_RS).replace("@DEPS@\n", b.get("deps", "") + "\n") if kind == "rs" else DEMO_PY)
        os.chmod(os.path.join(d, "demo.sh"), 0o755)
        open(os.path.join(d, "demo." + kind), "w").write(b["rs"] if kind == "rs" else CLIENT + b["py"])
        shutil.copy("/repo/Cargo.lock", os.path.join(d, "Cargo.lock"))
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]},
                  open(os.path.join(d, "meta.json"), "w"), indent=1)
        p = sh(["bash", os.path.join(d, "demo.sh")], cwd=SCRATCH, timeout=400)
        if p.returncode != 0:
            return "demo fails on the unchanged tree (%d): %s" % (p.returncode, p.stdout[-1500:])
        for f, old, new in b["edits"]:
            path = os.path.join(SCRATCH, "server/src", f)
            s = open(path).read()
            if s.count(old) != 1:
                return "%s: the text occurs %d times in %s: %s" % (bid, s.count(old), f, old[:80])
            open(path, "w").write(s.replace(old, new))
        diff = sh(["git", "diff"], cwd=SCRATCH).stdout
        open(os.path.join(d, "patch.diff"), "w").write(diff)
        # which lines does it take away?
        for f in {e[0] for e in b["edits"]}:
            cur = []
            blame = sh(["git", "blame", "-s", "HEAD", "--", "server/src/" + f], cwd=SCRATCH).stdout.split("\n")
            for m in re.finditer(r"^@@ -(\d+)(?:,(\d+))? ", sh(["git", "diff", "-U0", "--", "server/src/" + f], cwd=SCRATCH).stdout, re.M):
                a, n = int(m.group(1)), int(m.group(2) or 1)
                for i in range(a, a + n):
                    cur.append("original" if blame[i - 1].startswith("^") else "MINE:" + blame[i - 1][:60])
            print("   lines replaced in %s: %s" % (f, cur))
        t, ok = tests(SCRATCH)
        if stable - ok:
            return "tests fail: %s\n%s" % (sorted(stable - ok), t.stdout[:1500])
        p = sh(["bash", os.path.join(d, "demo.sh")], cwd=SCRATCH, timeout=400)
        if p.returncode == 0 or p.returncode == 3:
            return "demo does not fail with the change (%d) %s" % (p.returncode, p.stdout[-1500:])
        print("   demo:", p.returncode, p.stdout.strip()[-200:])
        final = os.path.join(VERIF, "seeded", bid)
        if os.path.exists(final):
            shutil.rmtree(final)
        shutil.copytree(d, final)
        return None
    finally:
        sh(["git", "checkout", "-q", "--", "."], cwd=SCRATCH)
        shutil.rmtree(tmp)


def attempt(bid, prop, tier="quick", seed="1", patch=None):
    patch = patch or os.path.join(VERIF, "seeded", bid, "patch.diff")
    t = time.time()
    p = sh(["git", "-C", "/repo", "apply", patch])
    if p.returncode:
        return "does not apply: " + p.stdout
    try:
        p = sh([os.path.join(VERIF, "bin/check"), prop], timeout=1500, env=dict(os.environ, VERIF_SEED=seed, VERIF_TIER=tier))
    finally:
        sh(["git", "-C", "/repo", "checkout", "--", "."])
    last = [l for l in p.stdout.split("\n") if "violation in" in l][:1]
    return "rc %d %s (%.0f s) %s" % (p.returncode, "CAUGHT" if p.returncode == 1 else "missed" if p.returncode == 0 else "BROKEN " + p.stdout[-500:], time.time() - t, (last or [""])[0][:260])


def probes():
    spec = importlib.util.spec_from_file_location("probes", os.path.join(VERIF, "tools", "seeds", "probes.py"))
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    return m.PROBES


def probe(b, checks):
    """A change without a demonstration, only to see what the checks make of it"""
    if not os.path.exists(SCRATCH):
        sh(["cp", "-a", "/repo", SCRATCH])
    sh(["git", "checkout", "-q", "--", "."], cwd=SCRATCH)
    stable = {t.split("::", 1)[1] for t in json.load(open("/opt/vp/BASELINE.json"))["stable"]}
    for f, old, new in b["edits"]:
        path = os.path.join(SCRATCH, "server/src", f)
        s = open(path).read()
        if s.count(old) != 1:
            return "the text occurs %d times in %s: %s" % (s.count(old), f, old[:80])
        open(path, "w").write(s.replace(old, new))
    t, ok = tests(SCRATCH)
    diff = sh(["git", "diff"], cwd=SCRATCH).stdout
    sh(["git", "checkout", "-q", "--", "."], cwd=SCRATCH)
    if stable - ok:
        return "tests fail: %s %s" % (sorted(stable - ok), t.stdout[:1000] if not ok else "")
    with open("/tmp/probe.diff", "w") as f:
        f.write(diff)
    return ", ".join("%s: %s" % (c, attempt(b["id"], c, patch="/tmp/probe.diff")) for c in checks)


def quiet(name, edits, checks):
    """Edits that keep the behaviour: no check may say anything"""
    if not os.path.exists(SCRATCH):
        sh(["cp", "-a", "/repo", SCRATCH])
    sh(["git", "checkout", "-q", "--", "."], cwd=SCRATCH)
    stable = {t.split("::", 1)[1] for t in json.load(open("/opt/vp/BASELINE.json"))["stable"]}
    for f, old, new in edits:
        path = os.path.join(SCRATCH, "server/src", f)
        s = open(path).read()
        if s.count(old) != 1:
            print("%s: the text occurs %d times in %s: %s" % (name, s.count(old), f, old[:80]))
            continue
        open(path, "w").write(s.replace(old, new))
    t, ok = tests(SCRATCH)
    diff = sh(["git", "diff"], cwd=SCRATCH).stdout
    sh(["git", "checkout", "-q", "--", "."], cwd=SCRATCH)
    if stable - ok:
        print("%s: tests fail: %s %s" % (name, sorted(stable - ok), t.stdout[:3000] if not ok else ""))
        return
    patch = "/tmp/quiet-%s.diff" % name
    with open(patch, "w") as f:
        f.write(diff)
    for c in checks:
        print("%s: %s: %s" % (name, c, attempt(name, c, patch=patch).replace("missed", "quiet").replace("CAUGHT", "FALSE ALARM")), flush=True)


def main():
    mode, args = sys.argv[1], sys.argv[2:]
    if mode == "quiet":
        spec = importlib.util.spec_from_file_location("refactors", os.path.join(VERIF, "tools", "seeds", "refactors.py"))
        m = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(m)
        checks = ["C%02d" % i for i in range(1, 18)]
        if "-c" in args:
            i = args.index("-c")
            checks = [c for c in args[i + 1].split(",") if c]
            del args[i:i + 2]
        for name in args or sorted(m.REFACTORS):
            quiet(name, m.REFACTORS[name], checks)
        return
    if mode == "probe":
        for b in probes():
            if not args or b["id"] in args or any(a.endswith("*") and b["id"].startswith(a[:-1]) for a in args):
                print("%s: %s" % (b["id"], probe(b, [b["property"]])), flush=True)
        return
    bugs = load()
    only = None
    if "-c" in args:
        i = args.index("-c")
        only = args[i + 1].split(",")
        del args[i:i + 2]
    ids = args or sorted(bugs)
    for bid in ids:
        if mode == "make":
            err = make(bid, bugs[bid])
            print("%s: %s" % (bid, err or "kept"), flush=True)
        else:
            prop = json.load(open(os.path.join(VERIF, "seeded", bid, "meta.json")))["property"]
            for c in only or [prop]:
                print("%s with %s: %s" % (bid, c, attempt(bid, c)), flush=True)


main()
