"""Facts about the current working tree of /repo: the MIR of every function, closure and constant,
extracted by a rustc driver (type-checked with the real compiler; the program is never run)."""
import hashlib, json, os, re, shutil, subprocess, sys, tempfile, fcntl
from terms import EITHER

REPO = os.environ.get("VP_REPO", "/repo")
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CACHE = os.environ.get("VP_CACHE", os.path.join(HERE, ".cache"))
CRATES = ["rustomata", "rustomata-bin", "search", "unique_heap", "vecmultimap"]


class Unanalysable(Exception):
    pass


def _hash_files(paths):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(p.encode())
        with open(p, "rb") as f:
            h.update(hashlib.sha256(f.read()).digest())
    return h.hexdigest()[:20]


def _sources():
    out = []
    for base, dirs, names in os.walk(REPO):
        rel = os.path.relpath(base, REPO)
        dirs[:] = [d for d in dirs if d not in (".git", "target", "examples", "doc")]
        for n in names:
            if n.endswith(".rs") or n == "Cargo.toml":
                out.append(os.path.join(base, n))
    return out


def _env():
    env = dict(os.environ)
    env["HOME"] = "/root"
    env["PATH"] = "/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:/root/.cargo/bin"
    for k in ("RUSTFLAGS", "RUSTC_WRAPPER", "RUSTC_WORKSPACE_WRAPPER", "CARGO_TARGET_DIR", "RUSTUP_TOOLCHAIN",
              "CARGO_BUILD_TARGET_DIR", "CARGO_ENCODED_RUSTFLAGS"):
        env.pop(k, None)
    env["CARGO_NET_OFFLINE"] = "true"
    return env


def _sysroot(env):
    r = subprocess.run(["rustc", "+nightly", "--print", "sysroot"], env=env, capture_output=True, text=True)
    if r.returncode:
        raise Unanalysable("no nightly rustc: " + r.stderr)
    return r.stdout.strip()


def driver():
    """Builds the rustc driver (once per version of its source)."""
    src = os.path.join(HERE, "driver", "main.rs")
    key = _hash_files([src])
    os.makedirs(CACHE, exist_ok=True)
    exe = os.path.join(CACHE, "driver-" + key)
    if not os.path.exists(exe):
        tmp = exe + ".tmp%d" % os.getpid()
        r = subprocess.run(["rustc", "+nightly", "-O", "--edition", "2021", "-o", tmp, src],
                           env=_env(), capture_output=True, text=True, cwd=CACHE)
        if r.returncode:
            raise Unanalysable("the driver does not build: " + r.stderr[-3000:])
        os.rename(tmp, exe)
    return exe


#: module file -> what remains of it in a build without the unavailable crate `integeriser` (as /opt/vp/mirror.py does)
LEFT_OUT = {
    "approximation/mod.rs": "pub mod equivalence_classes;\n",
    "automata/mod.rs": "",
    "dyck/multiple/mod.rs": "",
    "grammars/lcfrs/csparsing/mod.rs": "",
    "recognisable/mod.rs": "pub mod configuration;\n",
    "util/integerisable.rs": "",
    "util/push_down.rs": "",
}


def _mirror(mirror, stub, partial):
    for e in os.listdir(REPO):
        if e in (".git", "target", "Cargo.toml", "Cargo.lock") or (partial and e == "src"):
            continue
        os.symlink(os.path.join(REPO, e), os.path.join(mirror, e))
    with open(os.path.join(REPO, "Cargo.toml")) as f:
        man = f.read()
    if partial:
        man = re.sub(r"(?m)^integeriser\b.*\n", "", man)
        man = re.sub(r"(?m)^\[\[bin\]\]\n(?:[^\[\n].*\n|\n)*", "", man)
        for base, dirs, names in os.walk(os.path.join(REPO, "src")):
            rel = os.path.relpath(base, REPO)
            if rel == "src" and "bin" in dirs:
                dirs.remove("bin")
            os.makedirs(os.path.join(mirror, rel), exist_ok=True)
            for n in names:
                r = os.path.relpath(os.path.join(rel, n), "src")
                dst = os.path.join(mirror, rel, n)
                if r in LEFT_OUT:
                    with open(dst, "w") as f:
                        f.write(LEFT_OUT[r])
                elif r == "lib.rs":
                    with open(os.path.join(base, n)) as f:
                        t = f.read()
                    with open(dst, "w") as f:
                        f.write(re.sub(r"(?m)^extern crate integeriser;$", "", t))
                else:
                    os.symlink(os.path.join(base, n), dst)
    else:
        man, n = re.subn(r"(?m)^integeriser\s*=.*$", 'integeriser = { path = "%s" }' % stub, man)
        if n != 1:
            raise Unanalysable("Cargo.toml of /repo: no dependency line for integeriser")
    with open(os.path.join(mirror, "Cargo.toml"), "w") as f:
        f.write(man)
    shutil.copy(os.path.join(HERE, "stub", "Cargo.lock"), os.path.join(mirror, "Cargo.lock"))


def _check(exe, stub, tmp, partial):
    """type-checks a mirror of the working tree with the driver; returns an error text or None"""
    env = _env()
    mirror = tempfile.mkdtemp(prefix="vp-mirror-")
    try:
        _mirror(mirror, stub, partial)
        shutil.rmtree(tmp, ignore_errors=True)
        os.makedirs(tmp)
        env["VP_MIR_OUT"] = tmp
        env["LD_LIBRARY_PATH"] = _sysroot(env) + "/lib"
        env["RUSTC_WORKSPACE_WRAPPER"] = exe
        env["CARGO_TARGET_DIR"] = os.path.join(mirror, "target")
        r = subprocess.run(["cargo", "+nightly", "check", "--offline", "--workspace", "--message-format", "short"],
                           env=env, cwd=mirror, capture_output=True, text=True)
        if r.returncode:
            return "\n".join(l for l in r.stderr.splitlines() if "error" in l) or r.stderr[-2000:]
        missing = [c for c in CRATES if not os.path.exists(os.path.join(tmp, c + ".json")) and not (partial and c.endswith("-bin"))]
        if missing:
            return "no MIR was produced for " + ", ".join(missing)
        return None
    finally:
        shutil.rmtree(mirror, ignore_errors=True)


def extract():
    """Returns the folder with the MIR of the current tree."""
    os.makedirs(CACHE, exist_ok=True)
    with open(os.path.join(CACHE, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        exe = driver()
        stub = os.path.join(HERE, "stub", "integeriser")
        key = _hash_files(_sources() + [os.path.join(stub, "src/lib.rs"), os.path.join(stub, "Cargo.toml")])
        key += "-" + os.path.basename(exe)[-8:]
        out = os.path.join(CACHE, "mir-" + key)
        if os.path.isdir(out):
            return out
        tmp = out + ".tmp"
        e = _check(exe, stub, tmp, False)
        if e is not None:
            # the part that /opt/vp/build.sh builds can still be analysed
            e2 = _check(exe, stub, tmp, True)
            if e2 is not None:
                shutil.rmtree(tmp, ignore_errors=True)
                raise Unanalysable("the working tree does not type-check:\n" + e2[:4000])
            with open(os.path.join(tmp, "partial"), "w") as f:
                f.write(e[:4000])
        os.rename(tmp, out)
        # keep the cache small
        old = sorted((os.path.join(CACHE, d) for d in os.listdir(CACHE) if d.startswith("mir-")),
                     key=os.path.getmtime)
        for d in old[:-6]:
            if os.path.join(CACHE, d) != out and d != os.path.basename(out):
                shutil.rmtree(d, ignore_errors=True)
        return out


_gen = re.compile(r"::<")


def norm(path):
    """A path without generic arguments: `std::vec::Vec::<T, A>::push` -> `std::vec::Vec::push`."""
    out, i = [], 0
    while i < len(path):
        if path.startswith("::<", i) and not path.startswith("::<impl", i):
            j, d = i + 2, 0
            while j < len(path):
                if path[j] == "<":
                    d += 1
                elif path[j] == ">" and path[j - 1] != "-":
                    d -= 1
                    if d == 0:
                        break
                j += 1
            i = j + 1
        elif path.startswith("<impl", i):
            j, d = i, 0
            while j < len(path):
                if path[j] == "<":
                    d += 1
                elif path[j] == ">" and path[j - 1] != "-":
                    d -= 1
                    if d == 0:
                        break
                j += 1
            out.append("impl")
            i = j + 1
        else:
            out.append(path[i])
            i += 1
    return "".join(out)


class Prog:
    def __init__(self, folder=None):
        folder = folder or extract()
        self.fns, self.impls, self.adts = {}, [], {}
        self.partial = None
        if os.path.exists(os.path.join(folder, "partial")):
            with open(os.path.join(folder, "partial")) as f:
                self.partial = f.read()
        for c in CRATES:
            if self.partial is not None and c.endswith("-bin"):
                continue
            with open(os.path.join(folder, c + ".json")) as f:
                d = json.load(f)
            for x in d["fns"]:
                if d["bin"]:
                    x["bin"] = True
                x["crate"] = c
                x["nname"] = norm(x["name"])
                self.fns[x["id"] if not d["bin"] else x["id"]] = x
            for im in d["impls"]:
                im["crate"] = c
                self.impls.append(im)
            for k, v in d["adts"].items():
                if k not in self.adts or v["local"]:
                    self.adts[k] = v
                    if v["local"] and len(v["variants"]) == 2:
                        a, b = (x["name"] for x in v["variants"])
                        EITHER.setdefault(a, set()).add(b)
                        EITHER.setdefault(b, set()).add(a)
        self.by_name = {}
        for x in self.fns.values():
            self.by_name.setdefault(x["nname"], []).append(x)
        self.children = {}
        for x in self.fns.values():
            if x["kind"] == "closure":
                self.children.setdefault(x["parent"], []).append(x["id"])
        self.by_trait_item = {}
        for x in self.fns.values():
            if x.get("trait_item") and x["kind"] != "closure":
                self.by_trait_item.setdefault(x["trait_item"], []).append(x["id"])

    def find(self, pattern, kind=None):
        r = re.compile(pattern)
        return [x for x in self.fns.values()
                if r.search(x["nname"]) and x["kind"] != "closure" and (kind is None or x["kind"] == kind)]

    def adt(self, suffix):
        return [k for k, v in self.adts.items() if v["local"] and (norm(v["path"]).endswith(suffix))]

    def derived_impls(self, adt_suffix):
        return [i for i in self.impls if i["derived"] and adt_suffix in i["self"]]
