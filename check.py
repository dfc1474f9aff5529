#!/usr/bin/env python3
"""check.py <property>            decide one property on /repo's current tree (VERIF_TIER, VERIF_SEED from the environment)
check.py --setup                  build the extractor and the native harness once
check.py --all [ids]              every property, one verifier run (development aid)
check.py --replay <file>          run the failing input recorded in a replay file again

Deciding step: the functions of /repo/src are extracted mechanically, joined with the contracts in
/verif/contracts and handed to Verus, which has to discharge every obligation of every function a property owns.
"""
import sys, os, re, json, time, shutil, subprocess, fnmatch, tempfile, hashlib, threading, signal

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VP_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
REPLAYS = os.path.join(VERIF, "replays")
CONTRACTS = os.path.join(VERIF, "contracts")
NATIVE = os.path.join(VERIF, "native")
EXTRACT_DIR = os.path.join(VERIF, "tools", "extract")
STABLE = {"RUSTUP_TOOLCHAIN": "stable-x86_64-unknown-linux-gnu", "CARGO_NET_OFFLINE": "true",
          "CARGO_TERM_COLOR": "never", "RUSTC_WRAPPER": "", "CARGO_PROFILE_DEV_DEBUG": "line-tables-only"}
RLIMITS = [None, 60, 200]
# seconds spent on further native rounds (other seeds) when an obligation fails and no input has shown why
EXTRA_QUICK = 100
EXTRA_THOROUGH = 300


def log(*a):
    print("[%6.1fs]" % (time.time() - T0), *a, flush=True)


T0 = time.time()


def env(**kw):
    e = dict(os.environ)
    e["HOME"] = "/root"
    e["PATH"] = "/root/.cargo/bin:/usr/local/cargo/bin:" + e.get("PATH", "")
    e.pop("RUSTFLAGS", None)
    e.pop("CARGO_TARGET_DIR", None)
    e.update(kw)
    return e


def run(cmd, timeout=600, cwd=None, environ=None, out=None, mem_gb=None):
    """run a command in its own process group; -> (rc, stdout, stderr); rc None on timeout"""
    def pre():
        os.setsid()
        if mem_gb:
            import resource
            resource.setrlimit(resource.RLIMIT_AS, (mem_gb << 30, mem_gb << 30))
    p = subprocess.Popen(cmd, cwd=cwd, env=environ or env(), stdin=subprocess.DEVNULL,
                         stdout=subprocess.PIPE, stderr=subprocess.PIPE, preexec_fn=pre)
    try:
        o, e = p.communicate(timeout=timeout)
        rc = p.returncode
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        o, e = p.communicate()
        rc = None
    return rc, o.decode("utf-8", "replace"), e.decode("utf-8", "replace")


# ---------------------------------------------------------------- verifier side

def build_extractor():
    td = os.path.join(BUILD, "extract")
    rc, o, e = run(["cargo", "build", "--offline"], cwd=EXTRACT_DIR, timeout=600,
                   environ=env(CARGO_TARGET_DIR=td, **STABLE))
    exe = os.path.join(td, "debug", "vp-extract")
    if rc != 0 or not os.path.exists(exe):
        print(e[-3000:])
        raise SystemExit("cannot build the extractor")
    return exe


class Verification:
    """one extraction + Verus run over the whole crate, functions that are out of reach isolated"""

    def __init__(self, exe, work, only=None):
        self.exe, self.work, self.only = exe, work, only
        self.scope = "the whole crate"
        self.external = {}          # key -> reason
        self.fatal = None           # the whole crate is out of reach
        self.failed = {}            # key or lemma name -> [messages]
        self.undecided = {}         # key -> reason
        self.breakdown = {}         # verus name -> entry
        self.meta = {"functions": [], "inlined": [], "notes": [], "missing": []}
        self.results = {}
        self.times = {}
        self.cmd = ""
        self.raw = ""
        self.weak = set()
        self.imports = {}           # line of the extracted crate with an import the prelude does not know -> without it

    def extract(self, name, extra=()):
        rs, js = os.path.join(self.work, name + ".rs"), os.path.join(self.work, name + ".json")
        cmd = [self.exe, os.path.join(REPO, "src"), CONTRACTS, os.path.join(CONTRACTS, "prelude.rs"), rs, js]
        for k in self.external:
            cmd += ["--external", k]
        rc, o, e = run(cmd + list(extra), timeout=120, environ=env(VP_DEFAULT_EXTERNAL="1"))
        if rc != 0:
            return None, None, (e or o)[-2000:]
        if self.imports:
            t = "\n".join(self.imports.get(l, l) for l in open(rs).read().split("\n"))
            open(rs, "w").write(t)
        return rs, json.load(open(js)), None

    def unknown_import(self, d, rs):
        """an import of something the prelude does not model: left out, what uses it is then out of reach"""
        if not d["message"].startswith("unresolved import"):
            return False
        ls = open(rs).read().split("\n")
        for s in sorted((s for s in d.get("spans", []) if s["is_primary"] and s["line_start"] == s["line_end"]),
                        key=lambda s: -s["column_start"]):
            l = ls[s["line_start"] - 1]
            if l in self.imports:
                continue
            a, b = l[:s["column_start"] - 1], l[s["column_end"] - 1:]
            if re.match(r"\s*(#\[\w+\(\w+\)\]\s*)?(pub(\([^)]*\))?\s+)?use\s+$", a) and b.strip() == ";":
                self.imports[l] = ""
            else:
                self.imports[l] = a + re.sub(r"^\s*,", "", b)
            return True
        return False

    def verus(self, rs, rlimit=None, errors=3, timeout=700):
        cmd = ["verus", os.path.basename(rs), "--num-threads", "8", "--multiple-errors", str(errors),
               "--output-json", "--time-expanded"]
        if rlimit:
            cmd += ["--rlimit", str(rlimit)]
        mods = self.modules()
        for m in mods or []:
            cmd += ["--verify-module", m]
        self.scope = "the modules " + ", ".join(mods) if mods else "the whole crate"
        cmd += ["--", "--error-format=json"]
        self.cmd = " ".join(cmd)
        rc, o, e = run(cmd, timeout=timeout, cwd=self.work)
        diags = []
        for l in e.splitlines():
            if l.startswith("{"):
                try:
                    d = json.loads(l)
                except ValueError:
                    continue
                if d.get("level") == "error" and not d["message"].startswith("aborting due to"):
                    diags.append(d)
        try:
            j = json.loads(o[o.index("{"):])
        except ValueError:
            j = None
        return rc, j, diags, e

    def module(self, f):
        p = os.path.relpath(f["file"], os.path.join(REPO, "src"))[:-3].split(os.sep)
        p = p[:-1] if p[-1] == "mod" else p
        return "vp_main" if p == ["main"] else "::".join(p)

    def modules(self):
        """the modules of the owned functions and lemmas (None: everything)"""
        if not self.only:
            return None
        out = set()
        for pats, lemmas in self.only:
            for f in self.meta["functions"]:
                if match(f["key"], pats):
                    out.add(self.module(f))
            for l in lemmas:
                m = lemma_modules().get(l.split("::")[-1])
                if m is None:
                    return None
                out.add(m)
        return sorted(out) or None

    def owner(self, d, base):
        """the function (or other named item) a diagnostic belongs to"""
        spans = sorted((s for s in d.get("spans", []) if os.path.basename(s["file_name"]) == base),
                       key=lambda s: not s["is_primary"])
        extra = [s for c in d.get("children", []) for s in c.get("spans", []) if os.path.basename(s["file_name"]) == base]
        for s in spans + extra:
            for f in self.meta["functions"]:
                if f["start"] <= s["line_start"] <= f["end"]:
                    return f, s["line_start"]
        return None, (spans[0]["line_start"] if spans else None)

    def item_at(self, rs, line):
        if line is None:
            return None
        ls = open(rs).read().splitlines()
        for i in range(min(line, len(ls)) - 1, -1, -1):
            m = re.search(r"\bfn\s+(\w+)", ls[i])
            if m:
                return m.group(1)
        return None

    def go(self):
        t = time.time()
        rl = 0
        for attempt in range(14):
            rs, meta, err = self.extract("crate")
            if err:
                self.fatal = "extraction failed: " + err
                break
            self.meta = meta
            rc, j, diags, raw = self.verus(rs, RLIMITS[rl])
            self.raw = raw
            base = os.path.basename(rs)
            if rc is None:
                self.fatal = "verifier timed out"
                break
            vr = (j or {}).get("verification-results", {})
            log("verus: rc=%s verified=%s errors=%s" % (rc, vr.get("verified"), vr.get("errors")))
            if j is None or vr.get("encountered-vir-error") or "verified" not in vr or \
                    (rc != 0 and not vr.get("errors") and diags):
                # not verification failures: something outside the supported subset
                new = {}
                cut = any([self.unknown_import(d, rs) for d in diags])
                for d in diags:
                    f, line = self.owner(d, base)
                    if f and not f["external"] and f["key"] not in self.external:
                        new[f["key"]] = "outside the verifier's reach: " + d["message"].split("\n")[0][:200]
                if cut:
                    log("left out:", "; ".join(l.strip() for l in self.imports))
                    self.external.update(new)
                    continue
                if not new:
                    self.fatal = "verifier rejects the extracted crate: " + "; ".join(
                        d["message"].split("\n")[0][:200] for d in diags[:3]) + ("" if diags else raw[-500:])
                    break
                self.external.update(new)
                log("isolating", ", ".join(new))
                continue
            self.failed, self.undecided = {}, {}
            rlim = False
            for d in diags:
                f, line = self.owner(d, base)
                name = f["key"] if f else (self.item_at(rs, line) or "?")
                msg = d.get("rendered") or d["message"]
                if "rlimit" in d["message"].lower() or "resource limit" in d["message"].lower():
                    rlim = True
                    self.undecided[name] = "solver resource limit"
                else:
                    self.failed.setdefault(name, []).append(msg)
            self.results = vr
            tm = j.get("times-ms", {})
            self.times = {"total_ms": tm.get("total"), "smt_ms": tm.get("smt", {}).get("smt-run")}
            self.breakdown = {}
            for m in tm.get("smt", {}).get("smt-run-module-times", []):
                for fb in m.get("function-breakdown", []):
                    k = re.sub(r"^\w+::", "", fb["function"], count=1)
                    a = self.breakdown.setdefault(k, {"time": 0, "success": True, "mode": fb.get("mode:"), "n": 0})
                    a["time"] += fb["time"]
                    a["n"] += 1
                    a["success"] &= fb["success"]
            if rlim and rl + 1 < len(RLIMITS):
                rl += 1
                log("resource limit reached, retrying with", RLIMITS[rl])
                continue
            break
        self.wall = time.time() - t
        for f in self.meta["functions"]:
            f["name"] = f["key"]
        return self

    def smoke(self):
        """vacuity guard: assert(false) at the start of every contracted body has to fail"""
        rs, meta, err = self.extract("smoke", ["--smoke"])
        if err:
            return None
        self.meta = meta
        rc, j, diags, raw = self.verus(rs, None, 0)
        if rc is None or j is None or "verified" not in j.get("verification-results", {}):
            return None
        hit = set()
        for d in diags:
            f, _ = self.owner(d, os.path.basename(rs))
            if f:
                hit.add(f["key"])
        mods = self.modules()
        return [f["key"] for f in meta["functions"] if f["contracted"] and not f["external"] and f["key"] not in hit
                and (mods is None or self.module(f) in mods)]

    def text(self, f):
        ls = open(os.path.join(self.work, "crate.rs")).read().splitlines()
        return "\n".join(ls[f["start"] - 1:f["end"]])

    def verus_name(self, key):
        parts = key.split("::")
        parts = [p.split("@")[-1].split("<")[0] for p in parts]
        return "::".join(parts)


# ---------------------------------------------------------------- native side (bounded)

def hook_files(prop):
    out = []
    for root, _, fs in os.walk(NATIVE):
        for f in sorted(fs):
            if f.endswith(".rs") and f != "util.rs":
                p = os.path.join(root, f)
                t = open(p).read()
                if re.search(r"fn %s_\w+" % prop.lower(), t):
                    out.append(p)
    return out


def module_file(src, rel):
    """native/a/b/x.rs is attached to module a::b"""
    mods = os.path.dirname(rel)
    if mods in ("", "."):
        return os.path.join(src, "main.rs")
    for c in (mods + ".rs", os.path.join(mods, "mod.rs")):
        if os.path.exists(os.path.join(src, c)):
            return os.path.join(src, c)
    return None


def lemma_modules():
    out = {}
    for f in sorted(os.listdir(CONTRACTS)):
        if not f.endswith(".vc"):
            continue
        mod = None
        for l in open(os.path.join(CONTRACTS, f)):
            m = re.match(r"//@ (module|top)\b\s*(\S*)", l)
            if m:
                mod = m.group(2) if m.group(1) == "module" else "vp_benc"
            m = re.match(r"\s*(?:pub )?(?:broadcast )?(?:axiom|proof) fn (\w+)", l)
            if m:
                out[m.group(1)] = mod
    return out


ITEM = re.compile(r"(pub(\([a-z]+\))? )?(async )?(fn|struct|enum|impl|const|static|type|trait)\b")


def blocks(text):
    """first and last line (from 0) of every top-level item of a harness, attributes and comments above it included"""
    lines = text.split("\n")
    starts = []
    for i, l in enumerate(lines):
        if ITEM.match(l):
            j = i
            while j > 0 and lines[j - 1].startswith(("#[", "//")):
                j -= 1
            starts.append((j, i))
    return [(a, (starts[n + 1][0] if n + 1 < len(starts) else len(lines)) - 1, lines[i]) for n, (a, i) in enumerate(starts)]


class Native:
    """the real crate, compiled natively with one child module per hook file appended"""

    def __init__(self, work):
        self.work = work
        self.dropped = {}
        self.cut = {}       # harness -> {first line: (last line, item)} that does not compile against this tree
        self.exe = None
        self.note = None

    def build(self, prop):
        self.hooks = hook_files(prop)
        if not self.hooks:
            self.note = "no native harness for this property"
            return self
        tgt = os.path.join(BUILD, "native-target")
        if not os.path.exists(tgt):
            os.makedirs(os.path.join(tgt, "debug"))
            for d in ("deps", "build", ".fingerprint"):
                s = os.path.join(REPO, "target", "debug", d)
                if os.path.isdir(s):
                    subprocess.call(["cp", "-al", s, os.path.join(tgt, "debug", d)], stderr=subprocess.DEVNULL)
            for root, ds, fs in os.walk(tgt):
                for f in list(fs):
                    if f.startswith(("rust_bit-", "librust_bit-")):
                        os.unlink(os.path.join(root, f))
                for d in list(ds):
                    if d.startswith("rust_bit-"):
                        shutil.rmtree(os.path.join(root, d))
                        ds.remove(d)
        for attempt in range(12):
            p = os.path.join(self.work, "crate")
            if os.path.isdir(p):
                shutil.rmtree(p)
            os.makedirs(p)
            shutil.copytree(os.path.join(REPO, "src"), os.path.join(p, "src"))
            shutil.copy(os.path.join(REPO, "Cargo.toml"), p)
            lock = os.path.join(REPO, "Cargo.lock")
            shutil.copy(lock if os.path.exists(lock) else os.path.join(NATIVE, "Cargo.lock"), os.path.join(p, "Cargo.lock"))
            src = os.path.join(p, "src")
            with open(os.path.join(src, "main.rs"), "a") as f:
                f.write('\n#[cfg(test)]\n#[path = "%s"]\npub mod vp_util;\n' % os.path.join(NATIVE, "util.rs"))
            n = 0
            copies = {}
            for h in self.hooks:
                if h in self.dropped:
                    continue
                rel = os.path.relpath(h, NATIVE)
                m = module_file(src, rel)
                if m is None:
                    self.dropped[h] = "module not found"
                    continue
                copy = os.path.join(p, "vp", rel)
                os.makedirs(os.path.dirname(copy), exist_ok=True)
                lines = open(h).read().split("\n")
                for a, (b, _) in self.cut.get(h, {}).items():
                    lines[a:b + 1] = [""] * (b + 1 - a)
                with open(copy, "w") as f:
                    f.write("\n".join(lines))
                copies[copy] = h
                with open(m, "a") as f:
                    f.write('\n#[cfg(test)]\n#[path = "%s"]\nmod vp_%s;\n' % (copy, os.path.basename(h)[:-3]))
                n += 1
            if n == 0:
                self.note = "no native harness compiles against this tree"
                return self
            rc, o, e = run(["cargo", "test", "--no-run", "--offline", "--message-format=json"], cwd=p, timeout=700,
                           environ=env(CARGO_TARGET_DIR=tgt, CARGO_INCREMENTAL="0", **STABLE))
            bad = {}
            for l in o.splitlines():
                try:
                    d = json.loads(l)
                except ValueError:
                    continue
                if d.get("reason") == "compiler-artifact" and d.get("executable") and d["target"]["name"] == "rust_bit":
                    exe = d["executable"]
                m = d.get("message") if d.get("reason") == "compiler-message" else None
                if m and m.get("level") == "error":
                    here = [s for s in m.get("spans", []) if s["file_name"] in copies]
                    for s in [s for s in here if s["is_primary"]] or here:
                        bad.setdefault(copies[s["file_name"]], []).append((s["line_start"] - 1, m["message"][:200]))
            if rc == 0:
                self.exe = os.path.join(self.work, "native-test")
                shutil.copy(exe, self.exe)
                return self
            if not bad:
                self.note = "the native harness does not build: " + e[-600:]
                return self
            for h, errs in bad.items():
                bl = blocks(open(h).read())
                for line, why in errs:
                    b = [x for x in bl if x[0] <= line <= x[1]]
                    if not b or b[0][0] in self.cut.get(h, {}):
                        self.dropped[h] = why
                    else:
                        self.cut.setdefault(h, {})[b[0][0]] = (b[0][1], "%s (%s)" % (b[0][2].strip(" {"), why))
        return self

    def tests(self, prop):
        rc, o, e = run([self.exe, "--list", "--format", "terse"], timeout=60)
        return [l[:-6] for l in o.splitlines() if l.endswith(": test") and re.search(r"::%s_\w+: test$" % prop.lower(), l)]

    def run_one(self, test, seed, tier, timeout):
        scratch = tempfile.mkdtemp(prefix="vp-native-")
        tried = ""
        try:
            rc, o, e = run([self.exe, "--exact", test, "--nocapture", "--test-threads", "1"], timeout=timeout, cwd=scratch,
                           environ=env(VERIF_SEED=str(seed), VERIF_TIER=tier, VP_SCRATCH=scratch, RUST_BACKTRACE="0",
                                       NO_PROXY="*", no_proxy="*"), mem_gb=8)
            f = os.path.join(scratch, ".vp-input")
            if rc != 0 and os.path.exists(f):
                tried = open(f, errors="replace").read()
        finally:
            shutil.rmtree(scratch, ignore_errors=True)
        text = o + e
        cases = sum(int(x) for x in re.findall(r"VP-CASES (\d+)", text))
        nontriv = sum(int(x) for x in re.findall(r"VP-NONTRIVIAL (\d+)", text))
        samples = re.findall(r"VP-SAMPLE (.*)", text)[:2]
        if rc == 0:
            return {"test": test, "ok": True, "cases": cases, "distinct": nontriv, "samples": samples}
        last = re.findall(r"VP-INPUT (.*)", text)
        fail = re.findall(r"VP-FAIL (.*)", text)
        why = "does not terminate within %ds" % timeout if rc is None else (fail[0] if fail else
              "; ".join(re.findall(r"panicked at [^\n]*\n[^\n]*", text)[:2]).replace("\n", " ") or "process died (rc %s)" % rc)
        return {"test": test, "ok": False, "cases": cases, "distinct": nontriv, "why": why[:2000],
                "input": (last[0] if last else tried)[:4000], "out": text[-4000:], "samples": samples}


# ---------------------------------------------------------------- one property

def load_props():
    return json.load(open(os.path.join(VERIF, "props.json")))


def known_findings(prop):
    out = []
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\S+) (.*)", l.strip())
            if m and m.group(1) == prop:
                out.append(m.group(2))
    return out


def match(key, pats):
    k = key
    r = False
    for p in pats:
        if p.startswith("!"):
            if fnmatch.fnmatchcase(k, p[1:]):
                r = False
        elif fnmatch.fnmatchcase(k, p):
            r = True
    return r


def calls(body, key, fns):
    """does this function text call `key`? (by name; methods only when the name is unambiguous)"""
    parts = key.split("::")
    m = re.escape(parts[-1])
    ty = parts[-2].split("@")[-1].split("<")[0] if len(parts) > 1 else ""
    if ty[:1].isupper():
        same = [f for f in fns if f["key"].split("::")[-1] == parts[-1]]
        return bool(re.search(r"\b%s(::<[^>]*>)?::%s\s*\(" % (re.escape(ty), m), body)
                    or re.search(r"\bSelf::%s\s*\(" % m, body) and len(same) == 1
                    or re.search(r"\.%s\s*\(" % m, body) and len(same) == 1)
    return bool(re.search(r"(?<![.\w:])%s(::<[^>]*>)?\s*\(" % m, body) or re.search(r"\b%s::%s\s*\(" % (re.escape(ty), m), body))


def trusted_base(v):
    base = ["Verus 0.2026.09.13.671956e and the Z3 it ships with", "rustc (types, borrow checking)",
            "tools/extract (mechanical extraction; rewrites listed in DESIGN.md)",
            "contracts/prelude.rs: assumed contracts on std and third-party functions"]
    t = open(os.path.join(CONTRACTS, "prelude.rs")).read()
    n_ext = len(re.findall(r"external_body", t))
    n_as = len(re.findall(r"assume_specification", t))
    n_ax = len(re.findall(r"\baxiom\b|admit\(\)|assume\(", t))
    vc = ""
    for f in sorted(os.listdir(CONTRACTS)):
        if f.endswith(".vc"):
            vc += open(os.path.join(CONTRACTS, f)).read()
    vn = {k: len(re.findall(p, vc)) for k, p in (("external_body", r"external_body"), ("assume", r"\bassume\("), ("admit", r"admit\(\)"), ("axiom", r"\baxiom\b"))}
    base.append("counted on this run: prelude has %d external_body, %d assume_specification, %d axiom/admit/assume; the .vc contracts have %s" % (n_ext, n_as, n_ax, vn))
    return base


def decide(prop, spec, v, smoke, native, tier, seed, t0):
    """-> (violations [(kind, text, replay)], evidence)"""
    pats, lemmas = spec["functions"], spec.get("lemmas", [])
    owned = [f for f in v.meta["functions"] if match(f["key"], pats)]
    keys = {f["key"] for f in owned}
    missing = [p for p in pats if not p.startswith("!") and "*" not in p and p not in keys]
    # contracted functions whose text is gone from the tree
    missing += [m for m in v.meta.get("missing", []) if match(m, pats) and m not in missing]
    out_of_reach, failed, proved = {}, {}, []
    if v.fatal:
        out_of_reach["(crate)"] = v.fatal
    # functions of this tree without a usable contract: whatever calls one of them cannot be judged
    weak = [f["key"] for f in v.meta["functions"] if f["external"] and not f["reason"].startswith("trusted body")]
    # functions whose parameter or result types are not those the contract was written for
    pinned = json.load(open(os.path.join(CONTRACTS, "signatures.json")))
    moved = [f["key"] for f in v.meta["functions"] if pinned.get(f["key"], f["sig"]) != f["sig"]]
    for f in owned:
        k = f["key"]
        if v.fatal:
            continue
        if f["external"]:
            out_of_reach[k] = v.external.get(k) or f.get("reason") or "external"
        elif k in v.undecided:
            out_of_reach[k] = v.undecided[k]
        elif k in v.failed:
            body = v.text(f)
            w = [n for n in weak + moved if n != k and calls(body, n, v.meta["functions"])]
            if k in moved:
                out_of_reach[k] = "its signature is %s, the contract was written for %s" % (f["sig"], pinned[k])
            elif w:
                out_of_reach[k] = "calls %s, out of the verifier's reach or with another signature" % ", ".join(w)
            else:
                failed[k] = v.failed[k]
        elif smoke is not None and k in smoke:
            out_of_reach[k] = "vacuous: assert(false) at its start is accepted"
        elif not f["contracted"]:
            out_of_reach[k] = "no contract"
        else:
            proved.append(k)
    for m in missing:
        out_of_reach[m] = "not in this tree"
    for l in lemmas:
        if v.fatal:
            break
        ent = [b for n, b in v.breakdown.items() if n.split("::")[-1] == l.split("::")[-1]]
        if l.split("::")[-1] in v.failed:
            failed[l] = v.failed[l.split("::")[-1]]
        elif not ent:
            out_of_reach[l] = "lemma not generated"
        else:
            proved.append(l)
    violations = []
    nat, notes = [], []
    if native:
        if native.note:
            notes.append(native.note)
        for h, c in native.cut.items():
            for _, item in c.values():
                notes.append("native harness %s: left out %s" % (os.path.relpath(h, NATIVE), item[:250]))
        for h, why in native.dropped.items():
            notes.append("native harness %s dropped: %s" % (os.path.relpath(h, NATIVE), why))
        if native.exe:
            for t in native.tests(prop):
                r = native.run_one(t, seed, tier, 240 if tier == "quick" else 600)
                if not r["ok"] and failed is not None:
                    # a failing input has to reproduce
                    r2 = native.run_one(t, seed, tier, 240 if tier == "quick" else 600)
                    if r2["ok"]:
                        notes.append("native %s failed once and passed when repeated: %s" % (t, r["why"][:200]))
                        r = r2
                nat.append(r)
            # an obligation that fails or cannot be posed: search longer for an input that shows it
            if (failed or out_of_reach) and all(r["ok"] for r in nat):
                end = time.time() + (EXTRA_QUICK if tier == "quick" else EXTRA_THOROUGH)
                for k in range(1, 5):
                    for r in nat:
                        left = end - time.time()
                        if left < 5 or not r["ok"]:
                            continue
                        x = native.run_one(r["test"], seed + 7919 * k, tier, left)
                        if x["ok"]:
                            r["cases"] += x["cases"]
                            r["distinct"] += x["distinct"]
                        elif not x["why"].startswith("does not terminate"):
                            x2 = native.run_one(r["test"], seed + 7919 * k, tier, 240)
                            if not x2["ok"]:
                                x["seed"] = seed + 7919 * k
                                nat[nat.index(r)] = x
                    if not all(r["ok"] for r in nat):
                        break
    bad = [r for r in nat if not r["ok"]]
    os.makedirs(REPLAYS, exist_ok=True)
    if failed or bad:
        replay = os.path.join(REPLAYS, "%s.json" % prop)
        rec = {"property": prop, "tier": tier, "seed": seed,
               "failed_obligations": {k: m[:3] for k, m in failed.items()},
               "verifier": v.cmd, "failing_inputs": [dict({k: r[k] for k in ("test", "why", "input", "out")}, seed=r.get("seed", seed)) for r in bad],
               "how": "python3 /verif/check.py --replay %s" % replay}
        json.dump(rec, open(replay, "w"), indent=1)
        for k, m in list(failed.items())[:6]:
            print("failed obligation: %s" % k)
            print("  " + m[0].strip().replace("\n", "\n  ")[:1200])
        for r in bad[:3]:
            print("failing input: %s: %s\n  %s" % (r["test"], r["why"][:600], r["input"][:600]))
        violations.append((replay, bool(bad)))
    obligations = 0
    smt_ms = 0
    units = {v.verus_name(k) for k in proved + list(failed)}
    for n, b in v.breakdown.items():
        if n in units or n.split("::")[-1] in {u.split("::")[-1] for u in units if "::" in u and n.rsplit("::", 2)[0] == u.rsplit("::", 2)[0]}:
            smt_ms += b["time"]
    obligations = len(proved) + len(failed) + len(out_of_reach)
    spec_assumptions = spec.get("assumptions", [])
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "proof",
        "coverage": {
            "obligations": obligations, "discharged": len(proved),
            "checker_cmd": v.cmd,
            "trusted_base": trusted_base(v),
            "rule": "one obligation per function under contract or lemma that the property owns: all of its verification conditions (postconditions, callee preconditions, loop invariants, termination, overflow, indexing) discharged by Verus/Z3",
            "discharged_functions": sorted(proved),
            "failed": sorted(failed), "out_of_reach": out_of_reach,
            "solver_ms": smt_ms, "verifier_run": {"scope": v.scope, "verified": v.results.get("verified"), "errors": v.results.get("errors"), **v.times},
            "vacuity": "not run" if smoke is None else "assert(false) rejected at the start of every owned function" if not [k for k in smoke if k in keys] else "accepted in: %s" % [k for k in smoke if k in keys],
            "bounded_native": [{k: r.get(k) for k in ("test", "ok", "cases", "distinct", "samples")} for r in nat],
            "inlined": v.meta.get("inlined", []), "notes": notes,
        },
        "assumptions": spec_assumptions + ["native runs are bounded samples; they are never counted as proved"],
        "wall_s": round(time.time() - t0, 1), "violations": len(violations),
    }
    return violations, ev, out_of_reach, nat, notes


def check(props, tier, seed):
    spec = load_props()
    os.makedirs(BUILD, exist_ok=True)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    work = tempfile.mkdtemp(prefix="run-", dir=BUILD)
    rc = 0
    try:
        natives, box = {}, {}

        def nb():
            for p in props:
                d = os.path.join(work, "n-" + p)
                os.makedirs(d)
                natives[p] = Native(d).build(p)
        th = threading.Thread(target=nb)
        th.start()
        exe = build_extractor()
        log("extractor ready")
        only = [(spec[p]["functions"], spec[p].get("lemmas", [])) for p in props] if tier == "quick" and len(props) < 4 else None
        v = Verification(exe, work, only)
        first = {}
        ts = threading.Thread(target=lambda: first.update(smoke=Verification(exe, work, only).smoke()))
        ts.start()
        v.go()
        ts.join()
        smoke = first.get("smoke")
        if not v.fatal and (v.external or v.imports):
            w2 = Verification(exe, work, only)
            w2.external = v.external
            w2.imports = v.imports
            smoke = w2.smoke()
        if not v.fatal:
            log("vacuity guard:", "unavailable" if smoke is None else "%d accepted %s" % (len(smoke), smoke[:5]))
        th.join()
        log("native harness ready")
        for p in props:
            t0 = T0 if len(props) == 1 else time.time()
            violations, ev, oor, nat, notes = decide(p, spec[p], v, smoke, natives.get(p), tier, seed, t0)
            json.dump(ev, open(os.path.join(VERIF, "evidence", p + ".json"), "w"), indent=1)
            c = ev["coverage"]
            for n in notes:
                print("note:", n[:400])
            for k, why in oor.items():
                print("out of reach (bounded stand-in only): %s: %s" % (k, why[:300]))
            for k in known_findings(p):
                print("KNOWN-FINDING: property=%s %s" % (p, k))
            log("%s: %d/%d obligations discharged, %d native runs (%d cases)" % (
                p, c["discharged"], c["obligations"], len(nat), sum(r["cases"] for r in nat)))
            if violations:
                rc = 1
                for replay, has_input in violations:
                    print("VIOLATION property=%s replay=%s%s" % (p, replay, "" if has_input else " no-failing-input-found"), flush=True)
            elif v.fatal and not nat:
                print("cannot decide", p, ":", v.fatal[:500])
                rc = rc or 2
    finally:
        if not os.environ.get("VP_KEEP"):
            shutil.rmtree(work, ignore_errors=True)
    return rc


def replay(path):
    rec = json.load(open(path))
    print("property", rec["property"])
    for k, m in rec["failed_obligations"].items():
        print("failed obligation", k)
        print(m[0])
    if not rec["failing_inputs"]:
        print("no failing input; running the check again")
        return check([rec["property"]], rec["tier"], rec["seed"])
    os.makedirs(BUILD, exist_ok=True)
    work = tempfile.mkdtemp(prefix="replay-", dir=BUILD)
    try:
        n = Native(work).build(rec["property"])
        rc = 0
        for f in rec["failing_inputs"]:
            r = n.run_one(f["test"], f.get("seed", rec["seed"]), rec["tier"], 600)
            print(f["test"], "passes" if r["ok"] else "FAILS: " + r["why"] + "\n" + r["input"])
            rc |= not r["ok"]
        return int(rc)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def main():
    a = sys.argv[1:]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    if not a:
        print(__doc__)
        return 2
    if a[0] == "--setup":
        os.makedirs(BUILD, exist_ok=True)
        build_extractor()
        print("extractor built")
        return 0
    if a[0] == "--pin":
        # contracts/signatures.json: the signatures the contracts are written for
        rs, meta, err = Verification(build_extractor(), BUILD).extract("pin")
        json.dump({f["key"]: f["sig"] for f in meta["functions"] if f["contracted"]}, open(os.path.join(CONTRACTS, "signatures.json"), "w"), indent=0, sort_keys=True)
        return 0
    if a[0] == "--replay":
        return replay(a[1])
    if a[0] == "--all":
        return check(a[1:] or sorted(load_props()), tier, seed)
    return check([a[0]], tier, seed)


if __name__ == "__main__":
    sys.exit(main())
