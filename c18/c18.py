#!/usr/bin/env python3
"""C18: enumerate every feature subset, compile the library with it, and compare what each enabled
protocol does (on the same edge streams and commands) with the default configuration."""
import concurrent.futures as cf, itertools, json, os, shutil, subprocess, sys, tempfile, time, tomllib
T0 = time.time()
ROOT = os.environ.get("IRMC_ROOT", "/verif")
REPO = os.environ.get("IRMC_REPO", "/repo")
THOROUGH = "--thorough" in sys.argv or os.environ.get("VERIF_TIER") == "thorough"
HERE = os.path.dirname(os.path.abspath(__file__))
TGT = os.environ.get("CARGO_TARGET_DIR", ROOT + "/harness/target")

def die(msg):
    print("HARNESS-ERROR:", msg); sys.exit(3)

def deps():
    """Compiled optional dependencies of the crate under test."""
    r = subprocess.run(["cargo", "build", "--release", "--offline", "--message-format=json", "--manifest-path", HERE + "/featdeps/Cargo.toml"],
                       env={**os.environ, "CARGO_TARGET_DIR": TGT + "/featdeps"}, capture_output=True, text=True)
    if r.returncode: die("building dependencies failed:\n" + r.stderr[-2000:])
    want = {"embedded_hal": None, "fugit": None, "log": None, "defmt": None}
    direct = {}
    for l in r.stdout.splitlines():
        m = json.loads(l)
        if m.get("reason") == "compiler-artifact" and m["target"]["name"].replace("-", "_") in want:
            n = m["target"]["name"].replace("-", "_")
            ver = m["package_id"].rsplit("@", 1)[-1].rsplit("#", 1)[-1]
            for f in m["filenames"]:
                if f.endswith(".rlib") or f.endswith(".rmeta"):
                    if f.endswith(".rlib") and (n != "defmt" or ver.startswith("0.3")): direct[n] = f
    for n in want:
        if n not in direct: die("no compiled " + n)
    return direct

def closure(feats, table):
    """Cargo's feature resolution for this package."""
    seen, todo = set(), list(feats)
    while todo:
        f = todo.pop()
        if f.startswith("dep:"): f = f[4:]
        f = f.split("/")[0].rstrip("?")
        if f in seen: continue
        seen.add(f); todo += table.get(f, [])
    return seen

def main():
    cargo = tomllib.load(open(REPO + "/Cargo.toml", "rb"))
    table = cargo["features"]
    edition = cargo["package"].get("edition", "2021")
    D = deps()
    deps_dir = os.path.dirname(D["fugit"])
    scratch = tempfile.mkdtemp(prefix="c18-")
    try:
        return run(cargo, table, edition, D, deps_dir, scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)

def run(cargo, table, edition, D, deps_dir, scratch):
    gen = TGT + "/release/streams"
    r = subprocess.run([gen, scratch + "/streams.bin"] + (["--thorough"] if THOROUGH else []), capture_output=True, text=True)
    if r.returncode: die("stream generator failed: " + r.stderr[-500:])
    nstreams = int(r.stdout.split()[-1])
    protos = ["nec", "rc5", "rc6", "sbp", "denon"]
    emb = [[], ["embedded-hal"], ["fugit"], ["embedded"]]
    subsets = []
    for k in range(6):
        for ps in itertools.combinations(protos, k):
            for rem in ([], ["remotes"]):
                for e in emb:
                    subsets.append(list(ps) + rem + e)
                subsets.append(list(ps) + rem + ["embedded", "log"])
                subsets.append(list(ps) + rem + ["embedded", "defmt"])
                if THOROUGH:
                    for e in emb[:3]:
                        subsets.append(list(ps) + rem + e + ["log"])
                        subsets.append(list(ps) + rem + e + ["defmt"])
    default = ["default"]
    optdeps = [n.replace("-", "_") for n, v in cargo["dependencies"].items() if isinstance(v, dict) and v.get("optional")]

    def build(i, feats):
        """-> (ok, message, hashes)"""
        on = closure(feats, table)
        d = f"{scratch}/{i}"; os.mkdir(d)
        cfg = [a for f in sorted(on) for a in ("--cfg", f'feature="{f}"')]
        ext = []
        for n in optdeps:
            if n.replace("_", "-") in on or n in on:
                if n not in D: die("unknown optional dependency " + n)
                ext += ["--extern", f"{n}={D[n]}"]
        common = ["rustc", "--edition", edition, "--cap-lints", "allow", "-C", "opt-level=1" if THOROUGH else "opt-level=0", "-C", "debug-assertions=on", "-C", "codegen-units=1", "-L", "dependency=" + deps_dir] + cfg + ext
        env = {**os.environ, "CARGO_CRATE_NAME": "infrared", "CARGO_PKG_NAME": "infrared", "CARGO_PKG_VERSION": cargo["package"]["version"], "CARGO_MANIFEST_DIR": REPO}
        r = subprocess.run(common + ["--crate-name", "infrared", "--crate-type", "rlib", REPO + "/src/lib.rs", "--out-dir", d], capture_output=True, text=True, env=env)
        if r.returncode:
            return False, "library does not compile:\n" + r.stderr, None
        if "defmt" in on:      # needs a target with a defmt transport to link: compile only
            shutil.rmtree(d); return True, "", {}
        r = subprocess.run(common + ["--crate-name", "digest", "--crate-type", "bin", HERE + "/digest.rs", "--extern", f"infrared={d}/libinfrared.rlib", "-o", d + "/digest"], capture_output=True, text=True)
        if r.returncode:
            return False, "a program using the enabled protocols does not compile:\n" + r.stderr, None
        r = subprocess.run([d + "/digest", scratch + "/streams.bin"], capture_output=True, text=True, timeout=300)
        if r.returncode:
            return False, "program using the enabled protocols failed:\n" + r.stderr[-1500:], None
        h = parse(r.stdout)
        if i != "default":
            bad = next((k for k in sorted(h) if k[0] != "events" and ref.get(k) != h[k]), None)
            if bad:          # find the first differing case
                a, b = (parse(subprocess.run([x + "/digest", scratch + "/streams.bin", "detail"], capture_output=True, text=True, timeout=300).stdout) for x in (scratch + "/default", d))
                first = next((k for k in b if k[0] == bad[0] and a.get(k) != b[k]), bad)
                return False, f"{bad[0]} behaves differently from the default configuration on case {first[1]}\n" + (stream(scratch, first[1]) if not bad[0].endswith((".enc", ".sender", ".remote")) else ""), None
            shutil.rmtree(d)
        return True, "", h

    def parse(out):
        h = {}
        for l in out.splitlines():
            k, n, v = l.split()
            h[(k, int(n))] = v
        return h
    ref = {}
    viol = []; states = trans = traces = 0; samples = []
    ok, msg, ref = build("default", default)
    if not ok:
        die("default configuration: " + msg[-3000:])
    def events(h):
        return next((k[1] for k in h if k[0] == "events"), 0)
    trans += events(ref)
    ndig = 0; ncomp = 0; outcomes = {}
    with cf.ThreadPoolExecutor(os.cpu_count()) as ex:
        futs = {ex.submit(build, i, s): s for i, s in enumerate(subsets)}
        for fu in cf.as_completed(futs):
            s = futs[fu]
            ok, msg, h = fu.result()
            name = "+".join(s) or "(none)"
            if not ok:
                viol.append((f"features [{name}]: {msg.splitlines()[0]}", f"kind features\nfeatures {name}\n{msg[:4000]}\n")); continue
            ncomp += 1
            states += 1
            trans += events(h)
            n = next((int(v) for k, v in h.items() if k[0] == "events"), 0)
            for k in h:
                if k[0] == "events": continue
                comp = k[0].split(".")[-1]; outcomes[comp] = outcomes.get(comp, 0) + k[1]
            # nothing the subset should have may be missing
            on = closure(s, table)
            if "defmt" not in on:
                own = {"Nec": "nec", "Nec16": "nec", "Samsung": "nec", "Apple": "nec", "Debug": "nec", "Denon": "denon", "Sbp": "sbp", "Rc5": "rc5", "Rc6": "rc6", "ids": None}
                need = {"remote": {"remotes"}, "pin": {"embedded-hal"}, "pininstant": {"embedded-hal"}, "pinjumps": {"embedded-hal"}, "sender": {"embedded-hal"}, "fugit": {"fugit"}, "withfugit": {"embedded"}}
                for k in ref:
                    a, _, c = k[0].partition(".")
                    if a not in own or not (own[a] is None or own[a] in on) or not need.get(c, set()) <= on: continue
                    if k not in h and k[0] != 'events': die(f"digest of [{name}] lacks {k}")
            states += n; traces += n
            if n: ndig += 1
            if len(samples) < 12 and (n or len(samples) < 3):
                samples.append(f"features [{name}]: compiles, {n} case digests equal the default configuration's")
    ev = {"property": "C18", "tier": "thorough" if THOROUGH else "quick", "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "model_checking",
          "coverage": {"states": states, "transitions": trans, "traces_validated_against_impl": traces, "exhaustive": not viol,
                       "configurations_enumerated": len(subsets), "configurations_compiled": ncomp, "configurations_run": ndig, "streams": nstreams,
                       "bounds": ["all subsets of {nec, rc5, rc6, sbp, denon, remotes} x embedded support {none, embedded-hal, fugit, embedded}, plus log / defmt (defmt compile only); behaviour compared on %d edge streams and up to 8192 commands per encoder" % nstreams],
                       "distinct_outcomes": outcomes, "samples": samples},
          "assumptions": ["features resolved as cargo does, from /repo/Cargo.toml; host target; optional dependencies at the locked versions"],
          "wall_s": round(time.time() - T0, 3), "violations": len(viol)}
    os.makedirs(ROOT + "/evidence", exist_ok=True)
    json.dump(ev, open(ROOT + "/evidence/C18.json", "w"), indent=1)
    print(f"C18: configurations={len(subsets)} states={states} transitions={trans} traces={traces} wall={time.time()-T0:.1f}s")
    if viol:
        os.makedirs(ROOT + "/out", exist_ok=True)
        for i, (w, rp) in enumerate(viol[:5]):
            p = f"{ROOT}/out/replay-C18-{i}.txt"
            open(p, "w").write(f"property C18\nwhat {w}\n{rp}")
            print("  " + w); print(f"VIOLATION property=C18 replay={p}")
        return 1
    return 0

def stream(scratch, n):
    import struct
    b = open(scratch + "/streams.bin", "rb").read(); w = memoryview(b).cast("I"); i = 0
    names = ["Nec", "Nec16", "Samsung", "Apple", "Debug", "Denon", "Sbp", "Rc5", "Rc6"]
    while i < len(w):
        if n == 0:
            return f"proto {names[w[i]]}\nfreq {w[i+1]}\nedges " + " ".join(("rf"[j % 2]) + str(w[i+3+j]) for j in range(w[i+2])) + "\n"
        n -= 1; i += 3 + w[i+2]
    return ""

sys.exit(main())
