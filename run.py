#!/usr/bin/env python3
"""Build one check from /repo's current working tree and run it.
usage: run.py Pxx [--replay FILE] [extra args]     (VERIF_TIER, VERIF_SEED from the environment)"""
import sys, os, subprocess, hashlib, concurrent.futures as cf, json, glob, shutil
V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(V, "build"))
ENG = ["eng_lcg", "eng_signed", "eng_misc", "eng_mt", "eng_swc", "eng_swc01", "eng_lagfib", "eng_lagfib2", "engines", "knobs"]
BASE = ["core", "alloc"]
STD = ["-std=gnu++17", "-O1", "-D_GLIBCXX_ASSERTIONS", "-ftrivial-auto-var-init=pattern", "-fno-strict-aliasing", "-frounding-math", "-w", "-U_FORTIFY_SOURCE"]
DIST = ["dist"] + ["dist_" + c for c in "abcdefghi"]
CHECKS = {
    "P01": dict(sim=ENG), "P02": dict(sim=ENG), "P03": dict(sim=ENG), "P04": dict(sim=ENG),
    "P05": dict(sim=ENG + DIST, flags=["-fsanitize=address"]),
    "P06": dict(sim=ENG, flags=["-DSIM_SEED_EXTRA"]),
    "P07": dict(sim=["fiber"], repo=["src/random_device.cpp"], link=["-Wl,--wrap=open,--wrap=open64,--wrap=openat,--wrap=read,--wrap=__read_chk,--wrap=close"]),
    "P08": dict(sim=DIST), "P09": dict(sim=DIST), "P10": dict(sim=DIST),
    "P11": dict(sim=ENG + DIST + ["qrng"], flags=["-fsanitize=address"]),
    "P12": dict(sim=ENG + DIST + ["qrng", "fiber", "shared"], flags=["-fsanitize-coverage=trace-pc", "-DSIM_P12"], plain=["fiber"], plain_main=["P12"], common=["-DSIM_P12"]),
    "P15": dict(sim=DIST, flags=["-O2"]),
    "P14": dict(main=["P14", "P14b"]),
    "P13": dict(sim=["qrng"], flags=["-O2"]),
}
def tree_hash(paths, extra):
    h = hashlib.sha256(extra.encode())
    for root in paths:
        files = [root] if os.path.isfile(root) else sorted(os.path.join(d, f) for d, _, fs in os.walk(root) for f in fs)
        for f in files:
            h.update(f.encode()); h.update(open(f, "rb").read())
    return h.hexdigest()[:20]
def main():
    prop = sys.argv[1]; cfg = CHECKS[prop]
    flags = STD + cfg.get("flags", [])
    th = tree_hash([os.path.join(REPO, "include"), os.path.join(REPO, "src"), os.path.join(V, "sim"), os.path.join(V, "checks")], " ".join(flags) + prop)
    out = os.path.join(BUILD, prop + "-" + th); os.makedirs(out, exist_ok=True)
    exe = os.path.join(out, prop)
    if not os.path.exists(exe):
        for d in glob.glob(os.path.join(BUILD, prop + "-*")):
            if d != out: shutil.rmtree(d, ignore_errors=True)
        srcs = [os.path.join(V, "sim", s + ".cpp") for s in BASE + cfg.get("sim", [])] + [os.path.join(V, "checks", s + ".cpp") for s in cfg.get("main", [prop])] + [os.path.join(REPO, s) for s in cfg.get("repo", [])]
        plain = {os.path.join(V, "sim", s + ".cpp") for s in BASE + cfg.get("plain", [])} | {os.path.join(V, "checks", s + ".cpp") for s in cfg.get("plain_main", [])}
        inc = ["-I" + os.path.join(REPO, "include"), "-I" + os.path.join(V, "sim")]
        def comp(src):
            o = os.path.join(out, os.path.basename(src) + ".o")
            fl = STD + cfg.get("common", []) if src in plain else flags
            r = subprocess.run(["g++"] + fl + inc + ["-c", src, "-o", o], capture_output=True, text=True)
            return src, r.returncode, r.stderr, o
        with cf.ThreadPoolExecutor(os.cpu_count() or 8) as ex: res = list(ex.map(comp, srcs))
        bad = [r for r in res if r[1]]
        if bad:
            for r in bad: print("build failed:", r[0]); print(r[2][:4000])
            return 3
        r = subprocess.run(["g++"] + flags + [x[3] for x in res] + cfg.get("link", []) + ["-o", exe + ".tmp"], capture_output=True, text=True)
        if r.returncode: print("link failed", r.stderr[:4000]); return 3
        os.rename(exe + ".tmp", exe)
    env = dict(os.environ); env["ASAN_OPTIONS"] = "exitcode=77:detect_leaks=0:allocator_may_return_null=1:abort_on_error=0:handle_abort=0"
    sys.stdout.flush()
    return subprocess.run([exe, "--verif", V] + sys.argv[2:], env=env).returncode
if __name__ == "__main__": sys.exit(main())
