#!/usr/bin/env python3
"""mutants.py CLONE COUNT SEED OUTDIR: make small random changes in a clone of /repo (non-test code), keep those that
build and pass the repository's tests as OUTDIR/<n>.diff."""
import sys, os, re, random, subprocess
clone, count, seed, out = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), sys.argv[4]
os.makedirs(out, exist_ok=True)
rng = random.Random(seed)
FILES = []
for base in ["ssbh_lib/src", "ssbh_data/src", "ssbh_write/src", "ssbh_write_derive/src", "ssbh_lib_json/src", "ssbh_data_json/src"]:
    for d, _, fs in os.walk(f"{clone}/{base}"):
        FILES += [os.path.join(d, f) for f in fs if f.endswith(".rs")]
def lines_of(p):
    """indices of code lines outside tests, comments, docs and attributes"""
    src = open(p).read().split("\n")
    ok, doc = [], False
    for i, l in enumerate(src):
        t = l.strip()
        if t.startswith("#[cfg(test)]"): break
        if t.startswith("/*"): doc = True
        if doc:
            if "*/" in t: doc = False
            continue
        if not t or t.startswith(("//", "#[error", "use ", "pub use", "#![", "///", "mod ", "pub mod")): continue
        ok.append(i)
    return src, ok
RULES = [
    (r"(?<![<>=!\-&])< (?![<=])", lambda m: "<= "), (r"(?<![<>=!\-])> (?![>=])", lambda m: ">= "), (r"==", lambda m: "!="), (r"!=", lambda m: "=="),
    (r"<=", lambda m: "<"), (r">=", lambda m: ">"), (r" \+ ", lambda m: " - "), (r" - ", lambda m: " + "), (r" \* ", lambda m: " / "), (r" / ", lambda m: " * "),
    (r"&&", lambda m: "||"), (r"\|\|(?! )", lambda m: "||"), (r"\btrue\b", lambda m: "false"), (r"\bfalse\b", lambda m: "true"),
    (r"(?<![\w.])(\d+)(?=(u8|u16|u32|u64|usize|i32)?\b)(?!\.\d)", lambda m: str(int(m.group(1)) + rng.choice([1, -1]) if int(m.group(1)) else 1)),
    (r"\b(\d+)\.(\d+)", lambda m: str(float(m.group(0)) + rng.choice([1.0, -0.5, 0.25]))),
    (r"\.min\(", lambda m: ".max("), (r"\.max\(", lambda m: ".min("), (r"cmp::min", lambda m: "cmp::max"),
    (r"\.x\b", lambda m: ".y"), (r"\.y\b", lambda m: ".z"), (r"\.z\b", lambda m: ".x"), (r"\.w\b", lambda m: ".x"),
    (r"\bu32\b", lambda m: "u16"), (r"\bu64\b", lambda m: "u32"), (r"\busize\b", lambda m: "u32"), (r"as u16\b", lambda m: "as u8 as u16"), (r"as u32\b", lambda m: "as u16 as u32"), (r"as u64\b", lambda m: "as u32 as u64"),
    (r"\.first\(\)", lambda m: ".last()"), (r"unwrap_or\((\w+)\)", lambda m: "unwrap_or_default()"), (r"\.filter\(", lambda m: ".skip_while("),
    (r"\.iter\(\)", lambda m: ".iter().rev()"), (r"\.iter\(\)", lambda m: ".iter().skip(1)"), (r"\.iter\(\)", lambda m: ".iter().take(255)"), (r"\.collect\(", lambda m: ".take(1000).collect("),
    (r"\.len\(\)", lambda m: ".len().saturating_sub(1)"), (r"\.clone\(\)", lambda m: ".clone()"), (r"\?;", lambda m: ".ok();"), (r"return Err", lambda m: "let _: Result<(), _> = Err"),
    (r"saturating_sub", lambda m: "wrapping_sub"), (r"wrapping_", lambda m: "saturating_"), (r"checked_add", lambda m: "checked_sub"), (r"extend\(", lambda m: "extend_from_within(.."),
    (r"if (let )?(?!let)(\w.*) \{$", lambda m: "if !(" + m.group(2) + ") {" if not m.group(1) else m.group(0)),
    (r"if (let )?(?!let)(\w.*) \{$", lambda m: "if (" + m.group(2) + ") && false {" if not m.group(1) else m.group(0)),
]
env = dict(os.environ, CARGO_NET_OFFLINE="true", RUSTUP_TOOLCHAIN="stable", CARGO_TARGET_DIR=f"{clone}/target")
n = kept = 0
seen = set()
weights = [len(lines_of(p)[1]) for p in FILES]
while n < count:
    p = rng.choices(FILES, weights)[0]
    src, ok = lines_of(p)
    i = rng.choice(ok)
    if rng.random() < 0.12 and src[i].strip().endswith(";") and not src[i].strip().startswith(("let ", "return", "}", "use", ")", "pub ", "const")):
        new = re.match(r"\s*", src[i]).group(0) + "();"
    elif rng.random() < 0.08 and re.match(r"\s*\w+: [^{]*,$", src[i]) and i + 1 in ok and re.match(r"\s*\w+: [^{]*,$", src[i + 1]):
        a, b = src[i].split(": ", 1), src[i + 1].split(": ", 1)  # exchange two fields
        new = a[0] + ": " + b[1]; 
        src2 = src[:]; src2[i] = new; src2[i + 1] = b[0] + ": " + a[1]
        new = None
    else:
        rules = [r for r in RULES if re.search(r[0], src[i])]
        if not rules: continue
        pat, f = rng.choice(rules)
        ms = list(re.finditer(pat, src[i])); m = rng.choice(ms)
        new = src[i][:m.start()] + f(m) + src[i][m.end():]
    if new is not None:
        if new == src[i]: continue
        src2 = src[:]; src2[i] = new
    key = (p, i, src2[i])
    if key in seen: continue
    seen.add(key); n += 1
    open(p, "w").write("\n".join(src2))
    ok = False
    try:
        r = subprocess.run("cargo check --offline -q -p ssbh_lib -p ssbh_data -p ssbh_lib_json -p ssbh_data_json", shell=True, cwd=clone, env=env, capture_output=True, timeout=300)
        if r.returncode == 0:
            r = subprocess.run("cargo test --offline -q --workspace", shell=True, cwd=clone, env=env, capture_output=True, timeout=300)
            ok = r.returncode == 0
    except subprocess.TimeoutExpired:
        pass
    if ok:
        d = subprocess.run(["git", "diff"], cwd=clone, capture_output=True, text=True).stdout
        open(f"{out}/{seed}-{kept:03}.diff", "w").write(d); kept += 1
    subprocess.run(["git", "checkout", "-q", "--", "."], cwd=clone)
    print(n, kept, os.path.relpath(p, clone), i + 1, "KEPT" if ok else "", flush=True)
