#!/usr/bin/env python3
"""Mutation campaign over scratch copies (never /repo): mutate.py <scratch> <workers> <n> <seed> [files-regex]
Applies one random textual mutation at a time to a copy of /repo, rebuilds a copy of the simulator, runs the checks with
reduced counts until one reports a violation, and appends a line per mutant to <scratch>/results.jsonl.
With a .jsonl file as the regex, the undetected mutants of that file are run again instead of new ones."""
import json, os, random, re, shutil, subprocess, sys, threading
S, W, N, SEED = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), int(sys.argv[4])
PAT = sys.argv[5] if len(sys.argv) > 5 else "."
ORDER = "C06 C13 C01 C12 C16 C14 C02 C10 C11 C03 C04 C05 C07 C08 C09 C15 C17 C18 C20 C19".split()
TOOLS = "C19 C23 C21 C22 C24".split()
EXCL = re.compile(r"ffi_alp|cuda|ebi/src/main\.rs$|matmul_cuda|tpch|io/bit_write\.rs|/core\.rs$")
os.makedirs(S, exist_ok=True)
B = S + "/base"  # the tree being mutated, as it was at the start
if not os.path.exists(B): subprocess.run(f"git clone -q /repo {B}", shell=True, check=True)
files = []
for root in [B + "/ebi/src", B + "/tools/src/csv2bin.rs", B + "/tools/src/collect-stats.rs", B + "/experimenter/src"]:
    if os.path.isfile(root): files.append(root); continue
    for d, _, fs in os.walk(root):
        files += [os.path.join(d, f) for f in fs if f.endswith(".rs")]
REDO = PAT if PAT.endswith(".jsonl") else None
if REDO: PAT = "."
files = sorted(f for f in files if not EXCL.search(f[len(B):]) and re.search(PAT, f))

SUBS = [(r" < ", " <= "), (r" <= ", " < "), (r" > ", " >= "), (r" >= ", " > "), (r" == ", " != "), (r" != ", " == "),
        (r" \+ 1\b", ""), (r" - 1\b", ""), (r" \+ ", " - "), (r" - ", " + "), (r" \* ", " + "), (r" && ", " || "),
        (r" \|\| ", " && "), (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r" \+= ", " -= "), (r" -= ", " += "),
        (r" \+= ", " = "), (r"\.min\(", ".max("), (r"\.max\(", ".min("), (r"\.\.=", ".."), (r" << ", " >> "), (r" >> ", " << "),
        (r"!self\.", "self."), (r"if !", "if "), (r"\b0\b", "1"), (r"\b1\b", "0"), (r"\b1\b", "2"), (r"\b64\b", "63"), (r"\b8\b", "7"),
        (r" & ", " | "), (r" \| ", " & "), (r" % ", " / "), (r" / ", " * "), (r"\b(\d+)\b", lambda m: str(int(m.group(1)) + 1)),
        (r"_le_bytes", "_be_bytes"), (r"\.rev\(\)", ""), (r"INFINITY", "MAX"), (r"\bSome\(\w+\) =>", "Some(_) if false =>"),
        (r"\bi64\b", "i32"), (r"\bu64\b", "u32"), (r"\.len\(\)", ".len().saturating_sub(1)"), (r"\.take\((\w+)\)", ""), (r"\.skip\((\w+)\)", ""),
        (r"saturating_sub", "wrapping_sub"), (r"wrapping_", "saturating_"), (r"read_exact", "read"), (r"write_all", "write"), (r"\?;$", ".ok();"),
        (r"continue;", "break;"), (r"break;", "continue;"), (r"is_empty\(\)", "len() == 1"), (r"is_some\(\)", "is_none()"), (r"is_none\(\)", "is_some()")]

def mutants():
    out = []
    for f in files:
        lines = open(f).read().split("\n")
        intest = False
        for i, l in enumerate(lines):
            if "#[cfg(test)]" in l or "mod sim_clock" in l or "mod test" in l: intest = True
            if intest and l == "}": intest = False
            if intest: continue
            t = l.strip()
            if not t or t.startswith(("//", "#", "use ", "pub use", "///", "*", "assert", "debug_assert", "fn ", "pub fn", "impl", "mod ", "pub mod", "const N_", "type ")): continue
            for k, (a, b) in enumerate(SUBS):
                ms = list(re.finditer(a, l))
                for m in ms:
                    n = l[:m.start()] + (b(m) if callable(b) else b) + l[m.end():]
                    out.append((f, i, n, "sub"))
            if t.endswith(";") and not t.startswith(("let ", "return", "use ", "type ", "pub ", "const ", "static ", "}", ")", "break")):
                # whole statement on one line
                if t.count("(") == t.count(")") and not lines[i - 1].strip().endswith(("=", "(", ",", ".", "|", "&&")) and not t.startswith("."):
                    out.append((f, i, re.match(r"\s*", l).group(0) + ";", "del"))
    return out

def sh(cmd, env=None, timeout=900, cwd=None):
    try:
        p = subprocess.run(cmd, shell=True, env=env, cwd=cwd, timeout=timeout, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired:
        return 124, ""

def prepare(w):
    d = f"{S}/w{w}"
    os.makedirs(d, exist_ok=True)
    sh(f"rm -rf {d}/repo {d}/verif; mkdir -p {d}/verif; cp -a {B} {d}/repo; cp -a /verif/sim /verif/exp /verif/check.sh /verif/known-findings.txt {d}/verif/; sed -i 's#/repo/#{d}/repo/#g' {d}/verif/sim/Cargo.toml {d}/verif/exp/Cargo.toml; cp -a /verif/target {d}/verif/target")
    return d

def redo():
    out = []
    for l in open(REDO):
        r = json.loads(l)
        if r.get("by") is not None: continue
        f = f"{B}/{r['file']}"
        lines = open(f).read().split("\n")
        at = [i for i, x in enumerate(lines) if x.strip() == r["old"]]
        if not at: print("gone:", r["file"], r["old"]); continue
        i = min(at, key=lambda i: abs(i + 1 - r["line"]))
        out.append((f, i, re.match(r"\s*", lines[i]).group(0) + r["new"], "redo"))
    return out

random.seed(SEED)
M = mutants()
by = {}
for m in M: by.setdefault((m[0], m[1]), []).append(m)
keys = list(by); random.shuffle(keys)
todo = redo() if REDO else [random.choice(by[k]) for k in keys][:N]
print(len(M), "mutants on", len(keys), "lines; running", len(todo), flush=True)
lock = threading.Lock()

def work(w):
    d = prepare(w)
    env = dict(os.environ, EBISIM_WORKERS="2", VERIF_SEED="1")
    sh(f"bash {d}/verif/check.sh build", env)
    while True:
        with lock:
            if not todo: return
            f, i, n, kind = todo.pop()
        g = f.replace(B + "/", f"{d}/repo/", 1)
        src = open(f).read().split("\n")
        old = src[i]; src[i] = n
        open(g, "w").write("\n".join(src))
        r, o = sh(f"bash {d}/verif/check.sh build", env)
        res = {"file": f[len(B) + 1:], "line": i + 1, "old": old.strip(), "new": n.strip()}
        if r != 0: res["by"] = "build"
        else:
            res["by"] = None
            for c in (ORDER if f.startswith(B + "/ebi/") else TOOLS):
                q = {"C21": 1500, "C22": 400, "C23": 800, "C17": 3000, "C18": 3000, "C19": 800, "C04": 3000, "C24": 300}.get(c, 8000)
                r, o = sh(f"{d}/verif/target/release/ebisim check {c}", dict(env, EBISIM_COUNT=str(q), VERIF_DIR=f"{d}/verif"))
                if r != 0:
                    res["by"] = c; res["msg"] = o.split("\n")[0][:200]
                    if r != 1: res["rc"] = r
                    break
        with lock: open(f"{S}/results.jsonl", "a").write(json.dumps(res) + "\n")
        shutil.copy(f, g)

ts = [threading.Thread(target=work, args=(w,)) for w in range(W)]
[t.start() for t in ts]; [t.join() for t in ts]
