#!/usr/bin/env python3
"""Mutates the sources of the crates systematically and asks which mutants that build and pass the tests the checks catch.

usage: mutate.py list                      prints how many mutants there are
       mutate.py run SHARD SHARDS LOG      (in a box of tools/inbox.sh: changes /repo)
Meant as a measurement of the checks; no check uses it."""
import json, os, random, re, subprocess, sys, time

R = "/repo"
FILES = [f"spake2/src/{f}.rs" for f in ("lib", "ed25519", "group")] + \
        [f"srp/src/{f}.rs" for f in ("client", "server", "utils", "types", "groups")] + \
        [f"aucpace/src/{f}.rs" for f in ("client", "server", "utils", "database", "constants", "lib")]
SWAPS = [("==", "!="), ("!=", "=="), (" < ", " <= "), (" > ", " >= "), (" <= ", " < "), (" >= ", " > "), ("&&", "||"), ("||", "&&"),
         ("true", "false"), ("false", "true"), (" + ", " - "), (" - ", " + "), (" * ", " + "), ("is_some", "is_none"), ("is_none", "is_some"),
         ("is_ok", "is_err"), ("is_err", "is_ok"), ("..=", ".."), ("to_bytes_be", "to_bytes_le"), ("from_bytes_be", "from_bytes_le"),
         ("const_m", "const_n"), ("const_n", "const_m"), ("const_s", "const_m"), ("Side::A", "Side::B"), ("Side::B", "Side::A"),
         ("MODE_A", "MODE_B"), (".to_vec()", "[1..].to_vec()"), ("as_bytes()", "as_bytes()[..1]"), ("Some(", "None.or("),
         ("BadSide", "WrongLength"), ("WrongLength", "CorruptMessage"), ("unwrap_or_default()", "unwrap()"), (".rev()", ""),
         ("A: Default", "A: Default")]


def code_lines(path):
    """(line number, text) of what is no comment, attribute or test"""
    lines = open(os.path.join(R, path)).read().split("\n")
    out = []
    for i, l in enumerate(lines):
        if re.match(r"\s*#\[cfg\((all\()?test", l):
            break
        s = l.strip()
        if not s or s.startswith(("//", "#", "use ", "pub use ", "mod ", "pub mod ", "/*", "*")):
            continue
        out.append((i, l))
    return lines, out


def mutants():
    ms = []
    for f in FILES:
        lines, code = code_lines(f)

        def add(i, new, what):
            if new != lines[i]:
                ms.append((f, i, new, what))
        for i, l in code:
            cut = l.find("//")
            body, tail = (l, "") if cut < 0 else (l[:cut], l[cut:])
            for a, b in SWAPS:
                for m in re.finditer(re.escape(a), body):
                    add(i, body[:m.start()] + b + body[m.end():] + tail, f"{a} to {b}")
            for m in re.finditer(r"(?<![\w.])(\d+)(?![\w.])", body):
                n = int(m.group(1))
                for k in {n + 1, max(n - 1, 0)} - {n}:
                    add(i, body[:m.start()] + str(k) + body[m.end():] + tail, f"{n} to {k}")
            for m in re.finditer(r'b"([^"]*)"', body):
                add(i, body[:m.start()] + 'b""' + body[m.end():] + tail, "empty literal")
            for m in re.finditer(r"(?<![=!<>])!(?=[a-z(])", body):
                add(i, body[:m.start()] + body[m.end():] + tail, "no negation")
            for m in re.finditer(r"\?(?=;)", body):
                add(i, body[:m.start()] + ".ok()" + body[m.end():] + tail, "ignored error")
            for m in re.finditer(r"\.(chain|update|chain_update)\([^()]*(\([^()]*\))?[^()]*\)", body):
                add(i, body[:m.start()] + body[m.end():] + tail, "without " + m.group(0))
            for m in re.finditer(r"(\w+)\(([^(),]+), ([^(),]+)\)", body):
                add(i, body[:m.start()] + f"{m.group(1)}({m.group(3)}, {m.group(2)})" + body[m.end():] + tail, "arguments swapped")
            if body.rstrip().endswith(";") and not re.match(r"\s*(let|return|const|type|pub|static|\}|fn)", body) and body.count("(") == body.count(")"):
                add(i, re.match(r"\s*", body).group(0) + "// " + body.strip(), "statement removed")
            # other names of the same function
            names = sorted({w for j, t in code if abs(i - j) < 14 for w in re.findall(r"(?<![\w.:])([a-z_][a-z_0-9]{1,})(?![\w(!:])", t)}
                           - {"let", "mut", "self", "fn", "pub", "impl", "for", "match", "if", "else", "return", "where", "in", "ref", "as", "use", "crate",
                              "const", "type", "struct", "enum", "dyn", "usize", "u8", "str", "move", "super", "loop", "while", "bool", "true", "false", "unsafe", "trait", "static"})
            if not re.match(r"\s*(pub |fn |let mut \w+;|where|\w+: [A-Z&\[]|impl|struct)", body):
                for m in re.finditer(r"(?<![\w.:\"])&?(?:self\.)?([a-z_][a-z_0-9]{1,})(?![\w(!:])", body):
                    w = m.group(1)
                    if w not in names or body[:m.start()].count('"') % 2 or re.match(r"\s*let (mut )?" + w + r"\b", body):
                        continue
                    for n in names:
                        if n != w:
                            add(i, body[:m.start(1)] + n + body[m.end(1):] + tail, f"{w} to {n}")
    random.Random(7).shuffle(ms)
    return ms


def sh(cmd, timeout):
    try:
        r = subprocess.run(cmd, shell=True, cwd=R, capture_output=True, text=True, timeout=timeout)
        return r.returncode, r.stdout + r.stderr
    except subprocess.TimeoutExpired:
        return 99, "timeout"


def run(shard, shards, log):
    sys.path.insert(0, "/verif/bin")
    from plan import PLAN
    env = {**os.environ, "VERIF_CACHE": "1", "VERIF_SEED": "1", "VERIF_TIER": "quick"}
    todo = mutants()[shard::shards]
    print(len(todo), "mutants", flush=True)
    stats = {"unbuildable": 0, "killed by tests": 0, "caught": 0, "survived": 0}
    for n, (f, i, new, what) in enumerate(todo):
        crate = f.split("/")[0]
        path = os.path.join(R, f)
        orig = open(path).read()
        lines = orig.split("\n")
        old = lines[i]
        lines[i] = new
        open(path, "w").write("\n".join(lines))
        try:
            rc, _ = sh(f"cargo check --offline -q -p {crate} --all-features", 120)
            if rc:
                stats["unbuildable"] += 1
                continue
            rc, o = sh(f". /opt/vp/env.sh; cargo test --offline -q -p {crate} --all-features --no-fail-fast -- --test-threads 4", 120)
            if rc:
                stats["killed by tests"] += 1
                continue
            fam = {"spake2": "S", "srp": "R", "aucpace": "A"}[crate]
            by, odd = None, []
            order = sorted(p for p in PLAN if p[0] == fam) + ["X01"]
            pref = {"S": ["S04", "S03"], "R": ["R05", "R03"], "A": ["A09", "A07", "A06", "A10"]}[fam]
            for p in pref + [p for p in order if p not in pref]:
                r = subprocess.run(["bin/check", p], cwd="/verif", capture_output=True, text=True, env=env)
                if r.returncode == 1:
                    by = p
                    break
                if r.returncode:
                    odd.append(p)
            stats["caught" if by else "survived"] += 1
            with open(log, "a") as g:
                g.write(json.dumps({"file": f, "line": i + 1, "old": old.strip(), "new": new.strip(), "what": what, "by": by, "odd": odd}) + "\n")
            print(f"{n}/{len(todo)} {f}:{i+1} {what}: {by or 'SURVIVED'} {stats}", flush=True)
        finally:
            open(path, "w").write(orig)
    print("end", stats, flush=True)


if sys.argv[1] == "list":
    ms = mutants()
    print(len(ms))
    from collections import Counter
    print(Counter(m[0] for m in ms))
    print(Counter(m[3].split(" to ")[0] for m in ms).most_common(40))
else:
    run(int(sys.argv[2]), int(sys.argv[3]), sys.argv[4])
