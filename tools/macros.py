#!/usr/bin/env python3
"""C24: programs made of random invocations of the macros, compared with direct construction.

macros.py [--thorough] | --replay FILE
"""
import hashlib, json, os, random, re, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
GEN = f"{VERIF}/work/macros/gen.rs"
NAMES = ["a", "b", "name", "foo_bar", "for", "if", "in", "type", "match", "null", "true", "false", "é", "x1", "_x", "resource", "object", "key", "elems", "not", "endfor"]
TEXTS = ["hello", "", "a b", "${x}", "$${", "%{ if x }", "é", "\"", "\\", "line\nline", "null", "a", "tab\t", "#", "/*", "\u200b", "1"]


def rust_str(s):
    out = '"'
    for c in s:
        out += {'"': '\\"', '\\': '\\\\', '\n': '\\n', '\t': '\\t'}.get(c, c if c.isprintable() else f"\\u{{{ord(c):x}}}")
    return out + '"'


def hcl_str(s):
    out = '"'
    i = 0
    while i < len(s):
        c = s[i]
        if s[i:i + 2] in ("${", "%{"):
            out += c + c + "{"
            i += 2
            continue
        out += {'"': '\\"', '\\': '\\\\', '\n': '\\n', '\t': '\\t', '\r': '\\r'}.get(c, c)
        i += 1
    return out + '"'


# Leaves: (kind, macro tokens, direct expression, direct value, HCL or None, single token tree, hole)
HOLES = [
    ("vs", "st(&vs)", "W::String(vs.clone())"),
    ("vi", "ni(vi)", "W::Number(Number::from(vi))"),
    ("vu", "nu(vu)", "W::Number(Number::from(vu))"),
    ("vf", "nf(vf)", "W::Number(Number::from_f64(vf).unwrap())"),
    ("vb", "X::Bool(vb)", "W::Bool(vb)"),
    ("vc", "X::String(vc.to_string())", "W::String(vc.to_string())"),
    ("vo", "vo.map_or(X::Null, ni)", "vo.map_or(W::Null, |i| W::Number(Number::from(i)))"),
    ("vl", "X::Array(vl.iter().map(|i| ni(*i)).collect())", "W::Array(vl.iter().map(|i| W::Number(Number::from(*i))).collect())"),
    ("vw", "X::from(vw.clone())", "vw.clone()"),
    ("ve", "ve.clone()", None),
    ("object", "ni(object)", "W::Number(Number::from(object))"),
    ("elems", "st(&elems)", "W::String(elems.clone())"),
    ("key", "st(&key)", "W::String(key.clone())"),
]
CODE = [
    ("vi + 1", "ni(vi + 1)", "W::Number(Number::from(vi + 1))"),
    ("format!(\"{}-x\", vs)", "X::String(format!(\"{}-x\", vs))", "W::String(format!(\"{}-x\", vs))"),
    ("if vb { 1u64 } else { 2u64 }", "nu(if vb { 1 } else { 2 })", "W::Number(Number::from(if vb { 1u64 } else { 2 }))"),
    ("vec![1, 2]", "X::Array(vec![ni(1), ni(2)])", "W::Array(vec![W::Number(1.into()), W::Number(2.into())])"),
    ("Some(3)", "ni(3)", "W::Number(3.into())"),
    ("None::<bool>", "X::Null", "W::Null"),
    ("vl.len()", "nu(vl.len() as u64)", "W::Number((vl.len() as u64).into())"),
    ("&vs[..]", "st(&vs)", "W::String(vs.clone())"),
    ("(1, \"x\")", "X::Array(vec![ni(1), st(\"x\")])", "W::Array(vec![W::Number(1.into()), W::String(\"x\".into())])"),
    ("!vb", "X::Bool(!vb)", "W::Bool(!vb)"),
    ("vi as f64 * 0.5", "nf(vi as f64 * 0.5)", "W::Number(Number::from_f64(vi as f64 * 0.5).unwrap())"),
]


class Gen:
    def __init__(self, rng, value, hcl):
        self.r, self.value, self.hcl = rng, value, hcl
        self.fuel = rng.randint(3, 14)

    def leaf(self, hole=True):
        r = self.r
        k = r.randrange(12 if hole and not self.hcl else 7)
        if k == 0:
            return ["word", "null", "X::Null", "W::Null", "null", True, False]
        if k == 1:
            b = r.choice(["true", "false"])
            return ["word", b, f"X::Bool({b})", f"W::Bool({b})", b, True, False]
        if k == 2:
            n = r.choice([0, 1, 7, 255, 2147483647])
            s = r.choice(["", "", "u64", "i64", "_u32"])
            return ["lit", f"{n}{s}", f"nu({n})", f"W::Number(Number::from({n}u64))", str(n), True, False]
        if k == 3:
            n = r.choice(["0.5", "1.25", "1e3", "2.0", "1.5e-7"])
            return ["lit", n, f"nf({n})", f"W::Number(Number::from_f64({n}).unwrap())", n, True, False]
        if k == 4 and not self.hcl:
            n = r.choice(["1", "1.5", "128", "9223372036854775807i64"])
            d = f"nf(-{n})" if "." in n else f"ni(-{n})"
            w = f"W::Number(Number::from_f64(-{n}).unwrap())" if "." in n else f"W::Number(Number::from(-{n}i64))".replace("i64i64", "i64")
            return ["neg", f"-{n}", d, w, None, False, False]
        if k <= 6:
            t = r.choice(TEXTS)
            src = rust_str(t)
            if r.random() < 0.15 and '"#' not in t and "\u200b" not in t:
                src = f'r#"{t}"#'
            return ["str", src, f"st({rust_str(t)})", f"W::String({rust_str(t)}.to_string())", hcl_str(t), True, False]
        if k <= 8:
            h = r.choice(HOLES)
            if h[2] is None and self.value:
                h = HOLES[0]
            paren = r.random() < 0.5
            return ["var", f"({h[0]})" if paren else h[0], h[1], h[2], None, True, True]
        if k == 9:
            c = r.choice("aé\"")
            return ["lit", "'\"'" if c == '"' else f"'{c}'", f"X::String('{c}'.to_string())", f"W::String('{c}'.to_string())", None, True, False]
        c = r.choice(CODE)
        return ["code", f"({c[0]})" if r.random() < 0.4 else c[0], c[1], c[2], None, None, True]

    def expr(self, depth):
        self.fuel -= 1
        r = self.r
        if depth <= 0 or self.fuel <= 0 or r.random() < 0.45:
            l = self.leaf()
            if l[5] is None:
                l[5] = l[1].startswith("(")
                if l[5] and l[1][1:] == CODE[8][0][1:]:
                    l[5] = True
            return ["leaf", l]
        n = r.randrange(4)
        if r.random() < 0.5:
            return ["arr", [self.expr(depth - 1) for _ in range(n)], r.random() < 0.4]
        return ["obj", [[self.key(), self.expr(depth - 1), r.random() < 0.6] for _ in range(n)]]

    def key(self):
        r = self.r
        k = r.randrange(6 if self.hcl else 9)
        if k <= 3:
            n = r.choice(NAMES)
            return ["id", n, f"ki({rust_str(n)})", f"{rust_str(n)}.to_string()", n, False]
        if k <= 5 or (self.value and k == 6):
            t = r.choice(TEXTS)
            return ["lit", rust_str(t), f"ObjectKey::Expression(st({rust_str(t)}))", f"{rust_str(t)}.to_string()", hcl_str(t), False]
        if k == 6:
            return ["lit", *r.choice([("1", "ObjectKey::Expression(ni(1))"), ("1.5", "ObjectKey::Expression(nf(1.5))"), ("-2", "ObjectKey::Expression(ni(-2))")]), None, None, False]
        src, d = r.choice([("vs.clone()", "st(&vs)"), ("vk.as_str()", "st(&vk)"), ("format!(\"k{}\", vi)", "X::String(format!(\"k{}\", vi))"), ("key.clone()", "st(&key)")])
        return ["paren", f"({src})", f"ObjectKey::Expression({d})", f"String::from({src})", None, True]

    def structures(self, depth):
        n = self.r.randrange(4) if self.fuel > 0 else 0
        return [self.structure(depth) for _ in range(n)]

    def structure(self, depth):
        r = self.r
        self.fuel -= 1
        if depth <= 0 or r.random() < 0.55:
            return ["attr", self.name(), self.expr(3)]
        return ["block", self.name(), [self.label() for _ in range(r.choice([0, 0, 1, 1, 2, 3]))], self.structures(depth - 1)]

    def name(self):
        r = self.r
        if self.hcl or r.random() < 0.75:
            n = r.choice(NAMES)
            return [n, rust_str(n), n, False]
        src, d = r.choice([("vk.as_str()", "&vk"), ("id.clone()", "id.as_str()"), ("format!(\"n{}\", vu)", "&format!(\"n{}\", vu)"), ("\"lit\"", "\"lit\""), ("key.clone()", "&key")])
        return [f"({src})", d, None, "lit" not in src]

    def label(self):
        r = self.r
        k = r.randrange(5 if self.hcl else 7)
        if k <= 1:
            n = r.choice(NAMES)
            if n in ("true", "false"):
                n = "truth"
            return [n, f"li({rust_str(n)})", n, False]
        if k <= 4:
            t = r.choice(TEXTS)
            return [rust_str(t), f"ls({rust_str(t)})", hcl_str(t), False]
        src, d = r.choice([("vs.clone()", "ls(&vs)"), ("format!(\"l{}\", vi)", "ls(&format!(\"l{}\", vi))"), ("vk.as_str()", "ls(&vk)"), ("\"x\"", "ls(\"x\")"), ("vc", "ls(&vc.to_string())")])
        return [f"({src})", d, None, src != "\"x\""]


def single(e):
    return e[0] != "leaf" or e[1][5]


def tokens(e, tt=False):
    """Macro tokens of an expression; `tt`: as a single token tree."""
    if e[0] == "leaf":
        t = e[1][1]
        return f"({t})" if tt and not e[1][5] else t
    if e[0] == "arr":
        s = ", ".join(tokens(x) for x in e[1])
        return f"[{s}{',' if e[2] and e[1] else ''}]"
    out = []
    for i, (k, v, comma) in enumerate(e[1]):
        last = i + 1 == len(e[1])
        nxt = None if last else e[1][i + 1][0]
        plain = v[0] != "leaf" or v[1][0] == "word"
        need = nxt is not None and (nxt[0] == "paren" or nxt[1].startswith("-")) and not plain
        if not comma and not need:
            t = tokens(v, True)
            sep = "\n"
        else:
            t, sep = tokens(v), ", "
        out.append(f"{k[1]} = {t}{sep}")
    return "{ " + "".join(out) + "}"


def direct(e):
    if e[0] == "leaf":
        return e[1][2]
    if e[0] == "arr":
        return "X::Array(vec![" + ", ".join(map(direct, e[1])) + "])"
    return "obj(vec![" + ", ".join(f"({k[2]}, {direct(v)})" for k, v, _ in e[1]) + "])"


def direct_value(e):
    if e[0] == "leaf":
        return e[1][3]
    if e[0] == "arr":
        return "W::Array(vec![" + ", ".join(map(direct_value, e[1])) + "])"
    return "wobj(vec![" + ", ".join(f"({k[3]}, {direct_value(v)})" for k, v, _ in e[1]) + "])"


def hcl(e):
    if e[0] == "leaf":
        return e[1][4]
    if e[0] == "arr":
        return "[" + ", ".join(map(hcl, e[1])) + "]"
    return "{" + ", ".join(f"{k[4]} = {hcl(v)}" for k, v, _ in e[1]) + "}"


def s_tokens(s, body=True):
    if s[0] == "attr":
        return f"{s[1][0]} = {tokens(s[2], body)}"
    return " ".join([s[1][0], *(l[0] for l in s[2]), "{ " + "\n".join(map(s_tokens, s[3])) + " }"])


def s_direct(s):
    if s[0] == "attr":
        return f"Structure::Attribute({attr_direct(s)})"
    return f"Structure::Block({block_direct(s)})"


def attr_direct(s):
    return f"at({s[1][1]}, {direct(s[2])})"


def block_direct(s):
    return f"bl({s[1][1]}, vec![{', '.join(l[1] for l in s[2])}], vec![{', '.join(map(s_direct, s[3]))}])"


def s_hcl(s):
    if s[0] == "attr":
        return f"{s[1][2]} = {hcl(s[2])}\n"
    return " ".join([s[1][2], *(l[2] for l in s[2]), "{\n" + "".join(map(s_hcl, s[3])) + "}\n"])


def size(x):
    return sum(map(size, x)) + 1 if isinstance(x, list) else 0


def holes(t):
    return bool(re.search(r"\b(vs|vk|vi|vu|vf|vb|vc|vo|vl|vw|ve|id|object|elems|key)\b", t))


def make(rng):
    kind = rng.choice(["body", "body", "body", "structure", "attribute", "block", "expression", "expression", "value", "value"])
    g = Gen(rng, kind == "value", rng.random() < 0.35)
    if kind == "body":
        tree = g.structures(3)
    elif kind == "structure":
        tree = g.structure(2)
    elif kind == "attribute":
        tree = g.structure(0)
    elif kind == "block":
        tree = ["block", g.name(), [g.label() for _ in range(rng.randrange(4))], g.structures(2)]
    else:
        tree = g.expr(4)
    # Duplicate attributes are no document.
    return {"macro": kind, "braces": rng.random() < 0.4, "hcl": g.hcl, "tree": tree}


def unique(l):
    """No attribute twice, as documents have it."""
    names = [s[1][0] for s in l if s[0] == "attr"]
    return len(set(names)) == len(names) and all(unique(s[3]) for s in l if s[0] == "block")


def word_keys(x):
    """Keys that are identifiers for the macros and expressions in documents."""
    if x[0] == "obj":
        return any(k[0] == "id" and k[1] in ("null", "true", "false", "for") or word_keys(v) for k, v, _ in x[1])
    if x[0] == "arr":
        return any(map(word_keys, x[1]))
    if x[0] == "attr":
        return word_keys(x[2])
    return x[0] == "block" and any(map(word_keys, x[3]))


def emit(i, site):
    k, t = site["macro"], site["tree"]
    parsed, text = "None", None
    if k == "body":
        m, d = "\n".join(map(s_tokens, t)), "Body(vec![" + ", ".join(map(s_direct, t)) + "])"
        if site["hcl"] and unique(t):
            text = "".join(map(s_hcl, t))
    elif k in ("structure", "attribute", "block"):
        m = s_tokens(t, False)
        d = {"structure": s_direct, "attribute": attr_direct, "block": block_direct}[k](t)
        if site["hcl"] and unique([t]):
            text = s_hcl(t)
    else:
        m, d = tokens(t), direct_value(t) if k == "value" else direct(t)
        if site["hcl"]:
            text = "v = " + hcl(t)
    if any(map(word_keys, t if k == "body" else [t])):
        text = None
    if site["braces"] and (k in ("structure", "attribute", "block", "body")):
        m = "{ " + m + " }"
    call = f"hcl::{k}!({m})"
    if text is not None:
        f = {"body": "b", "structure": "b.0[0]", "attribute": "b.attributes().next().unwrap()", "block": "b.blocks().next().unwrap()",
             "expression": "b.attributes().next().unwrap().expr", "value": "W::from(b.attributes().next().unwrap().expr.clone())"}[k]
        parsed = f"Some(|t| match hcl::parse(t) {{ Ok(b) => plain(&{call}, &{f}), Err(e) => Some(e.to_string()) }})"
    src = f"""fn s{i}(e: &Env) -> Option<String> {{
let Env {{ vs, vk, vi, vu, vf, vb, vc, vo, vl, vw, ve, id, object, elems, key }} = e.clone();
let got = {call};
let want = {d};
same(&got, &want)
}}
"""
    entry = f"Site {{ id: {i}, run: s{i}, text: {'Some(' + rust_str(text) + ')' if text is not None else 'None'}, holes: {'true' if holes(m) else 'false'}, parsed: {parsed} }},\n"
    return src, entry, m, text


def write(sites):
    os.makedirs(os.path.dirname(GEN), exist_ok=True)
    lines, entries, where = ["fn plain<T: std::fmt::Debug + PartialEq>(a: &T, b: &T) -> Option<String> { (a != b).then(|| format!(\"{a:?}\\nis not {b:?}\")) }\n"], [], []
    n = 1
    for i, s in enumerate(sites):
        src, entry, _, _ = emit(i, s)
        k = src.count("\n")
        where.append((n + 1, n + k))
        n += k
        lines.append(src)
        entries.append(entry)
    k = n + 1
    text = "".join(lines) + "fn sites() -> Vec<Site> { vec![\n"
    n = text.count("\n")
    for i, e in enumerate(entries):
        where.append((n + 1, n + e.count("\n"), i))
        n += e.count("\n")
    text += "".join(entries) + "] }\n"
    open(GEN, "w").write(text)
    return where


def run(sites, rounds):
    """(failures by site, number of cases)"""
    where = write(sites)
    env = dict(os.environ, HV_MACROS=GEN)
    p = subprocess.run(["cargo", "build", "--offline", "--manifest-path", f"{VERIF}/macros/Cargo.toml", "--message-format", "json"], env=env, capture_output=True, text=True)
    if p.returncode != 0:
        bad = {}
        for line in p.stdout.splitlines():
            try:
                m = json.loads(line)
            except ValueError:
                continue
            if m.get("reason") != "compiler-message" or m["message"]["level"] != "error":
                continue
            if m["target"]["name"] != "hv-macros":
                print(p.stderr[-3000:])
                print("ERROR: this does not build against /repo")
                sys.exit(3)
            for l in spans(m["message"]["spans"]):
                for j, w in enumerate(where):
                    if w[0] <= l <= w[1]:
                        bad.setdefault(w[2] if len(w) > 2 else j, "does not compile: " + m["message"]["message"])
        if not bad:
            print(p.stderr[-3000:])
            print("ERROR: the programs do not build")
            sys.exit(3)
        return bad, 0
    exe = f"{os.environ.get('CARGO_TARGET_DIR', VERIF + '/target')}/debug/hv-macros"
    try:
        p = subprocess.run([exe, str(rounds)], capture_output=True, text=True, timeout=300)
    except subprocess.TimeoutExpired:
        print("ERROR: the programs do not end")
        sys.exit(3)
    fails, cur, total = {}, None, None
    for line in p.stdout.splitlines():
        m = re.match(r"FAIL (\d+) (\d+)$", line)
        if m:
            cur = int(m[1])
            fails[cur] = ""
        elif line == "END":
            cur = None
        elif line.startswith("TOTAL "):
            total = int(line[6:])
        elif cur is not None:
            fails[cur] += line + "\n"
    if total is None:
        print(f"ERROR: the programs ended by {p.returncode}: {p.stderr[-500:]}")
        sys.exit(3)
    return fails, total


def spans(l):
    for s in l:
        while s is not None:
            if s["file_name"].endswith("gen.rs"):
                yield s["line_start"]
            s = (s.get("expansion") or {}).get("span")


def smaller(site):
    """All sites with one part less."""
    out = []

    def edits(x):
        """Variants of a tree."""
        if not isinstance(x, list) or not x:
            return
        if x[0] in ("arr", "obj"):
            for i in range(len(x[1])):
                y = x[1][i] if x[0] == "arr" else x[1][i][1]
                yield y
                yield [x[0], x[1][:i] + x[1][i + 1:], *x[2:]]
                for z in edits(y):
                    w = z if x[0] == "arr" else [x[1][i][0], z, x[1][i][2]]
                    yield [x[0], x[1][:i] + [w] + x[1][i + 1:], *x[2:]]
        elif x[0] == "attr":
            for z in edits(x[2]):
                yield ["attr", x[1], z]
        elif x[0] == "block":
            for i in range(len(x[2])):
                yield ["block", x[1], x[2][:i] + x[2][i + 1:], x[3]]
            for z in body(x[3]):
                yield ["block", x[1], x[2], z]
        elif x[0] == "leaf":
            one = ["leaf", ["lit", "1", "nu(1)", "W::Number(Number::from(1u64))", "1", True, False]]
            if x != one:
                yield one

    def body(l):
        for i in range(len(l)):
            yield l[:i] + l[i + 1:]
            for z in edits(l[i]):
                yield l[:i] + [z] + l[i + 1:]

    t = site["tree"]
    for z in body(t) if site["macro"] == "body" else edits(t):
        out.append(dict(site, tree=z))
    if site["braces"]:
        out.append(dict(site, braces=False))
    return out


def shrink(site, msg, rounds):
    for _ in range(12):
        c = sorted(smaller(site), key=size_of)[:60]
        if not c:
            break
        bad, _ = run(c, rounds)
        if not bad:
            break
        i = min(bad, key=lambda i: size_of(c[i]))
        if size_of(c[i]) >= size_of(site):
            break
        site, msg = c[i], bad[i]
    return site, msg


def size_of(s):
    return size(s["tree"]) + len(emit(0, s)[2]) / 1000 + s["braces"]


def main():
    t0 = time.time()
    if "--replay" in sys.argv:
        r = json.load(open(sys.argv[sys.argv.index("--replay") + 1]))
        bad, _ = run([r["site"]], 2000)
        if bad:
            print(bad[0])
            print(f"VIOLATION property=C24 replay={sys.argv[sys.argv.index('--replay') + 1]}")
            sys.exit(1)
        print("C24: held")
        return
    if "--build" in sys.argv:
        run([make(random.Random(1))], 1)
        return
    thorough = "--thorough" in sys.argv
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    batches, per, rounds = (12, 1000, 400) if thorough else (2, 1000, 150)
    seen, samples, labels, total, sites_n, violation = set(), [], {}, 0, 0, None
    for b in range(batches):
        rng = random.Random(seed * 1000 + b)
        sites = [make(rng) for _ in range(per)]
        bad, n = run(sites, rounds)
        total += n
        sites_n += len(sites)
        for i, s in enumerate(sites):
            _, _, m, text = emit(i, s)
            labels[s["macro"]] = labels.get(s["macro"], 0) + 1
            for l, x in (("with holes", holes(m)), ("as document", text is not None)):
                labels[l] = labels.get(l, 0) + int(x)
            if size(s["tree"]) >= 8:
                h = hashlib.sha256((s["macro"] + m).encode()).hexdigest()
                if h not in seen:
                    seen.add(h)
                    if len(samples) < 8:
                        samples.append({"case": i, "input": f"hcl::{s['macro']}!({m})"[:1500]})
        if bad:
            i = min(bad, key=lambda i: size_of(sites[i]))
            site, msg = shrink(sites[i], bad[i], rounds)
            os.makedirs(f"{VERIF}/work/replay", exist_ok=True)
            path = f"{VERIF}/work/replay/C24-macros-{seed}.json"
            json.dump({"property": "C24", "test": "macros", "seed": seed, "input": f"hcl::{site['macro']}!({emit(0, site)[2]})", "message": msg, "site": site}, open(path, "w"), indent=1)
            print(f"--- C24 macros: counterexample ({len(bad)} of {len(sites)} invocations)\ninput: hcl::{site['macro']}!({emit(0, site)[2]})\nmessage: {msg}")
            violation = path
            break
    os.makedirs(f"{VERIF}/evidence", exist_ok=True)
    json.dump({"property": "C24", "tier": "thorough" if thorough else "quick", "seed": seed, "level": "exploration",
               "coverage": {"evaluations": total, "distinct_nontrivial": len(seen),
                            "rule": "programs of random macro invocations; evaluations are runs of an invocation with values drawn for the variables it uses; non-trivial: distinct invocations of at least eight tree nodes",
                            "samples": samples or [{"case": 0, "input": "none"}], "programs": batches, "invocations": sites_n, "labels": labels},
               "violations": int(violation is not None), "wall_s": time.time() - t0}, open(f"{VERIF}/evidence/C24.json", "w"), indent=1)
    print(f"C24: {sites_n} invocations, {total} runs, {len(seen)} distinct non-trivial, {time.time() - t0:.1f}s, {'NOT HELD' if violation else 'held'}")
    if violation:
        print(f"VIOLATION property=C24 replay={violation}")
        sys.exit(1)


main()
