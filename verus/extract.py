#!/usr/bin/env python3
"""Verus jobs: functions of /repo, extracted mechanically on every run, under contracts.

A job file is Verus source with directives:

  //@FN file=write/string.rs name=write [in=StringTable, ~ for a blank] [pub=1]
  //@SPEC <contract clauses, put between the signature and the body>
  //@START <proof text at the start of the body>
  //@LOOP <n> [slice|vec|range|zip] <invariants of the n-th loop of the body>
  //@BODY <n> <proof text at the start of the n-th loop's body>
  //@TAIL <n> <proof text at the end of the n-th loop's body>
  //@BEFORE <n> <proof text in front of the n-th loop>
  //@AFTER <n> <proof text behind the n-th loop>
  //@SUBST <old text> ==> <new text>
  //@END
  //@ITEM file=read/macho/fixup.rs name=FixupState [in a SUBST, the rest up to //@END]
      <the text of a struct or an enum, with its fields made public>
  //@CONSTS file=macho.rs like=<regular expression>
      <constants by name, from `const N: T = V;` and from the newtype macros' `N = V,`>

A directive goes on until the next //@ line.  The body between the braces is /repo's text.
What the extraction changes:
  - doc comments, attributes and visibility are dropped; the return value gets a name `r`;
  - `for P in E { .. }` becomes a `while` over an index into E (Verus has no iterators here);
  - each //@SUBST is a literal replacement; if its old text is not there, it does nothing.
If the function is not found, or it has another number of loops than the job annotates, the
job is lost: the property falls back on its other obligations and is reported undecided there.
"""
import json, os, re, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("OBJVERIF_SRC", "/repo/src")  # elsewhere only to try the proofs out


class Lost(Exception):
    pass


def strip_comments(s):
    out = []
    for l in s.split("\n"):
        if re.match(r"\s*//", l) or re.match(r"\s*#\[", l):
            continue
        out.append(re.sub(r"(?<!:)//.*$", "", l).rstrip() if "//" in l and '"' not in l else l)
    return "\n".join(out)


def find_fn(text, name, inside):
    """(signature, body lines) of `fn name`, the one in an item whose header contains `inside`."""
    lines = text.split("\n")
    cur = ""
    for i, l in enumerate(lines):
        if re.match(r"(pub(\([a-z]+\))? )?(unsafe )?(impl|trait|mod)\b", l):
            k, h = i, l
            while "{" not in h and k + 1 < len(lines):
                k += 1
                h += " " + lines[k].strip()
            cur = h
        elif l == "}":
            cur = ""
        m = re.match(r"(\s*)(pub(\([a-z]+\))? )?(const )?(unsafe )?fn " + re.escape(name) + r"\b", l)
        if not m or (inside and inside not in cur) or (not inside and m.group(1)):
            continue
        ind = m.group(1)
        sig, k = l.strip(), i
        while not sig.endswith("{"):
            k += 1
            if k >= len(lines) or lines[k].strip().endswith(";") and "{" not in lines[k]:
                break
            sig += " " + lines[k].strip()
        if not sig.endswith("{"):
            continue
        body = []
        k += 1
        while k < len(lines) and lines[k] != ind + "}":
            body.append(lines[k])
            k += 1
        return sig[:-1].strip(), body
    raise Lost(f"fn {name} not found")


LOOP = re.compile(r"^(\s*)('[a-z_]+: )?(for (?P<pat>.*?) in (?P<src>.*)|while .*|loop) \{$")


def build_fn(spec):
    """One //@FN block -> Verus text."""
    a = dict(re.findall(r'(\w+)=("[^"]*"|\S+)', spec["head"]))
    a = {k: v.strip('"') for k, v in a.items()}
    try:
        src = open(os.path.join(REPO, a["file"])).read()
    except OSError:
        raise Lost(f"{a['file']} is gone")
    sig, body = find_fn(strip_comments(src), a["name"], a.get("in", "").replace("~", " "))
    sig = re.sub(r"^(pub(\([a-z]+\))? )?(const )?", "", sig)
    if a.get("pub"):
        sig = "pub " + sig
    body = "\n".join(body)
    where = ""
    m = re.search(r"\bwhere\b.*$", sig)
    if m:
        where, sig = m.group(0).rstrip(), sig[:m.start()].rstrip()
    m = re.match(r"(.*\))\s*->\s*(.*)$", sig, re.S)
    if m:
        sig = f"{m.group(1)} -> (r: {m.group(2)})"
    for old, new in spec["subst"]:
        sig = sig.replace(old, new)
        where = where.replace(old, new)
        # whatever the line breaks and blanks are
        body = re.sub(r"\s*".join(re.escape(c) for c in re.sub(r"\s", "", old)), lambda _: new, body)
    # loops
    out, stack, n = [], [], 0
    for l in body.split("\n"):
        m = LOOP.match(l)
        if m and n in spec["loop"]:
            kind, inv = spec["loop"][n]
            ind, lab = m.group(1), m.group(2) or ""
            out.append(spec["before"].get(n, ""))
            if m.group("pat"):
                pat, e = m.group("pat"), m.group("src")
                if kind == "zip":
                    z = re.match(r"(.*)\.iter\(\)\.zip\((.*)\.iter\(\)\)$", e)
                    q = re.match(r"\((.*), (.*)\)$", pat)
                    if not z or not q:
                        raise Lost(f"fn {a['name']}: loop {n} is no zip of two slices")
                    out.append(f"{ind}let srca{n} = {z.group(1)}; let srcb{n} = {z.group(2)}; let mut it{n}: usize = 0;")
                    out.append(f"{ind}{lab}while it{n} < srca{n}.len() && it{n} < srcb{n}.len()\n{inv}\n{ind}{{")
                    out.append(f"{ind}    let {q.group(1)} = &srca{n}[it{n}]; let {q.group(2)} = &srcb{n}[it{n}]; it{n} += 1;")
                elif kind == "range":
                    lo, hi = e.split("..")
                    out.append(f"{ind}let mut it{n}: usize = {lo}; let end{n}: usize = {hi};")
                    out.append(f"{ind}{lab}while it{n} < end{n}\n{inv}\n{ind}{{")
                    out.append(f"{ind}    let {pat} = it{n}; it{n} += 1;")
                else:
                    ref = "&" if kind == "slice" else ""
                    out.append(f"{ind}let src{n} = {e}; let mut it{n}: usize = 0;")
                    out.append(f"{ind}{lab}while it{n} < src{n}.len()\n{inv}\n{ind}{{")
                    out.append(f"{ind}    let {pat} = {ref}src{n}[it{n}]; it{n} += 1;")
            else:
                out.append(f"{l[:-1].rstrip()}\n{inv}\n{ind}{{")
            out.append(spec["body"].get(n, ""))
            stack.append((ind, n))
            n += 1
            continue
        if m:
            n += 1
        if stack and l == stack[-1][0] + "}":
            k = stack.pop()[1]
            out.append(spec["tail"].get(k, ""))
            out.append(l)
            out.append(spec["after"].get(k, ""))
            continue
        out.append(l)
    if n != spec["nloops"]:
        raise Lost(f"fn {a['name']}: {n} loops in the source, {spec['nloops']} annotated")
    return f"{sig} {where}\n{spec['spec']}\n{{\n{spec['start']}\n" + "\n".join(x for x in out if x.strip()) + "\n}\n"


def source(file):
    try:
        return strip_comments(open(os.path.join(REPO, file)).read())
    except OSError:
        raise Lost(f"{file} is gone")


def build_item(spec):
    a = dict(re.findall(r"(\w+)=(\S+)", spec["head"]))
    text = source(a["file"])
    m = re.search(r"^(?:pub(?:\([a-z]+\))? )?((?:enum|struct) " + re.escape(a["name"]) + r"\b[^;{]*(?:;|\{\n(?:.*\n)*?\}))$", text, re.M)
    if not m:
        raise Lost(f"{a['name']} not found")
    t = "pub " + m.group(1)
    if t.startswith("pub struct"):
        h, b, t = t.partition("{\n")
        t = h + b + re.sub(r"^    (?:pub(?:\([a-z]+\))? )?(\w+):", r"    pub \1:", t, flags=re.M)
        t = re.sub(r"\((?:pub(?:\([a-z]+\))? )?(\w[^()]*)\);$", r"(pub \1);", t)
    for old, new in spec["subst"]:
        t = t.replace(old, new)
    return t + "\n"


def build_consts(head):
    m = re.match(r"file=(\S+) like=(\S+)", head)
    if not m:
        raise SystemExit(f"bad directive CONSTS {head}")
    want, out, typ = re.compile(m.group(2) + "$"), {}, None
    for l in source(m.group(1)).split("\n"):
        k = re.match(r"newtype_\w+!\((?:\w+: )?(\w+)\(\w+\) = \{", l)
        if k:
            typ = k.group(1)
        elif l.startswith("}"):
            typ = None
        k = re.match(r"pub \w+: (\w+) = \{$", l)  # in `constant_names!`
        if k:
            typ = k.group(1)
        k = re.match(r"\s+(\w+)\s*=\s*(-?[0-9A-Fa-fx_]+)(?:,| =>.*)$", l)
        if k and typ and want.match(k.group(1)):
            out.setdefault(k.group(1), f"pub const {k.group(1)}: {typ} = " + (f"{typ}({k.group(2)});" if typ[0].isupper() else f"{k.group(2)};"))
        k = re.match(r"pub const (\w+): (\w+) = (.+);$", l)
        if k and want.match(k.group(1)):
            out.setdefault(k.group(1), f"pub const {k.group(1)}: {k.group(2)} = {k.group(3)};")
    if not out:
        raise Lost(f"no constants {m.group(2)}")
    return "\n".join(out.values()) + "\n"


def expand(job):
    text = open(job).read()
    parts = re.split(r"^[ \t]*//@", text, flags=re.M)
    out, cur, fns = [parts[0]], None, []
    for p in parts[1:]:
        m = re.match(r"([A-Z]+)[ \t]*(.*)", p, re.S)
        key, val = m.group(1), m.group(2)
        if key == "FN":
            cur = dict(head=val.strip(), spec="", start="", loop={}, body={}, tail={}, before={}, after={}, subst=[], nloops=0)
        elif key == "SPEC":
            cur["spec"] += val
        elif key == "START":
            cur["start"] += val
        elif key == "LOOP":
            m = re.match(r"(\d+)\s*(slice|vec|range|zip)?(.*)", val, re.S)
            cur["loop"][int(m.group(1))] = (m.group(2), m.group(3))
            cur["nloops"] = max(cur["nloops"], int(m.group(1)) + 1)
        elif key in ("BODY", "TAIL", "BEFORE", "AFTER"):
            m = re.match(r"(\d+)(.*)", val, re.S)
            cur[key.lower()][int(m.group(1))] = m.group(2)
        elif key == "SUBST":
            o, _, nw = val.strip("\n").partition("==>")
            cur["subst"].append((o.strip(), nw.strip()))
        elif key == "ITEM":
            cur = dict(head=val.strip(), subst=[], item=1)
        elif key == "CONSTS":
            out.append(build_consts(val.strip().split("\n")[0]) + val.partition("\n")[2])
        elif key == "END" and cur.get("item"):
            out.append(build_item(cur) + val)
            cur = None
        elif key == "END":
            fns.append(re.search(r"name=(\S+)", cur["head"]).group(1))
            out.append(build_fn(cur))
            out.append(val)
            cur = None
        else:
            raise SystemExit(f"bad directive {key}")
    return "".join(out), fns


def run_job(name, work, timeout=120, rlimit=60):
    """-> dict(status ok|failed|lost|error, verified, errors, fns, seconds, detail, assumed)"""
    res = dict(job=name, status="error", verified=0, errors=0, fns=[], seconds=0.0, detail="", assumed=[])
    try:
        text, res["fns"] = expand(os.path.join(HERE, name + ".rs"))
    except Lost as e:
        res.update(status="lost", detail=str(e))
        return res
    res["assumed"] = sorted(set(
        re.findall(r"external_body\)?\]\s*(?:#\[[^\n]*\]\s*)*(?:pub )?(?:proof )?((?:fn|struct) \w+)", text)
        + re.findall(r"(assume_specification\s*(?:<[^>]*>)?\s*\[[^\]]*\]|uninterp spec fn \w+|admit\(\)|\bassume\([^\n]*)", text)))[:60]
    path = os.path.join(work, f"verus_{name}.rs")
    open(path, "w").write(text)
    t = time.time()
    try:
        p = subprocess.run(["verus", "--crate-type=lib", "--output-json", "--time", "--rlimit", str(rlimit), path],
                           capture_output=True, text=True, timeout=timeout, cwd=work)
        out, err = p.stdout, p.stderr
    except subprocess.TimeoutExpired:
        res.update(status="error", detail="timeout", seconds=time.time() - t)
        return res
    res["seconds"] = time.time() - t
    try:
        full = json.loads(out[out.index("{"):])
        d = full["verification-results"]
        res["solver_s"] = (full.get("times-ms", {}).get("smt", {}).get("smt-run", 0)) / 1000.0
        res["verified"], res["errors"] = d.get("verified", 0), d.get("errors", 0)
        if d.get("success") and res["verified"] > 0:
            res["status"] = "ok"
        elif d.get("encountered-vir-error") or not res["verified"] + res["errors"]:
            res["status"] = "lost"
        elif re.search(r"rlimit|resource limit", err, re.I):
            res["status"] = "error"
        else:
            res["status"] = "failed"
    except (ValueError, KeyError):
        res["status"] = "lost"
    if res["status"] != "ok":
        res["detail"] = err[-6000:]
    return res


if __name__ == "__main__":
    os.makedirs("/verif/work", exist_ok=True)
    for j in sys.argv[1:]:
        r = run_job(j, "/verif/work", 300)
        print({k: v for k, v in r.items() if k != "detail"})
        print(r["detail"])
