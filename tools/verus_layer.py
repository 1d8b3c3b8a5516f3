"""Verus on functions extracted mechanically from /repo on every run.

A template verus/<prop>.rs contains specifications and blocks

    //@ extract <file> [impl <header>] fn <name>
    //@ ret r: T                     (names the result: `-> T` becomes `-> (r: T)`)
    //@ spec <clause text>           (inserted between signature and body)
    //@ loop <n> <clause text>       (inserted after the header of the n-th loop)
    //@ before <n> <text>            (proof block put at the start of the n-th loop's body)
    //@ start <text>                 (proof block put at the start of the body)
    //@ end <n> <text>               (proof block put at the end of the n-th loop's body)
    //@ pre <n> <text>               (proof block put ahead of the n-th loop)
    //@ result <text>                (proof block put ahead of the body's last expression)
    //@ drop <ident>                 (top-level statements and struct fields mentioning it are cut)
    //@ rewrite <regex> ==> <text>   (textual rewriting, reported in the evidence)
    //@ sig <text>                   (replaces the visibility and `fn` keyword, e.g. for trait methods)
    //@ end

which is replaced by the function's current text from /repo with those insertions.
Nothing else of the function changes; comments and attributes are cut.
"""
import json, os, re, subprocess, time

class Lost(Exception):
    pass

def strip_comments(s):
    out, i, n = [], 0, len(s)
    while i < n:
        c = s[i]
        if s.startswith("//", i):
            j = s.find("\n", i)
            i = n if j < 0 else j
        elif s.startswith("/*", i):
            d, i = 1, i + 2
            while i < n and d:
                if s.startswith("/*", i): d += 1; i += 2
                elif s.startswith("*/", i): d -= 1; i += 2
                else: i += 1
        elif c == '"':
            j = i + 1
            while j < n and s[j] != '"':
                j += 2 if s[j] == "\\" else 1
            out.append(s[i:j + 1]); i = j + 1
        elif c == "'" and (m := re.match(r"'(\\.[^']*|[^'\\])'", s[i:])):
            out.append(m.group(0)); i += len(m.group(0))
        else:
            out.append(c); i += 1
    return "".join(out)

def skip_lit(s, i):
    """Index after the string/char literal starting at i, or i."""
    if s[i] == '"':
        j = i + 1
        while j < len(s) and s[j] != '"':
            j += 2 if s[j] == "\\" else 1
        return j + 1
    if s[i] == "'" and (m := re.match(r"'(\\.[^']*|[^'\\])'", s[i:])):
        return i + len(m.group(0))
    return i

def match(s, i):
    """s[i] is an opening bracket: index of its partner."""
    pair = {"{": "}", "(": ")", "[": "]"}
    st = []
    while i < len(s):
        j = skip_lit(s, i)
        if j != i:
            i = j; continue
        if s[i] in pair: st.append(pair[s[i]])
        elif s[i] in "})]":
            if not st or st.pop() != s[i]: raise Lost("unbalanced")
            if not st: return i
        i += 1
    raise Lost("unbalanced")

def find_fn(src, impl, name):
    scope = (0, len(src))
    spans = []
    if impl:
        for m in re.finditer(r"\bimpl\b", src):
            b = src.find("{", m.start())
            if b < 0: continue
            head = " ".join(src[m.start():b].split())
            if head == impl or head.startswith(impl + " where"):
                spans.append((b, match(src, b)))
        if not spans: raise Lost("no " + impl)
    else:
        spans = [scope]
    hits = []
    for a, z in spans:
        for m in re.finditer(r"(?:pub(?:\([^)]*\))?\s+)?(?:const\s+)?(?:unsafe\s+)?fn\s+" + name + r"\b", src[a:z]):
            st = a + m.start()
            if impl is None and False: continue
            i = a + m.end()
            while src[i] not in "{;":
                i = match(src, i) + 1 if src[i] in "([" else i + 1
            if src[i] == ";": continue
            hits.append((st, i, match(src, i)))
    if len(hits) != 1: raise Lost(f"{len(hits)} definitions of {name}")
    st, b, e = hits[0]
    return src[st:b].rstrip(), src[b:e + 1]

def loops(body):
    """(index of keyword, index of `{`) of each loop, in text order."""
    out, i = [], 0
    while i < len(body):
        j = skip_lit(body, i)
        if j != i:
            i = j; continue
        m = re.match(r"(for|while|loop)\b", body[i:])
        if m and (i == 0 or not (body[i - 1].isalnum() or body[i - 1] in "_.")):
            k = i + m.end()
            while body[k] != "{":
                k = match(body, k) + 1 if body[k] in "([" else k + 1
            out.append((i, k)); i = k
        i += 1
    return out

def statements(body):
    """Top-level statements of a `{...}` body."""
    out, i, st = [], 1, 1
    end = len(body) - 1
    while i < end:
        j = skip_lit(body, i)
        if j != i:
            i = j; continue
        if body[i] in "([":
            i = match(body, i) + 1; continue
        if body[i] == "{":
            i = match(body, i) + 1
            head = body[st:i].lstrip()
            if re.match(r"(for|while|loop|if|match|unsafe)\b", head) and not re.match(r"\s*(;|\.|\?|else\b|[-+*/&|]|as\b)", body[i:end]):
                out.append(body[st:i]); st = i
            continue
        if body[i] == ";":
            out.append(body[st:i + 1]); st = i + 1
        i += 1
    if body[st:end].strip():
        out.append(body[st:end])
    return out

def drop(body, ident):
    keep = []
    rx = re.compile(r"\b" + ident + r"\b")
    sts = statements(body)
    for k, s in enumerate(sts):
        if rx.search(s):
            if k == len(sts) - 1:   # the result: cut the field of a struct literal
                s = re.sub(r"\b" + ident + r"\b\s*(:[^,}]*)?,\s*", "", s, count=1)
                if rx.search(s): raise Lost("cannot cut " + ident)
                keep.append(s)
            continue
        keep.append(s)
    return "{" + "".join(keep) + "\n}"

def splice(repo, head, lines):
    m = re.match(r"(\S+)\s+(?:(impl .+?)\s+)?fn (\w+)$", head)
    if not m: raise Lost("bad template: " + head)
    src = strip_comments(open(os.path.join(repo, m.group(1))).read())
    sig, body = find_fn(src, m.group(2), m.group(3))
    spec, starts, results = [], [], []
    inv, pre, post, ahead = {}, {}, {}, {}
    rewrites, want = [], None
    for l in lines:
        k, _, v = l.partition(" ")
        if k == "ret":
            n, _, t = v.partition(":")
            if not re.search(r"->\s*" + re.escape(t.strip()) + r"\s*$", " ".join(sig.split())): raise Lost("result type changed")
            sig = re.sub(r"->\s*((?:(?!->).)*)$", lambda q: f"-> ({n.strip()}: {q.group(1)})", sig, flags=re.S)
        elif k == "sig": sig = re.sub(r"^.*?fn\b", lambda _: v, sig, count=1, flags=re.S)
        elif k == "spec": spec.append(v)
        elif k == "start": starts.append(v)
        elif k == "result": results.append(v)
        elif k in ("loop", "before", "after", "pre"):
            n, _, t = v.partition(" ")
            {"loop": inv, "before": pre, "after": post, "pre": ahead}[k].setdefault(int(n), []).append(t)
        elif k == "loops": want = int(v)
        elif k == "drop": body = drop(body, v)
        elif k == "rewrite":
            a, _, b = v.partition(" ==> ")
            new, cnt = re.subn(a, b, body, flags=re.S)
            if not cnt: raise Lost(f"nothing to rewrite: {a}")
            body = new; rewrites.append(v)
        elif k == "sigrewrite":
            a, _, b = v.partition(" ==> ")
            new, cnt = re.subn(a, b, sig, flags=re.S)
            if not cnt: raise Lost(f"nothing to rewrite: {a}")
            sig = new; rewrites.append("signature: " + v)
        else: raise Lost("bad template line " + l)
    ls = loops(body)
    n = want if want is not None else (max([*inv, -1]) + 1)
    if len(ls) != n: raise Lost(f"{m.group(3)} has {len(ls)} loops, {n} expected")
    for i in reversed(range(len(ls))):
        kw, b = ls[i]
        if i in post:
            e = match(body, b)
            body = body[:e] + "\n" + "\n".join(post[i]) + "\n" + body[e:]
        if i in pre:
            body = body[:b + 1] + "\n" + "\n".join(pre[i]) + body[b + 1:]
        body = body[:b].rstrip() + "\n" + "\n".join("  " + x for x in inv.get(i, [])) + "\n" + body[b:]
        if i in ahead:
            body = body[:kw] + "\n".join(ahead[i]) + "\n" + body[kw:]
    if results:
        sts = statements(body)
        body = "{" + "".join(sts[:-1]) + "\n" + "\n".join(results) + sts[-1] + "\n}"
    if starts: body = "{\n" + "\n".join(starts) + body[1:]
    return sig + "\n" + "\n".join("  " + s for s in spec) + "\n" + body, m.group(3), rewrites

def build(prop, root, repo):
    tpl = open(os.path.join(root, "verus", prop.lower() + ".rs")).read().split("\n")
    out, i, names, rewrites = [], 0, [], []
    while i < len(tpl):
        m = re.match(r"\s*//@ extract (.*)$", tpl[i])
        if not m:
            out.append(tpl[i]); i += 1; continue
        lines = []
        i += 1
        while not re.match(r"\s*//@ end$", tpl[i]):
            q = re.match(r"\s*//@ ?(.*)$", tpl[i])
            if re.match(r"\s*//@\s\s+\S", tpl[i]): lines[-1] += "\n" + q.group(1)
            else: lines.append(q.group(1))
            i += 1
        i += 1
        text, name, rw = splice(repo, m.group(1).strip(), lines)
        out.append(text); names.append(m.group(1).strip()); rewrites += rw
    return "\n".join(out), names, rewrites

def run(prop, tier, root, repo):
    if not os.path.exists(os.path.join(root, "verus", prop.lower() + ".rs")):
        return None
    t0 = time.time()
    res = {"verified": 0, "failed": [], "functions": [], "notes": [], "rewrites": [], "wall_s": 0}
    try:
        text, names, rw = build(prop, root, repo)
    except (Lost, OSError, IndexError) as e:
        res["notes"].append(f"verus layer not applicable to the current text: {e}")
        return res
    d = os.path.join(root, "target", "verus")
    os.makedirs(d, exist_ok=True)
    f = os.path.join(d, prop.lower() + ".rs")
    open(f, "w").write(text)
    try:
        p = subprocess.run(["verus", f, "--output-json", "--multiple-errors", "5", "--rlimit", "40"], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=100, cwd=d)
        j = json.loads(p.stdout)["verification-results"]
    except (subprocess.TimeoutExpired, ValueError, KeyError, OSError) as e:
        res["notes"].append("verus gave no result: " + str(e)[:200])
        return res
    res["functions"], res["rewrites"] = names, rw
    res["wall_s"] = round(time.time() - t0, 2)
    res["verified"] = j.get("verified", 0)
    if j.get("success"):
        return res
    if j.get("encountered-vir-error") or not j.get("errors") or "Resource limit" in p.stderr:
        res["notes"].append("verus cannot decide the current text: " + p.stderr[:1500])
        return res
    res["failed"].append({"name": prop.lower() + "-obligations", "output": p.stderr[:6000]})
    return res

if __name__ == "__main__":
    import sys
    root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    if len(sys.argv) > 2:
        print(build(sys.argv[1], root, "/repo")[0])
    r = run(sys.argv[1], "quick", root, "/repo")
    for f in r["failed"]: print(f["output"])
    print({k: v for k, v in r.items() if k != "failed"})
