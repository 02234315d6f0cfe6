"""Mechanical extraction of Rust functions from /repo and injection of contracts.

A unit file (contracts/*.vx) is Verus text with blocks

    %%item PATH HEADER            copy the item (struct, enum, const, ...) whose text starts with HEADER
    %%pubitem PATH HEADER         the same, with every field made pub
    %%fbenum PATH NAME            a FlatBuffers enumeration (struct over an integer) with its constants
    %%fn PATH IMPL NAME           copy the function NAME of the impl block whose header is IMPL ('-': free fn)
    %%ret r                       name the result
    %%attr #[...]                 attribute put in front of the function
    %%sig `from` => `to`          declared rewrite in the signature
    %%sub `from` => `to`          declared rewrite in the body (whitespace-insensitive, at least once)
    %%sub? ...                    the same, but may be absent
    %%hoist                       move items declared inside the body in front of the function's impl
    %%spec / %%start / %%end / %%loop N / %%loopstart N / %%loopend N / %%before N / %%post N
    %%after `text` / %%pre `text` contract text put at that place
    %%impl HEADER                 put the function under this impl header instead (a trait impl becomes an inherent one)
    %%dropmacro NAME              NAME!(..) statements are left out (debug assertions that the contracts replace)
    %%dropstmt `text`             the statement that starts with text is left out (what it does is not covered by the contracts)
    %%replstmt `text` => `new`    the same, with new in its place
    %%mutparam NAME               `mut NAME: T` becomes `NAME: T` and `let mut NAME = NAME` (`this` for self), which the body then uses
    %%while N nx                  loop N, `for p in a..b`, becomes a while loop with counter nx (so that `continue` is accepted)
    %%expr PATH IMPL NAME `text` as `signature` .. %%done   the match expression of that function that starts with text, as a function
    %%omap                        Option::map(|x| e) becomes a match (macro omap of the unit)
    %%external                    keep the signature only: body replaced by unimplemented!()
    %%done

Everything in such a block that is not contract text comes from the working tree on every run; comments
are dropped, and what a `sub`/`sig` rewrite changes is listed in the extraction report.
"""
import re, os, sys

class Lost(Exception):
    """anchor lost: the source no longer has the shape the contracts are attached to"""

IDENT = re.compile(r"[A-Za-z_][A-Za-z0-9_]*")

def strip_comments(s):
    out = []; i = 0; n = len(s)
    while i < n:
        c = s[i]
        if s.startswith("//", i):
            j = s.find("\n", i); j = n if j < 0 else j
            i = j; continue
        if s.startswith("/*", i):
            d = 1; j = i + 2
            while j < n and d:
                if s.startswith("/*", j): d += 1; j += 2
                elif s.startswith("*/", j): d -= 1; j += 2
                else: j += 1
            out.append(" "); i = j; continue
        k = lit_end(s, i)
        if k: out.append(s[i:k]); i = k; continue
        out.append(c); i += 1
    return "".join(out)

def lit_end(s, i):
    """end of the string/char literal starting at i, or 0"""
    c = s[i]; n = len(s)
    prev = s[i-1] if i else " "
    if c == 'r' and not (prev.isalnum() or prev == '_'):
        m = re.compile(r'r(#*)"').match(s, i)
        if m:
            e = s.find('"' + m.group(1), m.end())
            return e + 1 + len(m.group(1))
    if c == '"':
        j = i + 1
        while j < n and s[j] != '"': j += 2 if s[j] == '\\' else 1
        return j + 1
    if c == "'":
        m = re.compile(r"'(\\x[0-9a-fA-F]{2}|\\u\{[0-9a-fA-F]+\}|\\.|[^\\'])'").match(s, i)
        if m: return m.end()
    return 0

OPEN = {"{": "}", "(": ")", "[": "]"}

def match_close(s, i):
    """index just past the bracket matching s[i]"""
    d = 0; n = len(s)
    while i < n:
        k = lit_end(s, i)
        if k: i = k; continue
        c = s[i]
        if c in "{([": d += 1
        elif c in "})]":
            d -= 1
            if d == 0: return i + 1
        i += 1
    raise Lost("unbalanced brackets")

def match_open(s, i):
    """index of the bracket that is closed at s[i]"""
    d = 0
    while i >= 0:
        if s[i] in "})]": d += 1
        elif s[i] in "{([":
            d -= 1
            if d == 0: return i
        i -= 1
    raise Lost("unbalanced brackets")

def omap(body):
    """opt.map(|x| e) and opt.map(f) written as a match (macro omap); receivers that go through .iter() are left"""
    pos = 0; n = 0
    while True:
        m = next(find_code(body, r"\.\s*(map|and_then|or_else|unwrap_or_else)\s*\(", pos), None)
        if not m: return body, n
        pos = m.end()
        i = m.start()
        while True:
            j = i
            while j > 0 and body[j - 1].isspace(): j -= 1
            if j > 0 and body[j - 1] in ")]":
                j = match_open(body, j - 1)
                while j > 0 and body[j - 1].isspace(): j -= 1
                if j > 0 and body[j - 1] == "!": j -= 1
                w = j
                while w > 0 and (body[w - 1].isalnum() or body[w - 1] == "_"): w -= 1
                i = w
            else:
                w = j
                while w > 0 and (body[w - 1].isalnum() or body[w - 1] == "_"): w -= 1
                if w == j: i = None; break
                i = w
            k = i
            while k > 0 and body[k - 1].isspace(): k -= 1
            if k > 0 and body[k - 1] == ".": i = k - 1
            elif k > 1 and body[k - 2:k] == "::": i = k - 2
            else: break
        if i is None: continue
        recv = body[i:m.start()].strip()
        if re.search(r"\biter\s*\(|\binto_iter\s*\(|\benumerate\b|\bzip\b|^return$", recv): continue
        e = match_close(body, m.end() - 1)
        arg = body[m.end():e - 1].strip()
        kind = m.group(1)
        c = re.match(r"\|\s*(\w+)\s*\|(.*)$", arg, re.S)
        if kind in ("or_else", "unwrap_or_else"):
            c = None; f = None; g = re.match(r"\|\s*\|(.*)$", arg, re.S)
            if not g or "?" in g.group(1) or "return" in g.group(1): continue
            body = body[:i] + "%s!(%s, %s)" % ("orelse" if kind == "or_else" else "unwrapor", recv, g.group(1).strip()) + body[e:]
            pos = i + 1; n += 1; continue
        f = re.match(r"[\w:]+$", arg)
        if c: x, ex = c.group(1), c.group(2).strip()
        elif f: x, ex = "_x", arg + "(_x)"
        else: continue
        if "?" in ex or "return" in ex: continue
        body = body[:i] + "%s!(%s, %s, %s)" % ("omap" if kind == "map" else "oand", recv, x, ex) + body[e:]
        pos = i + len("omap!(")
        n += 1

def find_code(s, pat, start=0, end=None):
    """iterate regex matches of pat outside literals"""
    end = len(s) if end is None else end
    rx = re.compile(pat); i = start
    while i < end:
        k = lit_end(s, i)
        if k: i = k; continue
        m = rx.match(s, i)
        if m and m.end() <= end:
            yield m
            i = max(m.end(), i + 1)
        else:
            m2 = IDENT.match(s, i)
            i = m2.end() if m2 else i + 1

def norm(t): return re.sub(r"\s+", " ", t).strip()

class Source:
    cache = {}
    def __init__(self, root, path):
        self.path = path
        p = os.path.join(root, path)
        try: raw = open(p).read()
        except OSError: raise Lost(f"no file {path}")
        self.s = strip_comments(raw)
        # unit tests are not part of the system
        m = re.search(r"#\[cfg\(test\)\]\s*mod\s+\w+\s*\{", self.s)
        if m: self.s = self.s[:m.start()]
    @classmethod
    def get(cls, root, path):
        k = (root, path)
        if k not in cls.cache: cls.cache[k] = cls(root, path)
        return cls.cache[k]

    def impl_ranges(self, header):
        if header == "-": return [(0, len(self.s))]
        want = norm(header); res = []
        for m in find_code(self.s, r"impl\b"):
            j = m.end()
            # to the opening brace
            k = j
            while k < len(self.s) and self.s[k] != "{":
                if self.s[k] == ";": break
                k += 1
            if k >= len(self.s) or self.s[k] != "{": continue
            if norm(self.s[m.start():k]) == want: res.append((k + 1, match_close(self.s, k) - 1))
        if not res: raise Lost(f"{self.path}: no `{header}`")
        return res

    def fn_text(self, impl, name):
        s = self.s; hits = []
        for a, b in self.impl_ranges(impl):
            for m in find_code(s, r"fn\s+%s\b" % re.escape(name), a, b):
                # depth 0 relative to a
                d = 0; i = a
                while i < m.start():
                    k = lit_end(s, i)
                    if k: i = k; continue
                    if s[i] in "{([": d += 1
                    elif s[i] in "})]": d -= 1
                    i += 1
                if d != 0: continue
                # visibility etc. backwards
                st = m.start()
                mm = re.search(r"((pub(\s*\([^)]*\))?|const|async|unsafe)\s+)+$", s[a:st])
                if mm: st = a + mm.start()
                # attributes just in front of it
                at = s[a:st].rstrip(); attrs = []
                while at.endswith("]"):
                    q = at.rfind("#[")
                    if q < 0: break
                    attrs.append(at[q:]); at = at[:q].rstrip()
                k = m.end(); depth = 0
                while not (s[k] == "{" and depth == 0):
                    if s[k] in "([": depth += 1
                    elif s[k] in ")]": depth -= 1
                    elif s[k] == ";" and depth == 0: raise Lost(f"{name} has no body")
                    k += 1
                e = match_close(s, k)
                hits.append((s[st:k], s[k:e], attrs))
        if len(hits) != 1: raise Lost(f"{self.path}: {len(hits)} functions {impl}::{name}")
        return hits[0]

    def const_text(self, impl, name):
        """(type, expression) of an associated constant"""
        hits = []
        for a, b in self.impl_ranges(impl):
            for m in find_code(self.s, r"const\s+%s\s*:\s*([\w:<>]+)\s*=([^;]*);" % re.escape(name), a, b): hits.append((m.group(1), m.group(2)))
        if len(hits) != 1: raise Lost(f"{self.path}: {len(hits)} constants {impl}::{name}")
        return hits[0]

    def item_text(self, header):
        s = self.s; want = norm(header)
        pat = r"\s+".join(re.escape(w) for w in want.split(" "))
        for m in find_code(s, pat + r"(?![A-Za-z0-9_])"):
            k = m.end()
            while s[k] not in "{;": k = match_close(s, k) if s[k] in "[(" else k + 1
            if s[k] == ";": return s[m.start():k + 1]
            return s[m.start():match_close(s, k)]
        raise Lost(f"{self.path}: no item `{header}`")

def loops(body):
    """[(kw_start, brace_open, brace_close_index)] of the loops in source order"""
    res = []
    for m in find_code(body, r"(loop|while|for)\b"):
        kw = m.group(1); k = m.end()
        if kw == "for" and re.match(r"\s*<", body[k:]): continue
        before = body[:m.start()].rstrip()
        if kw == "for" and re.search(r"\bimpl\b[^;{}]*$", before): continue
        d = 0
        while k < len(body):
            e = lit_end(body, k)
            if e: k = e; continue
            c = body[k]
            if c in "([": d += 1
            elif c in ")]": d -= 1
            elif c == "{" and d == 0: break
            k += 1
        start = m.start()
        lab = re.search(r"'[a-z_]+\s*:\s*$", body[:start])
        if lab: start = lab.start()
        res.append((start, k, match_close(body, k) - 1))
    return res

def ws_regex(t):
    toks = re.findall(r"[A-Za-z0-9_]+|\s+|[^\sA-Za-z0-9_]", t.strip())
    return r"\s*".join(re.escape(x) for x in toks if not x.isspace())

def stmt_end(s, i):
    """end of the statement that starts at i"""
    block = re.match(r"(for|while|loop|if|match)\b", s[i:])
    while i < len(s):
        k = lit_end(s, i)
        if k: i = k; continue
        if s[i] in "([{":
            e = match_close(s, i)
            if block and s[i] == "{" and not re.match(r"\s*else\b", s[e:]): return e
            i = e; continue
        if s[i] == ";": return i + 1
        i += 1
    raise Lost("end of statement not found")

def split_tail(body):
    """position in body (with braces) where the tail expression starts"""
    i = 1; n = len(body) - 1; last = 1
    while i < n:
        e = lit_end(body, i)
        if e: i = e; continue
        c = body[i]
        if c in "([": i = match_close(body, i); continue
        if c == "{":
            i = match_close(body, i)
            # statement-like block when the next token starts a new statement
            rest = body[i:n].lstrip()
            if rest and not re.match(r"(else\b|\.|\?|[-+*/=<>&|,;)])", rest): last = i
            continue
        if c == ";": last = i + 1
        i += 1
    return last

HOIST = re.compile(r"(#\[[^\]]*\]\s*)*(struct|enum|impl|use|const)\b")

def hoist_items(body):
    """cut items declared at statement position out of a function body"""
    items = []; i = 1; out = [body[0]]
    at_stmt = True
    while i < len(body):
        e = lit_end(body, i)
        if e: out.append(body[i:e]); i = e; at_stmt = False; continue
        if at_stmt:
            m = HOIST.match(body, i)
            if m:
                k = i
                while body[k] not in "{;": k += 1
                k = k + 1 if body[k] == ";" else match_close(body, k)
                items.append(body[i:k]); i = k; continue
        c = body[i]
        out.append(c)
        if c in "{};": at_stmt = True
        elif not c.isspace(): at_stmt = False
        i += 1
    return "".join(out), items

def range_to_while(body, n, nx, label):
    """`for P in A..B { S }` => `{ let mut NX = A; let NX_end = B; while NX < NX_end { let P = NX; NX += 1; S } }`"""
    lps = loops(body)
    if n >= len(lps): raise Lost(f"{label}: loop {n} not found")
    a, o, c = lps[n]
    m = re.match(r"for\s+(\w+)\s+in\s+", body[a:o])
    if not m: raise Lost(f"{label}: loop {n} is no plain for loop")
    e = body[a + m.end():o].strip(); d = 0; cut = -1; i = 0
    while i < len(e):
        if e[i] in "([{": d += 1
        elif e[i] in ")]}": d -= 1
        elif d == 0 and e.startswith("..", i): cut = i; break
        i += 1
    if cut < 0 or e[cut:].startswith("..="): raise Lost(f"{label}: loop {n} is no plain range loop")
    lo, hi = e[:cut].strip(), e[cut + 2:].strip()
    pat = m.group(1)
    bind = f"let {pat} = {nx}; " if pat != "_" else ""
    return (body[:a] + "{ let mut %s = %s; let %s_end = %s; while %s < %s_end {%s%s += 1; " % (nx, lo, nx, hi, nx, nx, bind, nx)
            + body[o + 1:c + 1] + " }" + body[c + 1:])

def make_pub(t):
    """all fields of a struct (and the item itself) made pub"""
    t = re.sub(r"^\s*(pub(\s*\([^)]*\))?\s+)?(struct|enum)\b", r"pub \3", t)
    if not t.startswith("pub struct"): return t
    a = t.find("{")
    if a < 0: return t
    out = []; d = 0; start = True; i = a + 1; body = t[a + 1:t.rfind("}")]
    res = ""; k = 0; field = ""
    for c in body:
        if c in "<([{": d += 1
        elif c in ">)]}": d -= 1
        field += c
        if c == "," and d == 0: out.append(field); field = ""
    if field.strip(): out.append(field)
    def one(f):
        m = re.match(r"((?:\s|#\[[^\]]*\])*)(?:pub(?:\s*\([^)]*\))?\s+)?(\w+\s*:)", f)
        return m.group(1) + "pub " + f[m.start(2):] if m else f
    return t[:a + 1] + "".join(one(f) for f in out) + "\n}"

class Unit:
    def __init__(self, root, path, vacuity=False):
        self.root = root; self.path = path
        self.vacuity = vacuity
        self.report = []      # (function, [declared rewrites])
        self.functions = []
        self.lost = []
        self.spans = []       # (first_line, last_line, name)
        self.probes = []      # vacuity probes: (line, label)

    def build(self):
        lines = open(self.path).read().split("\n")
        out = []; i = 0
        while i < len(lines):
            L = lines[i]
            if L.startswith("%%include "):
                inc = open(os.path.join(os.path.dirname(self.path), L.split()[1])).read().split("\n")
                lines[i:i+1] = inc; continue
            if L.startswith("%%item ") or L.startswith("%%pubitem "):
                pub = L.startswith("%%pubitem ")
                _, p, h = L.split(" ", 2)
                subs = []
                while i + 1 < len(lines) and lines[i+1].startswith("%%isub"):
                    subs.append(lines[i+1]); i += 1
                t = Source.get(self.root, p).item_text(h.strip())
                for x in subs: t = self.apply_sub(t, x, [], h)
                if pub: t = make_pub(t)
                t = re.sub(r"#\[(derive|repr|serde|cfg_attr)[^\]]*\]\s*", "", t)
                out.append(t); self.report.append((f"{p}: {h.strip()}", [])); i += 1; continue
            if L.startswith("%%fbenum "):
                # a FlatBuffers enumeration: the struct and its constants
                _, p, h = L.split()
                src = Source.get(self.root, p)
                m = re.search(r"pub struct %s\(pub (u8|i8|u16)\);" % h, src.s)
                cs = re.findall(r"pub const (\w+): Self = Self\((\d+)\);", src.s[m.end():src.s.index("ENUM_MIN", m.end())]) if m and "ENUM_MIN" in src.s[m.end():] else []
                if not cs: raise Lost(f"{p}: no FlatBuffers enumeration {h}")
                out.append("#[derive(Clone, Copy, PartialEq, Eq, Structural)]\npub struct %s(pub %s);\n#[allow(non_upper_case_globals)]\nimpl %s {\n%s\n}" % (h, m.group(1), h, "\n".join("    pub const %s: %s = %s(%s);" % (a, h, h, b) for a, b in cs)))
                self.report.append((f"{p}: constants of {h}", [])); i += 1; continue
            if L.startswith("%%constfn "):
                # an associated constant, written as a function of the same value
                m = re.match(r'%%constfn (\S+) "([^"]*)" (\w+) as (\w+)$', L)
                ty, ex = Source.get(self.root, m.group(1)).const_text(m.group(2), m.group(3))
                j = i + 1; spec = []; rep = [f"constant {m.group(3)} written as function {m.group(4)}"]; imp = m.group(2)
                while lines[j].strip() != "%%done":
                    if lines[j].startswith("%%sub"): ex = self.apply_sub(ex, lines[j], rep, m.group(3))
                    elif lines[j].startswith("%%impl "): imp = lines[j][7:]
                    else: spec.append(lines[j])
                    j += 1
                label = f"{m.group(1)}::{norm(m.group(2))}::{m.group(3)}"
                self.functions.append(label); self.report.append((label, rep))
                out.append("\x01" + label + "\x02" + norm(imp) + " {\npub fn " + m.group(4) + "() -> (r: " + ty + ")\n" + "\n".join(spec) + "\n{ " + ex.strip() + " }\n}")
                i = j + 1; continue
            if L.startswith("%%expr "):
                # an expression inside a function, written as a function of its own
                m = re.match(r'%%expr (\S+) "([^"]*)" (\w+) `(.*)` as `(.*)`$', L)
                path, imp, fn, pre, sig = m.groups()
                _, body, _ = Source.get(self.root, path).fn_text(imp, fn)
                ms = list(re.finditer(ws_regex(pre), body))
                if len(ms) != 1: raise Lost(f"{path}::{fn}: `{pre}` found {len(ms)} times")
                k = ms[0].start()
                while body[k] != "{": k += 1
                ex = body[ms[0].start():match_close(body, k)]
                rep = [f"expression `{pre} ..` of {fn} written as `{sig}`; how {fn} uses it is not covered here"]; j = i + 1; spec = []
                while lines[j].strip() != "%%done":
                    if lines[j].startswith("%%sub"): ex = self.apply_sub(ex, lines[j], rep, fn)
                    else: spec.append(lines[j])
                    j += 1
                label = f"{path}::{fn}::{pre}"
                self.functions.append(label); self.report.append((label, rep))
                probe = f"assert(false); /*VAC {label} entry*/\n" if self.vacuity else ""
                out.append("\x01" + label + "\x02" + sig + "\n" + "\n".join(spec) + "\n{\n" + probe + ex.strip() + "\n}")
                i = j + 1; continue
            if L.startswith("%%fn "):
                j = i
                while lines[j].strip() != "%%done": j += 1
                out.append("\x01" + self.emit_fn(lines[i:j]))
                i = j + 1; continue
            out.append(L); i += 1
        # line bookkeeping
        final = []; n = 1
        for c in out:
            if c.startswith("\x01"):
                name, text = c[1:].split("\x02", 1)
                k = text.count("\n") + 1
                self.spans.append((n, n + k - 1, name))
                c = text
            n += c.count("\n") + 1
            final.append(c)
        text = "\n".join(final)
        if self.vacuity:
            for k, l in enumerate(text.split("\n"), 1):
                m = re.search(r"/\*VAC (.*?)\*/", l)
                if m: self.probes.append((k, m.group(1)))
        return text

    def apply_sub(self, body, line, rep, fn):
        m = re.match(r"%%i?(sub|sig)(\??)\s+`(.*)`\s*=>\s*`(.*)`\s*$", line)
        if not m: raise ValueError("bad directive " + line)
        rx = re.compile(ws_regex(m.group(3)))
        new, k = rx.subn(lambda _: m.group(4), body)
        if k == 0:
            if m.group(2): return body
            raise Lost(f"{fn}: `{m.group(3)}` not found")
        rep.append(f"{m.group(3)} => {m.group(4)}")
        return new

    def emit_fn(self, block):
        head = block[0].split(None, 2)
        path = head[1]
        rest = head[2]
        impl, name = rest.rsplit(None, 1)
        impl = impl.strip('"')
        label = f"{path}::{name}" if impl == "-" else f"{path}::{norm(impl)}::{name}"
        sig, body, attrs = Source.get(self.root, path).fn_text(impl, name)
        sig = sig.replace("pub(super)", "pub(crate)")
        sections = []; ret = None; rep = []; extra = []; external = False; omaps = False; hoist = False; deasync = False; rename=None; newimpl=None; noloops=None
        cur = None; sigsubs = []; bodysubs = []; whiles = []; mutparams = []; drops = []; dropst = []
        for L in block[1:]:
            if L.startswith("%%"):
                w = L.split(None, 1)
                d = w[0][2:]; arg = w[1] if len(w) > 1 else ""
                cur = None
                if d == "ret": ret = arg.strip()
                elif d == "attr": extra.append(arg)
                elif d == "external": external = True
                elif d == "hoist": hoist = True
                elif d == "deasync": deasync = True
                elif d == "omap": omaps = True
                elif d == "rename": rename = arg.strip()
                elif d == "impl": newimpl = arg.strip(); rep.append(f"`{norm(impl)}` => `{newimpl}`")
                elif d == "loops": noloops = int(arg)
                elif d == "dropmacro": drops.append(arg.strip())
                elif d == "dropstmt": dropst.append((re.match(r"`(.*)`$", arg.strip()).group(1), ""))
                elif d == "replstmt": dropst.append(re.match(r"`(.*)`\s*=>\s*`(.*)`$", arg.strip()).groups())
                elif d == "mutparam": mutparams.append(arg.strip())
                elif d == "while": whiles.append(arg.split())
                elif d in ("sig", "sig?"): sigsubs.append(L)
                elif d in ("sub", "sub?"): bodysubs.append(L)
                elif d in ("spec", "start", "end", "loop", "loopstart", "loopend", "before", "post", "after", "pre", "iter"):
                    cur = [d, arg.strip(), []]; sections.append(cur)
                else: raise ValueError("unknown directive " + L)
            elif cur is not None: cur[2].append(L)
            elif L.strip(): raise ValueError("stray text in block: " + L)
        if deasync:
            sig = re.sub(r"\basync\s+", "", sig); body = re.sub(r"\.\s*await\b", "", body)
            rep.append("async fn and .await dropped: every future is awaited where it is made")
        for L in sigsubs: sig = self.apply_sub(sig, L, rep, label)
        for rx in [r"\b(debug|println|eprintln|info|warn|trace)!\s*\("] + [r"\b%s!\s*\(" % x for x in drops]:
            while True:
                m = next(find_code(body, rx), None)
                if not m: break
                e = match_close(body, m.end() - 1)
                mm = re.compile(r"\s*;").match(body, e)
                body = body[:m.start()] + body[(mm.end() if mm else e):]
                note = f"{drops and rx != drops and re.match(r'.b(.+)!', rx) and re.match(r'.b(.+)!', rx).group(1)} statements dropped" if "debug|" not in rx else "log/print statements dropped"
                if note not in rep: rep.append(note)
        for a, new in dropst if not external else []:
            m = re.search(ws_regex(a), body)
            if not m: raise Lost(f"{label}: statement `{a}` not found")
            e = stmt_end(body, m.start())
            rep.append(("STATEMENT REPLACED by `%s` (not covered): " % new if new else "STATEMENT DROPPED (not covered): ") + norm(body[m.start():e]))
            body = body[:m.start()] + new + body[e:]
        if omaps and not external:
            body, k = omap(body)
            rep.append("Option::map, and_then, or_else with a closure written as a match (macros omap, oand, orelse)")
        items = []
        if hoist:
            body, items = hoist_items(body)
            items = list(dict.fromkeys(re.sub(r"\s+", " ", x) for x in items if not x.startswith("use")))
            rep.append("items declared inside the body hoisted in front of it")
        for L in bodysubs: body = self.apply_sub(body, L, rep, label)
        for nm in mutparams:
            rx = re.compile(r"\bmut\s+%s\b" % nm)
            if not rx.search(sig): raise Lost(f"{label}: no parameter `mut {nm}`")
            sig = rx.sub(nm, sig)
            if not external:
                loc = "this" if nm == "self" else nm
                body = "{ let mut %s = %s; " % (loc, nm) + re.sub(r"(?<![\w.])%s\b(?!\s*:[^:])" % nm, loc, body[1:])
            rep.append(f"parameter `mut {nm}` bound to a mutable local")
        for n_, nx_ in whiles if not external else []:
            body = range_to_while(body, int(n_), nx_, label)
            rep.append(f"loop {n_}: for over a range written as while with counter {nx_}")
        if external:
            body = "{ unimplemented!() }"; extra.insert(0, "#[verifier::external_body]")
            self.report.append((label, rep + ["EXTERNAL: contract assumed here"]))
        else:
            self.functions.append(label)
            self.report.append((label, rep))
        # injections: (pos, order, text)
        inj = []
        lps = loops(body)
        if noloops is not None and len(lps) != noloops and not external:
            raise Lost(f"{label}: {len(lps)} loops, contracts were written for {noloops}")
        spec = ""
        def lp(n):
            n = int(n)
            if n >= len(lps): raise Lost(f"{label}: loop {n} not found")
            return lps[n]
        def text_anchor(a, after):
            m = re.match(r"`(.*)`\s*(\d*)$", a)
            rx = re.compile(ws_regex(m.group(1))); want = int(m.group(2) or 0)
            ms = list(rx.finditer(body))
            if len(ms) <= want: raise Lost(f"{label}: anchor `{m.group(1)}` not found")
            return ms[want].end() if after else ms[want].start()
        for d, arg, txt in sections:
            t = "\n".join(txt)
            if d == "spec": spec += "\n" + t
            elif external: continue
            elif d == "start": inj.append((1, t))
            elif d == "end": inj.append((split_tail(body), t))
            elif d == "loop": inj.append((lp(arg)[1], "\n" + t + "\n"))
            elif d == "iter":
                n_, nm = arg.split()
                a_, b_, _ = lp(n_)
                m_ = re.compile(r"\bin\b").search(body, a_, b_)
                inj.append((m_.end(), " %s: " % nm))
            elif d == "loopstart": inj.append((lp(arg)[1] + 1, t))
            elif d == "loopend": inj.append((lp(arg)[2], t))
            elif d == "before": inj.append((lp(arg)[0], t + "\n"))
            elif d == "post": inj.append((lp(arg)[2] + 1, t))
            elif d == "after": inj.append((text_anchor(arg, True), t))
            elif d == "pre": inj.append((text_anchor(arg, False), t + "\n"))
        if self.vacuity and not external:
            inj.append((1, f"\nassert(false); /*VAC {label} entry*/\n"))
            for k, (a, b, c) in enumerate(lps):
                inj.append((b + 1, f"\nassert(false); /*VAC {label} loop {k}*/\n"))
        order = sorted(range(len(inj)), key=lambda k: (-inj[k][0], -k))
        for k in order:
            p, t = inj[k]
            body = body[:p] + "\n" + t + "\n" + body[p:]
        if ret:
            m = re.search(r"->\s*(.+?)\s*(where\b.*)?$", sig, re.S)
            if m:
                sig = sig[:m.start()] + f"-> ({ret}: {m.group(1).strip()})" + ("\n" + m.group(2) if m.group(2) else "")
        if rename: sig = re.sub(r"\bfn\s+%s\b" % re.escape(name), "fn " + rename, sig)
        wrap_open, wrap_close = ("", "") if (newimpl or impl) == "-" else ((newimpl or norm(impl)) + " {\n", "\n}")
        if impl != "-":
            # a trait impl keeps its header
            pass
        text = "\n".join(items) + ("\n" if items else "") + wrap_open + "\n".join(extra) + "\n" + sig.rstrip() + "\n" + spec + "\n" + body + wrap_close
        return label + "\x02" + text

if __name__ == "__main__":
    u = Unit(sys.argv[1], sys.argv[2], vacuity=len(sys.argv) > 3)
    print(u.build())
