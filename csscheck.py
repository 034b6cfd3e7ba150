"""M03: random style sheets through the real css! macro.

The generator builds every sheet out of pieces and remembers which of them are class
selectors, so what the macro must emit is known by construction.  The macro is run by
rustc; its expansion is read back, the JavaScript it contains is executed by node, and
the style sheet which reaches the page and the constants are compared with the pieces."""
import json, os, random, re, subprocess

KEYWORDS = ("as break const continue else enum extern false fn for if impl in let loop match mod move mut pub ref return static struct trait true type unsafe use where while "
            "async await dyn abstract become box do final macro override priv typeof unsized virtual yield try").split()
NO_RAW = ["self", "Self", "super", "crate"]
WORDS = ("a b c box-1 card item active nav-bar is-open btn--primary block__element_mod x1 wide tall A camelCase UPPER red hidden content clearfix -lead --var-like _under trailing- "
         "from to media not layer important url rem e3 px u n2n été naïve 日本 Ünïcode élan-vital ßtraße имя a1b2c3 very-long-class-name-of-more-than-sixteen-bytes").split()
TYPES = ["div", "span", "a", "p", "*", "li", "h1", "my-element", "svg|rect", "*|a", "INPUT", "日本"]
PSEUDO = [":hover", "::before", ":first-child", ":nth-child(2n+1)", ":nth-child( odd )", ":lang(en)", ":dir(rtl)", "::part(foo)", ":not([hidden])", "::-webkit-scrollbar", ":nth-of-type(-n + 3)", ":state(x)"]
ATTRS = ["[hidden]", "[data-x]", '[href=".a"]', "[title='.b c']", "[class~=d]", '[data-a=".e.f" i]', "[lang|=en]", '[src$=".png"]', "[data-x=\"]\"]", "[x = y ]", "[a|b]", '[class*="a.b"]', "[d='\\'.x{']"]
COMMENTS = ["/**/", "/* .a */", "/* { .b } */", '/* " */', "/* ' */", "/* é .日本 */", "/***/", "/*\n.c{}\n*/", "/* `${x}` \\ */", "/* url( */"]


class Sheet:
    def __init__(self, r, size):
        self.r, self.size = r, size
        self.pieces = []        # (text, name or None)
        self.consts = {}        # identifier -> class name
        self.feats = set()

    def p(self, *texts):
        for t in texts:
            self.pieces.append((t, None))

    def chance(self, a, b):
        return self.r.randrange(b) < a

    def ws(self, may_be_empty=True):
        r = self.r
        if may_be_empty and self.chance(2, 3):
            return
        self.p(r.choice([" ", " ", "\n", "\t", "  ", "\n    ", " \r\n "]))
        self.comment()

    def comment(self):
        if self.chance(1, 12):
            self.feats.add("comment")
            self.p(self.r.choice(COMMENTS))

    def name(self):
        r = self.r
        k = r.randrange(20)
        if k < 12:
            n = r.choice(WORDS)
        elif k < 14:
            n = r.choice(KEYWORDS)
            self.feats.add("keyword")
        elif k == 14:
            n = r.choice(["", "-", "--", "_"]) + "".join(r.choice("abcxyzABC_-0189éд日") for _ in range(r.randrange(1, 12)))
            if not re.match(r"-?[a-zA-Z_éд日]|--", n):
                n = "q" + n
        elif k == 15 and self.chance(1, 3):
            n = r.choice(NO_RAW)
            self.feats.add("reserved")
        elif k == 16:
            n = r.choice(["sm:flex", "w-1/2", "p-0.5", "hover:bg", "1col", "2-3", "a@b", "x.y", "a b", "[x]", "#id", "a,b", "50%", "a{b", "a\"b", "-1", "$v", "né:e", "a\\b", "(x)", "`t`", "a'b"])
            self.feats.add("escaped")
        elif False:
            n = r.choice(["😀", "a→b", "★", "x😀y"])
            self.feats.add("symbols")
        else:
            n = r.choice("abcdefgh") + str(r.randrange(100))
        return n

    def spell(self, n):
        """a CSS spelling of the identifier n"""
        r = self.r
        out = ""
        lazy = self.chance(1, 25)
        for i, c in enumerate(n):
            plain = c == "_" or c == "-" or c.isalnum() or ord(c) >= 0x80
            if plain and c.isascii() and c.isdigit() and (i == 0 or (i == 1 and n[0] == "-")):
                plain = False
            if plain and not (lazy and self.chance(1, 2)):
                if n == "-":
                    out += "\\-"
                else:
                    out += c
                continue
            self.feats.add("escape spelled")
            if not plain and not c.isalnum() and c != "\n" and self.chance(2, 3):
                out += "\\" + c
                continue
            h = "%x" % ord(c)
            style = r.randrange(3)
            if style == 0:
                out += "\\" + h + r.choice([" ", "\t", "\n"])
            elif style == 1:
                # the white space after an escape belongs to it, even after six digits
                out += "\\" + h.rjust(6, "0") + (" " if i + 1 == len(n) or self.chance(1, 2) else "")
            else:
                out += "\\" + h.upper().rjust(4, "0") + " "
        return out

    @staticmethod
    def ident(n):
        """the constant's name where it is determined: dashes turned to underscores"""
        i = n.replace("-", "_")
        return i if i.isidentifier() and i not in NO_RAW and i != "_" else None

    @staticmethod
    def key(n):
        k = re.sub(r"\W", "_", n)
        import unicodedata
        return unicodedata.normalize("NFC", k).lstrip("_").rstrip("_").lower()

    def cls(self):
        for _ in range(20):
            n = self.name()
            # two classes of one sheet must not ask for the same constant
            k = self.key(n)
            if not k or (k in self.consts and self.consts[k] != n):
                continue
            self.consts[k] = n
            self.p(".")
            if self.chance(1, 150):
                self.feats.add("comment after dot")
                self.p(self.r.choice(COMMENTS))
            self.pieces.append((self.spell(n), n))
            return
        self.p("z")

    def compound(self, depth):
        r = self.r
        n = 0
        if self.chance(1, 3):
            self.p(r.choice(TYPES))
            n += 1
        while n == 0 or self.chance(2, 5):
            k = r.randrange(12)
            if k < 7:
                self.cls()
            elif k == 7:
                self.p(r.choice(["#id", "#a-b", "#日", "#\\31 x"]))
            elif k == 8:
                self.p(r.choice(PSEUDO))
            elif k == 9:
                self.p(r.choice(ATTRS))
            elif depth > 0:
                self.feats.add("functional")
                f = r.choice([":not(", ":is(", ":where(", ":has(", ":nth-child(2n+1 of ", ":host(", "::slotted(", ":-webkit-any(", ":host-context(", ":nth-last-child(even of "])
                self.p(f)
                self.ws()
                if f == ":has(" and self.chance(1, 2):
                    self.p(r.choice(["> ", "+", "~ "]))
                self.selectors(depth - 1)
                self.ws()
                self.p(")")
            else:
                self.cls()
            n += 1
            if self.chance(1, 30):
                self.comment()

    def complex(self, depth):
        self.compound(depth)
        while self.chance(1, 3):
            c = self.r.choice([" ", ">", "+", "~", " "])
            if c == " ":
                self.ws(False)
            else:
                self.ws()
                self.p(c)
                self.ws()
            self.compound(depth)

    def selectors(self, depth=2):
        self.complex(depth)
        while self.chance(1, 4):
            self.ws()
            self.p(",")
            self.ws()
            self.complex(depth)

    VALUES = ["red", ".5em", "1.5px", "0 .25rem", "calc(.5 * (2px + .1em))", "url(a.b.png)", "url( 'x.y' )", 'url("data:image/svg+xml,<svg xmlns=\'.\'>")', "var(--x, .5)",
              "1e3px", "-.5em", "#fff.", "rgb(0 0 0 / .5)", '"plain"', '".x { }"', "'it\\'s'", '"\\201C"', "'\\f101'", '"\\""', '"a\\\nb"', '"`"', '"${x}"', '"$"', "`", "'${y}'", "var(--q,${y})",
              '"\\\\"', '"\\0041 .b"', "u+26", "U+0025-00FF", "1.e", "translate(.5px,.5px)", "a.b", "progid.x", "\\31 23", "'\\e900'", '"\\`"', '"</style>"', "url(\\29.a)", "12.5%", "auto !important", "'日本.x'", '"\\1F600"', '""', "url()", "+.5", "format('woff2')", '"{"', "'}'", "(.5)", "[a.b]", "'\\\\f'", '"\\u0041"', '"\\x41"']

    def decl(self):
        r = self.r
        self.ws()
        k = r.randrange(12)
        if k == 0:
            self.feats.add("custom property")
            self.p("--" + r.choice(["x", "a.b".replace(".", "-"), "Long_Name", "é"]), ":", r.choice(["{ .a: b }", " .foo", " { .x { } }", " [.y]", "", " (.z)", " .5", " .a{}"]))
        else:
            self.p(r.choice(["color", "width", "content", "background", "-webkit-x", "font", "margin-top", "src", "filter", "*zoom".replace("*", "")]))
            self.ws()
            self.p(":")
            self.ws()
            while True:
                v = r.choice(self.VALUES)
                if "\\" in v or "`" in v or "$" in v:
                    self.feats.add("backslash or backtick")
                self.p(v)
                if self.chance(3, 4):
                    break
                self.p(" ")
                self.comment()
        self.ws()

    def block(self, nest):
        self.p("{")
        self.body(nest)
        self.p("}")

    def body(self, nest):
        n = self.r.randrange(4)
        for i in range(n):
            if nest and self.chance(1, 6):
                self.feats.add("nesting")
                self.nested(nest - 1)
                continue
            self.decl()
            if i + 1 < n or self.chance(2, 3):
                self.p(";")
                if self.chance(1, 10):
                    self.ws()
                    self.p(";")
        self.ws()

    def nested(self, nest):
        self.ws()
        k = self.r.randrange(6)
        if k == 0:
            self.p(self.r.choice(["@media (width > 4.5em)", "@supports (a:b)", "@container (width>.5px)", "@layer a.b"]))
            self.ws()
            self.block(nest)
            return
        if k < 3:
            self.p("&")
            if k == 1:
                self.p(self.r.choice([" ", ":hover", " > ", "+"]) if self.chance(1, 2) else "")
                if self.pieces[-1][0] == ":hover":
                    self.ws()
                    self.block(nest)
                    return
        elif k == 3:
            self.p(self.r.choice(["> ", "+", "~"]))
        self.selectors(1)
        self.ws()
        self.block(nest)

    def rule(self, depth):
        r = self.r
        self.ws()
        k = r.randrange(16)
        if k < 9 or depth == 0:
            self.selectors()
            self.ws()
            self.block(2 if self.chance(1, 3) and NESTING else 0)
        elif k < 12:
            self.feats.add("conditional group")
            pre = r.choice(["@media screen and (min-width: 1.5em)", "@media print", "@supports (display: grid) and (not (x: .5))", "@container side (width > 400.5px)", "@layer base", "@layer a.b.c", "@layer", "@supports selector(a > b)",
                            "@media (min-width:.5px), print", "@media not all", "@container style(--x: .a)", "@MEDIA screen", "@Supports (a:b)", "@starting-style", "@container (width>=10em) and (height>.5em)", "@media/**/screen", "@layer/* .a */x", "@media (2.5 < aspect-ratio)"])
            self.p(pre)
            self.ws()
            self.p("{")
            for _ in range(r.randrange(4)):
                self.rule(depth - 1)
            self.ws()
            self.p("}")
        elif k == 12:
            self.feats.add("scope")
            self.p(r.choice(["@scope", "@SCOPE"]))
            if self.chance(3, 4):
                self.p(" (")
                self.selectors(1)
                self.p(")")
                if self.chance(1, 2):
                    self.p(" to (")
                    self.selectors(1)
                    self.p(")")
            self.ws()
            self.p("{")
            for _ in range(r.randrange(3)):
                self.rule(depth - 1)
            self.ws()
            self.p("}")
        else:
            self.feats.add("other at-rule")
            self.p(r.choice([
                "@keyframes x { from { top: .5px } 50.5% { top: 1.5px; } to { top: 0 } }", "@keyframes 'a.b' { 0% { } 100% { } }", "@font-face { font-family: x; src: url(a.b.woff) format('woff2'), url(c.d); }",
                "@page :first { margin: .5in; @top-left { content: '.x' } }", "@property --x { syntax: '<number>'; inherits: false; initial-value: .5 }", "@layer a.b, c;", "@layer x;",
                "@font-feature-values Font One { @styleset { nice-style: 12 } }", "@counter-style y { system: cyclic; symbols: '.' }", "@import url(a.b.css);", "@import 'x.y.css' layer(a.b) supports(c: .5);",
                "@namespace svg url(http://www.w3.org/2000/svg);", "@import url(\"q.css\") screen and (orientation: landscape);", "@-webkit-keyframes z{0%{}}", "@view-transition { navigation: auto }", "@color-profile --p { src: url(a.icc) }",
                "@font-palette-values --id { font-family: B.c }", "@namespace \"a.b\";", "@page wide.x { size: 1.5in }"]))

    def build(self):
        r = self.r
        if self.chance(1, 30):
            self.p('@charset "utf-8";')
        if self.chance(1, 40):
            self.p("\ufeff".replace("\ufeff", ""), "<!--")
        for _ in range(r.randrange(1, 2 + self.size)):
            self.rule(2)
        if self.chance(1, 40):
            self.p(" -->")
        self.ws()
        return self


NESTING = True


def lit(r, s):
    """a Rust literal with the value s"""
    if r.randrange(3) or "\r" in s:
        out = '"'
        for c in s:
            k = r.randrange(40)
            if c in '"\\':
                out += "\\" + c
            elif c == "\n" and k < 20:
                out += "\\n"
            elif c == "\r":
                out += "\\r"
            elif k == 0:
                out += "\\u{%x}" % ord(c)
            elif c == " " and out.endswith("\n"):
                out += c
            else:
                out += c
        return out + '"'
    h = "#"
    while '"' + h in s:
        h += "#"
    return "r%s\"%s\"%s" % (h, s, h)


def unlit(t):
    """value of a Rust string literal as rustc prints it"""
    m = re.match(r'r(#*)"(.*)"\1$', t, re.S)
    if m:
        return m.group(2)
    t = t[1:-1]

    def f(m):
        x = m.group(0)
        if x[1] == "u":
            return chr(int(x[3:-1].replace("_", ""), 16))
        if x[1] == "x":
            return chr(int(x[2:], 16))
        if x[1] == "\n":
            return ""
        return {"n": "\n", "t": "\t", "r": "\r", "0": "\0"}.get(x[1], x[1])
    return re.sub(r"\\(?:u\{[0-9a-fA-F_]+\}|x[0-9a-fA-F]{2}|\n\s*|.)", f, t, flags=re.S)


NODE = r"""
const vm = require('vm'), fs = require('fs');
const jobs = JSON.parse(fs.readFileSync(process.argv[2], 'utf8'));
const out = jobs.map(js => {
  const made = [], head = [];
  const element = t => ({ tag: t, innerHTML: '', set textContent(x) { this.innerHTML = x }, get textContent() { return this.innerHTML }, append(...x) { for (const y of x) this.innerHTML += y }, appendChild(x) { this.innerHTML += x.data ?? ''; return x } });
  const document = { createElement: t => { const e = element(t); made.push(e); return e }, createTextNode: data => ({ data }),
    head: { appendChild: e => { head.push(e); return e }, append: (...e) => { head.push(...e) }, insertBefore: e => { head.push(e); return e } }, querySelector: () => document.head };
  try {
    vm.runInNewContext('"use strict";' + js.replace(/^(\s*)export\s+(default\s+)?/gm, '$1'), { document });
    const styles = head.filter(e => e.tag.toLowerCase() === 'style');
    return { sheets: styles.map(e => e.innerHTML) };
  } catch (e) { return { error: String(e) } }
});
fs.writeFileSync(process.argv[3], JSON.stringify(out));
"""


def near(r, s):
    """another sheet which differs in one class name"""
    ix = [i for i, (t, n) in enumerate(s.pieces) if n and t == n]
    if not ix:
        return None
    i = r.choice(ix)
    old = s.pieces[i][1]
    new = old[:-1] + ("q" if old[-1] != "q" else "k") if len(old) > 1 else r.choice("rstuv")
    if s.key(new) in s.consts or not s.key(new) or new in KEYWORDS or new in NO_RAW:
        return None
    t = Sheet(r, s.size)
    t.pieces = [(new, new) if n == old else (x, n) for x, n in s.pieces]
    if any(n == old and x != old for x, n in s.pieces):
        return None
    t.consts = dict(s.consts)
    t.feats = s.feats | {"near duplicate"}
    return t


TWINS = [("p{left:1px}", "p{left:2px}"), ("p{content:'a b'}", "p{content:'a  b'}"), ("p{content:'ab'}", "p{content:'ba'}"), ("p{content:'A'}", "p{content:'a'}"), ("p{left:1px}", "p{left:-1px}"),
         ("p{content:''}", "p{content:' '}"), ("p{}", "p{;}"), ("p{left:0}q{left:0}", "q{left:0}p{left:0}"), ("p{}", "P{}"), ("/* a */p{}", "/* b */p{}"), ("p{}", "/**/p{}"), ("p{}", "p {}"),
         ("p{--x:a}", "p{--x: a}"), ("p{--x:10}", "p{--x:010}"), ("p{left:0;top:1px}", "p{top:1px;left:0}"), ("p{}", "p{}p{}"), ("p{left:1px}", "p{left:1px;}"), ("p{--x:'\u00e9'}", "p{--x:'e\u0301'}"),
         ("p{--x:a}", "p{--x:\u0430}"), ("p{--x:'\\\\'}", "p{--x:'\\\\\\\\'}"), ("p{}", "p{\n}"), ("p{\n}", "p{\t}"), ("p{--x:123456789012345678}", "p{--x:123456789012345679}")]


def twins(r, s):
    """sheets which differ from each other, and from s, in a detail that has nothing to do with classes"""
    def made(pieces):
        t = Sheet(r, s.size)
        t.pieces, t.consts, t.feats = pieces, s.consts, s.feats | {"twins"}
        return t
    k = r.randrange(6)
    if k < 4:
        head = k < 2 and not s.pieces[0][0].startswith("@charset")
        return [made([(x, None)] + s.pieces if head else s.pieces + [(x, None)]) for x in r.choice(TWINS)]
    if k == 4:
        blank = [i for i, (t, n) in enumerate(s.pieces) if n is None and t in (" ", "\n", "\t", "  ")]
        if blank:
            i = r.choice(blank)
            return [made(s.pieces[:i] + [(r.choice([x for x in (" ", "\n", "\t", "  ", "\t ") if x != s.pieces[i][0]]), None)] + s.pieces[i + 1:])]
    # the whole sheet twice, three times
    return [made(s.pieces * 2), made(s.pieces * 3)]


def generate(seed, count):
    r = random.Random(seed)
    sheets = []
    while len(sheets) < count:
        s = Sheet(r, 1 + 8 * len(sheets) // count).build()
        sheets.append(s)
        if r.randrange(12) == 0:
            t = near(r, s)
            if t:
                sheets.append(t)
        if r.randrange(8) == 0 and any(n for _, n in s.pieces):
            sheets += twins(r, s)
        if r.randrange(25) == 0:
            t = Sheet(r, s.size)
            t.pieces, t.consts, t.feats = s.pieces, s.consts, s.feats | {"same sheet again"}
            sheets.append(t)
    return sheets


class Broken(Exception):
    """the compiler rejects an invocation"""


def program(sheets, r, order=None):
    lines, where = [], {}
    for i in (order or range(len(sheets))):
        s = sheets[i]
        text = "".join(t for t, _ in s.pieces)
        l = "pub mod m%d { ::async_ui_web::css!(%s%s); }" % (i, lit(r, text), "," if False else "")
        if i % 7 == 3:
            l = "pub mod m%d { use ::async_ui_web::css; css! { %s } }" % (i, lit(r, text))
        start = len(lines) + 1
        lines += l.split("\n")
        names = sorted({s.ident(n) for _, n in s.pieces if n} - {None})
        # use every constant whose name is determined
        lines.append("pub fn f%d() -> [&'static str; %d] { [%s] }" % (i, len(names), ", ".join("m%d::%s%s" % (i, "r#" if n in KEYWORDS else "", n) for n in names)))
        where[i] = (start, len(lines))
    return "\n".join(lines) + "\n", where


def shorten(s, n=400):
    t = "".join(x for x, _ in s.pieces)
    return repr(t if len(t) <= n else t[:n] + "...")


def judge(sheets, expanded, scratch):
    """compare the expansion with the pieces; list of (index, message), coverage"""
    starts = [(m.start(), int(m.group(1))) for m in re.finditer(r"(?m)^pub mod m(\d+) \{", expanded)]
    starts.append((len(expanded), -1))
    got = {}
    for (a, i), (b, _) in zip(starts, starts[1:]):
        got[i] = expanded[a:b]
    bad, jobs, who = [], [], []
    cov = {}
    consts = {}
    strre = re.compile(r'r(#+)"(?:.*?)"\1|r"[^"]*"|"(?:[^"\\]|\\.)*"', re.S)
    for i, s in enumerate(sheets):
        part = got.get(i)
        if part is None:
            bad.append((i, "HARNESS: no expansion found"))
            continue
        cs = {}
        for m in re.finditer(r"pub const ((?:r#)?\w+)\s*:\s*&(?:'static )?str\s*=\s*", part):
            l = strre.match(part, m.end())
            cs.setdefault(m.group(1).replace("r#", ""), []).append(unlit(l.group(0)))
        js = None
        m = re.search(r"const __INLINE_JS_\w+\s*:\s*&(?:'static )?str\s*=\s*", part)
        if m:
            l = strre.match(part, m.end())
            js = unlit(l.group(0)) if l else None
        if js is None:
            bad.append((i, "no style sheet is put on the page"))
            continue
        consts[i] = cs
        jobs.append(js)
        who.append(i)
    jf, of, nf = (os.path.join(scratch, x) for x in ("jobs.json", "out.json", "run.js"))
    json.dump(jobs, open(jf, "w"))
    open(nf, "w").write(NODE)
    subprocess.run(["node", nf, jf, of], check=True, timeout=300)
    postfixes = {}
    norm = lambda t: t.replace("\r\n", "\n").replace("\r", "\n")
    for i, res in zip(who, json.load(open(of))):
        s = sheets[i]
        want_names = {n for _, n in s.pieces if n}
        src = "".join(t for t, _ in s.pieces)
        if "error" in res:
            bad.append((i, "the generated script fails: %s" % res["error"]))
            continue
        if len(res["sheets"]) != 1:
            bad.append((i, "%d style sheets are put on the page" % len(res["sheets"])))
            continue
        sheet = res["sheets"][0]
        cs = consts[i]
        values = sorted(v for vs in cs.values() for v in vs)
        # the postfix: what follows the first class's name
        post = None
        if want_names:
            n0 = next(n for _, n in s.pieces if n)
            cand = [v for v in values if v.startswith(n0) and not any(v.startswith(o) and len(o) > len(n0) for o in want_names)]
            cand = {v[len(n0):] for v in cand}
            ok = [p for p in cand if sorted(n + p for n in want_names) == values]
            if not ok:
                bad.append((i, "constants %r are not the classes %r with one postfix" % (cs, sorted(want_names))))
                continue
            post = ok[0]
            if not re.fullmatch(r"[A-Za-z0-9_-]+", post):
                bad.append((i, "postfix %r cannot be part of a class name" % post))
                continue
        elif values:
            bad.append((i, "constants %r although the sheet has no class" % cs))
            continue
        want = "".join(t if n is None else join_post(t, post) for t, n in s.pieces)
        if norm(sheet) != norm(want):
            k = next((k for k, (a, b) in enumerate(zip(norm(sheet), norm(want))) if a != b), min(len(norm(sheet)), len(norm(want))))
            bad.append((i, "the style sheet on the page differs at %d: ...%r..., expected ...%r..." % (k, norm(sheet)[max(0, k - 30):k + 40], norm(want)[max(0, k - 30):k + 40])))
            continue
        for n in want_names:
            c = s.ident(n)
            if c is not None and cs.get(c) != [n + post]:
                import unicodedata
                if [n + post] != cs.get(unicodedata.normalize("NFC", c)):
                    bad.append((i, "constant %s is %r, expected %r" % (c, cs.get(c), n + post)))
        if post is not None:
            if postfixes.setdefault(src, post) != post:
                bad.append((i, "the same sheet got the postfixes %r and %r" % (postfixes[src], post)))
        for f in s.feats:
            cov["sheets with " + f] = cov.get("sheets with " + f, 0) + 1
        cov["sheets"] = cov.get("sheets", 0) + 1
        cov["class selectors"] = cov.get("class selectors", 0) + sum(1 for _, n in s.pieces if n)
        cov["constants"] = cov.get("constants", 0) + len(values)
        cov["max:sheet bytes"] = max(cov.get("max:sheet bytes", 0), len(src.encode()))
    seen = {}
    for src, post in postfixes.items():
        if post in seen:
            i = next(k for k, s in enumerate(sheets) if "".join(t for t, _ in s.pieces) == src)
            bad.append((i, "two different sheets share the postfix %r; the other is %r" % (post, seen[post][:200])))
        seen[post] = src
    return bad, cov, postfixes


def join_post(spelled, post):
    """the spelled identifier followed by the postfix.  A hexadecimal escape at the end is
    terminated by its own space or its sixth digit; the postfix starts with a dash."""
    return spelled + post


def run_round(seed, count, cargo, scratch, target, tag):
    """cargo(args, env) -> (returncode, stdout, stderr).  One crate of `count` sheets:
    compiled, expanded, judged; a part of it expanded again in another process."""
    r = random.Random(seed * 7 + 1)
    sheets = generate(seed, count)
    src = os.path.join(scratch, "css_%s.rs" % tag)
    text, where = program(sheets, r)
    open(src, "w").write(text)
    rc, out, err = cargo(["rustc", "--offline", "--lib", "--message-format=json", "--", "--cfg", "round_%s" % tag, "-Awarnings"], src)
    bad = []
    if rc != 0:
        loose = []
        for l in out.splitlines():
            if not l.startswith("{"):
                continue
            m = json.loads(l)
            msg = m.get("message")
            if m.get("reason") != "compiler-message" or msg.get("level") != "error":
                continue
            hit = None
            spans = list(msg["spans"])
            for sp in list(spans):
                e = sp.get("expansion")
                while e:
                    spans.append(e["span"])
                    e = e["span"].get("expansion")
            for sp in spans:
                if os.path.basename(sp["file_name"]) == os.path.basename(src):
                    hit = next((i for i, (a, b) in where.items() if a <= sp["line_start"] <= b), hit)
            if hit is None:
                loose.append(msg["rendered"])
            else:
                bad.append((hit, "the compiler rejects it: " + msg["message"]))
        if not bad:
            raise Broken("\n".join(loose) or err[-3000:])
        return sheets, bad, {}
    outs = []
    some = r.sample(range(len(sheets)), min(80, len(sheets)))
    for k, order in ((0, None), (1, some)):
        src2 = os.path.join(scratch, "css_%s_x%d.rs" % (tag, k))
        open(src2, "w").write(text if order is None else program(sheets, r, order)[0])
        rc, out, err = cargo(["rustc", "--offline", "--lib", "--", "--cfg", "expand%d_%s" % (k, tag), "-Awarnings", "-Zunpretty=expanded"], src2)
        if rc != 0:
            raise Broken("expansion failed: " + err[-3000:])
        outs.append(out)
    bad, cov, post = judge(sheets, outs[0], scratch)
    sub = [sheets[i] for i in some]
    again = outs[1]
    for new, old in enumerate(some):
        again = again.replace("pub mod m%d {" % old, "pub mod n%d {" % new)
    bad2, _, post2 = judge(sub, again.replace("pub mod n", "pub mod m"), scratch)
    bad += [(some[i], "in another compilation: " + m) for i, m in bad2]
    for s, p in post2.items():
        if post.get(s) != p:
            i = next(k for k, x in enumerate(sheets) if "".join(t for t, _ in x.pieces) == s)
            bad.append((i, "the postfix is %r in one compilation and %r in another" % (post.get(s), p)))
    return sheets, bad, cov


if __name__ == "__main__":
    import sys
    root = os.path.dirname(os.path.abspath(__file__))
    sc = os.environ.get("SC", "/tmp/w/css")
    os.makedirs(sc, exist_ok=True)

    def cargo(args, src):
        e = dict(os.environ, CARGO_NET_OFFLINE="true", CSS_SRC=src, CARGO_TARGET_DIR=os.environ.get("TD", "/tmp/tgtc"), RUSTC_BOOTSTRAP="1", RUSTUP_TOOLCHAIN="stable")
        p = subprocess.run(["cargo"] + args, cwd=root + "/harness/css", env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
        return p.returncode, p.stdout, p.stderr
    seed, n = int(sys.argv[1]), int(sys.argv[2])
    try:
        sheets, bad, cov = run_round(seed, n, cargo, sc, None, "%d_%d" % (seed, os.getpid()))
    except Broken as b:
        print("BROKEN", str(b)[-3000:])
        sys.exit(1)
    print(json.dumps(cov))
    print(len(bad), "bad")
    for i, m in bad[:int(os.environ.get("T", "8"))]:
        print(i, m[:600], "\n   ", shorten(sheets[i]), sheets[i].feats)
