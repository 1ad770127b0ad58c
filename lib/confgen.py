"""Hypothesis strategies for configuration strings and whole configuration files."""
from hypothesis import strategies as st

NAMED = {"\b": "b", "\t": "t", "\n": "n", "\f": "f", "\r": "r", "\0": "0", '"': '"', "\\": "\\", "'": "'"}
WHITE = "\t\n\v\f\r "
anyChar = st.characters(min_codepoint=1, max_codepoint=255)
lively = st.sampled_from(list("'\"\\#=[]:$ \t\n\r\b\f-?.,;/{}%*~!") + ["a", "Z", "0", "x", "\x7f", "\x80", "\xff"])


def unquotedChar(stop=""):
    bad = set(WHITE + "'\"#{" + stop)
    return st.one_of(st.sampled_from([c for c in "abcXYZ019-_./:,;?=[]\\$%~!@&*()<>|^+`}\x01\x1b\x7f\x80\xff" if c not in bad]),
                     anyChar.filter(lambda c: c not in bad))


def pieces(stop="", first="", nul=False, min_size=1, max_size=4, alphabet=None):
    """A string as a list of pieces: ["u", text], ["s", text] or ["d", [[char, style], ...]]. No ${ outside single quotes."""
    chars = st.one_of(anyChar, lively) if alphabet is None else st.sampled_from(alphabet)
    if alphabet is None:
        un = st.text(unquotedChar(stop), min_size=1, max_size=8)
    else:
        ok = [c for c in alphabet if c not in WHITE + "'\"#{" + stop]
        un = st.text(st.sampled_from(ok), min_size=1, max_size=8)
    u = un.map(lambda t: ["u", t])
    s = st.text(chars, max_size=10).map(lambda t: ["s", t])
    dc = st.one_of(chars, st.just("\0")) if nul else chars
    d = st.lists(st.tuples(dc, st.integers(0, 3)), max_size=10).map(lambda l: ["d", [[c if c != "{" else "(", k] for c, k in l]])
    long = st.tuples(st.sampled_from("usd"), st.sampled_from("ab\xe9" if alphabet is None else alphabet[:1]), st.integers(15, 3000)).map(lambda t: [t[0], t[1] * t[2]] if t[0] != "d" else ["d", [[t[1], 0]] * (t[2] // 10 + 1)])
    one = st.one_of(u, s, d, u, s, d, u, s, d, long)

    def fix(l):
        out = []
        for p in l:
            if out and out[-1][0] == p[0]:
                out[-1] = [p[0], out[-1][1] + p[1]]
            else:
                out.append(p)
        if first and out[0][0] == "u" and out[0][1][0] in first:
            out[0] = ["u", "z" + out[0][1]]
        return out
    return st.lists(one, min_size=min_size, max_size=max_size).map(fix)


def quotedChar(c, style):
    if style == 3 or c == "\0" and style == 2:
        return "\\x%02x" % ord(c)
    if style == 2 and ord(c) > 127:
        return "\\x%02X" % ord(c)
    if c == '"':
        return '""' if style == 0 else '\\"'
    if c == "\\":
        return "\\\\"
    if c == "\0":
        return "\\0"
    if style == 1 and c in NAMED:
        return "\\" + NAMED[c]
    return c


def render(ps):
    out = ""
    for kind, t in ps:
        if kind == "u":
            out += t
        elif kind == "s":
            out += "'" + t.replace("'", "''") + "'"
        else:
            out += '"' + "".join(quotedChar(c, k) for c, k in t) + '"'
    return out


def denoted(ps):
    return "".join(t if kind != "d" else "".join(c for c, _ in t) for kind, t in ps)


# -- layout

blank = st.sampled_from([" ", " ", " ", "\t", "  ", " \t ", "   "])
optBlank = st.sampled_from(["", "", "", " ", "\t", "  "])
comment = st.one_of(st.sampled_from(["#", "# comment", "#'", '#"unclosed', "# [x]", "# a = b", "#\\", "# ${X", "##"]),
                    st.text(anyChar.filter(lambda c: c not in "\n"), max_size=12).map(lambda t: "#" + t))
eol = st.sampled_from(["\n", "\n", "\n", "\r\n"])


@st.composite
def lineEnd(draw):
    out = draw(st.sampled_from(["", "", "", " ", "\t", " \t"]))
    if draw(st.integers(0, 4)) == 0:
        out += draw(comment).rstrip("\r")  # Even without a blank in front of it
    out += draw(eol)
    for _ in range(draw(st.sampled_from([0, 0, 0, 1, 2]))):
        out += draw(st.sampled_from(["", " ", "\t"]))
        if draw(st.booleans()):
            out += draw(comment).rstrip("\r")
        out += draw(eol)
    return out


def joined(draw, parts):
    out = parts[0]
    for p in parts[1:]:
        out += draw(blank) + p
    return out


# -- whole files, not always well-formed

NAMES = ["a", "b", "srv", "B", "a b", "x.y", "host-1", "web"]
COMMANDS = ["c", "gcc", "g++", "C", "my cmd", "c.1", "-x", "--long", "[odd", "k8psh", "tool"]
VARS = ["A", "B", "PATH", "?A", "?OPT", "=A", "=PATH", "X_1", "?", "=", "a.b"]
ENVIRONMENT = {"A": "value of A", "B": "b'\"#=b", "WS": "/work/space", "E": "", "R": "${A}", "PORT": "2222", "NAME": "srv", "X1": "x=1", "REL": "sub/dir", "T": "500"}


def token(text, draw):
    """Some documented form of the plain text (no expansion wanted, or wanted when kept)."""
    style = draw(st.sampled_from(["plain", "s", "d", "mix", "x"]))
    plainOk = text and not set(text) & set(WHITE + "'\"#[]{") and not text.startswith("[")
    if style == "plain" and plainOk:
        return text
    if style == "d" and "${" not in text:
        return '"' + text.replace("\\", "\\\\").replace('"', '\\"') + '"'
    if style == "x" and "${" not in text and text:
        i = draw(st.integers(0, len(text) - 1))
        if text[i] not in "${}":
            q = lambda s: s.replace("\\", "\\\\").replace('"', '""')
            return '"' + q(text[:i]) + "\\x%02x" % ord(text[i]) + q(text[i + 1:]) + '"'
    if style == "mix" and plainOk and len(text) > 1:
        i = draw(st.integers(1, len(text) - 1))
        return text[:i] + "'" + text[i:] + "'"
    return "'" + text.replace("'", "''") + "'"


REFS = ["${A}", "${B}", "${WS}", "${NONE:-dflt}", "${A:-no}", "${E}", "${R}", "x${A}y", "\"${B} ${A}\"", "'${A}'", "${NONE}", "\"${NONE:-two words}\"", "${X1}", "${E:-z}", "'${'A}", "$A", "${A"]
VALUES = ["", "v", "two words", "=", "a=b", "-", "--x", "'", '"', "\\", "#", "tab\there", "new\nline", "\xff\x80", "${A}", "[", "]", "x" * 40, "1120", ":"]


@st.composite
def argument(draw):
    k = draw(st.integers(0, 9))
    if k < 2:
        return draw(st.sampled_from(REFS))
    if k < 5:
        return token(draw(st.sampled_from(VALUES)), draw)
    if k < 8:
        return token(draw(st.text("abcdefgh012-./", min_size=1, max_size=10)), draw)
    return render(draw(pieces()))


@st.composite
def variable(draw):
    n = draw(st.sampled_from(VARS))
    if draw(st.integers(0, 5)) == 0:
        return token(n + "=" + draw(st.sampled_from(VALUES)), draw)
    return n + "=" + draw(st.one_of(st.just(""), argument()))


@st.composite
def settings(draw):
    out = []
    for _ in range(draw(st.sampled_from([0, 1, 1, 2, 3]))):
        eq = draw(optBlank) + "=" + draw(optBlank)
        if draw(st.booleans()):
            v = draw(st.sampled_from(["/", "/base", "/a/../b/./c//d/", ".", "sub", "sub/dir", "../up", "=sub", "=", "a=b", "'=q'", "${WS}", "${WS:-.}", "${NONE:-.}", "'/with space'", '"/q\\x41"', "${REL}", "/x/${A}", "'/${A}'", "./a/../..", "/.."]))
            out.append("baseDirectory" + eq + v)
        else:
            v = draw(st.one_of(st.sampled_from(["0", "-1", "30000", "${T}", "'250'", '"1\\x30"', "2147483648", "9223372036854775807", "-9223372036854775808", "+7", "007", "0100", "08", "00250"]), st.integers(-10, 100000).map(str)))
            out.append("connectTimeoutMs" + eq + v)
    return out


@st.composite
def section(draw):
    name = draw(st.sampled_from(NAMES))
    port = draw(st.one_of(st.none(), st.none(), st.sampled_from(["1120", "80", "0", "1", "65534", "65535", "0080", "2102"]), st.integers(1000, 65000).map(str)))
    text = token(name, draw)
    if port is not None:
        text += ":" + (port if draw(st.integers(0, 4)) else token(port, draw))
    elif draw(st.integers(0, 9)) == 0:
        text = draw(st.sampled_from(["${NAME}", "${NAME}:${PORT}", "${NONE:-web}", "'${A}'"]))
    head = "[" + draw(optBlank) + text + draw(optBlank) + "]"
    rest = [draw(variable()) for _ in range(draw(st.sampled_from([0, 0, 1, 2])))]
    rest += [draw(st.sampled_from(["-k", "--timeout=5", "-t", "7", "--keep-client-executables", "-w", "--pidfile=", "plain", "-e", "'dir name'"])) for _ in range(draw(st.sampled_from([0, 0, 0, 1, 2])))]
    if rest:
        head += draw(optBlank) + joined(draw, rest)
    lines = [head]
    for _ in range(draw(st.sampled_from([0, 1, 1, 2, 3, 4]))):
        n = token(draw(st.sampled_from(COMMANDS)), draw)
        parts = [n] + [draw(variable()) for _ in range(draw(st.sampled_from([0, 0, 1, 2])))]
        if draw(st.booleans()):
            parts += [token(draw(st.sampled_from(["/usr/bin/x", "exe", "with space", "gcc", "./r"])), draw)]
            parts += [draw(st.one_of(argument(), variable())) for _ in range(draw(st.sampled_from([0, 0, 1, 2, 3])))]
        lines.append(draw(st.sampled_from(["", "", "  ", "\t"])) + joined(draw, parts))
    return lines


@st.composite
def document(draw):
    lines = draw(settings())
    for _ in range(draw(st.sampled_from([0, 1, 1, 2, 2, 3, 4]))):
        lines += draw(section())
    out = draw(st.sampled_from(["", "", "\n", "# first\n", "\r\n", " \t\n"]))
    for i, l in enumerate(lines):
        out += l
        out += draw(lineEnd()) if i < len(lines) - 1 or draw(st.integers(0, 3)) else ""
    return out


TOKENS = ["[", "]", "'", '"', "\\", "\\x", "\\x4", "\\xg1", "\\q", "=", "#", "\n", "\r\n", " ", "\t", ":", "${", "}", ":-", "${A}", "[]", "[ ]", "[:]", "[x:]", "[x:65536]", "[x:65535]", "[x:-1]", "[x:1a]", "[x:0x10]",
          "[x:99999999999999999999]", "[x:4294967376]", "[x:65535]\n[y]\n", "[x] 'unclosed", "badKey=1\n", "connectTimeoutMs=x\n", "connectTimeoutMs=\n", "connectTimeoutMs=99999999999999999999\n", "connectTimeoutMs\n",
          "baseDirectory=/a b\n", "baseDirectory='/a\n", 'baseDirectory="/a\\k"\n', "BaseDirectory=/x\n", "''", '""', "\\x00", "\0", "\v", "\xff", "'a''b'", '"a""b"', "\"\\x4\"", "\"\\xz0\"", "\"\\x4g\"", "\"\\u0041\"", '"\\"', "'\\'", "\"\\X41\"", "\"\\a\"", "\"\\1\""]


NOTHEX = "/:@G`gxXzZ \"'\\#-+.hHoOlI\x80\xff\n{"


@st.composite
def badEscape(draw):
    """A configuration that is well-formed but for one escape sequence in one double-quoted string."""
    text = lambda: draw(st.text("abcxyz 09=:/#[]'", max_size=5))
    k = draw(st.integers(0, 3))
    hexDigit = st.sampled_from("0123456789abcdefABCDEF")
    if k == 0:
        e = "\\x" + draw(hexDigit) + draw(st.one_of(st.sampled_from(NOTHEX), anyChar.filter(lambda c: c not in "0123456789abcdefABCDEF")))
    elif k == 1:
        e = "\\x" + draw(st.one_of(st.sampled_from(NOTHEX), anyChar.filter(lambda c: c not in "0123456789abcdefABCDEF"))) + draw(st.one_of(hexDigit, st.just("")))
    elif k == 2:
        e = "\\" + draw(st.one_of(st.sampled_from("aeuUvXBTNFR123789 \n#/[](){}$`"), anyChar.filter(lambda c: c not in "\"\\'btnfr0x")))
    else:
        e = "\\x" + draw(st.sampled_from(["", draw(hexDigit)]))
    bad = '"' + text() + e + text() + '"'
    parts = ["baseDirectory = /w", "[srv:1200]", "S=1", "-k", "cmd", "V=2", "exe", "arg", "arg2"]
    i = draw(st.integers(0, len(parts) - 1))
    if i == 1:
        parts[1] = "[srv" + bad + ":1200]"
    elif i == 0 and draw(st.booleans()):
        parts[0] = "connectTimeoutMs = 1" + bad
    else:
        parts[i] += bad
    return parts[0] + "\n" + " ".join(parts[1:4]) + "\n" + " ".join(parts[4:]) + draw(st.sampled_from(["", "\n", " # end\n"]))


@st.composite
def mutated(draw, doc=None):
    text = draw(document() if doc is None else doc)
    for _ in range(draw(st.sampled_from([0, 1, 1, 1, 2, 3]))):
        i = draw(st.integers(0, len(text)))
        k = draw(st.integers(0, 5))
        if k == 0:
            j = min(len(text), i + draw(st.integers(1, 4)))
            text = text[:i] + text[j:]
        elif k == 1:
            text = text[:i] + draw(st.one_of(lively, anyChar)) + text[i:]
        elif k == 2:
            text = text[:i] + draw(st.sampled_from(TOKENS)) + text[i:]
        elif k == 3:
            text = text[:i]
        elif k == 4:
            # At the start of a line
            starts = [0] + [n + 1 for n, c in enumerate(text) if c == "\n"]
            i = draw(st.sampled_from(starts))
            text = text[:i] + draw(st.sampled_from(TOKENS)) + text[i:]
        else:
            j = min(len(text), i + draw(st.integers(1, 30)))
            at = draw(st.integers(0, len(text)))
            text = text[:at] + text[i:j] + text[at:]
    return text
