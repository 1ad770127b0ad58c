"""Reference models, written from the documentation and the stated properties."""
import re

REF = re.compile(r"\$\{([A-Za-z0-9_ ().\-]*)(?::-([^}]*))?\}", re.S)


def expand(text, overrides, environment):
    """Single-pass expansion of ${NAME} and ${NAME:-default}; overrides (unless None) come before the environment."""
    def value(m):
        v = overrides.get(m.group(1))
        if v is None:
            v = environment.get(m.group(1))
        if v is None:
            v = m.group(2) or ""
        return v
    return REF.sub(value, text)


def references(text):
    return list(REF.finditer(text))


# -- configuration files

class Reject(Exception):
    """The configuration must be rejected."""


class Unspecified(Exception):
    """The documentation does not say what this input means."""


ESC = {'"': '"', "\\": "\\", "'": "'", "b": "\b", "t": "\t", "n": "\n", "f": "\f", "r": "\r", "0": "\0"}
HEX = "0123456789abcdefABCDEF"


class Parser:
    """An independent reading of the documented format: a line scanner over tokens.

    Raises Reject for what must be rejected and Unspecified where the documentation leaves the meaning open.
    """

    def __init__(self, text, environment):
        self.t, self.at, self.environment = text, 0, environment
        if "\0" in text:
            raise Unspecified("NUL")
        self.unspecified = None

    def vague(self, why):
        # What comes later may still have to be rejected, but then nothing is known about where
        raise Unspecified(why)

    def blanks(self):
        while self.at < len(self.t) and self.t[self.at] in " \t":
            self.at += 1

    def atEnd(self):
        """At the end of the line (or a comment)? Consumes through the line end."""
        self.blanks()
        rest = self.t[self.at:]
        if rest[:1] == "#":
            n = rest.find("\n")
            self.at = len(self.t) if n < 0 else self.at + n + 1
            return True
        if rest[:1] == "":
            return True
        if rest[:1] == "\n":
            self.at += 1
            return True
        if rest[:2] == "\r\n":
            self.at += 2
            return True
        if rest[0] in "\r\v\f":
            self.vague("control whitespace")
        return False

    def expand(self, run):
        """run: [(raw text, kind)] of adjacent unquoted / double-quoted pieces, already decoded."""
        text = "".join(p for p, _ in run)
        if "${" not in text:
            return text
        separate = "".join(expand(p, {}, self.environment) for p, _ in run)
        whole = expand(text, {}, self.environment)
        if separate != whole or any(escaped for _, escaped in run):
            self.vague("a reference made of several pieces or of escape sequences")
        return whole

    def string(self, stop=""):
        """One string; None if there is none here."""
        out, run, any_ = [], [], False
        t = self.t
        while self.at < len(t):
            c = t[self.at]
            if c in " \t\n\r\v\f#" or c in stop:
                break
            any_ = True
            if c == "'":
                out.append(self.expand(run))
                run = []
                i = self.at + 1
                value = ""
                while True:
                    j = t.find("'", i)
                    if j < 0:
                        raise Reject("unterminated string")
                    value += t[i:j]
                    if t[j + 1:j + 2] != "'":
                        break
                    value += "'"
                    i = j + 2
                out.append(value)
                self.at = j + 1
            elif c == '"':
                value, i, special = "", self.at + 1, False
                while True:
                    if i >= len(t):
                        raise Reject("unterminated string")
                    if t[i] == '"':
                        if t[i + 1:i + 2] != '"':
                            break
                        value += '"'
                        i += 2
                    elif t[i] == "\\":
                        e = t[i + 1:i + 2]
                        if e == "x":
                            h = t[i + 2:i + 4]
                            if len(h) < 2 or h[0] not in HEX or h[1] not in HEX:
                                raise Reject("bad hexadecimal escape")
                            value += chr(int(h, 16))
                            special |= int(h, 16) in (0, 0x24, 0x7b, 0x7d)
                            i += 4
                        elif e and e in ESC:
                            value += ESC[e]
                            special |= e == "0"
                            i += 2
                        else:
                            raise Reject("bad escape sequence")
                    else:
                        value += t[i]
                        i += 1
                run.append((value, special))
                self.at = i + 1
            else:
                i = self.at
                while i < len(t) and t[i] not in " \t\n\r\v\f#'\"" and t[i] not in stop:
                    i += 1
                run.append((t[self.at:i], False))
                self.at = i
        out.append(self.expand(run))
        return "".join(out) if any_ else None


def parseConfiguration(text, environment, working, resolve):
    """{base, timeout, commands, hosts}; working: absolute directory of the file; resolve: relative base (a str) -> absolute path, or None if it does not exist."""
    p = Parser(text, environment)
    base, timeout = working, 30000
    hosts, commands = {}, {}
    sections = []
    vague = None
    # settings
    while True:
        if p.atEnd():
            if p.at >= len(p.t):
                break
            continue
        if p.t[p.at] == "[":
            break
        key = p.string("=")
        p.blanks()
        equals = p.t[p.at:p.at + 1] == "="
        value = None
        if equals:
            p.at += 1
            p.blanks()
            value = p.string()
        if key not in ("baseDirectory", "connectTimeoutMs"):
            # Surplus text and unknown settings are both errors
            raise Reject("unknown setting")
        if not p.atEnd():
            if value is None and p.t[p.at] != "=" and not equals:
                raise Reject("surplus text")
            raise Reject("surplus text")
        if value is None:
            if key == "connectTimeoutMs":
                raise Reject("timeout")
            p.vague("no value")
        if key == "baseDirectory":
            if value == "" or "\0" in value:
                p.vague("empty directory")
            if value.startswith("/"):
                base = normalize(value)
            else:
                base = resolve(value)
                if base is None:
                    p.vague("missing base directory")
        else:
            if re.fullmatch(r"[+-]?[0-9]+", value):
                timeout = int(value)
                if not -2 ** 63 <= timeout < 2 ** 63:
                    raise Reject("timeout out of range")
            elif re.match(r"[ \t\n\v\f\r]*[+-]?[0-9]", value):
                p.vague("timeout with extra characters")
            else:
                raise Reject("timeout")
        if p.at >= len(p.t):
            break
    nextPort = 1120
    current = None
    while True:
        if p.atEnd():
            if p.at >= len(p.t):
                break
            continue
        if p.t[p.at] == "[":
            p.at += 1
            p.blanks()
            name = p.string("]")
            p.blanks()
            if not name:
                raise Reject("nameless section")
            if p.t[p.at:p.at + 1] != "]":
                raise Reject("unclosed section")
            p.at += 1
            options = []
            while not p.atEnd():
                options.append(p.string())
            host, colon, port = name.partition(":")
            if host == "":
                p.vague("nameless section with a port")
            if colon:
                if not re.fullmatch(r"[0-9]+", port):
                    raise Reject("port")
                nextPort = int(port)
            if nextPort > 65535:
                raise Reject("port out of range")
            shared = []
            while options:
                o = options[0]
                if o.startswith("--") or "=" not in o[1:]:
                    break
                if o.startswith("-"):
                    p.vague("short option with an equals sign")
                i = o.index("=", 1)
                shared.append([o[:i], o[i + 1:]])
                options.pop(0)
            if options and options[0].startswith("="):
                p.vague("option starting with an equals sign")
            current = {"host": host, "port": nextPort, "options": options, "shared": shared}
            sections.append(current)
            nextPort += 1
        else:
            tokens = []
            while not p.atEnd():
                tokens.append(p.string())
            name = tokens[0]
            variables = [list(v) for v in current["shared"]]
            i = 1
            while i < len(tokens) and "=" in tokens[i][1:]:
                k = tokens[i].index("=", 1)
                variables.append([tokens[i][:k], tokens[i][k + 1:]])
                i += 1
            if i < len(tokens) and tokens[i].startswith("="):
                p.vague("executable starting with an equals sign")
            exe = tokens[i:] or [name]
            c = {"name": name, "host": current["host"], "port": current["port"], "options": current["options"], "env": variables, "exe": exe}
            commands[name] = c
            hosts.setdefault(current["host"], {})[name] = c
        if p.at >= len(p.t):
            break
    return {"base": base, "timeout": timeout, "commands": commands, "hosts": hosts, "sections": sections}


# -- paths

def components(path):
    return [c for c in path.split("/") if c not in ("", ".")]


def normalize(path):
    absolute = path.startswith("/")
    out = []
    for c in components(path):
        if c == ".." and out and out[-1] != "..":
            out.pop()
        elif c == ".." and absolute:
            pass
        else:
            out.append(c)
    return ("/" if absolute else "") + "/".join(out)


# -- debug selection

def selected(setting, module):
    if setting is None:
        return False
    entries = [e.strip(" \t\n\v\f\r") for e in re.split("[,;]", setting)]
    fold = lambda s: "".join(chr(ord(c) - 32) if "a" <= c <= "z" else c for c in s)
    return any(e and fold(e) in (fold(module), "ALL") for e in entries)
