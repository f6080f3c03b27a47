"""Independent reference model of the tagged-token wire format (the spec).

A character-level automaton, written from the format description; it shares
no code and no structure with tn/token_parser.py.  The same automaton is used
as the specification of the deductive proof (contracts/token_parser.py).
"""
KEYCHARS = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_"


class Malformed(Exception):
    pass


def parse(text):
    """[(name, [(key, value)...], start, end)] or raises Malformed."""
    if text == "":
        raise Malformed("empty")
    mode, acc, key, start, fields, name = "between", "", None, None, [], None
    tokens = []
    for i, c in enumerate(text):
        if mode == "between":
            if c == " ":
                continue
            if c not in KEYCHARS:
                raise Malformed("name expected at %d" % i)
            mode, acc, start = "name", c, i
        elif mode == "name":
            if c in KEYCHARS:
                acc += c
            elif c == " ":
                mode, name = "open1", acc
            else:
                raise Malformed("after name at %d" % i)
        elif mode == "open1":
            if c != "{":
                raise Malformed("{ expected at %d" % i)
            mode = "open2"
        elif mode == "open2":
            if c != " ":
                raise Malformed("space expected at %d" % i)
            mode, fields = "fields", []
        elif mode == "fields":
            if c == " ":
                continue
            if c == "}":
                tokens.append((name, fields, start, i + 1))
                mode = "between"
            elif c in KEYCHARS:
                mode, acc = "key", c
            else:
                raise Malformed("field expected at %d" % i)
        elif mode == "key":
            if c in KEYCHARS:
                acc += c
            elif c == ":":
                mode, key = "colon1", acc
            else:
                raise Malformed("after key at %d" % i)
        elif mode == "colon1":
            if c != " ":
                raise Malformed("space expected at %d" % i)
            mode = "colon2"
        elif mode == "colon2":
            if c != '"':
                raise Malformed("quote expected at %d" % i)
            mode, acc = "value", ""
        elif mode == "value":
            if c == '"':
                if key in [k for k, _ in fields]:
                    raise Malformed("repeated field")
                fields.append((key, acc))
                mode = "fields"
            elif c == "\\":
                mode = "escape"
            else:
                acc += c
        elif mode == "escape":
            acc += c if c in '"\\' else "\\" + c
            mode = "value"
    if mode != "between":
        raise Malformed("unterminated in " + mode)
    return tokens


def escape(value):
    return "".join("\\" + c if c in '"\\' else c for c in value)


def order_of(name, fields, orders):
    keys = [k for k, _ in fields]
    if name not in orders or dict(fields).get("preserve_order") == "true":
        return keys
    canonical = orders[name]
    return [k for k in canonical if k in keys] + [k for k in keys if k not in canonical]


def serialize(name, fields):
    return name + " {" + "".join(' %s: "%s"' % (k, escape(v)) for k, v in fields) + " }"


def reorder(text, orders):
    out, spans, pos = [], [], 0
    for name, fields, _, _ in parse(text):
        d = dict(fields)
        s = serialize(name, [(k, d[k]) for k in order_of(name, fields, orders)])
        spans.append((pos, pos + len(s)))
        pos += len(s) + 1
        out.append(s)
    return " ".join(out), tuple(spans)


# ------------------------------------------------------------ case generation
NAMES = ["date", "money", "time", "a", "Z_z", "measure", "x"]
KEYS = ["year", "month", "day", "value", "currency", "preserve_order", "k", "K", "_", "extra", "noon", "hour"]
CHARS = ['"', "\\", "{", "}", " ", ":", "\n", "\t", "a", "n", "€", "中", "😀", "\u00a0", "\x00", "'", ",", "true", "E", "<EOS>"]


def value(rng):
    k = rng.random()
    if k < 0.1:
        return rng.choice(["", "true", "false", "\\", '"', "\\\\", '\\"', '"\\', '" k: "', '" } x { y: "', "<EOS>", "\\n"])
    return "".join(rng.choice(CHARS) for _ in range(rng.randint(0, 6)))


def tokens(rng, maxn=3):
    out = []
    for _ in range(rng.randint(1, maxn)):
        keys = rng.sample(KEYS, rng.randint(0, 5))
        out.append((rng.choice(NAMES), [(k, "true" if k == "preserve_order" and rng.random() < 0.6 else value(rng)) for k in keys]))
    return out


def loose(rng, toks):
    """A stream denoting toks with free optional spacing and lazy escapes."""
    s = " " * rng.choice([0, 0, 1, 2])
    for name, fields in toks:
        s += name + " { " + " " * rng.choice([0, 0, 1])
        for k, v in fields:
            body = ""
            for i, c in enumerate(v):
                nxt = v[i + 1] if i + 1 < len(v) else None
                if c == "\\" and nxt is not None and nxt not in '"\\' and rng.random() < 0.4:
                    body += "\\"
                else:
                    body += escape(c)
            s += "%s: \"%s\"" % (k, body) + " " * rng.choice([0, 1, 1, 2])
        s += "}" + " " * rng.choice([0, 1, 1, 2])
    return s


def mutate(rng, s):
    ops = rng.randint(1, 2)
    for _ in range(ops):
        if not s:
            return s
        i = rng.randrange(len(s))
        k = rng.randrange(5)
        c = rng.choice('"\\{} :a_1\n\t}') 
        if k == 0:
            s = s[:i] + s[i + 1:]
        elif k == 1:
            s = s[:i] + c + s[i:]
        elif k == 2:
            s = s[:i] + c + s[i + 1:]
        elif k == 3:
            s = s[:i]
        else:
            j = rng.randrange(len(s))
            i, j = min(i, j), max(i, j)
            s = s[:j] + s[i:j] + s[j:]
    return s
