"""Hostile texts."""
import shlex

NAMES = ["", "", " x y", "é", "名前", " ß", "+v=1", "@2", "%41", "#z", ",c", "~q", " (p)", " 'n", "-dash", "__", "a.b", "🙂",
         "(p)", "'n", "&d", ";e", "a|b", "<in>", "*", "?w", "[1]", "!", "\tt", "#"]
TEXTS = ["", " ", "a b", "\"", "\\", "\\\\n", "é名🙂", "\t", "a\nb", "{\"k\":1}", "[1,2]", "null", "true", "0", "'", "$HOME", "`id`", "%s%n", "\u0001\u001f", "\u007f",
         "\u2028", "x" * 3000, "/* */", "\\u0041", "a\r\nb", "::", "\u0000z", "\ufffd", "1e999", "-0"]


def name(rng):
    return rng.choice([n for n in NAMES if n != "a.b"])


def flagtext(prefix="-D"):
    def f(rng, k, n):
        t = rng.choice([x for x in TEXTS if "\0" not in x])
        style = rng.random()
        body = "%s%s_%d=%s" % (prefix, k, n, t)
        if style < 0.25 or not t:
            return "%s%s_%d" % (prefix, k, n)
        return shlex.quote(body)
    return f


def text(rng):
    return "".join(rng.choice(TEXTS) for _ in range(rng.choice([1, 1, 2, 3])))
