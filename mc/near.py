"""Texts that are easily confused with a given text."""


def near(s, case=True):
    """Every text obtained from s by one small slip (never s itself), in a fixed order.

    With case=False the variants that differ in letter case only are left out.
    """
    out = [
        s + "/", s + " ", " " + s, s + "\n", "\t" + s, s + s, s + "x", "x" + s, s + "1", s + ".", s + "#",
        s + "?a=b", s + "/x", s + "_", "_" + s, '"' + s + '"', "W/" + s, s + ",", s + ":", s + "\x00", s + "/..",
        s + "%20", "",
    ]
    out += [s[:-1], s[1:], s[::-1], s.replace("/", "//"), s.replace("/", "\\"), s.replace(":", "."),
            s.replace("https://", "http://"), s.replace("://", ":/"), s.removeprefix("W/"),
            s.replace("-", "_"), s.replace("_", "-"), s.replace("_", ""), s.strip("\"'"), s.rstrip("/"),
            s.replace("1", "01"), s.replace("1", "2"), s.replace("o", "0"), s.replace("l", "1"),
            s[:len(s) // 2] + s[len(s) // 2 + 1:], s[:len(s) // 2] + " " + s[len(s) // 2:],
            s[:len(s) // 2] + "x" + s[len(s) // 2:]]
    out += [s.upper(), s.lower(), s.swapcase(), s.title(), s[:1].upper() + s[1:], s[:-1] + s[-1:].upper()]
    for i, c in enumerate(s):
        out.append(s[:i] + (chr(ord(c) ^ 1)) + s[i + 1:])
    seen, result = {s}, []
    for x in out:
        if x in seen or (not case and x.lower() == s.lower()):
            continue
        seen.add(x)
        result.append(x)
    return result
