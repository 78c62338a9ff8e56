"""Hostile variants of valid text inputs."""
import re

NUMS = ["-1", "0", "1", "2", "-0", "0.5", "1e400", "-1e308", "1e-320", "nan", "inf", "-inf", "99999999999999999999", "2147483647",
        "2147483648", "-2147483648", "4294967295", "4294967296", "100000", "0x10", "1.", ".5", "1e", "+", "-", "--1", "1e+", "007", "1,000",
        "18446744073709551616", "1000", "33", "0.1e1", "1.5", "-0.25", "256", "65536"]
JUNK = ["", " ", "*", ":", ",", "#", "=>", "[", "]", "{", "}", '"', "'", "\\", "%s%n%d", "\t", "\x00", "\xff\xfe", "a" * 300, "9" * 400,
        "x" * 5000, "1 " * 3000, "\n" * 40, "\r", "\r\n", "--", "-", "a b", "\x1b[31m", "\x80", "$(id)", ";", "|", "none", "include"]


def mutate(rng, text, words=(), other=""):
    """text with one to five random damages"""
    n = int(rng.choice([1, 1, 1, 2, 2, 3, 5]))
    for _ in range(n):
        text = once(rng, text, words, other)
    return text


def once(rng, t, words, other):
    k = int(rng.integers(20))
    toks = list(re.finditer(r"[^\s:,\[\]{}]+", t))

    def tok():
        return toks[int(rng.integers(len(toks)))]

    def dic():
        u = rng.random()
        if u < 0.5:
            return NUMS[int(rng.integers(len(NUMS)))]
        if u < 0.75 and words:
            return words[int(rng.integers(len(words)))]
        return JUNK[int(rng.integers(len(JUNK)))]
    if k <= 7 and toks:
        m = tok()
        if k <= 3 and rng.random() < 0.6:  # a number, as a rule
            nums = [x for x in toks if re.match(r"[-+.\d]", x.group(0))]
            m = nums[int(rng.integers(len(nums)))] if nums else m
        if k <= 3:
            new = dic()
        elif k == 4:
            new = ""
        elif k == 5:
            new = m.group(0) + " " + m.group(0)
        elif k == 6:
            new = tok().group(0)
        else:
            new = m.group(0) + dic()
        return t[:m.start()] + new + t[m.end():]
    lines = t.split("\n")
    i = int(rng.integers(len(lines)))
    if k == 8:
        del lines[i]
    elif k == 9:
        lines.insert(i, lines[int(rng.integers(len(lines)))])
    elif k == 10:
        j = int(rng.integers(len(lines)))
        lines[i], lines[j] = lines[j], lines[i]
    elif k == 11:
        lines[i] = lines[i][:int(rng.integers(len(lines[i]) + 1))]
    elif k == 12:
        return t[:int(rng.integers(len(t) + 1))]
    elif k == 13:
        p = int(rng.integers(len(t) + 1))
        return t[:p] + chr(int(rng.integers(256))) + t[p + 1:]
    elif k == 14:
        p = int(rng.integers(len(t) + 1))
        return t[:p] + dic() + t[p:]
    elif k == 15:
        p, q = sorted(int(x) for x in rng.integers(len(t) + 1, size=2))
        q = min(q, p + int(rng.integers(1, 60)))
        return t[:p] + t[q:]
    elif k == 16:
        return t.replace("\n", "\r\n") if rng.random() < 0.3 else " ".join(lines) if rng.random() < 0.3 else t + dic()
    elif k == 17 and other:
        p = int(rng.integers(len(t) + 1))
        q = int(rng.integers(len(other) + 1))
        return t[:p] + other[q:q + int(rng.integers(1, 400))] + t[p:]
    elif k == 18:
        lines[i] = lines[i] + " " + dic()
    elif k == 19:
        lines.insert(i, dic())
    return "\n".join(lines)


def special(rng, other=""):
    """inputs that are not variants of a valid one"""
    k = int(rng.integers(8))
    if k == 0:
        return ""
    if k == 1:
        return "\n" * int(rng.integers(1, 4))
    if k == 2:
        return "".join(chr(int(x)) for x in rng.integers(0, 256, int(rng.integers(1, 600))))
    if k == 3:
        return "\x00" * int(rng.integers(1, 50))
    if k == 4:
        return "a" * int(rng.choice([1, 255, 256, 1023, 1024, 1025, 65536, 70000]))
    if k == 5:
        return " ".join(NUMS[int(i)] for i in rng.integers(len(NUMS), size=60))
    if k == 6:
        return "# only a comment"
    return other
