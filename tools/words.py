"""Numbers and texts that occur in the sources of the library.

Code that treats some size, index, value or name specially usually mentions it, so these are used
as sizes, indices, values and names wherever inputs are generated. What is right is decided by the
specification alone; a source that cannot be read only means fewer inputs.
"""

import glob
import os
import re

REPO = '/repo'


def sources():
    for top in ('whasm/src', 'parser/src'):
        for path in sorted(glob.glob(os.path.join(REPO, top, '**', '*.rs'), recursive=True)):
            if '/grammar/' in path:                 # not compiled
                continue
            try:
                with open(path, encoding='utf8') as f:
                    s = f.read()
            except (OSError, ValueError):
                continue
            s = s.split('#[cfg(test)]')[0]
            s = re.sub(r'/\*.*?\*/', ' ', s, flags=re.S)
            yield re.sub(r'(?m)//[^\n]*', ' ', s)


def number(t):
    t = re.sub(r'(?<![0-9a-fA-Fx_])_|_', '', t)
    return int(t, 0) if t[:2].lower() in ('0x', '0b', '0o') else int(t)


def scan():
    nums, texts = set(), set()
    lit = r'(0x[0-9A-Fa-f_]+|0b[01_]+|\d[\d_]*)(?:[ui](?:8|16|32|64|128|size))?\b'
    for s in sources():
        for m in re.finditer(r'"((?:[^"\\\n]|\\.)*)"', s):
            texts.add(m.group(1))
        for m in re.finditer(r"'(\\u\{([0-9A-Fa-f]+)\}|[^'\\\n])'", s):
            texts.add(chr(min(int(m.group(2), 16), 0x10FFFF)) if m.group(2) else m.group(1))
        s = re.sub(r'"(?:[^"\\\n]|\\.)*"', ' ', s)
        try:
            # opcodes in the patterns of a match are covered anyway
            for m in re.finditer(r'\b' + lit + r'(?!\s*(?:=>|\.\.=?\s*0x[0-9A-F]+\s*=>))', s):
                nums.add(number(m.group(1)))
            for m in re.finditer(r'\b' + lit + r'\s*(<<|\*)\s*' + lit, s):
                a, b = number(m.group(1)), number(m.group(3))
                if m.group(2) == '*':
                    nums.add(a * b)
                elif b < 64:
                    nums.add(a << b)
        except ValueError:
            pass
    return nums, texts


def plain(t):
    return '\\' not in t and not any(0xD800 <= ord(c) < 0xE000 for c in t)


_nums, _texts = scan()
# a source full of numbers must not drown everything else
NUMBERS = sorted(n for n in _nums if 0 <= n < 2**64)
if len(NUMBERS) > 80:
    NUMBERS = NUMBERS[:40] + NUMBERS[-40:]
TEXTS = [''] + sorted((t for t in _texts if len(t) <= 40 and plain(t)), key=lambda t: (len(t), t))[:60]


def near(lo, hi):
    """The numbers and their neighbours within bounds."""
    return sorted({x for n in NUMBERS for x in (n - 1, n, n + 1) if lo <= x <= hi})
