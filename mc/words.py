"""Alphabets completed with the constants of the code under test.

A value that the code never compares with anything behaves like any other one; the values that can
be treated in a special way are those the code mentions.  So every string and number that occurs in
the library's modules (at the time of the check) is a letter of these alphabets, next to the fixed
ones.  Only inputs are taken from the code, never what to expect of it."""
import ast
import os
import re

from . import common

SKIP = {"tests", "docs", "vendor", "__pycache__"}
APART = {"paths.py", "_version.py", "gen_code.py"}      # of the project, not of the library
_memo = {}


def _fold(n):
    """The value of an expression of constants, or None."""
    if isinstance(n, ast.Constant):
        return n.value if type(n.value) in (int, float) else None
    if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub):
        v = _fold(n.operand)
        return None if v is None else -v
    if isinstance(n, ast.BinOp):
        a, b = _fold(n.left), _fold(n.right)
        if a is None or b is None:
            return None
        try:
            if isinstance(n.op, ast.Add):
                return a + b
            if isinstance(n.op, ast.Sub):
                return a - b
            if isinstance(n.op, ast.Mult):
                return a * b
            if isinstance(n.op, ast.FloorDiv):
                return a // b
            if isinstance(n.op, ast.Div):
                return a / b
            if isinstance(n.op, ast.Pow) and abs(b) < 80:
                return a ** b
            if isinstance(n.op, ast.LShift) and 0 <= b < 80:
                return a << b
        except Exception:
            return None
    return None


def _collect():
    if _memo:
        return _memo
    strings, numbers, names = set(), set(), set()
    top = os.path.join(common.REPO, "atlas_doc_parser")
    for here, dirs, files in os.walk(top):
        dirs[:] = sorted(d for d in dirs if d not in SKIP)
        for f in sorted(files):
            if not f.endswith(".py") or f in APART:
                continue
            try:
                tree = ast.parse(open(os.path.join(here, f), encoding="utf-8").read())
            except (SyntaxError, ValueError):
                continue
            docs = {id(n.value) for n in ast.walk(tree) if isinstance(n, ast.Expr)}
            for n in ast.walk(tree):
                for k in ("id", "attr", "arg", "name"):
                    if isinstance(getattr(n, k, None), str):
                        names.add(getattr(n, k))
                if isinstance(n, (ast.BinOp, ast.UnaryOp)):
                    v = _fold(n)
                    if v is not None:
                        numbers.add(v)
                elif isinstance(n, ast.Constant) and id(n) not in docs:
                    if type(n.value) is str:
                        strings.add(n.value)
                    elif type(n.value) in (int, float):
                        numbers.add(n.value)
    words = set()
    for s in strings:
        if re.fullmatch(r"(Node|Mark|T_|Base)[A-Z]\w*", s) or "\ue000" in s or "\ue001" in s:
            continue
        if len(s) <= 40:
            words.add(s)
        # what a pattern or a message is made of
        if re.search(r"[\\\[(^$|]", s):
            words.update(w for w in re.findall(r"[A-Za-z0-9_:/.@#-]{2,}", s) if len(w) <= 40)
        numbers.update(int(x) for x in re.findall(r"\d{1,6}", s))
    try:
        words = {w for w in words if w.encode("utf-8") is not None}
    except UnicodeEncodeError:
        words = {w for w in words if w.isascii()}
    _memo["names"] = sorted(names)
    _memo["words"] = sorted(words)
    _memo["numbers"] = sorted(n for n in numbers if n == n and abs(n) < 1e19)
    return _memo


def words():
    """Every short string constant."""
    return list(_collect()["words"])


def names():
    """Every name of a variable, attribute, function or argument."""
    return list(_collect()["names"])


def numbers():
    """Every number constant."""
    return list(_collect()["numbers"])


def near(low, high, total=None):
    """Whole numbers at and next to the constants, within the bounds; the smallest ones first,
    as many as their sum allows."""
    out = set()
    for n in numbers():
        if abs(n) < 1e18:
            out.update(int(n) + e for e in (-1, 0, 1))
    out = sorted(n for n in out if low <= n <= high)
    if total is not None:
        while len(out) > 3 and sum(out) > total:
            out.pop()
    return out


def forms(w):
    """A word, and texts that contain it, in a few ways."""
    out = [w, w + "x", "x" + w, "x" + w + "y", w + " x", "x " + w, w + w, w.upper(), w.lower(), w.capitalize()]
    return list(dict.fromkeys(out))
