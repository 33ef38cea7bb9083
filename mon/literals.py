# coding=utf-8
"""The numbers and texts written in the code under test, as hints for the generators (as the dictionaries of fuzzers).

They are only used to choose inputs: what is right is always decided by the oracles.
"""
import ast
import importlib.util
import os

_OPS = {ast.Add: lambda a, b: a + b, ast.Sub: lambda a, b: a - b, ast.Mult: lambda a, b: a * b,
        ast.Pow: lambda a, b: a ** b if abs(a) < 1000 and 0 <= b < 64 else None,
        ast.LShift: lambda a, b: a << b if 0 <= b < 64 else None, ast.FloorDiv: lambda a, b: a // b if b else None,
        ast.Div: lambda a, b: a / b if b else None}


def _number(node):
    if isinstance(node, ast.Constant) and type(node.value) in (int, float):
        return node.value
    if isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.USub):
        value = _number(node.operand)
        return None if value is None else -value
    if isinstance(node, ast.BinOp) and type(node.op) in _OPS:
        left, right = _number(node.left), _number(node.right)
        if left is not None and right is not None:
            try:
                return _OPS[type(node.op)](left, right)
            except Exception:
                return None
    return None


def _harvest():
    ints, floats, texts = set(), set(), set()
    top = os.path.dirname(os.path.abspath(importlib.util.find_spec('whatami').origin))   # N.B. without importing it
    for directory, _, files in sorted(os.walk(top)):
        if os.path.basename(directory) in ('tests', '__pycache__', 'wrappers'):
            continue
        for name in sorted(files):
            if not name.endswith('.py'):
                continue
            try:
                with open(os.path.join(directory, name), encoding='utf-8') as reader:
                    tree = ast.parse(reader.read())
            except Exception:
                continue
            statements = {id(n.value) for n in ast.walk(tree) if isinstance(n, ast.Expr)}    # e.g., documentation
            for node in ast.walk(tree):
                value = _number(node)
                if isinstance(value, float) and value == value and abs(value) != float('inf'):
                    floats.add(value)
                elif isinstance(value, int):
                    ints.add(value)
                elif isinstance(node, ast.Constant) and isinstance(node.value, str) and id(node) not in statements:
                    if 0 < len(node.value) <= 40:
                        texts.add(node.value)
    return sorted(ints), sorted(floats), sorted(texts)


INTS, FLOATS, TEXTS = _harvest()


def sizes(low, high):
    """Sizes around any number in the code."""
    return sorted({n + d for n in INTS for d in (-1, 0, 1) if low <= n + d <= high})
