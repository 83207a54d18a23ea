"""The code under verification: the translated AST that the interpreter really runs,
extracted again from /repo on every run.

The build's own import hook (/opt/vp/py2/py2compat.py) translates the Python 2 sources
and compiles the result; the same two functions give the syntax tree here. Dropped by
the extraction: the arguments of print(...) calls and doc strings. Nothing else."""
import ast
import hashlib
import os
import sys

sys.path.insert(0, '/opt/vp/py2')
import py2compat  # noqa: E402  (installs its hook, which only concerns /repo)

ROOT = '/repo/python'
_cache = {}


def load(path):
    """(tree, sha of the source) of one source file."""
    if path not in _cache:
        with open(path, 'rb') as f:
            data = f.read()
        text = py2compat._refactor(data.decode('utf-8'), path)
        tree = py2compat._Semantics(path, ast.parse(text, path))
        t = ast.fix_missing_locations(tree.visit(ast.parse(text, path)))
        _cache[path] = (t, hashlib.sha1(data).hexdigest())
    return _cache[path]
