"""Functions that were renamed: contracts are attached by module and name, so a function of the current source whose name is not known is matched with a
known function that is missing from its module, by the parameters and the share of common statements.  A wrong match can only make an obligation fail:
what is verified is always the current body.  The table (renamed.json: parameters and hashes of lines) is made by tools/known_functions.py."""
import ast, hashlib, json, os

TABLE = os.path.join(os.path.dirname(__file__), 'renamed.json')


def prints(node):
    """hashes of the lines of the function without its docstring, its own name replaced"""
    body = node.body
    if body and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant) and isinstance(body[0].value.value, str):
        body = body[1:]
    lines = '\n'.join(ast.unparse(s) for s in body).replace(node.name, '@').split('\n')
    return sorted({hashlib.md5(x.strip().encode()).hexdigest()[:10] for x in lines})


def params(node):
    a = node.args
    return [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]


def describe(tree):
    return {n.name: [params(n), prints(n)] for n in tree.body if isinstance(n, ast.FunctionDef)}


def aliases(name, tree):
    """{known name: FunctionDef} for the known functions of module `name` that are missing from `tree`"""
    global _table
    try:
        _table
    except NameError:
        _table = json.load(open(TABLE)) if os.path.exists(TABLE) else {}
    known = _table.get(name, {})
    here = {n.name for n in tree.body if isinstance(n, (ast.FunctionDef, ast.ClassDef))}
    here |= {a.asname or a.name for n in tree.body if isinstance(n, (ast.Import, ast.ImportFrom)) for a in n.names}
    here |= {t.id for n in tree.body if isinstance(n, ast.Assign) for t in n.targets if isinstance(t, ast.Name)}
    missing = [k for k in known if k not in here]
    if not missing:
        return {}
    new = [n for n in tree.body if isinstance(n, ast.FunctionDef) and n.name not in known]
    pairs = []
    for k in missing:
        ps, hs = known[k]
        for n in new:
            if len(params(n)) == len(ps):
                h = prints(n)
                common = len(set(h) & set(hs)) / max(1, len(set(h) | set(hs)))
                if common >= .4:
                    pairs.append((common, params(n) == ps, k, n.name, n))
    out, used = {}, set()
    for _, _, k, nm, n in sorted(pairs, key=lambda p: p[:4], reverse=True):
        if k not in out and nm not in used:
            out[k] = n
            used.add(nm)
    return out
