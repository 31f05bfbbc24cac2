"""One-shot iterators (generators, map, filter, zip, chain, ...): which loads of a variable can find it used up.

Purely syntactic, per function: a variable bound once to a one-shot producer is used up by its first consumption; a
load in a context that repeats (loop body, inner part of a comprehension, nested function), or one that can follow
another consuming load, may therefore see no items. Passing such a value to a function of the package whose parameter
is consumed repeatedly has the same effect there."""
import ast

SHOT = {"map", "filter", "zip", "iter", "enumerate", "reversed", "chain", "islice", "dfs_preorder_nodes", "from_iterable",
        "dfs_postorder_nodes", "takewhile", "dropwhile", "starmap", "compress", "zip_longest", "accumulate", "product",
        "permutations", "combinations", "filterfalse", "iglob", "scandir", "imap", "imap_unordered"}
ENDS = (ast.Return, ast.Raise, ast.Continue, ast.Break)
_cache = {}


def producer(e, shots=frozenset()):
    if isinstance(e, ast.GeneratorExp):
        return True
    if isinstance(e, ast.Call):
        f = e.func
        if isinstance(f, ast.Name):
            return f.id in SHOT or f.id in shots
        if isinstance(f, ast.Attribute):
            return f.attr in SHOT and not (f.attr == "product" and isinstance(f.value, ast.Name) and f.value.id == "np")
    if isinstance(e, ast.IfExp):
        return producer(e.body, shots) or producer(e.orelse, shots)
    return False


def own(fn):
    """Nodes of fn with their parents."""
    par = {}
    todo = [fn]
    while todo:
        n = todo.pop()
        for c in ast.iter_child_nodes(n):
            par[c] = n
            todo.append(c)
    return par


def field_of(p, c):
    for name, v in ast.iter_fields(p):
        if v is c or isinstance(v, list) and any(x is c for x in v):
            return name
    return None


def chain_up(par, n, top):
    out = []
    while n is not top and n in par:
        p = par[n]
        out.append((p, field_of(p, n), n))
        n = p
    return out


def repeated(par, load, fn, home):
    """load runs more than once for one run of the place (ancestors `home`) where the iterator is made."""
    for p, f, c in chain_up(par, load, fn):
        if p in home:
            return False
        if isinstance(p, (ast.For, ast.AsyncFor)) and f in ("body",):
            return True
        if isinstance(p, ast.While) and f in ("body", "test"):
            return True
        if isinstance(p, (ast.Lambda, ast.FunctionDef, ast.AsyncFunctionDef)) and f == "body":
            return True
        if isinstance(p, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            if f != "generators" or p.generators[0] is not c:
                return True
        if isinstance(p, ast.comprehension):
            gens = par[p].generators
            if not (f == "iter" and gens[0] is p):
                return True
    return False


def leaves(stmts):
    return bool(stmts) and (isinstance(stmts[-1], ENDS) or isinstance(stmts[-1], ast.If) and leaves(stmts[-1].body) and leaves(
        stmts[-1].orelse))


def exclusive(par, a, b, fn):
    """The loads a and b (a earlier) never both run."""
    ca = chain_up(par, a, fn)
    cb = {p: f for p, f, c in chain_up(par, b, fn)}
    for p, f, c in ca:
        if p in cb:
            if isinstance(p, (ast.If, ast.IfExp)) and {f, cb[p]} == {"body", "orelse"}:
                return True
            if isinstance(p, ast.Try) and f != cb[p]:
                return True
            return False
        if isinstance(p, ast.If) and f in ("body", "orelse") and leaves(getattr(p, f)):
            return True
    return False


def consuming(par, n):
    p = par.get(n)
    if isinstance(p, ast.Compare) and p.left is n and all(isinstance(o, (ast.Is, ast.IsNot, ast.Eq, ast.NotEq)) for o in p.ops):
        return False
    if isinstance(p, ast.Call) and isinstance(p.func, ast.Name) and p.func.id in ("isinstance", "type", "bool", "id", "callable"):
        return False
    if isinstance(p, (ast.If, ast.IfExp, ast.While, ast.Assert)) and p.test is n or isinstance(p, ast.BoolOp):
        return False
    if isinstance(p, ast.UnaryOp) and isinstance(p.op, ast.Not):
        return False
    if isinstance(p, ast.Attribute):
        return False
    return True


def used_up(fn, name, bind, par=None):
    """Loads of name in fn that can find it used up; bind: the assignment, or None for a parameter."""
    par = par or own(fn)
    home = {p for p, f, c in chain_up(par, bind, fn)} if bind is not None else set()
    ls = []
    for n in par:
        if isinstance(n, ast.Name) and n.id == name:
            if isinstance(n.ctx, ast.Load):
                p = par[n]
                if isinstance(p, ast.Call) and isinstance(p.func, ast.Name) and p.func.id == "next":
                    return []
                if consuming(par, n):
                    ls.append(n)
            elif bind is None or par[n] is not bind:
                return []
        elif isinstance(n, ast.arg) and n.arg == name and par.get(par.get(n)) is not fn:
            return []
    ls.sort(key=lambda n: (n.lineno, n.col_offset))
    out = []
    for i, n in enumerate(ls):
        if repeated(par, n, fn, home) or any(not exclusive(par, m, n, fn) for m in ls[:i]):
            out.append(n)
    return out


def spent(fn, shots=frozenset()):
    """Loads (by identity) in function fn of local one-shot iterators that can be used up."""
    if isinstance(fn, ast.Lambda):
        return {}
    k = (id(fn), shots)
    if k not in _cache:
        out = {}
        par = own(fn)
        for n in par:
            if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and producer(
                    n.value, shots):
                for m in used_up(fn, n.targets[0].id, n, par):
                    out[id(m)] = n.targets[0].id
        _cache[k] = (out, fn)
    return _cache[k][0]


def makes(fn):
    """fn is a generator function, or returns a one-shot iterator it has just made."""
    if isinstance(fn, ast.Lambda):
        return producer(fn.body)
    k = ("makes", id(fn))
    if k not in _cache:
        par = own(fn)

        def mine(n):
            p = par.get(n)
            while p is not None and p is not fn:
                if isinstance(p, (ast.FunctionDef, ast.Lambda)):
                    return False
                p = par.get(p)
            return True
        ns = [n for n in par if mine(n)]
        rets = [n for n in ns if isinstance(n, ast.Return) and n.value is not None]
        _cache[k] = (any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in ns) or bool(rets) and any(
            producer(n.value) for n in rets), fn)
    return _cache[k][0]


def params(fn):
    a = fn.args
    return [x.arg for x in a.posonlyargs + a.args], [x.arg for x in a.kwonlyargs]


def argument(fn, call, p):
    """The expression given for parameter p of fn in the call, when it is written there."""
    pos, kwo = params(fn)
    for k in call.keywords:
        if k.arg == p:
            return k.value
    if p in pos:
        i = pos.index(p) - (1 if pos and pos[0] in ("self", "cls") else 0)
        if 0 <= i < len(call.args) and not any(isinstance(x, ast.Starred) for x in call.args[:i + 1]):
            return call.args[i]
    return None


def repeats(fn, p, resolve, depth=0):
    """Parameter p of fn is consumed more than once (also in functions it is passed to)."""
    if isinstance(fn, ast.Lambda) or depth > 4:
        return False
    k = ("rep", id(fn), p)
    if k in _cache:
        return _cache[k][0]
    _cache[k] = (False, fn)
    par = own(fn)
    got = bool(used_up(fn, p, None, par))
    if not got:
        for n in par:
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name):
                g = resolve(n.func.id)
                if g is None or isinstance(g, ast.Lambda):
                    continue
                for q in sum(params(g), []):
                    a = argument(g, n, q)
                    if isinstance(a, ast.Name) and a.id == p and repeats(g, q, resolve, depth + 1):
                        got = True
    _cache[k] = (got, fn)
    return got


def local_shot(fn, name, shots=frozenset()):
    """name is a local one-shot iterator of fn."""
    par = own(fn)
    bs = [n for n in par if isinstance(n, ast.Name) and n.id == name and isinstance(n.ctx, ast.Store)]
    return len(bs) == 1 and isinstance(par[bs[0]], ast.Assign) and producer(par[bs[0]].value, shots)
