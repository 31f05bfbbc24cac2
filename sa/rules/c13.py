"""Interaction coefficients follow their definitions. The value graph of each matrix function is read cell by cell: the
entry in row A and column B becomes an expression over the product and reactant coefficients p, r of the two species in
a reaction and the net rate of progress q of that reaction. A sum over reactions is put into a normal form by splitting
the reactions into classes (which of p, r are non-zero, the sign of p - r, the sign of q): inside a class every absolute
value, maximum, comparison and selection is decided, so that the sum becomes a combination of the sums of p q and r q
over classes. Quotients, absolute values of net sums and the sums over intermediate species of the second generation are
atoms above these. The normal form must be the one of the published definition, and zero on the diagonal."""
import itertools

from .common import *
from ..alg import add, mul, number
from . import c17

ASSUMES = ["product_stoich_coeffs and reactant_stoich_coeffs have one row per species and one column per reaction, and are not negative",
           "net_rates_of_progress is the difference of forward and reverse rates of progress at the current state",
           "numpy broadcasting, reductions and index arrays as documented"]
Fr = __import__("fractions").Fraction
WHOLE = mk("slice", NONE, NONE, NONE)


class Und(Exception):
    pass


class Wrong(Exception):
    pass


# --------------------------------------------------------------------- expressions of one cell
def C_(x):
    return ("const", Fr(x))


ZERO, ONE = C_(0), C_(1)
T, F = ("bool", True), ("bool", False)


class Arr:
    """axes: 's' species, ('r', guards) reactions, '1'; f: index roles -> expression."""

    def __init__(self, axes, f, kind=None):
        self.axes, self.f, self.kind = tuple(axes), f, kind

    @property
    def nd(self):
        return len(self.axes)


def bcast(xs, op):
    nd = max(x.nd for x in xs)
    axes = []
    for i in range(nd):
        got = "1"
        for x in xs:
            j = i - (nd - x.nd)
            if j < 0 or x.axes[j] == "1":
                continue
            if got == "1":
                got = x.axes[j]
            elif got[0] != x.axes[j][0]:
                raise Wrong("a species axis meets a reaction axis")
            elif got[0] == "r" and not same_guards(got[1], x.axes[j][1]):
                raise Wrong("arrays over different selections of reactions are combined")
        axes.append(got)

    def f(ix):
        out = []
        for x in xs:
            sub = ix[nd - x.nd:]
            out.append(x.f(tuple(None if a == "1" else i for a, i in zip(x.axes, sub))))
        return op(*out)
    return Arr(axes, f)


class Reader:
    def __init__(self, r, sol, pid):
        self.r, self.sol, self.pid = r, sol, pid
        self.vers = set()
        self.names = mk("attr", sol, "species_names", None)

    # ---- indices
    def is_species(self, it):
        it = q.unwrap_list(strip_versions(it))
        if it is self.names:
            return True
        if it.op == "call" and it.a[0] == "builtins.range" and len(it.a[1]) == 1:
            return self.is_count(it.a[1][0])
        return it.op == "meth" and it.a[0] is self.sol and it.a[1] in ("species", "species_names") and not it.a[2]

    def is_count(self, n):
        n0, n = n, strip_versions(n)
        x = None
        if n0.op == "item" and n0.a[0].op == "attr" and n0.a[0].a[1] == "shape" and number(n0.a[1]) is not None:
            x, i = n0.a[0].a[0], int(number(n0.a[1]))
        elif n0.op == "call" and n0.a[0] == "builtins.len" and not self.is_species(n0.a[1][0]):
            x, i = n0.a[1][0], 0
        if x is not None:
            saved = set(self.vers)
            try:
                a = self.arr(x, {})
            except (Und, Wrong):
                return False
            finally:
                self.vers = saved
            return -a.nd <= i < a.nd and a.axes[i] == "s"
        return n.op == "attr" and n.a[0] is self.sol and n.a[1] in ("n_species", "n_total_species") or \
            n.op == "call" and n.a[0] == "builtins.len" and self.is_species(n.a[1][0]) or \
            n.op == "attr" and n.a[1] == "size" and self.is_species(n.a[0])

    def role(self, n, env):
        if n in env:
            return env[n]
        n1 = strip_versions(n)
        if n1 in env:
            return env[n1]
        if n.op == "meth" and n.a[1] in ("species_index", "index") and len(n.a[2]) == 1 and n.a[2][0] in env:
            return env[n.a[2][0]]
        return None

    # ---- arrays
    def arr(self, n, env):
        c = number(n)
        if c is not None:
            return Arr((), lambda ix: ("const", c))
        if n.op == "const" and isinstance(cval(n), bool):
            return Arr((), lambda ix: ("bool", cval(n)))
        m = getattr(self, "op_" + n.op, None)
        if m is None:
            raise Und(f"unrecognised: {str(n)[:90]}")
        return m(n, env)

    def op_attr(self, n, env):
        if strip_versions(n.a[0]) is self.sol:
            return self.quantity(n.a[1], n)
        raise Und(f"unrecognised: {str(n)[:90]}")

    def op_meth(self, n, env):
        if strip_versions(n.a[0]) is self.sol and not n.a[2]:
            return self.quantity(n.a[1], n)
        raise Und(f"unrecognised: {str(n)[:90]}")

    def quantity(self, nm, n):
        if nm in ("product_stoich_coeffs", "product_stoich_coeffs3"):
            return Arr(("s", ("r", ())), lambda ix: ("p", ix[0]))
        if nm in ("reactant_stoich_coeffs", "reactant_stoich_coeffs3"):
            return Arr(("s", ("r", ())), lambda ix: ("r", ix[0]))
        if nm == "net_rates_of_progress":
            self.vers.add(n)
            return Arr((("r", ()),), lambda ix: ("q",))
        if nm in ("forward_rates_of_progress", "reverse_rates_of_progress", "forward_rate_constants", "reverse_rate_constants",
                  "equilibrium_constants", "delta_gibbs", "delta_enthalpy"):
            self.vers.add(n)
            return Arr((("r", ()),), lambda ix: ("free", nm))
        if nm == "net_production_rates":
            self.vers.add(n)
            return Arr(("s",), lambda ix: ("sum", (), ("mul", ("add", ("p", ix[0]), ("neg", ("r", ix[0]))), ("q",))))
        if nm in ("creation_rates", "destruction_rates", "concentrations", "X", "Y", "molecular_weights"):
            self.vers.add(n)
            return Arr(("s",), lambda ix: ("free", nm, ix[0]))
        if nm in ("n_species", "n_reactions"):
            return Arr((), lambda ix: ("free", nm))
        if nm in ("T", "P", "density"):
            self.vers.add(n)
            return Arr((), lambda ix: ("free", nm))
        raise Und(f"unrecognised quantity {nm}")

    def op_bin(self, n, env):
        op = n.a[0]
        x, y = n.a[1], n.a[2]
        if op == "-" and all(v.op == "attr" and strip_versions(v.a[0]) is self.sol for v in (x, y)) and \
                (x.a[1], y.a[1]) == ("forward_rates_of_progress", "reverse_rates_of_progress"):
            self.vers |= {x, y}
            return Arr((("r", ()),), lambda ix: ("q",))
        if op == "@":
            return self.dot(self.arr(x, env), self.arr(y, env))
        f = {"+": lambda a, b: ("add", a, b), "-": lambda a, b: ("add", a, ("neg", b)), "*": lambda a, b: ("mul", a, b),
             "/": lambda a, b: ("div", a, b)}.get(op)
        if op == "**" and number(y) is not None and number(y) in (1, 2):
            k = int(number(y))
            a = self.arr(x, env)
            return Arr(a.axes, lambda ix: a.f(ix) if k == 1 else ("mul", a.f(ix), a.f(ix)))
        if f is None:
            raise Und(f"operator {op}")
        return bcast([self.arr(x, env), self.arr(y, env)], f)

    def op_un(self, n, env):
        a = self.arr(n.a[1], env)
        if n.a[0] == "-":
            return Arr(a.axes, lambda ix: ("neg", a.f(ix)))
        if n.a[0] == "+":
            return a
        if n.a[0] == "~":
            return Arr(a.axes, lambda ix: ("not", truth_of(a.f(ix))))
        raise Und(f"operator {n.a[0]}")

    def op_eq(self, n, env):
        for a, b in ((n.a[0], n.a[1]), (n.a[1], n.a[0])):
            ra, rb = self.role(a, env), self.role(b, env)
            if ra is not None and rb is not None:
                return Arr((), lambda ix, v=ra == rb: ("bool", v))
        return bcast([self.arr(x, env) for x in n.a], lambda a, b: ("cmp", "eq", a, b))

    def op_lt(self, n, env):
        return bcast([self.arr(x, env) for x in n.a], lambda a, b: ("cmp", "lt", a, b))

    def op_le(self, n, env):
        return bcast([self.arr(x, env) for x in n.a], lambda a, b: ("cmp", "le", a, b))

    def op_not(self, n, env):
        a = self.arr(n.a[0], env)
        return Arr(a.axes, lambda ix: ("not", truth_of(a.f(ix))))

    def op_and(self, n, env):
        return bcast([self.arr(x, env) for x in n.a], lambda *xs: ("and",) + tuple(truth_of(x) for x in xs))

    def op_or(self, n, env):
        return bcast([self.arr(x, env) for x in n.a], lambda *xs: ("or",) + tuple(truth_of(x) for x in xs))

    def op_truth(self, n, env):
        a = self.arr(n.a[0], env)
        if a.nd:
            raise Und("truth of an array")
        return Arr((), lambda ix: truth_of(a.f(ix)))

    def op_phi(self, n, env):
        g, x, y = n.a
        e = self.some(g)
        if e is None:
            h = g.a[0] if g.op == "not" else None
            if g.op == "eq" and any(is_const(v, 0) for v in g.a):
                h = mk("truth", [v for v in g.a if not is_const(v, 0)][0])
            elif g.op == "lt" and is_const(g.a[1], 1) or g.op == "le" and is_const(g.a[1], 0):
                h = mk("truth", g.a[0])
            e = self.some(h) if h is not None else None
            if e is not None:
                x, y = y, x
        if e is not None:
            a, b = self.arr(x, env), self.arr(y, env)
            return bcast([a, b], lambda u, v: ("anyq", e, u, v))
        c = self.arr(g, env)
        if c.nd:
            raise Und("an array decides a branch")
        return bcast([c, self.arr(x, env), self.arr(y, env)], lambda c, u, v: ("where", truth_of(c), u, v))

    def some(self, g):
        """g says that some reaction satisfies a condition: the condition."""
        if g.op == "lt" and is_const(g.a[0], 0) or g.op == "le" and is_const(g.a[0], 1):
            g = mk("truth", g.a[1])
        elif g.op == "not" and g.a[0].op == "eq" and any(is_const(x, 0) for x in g.a[0].a):
            g = mk("truth", [x for x in g.a[0].a if not is_const(x, 0)][0])
        if g.op != "truth":
            return None
        v = g.a[0]
        if v.op == "item" and v.a[0].op == "attr" and v.a[0].a[1] == "shape" and is_const(v.a[1], 0):
            v = v.a[0].a[0]
        elif v.op == "attr" and v.a[1] == "size" or v.op == "call" and v.a[0] in ("builtins.len", "numpy.size"):
            v = v.a[0] if v.op == "attr" else v.a[1][0]
        elif v.op == "call" and v.a[0] in ("numpy.any", "numpy.sum") and not v.a[2]:
            a = self.arr(v.a[1][0], {})
            if a.nd != 1 or a.axes[0][0] != "r":
                return None
            e = a.f(("w",))
            if v.a[0] == "numpy.sum" and e[0] not in ("cmp", "and", "or", "not", "bool"):
                return None
            return self.guarded(a.axes[0][1], truth_of(e))
        elif not (v.op == "item" and is_const(v.a[1], 0) and v.a[0].op == "call" and v.a[0].a[0] == "numpy.where"):
            return None
        sel = self.selector(v, {})
        if sel is None:
            return None
        base, cond = sel
        return self.guarded(base, cond)

    @staticmethod
    def guarded(gs, e):
        return ("and",) + tuple(gs) + (e,) if gs else e

    # ---- selections of reactions
    def selector(self, n, env):
        """(guards of the axis it selects from, condition) of an index array or mask over reactions."""
        m = n
        if m.op == "item" and is_const(m.a[1], 0) and m.a[0].op == "call" and m.a[0].a[0] == "numpy.where" and len(m.a[0].a[1]) == 1:
            m = m.a[0].a[1][0]
        elif m.op == "call" and m.a[0] == "numpy.where" and len(m.a[1]) == 1:
            m = m.a[1][0]
        elif m.op in ("const", "idx", "elem", "slice", "tuple", "mu", "param"):
            return None
        else:
            try:
                a = self.arr(m, env)
            except Und:
                return None
            if a.nd != 1 or a.axes[0][0] != "r" or not boolean(a.f(("w",))):
                return None
            return a.axes[0][1], a.f(("w",))
        a = self.arr(m, env)
        if a.nd != 1 or a.axes[0][0] != "r":
            raise Und(f"selection {str(n)[:80]}")
        return a.axes[0][1], truth_of(a.f(("w",)))

    def op_item(self, n, env):
        base, i = n.a
        b = self.arr(base, env)
        ixs = list(i.a) if i.op == "tuple" else [i]
        if i.op == "call" and i.a[0] in ("numpy.ix_",):
            ixs = list(i.a[1])
        axes, plan = [], []
        j = 0
        for pos, x in enumerate(ixs):
            if x.op == "const" and cval(x) is Ellipsis:
                raise Und("ellipsis")
            if x is NONE:
                axes.append("1")
                continue
            if j >= b.nd:
                raise Und(f"index {str(n)[:80]}")
            ax = b.axes[j]
            role = self.role(x, env)
            if x.op == "slice" and x is WHOLE:
                plan.append(("ax", len(axes)))
                axes.append(ax)
            elif role is not None:
                if ax == "s" and role != "w":
                    plan.append(("fix", role))
                elif ax[0] == "r" and role == "w":
                    if ax[1]:
                        raise Und("a reaction taken from a selection")
                    plan.append(("fix", "w"))
                else:
                    raise Wrong("an index of one kind is used on an axis of the other kind")
            elif ax == "1" and is_const(x, 0):
                plan.append(("fix", None))
            elif ax != "1" and ax[0] == "r":
                sel = self.selector(x, env)
                if sel is None:
                    raise Und(f"index {str(x)[:80]}")
                if not same_guards(sel[0], ax[1]):
                    raise Wrong("a selection of reactions is used on an array that holds another selection")
                plan.append(("ax", len(axes)))
                axes.append(("r", ax[1] + (sel[1],)))
            elif ax == "s" and self.every_species(x):
                plan.append(("ax", len(axes)))
                axes.append(ax)
            else:
                raise Und(f"index {str(x)[:80]}")
            j += 1
        for k in range(j, b.nd):
            plan.append(("ax", len(axes)))
            axes.append(b.axes[k])

        def f(ix):
            return b.f(tuple(v if t == "fix" else ix[v] for t, v in plan))
        return Arr(axes, f)

    def every_species(self, x):
        return x.op == "call" and x.a[0] in ("builtins.range", "numpy.arange") and len(x.a[1]) == 1 and self.is_count(x.a[1][0])

    # ---- calls
    def op_call(self, n, env):
        nm, args, kw = n.a[0], n.a[1], dict(n.a[2])
        if not isinstance(nm, str):
            raise Und(f"unrecognised: {str(n)[:90]}")
        s = nm.split(".")[-1]
        if nm in ("builtins.abs", "builtins.float", "builtins.max", "builtins.min", "builtins.sum"):
            s = {"float": "asarray"}.get(s, s)
            if s in ("max", "min") and len(args) == 2:
                s = {"max": "maximum", "min": "minimum"}[s]
        elif not nm.startswith(("numpy.", "math.")):
            raise Und(f"unrecognised call {nm}")
        if s in ("abs", "absolute", "fabs"):
            a = self.arr(args[0], env)
            return Arr(a.axes, lambda ix: ("abs", a.f(ix)))
        if s in ("maximum", "fmax", "minimum", "fmin") and len(args) == 2:
            t = "max" if s in ("maximum", "fmax") else "min"
            return bcast([self.arr(x, env) for x in args], lambda a, b: (t, a, b))
        if s == "clip":
            lo = args[1] if len(args) > 1 else kw.get("a_min", kw.get("min", NONE))
            hi = args[2] if len(args) > 2 else kw.get("a_max", kw.get("max", NONE))
            a = self.arr(args[0], env)
            if lo is not NONE:
                a = bcast([a, self.arr(lo, env)], lambda x, y: ("max", x, y))
            if hi is not NONE and not (hi.op == "const" and cval(hi) in (float("inf"),)) and not (hi.op == "ext" and "inf" in str(hi.a[0])):
                a = bcast([a, self.arr(hi, env)], lambda x, y: ("min", x, y))
            return a
        if s == "sign":
            a = self.arr(args[0], env)
            return Arr(a.axes, lambda ix: ("sign", a.f(ix)))
        if s == "heaviside":
            return bcast([self.arr(x, env) for x in args], lambda a, b: ("where", ("cmp", "eq", a, ZERO), b, ("where", ("cmp", "lt", ZERO, a), ONE, ZERO)))
        if s in ("multiply", "add", "subtract", "divide", "true_divide") and len(args) == 2 and not kw:
            return self.op_bin(mk("bin", {"multiply": "*", "add": "+", "subtract": "-"}.get(s, "/"), *args), env)
        if s in ("asarray", "array", "copy", "ascontiguousarray", "asfarray", "atleast_1d", "squeeze", "float64"):
            if args[0].op == "coll":
                return self.stacked(args[0], env, 0)
            a = self.arr(args[0], env)
            if s == "squeeze":
                keep = [i for i, x in enumerate(a.axes) if x != "1"]
                return Arr([a.axes[i] for i in keep], lambda ix: a.f(tuple(ix[keep.index(i)] if i in keep else None for i in range(a.nd))))
            return a
        if s in ("vstack", "stack", "column_stack", "hstack"):
            x = args[0]
            ax = args[1] if len(args) > 1 else kw.get("axis", const(0))
            if x.op == "coll" and s != "hstack":
                return self.stacked(x, env, 1 if s == "column_stack" or s == "stack" and is_const(ax, 1) or s == "stack" and is_const(ax, -1) else 0)
            raise Und(nm)
        if s in ("zeros", "ones", "full", "empty", "zeros_like", "ones_like", "full_like"):
            return self.filled(s, args, kw, env)
        if s in ("eye", "identity"):
            if args and self.is_count(args[0]):
                return Arr(("s", "s"), lambda ix: ONE if ix[0] == ix[1] else ZERO)
            raise Und(nm)
        if s == "where" and len(args) == 3:
            return bcast([self.arr(x, env) for x in args], lambda c, x, y: ("where", truth_of(c), x, y))
        if s in ("sum", "max", "min", "any", "all", "mean", "count_nonzero", "amax", "amin", "prod"):
            a = self.arr(args[0], env)
            ax = kw.get("axis", NONE)
            return self.reduce(s, a, ax)
        if s == "transpose" and len(args) == 1:
            a = self.arr(args[0], env)
            return Arr(a.axes[::-1], lambda ix: a.f(ix[::-1]))
        if s == "swapaxes" and len(args) == 3:
            a = self.arr(args[0], env)
            return Arr(a.axes[::-1], lambda ix: a.f(ix[::-1])) if a.nd == 2 else a
        if s == "outer":
            a, b = (self.arr(x, env) for x in args[:2])
            if a.nd != 1 or b.nd != 1:
                raise Und("outer product of matrices")
            return Arr(a.axes + b.axes, lambda ix: ("mul", a.f(ix[:1]), b.f(ix[1:])))
        if s in ("dot", "matmul") and len(args) == 2:
            return self.dot(*(self.arr(x, env) for x in args))
        if s == "einsum":
            return self.einsum(args, env)
        if s == "nan_to_num":
            a = self.arr(args[0], env)
            rest = [number(x) for x in list(args[2:]) + [v for k, v in kw.items() if k in ("nan", "posinf", "neginf")]]
            if any(x != 0 for x in rest):
                raise Und("nan_to_num with other replacements")
            return Arr(a.axes, lambda ix: ("nanz", a.f(ix)))
        if s == "isnan":
            a = self.arr(args[0], env)
            return Arr(a.axes, lambda ix: ("isnan", a.f(ix)))
        if s == "isfinite":
            a = self.arr(args[0], env)
            return Arr(a.axes, lambda ix: ("not", ("isnan", a.f(ix))))
        if s == "diag" and len(args) == 1:
            a = self.arr(args[0], env)
            if a.nd == 1:
                return Arr(a.axes * 2, lambda ix: a.f(ix[:1]) if ix[0] == ix[1] else ZERO)
            if a.nd == 2 and a.axes[0] == a.axes[1]:
                return Arr(a.axes[:1], lambda ix: a.f((ix[0], ix[0])))
            raise Und("diag")
        if s == "reshape":
            a = self.arr(args[0], env)
            sh = args[1] if len(args) > 1 else kw.get("newshape")
            if a.nd == 1 and sh is not None and sh.op == "tuple" and len(sh.a) == 2:
                if is_const(sh.a[1], 1):
                    return Arr((a.axes[0], "1"), lambda ix: a.f((ix[0],)))
                if is_const(sh.a[0], 1):
                    return Arr(("1", a.axes[0]), lambda ix: a.f((ix[1],)))
            raise Und("reshape")
        if s in ("ravel", "flatten"):
            a = self.arr(args[0], env)
            real = [i for i, x in enumerate(a.axes) if x != "1"]
            if len(real) == 1:
                return Arr([a.axes[real[0]]], lambda ix: a.f(tuple(ix[0] if i == real[0] else None for i in range(a.nd))))
            raise Und("ravel of a matrix")
        if s in ("round", "around", "rint", "floor", "ceil", "sqrt", "log", "log10", "exp", "square", "cbrt", "trunc", "astype", "int", "tanh"):
            a = self.arr(args[0], env)
            return Arr(a.axes, lambda ix: ("fn", s, a.f(ix)))
        if s == "errstate":
            raise Und(nm)
        raise Und(f"unrecognised call {nm}")

    def filled(self, s, args, kw, env):
        v = {"zeros": ZERO, "ones": ONE, "zeros_like": ZERO, "ones_like": ONE}.get(s)
        if s in ("full", "full_like"):
            x = self.arr(args[1] if len(args) > 1 else kw["fill_value"], env)
            if x.nd:
                raise Und("full of an array")
            v = x.f(())
        if s == "empty":
            v = ("free", "uninitialised memory")
        if s.endswith("_like"):
            a = self.arr(args[0], env)
            return Arr(a.axes, lambda ix: v)
        sh = args[0]
        out = []
        for x in (sh.a if sh.op == "tuple" else (sh,)):
            y = strip_versions(x)
            if self.is_count(y):
                out.append("s")
            elif is_const(y, 1):
                out.append("1")
            elif y.op == "attr" and y.a[0] is self.sol and y.a[1] == "n_reactions":
                out.append(("r", ()))
            elif y.op == "item" and y.a[0].op == "attr" and y.a[0].a[1] == "shape" and number(y.a[1]) is not None:
                out.append(self.arr(y.a[0].a[0], env).axes[int(number(y.a[1]))])
            elif y.op == "attr" and y.a[1] == "shape":
                out += list(self.arr(y.a[0], env).axes)
            else:
                raise Und(f"an array of shape {str(sh)[:60]}")
        return Arr(out, lambda ix: v)

    def reduce(self, s, a, ax):
        if s in ("amax", "amin"):
            s = s[1:]
        if ax is NONE:
            if a.nd != 1:
                raise Und(f"{s} over all entries")
            k = 0
        else:
            k = number(ax)
            if k is None:
                raise Und("axis")
            k = int(k) % a.nd if a.nd else 0
        axis = a.axes[k]
        rest = a.axes[:k] + a.axes[k + 1:]

        def f(ix, wrap):
            return wrap(lambda i: a.f(ix[:k] + (i,) + ix[k:]))
        if axis == "1":
            return Arr(rest, lambda ix: f(ix, lambda g: g(None)))
        if s == "mean" and axis[0] == "r":
            return Arr(rest, lambda ix: f(ix, lambda g: ("fn", "mean", ("sum", axis[1], g("w")))))
        if s != "sum" and not (s == "count_nonzero"):
            if axis[0] == "r" and s in ("max", "min"):
                return Arr(rest, lambda ix: f(ix, lambda g: ("fn", s, ("sum", axis[1], g("w")))))
            raise Und(f"{s} over an axis")
        if axis[0] == "r":
            if s == "count_nonzero":
                return Arr(rest, lambda ix: f(ix, lambda g: ("sum", axis[1], ("where", ("not", ("cmp", "eq", num_of(g("w")), ZERO)), ONE, ZERO))))
            return Arr(rest, lambda ix: f(ix, lambda g: ("sum", axis[1], num_of(g("w")))))
        return Arr(rest, lambda ix: f(ix, lambda g: ("sumsp", g)))

    def dot(self, a, b):
        if a.nd == 0 or b.nd == 0:
            return bcast([a, b], lambda x, y: ("mul", x, y))
        ka, kb = a.nd - 1, max(b.nd - 2, 0)
        x, y = a.axes[ka], b.axes[kb]
        if x[0] != y[0]:
            raise Wrong("a product sums a species axis against a reaction axis")
        if x[0] == "r" and not same_guards(x[1], y[1]):
            raise Wrong("arrays over different selections of reactions are combined")
        rest = a.axes[:ka] + b.axes[:kb] + b.axes[kb + 1:]
        na = ka

        def f(ix):
            def g(i):
                bi = ix[na:]
                return ("mul", num_of(a.f(ix[:na] + (i,))), num_of(b.f(bi[:kb] + (i,) + bi[kb:])))
            if x == "1":
                return g(None)
            return ("sum", x[1], g("w")) if x[0] == "r" else ("sumsp", g)
        return Arr(rest, f)

    def einsum(self, args, env):
        if args[0].op != "const" or not isinstance(cval(args[0]), str):
            raise Und("einsum")
        spec = cval(args[0]).replace(" ", "")
        ops = [self.arr(x, env) for x in args[1:]]
        ins, _, out = spec.partition("->")
        ins = ins.split(",")
        if "->" not in spec:
            out = "".join(sorted(c for c in set(spec) - {","} if spec.count(c) == 1))
        axis = {}
        for t, o in zip(ins, ops):
            if len(t) != o.nd:
                raise Und("einsum")
            for c, ax in zip(t, o.axes):
                if c in axis and (axis[c][0] != ax[0]):
                    raise Wrong("einsum combines a species axis with a reaction axis")
                if c in axis and ax[0] == "r" and not same_guards(axis[c][1], ax[1]):
                    raise Wrong("arrays over different selections of reactions are combined")
                axis[c] = ax
        summed = [c for c in axis if c not in out]

        def f(ix):
            def go(b, todo):
                if not todo:
                    e = ONE
                    for t, o in zip(ins, ops):
                        e = ("mul", e, num_of(o.f(tuple(b[c] for c in t))))
                    return e
                c = todo[0]
                if axis[c] == "1":
                    return go({**b, c: None}, todo[1:])
                if axis[c][0] == "r":
                    return ("sum", axis[c][1], go({**b, c: "w"}, todo[1:]))
                return ("sumsp", lambda i: go({**b, c: i}, todo[1:]))
            summed.sort(key=lambda c: axis[c][0] == "r")
            return go(dict(zip(out, ix)), summed)
        return Arr([axis[c] for c in out], f)

    def stacked(self, c, env, at):
        """An array made from a list with one entry per species; the new axis is axis `at`."""
        es = list(c.a[1])
        if len(es) == 1 and es[0][0] == "for" and len(es[0][3]) == 1 and es[0][3][0][0] == "item" and self.is_species(es[0][1]):
            it, k, x = es[0][1], es[0][2], es[0][3][0][1]
            probe = self.arr(x, self.bind(env, it, k, "?"))
            axes = list(probe.axes)
            axes.insert(at, "s")
            return Arr(axes, lambda ix: self.arr(x, self.bind(env, it, k, ix[at])).f(ix[:at] + ix[at + 1:]))
        raise Und("an array made from a list")

    def op_coll(self, n, env):
        return self.stacked(n, env, 0)

    @staticmethod
    def bind(env, it, k, role):
        return {**env, mk("idx", it, k): role, mk("elem", it, k): role}

    # ---- stores and loops
    def hits(self, i, axes, ix, env):
        """(True/False/condition, remaining index) of cell ix under index i."""
        if i.op == "diag":
            return ("bool", ix[0] == ix[1]), ()
        if i.op == "call" and i.a[0] in ("numpy.diag_indices", "numpy.diag_indices_from"):
            return ("bool", ix[0] == ix[1]), ()
        xs = list(i.a) if i.op == "tuple" else [i]
        if len(xs) == 2 and len(ix) == 2 and xs[0] is xs[1] and self.every_species(xs[0]):
            return ("bool", ix[0] == ix[1]), ()
        hit, rest = True, []
        for j, x in enumerate(xs):
            if x is NONE:
                raise Und("store through a new axis")
            if x is WHOLE:
                rest.append(ix[j])
                continue
            role = self.role(x, env)
            if role is not None:
                if (role == "w") != (axes[j][0] == "r"):
                    raise Wrong("an index of one kind is used on an axis of the other kind")
                hit = hit and role == ix[j]
                continue
            m = self.arr(x, env)
            if len(xs) == 1 and m.axes == axes and boolean(m.f(ix)):
                return m.f(ix), None
            if m.nd == 1 and m.axes[0] == axes[j] == "s" and boolean(m.f((ix[j],))):
                if len(xs) > 1 and any(y is not WHOLE for y in xs if y is not x):
                    raise Und("store under a mask")
                return m.f((ix[j],)), None
            raise Und(f"store at {str(i)[:70]}")
        rest += list(ix[len(xs):])
        return ("bool", hit), tuple(rest)

    def op_store(self, n, env):
        base, i, v = n.a
        b = self.arr(base, env)
        val = self.arr(v, env)

        def f(ix):
            c, rest = self.hits(i, b.axes, ix, env)
            if c == F:
                return b.f(ix)
            if rest is None:
                if val.nd:
                    raise Und("store of an array under a mask")
                new = val.f(())
            else:
                sub = rest[len(rest) - val.nd:] if val.nd <= len(rest) else None
                if sub is None:
                    raise Und("store of a larger array")
                new = val.f(tuple(None if a == "1" else x for a, x in zip(val.axes, sub)))
            return new if c == T else ("where", c, new, b.f(ix))
        return Arr(b.axes, f)

    def loop_of(self, mu):
        L = self.r.loops.get(mu.a[0])
        if L is None or L["breaks"] or mu.a[1] not in L["next"]:
            raise Und("a loop that was not followed")
        return L

    def op_mu(self, n, env):
        """The array before the current iteration."""
        L = self.loop_of(n)
        init, nxt = L["init"].get(n.a[1]), L["next"][n.a[1]]
        init = self.init_of(n) if init is None else init
        b = self.arr(init, env)
        cur = env.get(mk("idx", L["it"], L["k"]))

        def f(ix):
            if ("mu", n) in env:
                return ("mu", n, ix)
            t = self.changing(n, nxt, L, ix, env)
            old = b.f(ix)
            if t is None or t == cur:
                return old
            if t == "other":
                raise Und("an entry that every iteration changes is read")
            new = swap(self.step(n, nxt, L, ix, t, env), ("mu", n, ix), old)
            return old if new == old else ("free", "an entry whose value depends on the order of the species") + tuple(ix)
        return Arr(b.axes, f)

    def op_last(self, n, env):
        it, k, val = n.a[:3]
        if {mk("idx", it, k), mk("elem", it, k)} & deps(val):
            raise Wrong("only the last species of the loop counts")
        return self.arr(val, env)

    def init_of(self, mu):
        for s in self.inits:
            if s.a[4] is mu:
                return s.a[0]
        raise Und("start value of a loop")

    def step(self, mu, nxt, L, ix, t, env):
        e2 = self.bind(env, L["it"], L["k"], t)
        e2[("mu", mu)] = True
        return self.arr(nxt, e2).f(ix)

    def changing(self, mu, nxt, L, ix, env):
        """The iteration that changes entry ix (None: none does)."""
        if not self.is_species(L["it"]):
            raise Und("a loop over something else than the species")
        roles = [x for x in dict.fromkeys(ix) if x not in (None, "w")]
        out = [t for t in roles + ["other"] if self.step(mu, nxt, L, ix, t, env) != ("mu", mu, ix)]
        if not out:
            return None
        if len(out) > 1:
            raise Und("an entry is changed by several iterations")
        return out[0]

    def op_storefor(self, n, env):
        init, it, k, entries, mu = n.a
        b = self.arr(init, env)
        L = self.loop_of(mu)
        nxt = L["next"][mu.a[1]]
        self.inits.append(n)

        def f(ix):
            t = self.changing(mu, nxt, L, ix, env)
            if t is None:
                return b.f(ix)
            if t == "other":
                return self.accumulate(mu, nxt, L, ix, env, b)
            e = self.step(mu, nxt, L, ix, t, env)
            return swap(e, ("mu", mu, ix), b.f(ix))
        return Arr(b.axes, f)
    inits = []

    def accumulate(self, mu, nxt, L, ix, env, b):
        raise Und("an entry that every iteration changes")

    def op_sumfor(self, n, env):
        init, it, k, term, cond = n.a[:5]
        if self.is_species(it):
            probe = self.bind(env, it, k, "?")
            a = self.arr(term, probe)
            i0 = self.arr(init, env)
            c = cond

            def f(*ix):
                ix = ix[0]

                def g(t):
                    e2 = self.bind(env, it, k, t)
                    x = self.arr(term, e2)
                    e = x.f(tuple(None if ax == "1" else i for ax, i in zip(x.axes, ix[len(ix) - x.nd:])))
                    if c is TRUE or c is True:
                        return e
                    y = self.arr(c, e2)
                    if y.nd:
                        raise Und("condition")
                    return ("where", truth_of(y.f(())), e, ZERO)
                return ("add", i0.f(ix[len(ix) - i0.nd:] if i0.nd else ()), ("sumsp", g))
            axes = i0.axes if i0.nd >= a.nd else a.axes
            return Arr(axes, f)
        guards = self.reactions(it, env)
        if guards is None:
            raise Und(f"a sum over {str(it)[:60]}")
        e2 = {**env, mk("idx", it, k): "w", mk("elem", it, k): "w"} if not guards else {**env, mk("elem", it, k): "w"}
        a, i0 = self.arr(term, e2), self.arr(init, env)
        cg = () if cond in (TRUE, True) else (truth_of(self.arr(cond, e2).f(())),)

        def f(ix):
            return ("add", i0.f(ix[len(ix) - i0.nd:] if i0.nd else ()),
                    ("sum", guards + cg, num_of(a.f(tuple(None if ax == "1" else i for ax, i in zip(a.axes, ix[len(ix) - a.nd:]))))))
        return Arr(i0.axes if i0.nd >= a.nd else a.axes, f)

    def reactions(self, it, env):
        it1 = q.unwrap_list(strip_versions(it))
        if it1.op == "call" and it1.a[0] in ("builtins.range", "numpy.arange") and len(it1.a[1]) == 1:
            x = it1.a[1][0]
            if x.op == "attr" and x.a[0] is self.sol and x.a[1] == "n_reactions":
                return ()
            return None
        if it1.op == "meth" and it1.a[0] is self.sol and it1.a[1] in ("reactions", "reaction_equations") and not it1.a[2]:
            return ()
        sel = self.selector(q.unwrap_list(it), env)
        return None if sel is None or sel[0] else (sel[1],)


def boolean(e):
    return e[0] in ("cmp", "and", "or", "not", "bool", "isnan")


def truth_of(e):
    return e if boolean(e) else ("not", ("cmp", "eq", e, ZERO))


def num_of(e):
    return ("where", e, ONE, ZERO) if boolean(e) else e


def swap(e, a, b):
    if e == a:
        return b
    if isinstance(e, tuple):
        return tuple(swap(x, a, b) for x in e)
    if callable(e):
        return lambda i: swap(e(i), a, b)
    return e


# --------------------------------------------------------------------- classes of reactions
def roles_in(e, out):
    if isinstance(e, tuple):
        if e[0] in ("p", "r") and len(e) == 2:
            out.add(e[1])
        elif e[0] == "sumsp":
            raise Und("a sum over species inside a sum over reactions")
        else:
            for x in e[1:]:
                roles_in(x, out)
    return out


SPEC = [(False, False, 0), (True, False, 1), (False, True, -1), (True, True, -1), (True, True, 0), (True, True, 1)]


def classes(roles):
    for s in (1, 0, -1):
        for w in itertools.product(SPEC, repeat=len(roles)):
            yield s, dict(zip(roles, w))


class Split(Exception):
    def __init__(self, key):
        self.key = key


class Mask:
    """Evaluation of an expression inside one class of reactions."""

    def __init__(self, s, w, tags):
        self.s, self.w, self.tags = s, w, tags

    def poly(self, e):
        t = e[0]
        if t == "const":
            return {(): e[1]} if e[1] else {}
        if t == "bool":
            return {(): Fr(1)} if e[1] else {}
        if t == "q":
            return {(("q", 1),): Fr(1)} if self.s else {}
        if t in ("p", "r"):
            p, r, c = self.w[e[1]]
            if not (p if t == "p" else r):
                return {}
            if p and r and c == 0:
                t = "p"
            return {(((t, e[1]), 1),): Fr(1)}
        if t == "free":
            return {((e, 1),): Fr(1)}
        if t == "add":
            return add(self.poly(e[1]), self.poly(e[2]))
        if t == "neg":
            return {k: -v for k, v in self.poly(e[1]).items()}
        if t == "mul":
            return mul(self.poly(e[1]), self.poly(e[2]))
        if t == "div":
            d = self.poly(e[2])
            if list(d) == [()]:
                return {k: v / d[()] for k, v in self.poly(e[1]).items()}
            if not d:
                raise Und("division by zero")
            return mul(self.poly(e[1]), {((("inv", ckey(d)), 1),): Fr(1)})
        if t == "abs":
            x = self.poly(e[1])
            s = self.sign(x)
            if s is None:
                return {((("abs", ckey(x)), 1),): Fr(1)}
            return x if s >= 0 else {k: -v for k, v in x.items()}
        if t == "sign":
            s = self.sign(self.poly(e[1]))
            if s is None:
                raise Und("sign")
            return {(): Fr(s)} if s else {}
        if t in ("max", "min"):
            x, y = self.poly(e[1]), self.poly(e[2])
            d = add(x, y, -1)
            s = self.sign(d)
            if s is None:
                k = {((("abs", ckey(d)), 1),): Fr(1, 2)}
                return add(add({a: v / 2 for a, v in x.items()}, {a: v / 2 for a, v in y.items()}), k, 1 if t == "max" else -1)
            return x if (s >= 0) == (t == "max") else y
        if t == "where":
            return self.poly(e[2]) if self.holds(e[1]) else self.poly(e[3])
        if t == "nanz":
            return self.poly(e[1])
        if t == "fn":
            x = self.poly(e[2])
            return {((("fn", e[1], ckey(x)), 1),): Fr(1)} if x else {}
        raise Und(f"{t} inside a sum over reactions")

    def sign(self, x):
        """Sign of a polynomial in this class, None when the class does not fix it."""
        if not x:
            return 0
        if all(k == () for k in x):
            return 1 if x[()] > 0 else -1
        pos = set()
        for k, v in x.items():
            s = 1 if v > 0 else -1
            for a, n in k:
                if a == "q":
                    s *= self.s if n % 2 else 1
                elif a[0] in ("free",):
                    return None
                elif a[0] == "fn":
                    return None
            pos.add(s)
        if len(pos) == 1:
            return pos.pop()
        # k (p_X - r_X) * monomial
        if len(x) == 2:
            (k1, v1), (k2, v2) = x.items()
            d1, d2 = dict(k1), dict(k2)
            for X, (p, r, c) in self.w.items():
                for da, va, db, vb in ((d1, v1, d2, v2), (d2, v2, d1, v1)):
                    if da.get(("p", X)) == 1 and db.get(("r", X)) == 1 and va == -vb:
                        ra = {a: n for a, n in da.items() if a != ("p", X)}
                        rb = {a: n for a, n in db.items() if a != ("r", X)}
                        if ra == rb:
                            s = self.sign({tuple(sorted(ra.items(), key=str)): va})
                            return None if s is None else s * c
        return None

    def holds(self, e):
        t = e[0]
        if t == "bool":
            return e[1]
        if t == "not":
            return not self.holds(e[1])
        if t == "and":
            return all([self.holds(x) for x in e[1:]])
        if t == "or":
            return any([self.holds(x) for x in e[1:]])
        if t == "cmp":
            if e[1] == "eq":
                for a, b in ((e[2], e[3]), (e[3], e[2])):
                    if boolean(a) and b[0] in ("bool", "const"):
                        v = b[1]
                        return self.holds(a) == bool(v)
            d = add(self.poly(num_of(e[2])), self.poly(num_of(e[3])), -1)
            s = self.sign(d)
            if s is not None:
                return {"eq": s == 0, "lt": s < 0, "le": s <= 0}[e[1]]
            k = ("cmp", e[1], ckey(d))
            if k in self.tags:
                return self.tags[k]
            raise Split(k)
        if t == "isnan":
            return False
        raise Und(f"{t} as a condition")


def ckey(p):
    return tuple(sorted(((tuple(sorted(k, key=str)), v) for k, v in p.items()), key=str))


def per_class(e, s, w, guards, tags=()):
    """(tags, polynomial or None when the class is not selected)."""
    m = Mask(s, w, dict(tags))
    try:
        if not all([m.holds(g) for g in guards]):
            return [(tags, {})]
        return [(tags, m.poly(e))]
    except Split as sp:
        if len(tags) > 5:
            raise Und("too many conditions")
        a = per_class(e, s, w, guards, tags + ((sp.key, True),))
        b = per_class(e, s, w, guards, tags + ((sp.key, False),))
        if len(a) == len(b) == 1 and a[0][1] == b[0][1]:
            return [(tags, a[0][1])]
        return a + b


def class_sum(guards, e):
    """Normal form of a sum over reactions."""
    roles = set()
    roles_in(e, roles)
    for g in guards:
        roles_in(g, roles)
    roles = sorted(roles)
    out = {}
    for s, w in classes(roles):
        for tags, p in per_class(e, s, w, guards):
            for k, v in p.items():
                a = ("W", s, tuple((X, w[X]) for X in roles), tags, k)
                out[a] = out.get(a, 0) + v
    return {((at(*a), 1),): v for a, v in reduce_roles(out).items() if v}


def reduce_roles(p):
    """A role that does not matter (all its classes, same terms) is dropped."""
    roles = {X for a in p for X, _ in a[2]}
    for X in sorted(roles):
        if any(any(isinstance(f, tuple) and f[0] in ("p", "r") and f[1] == X for f, _ in a[4]) or any(X in str(t) for t in a[3]) for a in p):
            continue
        groups = {}
        for a, v in p.items():
            rest = ("W", a[1], tuple(x for x in a[2] if x[0] != X), a[3], a[4])
            groups.setdefault(rest, {})[dict(a[2]).get(X)] = v
        if all(set(g) == set(SPEC) and len(set(g.values())) == 1 for g in groups.values()):
            p = {r: next(iter(g.values())) for r, g in groups.items()}
    return p


def same_guards(a, b):
    if a == b:
        return True
    if not a or not b:
        # a selection of everything is no selection
        pass
    roles = set()
    for g in a + b:
        roles_in(g, roles)
    roles = sorted(roles)
    if len(roles) > 3:
        raise Und("selection over many species")
    try:
        for s, w in classes(roles):
            m = Mask(s, w, {})
            if all([m.holds(g) for g in a]) != all([m.holds(g) for g in b]):
                return False
    except Split:
        return False if len(a) != len(b) else a == b
    return True


# --------------------------------------------------------------------- atoms
class At:
    """An atom of a normal form; equal atoms are the same object."""
    __slots__ = ("t", "id", "roles")
    table = {}

    def __getitem__(self, i):
        return self.t[i]

    def __len__(self):
        return len(self.t)


def at(*t):
    a = At.table.get(t)
    if a is None:
        a = At()
        a.t, a.id, a.roles = t, len(At.table), frozenset()
        rs = set()
        for x in t:
            if isinstance(x, Key):
                rs |= x.roles
        if t[0] == "W":
            rs |= {X for X, _ in t[2]}
        elif t[0] == "S":
            rs |= {r for b, _ in t[2] for r in b.roles} - {t[1]}
        elif t[0] == "free":
            rs |= {x for x in t[1][2:]}
        a.roles = frozenset(rs)
        At.table[t] = a
    return a


class Key:
    """A normal form as a value; equal ones are the same object."""
    __slots__ = ("poly", "roles", "lead")
    table = {}


def key(p):
    f = frozenset(p.items())
    x = Key.table.get(f)
    if x is None:
        x = Key()
        x.poly = dict(p)
        x.roles = frozenset(r for k in p for a, _ in k for r in a.roles)
        x.lead = p[min(p, key=lambda k: [(a.id, n) for a, n in k])] if p else Fr(0)
        Key.table[f] = x
    return x


def order(d):
    return tuple(sorted(d.items(), key=lambda t: t[0].id))


def mul_(a, b):
    r = {}
    for x, u in a.items():
        for y, v in b.items():
            if not x or not y:
                k = x or y
            else:
                d = dict(x)
                for f, n in y:
                    d[f] = d.get(f, 0) + n
                k = order(d)
            r[k] = r.get(k, 0) + u * v
    return {k: v for k, v in r.items() if v}


def atom(*t):
    return {((at(*t), 1),): Fr(1)}


# --------------------------------------------------------------------- normal form of a cell
class Norm:
    def __init__(self):
        self.nz = []         # (key of a denominator) known to be non-zero here

    def poly(self, e, roles, depth=0):
        t = e[0]
        rec = lambda x: self.poly(x, roles, depth)      # noqa: E731
        if t == "const":
            return {(): e[1]} if e[1] else {}
        if t == "bool":
            return {(): Fr(1)} if e[1] else {}
        if t == "free":
            return atom("free", e)
        if t in ("p", "r", "q"):
            raise Wrong("the coefficient of a single reaction stands for the sum over reactions")
        if t == "add":
            return add(rec(e[1]), rec(e[2]))
        if t == "neg":
            return {k: -v for k, v in rec(e[1]).items()}
        if t == "mul":
            return self.tidy(mul_(rec(e[1]), rec(e[2])))
        if t == "sum":
            return class_sum(e[1], e[2])
        if t == "abs":
            return self.absolute(rec(e[1]))
        if t in ("max", "min"):
            x, y = rec(e[1]), rec(e[2])
            d = self.absolute(add(x, y, -1))
            h = Fr(1, 2)
            half = lambda p: {k: v * h for k, v in p.items()}   # noqa: E731
            return add(add(half(x), half(y)), half(d), 1 if t == "max" else -1)
        if t == "div":
            if e[2][0] == "where":
                _, c, x, y = e[2]
                return rec(("where", c, ("div", e[1], x), ("div", e[1], y)))
            return self.quotient(rec(e[1]), rec(e[2]))
        if t == "nanz":
            saved = self.nz
            self.nz = ["any"]
            try:
                return rec(e[1])
            finally:
                self.nz = saved
        if t == "where":
            return self.choose(e, roles, depth)
        if t == "anyq":
            return self.anyq(e, roles, depth)
        if t == "sumsp":
            return self.over_species(e[1], roles, depth)
        if t == "fn":
            x = rec(e[2])
            return atom("fn", e[1], key(x))
        if t == "sign":
            x = rec(e[1])
            return atom("fn", "sign", key(x))
        if boolean(e):
            return self.choose(("where", e, ONE, ZERO), roles, depth)
        if t == "mu":
            raise Und("an array inside a loop")
        raise Und(t)

    # ---- signs
    def sign(self, p):
        """Sign of a normal form when the classes fix it (0 only for the empty one)."""
        groups, ss = {}, set()
        for k, v in p.items():
            g = self.class_term(k, v)
            if g is not None:
                groups.setdefault(g[0], {})[g[1]] = g[2]
                continue
            s = 1 if v > 0 else -1
            for a, n in k:
                sa = self.atom_sign(a)
                if sa is None and n % 2:
                    return None
                if n % 2:
                    s *= sa
            ss.add(s)
        for (d, (_, s, w, tags)), g in groups.items():
            x = Mask(s, dict(w), dict(tags)).sign(g)
            if x is None:
                return None
            if x:
                ss.add(x)
        return 0 if not p else ss.pop() if len(ss) == 1 else None

    @staticmethod
    def class_term(k, v):
        """(denominator and class, monomial, coefficient) of a term that is linear in the sums of one class."""
        if len(k) != 1 or k[0][1] != 1:
            return None
        a, d = k[0][0], None
        if a[0] == "q":
            (m, c), = a[1].poly.items()
            if len(m) != 1 or m[0][1] != 1:
                return None
            d, a, v = a[2], m[0][0], v * c
        if a[0] != "W":
            return None
        return (d, a.t[:4]), a[4], v

    def atom_sign(self, a):
        if a[0] == "W":
            return Mask(a[1], dict(a[2]), dict(a[3])).sign({a[4]: Fr(1)})
        if a[0] in ("abs", "nz", "any", "cond"):
            return 1
        if a[0] == "q":
            return self.sign(a[1].poly)
        if a[0] == "S":
            s = 1
            for b, n in a[2]:
                t = self.atom_sign(b)
                if t is None:
                    return None
                s *= t if n % 2 else 1
            return s
        return None

    def absolute(self, p):
        s = self.sign(p)
        if s is not None:
            return p if s >= 0 else {k: -v for k, v in p.items()}
        # a common denominator is positive
        if all(len(k) == 1 and k[0][1] == 1 and k[0][0][0] == "q" for k in p) and len({k[0][0][2] for k in p}) == 1:
            num, den = {}, None
            for k, v in p.items():
                den = k[0][0][2]
                num = add(num, {m: c * v for m, c in k[0][0][1].poly.items()})
            if self.positive(den.poly):
                return {((at("q", key({m: Fr(1)}), den), 1),): v for m, v in self.absolute(num).items()}
        lead = key(p).lead
        p = {k: v / lead for k, v in p.items()}
        return {((at("abs", key(p)), 1),): abs(lead)}

    def positive(self, p):
        return self.sign(p) == 1

    # ---- quotients
    def quotient(self, num, den):
        if list(den) == [()]:
            return {k: v / den[()] for k, v in num.items()}
        if not den:
            raise Wrong("division by an expression that is always zero")
        lead = key(den).lead
        if self.sign(den) == 1:
            lead = abs(lead)
        kd = key({k: v / lead for k, v in den.items()})
        known = kd in self.nz or self.nz == ["any"]
        out = {}
        for m, v in num.items():
            a = at("q" if known else "bare", key({m: Fr(1)}), kd)
            out = add(out, {((a, 1),): v / lead})
        return out

    def tidy(self, p):
        """nz(d) * x/d = x/d, nz * nz = nz, nz(d) * W = W when W is a part of d."""
        out = {}
        for k, v in p.items():
            d = dict(k)
            for a in [a for a in d if a[0] == "nz"]:
                d[a] = 1
                if any(b[0] == "q" and b[2] == a[1] or b is not a and b[0] in ("W", "abs") and self.part(b, a[1]) for b in d):
                    del d[a]
            kk = order(d)
            out[kk] = out.get(kk, 0) + v
        return {k: v for k, v in out.items() if v}

    def part(self, a, kd):
        """a vanishes whenever the (non-negative) denominator does."""
        den = kd.poly
        if self.sign(den) != 1:
            return False
        ws = {k[0][0].t[:4] for k in den if len(k) == 1 and k[0][0][0] == "W"}
        if a[0] == "W":
            return self.inside(a, ws)
        if a[0] == "abs":
            return all(len(k) == 1 and k[0][0][0] == "W" and self.inside(k[0][0], ws) for k in a[1].poly)
        return False

    @staticmethod
    def inside(a, ws):
        if a.t[:4] in ws:
            return True
        mine = dict(a[2])
        return any(w[1] == a[1] and w[3] == a[3] and all(mine.get(X) == c for X, c in w[2]) for w in ws)

    def choose(self, e, roles, depth):
        c = e[1]
        neg = False
        while c[0] == "not":
            c, neg = c[1], not neg
        x, y = (e[3], e[2]) if neg else (e[2], e[3])
        if c[0] == "bool":
            return self.poly(x if c[1] else y, roles, depth)
        if c[0] == "isnan":
            if x == ZERO:
                return self.poly(("nanz", y), roles, depth)
            raise Und("isnan")
        if c[0] in ("and", "or"):
            if c[0] == "or":
                x, y = y, x
                cs = [("not", z) for z in c[1:]]
            else:
                cs = list(c[1:])
            if len(cs) == 1:
                return self.poly(("where", cs[0], x, y), roles, depth)
            return self.poly(("where", cs[0], ("where", ("and",) + tuple(cs[1:]), x, y), y), roles, depth)
        if c[0] != "cmp":
            raise Und(f"choice by {c[0]}")
        d = add(self.poly(num_of(c[2]), roles, depth), self.poly(num_of(c[3]), roles, depth), -1)
        s = self.sign(d)
        op = c[1]
        if list(d) == [()] or not d:
            v = d.get((), Fr(0))
            return self.poly(x if {"eq": v == 0, "lt": v < 0, "le": v <= 0}[op] else y, roles, depth)
        if op == "lt" and s == 1 or op == "le" and s == -1:
            return self.poly(y if op == "lt" else x, roles, depth)
        if op == "le" and s == 1:
            op = "eq"
        if op == "lt" and s == -1:
            op, x, y = "eq", y, x
        if op != "eq":
            k = at("cond", op, key(d))
            px, py = self.poly(x, roles, depth), self.poly(y, roles, depth)
            return add(mul_({((k, 1),): Fr(1)}, add(px, py, -1)), py)
        # op is eq: y is taken where d != 0
        lead = key(d).lead
        if s in (1, -1):
            lead = abs(lead) * s
        kd = key({k: v / lead for k, v in d.items()})
        saved = self.nz
        self.nz = saved + [kd]
        try:
            py = self.poly(y, roles, depth)
        finally:
            self.nz = saved
        px = self.poly(x, roles, depth)
        nz = atom("nz", kd)
        return add(self.tidy(mul_(nz, py)), add(px, self.tidy(mul_(nz, px)), -1))

    def anyq(self, e, roles, depth):
        """A branch taken when some reaction satisfies a condition: without one, all its sums vanish."""
        _, cond, x, y = e
        px, py = self.poly(x, roles, depth), self.poly(y, roles, depth)
        rs = set()
        roles_in(cond, rs)
        live = set()
        for s, w in classes(sorted(rs)):
            try:
                if Mask(s, w, {}).holds(cond):
                    live.add(s)
            except Split:
                live = {1, -1}
                cond = None
                break
        if cond is None or rs:
            k = at("cond", "some", str(e[1])[:200])
            return add(mul_({((k, 1),): Fr(1)}, add(px, py, -1)), py)
        # classes of q that do not occur in the else branch
        dead = self.drop(px, live)
        if add(dead, py, -1):
            k = at("any", tuple(sorted(live)))
            return add(mul_({((k, 1),): Fr(1)}, add(px, py, -1)), py)
        return px

    def drop(self, p, live):
        """The value of p when no reaction with a sign of q in live exists."""
        out = {}
        for k, v in p.items():
            term = {(): v}
            for a, n in k:
                x = self.drop_atom(a, live)
                for _ in range(n):
                    term = mul_(term, x)
            out = add(out, term)
        return out

    def drop_atom(self, a, live):
        if a[0] == "W":
            return {} if a[1] in live else {((a, 1),): Fr(1)}
        if a[0] == "abs":
            return self.absolute(self.drop(a[1].poly, live))
        if a[0] == "q":
            den = self.drop(a[2].poly, live)
            if not den:
                return {}
            num = self.drop(a[1].poly, live)
            saved, self.nz = self.nz, ["any"]
            try:
                return self.quotient(num, den)
            finally:
                self.nz = saved
        if a[0] == "nz":
            return {} if not self.drop(a[1].poly, live) else {((a, 1),): Fr(1)}
        if a[0] == "S":
            t = {(): Fr(1)}
            for b, n in a[2]:
                for _ in range(n):
                    t = mul_(t, self.drop_atom(b, live))
            return {} if not t else {((a, 1),): Fr(1)}
        return {((a, 1),): Fr(1)}

    # ---- sums over species
    def over_species(self, g, roles, depth):
        m = f"M{depth}"
        out = {}
        for r in roles:
            out = add(out, self.poly(g(r), roles, depth))
        p = self.poly(g(m), roles + (m,), depth + 1)
        for k, v in p.items():
            mine = tuple((a, n) for a, n in k if m in a.roles)
            rest = {a: n for a, n in k if m not in a.roles}
            rest[at("S", m, mine)] = 1
            kk = order(rest)
            out[kk] = out.get(kk, 0) + v
        return {k: v for k, v in out.items() if v}


# --------------------------------------------------------------------- the definitions
def b_(X):
    return ("mul", ("add", ("p", X), ("neg", ("r", X))), ("q",))


def takes(Y):
    return ("or", ("not", ("cmp", "eq", ("p", Y), ZERO)), ("not", ("cmp", "eq", ("r", Y), ZERO)))


def pos(x):
    return ("max", x, ZERO)


def ratio(num, den):
    return ("where", ("cmp", "eq", den, ZERO), ZERO, ("div", num, den))


def definition(name, A, B):
    if name == "DRG":
        d = ("sum", (), ("abs", b_(A)))
        return ratio(("sum", (takes(B),), ("abs", b_(A))), d)

    def den(X):
        return ("max", ("sum", (), pos(b_(X))), ("sum", (), pos(("neg", b_(X)))))
    if name == "DRGEP":
        return ratio(("abs", ("sum", (takes(B),), b_(A))), den(A))

    def first(X, Y, sgn):
        return ratio(("sum", (takes(Y),), pos(b_(X) if sgn > 0 else ("neg", b_(X)))), den(X))
    e = ("add", first(A, B, 1), first(A, B, -1))
    for s in (1, -1):
        e = ("add", e, ("sumsp", lambda M, s=s: ZERO if M in (A, B) else ("mul", first(A, M, s), first(M, B, s))))
    return e


def explain(got, want):
    miss = [k for k in want if got.get(k) != want[k]]
    extra = [k for k in got if k not in want]
    tell = {"bare": "a division whose denominator may be zero", "cond": "a condition on sums", "nz": "a term outside the quotient",
            "any": "the branch without active reactions"}
    odd = {a for k in extra for a, _ in k} | {b for k in extra for a, _ in k if a[0] in ("q", "abs") for m in a[1].poly for b, _ in m}
    names = sorted({tell.get(a[0], str(a[1])) for a in odd if a[0] in ("free", "fn") or a[0] in tell})
    hint = "; contains " + ", ".join(names) if names else ""
    return f"{len(miss)} of {len(want)} terms of the definition have another coefficient, {len(extra)} terms do not belong to it{hint}"


def matrices(C, rep):
    for name in ("DRG", "DRGEP", "PFA"):
        f = MATRIX[name]
        if f not in C.prog.funcs:
            raise AnalysisError(f"anchor {f} not found")
        r = C.run(f, frozenset(q.LEAF - {f}))
        fn = C.prog.funcs[f]
        at = (fn.mod.path, fn.node.lineno)
        names = [x.arg for x in fn.node.args.posonlyargs + fn.node.args.args]
        if len(names) < 2:
            raise AnalysisError(f"{f} does not take a state and a model")
        one(C, rep, name, r, P(names[0]), P(names[1]), at)


def one(C, rep, name, r, st, sol, at):
    rd = Reader(r, sol, name)
    rd.inits = []
    what = {"DRG": "an entry is the sum of absolute contributions of shared reactions over all absolute contributions",
            "DRGEP": "an entry is the absolute net contribution of shared reactions over the larger of production and consumption",
            "PFA": "an entry adds the first- and second-generation production and consumption flux ratios"}[name]
    cells = (("coefficients", what, ("A", "B"), lambda: definition(name, "A", "B")),
             ("diagonal", "diagonal entries are zero", ("A", "A"), lambda: ZERO))
    try:
        a = rd.arr(r.retf, {})
        if a.axes != ("s", "s"):
            raise Wrong(f"the result has axes {a.axes}")
    except Und as ex:
        for k, w, _, _ in cells:
            rep.und(f"{name}.{k}", w, at, str(ex))
        a = None
    except Wrong as ex:
        rep.put(verdict(False, r, r.retf), f"{name}.coefficients", what, at, str(ex))
        a = None
    if a is not None:
        for k, w, ix, want in cells:
            try:
                N_ = Norm()
                roles = tuple(dict.fromkeys(ix))
                got = N_.poly(a.f(ix), roles)
                exp = Norm().poly(want(), roles)
                ok = got == exp
                rep.put(True if ok else verdict(False, r, r.retf), f"{name}.{k}", w, at, "" if ok else explain(got, exp))
            except Und as ex:
                rep.und(f"{name}.{k}", w, at, str(ex))
            except Wrong as ex:
                rep.put(verdict(False, r, r.retf), f"{name}.{k}", w, at, str(ex))
    state(C, rep, name, r, rd, st, sol, at)


def state(C, rep, name, r, rd, st, sol, at):
    """Every rate is read after the model was set to the given temperature, pressure and composition, and not changed since."""
    what = "rates are read at the temperature, pressure and composition of the sampled state"
    s = c17.State()
    evs = [e for e in r.events if e.kind in ("setattr", "meth") and strip_versions(e.node if e.kind == "setattr" else e.args[0]) is sol]
    evs = [e for e in evs if e.kind == "setattr" or e.name not in c17.PURE and e.name not in SAFE]
    if not evs:
        rep.put(verdict(False, r, r.retf) if rd.vers else None, f"{name}.state", what, at, "the state is never set")
        return
    for e in evs:
        if q.pcguards(e.pc) or [p for p in e.pc if p[0] == "loop"]:
            rep.und(f"{name}.state", what, e.loc, "the state is set under a condition")
            return
        if e.kind == "setattr" and e.name in c17.PAIRS and e.args[0] is st:
            e2 = [mk("item", st, const(i)) for i in range(3)]
            s.T, s.P, s.C = e2[0], e2[1], (e.name[2], e2[2])
            if e.name[:2] != "TP":
                s.T = mk("unk", e.name)
            continue
        s.apply(e, lambda n: n)
    i = [mk("item", st, const(j)) for j in range(3)]
    ok = not s.unknown and s.T is i[0] and s.P is i[1] and s.C is not None and s.C[0] == "Y" and s.C[1] is i[2]
    rep.put(True if ok else None if s.unknown else verdict(False, r, *[x for x in (s.T, s.P) if x is not None]), f"{name}.state", what, evs[-1].loc,
            s.unknown or ("" if ok else f"T {str(s.T)[:30]}, P {str(s.P)[:30]}, composition {c17.describe(s.C)[:50]}"))
    # each read comes after the last change
    last = None
    full = True
    if rd.vers:
        n_set = len(evs)
        for v in rd.vers:
            ver = v.a[2] if v.op == "attr" else None
            k = 0
            while ver is not None and ver.op == "upd":
                k, ver = k + 1, ver.a[0]
            if v.op != "attr":
                full = None
            elif k < n_set:
                full, last = False, v
                break
        rep.put(True if full else None if full is None else verdict(False, r, last), f"{name}.fresh",
                "rates are read after the state was set", at, "" if full else f"{str(last)[:60]} is read before")


SAFE = {"reactions", "reaction", "species", "product_stoich_coeffs", "reactant_stoich_coeffs"}


def check(C, rep):
    rep.section("matrices", matrices)
