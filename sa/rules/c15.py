"""Chemkin export. The text that is written is a formula over the model. It is read as a sequence of literal pieces and formatted
values for one abstract reaction of every kind and combination of marks (its numbers are symbols) and for one abstract species;
the resulting records are compared, value by value in polynomial normal form, with the records of the Chemkin format."""
import copy
import re
from fractions import Fraction as Fr

from .common import *
from ..alg import add, mul
from ..ir import N as Node

WRITE_CK = "pymars.soln2ck.write"
ASSUMES = ["attributes of cantera objects are those of cantera 3; NasaPoly2.coeffs are the middle temperature, the upper and the lower polynomial",
           "names of species have at most 18 characters and species at most four elements, as the columns of the format allow",
           "numbers fit the columns they are given"]
CONSTS = {"cantera.one_atm": Fr(101325), "cantera.boltzmann": Fr("1.380649e-23"), "cantera.gas_constant": Fr("8314.46261815324"),
          "cantera.avogadro": Fr("6.02214076e26"), "math.pi": Fr("3.141592653589793")}
CAL = Fr(4184)
DEBYE = Fr("3.33564e-30")
BOLTZ = CONSTS["cantera.boltzmann"]
ATM = CONSTS["cantera.one_atm"]
ENERGY = {"CAL/MOLE": CAL, "KCAL/MOLE": CAL * 1000, "JOULES/MOLE": Fr(1000), "KJOULES/MOLE": Fr(10 ** 6), "KELVINS": CONSTS["cantera.gas_constant"]}


class Und(Exception):
    pass


class Reject(Exception):
    """Evaluation raises."""

    def __init__(self, what, name=None):
        Exception.__init__(self, what)
        self.name = name


# --------------------------------------------------------------------- numbers
class Num:
    """Polynomial in the numbers of the model."""
    __slots__ = ("p",)

    def __init__(self, p):
        self.p = p

    def __eq__(self, o):
        return isinstance(o, Num) and self.p == o.p

    def __hash__(self):
        return hash(frozenset(self.p.items()))

    def __repr__(self):
        out = []
        for m, c in sorted(self.p.items(), key=str):
            f = [f"{show_atom(a)}^{e}" if e != 1 else show_atom(a) for a, e in m]
            out.append("*".join(([f"{float(c):g}"] if c != 1 or not f else []) + f))
        return " + ".join(out) or "0"


def show_atom(a):
    return f"10^({a[1]})" if isinstance(a, tuple) and a[0] == "10^" else str(a) if not isinstance(a, tuple) else f"{a[0]}({a[1]})"


def sym(a):
    return Num({((a, 1),): Fr(1)})


def poly(x):
    if isinstance(x, Num):
        return x.p
    if isinstance(x, bool):
        x = int(x)
    if isinstance(x, float):
        x = Fr(repr(x)) if x == x and abs(x) != float("inf") else None
    if isinstance(x, (int, Fr)):
        return {(): Fr(x)} if x else {}
    raise Und("arithmetic")


def back(p):
    if not p:
        return Fr(0)
    if list(p) == [()]:
        return p[()]
    return Num(p)


def is_num(x):
    return isinstance(x, (int, float, Fr, Num)) and not isinstance(x, bool)


def num_add(a, b, s=1):
    return back(add(poly(a), poly(b), s))


def num_mul(a, b):
    return back(mul(poly(a), poly(b)))


def num_pow(a, e):
    e = back(poly(e))
    if isinstance(e, Fr):
        p = poly(a)
        if e.denominator == 1 and 0 <= e <= 6:
            out = {(): Fr(1)}
            for _ in range(int(e)):
                out = mul(out, p)
            return back(out)
        if len(p) == 1:
            (m, c), = p.items()
            if e.denominator == 1:
                c = c ** int(e)
            elif c > 0:
                c = Fr(float(c) ** float(e)).limit_denominator(10 ** 15)
            else:
                raise Und("a root")
            return back({tuple((x, k * e) for x, k in m): c})
        if not p:
            raise Reject("division by zero")
        return Num({((("pow", str(sorted(p.items(), key=str)), str(e)), 1),): Fr(1)})
    b = back(poly(a))
    if not isinstance(b, Fr) or b <= 0:
        raise Und("a power")
    k = ten(b)
    out = {(): Fr(1)}
    for m, c in e.p.items():
        if m == ():
            out = mul(out, poly(num_pow(b, c)))
        elif len(m) == 1 and m[0][1] == 1:
            at = ("10^", m[0][0]) if k is not None else (str(b) + "^", m[0][0])
            out = mul(out, {((at, c * (k if k is not None else 1)),): Fr(1)})
        else:
            raise Und("a power")
    return back(out)


def ten(b):
    k = 0
    while b >= 10 and b % 10 == 0:
        b, k = b / 10, k + 1
    while b < 1 and k > -40:
        b, k = b * 10, k - 1
    return k if b == 1 else None


def log10(x):
    p = poly(x)
    if len(p) != 1:
        raise Und("a logarithm")
    (m, c), = p.items()
    k = ten(c)
    if k is None:
        raise Und("a logarithm")
    out = {(): Fr(k)} if k else {}
    for a, e in m:
        out = add(out, {((a[1], 1),): e} if isinstance(a, tuple) and a[0] == "10^" else {((("log10", a), 1),): e})
    return back(out)


def close_num(x, y):
    """Equal up to the rounding of physical constants."""
    p, q = poly(x), poly(y)
    return set(p) == set(q) and all(abs(p[m] - q[m]) <= abs(q[m]) * Fr(2, 10 ** 5) for m in p)


# --------------------------------------------------------------------- text
class Sym:
    """A name."""

    def __init__(self, label):
        self.label = label

    def __repr__(self):
        return f"<{self.label}>"


class V:
    """A formatted value in a text."""

    def __init__(self, x, spec="", broken=False):
        self.x, self.spec, self.broken = x, spec, broken
        m = SPEC.match(spec)
        if not m:
            raise Und(f"format {spec}")
        self.align = m.group(2) or (">" if is_num(x) else "<")
        self.width = int(m.group(5) or 0)
        self.prec = int(m.group(6)) if m.group(6) else None
        self.type = m.group(7) or ""

    def __repr__(self):
        return f"{self.x}" + (f":{self.spec}" if self.spec else "")


SPEC = re.compile(r"^(?:(.)?([<>=^]))?([ +-]?)(0?)(\d+)?,?(?:\.(\d+))?([a-zA-Z%])?$")


class Text:
    def __init__(self, segs):
        self.segs = []
        for x in segs:
            if isinstance(x, str):
                if not x:
                    continue
                if self.segs and isinstance(self.segs[-1], str):
                    self.segs[-1] += x
                    continue
            self.segs.append(x)


def text(x):
    if isinstance(x, Text):
        return x
    if isinstance(x, str):
        return Text([x])
    if isinstance(x, Sym):
        return Text([V(x)])
    raise Und("text")


def glue(xs):
    out = []
    for x in xs:
        out += text(x).segs
    out = Text(out)
    if not out.segs:
        return ""
    return out.segs[0] if len(out.segs) == 1 and isinstance(out.segs[0], str) else out


def formatted(x, spec="", conv=""):
    if conv not in ("", "s"):
        if is_num(x):
            conv = ""
        else:
            raise Und("conversion")
    if isinstance(x, (str, int, float, bool)) or x is None:
        try:
            return format(str(x) if conv or x is None else x, spec)
        except ValueError as ex:
            raise Reject(str(ex), "ValueError")
    if isinstance(x, Fr):
        return format(int(x) if x.denominator == 1 and not spec.endswith(("e", "f", "g")) else float(x), spec)
    if isinstance(x, Num):
        return Text([V(x, spec)])
    if isinstance(x, Sym):
        return Text([V(x, spec)])
    if isinstance(x, Text):
        v = V(Sym(""), spec)
        if v.width:
            w = width(x)
            pad = " " * max(0, v.width - w)
            return glue([x, pad] if v.align == "<" else [pad, x])
        return x
    raise Und("format")


def width(x):
    n = 0
    for s in text(x).segs:
        if isinstance(s, str):
            n += len(s)
        elif s.width:
            n += s.width
        else:
            raise Und("a width")
    return n


class Tok:
    """What stands between separators."""

    def __init__(self, parts):
        self.parts = parts

    def literal(self):
        return "".join(self.parts) if all(isinstance(x, str) for x in self.parts) else None

    def value(self):
        if len(self.parts) == 1 and isinstance(self.parts[0], V):
            return self.parts[0]
        s = self.literal()
        if s is not None:
            try:
                return V(Fr(s.replace("d", "e").replace("D", "e")))
            except ValueError:
                return None
        return None

    def name(self):
        return self.parts[0].x if len(self.parts) == 1 and isinstance(self.parts[0], V) else self.literal()

    def __repr__(self):
        return "".join(x if isinstance(x, str) else "{" + repr(x) + "}" for x in self.parts)


def room(v):
    """Blanks are left of (or right of) the value, whatever it is."""
    if not v.width:
        return 0, 0
    if not is_num(v.x):
        free = 0
    elif v.type in "eE" and v.type:
        free = v.width - ((v.prec if v.prec is not None else 6) + 8)
    elif v.type in "fF" and v.type:
        free = v.width - ((v.prec if v.prec is not None else 6) + 6)
    else:
        free = 0
    if free <= 0:
        return 0, 0
    return (free, 0) if v.align != "<" else (0, free)


def lines(x):
    """Lines of a text, each a list of tokens; a solidus is a token."""
    out, cur, tok = [], [], []

    def end():
        nonlocal tok
        if tok:
            cur.append(Tok(tok))
            tok = []
    for s in text(x).segs:
        if isinstance(s, V):
            lf, rt = room(s)
            if lf:
                end()
            tok.append(s)
            if rt:
                end()
            continue
        for piece in re.split(r"([\s/])", s):
            if piece == "":
                continue
            if piece == "/":
                if tok and any(isinstance(y, V) for y in tok) or not tok:
                    end()
                    cur.append(Tok(["/"]))
                elif "".join(tok).isalpha() and "".join(tok) in KEYWORDS:
                    end()
                    cur.append(Tok(["/"]))
                else:
                    try:
                        Fr("".join(tok))
                        end()
                        cur.append(Tok(["/"]))
                    except ValueError:
                        tok.append("/")
            elif piece.isspace():
                end()
                if piece == "\n":
                    out.append(cur)
                    cur = []
            else:
                tok.append(piece)
    end()
    if cur:
        out.append(cur)
    return out


KEYWORDS = ("LOW", "HIGH", "TROE", "SRI", "PLOG", "TCHEB", "PCHEB", "CHEB", "FORD", "DUP", "DUPLICATE", "REV", "RORD", "LT")


# --------------------------------------------------------------------- the abstract model
class O:
    def __init__(self, kind, cls=(), **at):
        self.kind, self.cls, self.at = kind, cls, at

    def __repr__(self):
        return self.kind


class Arr(list):
    """numpy array"""


def arrhenius(tag):
    return O("arrhenius", ("ArrheniusRate", "ArrheniusRateBase"), pre_exponential_factor=sym("A" + tag), temperature_exponent=sym("b" + tag),
             activation_energy=sym("Ea" + tag), type="Arrhenius", sub_type="")


FUNCS = {"Lindemann": 0, "Troe": 3, "Troe4": 4, "SRI": 5}
SUPPORTED = ["Arrhenius", "three-body-Arrhenius"] + [f"{k}-{f}" for k in ("falloff", "chemically-activated") for f in FUNCS] + \
            ["pressure-dependent-Arrhenius", "Chebyshev"]
UNSUPPORTED = ["Blowers-Masel", "three-body-Blowers-Masel", "two-temperature-plasma", "three-body-two-temperature-plasma", "falloff-Tsang",
               "chemically-activated-Tsang", "electron-collision-plasma", "interface-Arrhenius", "linear-Burke", "three-body-pressure-dependent-Arrhenius"]
NAMES = [Sym("species a"), Sym("species b"), Sym("species c")]
ABSENT = Sym("a species that is not in the model")


def rate_of(kind, tag=""):
    if kind in ("Arrhenius", "three-body-Arrhenius"):
        return arrhenius(tag)
    if kind.startswith(("falloff-", "chemically-activated-")):
        f = kind.rsplit("-", 1)[1]
        n = FUNCS.get(f, 2)
        f = f.rstrip("4")
        return O("falloff rate", (f + "Rate", "FalloffRate"), low_rate=arrhenius("_low" + tag), high_rate=arrhenius("_high" + tag), falloff_coeffs=Arr(sym(f"c{i}{tag}") for i in range(n)),
                 sub_type=f, type="falloff" if kind.startswith("f") else "chemically-activated", chemically_activated=kind.startswith("c"),
                 falloff_function=None)
    if kind.endswith("pressure-dependent-Arrhenius"):
        return O("pressure-log rate", ("PlogRate",), rates=[(sym("P0" + tag), arrhenius("_0" + tag)), (sym("P1" + tag), arrhenius("_1" + tag))], type=kind, sub_type="")
    if kind == "Chebyshev":
        return O("Chebyshev rate", ("ChebyshevRate",), data=Arr(Arr(sym(f"d{i}{j}{tag}") for j in range(3)) for i in range(2)), n_temperature=2, n_pressure=3,
                 temperature_range=(sym("Tmin" + tag), sym("Tmax" + tag)), pressure_range=(sym("Pmin" + tag), sym("Pmax" + tag)), type=kind, sub_type="")
    return O("another rate", ("BlowersMaselRate",), pre_exponential_factor=sym("A"), temperature_exponent=sym("b"), activation_energy=sym("Ea"),
             type=kind, sub_type="")


class Rx:
    """One reaction."""

    def __init__(self, kind="Arrhenius", body=None, dup=False, orders=False, coefs=None, rev=True, tag=""):
        self.kind, self.body, self.dup, self.orders, self.tag = kind, body, dup, orders, tag
        a, b, c = NAMES
        self.reactants = {a: sym("nu_a" + tag), b: sym("nu_b" + tag)} if coefs is None else {n: Fr(x) for n, x in zip(NAMES, coefs)}
        self.order_map = {a: sym("order_a" + tag)} if orders else {}
        tot = {**self.reactants, **self.order_map}
        self.order = Fr(0)
        for x in tot.values():
            self.order = num_add(self.order, x)
        self.eff, self.default = {}, Fr(1)
        tb = None
        if body:
            name = "M"
            if body == "plain":
                self.eff = {}
            elif body == "listed":
                self.eff = {a: sym("eff_a" + tag), ABSENT: sym("eff_x" + tag)}
            elif body == "zero":
                self.eff = {a: Fr(0), b: sym("eff_b" + tag)}
            elif body == "default":
                self.eff, self.default = {a: sym("eff_a" + tag)}, sym("eff_default" + tag)
            elif body == "zero default":
                self.eff, self.default = {a: sym("eff_a" + tag), b: sym("eff_b" + tag)}, Fr(0)
            else:
                name, self.eff, self.default = a, {a: Fr(1)}, Fr(0)
            tb = O("third body", ("ThirdBody",), name=name, efficiencies=self.eff, default_efficiency=self.default, mass_action=not kind.startswith(("f", "c")))
        self.equation = Sym("equation" + tag)
        rt = kind[:-1] if kind.endswith("4") else kind
        self.o = O("reaction", ("Reaction",), reaction_type=rt, equation=self.equation, reactants=self.reactants, products={c: Fr(1)}, orders=self.order_map,
                   reversible=rev, duplicate=dup, third_body=tb, rate=rate_of(kind, tag), ID="", allow_negative_orders=False, allow_nonreactant_orders=False)
        self.desc = kind + (f", third body ({body})" if body else "") + (", duplicate" if dup else "") + (", explicit orders" if orders else "") + \
            (f", coefficients {', '.join(map(str, coefs))}" if coefs else "")


class World:
    """Some reactions, three species."""

    def __init__(self, rx=None, thermo="NASA", transport=(True,) * 3, geometry="linear", nel=2, letters=6, desc=""):
        self.rx = rx or [Rx()]
        self.letters = letters                     # length of names
        self.asked, self.called = {}, None         # names compared with a text; the name that equals one
        self.kind = self.rx[0].kind
        self.thermo = thermo
        self.species = []
        for i, n in enumerate(NAMES):
            t = str(i)
            if thermo == "NASA":
                th = O("thermo", ("NasaPoly2", "SpeciesThermo"), coeffs=Arr(sym(f"c{j}_{t}") for j in range(15)), min_temp=sym("Tlow_" + t), max_temp=sym("Thigh_" + t),
                       n_coeffs=15, reference_pressure=sym("Pref"), derived_type=4)
            else:
                k = {"Shomate": 15, "NASA9": 21, "constant": 4}[thermo]
                th = O("thermo", ({"Shomate": "ShomatePoly2", "NASA9": "Nasa9PolyMultiTempRegion", "constant": "ConstantCp"}[thermo], "SpeciesThermo"),
                       coeffs=Arr(sym(f"c{j}_{t}") for j in range(k)), min_temp=sym("Tlow_" + t), max_temp=sym("Thigh_" + t), n_coeffs=k)
            tr = O("transport", ("GasTransportData",), geometry=geometry, well_depth=sym("well_" + t), diameter=sym("diam_" + t), dipole=sym("dip_" + t),
                   polarizability=sym("pol_" + t), rotational_relaxation=sym("rot_" + t), acentric_factor=sym("acentric_" + t),
                   dispersion_coefficient=sym("disp_" + t), quadrupole_polarizability=sym("quad_" + t)) if transport[i] else None
            self.species.append(O("species", ("Species",), name=n, composition={Sym(f"element {j}"): sym(f"n{j}_{t}") for j in range(nel)}, thermo=th, transport=tr,
                                  charge=Fr(0)))
        self.elements = [Sym("element X"), Sym("element Y")]
        self.solution = O("solution", ("Solution",), name=Sym("model name"), element_names=self.elements, species_names=list(NAMES), n_species=3,
                          n_reactions=len(self.rx), n_elements=2)
        self.desc = desc or " and ".join(x.desc for x in self.rx)


RATE_ATTRS = {"low_rate", "high_rate", "falloff_coeffs", "rates", "data", "temperature_range", "pressure_range", "n_temperature", "n_pressure",
              "pre_exponential_factor", "temperature_exponent", "activation_energy", "chemically_activated"}


class Loops(dict):
    def __init__(self, r):
        dict.__init__(self, r.loops)
        self.interp, self.memo = r.interp, {}

    def freeze(self, x, st):
        """x with the content that objects have in state st."""
        if st is None:
            return x
        k = (x, id(st))
        if k not in self.memo:
            self.memo[k] = self.interp.freeze(x, st)
        return self.memo[k]


class Eval:
    def __init__(self, w, params, loops):
        self.w, self.params, self.loops = w, params, loops
        self.memo = {}
        self.keep = []
        self.guess = None

    def v(self, n, env=()):
        k = (n, tuple([id(x) for b in env for x in b]))
        self.keep.append(env)
        if k in self.memo:
            x = self.memo[k]
            if isinstance(x, Exception):
                raise x
            return x
        try:
            x = self.v0(n, env)
        except (Und, Reject) as ex:
            self.memo[k] = ex
            raise
        self.memo[k] = x
        return x

    def v0(self, n, env):
        for b, x in reversed(env):
            if b is n:
                return x
        if n in self.params:
            return self.params[n]
        m = getattr(self, "op_" + n.op, None)
        if m is None:
            raise Und(f"unrecognised: {n.op}")
        return m(n, env)

    def t(self, n, env=()):
        return self.truth(self.v(n, env))

    def truth(self, x):
        if isinstance(x, Num):
            self.guess = "a number is not zero"
            return True
        if isinstance(x, (Sym, O, Text)):
            return True
        if isinstance(x, Arr):
            return len(x) > 0              # also stands for len(x) > 0
        if isinstance(x, (bool, int, float, Fr, str, list, tuple, dict, type(None))):
            return bool(x)
        raise Und("truth")

    # ----- logic
    def op_const(self, n, env):
        return cval(n)

    def op_truth(self, n, env):
        return self.t(n.a[0], env)

    def op_not(self, n, env):
        return not self.t(n.a[0], env)

    def junction(self, n, env, stop):
        bad = None
        for x in n.a:
            try:
                if self.t(x, env) == stop:
                    return stop
            except (Und, Reject) as ex:
                bad = ex if bad is None or isinstance(ex, Und) else bad
        if bad:
            raise bad
        return not stop

    def op_and(self, n, env):
        return self.junction(n, env, False)

    def op_or(self, n, env):
        return self.junction(n, env, True)

    def op_phi(self, n, env):
        return self.v(n.a[1] if self.t(n.a[0], env) else n.a[2], env)

    def same(self, a, b):
        for x, y in ((a, b), (b, a)):
            if isinstance(x, Sym) and isinstance(y, str):
                if y != "M":
                    self.w.asked[(x, y)] = True
                return self.w.called == (x, y)
        if isinstance(a, (Sym, O)) or isinstance(b, (Sym, O)):
            return a is b
        if is_num(a) and is_num(b):
            if isinstance(a, Num) or isinstance(b, Num):
                r = poly(a) == poly(b)
                if not r:
                    self.guess = "numbers of the model are generic"
                return r
            return poly(a) == poly(b)
        if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
            if isinstance(a, Arr) or isinstance(b, Arr):
                raise Und("comparison of arrays")
            return len(a) == len(b) and type(a) is type(b) and all(self.same(x, y) for x, y in zip(a, b))
        if isinstance(a, Text) or isinstance(b, Text):
            raise Und("comparison of texts")
        if isinstance(a, Fn) or isinstance(b, Fn):
            return isinstance(a, Fn) and isinstance(b, Fn) and a.name == b.name
        return type(a) is type(b) and a == b or isinstance(a, (bool, int, float, Fr)) and isinstance(b, (bool, int, float, Fr)) and a == b

    def op_eq(self, n, env):
        return self.same(self.v(n.a[0], env), self.v(n.a[1], env))

    def op_is(self, n, env):
        a, b = self.v(n.a[0], env), self.v(n.a[1], env)
        if a is None or b is None or isinstance(a, bool) and isinstance(b, bool):
            return a is b
        if isinstance(a, Fn) and isinstance(b, Fn):
            return a.name == b.name
        raise Und("identity")

    def op_in(self, n, env):
        a, b = self.v(n.a[0], env), self.v(n.a[1], env)
        if isinstance(b, (list, tuple, dict)):
            return any(self.same(a, x) for x in b)
        if isinstance(a, str) and isinstance(b, str):
            return a in b
        if isinstance(b, Sym) and isinstance(a, str):
            raise Und("part of a name")
        raise Und("membership")

    def order(self, n, env, strict):
        a, b = self.v(n.a[0], env), self.v(n.a[1], env)
        if is_num(a) and is_num(b):
            d = poly(num_add(b, a, -1))
            if not d:
                return not strict
            if list(d) == [()]:
                return d[()] > 0
            if all(m and all(str(x).startswith("eff_") for x, _ in m) for m in d):       # not negative; zero is a case of its own
                if all(c > 0 for c in d.values()):
                    return True
                if all(c < 0 for c in d.values()):
                    return False
        raise Und("order of numbers of the model")

    def op_lt(self, n, env):
        return self.order(n, env, True)

    def op_le(self, n, env):
        return self.order(n, env, False)

    # ----- numbers
    def op_bin(self, n, env):
        return self.binary(n.a[0], self.v(n.a[1], env), self.v(n.a[2], env))

    def binary(self, o, a, b):
        if o == "+" and all(isinstance(x, (str, Text, Sym)) for x in (a, b)):
            return glue([a, b])
        if o == "*" and isinstance(a, str) and isinstance(b, int):
            return a * b
        if o == "*" and isinstance(b, str) and isinstance(a, int):
            return a * b
        if o == "%" and isinstance(a, (str, Text)):
            return self.percent(a, b)
        if isinstance(a, Arr) or isinstance(b, Arr):
            if isinstance(a, Arr) and isinstance(b, Arr):
                if len(a) != len(b):
                    raise Reject("arrays of different sizes", "ValueError")
                return Arr(self.binary(o, x, y) for x, y in zip(a, b))
            return Arr(self.binary(o, x, b) for x in a) if isinstance(a, Arr) else Arr(self.binary(o, a, y) for y in b)
        if o == "+" and isinstance(a, list) and isinstance(b, list):
            return a + b
        if o == "+" and isinstance(a, tuple) and isinstance(b, tuple):
            return a + b
        if o == "|" and isinstance(a, dict) and isinstance(b, dict):
            return {**a, **b}
        if not (is_num(a) or isinstance(a, bool)) or not (is_num(b) or isinstance(b, bool)):
            raise Und("arithmetic")
        if o in "+-":
            return num_add(a, b, 1 if o == "+" else -1)
        if o == "*":
            return num_mul(a, b)
        if o == "/":
            if not poly(b):
                raise Reject("division by zero", "ZeroDivisionError")
            return num_mul(a, num_pow(b, -1))
        if o == "**":
            return num_pow(a, b)
        if o in ("//", "%") and isinstance(a, int) and isinstance(b, int) and b:
            return a // b if o == "//" else a % b
        raise Und("arithmetic")

    def percent(self, a, b):
        if not isinstance(a, str):
            raise Und("format")
        vals = list(b) if isinstance(b, tuple) else [b]
        out = []
        for piece in re.split(r"(%[-+0-9.]*[a-zA-Z%])", a):
            if re.match(r"%[-+0-9.]*[a-zA-Z]$", piece):
                if not vals:
                    raise Reject("format", "TypeError")
                sp = piece[1:]
                x = vals.pop(0)
                left = sp.startswith("-")
                sp = sp.lstrip("-")
                if sp.endswith(("s", "r", "d", "i")):
                    sp = sp[:-1]
                if re.match(r"[1-9]", sp) or left:
                    sp = ("<" if left else ">") + sp
                out.append(formatted(x, sp))
            else:
                out.append(piece.replace("%%", "%"))
        return glue(out)

    def op_pct(self, n, env):
        return self.percent(self.v(n.a[0], env), self.v(n.a[1], env))

    def op_un(self, n, env):
        x = self.v(n.a[1], env)
        if n.a[0] == "-" and is_num(x):
            return num_mul(x, -1)
        if n.a[0] == "+":
            return x
        raise Und("arithmetic")

    # ----- text
    def op_cat(self, n, env):
        return glue([self.v(x, env) for x in n.a])

    def op_fmt(self, n, env):
        sp = n.a[1]
        sp = sp if isinstance(sp, str) else self.v(sp, env)
        if not isinstance(sp, str):
            raise Und("format")
        cv = n.a[2] if len(n.a) > 2 else ""
        return formatted(self.v(n.a[0], env), sp, cv if isinstance(cv, str) else "")

    # ----- objects
    def attr(self, x, name):
        if x is None:
            raise Reject(f"attribute {name} of None", "AttributeError")
        if isinstance(x, O):
            if name in x.at:
                return x.at[name]
            if name == "__class__":
                return Fn(x.cls[0])
            if name in RATE_ATTRS and (x.kind.endswith("rate") or x.kind == "arrhenius"):
                raise Reject(f"no attribute {name}", "AttributeError")
            if x.kind == "species" and name in ("molecular_weight", "input_data"):
                raise Und(f"attribute {name}")
            raise Und(f"attribute {name} of a {x.kind}")
        if isinstance(x, Fn) and name == "__name__":
            return x.name
        if isinstance(x, Arr):
            if name == "size":
                return sum(len(y) if isinstance(y, Arr) else 1 for y in x)
            if name == "shape":
                return (len(x), len(x[0])) if x and isinstance(x[0], Arr) else (len(x),)
            if name == "T" and x and isinstance(x[0], Arr):
                return Arr(Arr(y) for y in zip(*x))
            if name == "flat":
                return Arr(z for y in x for z in (y if isinstance(y, Arr) else [y]))
            if name == "ndim":
                return 2 if x and isinstance(x[0], Arr) else 1
        raise Und(f"attribute {name}")

    def op_attr(self, n, env):
        return self.attr(self.v(n.a[0], env), n.a[1])

    def op_dynattr(self, n, env):
        b, nm = self.v(n.a[0], env), self.v(n.a[1], env)
        if not isinstance(nm, str):
            raise Und("attribute name")
        try:
            return self.attr(b, nm)
        except Reject:
            if len(n.a) > 2:
                return self.v(n.a[2], env)
            raise

    def op_hasattr(self, n, env):
        b, nm = self.v(n.a[0], env), n.a[1]
        nm = nm if isinstance(nm, str) else self.v(nm, env)
        try:
            self.attr(b, nm)
            return True
        except Reject:
            return False

    def op_spobj(self, n, env):
        return self.one_species(self.v(n.a[0], env), self.v(n.a[1], env))

    def one_species(self, s, i):
        if isinstance(s, O) and s.kind == "solution":
            if isinstance(i, Sym):
                for x in self.w.species:
                    if x.at["name"] is i:
                        return x
                raise Reject("no such species", "CanteraError")
            if isinstance(i, (int, Fr)):
                return self.w.species[int(i)]
        raise Und("one species")

    def op_isinst(self, n, env):
        x, t = self.v(n.a[0], env), n.a[1]
        nm = str(t).split(".")[-1]
        if isinstance(x, O):
            known_ = {"NasaPoly2", "SpeciesThermo", "ShomatePoly2", "ConstantCp", "Nasa9PolyMultiTempRegion", "ArrheniusRate", "ArrheniusRateBase", "FalloffRate",
                      "LindemannRate", "TroeRate", "SriRate", "TsangRate", "PlogRate", "ChebyshevRate", "BlowersMaselRate", "ReactionRate"}
            if nm in x.cls or nm == "ReactionRate" and x.kind.endswith("rate"):
                return True
            if nm in known_ or nm in ("str", "list", "dict", "NoneType"):
                return False if nm != "SriRate" or "SRIRate" not in x.cls else True
        if nm == "str":
            return isinstance(x, (str, Sym, Text))
        if nm == "dict":
            return isinstance(x, dict)
        raise Und("isinstance")

    def op_ext(self, n, env):
        nm = str(n)
        if nm in CONSTS:
            return CONSTS[nm]
        return Fn(nm.split(".")[-1])

    def op_global(self, n, env):
        raise Und("a global")

    def op_closure(self, n, env):
        raise Und("a function")

    def op_meth(self, n, env):
        kw = dict(n.a[3]) if len(n.a) > 3 and n.a[3] else {}
        return self.method(self.v(n.a[0], env), n.a[1], [self.v(x, env) for x in n.a[2]], {k: self.v(x, env) for k, x in kw.items()})

    def method(self, b, nm, xs, kw):
        if b is None:
            raise Reject(f"method {nm} of None", "AttributeError")
        if isinstance(b, O):
            if b.kind == "solution":
                if nm in ("reactions", "species") and not xs:
                    return [x.o for x in self.w.rx] if nm == "reactions" else list(self.w.species)
                if nm == "species" and len(xs) == 1:
                    return self.one_species(b, xs[0])
                if nm == "reaction" and len(xs) == 1 and isinstance(xs[0], int):
                    return self.item([x.o for x in self.w.rx], xs[0])
                if nm == "element_name":
                    return self.w.elements[int(xs[0])]
                if nm == "species_name":
                    return NAMES[int(xs[0])]
            if b.kind == "third body" and nm == "efficiency":
                return b.at["efficiencies"].get(xs[0], b.at["default_efficiency"])
            raise Und(f"method {nm}")
        if isinstance(b, dict):
            if nm in ("keys", "values", "items"):
                return list(b) if nm == "keys" else list(b.values()) if nm == "values" else [(k, x) for k, x in b.items()]
            if nm == "get":
                return self.lookup(b, xs[0], xs[1] if len(xs) > 1 else None)
            if nm == "copy":
                return dict(b)
        if isinstance(b, Arr):
            if nm in ("copy", "tolist"):
                return b
            if nm in ("ravel", "flatten"):
                return self.attr(b, "flat")
            if nm == "any":
                return any(self.truth(x) for x in b)
        if isinstance(b, list) and nm == "copy":
            return list(b)
        if isinstance(b, (str, Text, Sym)):
            if nm == "join" and len(xs) == 1 and isinstance(xs[0], (list, tuple, dict)):
                out = []
                for i, x in enumerate(xs[0]):
                    out += ([b] if i else []) + [x]
                return glue(out)
            if nm == "format" and isinstance(b, str):
                return self.format(b, xs, kw)
            if isinstance(b, str) and all(isinstance(x, (str, int, tuple)) for x in xs) and nm in (
                    "startswith", "endswith", "lower", "upper", "strip", "split", "replace", "ljust", "rjust", "partition", "rpartition", "rsplit", "removeprefix",
                    "removesuffix", "title", "capitalize", "count", "find", "isalpha", "lstrip", "rstrip", "zfill"):
                return getattr(b, nm)(*xs)
            if nm in ("ljust", "rjust") and len(xs) == 1 and isinstance(xs[0], int):
                return formatted(b, ("<" if nm == "ljust" else ">") + str(xs[0]))
            if nm in ("strip", "rstrip", "lstrip") and not xs and isinstance(b, Text):
                s = list(b.segs)
                if nm != "rstrip" and isinstance(s[0], str):
                    s[0] = s[0].lstrip()
                if nm != "lstrip" and isinstance(s[-1], str):
                    s[-1] = s[-1].rstrip()
                return glue([Text(s)])
        raise Und(f"method {nm}")

    def format(self, b, xs, kw):
        out, i = [], 0
        for piece in re.split(r"(\{[^{}]*\})", b):
            if piece[:1] == "{" and piece[-1:] == "}":
                body, _, sp = piece[1:-1].partition(":")
                if body == "":
                    x, i = xs[i], i + 1
                elif body.isdigit():
                    x = xs[int(body)]
                elif body in kw:
                    x = kw[body]
                else:
                    raise Und("format")
                out.append(formatted(x, sp))
            elif "{" in piece or "}" in piece:
                raise Und("format")
            else:
                out.append(piece)
        return glue(out)

    def lookup(self, d, k, default=KeyError):
        for a, x in d.items():
            if self.same(a, k):
                return x
        if default is KeyError:
            raise Reject("no such key", "KeyError")
        return default

    def op_item(self, n, env):
        return self.item(self.v(n.a[0], env), self.v(n.a[1], env))

    def item(self, b, i):
        if isinstance(b, dict):
            return self.lookup(b, i)
        if isinstance(i, Fr) and i.denominator == 1:
            i = int(i)
        if isinstance(b, Arr) and isinstance(i, tuple) and b and isinstance(b[0], Arr):
            r = self.item(b, i[0])
            if isinstance(i[0], slice):
                return Arr(self.item(y, i[1]) for y in r)
            return self.item(r, i[1])
        if isinstance(b, (list, tuple, str)) and isinstance(i, (int, slice)) and not isinstance(i, bool):
            try:
                x = b[i]
            except IndexError:
                raise Reject("index out of range", "IndexError")
            return Arr(x) if isinstance(b, Arr) and isinstance(i, slice) else x
        raise Und("item")

    def op_slice(self, n, env):
        xs = [None if x is None or x is NONE else self.v(x, env) for x in n.a[:3]]
        xs = [int(x) if isinstance(x, Fr) and x.denominator == 1 else x for x in xs]
        if not all(x is None or isinstance(x, int) for x in xs):
            raise Und("slice")
        return slice(*xs)

    def op_tuple(self, n, env):
        return tuple(self.v(x, env) for x in n.a)

    def op_store(self, n, env):
        b, i, x = self.v(n.a[0], env), self.v(n.a[1], env), self.v(n.a[2], env)
        if isinstance(b, dict):
            return {**b, i: x}
        if isinstance(b, Arr) and isinstance(i, tuple) and len(i) == 2 and all(isinstance(j, int) for j in i):
            out = Arr(Arr(r) for r in b)
            out[i[0]][i[1]] = x
            return out
        if isinstance(b, list) and isinstance(i, int):
            out = type(b)(b)
            try:
                out[i] = x
            except IndexError:
                raise Reject("index out of range", "IndexError")
            return out
        raise Und("store")

    # ----- loops
    def seq(self, x):
        if isinstance(x, dict):
            return list(x)
        if isinstance(x, (list, tuple, range)):
            return list(x)
        raise Und("iteration")

    def each(self, it, k, env):
        el, ix = mk("elem", it, k), mk("idx", it, k)
        for i, x in enumerate(self.seq(self.v(it, env))):
            yield env + ((el, x), (ix, i))

    def op_exists(self, n, env):
        it, k, c = n.a[:3]
        return any(self.t(c, e) for e in self.each(it, k, env))

    def op_first(self, n, env):
        for e in self.each(n.a[0], n.a[1], env):
            if self.t(n.a[2], e):
                return self.v(n.a[3], e)
        raise Und("no such item")

    def op_last(self, n, env):
        xs = list(self.each(n.a[0], n.a[1], env))
        return self.v(n.a[2], xs[-1]) if xs else self.v(n.a[3], env)

    def op_sumfor(self, n, env):
        init, it, k, val, c = n.a
        tot = self.v(init, env)
        for e in self.each(it, k, env):
            if self.t(c, e):
                tot = num_add(tot, self.v(val, e))
        return tot

    def op_out(self, n, env):
        lid, name, init, nxt = n.a[:4]
        L = self.loops.get(lid)
        if L is None or L["it"] is None or L["breaks"]:
            raise Und("a loop")
        its = list(self.each(strip_versions(L["it"]), L["k"], env))
        if not its:
            return self.v(init, env)
        its = tuple(e[len(env):] for e in its)
        return self.v(nxt, env + its[-1] + ((lid, (len(its) - 1, its)),))

    def op_mu(self, n, env):
        lid, name = n.a[:2]
        L = self.loops.get(lid)
        for j in range(len(env) - 1, -1, -1):
            if env[j][0] is lid:
                i, its = env[j][1]
                outer = env[:j - len(its[0])]
                if i == 0:
                    x = L["init"][name]
                    if x.op == "ref" and any(k[0] == "h" and str(k[1]) == str(x) for k in L["next"]):
                        raise Und("an object carried by a loop")
                    return self.v(strip_versions(self.loops.freeze(x, L["entry"])), outer)
                return self.v(strip_versions(self.loops.freeze(L["next"][name], L["nxt"])), outer + its[i - 1] + ((lid, (i - 1, its)),))
        raise Und("a value carried by a loop")

    def op_coll(self, n, env):
        out = []
        kind = n.a[0]

        def walk(es, env):
            for e in es:
                if e[0] == "item":
                    out.append(self.v(e[1], env))
                elif e[0] == "kv":
                    out.append((self.v(e[1], env), self.v(e[2], env)))
                elif e[0] == "splice":
                    x = self.v(e[1], env)
                    out.extend(x.items() if kind == "dict" and isinstance(x, dict) else self.seq(x))
                elif e[0] == "if":
                    if self.t(e[1], env):
                        walk(e[2], env)
                elif e[0] == "for":
                    for e2 in self.each(e[1], e[2], env):
                        walk(e[3], e2)
                else:
                    raise Und("list")
        walk(n.a[1], env)
        if kind == "dict":
            d = {}
            for k, x in out:
                d[k] = x
            return d
        if kind == "set":
            u = []
            for x in out:
                if not any(self.same(x, y) for y in u):
                    u.append(x)
            return u
        return tuple(out) if kind == "tuple" else out

    def op_call(self, n, env):
        nm, kw = n.a[0], dict(n.a[2])
        if not isinstance(nm, str):
            if nm.op == "attr":
                return self.method(self.v(nm.a[0], env), nm.a[1], [self.v(x, env) for x in n.a[1]], {k: self.v(x, env) for k, x in kw.items()})
            raise Und("call")
        s = nm.split(".")[-1]
        xs = [self.v(x, env) for x in n.a[1]]
        if s in ("fill", "wrap") and nm.startswith("textwrap") and isinstance(xs[0], (str, Text)):
            ks = {k: self.v(x, env) for k, x in kw.items()}
            safe = ks.get("break_long_words") is False and ks.get("break_on_hyphens") is False
            y = xs[0] if safe else Text([V(z.x, z.spec, True) if isinstance(z, V) else z for z in text(xs[0]).segs])
            return [y] if s == "wrap" else y
        kw = {k: self.v(x, env) for k, x in kw.items()}
        if nm == "builtins.sum" and len(xs) >= 1:
            tot = xs[1] if len(xs) > 1 else Fr(0)
            for x in self.seq(xs[0]):
                tot = num_add(tot, x)
            return tot
        if s in ("str", "repr") and len(xs) == 1:
            if isinstance(xs[0], Num):
                return Text([V(xs[0])])
            if s == "str" and isinstance(xs[0], (str, Text, Sym)):
                return xs[0]
            if isinstance(xs[0], (int, float, Fr)):
                return formatted(xs[0])
        if nm == "builtins.format":
            return formatted(xs[0], xs[1] if len(xs) > 1 else "")
        if s == "len" and len(xs) == 1 and isinstance(xs[0], (list, tuple, dict, str)):
            return len(xs[0])
        if s == "len" and len(xs) == 1 and isinstance(xs[0], Sym):
            return self.w.letters
        if s == "range" and all(isinstance(x, int) for x in xs):
            return list(range(*xs))
        if s == "zip":
            return [tuple(y) for y in zip(*(self.seq(x) for x in xs))]
        if s == "enumerate":
            st = xs[1] if len(xs) > 1 else kw.get("start", 0)
            return [(i + st, y) for i, y in enumerate(self.seq(xs[0]))]
        if s in ("list", "tuple", "iter") and nm.startswith("builtins") and len(xs) <= 1:
            return self.seq(xs[0]) if xs else []
        if s == "reversed":
            return self.seq(xs[0])[::-1]
        if s == "dict" and nm.startswith("builtins") and len(xs) == 1:
            return dict(xs[0]) if isinstance(xs[0], dict) else {a: b for a, b in xs[0]}
        if s in ("array", "asarray", "copy", "deepcopy", "atleast_1d") and len(xs) == 1:
            return Arr(xs[0]) if isinstance(xs[0], (list, tuple)) else xs[0]
        if s == "ravel" and isinstance(xs[0], Arr):
            return self.attr(xs[0], "flat")
        if s == "size" and isinstance(xs[0], Arr):
            return self.attr(xs[0], "size")
        if s == "shape" and isinstance(xs[0], Arr):
            return self.attr(xs[0], "shape")
        if s in ("float", "float64") and len(xs) == 1 and is_num(xs[0]):
            return xs[0]
        if s == "bool" and len(xs) == 1:
            return self.truth(xs[0])
        if s == "int" and len(xs) == 1 and is_num(xs[0]):
            x = xs[0]
            if isinstance(x, Num):
                if len(x.p) == 1 and all(str(a).startswith("n") and not str(a).startswith("nu") and e == 1 for a, e in list(x.p)[0]):
                    return x
                return Num({((("int", repr(x)), 1),): Fr(1)})
            return int(x)
        if s in ("round", "floor", "ceil", "rint", "trunc"):
            x = xs[0]
            if isinstance(x, Num):
                if len(x.p) == 1 and all(str(a).startswith("n") and not str(a).startswith("nu") and e == 1 for a, e in list(x.p)[0]):
                    return x
                raise Und("rounding")
            return Fr(round(x, *xs[1:])) if s == "round" and len(xs) < 3 and is_num(x) else self.undefined(nm)
        if s in ("abs", "fabs", "absolute") and is_num(xs[0]):
            x = back(poly(xs[0]))
            return Num({((("abs", repr(x)), 1),): Fr(1)}) if isinstance(x, Num) else abs(x)
        if s in ("pow", "power", "float_power") and len(xs) == 2:
            return num_pow(xs[0], xs[1])
        if s == "log10" and is_num(xs[0]):
            return log10(xs[0])
        if s == "any" and isinstance(xs[0], list):
            return any(self.truth(x) for x in xs[0])
        if s == "all" and isinstance(xs[0], list):
            return all(self.truth(x) for x in xs[0])
        if s in ("max", "min") and isinstance(xs[0], (Fr, int)) and all(isinstance(x, (Fr, int)) for x in xs):
            return (max if s == "max" else min)(xs)
        if s == "type" and len(xs) == 1:
            return Fn(xs[0].cls[0]) if isinstance(xs[0], O) else Fn("NoneType") if xs[0] is None else self.undefined(nm)
        if s == "sorted" and isinstance(xs[0], (list, dict)) and all(isinstance(x, Fr) for x in self.seq(xs[0])):
            return sorted(self.seq(xs[0]))
        if s == "sorted" and isinstance(xs[0], (list, dict)):
            return Perm(self.seq(xs[0]))
        if s == "callable":
            return False
        if nm.startswith("os.path") or nm == "builtins.open":
            return Sym(nm)
        return self.undefined(nm)

    @staticmethod
    def undefined(nm):
        raise Und(f"call {nm}")


class Perm(list):
    """Another order."""


class Fn:
    def __init__(self, name):
        self.name = name


# --------------------------------------------------------------------- the files
class File:
    """What is written to one file."""

    def __init__(self):
        self.parts = []

    def text(self):
        return glue(self.parts)


class Run:
    """All events of the export in order, read in one world."""

    def __init__(self, r, ev, skip=()):
        self.r, self.ev, self.skip = r, ev, skip
        self.files = {}
        self.order = []
        evs = [e for e in r.events if self.relevant(e)]
        self.go(evs, 0, ())

    @staticmethod
    def relevant(e):
        if e.kind == "raise":
            return True
        if e.kind == "meth" and e.name in ("write", "writelines") and e.args:
            return True
        return e.kind == "call" and e.name == "builtins.print" and any(k == "file" for k, _ in kwargs(e)) or \
            e.kind == "meth" and e.name in ("write_text", "write_bytes", "truncate", "seek")

    def go(self, evs, d, env):
        i = 0
        while i < len(evs):
            e = evs[i]
            if len(e.pc) <= d:
                self.emit(e, env)
                i += 1
                continue
            p = e.pc[d]
            j = i
            while j < len(evs) and len(evs[j].pc) > d and evs[j].pc[d] == p:
                j += 1
            grp = evs[i:j]
            i = j
            if p[0] == "g":
                if self.ev.t(strip_versions(p[1]), env):
                    self.go(grp, d + 1, env)
            elif p[0] == "loop":
                lid = p[1]
                L = self.r.loops.get(lid)
                if L is None or L["breaks"] or p[2] is None:
                    raise Und("a loop")
                its = list(self.ev.each(strip_versions(p[2]), p[3], env))
                its = tuple(x[len(env):] for x in its)
                for n, x in enumerate(its):
                    self.go(grp, d + 1, env + x + ((lid, (n, its)),))
            elif p[0] == "with":
                self.go(grp, d + 1, env)
            elif p[0] in ("handler", "finally", "try"):
                raise Und(f"writing inside {p[0]}")
            else:
                raise Und(str(p[0]))

    def emit(self, e, env):
        if e.kind == "raise":
            raise Reject(f"raises {e.name} at line {e.loc[1]}", e.name)
        if e.name in ("write_text", "write_bytes", "truncate", "seek"):
            raise Und("writing")
        if e.kind == "meth":
            h = strip_versions(e.args[0])
            x = [self.ev.v(strip_versions(a), env) for a in e.args[1:]]
            xs = x if e.name == "write" else list(x[0])
        else:
            kw = dict(kwargs(e))
            h = strip_versions(kw["file"])
            sep = self.ev.v(kw["sep"], env) if "sep" in kw else " "
            end = self.ev.v(kw["end"], env) if "end" in kw else "\n"
            xs = []
            for i, a in enumerate(e.args):
                y = self.ev.v(strip_versions(a), env)
                xs += ([sep] if i else []) + [y if isinstance(y, (str, Text)) else formatted(y)]
            xs.append(end)
        if h.op != "call" or h.a[0] != "builtins.open":
            raise Und("writing to an unknown file")
        if h not in self.files:
            self.files[h] = File()
            self.order.append(h)
        self.files[h].parts += [text(y) for y in xs]


def kwargs(e):
    kw = getattr(e, "kw", None) or ()
    return list(kw.items()) if isinstance(kw, dict) else list(kw)


def kind_of_file(f):
    lits = " ".join(s for s in text(f.text()).segs if isinstance(s, str))
    return "reactions" if "REACTIONS" in lits else "thermo" if "THERMO" in lits else "transport"


# --------------------------------------------------------------------- records of the format
class Bad(Exception):
    def __init__(self, key, what):
        Exception.__init__(self, what)
        self.key = key


def section(ls, word, alts=()):
    """Lines between a keyword and END; (rest of the keyword line, lines)."""
    for i, l in enumerate(ls):
        if l and l[0].literal() is not None and l[0].literal().upper() in (word,) + tuple(alts):
            out = []
            for m in ls[i + 1:]:
                if m and m[0].literal() is not None and m[0].literal().upper() == "END":
                    return l[1:], out
                out.append(m)
            return l[1:], out
    return None, None


def uncomment(ls):
    out = []
    for l in ls:
        keep = []
        for t in l:
            if t.parts and isinstance(t.parts[0], str) and t.parts[0].startswith("!"):
                break
            keep.append(t)
        if keep:
            out.append(keep)
    return out


def clash(t):
    return any(isinstance(x, V) for x in t.parts) and len(t.parts) > 1


def reaction_records(body, eqs):
    """[(main values, [(keyword, tokens)], {name: value})] of the lines of the reactions section."""
    recs = []
    for l in body:
        for t in l:
            if clash(t):
                raise Bad("separated", f"nothing separates the values in {t}")
            if any(isinstance(p, V) and not is_num(p.x) and (p.broken or p.prec is not None) for p in t.parts):
                raise Bad("line", f"{t} may be cut or broken")
        head = l[0]
        if isinstance(head.parts[0], V) and any(head.parts[0].x is eq for eq in eqs):
            recs.append(([t.value() for t in l[1:]], [], [], head.parts[0].x))
            if None in recs[-1][0]:
                raise Bad("line", f"the line of a reaction is {' '.join(map(repr, l))}")
            continue
        if not recs:
            raise Bad("line", f"{' '.join(map(repr, l))} comes before the line of the reaction")
        i = 0
        while i < len(l):
            s = l[i].literal()
            up = s.upper() if s else ""
            if up.startswith("DUP"):
                recs[-1][1].append(("DUP", []))
                i += 1
                continue
            if i + 1 >= len(l) or l[i + 1].literal() != "/":
                raise Bad("line", f"unreadable line: {' '.join(map(repr, l))}")
            j = i + 2
            while j < len(l) and l[j].literal() != "/":
                j += 1
            if j >= len(l):
                raise Bad("line", f"unreadable line: {' '.join(map(repr, l))}")
            vals = l[i + 2:j]
            if up in KEYWORDS:
                recs[-1][1].append((up, vals))
            else:
                if len(vals) != 1:
                    raise Bad("line", f"unreadable line: {' '.join(map(repr, l))}")
                recs[-1][2].append((l[i].name(), vals[0].value()))
            i = j + 1
    return recs


def significant(v):
    """(significant digits or None, decimals or None); (None, None) for all digits."""
    if v.type in ("e", "E"):
        return (v.prec if v.prec is not None else 6) + 1, None
    if v.type in ("f", "F"):
        return None, v.prec if v.prec is not None else 6
    if v.type in ("g", "G") or v.type == "" and v.prec is not None:
        return (v.prec if v.prec is not None else 6), None
    return None, None


class Out:
    def __init__(self):
        self.bad, self.und, self.n, self.loss = None, None, 0, None

    def fail(self, x):
        self.bad = self.bad or x


def match(v, want, key_, what, sig, dec, loss):
    if v is None or not is_num(v.x):
        raise Bad(key_, f"{what} is {v}")
    if not close_num(v.x, want):
        raise Bad(key_, f"{what} is {show(v.x)} instead of {show(want)}")
    s, d = significant(v)
    if isinstance(v.x, Num) and (s is not None and s < sig or d is not None and d < dec):
        loss.append(f"{what} is written as {v.spec}")


def show(x):
    return repr(back(poly(x))) if isinstance(x, Num) else f"{float(x):g}"


def shifted(tag, order, k):
    """pre-exponential factor in mol-cm-s units, for a rate of the order `order` + k"""
    return num_mul(sym("A" + tag), num_pow(Fr(10), num_mul(3, num_add(order, k))))


def arr(vals, tag, order, k, energy, key_, what, loss):
    if len(vals) != 3:
        raise Bad(key_, f"{what} has {len(vals)} numbers")
    match(vals[0], shifted(tag, order, k), key_, f"the pre-exponential factor of {what}", 4, 99, loss)
    match(vals[1], sym("b" + tag), key_, f"the temperature exponent of {what}", 4, 3, loss)
    match(vals[2], num_mul(sym("Ea" + tag), 1 / energy), key_, f"the activation energy of {what}", 4, 1, loss)


def check_reaction(w, run, loss):
    """Raises Bad."""
    f = [x for x in run.files.values() if kind_of_file(x) == "reactions"]
    if len(f) != 1:
        raise Und("the file of the reactions")
    rest, body = section(uncomment(lines(f[0].text())), "REACTIONS", ("REAC",))
    if rest is None:
        raise Und("no section of the reactions")
    energy = CAL
    for t in rest:
        u = (t.literal() or "").upper()
        if u in ENERGY:
            energy = ENERGY[u]
        elif u not in ("MOLES",):
            raise Und(f"units {t}")
    recs = reaction_records(body, [x.equation for x in w.rx])
    if [x[3] for x in recs] != [x.equation for x in w.rx]:
        raise Bad("line", f"records of {[x[3].label for x in recs]} for reactions {[x.equation.label for x in w.rx]}")
    for x, (main, aux, eff, _) in zip(w.rx, recs):
        record(x, main, aux, eff, energy, loss)


def record(w, main, aux, eff, energy, loss):
    by = {}
    for k, vals in aux:
        by.setdefault(k, []).append([t.value() for t in vals])
    o, tg = w.order, w.tag
    kd = w.kind
    expected = set()
    kk = f"rate.{kd.rstrip('4')}"
    if kd == "Arrhenius":
        arr(main, tg, o, -1, energy, kk, "the rate", loss)
    elif kd == "three-body-Arrhenius":
        arr(main, tg, o, 0, energy, kk, "the rate", loss)
    elif kd.startswith(("falloff-", "chemically-activated-")):
        fo = kd.startswith("falloff")
        lo, hi = ("LOW", None) if fo else (None, "HIGH")
        word = lo or hi
        expected.add(word)
        if len(by.get(word, [])) != 1:
            raise Bad(kk, f"{len(by.get(word, []))} {word} entries")
        if fo:
            arr(main, "_high" + tg, o, -1, energy, kk, "the high-pressure limit", loss)
            arr(by["LOW"][0], "_low" + tg, o, 0, energy, kk, "the low-pressure limit", loss)
        else:
            arr(main, "_low" + tg, o, -1, energy, kk, "the low-pressure limit", loss)
            arr(by["HIGH"][0], "_high" + tg, o, -2, energy, kk, "the high-pressure limit", loss)
        fn = kd.rsplit("-", 1)[1]
        if fn != "Lindemann":
            word = "SRI" if fn == "SRI" else "TROE"
            expected.add(word)
            kf = f"falloff.{fn.rstrip('4')}"
            n = FUNCS[fn]
            if len(by.get(word, [])) != 1 or len(by[word][0]) != n:
                raise Bad(kf, f"{word} entries: {by.get(word, [])}")
            for i, v in enumerate(by[word][0]):
                match(v, sym(f"c{i}{tg}"), kf, f"{word} parameter {i + 1}", 4, 2, loss)
    elif kd == "pressure-dependent-Arrhenius":
        expected.add("PLOG")
        if len(main) != 3:
            raise Bad(kk, f"the line of the reaction has {len(main)} numbers")
        t = by.get("PLOG", [])
        if len(t) != 2:
            raise Bad(kk, f"{len(t)} PLOG entries for two pressures")
        for i, vals in enumerate(t):
            if len(vals) != 4:
                raise Bad(kk, f"a PLOG entry has {len(vals)} numbers")
            match(vals[0], num_mul(sym(f"P{i}{tg}"), 1 / ATM), kk, f"pressure {i + 1}", 4, 99, loss)
            arr(vals[1:], f"_{i}{tg}", o, -1, energy, kk, f"the rate at pressure {i + 1}", loss)
    else:
        expected |= {"TCHEB", "PCHEB", "CHEB"}
        if len(main) != 3:
            raise Bad(kk, f"the line of the reaction has {len(main)} numbers")
        for word, un, pre in (("TCHEB", 1, "T"), ("PCHEB", ATM, "P")):
            t = by.get(word, [])
            if len(t) != 1 or len(t[0]) != 2:
                raise Bad(kk, f"{word} entries: {t}")
            for v, x in zip(t[0], ("min", "max")):
                match(v, num_mul(sym(pre + x + tg), 1 / Fr(un)), kk, f"the {x}imum of {word}", 4, 1 if un == 1 else 99, loss)
        vals = [v for x in by.get("CHEB", []) for v in x]
        want = [Fr(2), Fr(3)] + [sym(f"d{i}{j}{tg}") for i in range(2) for j in range(3)]
        if len(vals) != len(want):
            raise Bad(kk, f"{len(vals)} Chebyshev numbers instead of {len(want)}")
        want[2] = num_add(want[2], num_mul(3, num_add(o, -1)))
        for i, (v, x) in enumerate(zip(vals, want)):
            match(v, x, kk, f"Chebyshev number {i + 1}", 5, 99, loss)
    if w.orders:
        expected.add("FORD")
        t = [vals for k, vals in aux if k == "FORD"]
        if len(t) != 1 or len(t[0]) != 2 or t[0][0].name() is not NAMES[0]:
            raise Bad("orders", f"FORD entries: {t}")
        match(t[0][1].value(), sym("order_a" + tg), "orders", "the order", 3, 3, loss)
    elif "FORD" in by:
        expected.add("FORD")
        names = [vals[0].name() for k, vals in aux if k == "FORD"]
        for k, vals in aux:
            if k == "FORD":
                if len(vals) != 2 or vals[0].name() not in w.reactants:
                    raise Bad("orders", f"FORD entries: {vals}")
                match(vals[1].value(), w.reactants[vals[0].name()], "orders", "the order", 3, 3, loss)
    if w.dup:
        expected.add("DUP")
        if len(by.get("DUP", [])) != 1:
            raise Bad("duplicate", f"{len(by.get('DUP', []))} duplicate marks for a duplicate reaction")
    elif "DUP" in by:
        raise Bad("duplicate", "a duplicate mark for a reaction that is not one")
    extra = set(by) - expected
    if extra:
        raise Bad(kk, f"unexpected {', '.join(sorted(extra))}")
    check_body(w, eff, loss)


def check_body(w, eff, loss):
    got = {}
    for name, v in eff:
        if not isinstance(name, Sym) or v is None:
            raise Bad("efficiencies", f"unreadable efficiency {name}")
        if name in got:
            raise Bad("efficiencies", f"{name} twice")
        got[name] = v
    if ABSENT in got:
        raise Bad("efficiencies", "the efficiency of a species that is not in the model")
    if w.body is None:
        if got:
            raise Bad("efficiencies", "efficiencies without a third body")
        return
    if w.body == "collider":
        if set(got) - {NAMES[0]}:
            raise Bad("efficiencies", "efficiencies of other species than the collider")
        for v in got.values():
            match(v, Fr(1), "efficiencies", "the efficiency of the collider", 1, 0, loss)
        return
    for n in NAMES:
        want = w.eff.get(n, w.default)
        if n not in got:
            if want == Fr(1):
                continue
            raise Bad("efficiencies", f"no efficiency of {n.label}")
        match(got[n], want, "efficiencies", f"the efficiency of {n.label}", 3, 2, loss)


def check_names(w, run):
    f = [x for x in run.files.values() if kind_of_file(x) == "reactions"]
    if len(f) != 1:
        raise Und("the file of the reactions")
    ls = uncomment(lines(f[0].text()))
    for word, alts, want in (("ELEMENTS", ("ELEM",), w.elements), ("SPECIES", ("SPEC",), NAMES)):
        rest, body = section(ls, word, alts)
        if rest is None:
            raise Bad("names", f"no section {word}")
        toks = rest + [t for l in body for t in l]
        for t in toks:
            if clash(t):
                raise Bad("names", f"nothing separates the names in {t}")
            if any(isinstance(p, V) and (p.broken or p.prec is not None) for p in t.parts):
                raise Bad("names", f"{t} may be broken")
        got = [t.name() for t in toks]
        if len(got) != len(want) or any(a is not b for a, b in zip(got, want)):
            if sorted(map(repr, got)) != sorted(map(repr, want)):
                raise Bad("names", f"{word}: {got}")
    i = [n for n, l in enumerate(ls) if l[0].literal() and l[0].literal().upper() in ("ELEMENTS", "SPECIES", "REACTIONS")]
    if [ls[n][0].literal().upper() for n in i] != ["ELEMENTS", "SPECIES", "REACTIONS"]:
        raise Bad("names", "the order of the sections")


def raw_lines(x):
    out, cur = [], []
    for s in text(x).segs:
        if isinstance(s, str):
            ps = s.split("\n")
            for i, p in enumerate(ps):
                if i:
                    out.append(cur)
                    cur = []
                if p:
                    cur.append(p)
        else:
            cur.append(s)
    if cur:
        out.append(cur)
    return out


def columns(line):
    """[(start, end, value)] and {column: character}"""
    at, vals, chars = 0, [], {}
    for s in line:
        if isinstance(s, str):
            for i, c in enumerate(s):
                if c != " ":
                    chars[at + i] = c
            at += len(s)
        else:
            if not s.width:
                raise Bad("thermo.columns", f"{s} has no fixed width")
            vals.append((at, at + s.width, s))
            at += s.width
    return vals, chars


def field(vals, i, lo, hi, what):
    if i >= len(vals):
        raise Bad("thermo.columns", f"{what} is missing")
    s, e, v = vals[i]
    if s < lo or e > hi:
        raise Bad("thermo.columns", f"{what} is in columns {s + 1}-{e} instead of {lo + 1}-{hi}")
    return v


def check_thermo(w, run, loss):
    f = [x for x in run.files.values() if kind_of_file(x) == "thermo"]
    if len(f) != 1:
        raise Bad("thermo.written", f"{len(f)} files of thermodynamic data")
    ls = [l for l in raw_lines(f[0].text()) if any(not isinstance(x, str) or x.strip() for x in l)]
    if not ls or not isinstance(ls[0][0], str) or not ls[0][0].strip().startswith("THERMO"):
        raise Bad("thermo.written", "the file does not begin with THERMO")
    if not isinstance(ls[-1][0], str) or ls[-1][0].strip() != "END":
        raise Bad("thermo.written", "the file does not end with END")
    body = [l for l in ls[1:-1] if not all(isinstance(x, str) for x in l)]
    if len(body) != (5 if len(w.species[0].at["composition"]) > 4 and len(body) > 4 * len(w.species) else 4) * len(w.species):
        raise Bad("thermo.written", f"{len(body)} lines for {len(w.species)} species")
    head = [l for l in ls[1:-1] if all(isinstance(x, str) for x in l) and "".join(l).strip() and not "".join(l).startswith("!")]
    if len(head) != 1 or len("".join(head[0]).split()) != 3:
        raise Bad("thermo.written", "the line of the default temperatures")
    nel = len(w.species[0].at["composition"])
    more = []
    if nel > 4 and len(body) == 5 * len(w.species):
        # a continuation line with the composition, free format
        more, body = body[1::5], [l for n, l in enumerate(body) if n % 5 != 1]
    for i, sp in enumerate(w.species):
        t = str(i)
        vals, chars = columns(body[4 * i])
        v = field(vals, 0, 0, 24, "the name")
        if v.x is not sp.at["name"] or vals[0][0] != 0:
            raise Bad("thermo.name", f"{v} at the place of the name")
        if vals[0][1] > 23:
            raise Bad("thermo.columns", "the name runs into the composition")
        if v.prec is not None:
            raise Bad("thermo.name", f"the name is cut: {v}")
        if w.letters > 24:
            raise Bad("thermo.columns", "a long name moves the columns that follow")
        vals = vals[1:]
        if more:
            if chars.get(80) != "&":
                raise Bad("thermo.composition", "the continuation is not announced")
            toks = [t for l in lines(Text(more[i])) for t in l]
            got = {a.name(): b.name() for a, b in zip(toks[::2], toks[1::2])}
            if any(clash(t) for t in toks) or len(toks) != 2 * nel or got != sp.at["composition"]:
                raise Bad("thermo.composition", f"{toks} for {sp.at['composition']}")
        for j, (el, cnt) in enumerate(sp.at["composition"].items() if not more else ()):
            a = field(vals, 2 * j, 24 + 5 * j, 26 + 5 * j, f"element {j + 1}")
            b = field(vals, 2 * j + 1, 26 + 5 * j, 29 + 5 * j, f"the number of element {j + 1}")
            if a.x is not el or b.x != cnt:
                raise Bad("thermo.composition", f"{a} {b} at the place of {el} {cnt}")
            if a.prec is not None:
                raise Bad("thermo.composition", f"the name is cut: {a}")
        vals = vals[0 if more else 2 * nel:]
        if chars.get(44) not in ("G", "g"):
            raise Bad("thermo.columns", "no phase in column 45")
        for j, (lo, hi, at_, what) in enumerate(((45, 55, "Tlow_", "the lower temperature"), (55, 65, "Thigh_", "the upper temperature"), (65, 73, "c0_", "the middle temperature"))):
            match(field(vals, j, lo, hi, what), sym(at_ + t), "thermo.temperatures", what, 6, 1, loss)
        if len(vals) > 3:
            raise Bad("thermo.columns", f"{vals[3][2]} after the temperatures")
        if chars.get(79) != "1":
            raise Bad("thermo.columns", "no 1 in column 80")
        n = 1
        for ln in range(3):
            vals, chars = columns(body[4 * i + ln + 1])
            k = 5 if ln < 2 else 4
            for j in range(k):
                v = field(vals, j, 15 * j, 15 * j + 15, f"coefficient {n}")
                match(v, sym(f"c{n}_{t}"), "thermo.coefficients", f"coefficient {n} of {2 if n < 8 else 1}", 9, 99, loss)
                n += 1
            if len(vals) > k:
                raise Bad("thermo.columns", f"{vals[k][2]} after the coefficients")
            if chars.get(79) != str(ln + 2):
                raise Bad("thermo.columns", f"no {ln + 2} in column 80")


def check_transport(w, run, loss):
    f = [x for x in run.files.values() if kind_of_file(x) == "transport"]
    if len(f) != 1:
        raise Bad("transport.written", f"{len(f)} files of transport data")
    ls = [l for l in uncomment(lines(f[0].text())) if not (l[0].literal() or "").upper() in ("TRANSPORT", "END", "TRAN")]
    if len(ls) != len(w.species):
        raise Bad("transport.written", f"{len(ls)} lines for {len(w.species)} species")
    geo = {"atom": 0, "linear": 1, "nonlinear": 2}
    for i, (sp, l) in enumerate(zip(w.species, ls)):
        for t in l:
            if clash(t):
                raise Bad("transport.separated", f"nothing separates the values in {t}")
        if len(l) != 7:
            raise Bad("transport.written", f"{len(l)} entries for a species")
        if l[0].name() is not sp.at["name"] or isinstance(l[0].parts[0], V) and l[0].parts[0].prec is not None:
            raise Bad("transport.name", f"{l[0]} at the place of the name")
        t = str(i)
        want = [("geometry", Fr(geo[sp.at["transport"].at["geometry"]]), 0), ("well-depth", num_mul(sym("well_" + t), 1 / BOLTZ), 1),
                ("diameter", num_mul(sym("diam_" + t), 10 ** 10), 2), ("dipole", num_mul(sym("dip_" + t), 1 / DEBYE), 2),
                ("polarizability", num_mul(sym("pol_" + t), Fr(10) ** 30), 2), ("rotational-relaxation", sym("rot_" + t), 1)]
        for tk, (nm, x, d) in zip(l[1:], want):
            match(tk.value(), x, f"transport.{nm}", f"the {nm}", 4, d, loss)


WHAT = {
    "line": "every reaction is written as one record", "names": "elements and species are listed completely", "separated": "nothing runs together on the lines of a reaction",
    "orders": "explicit reaction orders are written", "duplicate": "the duplicate mark is written exactly for duplicate reactions",
    "efficiencies": "third-body efficiencies are written", "refused": "reactions of other kinds are refused", "thermo.refused": "other thermodynamic data are refused",
    "thermo.written": "thermodynamic data of every species are written", "thermo.columns": "thermodynamic data are in the columns of the format",
    "thermo.name": "names of species are complete", "thermo.composition": "the composition is written", "thermo.temperatures": "temperature limits are written",
    "thermo.coefficients": "polynomials are written, the upper one first", "transport.written": "transport data of every species are written",
    "transport.name": "names of species are complete", "transport.separated": "nothing runs together", "precision": "numbers keep their significant digits",
}


def worlds():
    for kd in SUPPORTED:
        bodies = {"Arrhenius": [None], "pressure-dependent-Arrhenius": [None], "Chebyshev": [None]}.get(kd, ["plain", "listed", "zero", "default", "zero default", "collider"])
        for b in bodies:
            for dup in (False, True):
                for orders in (False, True):
                    yield "reaction", World([Rx(kd, b, dup, orders)])
        for co in ((1,), (2,), (1, 1), (2, 1), (1, 1, 1), (Fr(3, 2),)):
            yield "reaction", World([Rx(kd, bodies[0] and "listed", coefs=co)])
        yield "reaction", World([Rx(kd, bodies[0], rev=False)])
        for other in (Rx(tag="'"), Rx("three-body-Arrhenius", "listed", tag="'"), Rx("falloff-Troe", "plain", tag="'"), Rx("chemically-activated-SRI", "default", True, tag="'"),
                      Rx("pressure-dependent-Arrhenius", None, False, True, tag="'"), Rx("Chebyshev", tag="'")):
            full = Rx(kd, bodies[0] and "listed", True, True)
            yield "reaction", World([full, other])
            yield "reaction", World([other, full])
    for kd in UNSUPPORTED:
        yield "refused", World([Rx(kd, "plain" if kd.startswith(("three", "fall", "chem")) else None)])
        yield "refused", World([Rx(), Rx(kd, "plain" if kd.startswith(("three", "fall", "chem")) else None, tag="'")])
    yield "names", World()
    for n in (1, 2, 3, 4, 5, 6):
        yield "thermo", World(nel=n, desc=f"{n} elements")
    for n in (25, 40):
        yield "thermo.long", World(letters=n, desc=f"names of {n} letters")
    for th in ("Shomate", "NASA9", "constant"):
        yield "thermo.refused", World(thermo=th, desc=f"{th} data")
    for g in ("atom", "linear", "nonlinear"):
        yield "transport", World(geometry=g, desc=f"geometry {g}")
    for tr in ((False, False, False), (True, False, True), (True, True, False), (False, True, True)):
        yield "no transport", World(transport=tr, desc="species without transport data")


def export(C, rep):
    if WRITE_CK not in C.prog.funcs:
        raise AnalysisError(f"anchor {WRITE_CK} not found")
    fn = C.prog.funcs[WRITE_CK]
    at = (fn.mod.path, fn.node.lineno)
    r = C.run(WRITE_CK, "full")
    names = [x.arg for x in fn.node.args.args]
    got = {}
    keys = list(WHAT) + [f"rate.{k}" for k in SUPPORTED if not k.endswith("4")] + ["falloff.Troe", "falloff.SRI"] + \
        [f"transport.{x}" for x in ("geometry", "well-depth", "diameter", "dipole", "polarizability", "rotational-relaxation")]
    for k in keys:
        got[k] = Out()
    aff = {"reaction": [k for k in keys if k.startswith(("rate.", "falloff."))] + ["line", "separated", "orders", "duplicate", "efficiencies", "precision"],
           "refused": ["refused"], "names": ["names"], "thermo.refused": ["thermo.refused"], "thermo.long": ["thermo.columns"], "thermo": [k for k in keys if k.startswith("thermo.") and k != "thermo.refused"] + ["precision"],
           "no transport": ["transport.written"],
           "transport": [k for k in keys if k.startswith("transport")] + ["precision"]}

    def concerned(what, w):
        ks = aff[what]
        if what == "reaction":
            kd = w.kind.rstrip("4")
            ks = [k for k in ks if not k.startswith("rate.") or k == f"rate.{kd}"]
            ks = [k for k in ks if not k.startswith("falloff.") or k == f"falloff.{kd.rsplit('-', 1)[-1]}"]
        return ks
    loops = Loops(r)
    todo = list(worlds())
    tried = set()
    for what, w in todo:
        if len(todo) > 2000:
            break
        ks = concerned(what, w)
        for k in ks:
            got[k].n += 1
        loss = []
        params = {P(names[0]): w.solution}
        for i, a in enumerate(names[1:]):
            params[P(a)] = Sym(a) if i < 2 else False
        try:
            run = Run(r, Eval(w, params, loops))
            if what.endswith("refused"):
                got[ks[0]].fail(f"{w.desc}: written without a complaint")
                continue
            if what == "reaction":
                check_reaction(w, run, loss)
            elif what == "names":
                check_names(w, run)
            elif what == "no transport":
                pass
            elif what in ("thermo", "thermo.long"):
                check_thermo(w, run, loss)
            else:
                check_transport(w, run, loss)
            if loss:
                got["precision"].fail(f"{w.desc}: {loss[0]}")
        except Reject as ex:
            if what == "thermo.long" or what == "thermo" and len(w.species[0].at["composition"]) > 4:
                continue                          # does not fit
            if what.endswith("refused"):
                if ex.name in ("AttributeError", "IndexError", "KeyError"):
                    pass                      # fails all the same
                continue
            k = {"reaction": f"rate.{w.kind.rstrip('4')}", "thermo": "thermo.written", "transport": "transport.written", "no transport": "transport.written"}.get(what, "names")
            got[k].fail(f"{w.desc}: the export fails: {ex}")
        except Bad as ex:
            k = ex.key if ex.key in got else ks[0]
            got[k].fail(f"{w.desc}: {ex}")
        except Und as ex:
            for k in ks:
                got[k].und = got[k].und or f"{w.desc}: {ex}"
        for x in w.asked:
            if w.called is None and (what, id(w), x) not in tried and sum(t[0] == what for t in tried) < 12:
                tried.add((what, id(w), x))
                w2 = copy.copy(w)
                w2.asked, w2.called, w2.desc = {}, x, f"{w.desc}, {x[0]} being {x[1]!r}"
                todo.append((what, w2))
    for k in keys:
        o = got[k]
        what = WHAT.get(k) or (f"the rate of {k[5:]} reactions is written in Chemkin units" if k.startswith("rate.") else f"{k[8:]} parameters are written in order"
                               if k.startswith("falloff.") else f"{k[10:]} is written in the units of the format")
        rep.put(verdict(False, r) if o.bad else None if o.und else True, k, what, at, o.bad or o.und or f"{o.n} cases")


def check(C, rep):
    rep.section("export", export)
