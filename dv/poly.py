"""Ring normaliser: canonical Laurent-polynomial form of z3 real/int terms.

A term is a sum of  coefficient * product(atom ** exponent)  with rational coefficients and integer
(possibly negative) exponents; an atom is any z3 term the normaliser does not look into
(variables, uninterpreted applications, if-then-else, ToInt, div, mod).  Division by a term whose
normal form is a single monomial is exact; division by anything else makes ``1/normalform`` an atom.
Atoms are identified by the z3 AST id of a canonical rebuild, so that congruent atoms coincide.
Denominators are assumed to be different from zero (stated in the trusted base: real arithmetic).
"""
from fractions import Fraction
import z3

LIMIT = 600


class TooBig(Exception):
    pass


class Normaliser(object):
    def __init__(self):
        self.atoms = {}      # id -> z3 term
        self.memo = {}
        self.keep = []
        self.canon_memo = {}
        self.inv_den = {}    # id of inv-atom -> denominators poly

    def atom(self, t):
        i = t.get_id()
        if i not in self.atoms:
            self.atoms[i] = t
        return {((i, 1),): Fraction(1)}

    @staticmethod
    def add(p, q, f=1):
        r = dict(p)
        for m, c in q.items():
            c2 = r.get(m, 0) + f * c
            if c2 == 0:
                r.pop(m, None)
            else:
                r[m] = c2
        return r

    @staticmethod
    def mulmon(a, b):
        d = dict(a)
        for k, e in b:
            e2 = d.get(k, 0) + e
            if e2 == 0:
                d.pop(k, None)
            else:
                d[k] = e2
        return tuple(sorted(d.items()))

    def mul(self, p, q):
        if len(p) * len(q) > LIMIT:
            raise TooBig()
        r = {}
        for m, c in p.items():
            for n, d in q.items():
                k = self.mulmon(m, n)
                v = r.get(k, 0) + c * d
                if v == 0:
                    r.pop(k, None)
                else:
                    r[k] = v
        return r

    def inv(self, p):
        if len(p) == 1:
            (m, c), = p.items()
            return {tuple(sorted((k, -e) for k, e in m)): 1 / c}
        # scale so that the leading coefficient is 1
        lead = min(p)
        c = p[lead]
        q = {m: v / c for m, v in p.items()}
        t = 1 / self.rebuild(q)
        i = t.get_id()
        self.atoms[i] = t
        self.keep.append(t)
        return {((i, 1),): 1 / c}

    def norm(self, t):
        i = t.get_id()
        if i in self.memo:
            return self.memo[i]
        r = self._norm(t)
        self.keep.append(t)
        self.memo[i] = r
        return r

    def _norm(self, t):
        if z3.is_int_value(t):
            v = t.as_long()
            return {(): Fraction(v)} if v else {}
        if z3.is_rational_value(t):
            v = t.as_fraction()
            return {(): v} if v else {}
        d = t.decl().kind() if z3.is_app(t) else None
        if d == z3.Z3_OP_ADD:
            r = {}
            for c in t.children():
                r = self.add(r, self.norm(c))
            return r
        if d == z3.Z3_OP_SUB:
            ch = t.children()
            r = self.norm(ch[0])
            for c in ch[1:]:
                r = self.add(r, self.norm(c), -1)
            return r
        if d == z3.Z3_OP_UMINUS:
            return {m: -c for m, c in self.norm(t.arg(0)).items()}
        if d == z3.Z3_OP_MUL:
            r = {(): Fraction(1)}
            for c in t.children():
                r = self.mul(r, self.norm(c))
            return r
        if d == z3.Z3_OP_TO_REAL:
            return self.norm(t.arg(0)) if not self.opaque_int(t.arg(0)) else self.norm_toreal(t.arg(0))
        if d == z3.Z3_OP_DIV:
            q = self.norm(t.arg(1))
            if not q:
                return self.atom(self.canon_atom(t))
            return self.mul(self.norm(t.arg(0)), self.inv(q))
        if d == z3.Z3_OP_POWER and z3.is_int_value(t.arg(1)):
            e = t.arg(1).as_long()
            p = self.norm(t.arg(0))
            if e < 0:
                if not p:
                    return self.atom(self.canon_atom(t))
                p, e = self.inv(p), -e
            r = {(): Fraction(1)}
            for _ in range(e):
                r = self.mul(r, p)
            return r
        return self.atom(self.canon_atom(t))

    def opaque_int(self, t):
        return False

    def norm_toreal(self, t):
        return self.norm(t)

    def canon_atom(self, t):
        """Rebuild an atom with canonical arguments."""
        if not z3.is_app(t) or t.num_args() == 0:
            return t
        i = t.get_id()
        if i in self.canon_memo:
            return self.canon_memo[i]
        args = []
        changed = False
        for c in t.children():
            if z3.is_arith(c):
                try:
                    c2 = self.rebuild(self.norm(c), int_sort=z3.is_int(c))
                except TooBig:
                    c2 = c
            elif z3.is_bool(c) or z3.is_app(c):
                c2 = self.canon_atom(c)
            else:
                c2 = c
            if c2.get_id() != c.get_id():
                changed = True
            args.append(c2)
        r = t
        if changed:
            try:
                r = z3.simplify(t.decl()(*args)) if t.decl().kind() in (
                    z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_LT, z3.Z3_OP_GT, z3.Z3_OP_EQ) else t.decl()(*args)
            except z3.Z3Exception:
                r = t
        self.keep.append(t)
        self.keep.append(r)
        self.canon_memo[i] = r
        return r

    def rebuild(self, p, int_sort=False):
        """Canonical z3 term of a normal form."""
        terms = []
        if int_sort and any(c.denominator != 1 or any(e < 0 or not z3.is_int(self.atoms[k])
                                                      for k, e in m)
                            for m, c in p.items()):
            raise TooBig()
        for m, c in sorted(p.items()):
            fs = []
            for k, e in m:
                a = self.atoms[k]
                if not int_sort and z3.is_int(a):
                    a = z3.ToReal(a)
                for _ in range(abs(e)):
                    fs.append(a if e > 0 else 1 / a)
            if int_sort:
                co = z3.IntVal(int(c))
            else:
                co = z3.Q(c.numerator, c.denominator)
            if not fs:
                t = co
            else:
                t = fs[0]
                for f in fs[1:]:
                    t = t * f
                if c != 1:
                    t = co * t
            terms.append(t)
        if not terms:
            r = z3.IntVal(0) if int_sort else z3.RealVal(0)
        else:
            r = terms[0]
            for t in terms[1:]:
                r = r + t
        self.keep.append(r)
        return r

    def canon(self, t):
        """Canonical rebuild of a term (same sort)."""
        try:
            return self.rebuild(self.norm(t), int_sort=z3.is_int(t))
        except TooBig:
            return t

    def equal(self, a, b):
        try:
            return not self.add(self.norm(a), self.norm(b), -1)
        except TooBig:
            return False

    def contains(self, t, const):
        """Does term t mention the constant?"""
        cid = const.get_id()
        seen = set()
        todo = [t]
        while todo:
            x = todo.pop()
            i = x.get_id()
            if i == cid:
                return True
            if i in seen:
                continue
            seen.add(i)
            todo.extend(x.children())
        return False
