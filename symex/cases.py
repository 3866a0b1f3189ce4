"""Proof by cases for real arithmetic: split on the conditions of if-then-else terms, prune
infeasible cases with the solver, decide the leaves with rational-function normal forms and the
solver."""
import time
from fractions import Fraction
import z3


class Giveup(Exception):
    pass


class Norm:
    """Rational-function normal forms of z3 real terms without if-then-else.

    A polynomial is a dict {monomial: Fraction}; a monomial is a sorted tuple of (atom, power)."""
    LIMIT = 4000

    def __init__(self):
        self.atoms = {}
        self.cache = {}
        self.args = {}
        self.keep = []

    def atom(self, key, term):
        if key not in self.atoms:
            self.atoms[key] = len(self.atoms)
            self.args[self.atoms[key]] = term
        return self.atoms[key]

    @staticmethod
    def add(p, q, k=1):
        r = dict(p)
        for m, c in q.items():
            v = r.get(m, 0) + k * c
            if v:
                r[m] = v
            else:
                r.pop(m, None)
        return r

    def mul(self, p, q):
        if len(p) * len(q) > 60000:
            raise Giveup()
        r = {}
        for m1, c1 in p.items():
            for m2, c2 in q.items():
                d = dict(m1)
                for a, e in m2:
                    d[a] = d.get(a, 0) + e
                m = tuple(sorted(d.items()))
                v = r.get(m, 0) + c1 * c2
                if v:
                    r[m] = v
                else:
                    r.pop(m, None)
        if len(r) > self.LIMIT:
            raise Giveup()
        return r

    ONE = {(): Fraction(1)}

    def key(self, rf):
        """Hashable form; numerator and denominator scaled by the leading coefficient of the denominator."""
        n, d = rf
        lead = d[max(d)]
        return (tuple(sorted((m, c / lead) for m, c in n.items())), tuple(sorted((m, c / lead) for m, c in d.items())))

    def reduce(self, n, d):
        if not n:
            return {}, self.ONE
        # common monomial factor
        mn = None
        for m in list(n) + list(d):
            dm = dict(m)
            mn = dm if mn is None else {a: min(e, dm[a]) for a, e in mn.items() if a in dm}
            if not mn:
                break
        if mn:
            def div(p):
                return {tuple((a, e - mn.get(a, 0)) for a, e in m if e - mn.get(a, 0)): c for m, c in p.items()}
            n, d = div(n), div(d)
        if n == d:
            return self.ONE, self.ONE
        # proportional
        if len(n) == len(d) and set(n) == set(d):
            m0 = next(iter(n))
            k = n[m0] / d[m0]
            if all(n[m] == k * d[m] for m in n):
                return {(): k}, self.ONE
        if len(d) == 1 and () in d:
            return {m: c / d[()] for m, c in n.items()}, self.ONE
        return n, d

    def rf(self, t):
        i = t.get_id()
        if i in self.cache:
            return self.cache[i]
        r = self._rf(t)
        self.cache[i] = r
        self.keep.append(t)
        return r

    def _rf(self, t):
        if z3.is_rational_value(t) or z3.is_int_value(t):
            v = Fraction(t.as_fraction()) if z3.is_rational_value(t) else Fraction(t.as_long())
            return ({(): v} if v else {}), self.ONE
        k = t.decl().kind()
        ch = t.children()
        if k in (z3.Z3_OP_ADD, z3.Z3_OP_SUB):
            n, d = self.rf(ch[0])
            for c in ch[1:]:
                n2, d2 = self.rf(c)
                s = 1 if k == z3.Z3_OP_ADD else -1
                if d == d2:
                    n = self.add(n, n2, s)
                else:
                    n, d = self.add(self.mul(n, d2), self.mul(n2, d), s), self.mul(d, d2)
            return self.reduce(n, d)
        if k == z3.Z3_OP_MUL:
            n, d = self.rf(ch[0])
            for c in ch[1:]:
                n2, d2 = self.rf(c)
                n, d = self.mul(n, n2), self.mul(d, d2)
            return self.reduce(n, d)
        if k == z3.Z3_OP_UMINUS:
            n, d = self.rf(ch[0])
            return {m: -c for m, c in n.items()}, d
        if k == z3.Z3_OP_DIV:
            n, d = self.rf(ch[0])
            n2, d2 = self.rf(ch[1])
            if not n2:
                raise Giveup()
            self.dens.append(ch[1])
            return self.reduce(self.mul(n, d2), self.mul(d, n2))
        if k == z3.Z3_OP_POWER and z3.is_rational_value(ch[1]):
            e = Fraction(ch[1].as_fraction())
            if e.denominator == 1 and 0 <= e <= 12:
                n, d = self.ONE, self.ONE
                b = self.rf(ch[0])
                for _ in range(int(e)):
                    n, d = self.mul(n, b[0]), self.mul(d, b[1])
                return n, d
        if k == z3.Z3_OP_ITE:
            raise Giveup()
        if k == z3.Z3_OP_TO_REAL:
            return self.rf(ch[0])
        if k == z3.Z3_OP_TO_INT:
            n, d = self.rf(ch[0])
            if set(d) == {()} and all((c / d[()]).denominator == 1 for c in n.values()) and \
                    all(self.args[x].sort().kind() == z3.Z3_INT_SORT for m in n for x, _ in m):
                return n, d
        if not ch:
            return {((self.atom(('c', t.decl().name()), t), 1),): Fraction(1)}, self.ONE
        if k == z3.Z3_OP_UNINTERPRETED:
            ks = []
            for c in ch:
                if c.sort().kind() in (z3.Z3_REAL_SORT, z3.Z3_INT_SORT):
                    ks.append(self.key(self.rf(c)))
                else:
                    ks.append(c.get_id())
                    self.keep.append(c)
            return {((self.atom((t.decl().name(), tuple(ks)), t), 1),): Fraction(1)}, self.ONE
        return {((self.atom(('t', t.get_id()), t), 1),): Fraction(1)}, self.ONE

    dens = ()

    def squares(self, n):
        """sqrt(e)^2 -> e; collects the e that have to be nonnegative."""
        roots = {i: t for i, t in self.args.items() if z3.is_app(t) and t.decl().name() == 'u_sqrt'}
        nonneg = []
        for _ in range(8):
            hit = None
            for m in n:
                for a, e in m:
                    if a in roots and e >= 2:
                        hit = a
                        break
                if hit is not None:
                    break
            if hit is None:
                break
            an, ad = self.rf(roots[hit].arg(0))
            nonneg.append(roots[hit].arg(0))
            top = max(e for m in n for a, e in m if a == hit) // 2
            out = {}
            for m, c in n.items():
                d = dict(m)
                k = d.get(hit, 0) // 2
                if d.get(hit, 0) % 2:
                    d[hit] = 1
                else:
                    d.pop(hit, None)
                t = {tuple(sorted(d.items())): c}
                for _i in range(k):
                    t = self.mul(t, an)
                for _i in range(top - k):
                    t = self.mul(t, ad)
                out = self.add(out, t)
            n = out
        return n, nonneg


CMP = {z3.Z3_OP_LE: lambda v: v <= 0, z3.Z3_OP_LT: lambda v: v < 0, z3.Z3_OP_GE: lambda v: v >= 0,
       z3.Z3_OP_GT: lambda v: v > 0, z3.Z3_OP_EQ: lambda v: v == 0}


def has_ite(t, memo):
    i = t.get_id()
    if i in memo:
        return memo[i]
    r = (z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE) or any(has_ite(c, memo) for c in t.children())
    memo[i] = r
    return r


def atoms_of(f):
    """Boolean atoms of f, including the conditions of if-then-else terms."""
    out, seen, st = [], set(), [f]
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_bool(x) and z3.is_app(x) and x.decl().kind() not in (
                z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT, z3.Z3_OP_ITE, z3.Z3_OP_IMPLIES, z3.Z3_OP_TRUE,
                z3.Z3_OP_FALSE, z3.Z3_OP_XOR) and not (x.decl().kind() == z3.Z3_OP_EQ and z3.is_bool(x.arg(0))):
            out.append(x)
        st.extend(x.children())
    return out


def pick(f, strict):
    """An if-then-else condition atom free of if-then-else, else any atom free of it."""
    memo = {}
    seen, st = set(), [f]
    conds = []
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_ITE:
            conds.append(x.arg(0))
        st.extend(x.children())
    cnt = {}
    for c in conds:
        for a in atoms_of(c):
            if not has_ite(a, memo):
                cnt.setdefault(a.get_id(), [0, a])[0] += 1
    if not cnt:
        return None
    return max(cnt.values(), key=lambda z: z[0])[1]


def norm_atoms(f, den_ok):
    """Replace comparisons whose normal form is constant."""
    memo = {}
    subs = []
    for a in atoms_of(f):
        k = a.decl().kind()
        if k not in CMP or a.num_args() != 2 or a.arg(0).sort().kind() != z3.Z3_REAL_SORT or has_ite(a, memo):
            continue
        N = Norm()
        N.dens = []
        nonneg = []
        try:
            n, d = N.rf(a.arg(0) - a.arg(1))
            if k == z3.Z3_OP_EQ and n and any(e >= 2 for m in n for _, e in m):
                n2, nonneg = N.squares(n)
                if not n2:
                    n = n2
                else:
                    nonneg = []
        except Giveup:
            continue
        except RecursionError:
            continue
        if not n:
            v = Fraction(0)
        elif set(n) == {()} and set(d) == {()}:
            v = n[()] / d[()]
        else:
            continue
        if not den_ok(N.dens, nonneg):
            continue
        subs.append((a, z3.BoolVal(bool(CMP[k](v)))))
    return z3.substitute(f, *subs) if subs else f


def simp(f):
    return z3.simplify(f, som=False, arith_lhs=False, elim_and=False)


class Abstract:
    """Replaces non-linear terms and function applications by fresh constants."""

    def __init__(self):
        self.map = {}
        self.memo = {}
        self.keep = []

    def fresh(self, t):
        k = t.get_id()
        if k not in self.map:
            self.map[k] = z3.FreshConst(t.sort(), 'abs')
            self.keep.append(t)
        return self.map[k]

    def __call__(self, t):
        k = t.get_id()
        if k not in self.memo:
            self.memo[k] = self.go(t)
            self.keep.append(t)
        return self.memo[k]

    def go(self, t):
        if not z3.is_app(t) or t.num_args() == 0:
            return t
        kd = t.decl().kind()
        ch = t.children()
        if kd == z3.Z3_OP_MUL:
            if sum(not z3.is_rational_value(c) and not z3.is_int_value(c) for c in ch) > 1:
                return self.fresh(t)
        elif kd in (z3.Z3_OP_DIV, z3.Z3_OP_IDIV, z3.Z3_OP_MOD):
            if not (z3.is_rational_value(ch[1]) or z3.is_int_value(ch[1])):
                return self.fresh(t)
        elif kd == z3.Z3_OP_POWER or kd == z3.Z3_OP_UNINTERPRETED:
            return self.fresh(t)
        n = [self(c) for c in ch]
        if all(a.eq(b) for a, b in zip(n, ch)):
            return t
        return t.decl()(*n)


def literals(f):
    """Top-level conjuncts."""
    if z3.is_and(f):
        return [y for x in f.children() for y in literals(x)]
    return [f]


def is_lit(f):
    x = f.arg(0) if z3.is_not(f) else f
    return z3.is_app(x) and x.decl().kind() not in (
        z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT, z3.Z3_OP_ITE, z3.Z3_OP_IMPLIES, z3.Z3_OP_XOR) and \
        not (x.decl().kind() == z3.Z3_OP_EQ and z3.is_bool(x.arg(0)))


class Relax:
    """Integers read as reals (a proof over the reals covers the integers)."""

    def __init__(self):
        self.memo = {}
        self.keep = []
        self.hit = False

    def __call__(self, t):
        k = t.get_id()
        if k not in self.memo:
            self.memo[k] = self.go(t)
            self.keep.append(t)
        return self.memo[k]

    def go(self, t):
        if not z3.is_app(t):
            raise Giveup()
        if z3.is_int_value(t):
            return z3.RealVal(t.as_long())
        kd = t.decl().kind()
        ch = t.children()
        if not ch:
            if t.sort().kind() == z3.Z3_INT_SORT:
                self.hit = True
                return z3.Real('relaxed_' + t.decl().name())
            return t
        if kd in (z3.Z3_OP_TO_INT, z3.Z3_OP_IS_INT, z3.Z3_OP_IDIV, z3.Z3_OP_MOD, z3.Z3_OP_BV2INT, z3.Z3_OP_REM):
            raise Giveup()
        n = [self(c) for c in ch]
        if kd == z3.Z3_OP_TO_REAL:
            return n[0]
        if all(a.eq(b) for a, b in zip(n, ch)):
            return t
        if kd == z3.Z3_OP_ADD:
            return z3.Sum(*n)
        if kd == z3.Z3_OP_MUL:
            return z3.Product(*n)
        if kd == z3.Z3_OP_SUB:
            r = n[0]
            for x in n[1:]:
                r = r - x
            return r
        if kd == z3.Z3_OP_UMINUS:
            return -n[0]
        if kd in (z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT):
            a, b = n
            return {z3.Z3_OP_LE: a <= b, z3.Z3_OP_LT: a < b, z3.Z3_OP_GE: a >= b, z3.Z3_OP_GT: a > b}[kd]
        if kd == z3.Z3_OP_EQ:
            return n[0] == n[1]
        if kd == z3.Z3_OP_DISTINCT:
            return z3.Distinct(*n)
        if kd == z3.Z3_OP_ITE:
            return z3.If(*n)
        try:
            return t.decl()(*n)
        except z3.Z3Exception:
            raise Giveup()


def case_prove(base, axioms, bad, S, budget=60, leaf_timeout=5, seed=1):
    """Is base and axioms and bad satisfiable?  -> (z3 result, model or None)"""
    try:
        R = Relax()
        b2 = [b if isinstance(b, bool) else R(b) for b in base]
        a2 = [R(a) for a in axioms]
        g2 = R(bad)
        if R.hit:
            q, m = prove(b2, a2, g2, S, budget, leaf_timeout, seed)
            if q == z3.unsat:
                return q, None
    except Giveup:
        pass
    return prove(base, axioms, bad, S, budget, leaf_timeout, seed)


def prove(base, axioms, bad, S, budget=60, leaf_timeout=5, seed=1):
    """Is base and axioms and bad satisfiable?  -> (z3 result, model or None)"""
    end = time.time() + budget
    prune = z3.Solver()
    ab = Abstract()
    facts = []
    for b in base:
        if b is False:
            return z3.unsat, None
        if b is not True:
            b = simp(b)
            prune.add(ab(b))
            facts.append(b)
    unk = []

    def count(q, t):
        S.queries += 1
        S.qtime += time.time() - t
        if q == z3.unsat:
            S.unsat += 1
        elif q == z3.sat:
            S.sat += 1
        else:
            S.unknown += 1

    def feasible(*extra):
        t = time.time()
        prune.set('timeout', 300)
        prune.push()
        prune.add(*[ab(e) for e in extra])
        q = prune.check()
        prune.pop()
        count(q, t)
        return q != z3.unsat

    def full(timeout, path, extra):
        t = time.time()
        s = z3.Solver()
        s.set('timeout', int(timeout * 1000))
        s.add(*facts, *path, *extra)
        q = s.check()
        count(q, t)
        return q, (s.model() if q == z3.sat else None)

    def rec(f, path):
        if time.time() > end:
            raise Giveup()

        def den_ok(dens, nonneg):
            for d in {x.get_id(): x for x in nonneg}.values():
                if feasible(d < 0) and full(2, path, [d < 0, *axioms])[0] != z3.unsat:
                    return False
            for d in {x.get_id(): x for x in dens}.values():
                if feasible(d == 0) and full(2, path, [d == 0, *axioms])[0] != z3.unsat:
                    return False
            return True
        npush = 0
        try:
            while True:
                f = simp(f)
                f = simp(norm_atoms(f, den_ok))
                if z3.is_false(f):
                    return None
                # assert the literals among the conjuncts; use them in the rest
                ls = literals(f)
                memo = {}
                units = [x for x in ls if is_lit(x) and not has_ite(x, memo)]
                rest = [x for x in ls if not (is_lit(x) and not has_ite(x, memo))]
                if not units:
                    break
                for u in units:
                    prune.push()
                    npush += 1
                    prune.add(ab(u))
                path = path + units
                if not feasible():
                    return None
                if not rest:
                    f = z3.BoolVal(True)
                    break
                subs = []
                for u in units:
                    a, v = (u.arg(0), False) if z3.is_not(u) else (u, True)
                    subs.append((a, z3.BoolVal(v)))
                    if v and a.decl().kind() == z3.Z3_OP_EQ and z3.is_const(a.arg(0)) and \
                            (z3.is_rational_value(a.arg(1)) or z3.is_int_value(a.arg(1)) or z3.is_bv_value(a.arg(1))):
                        subs.append((a.arg(0), a.arg(1)))
                f = z3.substitute(z3.And(*rest), *subs)
            c = None if z3.is_true(f) else pick2(f)
            if c is None:
                q, m = full(leaf_timeout, path, [f, *axioms])
                if q == z3.unsat:
                    return None
                if q == z3.sat:
                    return m
                unk.append(f)
                return None
            for v in (True, False):
                lit = c if v else z3.Not(c)
                if not feasible(lit):
                    continue
                prune.push()
                prune.add(ab(lit))
                try:
                    m = rec(z3.substitute(f, (c, z3.BoolVal(v))), path + [lit])
                finally:
                    prune.pop()
                if m is not None:
                    return m
            return None
        finally:
            for _ in range(npush):
                prune.pop()
    try:
        m = rec(bad, [])
    except Giveup:
        return z3.unknown, None
    if m is not None:
        return z3.sat, m
    return (z3.unknown if unk else z3.unsat), None


def pick2(f):
    """First an atom of a top-level disjunction over non-real sorts, then an if-then-else condition."""
    memo = {}
    for x in literals(f):
        if z3.is_or(x):
            for a in atoms_of(x):
                if a.decl().kind() == z3.Z3_OP_EQ and a.arg(0).sort().kind() != z3.Z3_REAL_SORT and not has_ite(a, memo):
                    return a
    return pick(f, True)
