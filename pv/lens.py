"""Abstraction of a path condition: texts become elements of an uninterpreted
sort with a length, text operations uninterpreted functions, everything else
stays.  What the abstraction refutes is infeasible; most feasibility questions
are decided here, without the string solver."""
import z3
from .values import SS, IS, BS, unzstr

U = z3.DeclareSort('Text')
LEN = z3.Function('U.len', U, IS)
LIT = z3.Function('U.lit', U, IS)
CAT = z3.Function('U.cat', U, U, U)
EMPTY = z3.Const('U.lit!0', U)


class Abs(object):
    def __init__(self):
        self.t = {}
        self.keep = []
        self.lits = {'': (EMPTY, (LEN(EMPTY) == 0, LIT(EMPTY) == 0))}
        self.sort = {SS.get_id(): U}
        self.fs = {}

    def term(self, z):
        """(abstraction, structural text operands, side conditions)"""
        k = z.get_id()
        r = self.t.get(k)
        if r is not None: return r
        self.keep.append(z)
        t, st, side = self._term(z)
        seen = {}
        for c in side: seen[c.get_id()] = c
        r = self.t[k] = (t, st, tuple(seen.values()))
        return r

    def so(self, s):
        return U if s == SS else s

    def text(self, u, side):
        """Facts about every text."""
        return tuple(side) + (LEN(u) >= 0, z3.Implies(LEN(u) == 0, u == EMPTY))

    def _term(self, z):
        no = frozenset()
        if z3.is_quantifier(z) or z3.is_var(z): return z3.Const('abs!q%d' % z.get_id(), self.so(z.sort())), no, ()
        srt = z.sort()
        if srt == SS and z3.is_string_value(z):
            s = unzstr(z)
            r = self.lits.get(s)
            if r is None:
                n = len(self.lits)
                c = z3.Const('U.lit!%d' % n, U)
                r = self.lits[s] = (c, (LEN(c) == len(s), LIT(c) == n))
            return r[0], no, r[1]
        kind = z.decl().kind()
        if z.num_args() == 0:
            if srt == SS:
                c = z3.Const('U.' + z.decl().name(), U)
                return c, no, self.text(c, self.known_length(z, c))
            if srt.kind() in (z3.Z3_SEQ_SORT, z3.Z3_RE_SORT): return z3.Const('abs!o%d' % z.get_id(), U), no, ()
            return z, no, ()
        if kind == z3.Z3_OP_SEQ_IN_RE:
            a, st, side = self.term(z.arg(0))
            return z3.Const('abs!%d' % z.get_id(), BS), st | {z.arg(0).get_id()}, side
        ch, st, side = [], set(), []
        for a in z.children():
            t, e, s = self.term(a)
            ch.append(t)
            st |= e
            side.extend(s)
        if kind == z3.Z3_OP_SEQ_LENGTH: return LEN(ch[0]), frozenset(st), tuple(side)
        if kind == z3.Z3_OP_SEQ_CONCAT:
            r = ch[-1]
            for c in reversed(ch[:-1]): r = CAT(c, r)
            return r, frozenset(st), self.text(r, tuple(side) + (LEN(r) == z3.Sum(*[LEN(c) for c in ch]),))
        if kind in (z3.Z3_OP_EQ, z3.Z3_OP_DISTINCT):
            if z.arg(0).sort() == SS and any(z3.is_app(c) and c.decl().kind() == z3.Z3_OP_SEQ_CONCAT for c in z.children()):
                for c in z.children(): st.add(c.get_id())
            if kind == z3.Z3_OP_EQ: return ch[0] == ch[1], frozenset(st), tuple(side)
            return z3.Distinct(*ch), frozenset(st), tuple(side)
        texty = srt == SS or any(c.sort() == SS or c.sort().kind() in (z3.Z3_SEQ_SORT, z3.Z3_RE_SORT) for c in z.children())
        if texty and kind == z3.Z3_OP_ITE: return z3.If(*ch), frozenset(st), tuple(side)
        if texty or srt.kind() in (z3.Z3_SEQ_SORT, z3.Z3_RE_SORT):
            f = z.decl()
            key = (f.name(), kind, tuple(c.sort().get_id() for c in ch), self.so(srt).get_id(), tuple(str(p) for p in f.params()) if kind != z3.Z3_OP_UNINTERPRETED else ())
            g = self.fs.get(key)
            if g is None:
                out = self.so(srt) if srt.kind() not in (z3.Z3_SEQ_SORT, z3.Z3_RE_SORT) else U
                g = self.fs[key] = z3.Function('U.%s.%d' % (f.name(), len(self.fs)), *([c.sort() for c in ch] + [out]))
                self.keep.extend(c.sort() for c in ch)
            r = g(*ch)
            if kind != z3.Z3_OP_UNINTERPRETED:
                for c in z.children():
                    if c.sort() == SS: st.add(c.get_id())
                st.add(z.get_id())
            if srt == SS: side = self.text(r, tuple(side) + self.known_length(z, r))
            return r, frozenset(st), tuple(side)
        if kind == z3.Z3_OP_AND: r = z3.And(*ch)
        elif kind == z3.Z3_OP_OR: r = z3.Or(*ch)
        elif kind == z3.Z3_OP_ADD: r = z3.Sum(*ch) if len(ch) > 1 else ch[0]
        elif kind == z3.Z3_OP_MUL and len(ch) > 2:
            r = ch[0]
            for c in ch[1:]: r = r * c
        elif kind == z3.Z3_OP_SUB and len(ch) > 2:
            r = ch[0]
            for c in ch[1:]: r = r - c
        else: r = z.decl()(*ch)
        return r, frozenset(st), tuple(side)

    def known_length(self, t, u):
        from . import texts
        f = texts.LEN.get(t.decl().name())
        if f is None: return ()
        n = f(t) if callable(f) else f
        if isinstance(n, int): return (LEN(u) == n,)
        m, e, s = self.term(n)
        return tuple(s) + (m >= 0, LEN(u) == m)


class LenSolver(object):
    """One solver for all paths: it follows the path condition, keeping what
    two paths have in common."""

    def __init__(self):
        self.abs = Abs()
        self.s = z3.Solver()
        self.s.set('timeout', 100)
        self.nodes = []
        self.levels = []        # per element: side conditions and structural texts it brought
        self.have, self.struct = {}, {}
        self.top = {}

    def pop(self, n):
        if n <= 0: return
        self.s.pop(n)
        for _ in range(n):
            self.nodes.pop()
            have, struct = self.levels.pop()
            for k in have: del self.have[k]
            for k in struct: del self.struct[k]

    def sync(self, pc, nodes):
        k, m = 0, min(len(nodes), len(self.nodes))
        while k < m and nodes[k] == self.nodes[k]: k += 1
        self.pop(len(self.nodes) - k)
        for z, n in zip(pc[k:], nodes[k:]):
            t, st, side = self.abs.term(z)
            self.s.push()
            have, struct = [], []
            for c in side:
                i = c.get_id()
                if i not in self.have:
                    self.have[i] = True
                    have.append(i)
                    self.s.add(c)
            self.s.add(t)
            for i in st:
                if i not in self.struct:
                    self.struct[i] = True
                    struct.append(i)
            self.nodes.append(n)
            self.levels.append((have, struct))

    def check(self, pc, nodes, z):
        """(result, may the string solver know better?)"""
        self.sync(pc, nodes)
        t, st, side = self.abs.term(z)
        self.s.push()
        for c in side:
            if c.get_id() not in self.have: self.s.add(c)
        self.s.add(t)
        r = self.s.check()
        self.s.pop()
        return r, bool(st) or (bool(self.struct) and self.touches(z, self.struct))

    def atoms(self, t):
        """Texts t speaks about directly (not inside of an uninterpreted term)."""
        r = self.top.get(t.get_id())
        if r is not None: return r[1]
        out, stack, seen = set(), [t], set()
        while stack:
            x = stack.pop()
            i = x.get_id()
            if i in seen: continue
            seen.add(i)
            if len(seen) > 150:
                out = set()
                break
            if not z3.is_app(x): continue
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                if x.sort() == SS: out.add(i)
                continue
            stack.extend(x.children())
        self.top[t.get_id()] = (t, frozenset(out))
        return frozenset(out)

    def part(self, pc, z):
        """The conditions connected with z by the texts they speak about."""
        have, left, out = set(self.atoms(z)), [(c, self.atoms(c)) for c in pc], []
        left = [x for x in left if x[1]]
        while True:
            more = [x for x in left if x[1] & have]
            if not more: return out
            left = [x for x in left if not x[1] & have]
            for c, a in more:
                out.append(c)
                have |= a

    def touches(self, z, struct):
        """Does z compare a text whose structure is constrained?"""
        stack, seen = [z], set()
        while stack:
            t = stack.pop()
            if t.get_id() in seen: continue
            seen.add(t.get_id())
            if z3.is_app(t):
                k = t.decl().kind()
                if k in (z3.Z3_OP_EQ, z3.Z3_OP_DISTINCT) and t.arg(0).sort() == SS:
                    if any(c.get_id() in struct for c in t.children()): return True
                if k == z3.Z3_OP_SEQ_LENGTH and t.arg(0).get_id() in struct: return True
                stack.extend(t.children())
        return False
