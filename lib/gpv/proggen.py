"""Random programs for the reference engine (mini.py)."""
from .terms import *
from . import gen as G

INFIX = {',', ';', '->', '*->'}
CMPOPS = {'=', '\\=', 'is', '=:=', '=\\=', '<', '=<', '>', '>=', '==', '\\==', '@<', '@>', '@=<', '@>=', '=..'}


def btext(g):
    """body text with the usual operators"""
    if type(g) is Cmp and len(g.args) == 2 and g.name in INFIX:
        a, b = g.args
        if g.name == ',':
            return btext1(a) + ', ' + btext(b) if not (type(b) is Cmp and b.name in (';', '->', '*->')) else btext1(a) + ', (' + btext(b) + ')'
        if g.name == ';':
            l = btext(a) if type(a) is Cmp and a.name in ('->', '*->') and len(a.args) == 2 else btext1(a) if not (type(a) is Cmp and a.name == ',') else btext(a)
            r = btext(b)
            return f'{l} ; {r}'
        return f'{cj(a)} {g.name} {cj(b)}'
    return btext1(g)


def cj(a):
    return btext(a) if type(a) is Cmp and a.name == ',' and len(a.args) == 2 else btext1(a)


def btext1(g):
    if type(g) is Cmp:
        if len(g.args) == 2 and g.name in INFIX:
            return '(' + btext(g) + ')'
        if len(g.args) == 2 and g.name in CMPOPS:
            return f'{paren(g.args[0])} {g.name} {paren(g.args[1])}'
        if g.name in META and len(g.args) == META[g.name][0]:
            pos = META[g.name][1]
            return g.name + '(' + ', '.join(('(' + btext(a) + ')' if i in pos and type(a) is Cmp and a.name in INFIX else btext1(a) if i in pos else text(a))
                                            for i, a in enumerate(g.args)) + ')'
        if g.name == '\\+' and len(g.args) == 1:
            a = g.args[0]
            return '\\+ ' + ('(' + btext(a) + ')' if type(a) is Cmp and (a.name in INFIX or a.name in CMPOPS) else btext1(a))
    return text(g)


def paren(t):
    s = text(t)
    if type(t) is Atom and (s[0] == "'" or not s[0].isalnum()):
        return '(' + s + ')' if s not in ('[]', '{}', '!') else s
    return s


META = {'findall': (3, (1,)), 'once': (1, (0,)), 'ignore': (1, (0,)), 'forall': (2, (0, 1)), 'catch': (3, (0, 2)), 'call': (1, (0,)), 'countall': (2, (0,)), 'call_nth': (2, (0,)), 'setof': (3, (1,)), 'bagof': (3, (1,))}


def clause_text(h, b):
    if b is Atom('true'):
        return text(h) + '.'
    return text(h) + ' :- ' + btext(b) + '.'


def conj(gs):
    if not gs:
        return Atom('true')
    r = gs[-1]
    for g in reversed(gs[:-1]):
        r = Cmp(',', (g, r))
    return r


class Prog:
    def __init__(self, r, prefix, style='mix'):
        self.r, self.prefix, self.style = r, prefix, style
        self.preds = []          # (name, arity, [(head, body)])
        n = r.choice([2, 3, 3, 4, 5, 6])
        self.sig = []
        for i in range(n):
            ar = r.choice([0, 1, 1, 2, 2, 3, 3, 4, 6, 9] if style != 'control' else [0, 0, 1, 1, 1, 2, 2])
            if r.random() < .02:
                ar = r.choice([12, 20, 40])
            self.sig.append((f'{prefix}p{i}', ar))
        for i in range(n):
            self.preds.append(self.pred(i))

    # -- pieces
    def newvar(self):
        v = Var('V%d' % self.nv)
        self.nv += 1
        return v

    def somevar(self, pnew=.3):
        r = self.r
        if not self.seen or r.random() < pnew:
            v = self.newvar()
            self.seen.append(v)
            return v
        return r.choice(self.seen)

    def term(self, d, pv=.45, pnew=.3):
        r = self.r
        k = r.random()
        if k < pv:
            return self.somevar(pnew)
        if d <= 0 or k < pv + .2:
            return r.choice([Atom('a'), Atom('b'), Atom('c'), 0, 1, 2, 3, NIL, Atom('foo'), 1.5, -1, 100000])
        if k < pv + .35:
            n = r.choice([1, 1, 2, 3])
            return mklist([self.term(d - 1, pv, pnew) for _ in range(n)], NIL if r.random() < .6 else self.term(0, .9, pnew))
        f, n = r.choice([('f', 1), ('g', 2), ('h', 3), ('k', 1), ('+', 2), ('f', 2)])
        if r.random() < .03:
            n = r.choice([6, 10, 17])
        return Cmp(f, [self.term(d - 1, pv, pnew) for _ in range(n)])

    def iexpr(self, d=2):
        r = self.r
        k = r.random()
        iv = self.ints
        if d == 0 or k < .3:
            if iv and r.random() < .7:
                return r.choice(iv)
            return r.choice([0, 1, 2, 3, 5, 7, -1, 10, 63, 12345678901])
        if k < .4:
            return Cmp(r.choice(['-', 'abs', '\\', 'sign', 'inc', 'dec']), [self.iexpr(d - 1)])
        return Cmp(r.choice(['+', '+', '-', '-', '*', 'mod', '//', 'rem', 'min', 'max', '/\\', '\\/', 'xor', '<<', '>>']), [self.iexpr(d - 1), self.iexpr(d - 1)])

    def callp(self, i):
        """call of a predicate defined before i"""
        r = self.r
        if i <= 0:
            return Atom('true')
        nm, ar = self.sig[r.randrange(i)]
        if ar == 0:
            return Atom(nm)
        return Cmp(nm, [self.term(r.choice([0, 1, 1, 2]), .6, .35) for _ in range(ar)])

    def goal(self, i, d):
        r = self.r
        k = r.random()
        ctl = {'control': .6, 'mix': .25, 'comp': .15}[self.style]
        if d > 0 and k < ctl:
            return self.control(i, d)
        k = r.random()
        if k < .3:
            return self.callp(i)
        if k < .42:
            a = self.term(1, .8)
            b = self.term(2, .3)
            return Cmp('=', (a, b) if r.random() < .8 else (b, a))
        if k < .52:
            return Cmp('out', [self.term(1, .6, .15)])
        if k < .6:
            v = self.newvar() if r.random() < .8 or not self.ints else r.choice(self.ints)
            e = self.iexpr(r.choice([0, 1, 2, 3]))
            g = Cmp('is', (v, e))
            if v not in self.seen:
                self.seen.append(v)
                self.ints.append(v)
            return g
        if k < .66:
            return Cmp(r.choice(['<', '=<', '>', '>=', '=:=', '=\\=']), (self.iexpr(1), self.iexpr(1)))
        if k < .74:
            return Cmp(r.choice(['var', 'nonvar', 'atom', 'integer', 'atomic', 'compound', 'callable', 'is_list', 'float', 'number', 'ground', 'list']), [self.term(1, .85, .2)])
        if k < .80:
            return Cmp(r.choice(['==', '\\==', '\\=', '@<', '@>=', '@=<', '@>']), (self.term(1, .7), self.term(1, .6)))
        if k < .83:
            return Cmp('between', (1, r.choice([1, 2, 3]), self.intvar()))
        if k < .86:
            return Cmp('functor', (self.term(1, .6), self.term(0, .7), self.term(0, .8)))
        if k < .89:
            return Cmp('arg', (r.choice([1, 2, 3]), self.term(2, .5), self.term(1, .8)))
        if k < .91:
            return Cmp('=..', (self.term(2, .4), mklist([self.term(0, .7)], self.term(0, 1))))
        if k < .93:
            return Cmp('copy_term', (self.term(2, .5), self.term(1, .8)))
        if k < .95:
            return Cmp('compare', (self.term(0, .8), self.term(1, .5), self.term(1, .5)))
        if k < .97:
            return Cmp(r.choice(['g_assign', 'g_read']), (Atom(self.prefix + 'g'), self.term(1, .7)))
        if k < .985:
            return Atom(r.choice(['true', 'fail', 'true']))
        return Atom('!')

    def intvar(self):
        v = self.newvar()
        self.seen.append(v)
        self.ints.append(v)
        return v

    def body(self, i, d, n=None):
        r = self.r
        n = n or r.choice([1, 1, 2, 2, 3])
        return conj([self.goal(i, d) for _ in range(n)])

    def branch(self, i, d):
        # ints bound in one branch only are not usable after it
        s = list(self.ints)
        b = self.body(i, d)
        self.ints = s
        return b

    def control(self, i, d):
        r = self.r
        k = r.choice(['or', 'or', 'ite', 'ite', 'ite', 'ite1', 'soft', 'soft1', 'not', 'once', 'once', 'call', 'calln', 'findall', 'forall', 'catch', 'throw', 'cut', 'cut', 'metavar',
                      'metacut', 'countall', 'callvar', 'orcut', 'sel', 'sel'] + (['call_nth', 'call_nth', 'catch', 'not', 'metacut', 'cut', 'soft', 'ite'] if self.style == 'control' else []))
        d -= 1
        if k == 'or':
            return Cmp(';', (self.branch(i, d), self.branch(i, d) if r.random() < .7 else Cmp(';', (self.branch(i, d), self.branch(i, d)))))
        if k == 'sel':
            # alternatives selected by the value of one variable (indexing of the auxiliary predicate)
            v = r.choice(self.seen[:3]) if self.seen and r.random() < .8 else self.somevar(.2)
            alts = []
            for _ in range(r.choice([2, 2, 3, 3, 4])):
                c = Cmp('=', (v, r.choice([Atom('a'), Atom('b'), 1, 2, NIL, mklist([self.term(0, .9)], self.term(0, .9)), Cmp('f', [self.term(0, .8)]), mklist([Atom('a')])])))
                w = r.random()
                s = list(self.ints)
                if w < .15:
                    alts.append(self.branch(i, d))
                elif w < .4:
                    alts.append(conj([c, self.branch(i, d)]))
                else:
                    c = conj([c, self.goal(i, 0)]) if r.random() < .6 else c
                    alts.append(Cmp(r.choice(['->', '->', '*->', '*->', '*->']), (c, self.branch(i, d) if r.random() < .6 else Cmp('out', [v]))))
                self.ints = s
            g = alts[-1]
            for a in reversed(alts[:-1]):
                g = Cmp(';', (a, g))
            return g
        if k == 'orcut':
            return Cmp(';', (conj([self.branch(i, d), Atom('!'), self.branch(i, d)]), self.branch(i, d)))
        if k == 'ite':
            return Cmp(';', (Cmp('->', (self.branch(i, d), self.branch(i, d))), self.branch(i, d)))
        if k == 'ite1':
            return Cmp('->', (self.branch(i, d), self.branch(i, d)))
        if k == 'soft':
            return Cmp(';', (Cmp('*->', (self.branch(i, d), self.branch(i, d))), self.branch(i, d)))
        if k == 'soft1':
            return Cmp('*->', (self.branch(i, d), self.branch(i, d)))
        if k in ('not',):
            return Cmp('\\+', [self.branch(i, d)])
        if k in ('once', 'ignore', 'call'):
            return Cmp(k, [self.branch(i, d)])
        if k == 'calln':
            g = self.callp(i)
            if type(g) is not Cmp:
                return Cmp('call', [g])
            m = r.randint(max(0, len(g.args) - 7), len(g.args) - 1)
            return Cmp('call', [Cmp(g.name, g.args[:m]) if m else Atom(g.name)] + list(g.args[m:]))
        if k == 'findall':
            return Cmp('findall', (self.term(1, .8), self.branch(i, d), self.term(0, 1)))
        if k == 'countall':
            return Cmp('countall', (self.branch(i, d), self.term(0, 1)))
        if k == 'call_nth':
            return Cmp('call_nth', (self.branch(i, d), r.choice([1, 2, 2, 3, 0, -1, Atom('a'), self.term(0, 1), self.term(0, 1), self.term(0, 1)])))
        if k == 'repeat':
            v = self.newvar()
            g_ = Atom(self.prefix + 'n')
            return conj([Cmp('g_assign', (g_, 0)), Atom('repeat'), Cmp('g_read', (g_, v)), self.branch(i, d), Cmp('is', (Var(v.id + 'x'), Cmp('+', (v, 1)))), Cmp('g_assign', (g_, Var(v.id + 'x'))),
                         Cmp('>=', (Var(v.id + 'x'), 3)), Atom('!')])
        if k == 'forall':
            return Cmp('forall', (self.branch(i, d), self.branch(i, d)))
        if k == 'catch':
            b = self.branch(i, d)
            if r.random() < .6:
                b = conj([b, Cmp('throw', [self.term(1, .4)])]) if r.random() < .5 else conj([b, self.ithrow(i, d)])
            return Cmp('catch', (b, r.choice([self.newvar(), self.term(1, .5), Cmp('error', (self.newvar(), self.newvar()))]), self.branch(i, d)))
        if k == 'throw':
            return self.ithrow(i, d)
        if k == 'cut':
            return Atom('!')
        if k == 'metavar':
            v = self.newvar()
            self.seen.append(v)
            return conj([Cmp('=', (v, self.branch(i, d))), r.choice([Cmp('call', [v]), v])])
        if k == 'metacut':
            v = self.newvar()
            self.seen.append(v)
            return conj([Cmp('=', (v, conj([self.branch(i, d), Atom('!')]))), r.choice([Cmp('call', [v]), v, Cmp('\\+', [v])])])
        v = self.newvar()
        self.seen.append(v)
        bad = r.choice([1, Cmp(',', (Atom('fail'), 1)), Cmp(';', (Cmp('out', [Atom('x')]), 2)), Atom(self.prefix + 'undefd'), Cmp(self.prefix + 'undef2', (1, Atom('b'))), self.newvar()])
        return conj([Cmp('=', (v, bad)), r.choice([Cmp('call', [v]), v, Cmp('\\+', [v]), Cmp('once', [v]), Cmp('findall', (1, v, self.newvar()))])])

    def ithrow(self, i, d):
        t = Cmp('throw', [self.term(1, .4)])
        return Cmp(';', (Cmp('->', (self.branch(i, 0), t)), Atom('true'))) if self.r.random() < .4 else t

    def clause(self, i, ncl):
        r = self.r
        self.nv, self.seen, self.ints = 0, [], []
        nm, ar = self.sig[i]
        args = []
        for j in range(ar):
            k = r.random()
            if k < .4:
                args.append(self.somevar(.85))
            elif k < .75 or j == 0:
                args.append(self.term(r.choice([0, 0, 1, 2]), .15))
            else:
                args.append(self.term(r.choice([1, 2, 3]), .45))
        h = Cmp(nm, args) if ar else Atom(nm)
        nb = r.choice([0, 0, 1, 1, 2, 2, 3, 4, 6] + ([10, 16] if self.style == 'comp' else []))
        gs = []
        for j in range(nb):
            gs.append(self.goal(i, 2))
            if r.random() < .06:
                gs.append(Atom('!'))
        b = conj(gs)
        if self.style == 'control' and gs and r.random() < .15:
            b = Cmp('call', [b])
        return h, b

    def pred(self, i):
        r = self.r
        nm, ar = self.sig[i]
        if ar in (2, 3) and r.random() < .2:
            return nm, ar, self.recursive(nm, ar)
        n = r.choice([1, 1, 2, 2, 3, 3, 4, 5, 8])
        return nm, ar, [self.clause(i, n) for _ in range(n)]

    def recursive(self, nm, ar):
        r = self.r
        X, Y, Z, A, B, N, M = (Var(c) for c in 'XYZABNM')
        if ar == 2:
            k = r.choice(['len', 'map', 'last', 'cnt'])
            if k == 'len':
                return [(Cmp(nm, (NIL, 0)), Atom('true')),
                        (Cmp(nm, (mklist([X], Y), N)), conj([Cmp(nm, (Y, M)), Cmp('is', (N, Cmp('+', (M, 1))))]))]
            if k == 'map':
                return [(Cmp(nm, (NIL, NIL)), Atom('true')),
                        (Cmp(nm, (mklist([X], Y), mklist([Cmp('f', [X])], Z))), Cmp(nm, (Y, Z)))]
            if k == 'last':
                return [(Cmp(nm, (mklist([X]), X)), r.choice([Atom('true'), Atom('!')])),
                        (Cmp(nm, (mklist([A], Y), X)), Cmp(nm, (Y, X)))]
            return [(Cmp(nm, (N, M)), conj([Cmp('>', (N, 0)), Atom('!'), Cmp('is', (A, Cmp('-', (N, 1)))), Cmp('out', [A]), Cmp(nm, (A, M))])),
                    (Cmp(nm, (0, Atom('done'))), Atom('true'))]
        k = r.choice(['app', 'rev', 'part', 'sel'])
        if k == 'app':
            return [(Cmp(nm, (NIL, X, X)), Atom('true')),
                    (Cmp(nm, (mklist([A], X), Y, mklist([A], Z))), Cmp(nm, (X, Y, Z)))]
        if k == 'rev':
            return [(Cmp(nm, (NIL, X, X)), Atom('true')),
                    (Cmp(nm, (mklist([A], X), Y, Z)), Cmp(nm, (X, mklist([A], Y), Z)))]
        if k == 'sel':
            return [(Cmp(nm, (X, mklist([X], Y), Y)), Atom('true')),
                    (Cmp(nm, (X, mklist([A], Y), mklist([A], Z))), Cmp(nm, (X, Y, Z)))]
        return [(Cmp(nm, (NIL, X, NIL)), Atom('true')),
                (Cmp(nm, (mklist([A], X), B, Z)), Cmp(';', (Cmp('->', (Cmp('@<', (A, B)), Cmp('=', (Z, mklist([A], Y))))), Cmp('=', (Z, Y)))) if False else
                 conj([Cmp(';', (Cmp('->', (Cmp('==', (A, B)), Cmp('=', (Z, Y)))), Cmp('=', (Z, mklist([A], Y))))), Cmp(nm, (X, B, Y))]))]

    def query(self):
        """a goal over the whole program and its template"""
        r = self.r
        self.nv, self.seen, self.ints = 0, [], []
        n = len(self.sig)
        i = n - 1 if r.random() < .5 else r.randrange(n)
        nm, ar = self.sig[i]
        cls = self.preds[i][2]
        args = []
        h = r.choice(cls)[0]
        for j in range(ar):
            k = r.random()
            if k < .5:
                args.append(self.somevar(.8))
            elif k < .8:
                # an instance of a clause head argument
                args.append(self.inst(h.args[j]))
            else:
                args.append(self.term(2, .3))
        g = Cmp(nm, args) if ar else Atom(nm)
        if self.style == 'control' and r.random() < .7:
            g = conj([g, self.goal(n, 2)]) if r.random() < .5 else conj([self.goal(n, 2), g])
        return g, mklist(list(self.seen))

    def inst(self, t):
        r = self.r
        if type(t) is Var:
            return self.somevar(.7) if r.random() < .6 else self.term(1, .2)
        if type(t) is Cmp:
            return Cmp(t.name, [self.inst(a) for a in t.args])
        return t

    def text(self):
        out = []
        for nm, ar, cls in self.preds:
            for h, b in cls:
                out.append(clause_text(h, b))
        return '\n'.join(out)
