"""A parser and abstract evaluator for the small expression language of generated bodies. Everything it does not know raises
Unknown; the rules treat that as `not shown`."""
import re


class Unknown(Exception): pass


class IllTyped(Exception): pass      # the generated code does not compile


def is_ident(t): return isinstance(t, str) and (re.match(r'^[A-Za-z_]\w*$', t) is not None or ('{' in t and t not in '{}' and not t.startswith(('<', '"'))))
def is_hole(t): return isinstance(t, tuple) or (len(t) > 2 and t[0] == '<' and ':' in t)
def is_lit(t): return isinstance(t, str) and (t[0] == '"' or t[0].isdigit() or t.startswith(('r"', "'")) and len(t) > 2)


def norm(ts):
    out = []
    for t in ts:
        if t == '>>': out += ['>', '>']
        else: out.append(t)
    return tuple(out)


class P:
    def __init__(self, ts): self.ts = list(ts); self.i = 0

    def peek(self, k=0): return self.ts[self.i + k] if self.i + k < len(self.ts) else None

    def next(self):
        t = self.peek()
        if t is None: raise Unknown('end')
        self.i += 1
        return t

    def eat(self, t):
        if self.peek() == t:
            self.i += 1
            return True
        return False

    def want(self, t):
        if not self.eat(t): raise Unknown('expected %s, found %s' % (t, self.peek()))

    def end(self): return self.i >= len(self.ts)

    def group(self, close):
        """tokens up to the matching close"""
        d = 0
        out = []
        pair = {'(': ')', '[': ']', '{': '}'}
        while True:
            t = self.next()
            if t in ('(', '[', '{'): d += 1
            elif t in (')', ']', '}'):
                if d == 0:
                    if t != close: raise Unknown('delimiter')
                    return out
                d -= 1
            out.append(t)

    # block contents: statements and an optional tail
    def block(self):
        stmts = []
        tail = None
        while not self.end():
            if self.eat(';'): continue
            if self.peek() == '#':
                self.next(); self.want('['); self.group(']'); continue
            if self.peek() == 'let':
                self.next()
                mut = self.eat('mut')
                name = self.next()
                if not is_ident(name): raise Unknown('pattern')
                ty = None
                if self.eat(':'): ty = self.type_(('=', ';'))
                self.want('=')
                e = self.expr()
                self.want(';')
                stmts.append(('let', name, ty, e)); continue
            e = self.expr()
            if self.eat('='):
                r = self.expr()
                if not self.eat(';') and not self.end(): raise Unknown('assign')
                stmts.append(('assign', e, r)); continue
            if self.eat(';'): stmts.append(('expr', e))
            elif self.end(): tail = e
            elif e[0] in ('match', 'block', 'if'): stmts.append(('expr', e))
            else: raise Unknown('after expression: %s' % (self.peek(),))
        return ('block', tuple(stmts), tail)

    def type_(self, stops):
        """type tokens up to one of stops at depth 0"""
        out = []
        d = 0
        while True:
            t = self.peek()
            if t is None: break
            if d == 0 and t in stops: break
            if t in ('<', '(', '['): d += 1
            if t in ('>', ')', ']'): d -= 1
            if d < 0: break
            out.append(self.next())
        return tuple(out)

    def args(self):
        out = []
        while not self.eat(')'):
            out.append(self.expr())
            if not self.eat(','):
                self.want(')'); break
        return tuple(out)

    def expr(self):
        e = self.both()
        while self.peek() == '||':
            self.next(); e = ('or', e, self.both())
        return e

    def both(self):
        e = self.comparison()
        while self.peek() == '&&':
            self.next(); e = ('and', e, self.comparison())
        return e

    def comparison(self):
        e = self.unary()
        if self.peek() in ('==', '!='):
            op = self.next(); e = ('cmp', op, e, self.unary())
        elif self.peek() in ('+', '-', '*', '/', '%', '^', '<', '>', '<=', '>=', '<<', '..', '..=', 'as', '|', '&', '+=', '-='): raise Unknown('operator ' + self.peek())
        return e

    def unary(self):
        t = self.peek()
        if t == '!':
            self.next()
            return ('not', self.unary())
        if t == '&' or t == '&&':
            self.next()
            m = self.eat('mut')
            e = ('ref', m, self.unary())
            return e if t == '&' else ('ref', False, e)
        if t == '*':
            self.next()
            return ('deref', self.unary())
        if t == 'return':
            self.next()
            if self.peek() in (None, ';', ',', '}'): return ('return', None)
            return ('return', self.expr())
        if t in ('|', '||') or t == 'move':
            self.eat('move')
            ps = []
            if not self.eat('||'):
                self.want('|')
                while not self.eat('|'):
                    ps.append(self.next())
                    if self.eat(':'): self.type_((',', '|'))
                    self.eat(',')
            return ('closure', tuple(ps), self.expr())
        return self.postfix(self.primary())

    def path(self):
        segs = []
        if self.peek() == '::':
            self.next(); segs.append('')
        while True:
            t = self.next()
            if t == '<':
                self.i -= 1
                self.next()
                self.type_(())
                self.want('>')
            elif is_ident(t) or t in ('ROOT', 'Self', 'self', 'super', 'crate') or is_hole(t): segs.append(t)
            else: raise Unknown('path segment %s' % (t,))
            if not self.eat('::'): break
        return ('path', tuple(segs))

    def primary(self):
        t = self.peek()
        if t is None: raise Unknown('expression expected')
        if t == '(':
            self.next()
            if self.eat(')'): return ('unit',)
            e = self.expr()
            if self.eat(','): raise Unknown('tuple')
            self.want(')')
            return e
        if t == '{':
            self.next()
            return P(self.group('}')).block()
        if t == 'match':
            self.next()
            e = self.head()
            self.want('{')
            g = P(self.group('}'))
            arms = []
            while not g.end():
                g.eat('|')
                pats = [g.pattern()]
                while g.eat('|'): pats.append(g.pattern())
                cond = g.expr() if g.eat('if') else None
                g.want('=>')
                b = g.expr()
                if g.eat('='): b = ('block', (('assign', b, g.expr()),), None)
                for pat in pats: arms.append((pat, cond, b))
                if not g.eat(',') and not g.end() and b[0] != 'block': raise Unknown('arm')
            return ('match', e, tuple(arms))
        if t == 'if':
            self.next()
            if self.eat('let'):
                pat = self.pattern()
                self.want('=')
                e = self.head()
                self.want('{')
                a = P(self.group('}')).block()
                b = ('block', (), ('unit',))
                if self.eat('else'):
                    if self.peek() == 'if': b = self.primary()
                    else:
                        self.want('{'); b = P(self.group('}')).block()
                return ('match', e, ((pat, None, a), (('wild',), None, b)))
            e = self.head()
            self.want('{')
            a = P(self.group('}')).block()
            b = ('block', (), ('unit',))
            if self.eat('else'):
                if self.peek() == 'if': b = self.primary()
                else:
                    self.want('{'); b = P(self.group('}')).block()
            return ('if', e, a, b)
        if t == '[':
            self.next()
            g = P(self.group(']'))
            xs = []
            while not g.end():
                xs.append(g.expr())
                if g.peek() == ';': raise Unknown('array')
                if not g.eat(',') and not g.end(): raise Unknown('array')
            return ('array', tuple(xs))
        if t in ('true', 'false'):
            self.next()
            return ('bool', t == 'true')
        if is_lit(t):
            self.next()
            return ('lit', t)
        if t == '<':
            return self.path()
        if is_hole(t) and isinstance(t, str) and not t.startswith(('<Path:', '<Type:')):
            self.next()
            return ('user', t)
        if is_ident(t) or t in ('ROOT', 'Self', 'self', '::') or is_hole(t):
            p = self.path()
            if self.peek() == '!':
                self.next()
                o = self.next()
                return ('macro', p[1], tuple(self.group({'(': ')', '[': ']', '{': '}'}[o])))
            if self.peek() == '{' and not self.no_struct: return self.struct(p)
            return p
        raise Unknown('expression at %s' % (t,))

    no_struct = False

    def head(self):
        """an expression before a block: no struct literals in it"""
        self.no_struct = True
        try: return self.expr()
        finally: self.no_struct = False

    def struct(self, p):
        self.want('{')
        g = P(self.group('}'))
        fs = []
        while not g.end():
            if g.eat('..'):
                base = g.expr()
                if not g.end(): raise Unknown('struct base')
                return ('struct', p[1], tuple(fs), base)
            n = g.next()
            if n == 'LITERAL':
                fs.append(('LITERAL', None)); continue
            if g.eat(':'): e = g.expr()
            else: e = ('path', (n,))
            fs.append((n, e))
            if not g.eat(',') and not g.end(): raise Unknown('struct field')
        return ('struct', p[1], tuple(fs), None)

    def pattern(self):
        t = self.peek()
        if t == '_':
            self.next()
            return ('wild',)
        if t == '&':
            self.next()
            return ('refpat', self.pattern())
        if t == '(' and self.peek(1) == ')':
            self.next(); self.next()
            return ('wild',)
        by = None
        if self.eat('ref'): by = 'ref'
        if self.eat('mut'): by = (by or '') + 'mut'
        p = self.path()[1]
        if self.peek() == '(':
            self.next()
            subs = []
            while not self.eat(')'):
                subs.append(self.pattern()); self.eat(',')
            return ('tuple', p, tuple(subs))
        if len(p) == 1 and p[0] not in ('None', 'Some', 'Self'): return ('bind', p[0], by)
        return ('tuple', p, ())

    def postfix(self, e):
        while True:
            if self.eat('.'):
                n = self.next()
                if not is_ident(n) and not (isinstance(n, str) and n.isdigit()): raise Unknown('member %s' % (n,))
                if self.peek() == '::' and self.peek(1) == '<':
                    self.next(); self.next(); self.type_(()); self.want('>')
                if self.eat('('): e = ('mcall', e, n, self.args())
                else: e = ('field', e, n)
            elif self.peek() == '(':
                self.next()
                e = ('call', e, self.args())
            elif self.eat('?'): e = ('try', e)
            else: return e


def parse_block(ts):
    p = P(norm(ts))
    return p.block()


def tail_of(segs):
    """canonical name of a path: what it denotes"""
    s = [x for x in segs if x != '']
    if not s: return ''
    names = '::'.join(x if isinstance(x, str) else '<gen>' for x in s)
    for rx, c in CANON:
        if re.search(rx, names): return c
    return names


CORE = r'^((ROOT::export::)?(core|std|alloc)::)?'
CANON = [(CORE + r'(convert::)?From::from$', 'into'), (CORE + r'mem::replace$', 'mem_replace'), (CORE + r'mem::take$', 'mem_take'), (CORE + r'mem::swap$', 'mem_swap'), (CORE + r'mem::drop$|^drop$', 'drop'),
         (CORE + r'(option::)?(Option::)?Some$', 'Some'), (CORE + r'(option::)?(Option::)?None$', 'None'), (CORE + r'(result::)?(Result::)?Ok$', 'Ok'),
         (CORE + r'(result::)?(Result::)?Err$', 'Err'), (CORE + r'(default::)?Default::default$', 'default'), (CORE + r'(clone::)?Clone::clone$', 'clone'),
         (CORE + r'(convert::)?Into::into$', 'into'), (CORE + r'(convert::)?TryInto::try_into$', 'try_into'),
         (CORE + r'(iter::)?Extend::extend$', 'extend'), (CORE + r'(iter::)?once$', 'once'), (CORE + r'iter::repeat(_n)?$', 'repeat'),
         (CORE + r'(option::)?Option::get_or_insert_with$', 'get_or_insert_with'),
         (r'^ROOT::UninitializedFieldError::(from|new)$', 'uninit')]


def bound(p):
    if p[0] == 'bind': return [p[1]]
    if p[0] == 'refpat': return bound(p[1])
    return [n for q in p[2] for n in bound(q)] if p[0] == 'tuple' else []


class Ret(Exception):
    def __init__(self, v): self.v = v


class Diverge(Exception): pass


PANICS = ('panic', 'unreachable', 'todo', 'unimplemented', 'assert')


class Eval:
    """heap objects: 'self' is the builder behind the receiver; a clone is a new object. Where the outcome depends on
    something not given (is this other field set, does the conversion succeed) `choose` follows one alternative;
    `paths` runs all of them"""

    def __init__(self, fields, locals_, script=()):
        self.heap = {'self': dict(fields)}
        self.init = dict(fields)      # what is known about the caller's builder
        self.loc = dict(locals_)
        self.events = []
        self.n = 0
        self.script = list(script)
        self.taken = []               # (question, number of answers, answer)
        self.known = {}

    def choose(self, key, names):
        if key in self.known: return names[self.known[key]]
        i = self.script[len(self.taken)] if len(self.taken) < len(self.script) else 0
        self.taken.append((key, len(names), i))
        self.known[key] = i
        return names[i]

    # places: ('place', obj, field, path) where path steps into Some payloads
    def load(self, v):
        if v[0] == 'place':
            x = self.field(v[1], v[2])
            for _ in v[3]:
                x = self.option(x)
                if x[0] != 'some': raise Unknown('payload of %s' % (x[0],))
                x = x[1]
            return x
        return v

    def field(self, o, f):
        h = self.heap[o]
        if f not in h: h[f] = self.init.get(f, ('fld', f))
        return h[f]

    def option(self, x):
        """an Option value whose variant is known"""
        if x[0] == 'fld':
            r = ('some', ('fldv', x[1])) if self.choose(('fld', x[1]), ('some', 'none')) == 'some' else ('none',)
            for h in self.heap.values():
                if h.get(x[1]) == x: h[x[1]] = r
            self.init[x[1]] = r
            return r
        if x[0] == 'cloned':
            y = self.option(x[1])
            return ('some', ('cloned', y[1])) if y[0] == 'some' else y
        return x

    def result(self, x):
        """a Result value whose variant is known"""
        if x[0] in ('tryres', 'called'):
            new = ('res', x) not in self.known
            if self.choose(('res', x), ('ok', 'err')) == 'err': return ('err', ('errof', x))
            if new and x[0] == 'called': self.events.append(('try', x))
            return ('ok', ('okof', x))
        return x

    def store(self, pl, v):
        def put(x, path):
            if not path: return v
            x = self.option(x)
            if x[0] != 'some': raise Unknown('payload store')
            return ('some', put(x[1], path[1:]))
        self.heap[pl[1]][pl[2]] = put(self.field(pl[1], pl[2]) if pl[3] else None, pl[3])
        self.events.append(('store', pl[1], pl[2]))

    def place(self, e):
        if e[0] == 'field':
            b = self.place(e[1]) if e[1][0] == 'field' else self.ev(e[1])
            if b[0] in ('obj', 'refobj'): return ('place', b[1], e[2], ())
            if b[0] == 'struct': return self.ev(e)
            raise Unknown('field of %s' % (b[0],))
        if e[0] == 'path' and len(e[1]) == 1: return self.ev(e)
        if e[0] == 'deref': return self.place(e[1])
        return self.ev(e)

    def scoped(self, names, run):
        saved = {n: self.loc.get(n) for n in names}
        try: return run()
        finally:
            for n, v in saved.items():
                if v is None: self.loc.pop(n, None)
                else: self.loc[n] = v

    def truth(self, v):
        if v[0] == 'bool': return v[1]
        raise Unknown('condition ' + v[0])

    def ev(self, e):
        k = e[0]
        if k == 'path':
            if len(e[1]) == 1 and e[1][0] in self.loc: return self.loc[e[1][0]]
            c = tail_of(e[1])
            if c == 'None': return ('none',)
            return ('fn', c)
        if k in ('lit', 'bool'): return e
        if k == 'unit': return ('unit',)
        if k == 'user':
            self.events.append(('user', e[1]))
            return e
        if k == 'block':
            return self.scoped([s[1] for s in e[1] if s[0] == 'let'], lambda: ([self.stmt(s) for s in e[1]], self.ev(e[2]) if e[2] is not None else ('unit',))[1])
        if k == 'if': return self.ev(e[2] if self.truth(self.ev(e[1])) else e[3])
        if k == 'not': return ('bool', not self.truth(self.ev(e[1])))
        if k == 'and': return ('bool', self.truth(self.ev(e[1])) and self.truth(self.ev(e[2])))
        if k == 'or': return ('bool', self.truth(self.ev(e[1])) or self.truth(self.ev(e[2])))
        if k == 'array': return ('list', tuple(self.load(self.ev(x)) for x in e[1]))
        if k == 'ref':
            v = self.place(e[2])
            if v[0] == 'obj': return ('refobj', v[1], e[1])
            return v if v[0] in ('place', 'refobj') else ('refto', v)
        if k == 'deref':
            v = self.ev(e[1])
            return v[1] if v[0] == 'refto' else v
        if k == 'field':
            if e[1][0] == 'path' and len(e[1][1]) == 1:
                b = self.loc.get(e[1][1][0])
                if b is not None and b[0] == 'struct':
                    self.events.append(('dread', e[2]))
                    return ('sfield', b[1], e[2])
            p = self.place(e)
            v = self.load(p)
            self.events.append(('read', p[1], p[2]))
            return v
        if k == 'return': raise Ret(self.load(self.ev(e[1])) if e[1] else ('unit',))
        if k == 'closure': return ('closure', e[1], e[2])
        if k == 'try':
            v = self.ev(e[1])
            if v[0] == 'tryres': v = self.result(v)
            if v[0] == 'ok': return v[1]
            if v[0] == 'err':
                if v[1][0] == 'into': raise Unknown('? on a converted error')
                raise Ret(('err', ('into', v[1])))
            self.events.append(('try', v))
            return ('okof', v)
        if k == 'call':
            f = self.ev(e[1])
            a = e[2]
            if f[0] == 'fn':
                n = f[1]
                if n in ('get_or_insert_with', 'extend') and a: return self.method(self.place_arg(a[0]), n, a[1:])
                if n == 'clone' and len(a) == 1: return self.clone(self.place_arg(a[0]))
                if n.startswith('mem_') and a:
                    p = self.place_arg(a[0])
                    if p[0] != 'place' or n == 'mem_swap': raise Unknown(n)
                    old = self.load(p)
                    self.events.append(('read', p[1], p[2]))
                    self.store(p, self.load(self.ev(a[1])) if n == 'mem_replace' else ('none',) if not p[3] else self.dflt())
                    return old
            return self.apply(f, [self.ev(x) for x in a])
        if k == 'mcall':
            if e[2] == 'extend' and e[1][0] == 'path' and len(e[1][1]) == 1 and self.loc.get(e[1][1][0], ('place',))[0] in ('dflt', 'coll', 'ext') and len(e[3]) == 1:
                v = self.loc[e[1][1][0]]
                for i in self.items(self.ev(e[3][0])): v = ('ext', v, i)
                self.loc[e[1][1][0]] = v
                return ('unit',)
            if e[2] in PLACE_METHODS: return self.method(self.place(e[1]), e[2], e[3])
            return self.method(self.ev(e[1]), e[2], e[3])
        if k == 'match': return self.match(e)
        if k == 'struct':
            if e[3] is None: return ('literal', e[1], e[2])
            vals = [(n, self.load(self.ev(x))) for n, x in e[2]]
            b = self.ev(e[3])
            if b[0] != 'obj': raise Unknown('struct base')
            for n, v in vals: self.store(('place', b[1], n, ()), v)
            return b
        if k == 'macro':
            if e[1][-1] in PANICS[:4]: raise Diverge(e[1][-1])
            return ('macro', e[1], e[2])
        raise Unknown('expression ' + k)

    def dflt(self):
        self.events.append(('dflt',))
        return ('dflt',)

    def place_arg(self, a):
        return self.place(a[2]) if a[0] == 'ref' else self.place(a)

    def clone(self, v):
        if v[0] in ('obj', 'refobj'):
            self.n += 1
            o = 'clone%d of %s' % (self.n, v[1])
            self.heap[o] = dict(self.heap[v[1]])
            return ('obj', o)
        if v[0] == 'place':
            self.events.append(('read', v[1], v[2]))
            v = self.load(v)
        elif v[0] == 'refto': v = v[1]
        elif v[0] not in ('arg', 'some', 'none', 'fldv', 'fld'): raise Unknown('clone of ' + v[0])
        if v[0] == 'none': return v
        if v[0] == 'some': return ('some', ('cloned', v[1]))
        return ('cloned', v)

    def apply(self, f, args):
        if f[0] == 'fn':
            n = f[1]
            if n == 'Some' and len(args) == 1: return ('some', self.load(args[0]))
            if n == 'Ok' and len(args) == 1: return ('ok', args[0])
            if n == 'Err' and len(args) == 1: return ('err', args[0])
            if n == 'once' and len(args) == 1: return ('some', args[0])
            if n == 'repeat' and args and args[0] in (('arg',), ('into', ('arg',))): raise IllTyped('repeat of a value that need not be Clone')
            if n == 'default' and not args: return self.dflt()
            if n == 'into' and len(args) == 1: return ('into', self.load(args[0]))
            if n == 'clone' and len(args) == 1: return self.clone(args[0])
            if n == 'try_into' and len(args) == 1: return ('tryres', args[0])
            if n == 'uninit' and len(args) == 1: return ('uninit', args[0])
            if n == 'drop': return ('unit',)
            self.events.append(('call', n, tuple(args)))
            return ('called', n, tuple(args))
        if f[0] == 'closure' and len(f[1]) == len(args):
            def body():
                self.loc.update(zip(f[1], args))
                try: return self.ev(f[2])
                except Ret as r: return r.v
            return self.scoped(f[1], body)
        raise Unknown('call of ' + f[0])

    def items(self, x):
        items = [x[1]] if x[0] == 'some' else list(x[1]) if x[0] == 'list' else [] if x[0] == 'none' else None
        if items is None: raise Unknown('extend with ' + x[0])
        return items

    def method(self, r, n, args):
        if n == 'into' and not args: return ('into', self.load(r))
        if n == 'try_into' and not args: return ('tryres', r)
        if n == 'clone' and not args: return self.clone(r)
        if n in ('to_owned', 'borrow', 'borrow_mut'): raise Unknown('method ' + n)
        if n == 'extend' and len(args) == 1 and r[0] == 'place':
            items = self.items(self.ev(args[0]))
            v = self.load(r)
            for i in items: v = ('ext', v, i)
            self.store(r, v)
            return ('unit',)
        if n == 'into_iter' and not args: return r
        lazy = lambda i, *a: self.apply(self.ev(args[i]), list(a))
        # what kind of value is it?
        v = self.load(r) if r[0] == 'place' else r
        if r[0] == 'refto': v = r[1]
        if r[0] == 'place' and n not in ('insert', 'get_or_insert_with', 'get_or_insert', 'replace', 'get_or_insert_default'): self.events.append(('read', r[1], r[2]))
        if v[0] in ('tryres', 'called', 'ok', 'err'):
            v = self.result(v)
            if n == 'map_err': return v if v[0] == 'ok' else ('err', self.load(lazy(0, v[1])))
            if n == 'map': return ('ok', self.load(lazy(0, v[1]))) if v[0] == 'ok' else v
            if n == 'and_then': return lazy(0, v[1]) if v[0] == 'ok' else v
            if n == 'ok': return ('some', v[1]) if v[0] == 'ok' else ('none',)
            if n == 'is_ok': return ('bool', v[0] == 'ok')
            if n == 'is_err': return ('bool', v[0] == 'err')
            if n in ('unwrap', 'expect'):
                if v[0] == 'ok': return v[1]
                raise Diverge(n)
            if n == 'unwrap_or_default': return v[1] if v[0] == 'ok' else self.dflt()
            if n == 'unwrap_or_else': return v[1] if v[0] == 'ok' else lazy(0, v[1])
            if n == 'unwrap_or': d = self.ev(args[0]); return v[1] if v[0] == 'ok' else d
            raise Unknown('method ' + n)
        if n in OPTION_METHODS: v = self.option(v)
        if v == ('coll',) and n in ('get_or_insert_with', 'get_or_insert_default', 'unwrap_or_default', 'unwrap_or_else'): raise IllTyped('%s of Option called on the collection' % n)
        if v[0] not in ('some', 'none'): raise Unknown('method %s on %s' % (n, v[0]))
        some = v[0] == 'some'
        inner = (lambda: ('place', r[1], r[2], r[3] + ('some',)))
        ref = r[0] == 'refto'
        if n in ('get_or_insert_with', 'get_or_insert', 'get_or_insert_default', 'insert', 'replace', 'take', 'as_mut'):
            if r[0] != 'place': raise Unknown(n)
            if n == 'take': self.store(r, ('none',)); return v
            if n == 'replace': self.store(r, ('some', self.load(self.ev(args[0])))); return v
            if n == 'insert': self.store(r, ('some', self.load(self.ev(args[0]))))
            elif n == 'as_mut': return ('some', inner()) if some else v
            elif n == 'get_or_insert':
                x = self.load(self.ev(args[0]))
                if not some: self.store(r, ('some', x))
            elif not some: self.store(r, ('some', self.load(lazy(0)) if args else self.dflt()))
            return inner()
        if n in ('as_ref', 'iter', 'as_deref'):
            if n == 'as_deref': raise Unknown(n)
            return ('some', inner() if r[0] == 'place' else ('refto', v[1])) if some else v
        if n == 'is_some': return ('bool', some)
        if n == 'is_none': return ('bool', not some)
        if n == 'is_some_and': return ('bool', some and self.truth(lazy(0, v[1])))
        if n in ('cloned', 'copied'):
            return ('some', self.clone(v[1]) if v[1][0] in ('place', 'refto') else ('cloned', v[1])) if some else v
        if n in ('unwrap', 'expect'):
            if some: return v[1]
            raise Diverge(n)
        if n == 'unwrap_or_default': return v[1] if some else self.dflt()
        if n == 'unwrap_or_else': return v[1] if some else lazy(0)
        if n in ('unwrap_or', 'or', 'ok_or'):
            d = self.ev(args[0])
            return (v[1] if n == 'unwrap_or' else v if n == 'or' else ('ok', v[1])) if some else ('err', d) if n == 'ok_or' else d
        if n == 'or_else': return v if some else lazy(0)
        if n == 'ok_or_else': return ('ok', v[1]) if some else ('err', lazy(0))
        if n == 'map': return ('some', self.load(lazy(0, v[1]))) if some else v
        if n == 'and_then': return lazy(0, v[1]) if some else v
        if n == 'map_or': d = self.ev(args[0]); return lazy(1, v[1]) if some else d
        if n == 'map_or_else': return lazy(1, v[1]) if some else lazy(0)
        if n == 'flatten' and some: return self.option(v[1])
        if n == 'flatten': return v
        raise Unknown('method ' + n)

    def match(self, e):
        sc = e[1]
        byref = False
        while sc[0] == 'ref': byref = True; sc = sc[2]
        if sc[0] == 'mcall' and sc[2] in ('as_ref',) and not sc[3]: byref = True; sc = sc[1]
        p = self.place(sc)
        if p[0] == 'refto': byref = True; p = p[1]
        v = self.load(p)
        if p[0] == 'place': self.events.append(('read', p[1], p[2]))
        if v[0] in ('tryres', 'called'):
            v = self.result(v)
        else: v = self.option(v)
        if v[0] not in ('some', 'none', 'ok', 'err', 'bool'): raise Unknown('match on ' + v[0])
        for pat, cond, b in e[2]:
            def arm():
                hit = self.bindpat(pat, v, byref, p if p[0] == 'place' else None)
                if hit and cond is not None: hit = self.truth(self.ev(cond))
                return self.ev(b) if hit else None
            r = self.scoped(bound(pat), arm)
            if r is not None: return r
        raise Unknown('no arm')

    def bindpat(self, pat, v, byref, pl):
        while pat[0] == 'refpat': pat = pat[1]; byref = False
        if pat[0] == 'wild': return True
        if pat[0] == 'bind':
            if pat[1] in ('true', 'false') and v[0] == 'bool': return v[1] == (pat[1] == 'true')
            by = pat[2] or ''
            self.loc[pat[1]] = pl if by == 'refmut' and pl is not None else ('refto', v) if byref or by.startswith('ref') else v
            return True
        c = tail_of(pat[1])
        kind = {'Some': 'some', 'None': 'none', 'Ok': 'ok', 'Err': 'err'}.get(c)
        if kind is None: raise Unknown('pattern ' + c)
        if (kind in ('some', 'none')) != (v[0] in ('some', 'none')): raise Unknown('pattern ' + c)
        if kind != v[0]: return False
        if kind == 'none': return True
        if len(pat[2]) != 1: raise Unknown('sub-pattern')
        s = pat[2][0]
        sub = v[1]
        if s[0] == 'tuple': sub = self.option(self.result(sub))
        return self.bindpat(s, sub, byref, ('place', pl[1], pl[2], pl[3] + ('some',)) if pl is not None else None)

    def stmt(self, s):
        if s[0] == 'let':
            v = self.ev(s[3])
            self.loc[s[1]] = v
            if s[2] is not None: self.events.append(('typed', s[1], s[2], v))
            return
        if s[0] == 'assign':
            v = self.ev(s[2])
            if s[1][0] == 'path' and len(s[1][1]) == 1 and s[1][1][0] in self.loc:
                self.loc[s[1][1][0]] = v
                return
            pl = self.place(s[1])
            if pl[0] == 'obj' and v[0] == 'obj' and s[1][0] == 'deref':
                self.heap[pl[1]] = dict(self.heap[v[1]])
                self.events.append(('store', pl[1], '*'))
                return
            if pl[0] != 'place': raise Unknown('assignment')
            self.store(pl, self.load(v))
            return
        self.ev(s[1])


PLACE_METHODS = ('get_or_insert_with', 'get_or_insert', 'get_or_insert_default', 'extend', 'insert', 'replace', 'take', 'as_mut', 'as_ref', 'clone', 'is_some', 'is_none')
OPTION_METHODS = PLACE_METHODS[:3] + ('insert', 'replace', 'take', 'as_mut', 'as_ref', 'is_some', 'is_none', 'is_some_and', 'cloned', 'copied', 'unwrap', 'expect', 'unwrap_or_default',
                                      'unwrap_or_else', 'unwrap_or', 'or', 'ok_or', 'or_else', 'ok_or_else', 'map', 'and_then', 'map_or', 'map_or_else', 'flatten', 'iter')


def paths(ast, fields, locals_, limit=32, cls=None):
    """every way through a body: [(evaluator, value, 'value' | 'return' | 'panic')]"""
    out = []
    todo = [()]
    while todo:
        script = todo.pop()
        ev = (cls or Eval)(fields, locals_, script)
        try: v, how = ev.load(ev.ev(ast)), 'value'
        except Ret as r: v, how = r.v, 'return'
        except Diverge as d: v, how = ('panics', str(d)), 'panic'
        out.append((ev, v, how))
        for i in range(len(script), len(ev.taken)):
            for k in range(ev.taken[i][2] + 1, ev.taken[i][1]):
                todo.append(tuple(t[2] for t in ev.taken[:i]) + (k,))
        if len(out) + len(todo) > limit: raise Unknown('too many paths')
    return out
