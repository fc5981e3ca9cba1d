"""Model converters and loaders agree on the file formats."""
import ast
import copy
import os
import re
from rules.stream import *
from program import REPO

RF = PK + 'util::ReadableFile::'
CODES = {'i': 'i', 'I': 'i', 'l': 'i', 'L': 'i', 'f': 'f', 'B': 'b', 'b': 'b', 'h': 'h', 'H': 'h', 'q': 'q', 'Q': 'q', 'd': 'd'}
CTYPE = {'int': 'i', 'unsigned int': 'i', 'int32_t': 'i', 'float': 'f', 'double': 'd', 'long': 'q', 'short': 'h',
         'unsigned char': 'b', 'char': 'b', 'signed char': 'b', 'uint8_t': 'b'}
SIZES = {'i': 4, 'f': 4, 'd': 8, 'q': 8, 'h': 2, 'b': 1}


def run(ctx):
    ctx.rule('read', 'every file a converter writes begins with the tag of one of the loaders', 5)
    ctx.rule('fields', 'the converter writes exactly the fields the loader reads, of the same types and in the '
             'same order', 5)
    ctx.rule('counts', 'what is repeated is written as often as the loader will read it', 4)
    ctx.rule('sizes', 'the section size written is the one the loader computes', 4)
    ctx.rule('names', 'no two fields of the same type are exchanged', 2)
    ctx.rule('layers', 'each layer number written stands for the layer the loader creates for it', 6)
    ctx.rule('states', 'the arcs are written in the order the loader searches them, and each state points to its first', 2)
    streams = []
    d = os.path.join(REPO, 'tool')
    for n in sorted(os.listdir(d)):
        if n.endswith('.py'):
            src = open(os.path.join(d, n), encoding='utf-8', newline=None).read()
            if 'wb' in src:
                S = Script(n, ast.parse(src))
                for s in S.streams():
                    streams.append((S, s))
    R = Readers(ctx)
    am = R.am()
    for S, (line, items) in streams:
        at = 'tool/%s:%d' % (S.name, line)
        tag = items[0][1] if items and items[0][0] == 'tag' else None
        G = pick(R, S, tag, items, am)
        if not ctx.check('read', '%s/%s' % (S.name, tag.decode('latin1').rstrip('\0') if tag else '?'), G is not None, at,
                         '%s writes a file that no loader reads' % S.name):
            continue
        M = Match(ctx, R, S, at)
        M.seq(items, G)
        M.done()
    layers(ctx, R, [S for S, _ in streams])
    states(ctx, R, [S for S, _ in streams])


def pick(R, S, tag, items, am):
    """the loader for this file"""
    if tag is None:
        return None
    kinds = {x[1] for x in flat(items[2:]) if x[0] == 'val'}
    if tag == R.tagof('Nnet::Read'):
        return R.grammar(R.ctx.fn('Nnet::Read'))
    if tag.rstrip(b'\0') == R.tagof('Fst::Read'):
        return R.grammar(R.ctx.fn('Fst::Read'))
    if tag == R.tagof('Vector::Read'):
        f = am.get('tid2pdf_') if 'trans' in S.name else am.get('log_prior_')
        return R.grammar(f) if f is not None else None
    if tag == R.tagof('Matrix::Read'):
        return R.grammar(next(f for f in R.ctx.fns('Matrix::Read') if 'float' in f['q']))
    return None


def flat(items):
    for x in items:
        if x[0] == 'loop':
            yield from flat(x[2])
        else:
            yield x


# ------------------------------------------------------------------ converters
class Unknown(Exception):
    pass


class Script:
    """what a converter writes, from its syntax tree"""

    def __init__(self, name, tree):
        self.name, self.tree = name, tree
        self.funcs = {n.name: n for n in ast.walk(tree) if isinstance(n, ast.FunctionDef)}
        self.classes = {n.name: n for n in tree.body if isinstance(n, ast.ClassDef)}
        self.consts = self.scope(tree.body, {})
        # the names of what the tuples in a list hold
        self.kept = {}
        for n in ast.walk(tree):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == 'append' and n.args and \
                    isinstance(n.args[0], ast.Tuple) and isinstance(n.func.value, ast.Name):
                self.kept[n.func.value.id] = [last_name(x) for x in n.args[0].elts]
        self.equal = []
        for n in ast.walk(tree):
            if isinstance(n, ast.Assert):
                ts = n.test.values if isinstance(n.test, ast.BoolOp) and isinstance(n.test.op, ast.And) else [n.test]
                for t in ts:
                    if isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.ops[0], ast.Eq):
                        try:
                            self.equal.append(padd(self.poly(t.left, {}), self.poly(t.comparators[0], {}), -1))
                        except Unknown:
                            pass
        self.equal += self.stepped(tree.body)

    def stepped(self, body):
        """a counter and a list that grow together, once per round"""
        out = []
        for loop in [n for n in ast.walk(ast.Module(body, [])) if isinstance(n, ast.For)]:
            cnt = [n.target.id for n in loop.body if isinstance(n, ast.AugAssign) and isinstance(n.op, ast.Add) and
                   isinstance(n.target, ast.Name) and isinstance(n.value, ast.Constant) and n.value.value == 1]
            grown = []
            for n in loop.body:
                a = appended(n)
                if a:
                    grown.append(a)
            for c in cnt:
                for g in grown:
                    if self.starts(c, 0) and self.starts(g, []) and self.touched(c, loop) == 1 and self.touched(g, loop) == 0:
                        out.append({(): 0, ('len(%s)' % g,): 1, (c,): -1})
        return out

    def starts(self, name, v):
        xs = [n for n in ast.walk(self.tree) if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == name
                                                                                 for t in n.targets)]
        return len(xs) == 1 and (isinstance(xs[0].value, ast.Constant) and xs[0].value.value == v or
                                 isinstance(xs[0].value, ast.List) and v == [] and not xs[0].value.elts)

    def touched(self, name, loop):
        return sum(1 for n in ast.walk(self.tree) if isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name) and
                   n.target.id == name)

    def scope(self, body, env):
        """names assigned once at this level, with what they stand for"""
        count, val = {}, {}
        for n in body_nodes(body):
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    for x in ast.walk(t):
                        if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                            count[x.id] = count.get(x.id, 0) + 1
                if len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
                    val[n.targets[0].id] = n.value
            elif isinstance(n, (ast.AugAssign, ast.AnnAssign, ast.For)):
                for x in ast.walk(n.target):
                    if isinstance(x, ast.Name):
                        count[x.id] = count.get(x.id, 0) + 2
        out = dict(env)
        # names that are changed in place do not stand for their first value, but keep its length if it is a list
        for k, v in val.items():
            if count.get(k) == 1 and not self.grown(k, body):
                out[k] = v
            else:
                out.pop(k, None)
        return out

    def grown(self, name, body):
        for n in body_nodes(body):
            for c in ast.walk(n):
                if isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and isinstance(c.func.value, ast.Name) and \
                        c.func.value.id == name and c.func.attr in ('append', 'extend', 'insert', 'pop', 'remove', 'clear', 'sort', 'write'):
                    return True
        return False

    def res(self, e, env, depth=0):
        """e with the names replaced that stand for something"""
        while isinstance(e, ast.Name) and depth < 20:
            v = env.get(e.id, self.consts.get(e.id))
            if v is None or v is e:
                break
            e, depth = v, depth + 1
        return e

    def text(self, e, env):
        """a name for the value"""
        n = e
        if hasattr(e, 'called'):
            return e.called
        e = self.res(e, env)
        if hasattr(e, 'called'):
            return e.called
        if isinstance(n, ast.Name) and not isinstance(e, (ast.Name, ast.Attribute, ast.Subscript, ast.Call)):
            return n.id
        if isinstance(e, ast.Attribute):
            return '%s.%s' % (self.text(e.value, env), e.attr)
        if isinstance(e, ast.Subscript) and isinstance(e.slice, ast.Constant) and isinstance(e.slice.value, int):
            t = self.text(e.value, env)
            names = self.kept.get(t[:-5]) if t.endswith("['*']") else None
            if names and e.slice.value < len(names):
                return '%s.%s' % (t, names[e.slice.value])
        if isinstance(e, ast.Subscript):
            return '%s[%s]' % (self.text(e.value, env), self.text(e.slice, env))
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ('float', 'int') and len(e.args) == 1:
            return self.text(e.args[0], env)
        return ast.unparse(e)

    def poly(self, e, env):
        e = self.res(e, env)
        if isinstance(e, ast.Constant) and isinstance(e.value, int):
            return {(): e.value}
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.USub):
            return pscale(self.poly(e.operand, env), -1)
        if isinstance(e, ast.BinOp):
            if isinstance(e.op, (ast.Add, ast.Sub)):
                return padd(self.poly(e.left, env), self.poly(e.right, env), 1 if isinstance(e.op, ast.Add) else -1)
            if isinstance(e.op, ast.Mult):
                return pmul(self.poly(e.left, env), self.poly(e.right, env))
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == 'len' and len(e.args) == 1:
            return self.length(e.args[0], env)
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == 'int' and len(e.args) == 1:
            return self.poly(e.args[0], env)
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr == 'calcsize':
            f = self.fmt(e.args[0], env)
            return {(): sum(SIZES[c] * n for c, n in f if isinstance(n, int))}
        if isinstance(e, ast.Subscript) and isinstance(e.value, ast.Attribute) and e.value.attr == 'shape':
            i = e.slice.value if isinstance(e.slice, ast.Constant) else None
            if i == 0:
                return self.length(e.value.value, env)
            if i == 1:
                return {('len(%s[0])' % self.text(e.value.value, env),): 1}
        return {(self.text(e, env),): 1}

    def length(self, e, env):
        e = self.res(e, env)
        if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Mult):
            for l, n in ((e.left, e.right), (e.right, e.left)):
                if isinstance(l, ast.List):
                    return pmul({(): len(l.elts)}, self.poly(n, env))
        if isinstance(e, ast.ListComp) and len(e.generators) == 1 and not e.generators[0].ifs:
            return self.length(e.generators[0].iter, env)
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ('list', 'tuple', 'enumerate', 'sorted', 'reversed', 'iter'):
            return self.length(e.args[0], env)
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == 'range':
            if len(e.args) == 1:
                return self.poly(e.args[0], env)
            if len(e.args) == 2:
                return padd(self.poly(e.args[1], env), self.poly(e.args[0], env), -1)
        if isinstance(e, (ast.List, ast.Tuple)):
            return {(): len(e.elts)}
        if isinstance(e, ast.Constant) and isinstance(e.value, (bytes, str)):
            return {(): len(e.value)}
        return {('len(%s)' % self.text(e, env),): 1}

    # ---- what is written
    def streams(self):
        out = []
        todo = [(self.tree.body, {})]
        for f in [n for n in ast.walk(self.tree) if isinstance(n, ast.FunctionDef)]:
            todo.append((f.body, {}))
        for body, env in todo:
            for blk in blocks(body):
                for i, n in enumerate(blk):
                    if isinstance(n, ast.With):
                        for it in n.items:
                            if opens(it.context_expr) and isinstance(it.optional_vars, ast.Name):
                                e = self.scope(body, env) if body is not self.tree.body else dict(self.consts)
                                out.append((n.lineno, self.block(n.body, it.optional_vars.id, e, self.owner(n))))
                    elif isinstance(n, ast.Assign) and opens(n.value) and isinstance(n.targets[0], ast.Name):
                        e = self.scope(body, env) if body is not self.tree.body else dict(self.consts)
                        out.append((n.lineno, self.block(blk[i + 1:], n.targets[0].id, e, self.owner(n))))
        return out

    def owner(self, node):
        for c in self.classes.values():
            if any(x is node for x in ast.walk(c)):
                return c.name
        return None

    def block(self, body, fd, env, cls, depth=0):
        out = []
        env = dict(env)
        for n in body:
            if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and depth:
                env[n.targets[0].id] = close_over(n.value, env)
            if isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
                out += self.call(n.value, fd, env, cls, depth)
            elif isinstance(n, ast.For):
                sub = dict(env)
                it = n.iter
                names = [x.id for x in ast.walk(n.target) if isinstance(x, ast.Name)]
                for x in names:
                    sub.pop(x, None)
                    sub[x] = ast.Name(x + '@', ast.Load())
                src = self.res(it, env)
                each = src
                if isinstance(src, ast.Call) and isinstance(src.func, ast.Name) and src.func.id == 'enumerate':
                    each = src.args[0]
                if names:
                    # an element of the sequence
                    el_ = ast.Subscript(each, ast.Constant('*'), ast.Load())
                    t = n.target
                    if each is not src and isinstance(t, ast.Tuple):
                        t = t.elts[-1]
                    if isinstance(t, ast.Name):
                        sub[t.id] = close_over(el_, env)
                    elif isinstance(t, ast.Tuple):
                        for i, x in enumerate(t.elts):
                            if isinstance(x, ast.Name):
                                sub[x.id] = close_over(ast.Subscript(el_, ast.Constant(i), ast.Load()), env)
                items = self.block(n.body, fd, sub, cls, depth)
                if items:
                    out.append(('loop', self.length(it, env), items, self.text(each, env)))
            elif isinstance(n, ast.With):
                out += self.block(n.body, fd, env, cls, depth)
            elif isinstance(n, ast.If):
                a, b = self.block(n.body, fd, env, cls, depth), self.block(n.orelse, fd, env, cls, depth)
                if a or b:
                    if a and b and a != b:
                        out.append(('alt', a, b))
                    else:
                        out += [('opt', a or b)] if not (a and b) else a
            elif isinstance(n, ast.Return):
                break
        return out

    def call(self, c, fd, env, cls, depth):
        f = c.func
        if isinstance(f, ast.Attribute) and f.attr == 'write' and isinstance(f.value, ast.Name) and f.value.id == fd:
            return self.data(c.args[0], env)
        given = [i for i, a in enumerate(c.args) if isinstance(a, ast.Name) and a.id == fd]
        if not given or depth > 8:
            return []
        target, owner = None, cls
        skip = 1
        if isinstance(f, ast.Name):
            target, skip, owner = self.funcs.get(f.id), 0, None
        elif isinstance(f, ast.Attribute):
            v = f.value
            if isinstance(v, ast.Name) and v.id == 'self':
                target, owner = self.method(cls, f.attr), cls
            elif isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == 'super':
                target, owner = self.method(self.base(cls), f.attr), cls
            elif isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id in self.classes:
                target, owner = self.method(v.func.id, f.attr), v.func.id
            elif f.attr == 'write' or any(self.own(k, f.attr) for k in self.classes):
                return [('layer',)]
        if target is None:
            return [('unknown', ast.unparse(c))]
        ps = [a.arg for a in target.args.args][skip:]
        sub = {}
        for p, a in zip(ps, c.args):
            sub[p] = close_over(a, env)
        sub['self'] = env.get('self', ast.Name('self', ast.Load()))
        if isinstance(f, ast.Attribute) and not isinstance(f.value, ast.Name) and not (isinstance(f.value, ast.Call) and
                                                                                     getattr(f.value.func, 'id', '') == 'super'):
            sub.pop('self', None)
        return self.block(target.body, ps[given[0]], sub, owner, depth + 1)

    def own(self, cls, m):
        return next((n for n in self.classes[cls].body if isinstance(n, ast.FunctionDef) and n.name == m), None) \
            if cls in self.classes else None

    def base(self, cls):
        b = self.classes[cls].bases if cls in self.classes else []
        return b[0].id if b and isinstance(b[0], ast.Name) else None

    def method(self, cls, m):
        while cls in self.classes:
            f = self.own(cls, m)
            if f is not None:
                return f
            cls = self.base(cls)
        return None

    def fmt(self, e, env):
        """[(code, count)] of a struct format"""
        e = self.res(e, env)
        parts = []
        if isinstance(e, ast.Constant):
            s = e.value.decode() if isinstance(e.value, bytes) else e.value
        elif isinstance(e, ast.JoinedStr):
            s = ''
            for v in e.values:
                if isinstance(v, ast.Constant):
                    s += v.value
                else:
                    parts.append(self.poly(v.value, env))
                    s += '{%d}' % (len(parts) - 1)
        elif isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr == 'format':
            s = re.sub(r'\{\}', lambda m, c=iter(range(99)): '{%d}' % next(c), e.func.value.value)
            parts = [self.poly(a, env) for a in e.args]
        elif isinstance(e, ast.BinOp) and isinstance(e.op, ast.Mod):
            s = re.sub(r'%d', lambda m, c=iter(range(99)): '{%d}' % next(c), e.left.value)
            parts = [self.poly(a, env) for a in (e.right.elts if isinstance(e.right, ast.Tuple) else [e.right])]
        else:
            raise Unknown(ast.unparse(e))
        if not s.startswith('<'):
            raise Unknown('byte order of %r' % s)
        out = []
        for m in re.finditer(r'(\d+|\{\d+\})?([a-zA-Z?])', s[1:]):
            n = m.group(1)
            n = 1 if n is None else int(n) if n.isdigit() else parts[int(n[1:-1])]
            out.append((CODES.get(m.group(2), '?' + m.group(2)), n))
        return out

    def data(self, e, env):
        try:
            return self.data_(e, env)
        except Unknown as x:
            return [('unknown', '%s (%s)' % (ast.unparse(e), x))]

    def data_(self, e, env):
        e = self.res(e, env)
        if isinstance(e, ast.Constant) and isinstance(e.value, bytes):
            return [('tag', e.value)]
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute):
            m, v = e.func.attr, e.func.value
            if m == 'ljust':
                b = self.res(v, env)
                n = self.res(e.args[0], env)
                p = self.res(e.args[1], env) if len(e.args) > 1 else ast.Constant(b' ')
                if isinstance(b, ast.Constant) and isinstance(n, ast.Constant) and isinstance(p, ast.Constant):
                    return [('tag', b.value.ljust(n.value, p.value))]
            if m == 'encode':
                b = self.res(v, env)
                if isinstance(b, ast.Constant):
                    return [('tag', b.value.encode())]
            if m == 'pack':
                out, args = [], list(e.args[1:])
                if isinstance(e.args[0], ast.Constant) and re.match(r'[<>=!]?\d+s$', str(e.args[0].value)):
                    b = self.res(args[0], env)
                    if isinstance(b, ast.Constant) and isinstance(b.value, bytes):
                        n = int(re.search(r'\d+', e.args[0].value).group())
                        return [('tag', b.value[:n].ljust(n, b'\0'))]
                for code, n in self.fmt(e.args[0], env):
                    if isinstance(n, int):
                        for _ in range(n):
                            if not args:
                                return [('unknown', ast.unparse(e))]
                            a = args[0]
                            if isinstance(a, ast.Starred):
                                return [('unknown', ast.unparse(e))]
                            args.pop(0)
                            out.append(('val', code, self.safe(a, env), self.text(a, env)))
                    else:
                        a = args.pop(0)
                        v = a.value if isinstance(a, ast.Starred) else a
                        out.append(('loop', n, [('val', code, None, self.text(v, env) + "['*']")], self.text(v, env)))
                return out
            if m == 'join' and isinstance(v, ast.Constant) and v.value == b'':
                g = e.args[0]
                if isinstance(g, (ast.GeneratorExp, ast.ListComp)) and len(g.generators) == 1 and not g.generators[0].ifs:
                    sub = dict(env)
                    t = g.generators[0].target
                    if isinstance(t, ast.Name):
                        sub[t.id] = close_over(ast.Subscript(g.generators[0].iter, ast.Constant('*'), ast.Load()), env)
                    return [('loop', self.length(g.generators[0].iter, env), self.data(g.elt, sub), self.text(g.generators[0].iter, env))]
            if m == 'tobytes':
                t = [x.value for x in ast.walk(v) if isinstance(x, ast.Constant) and x.value in ('<f4', '<i4', 'float32', 'int32')]
                t += [{'float32': 'f', 'int32': 'i'}[x.attr] for x in ast.walk(v) if isinstance(x, ast.Attribute) and
                      x.attr in ('float32', 'int32')]
                base = v
                while isinstance(base, ast.Call):
                    base = base.func.value if isinstance(base.func, ast.Attribute) and base.func.attr == 'astype' else base.args[0]
                if t:
                    k = t[0].lstrip('<').rstrip('432')
                    return [('loop', self.length(base, env), [('val', {'float': 'f', 'int': 'i'}.get(k, k), None,
                                                               self.text(base, env))], self.text(base, env))]
        if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Add):
            return self.data(e.left, env) + self.data(e.right, env)
        return [('unknown', ast.unparse(e))]

    def safe(self, e, env):
        try:
            return self.poly(e, env)
        except Unknown:
            return None

    # ---- layers
    def layers(self):
        """{class: (number, items)} of the layer classes"""
        out = {}
        for n, c in self.classes.items():
            num = None
            k = n
            while num is None and k in self.classes:
                for x in ast.walk(self.classes[k]):
                    if isinstance(x, ast.Assign) and any(getattr(t, 'attr', getattr(t, 'id', None)) == 'layer_type' for t in x.targets):
                        num = self.poly(x.value, {})
                k = self.base(k)
            w = self.method(n, 'write')
            if num is None or w is None or list(num) != [()]:
                continue
            ps = [a.arg for a in w.args.args]
            out[n] = (num[()], self.block(w.body, ps[1], {'self': ast.Name('self', ast.Load())}, n, 1), c.lineno)
        return out


def close_over(e, env):
    """e with the names of env put in"""
    class Sub(ast.NodeTransformer):
        def visit_Name(self, n):
            if isinstance(n.ctx, ast.Load) and n.id in env and env[n.id] is not n:
                v = copy.deepcopy(env[n.id])
                if not isinstance(v, (ast.Name, ast.Attribute, ast.Subscript, ast.Call)) and not hasattr(v, 'called'):
                    v.called = n.id
                return v
            return n
    return Sub().visit(copy.deepcopy(e))


def body_nodes(body):
    for n in body:
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            continue
        yield n
        for k in ('body', 'orelse', 'finalbody'):
            b = getattr(n, k, None)
            if isinstance(b, list):
                yield from body_nodes(b)


def blocks(body):
    yield body
    for n in body:
        if isinstance(n, ast.FunctionDef):
            continue
        for k in ('body', 'orelse', 'finalbody'):
            b = getattr(n, k, None)
            if isinstance(b, list) and b and not isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                yield from blocks(b)


def opens(e):
    return isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == 'open' and any(
        isinstance(a, ast.Constant) and isinstance(a.value, str) and 'w' in a.value and 'b' in a.value and len(a.value) < 4
        for a in list(e.args[1:]) + [k.value for k in e.keywords])


def appended(n):
    """the list this statement appends one element to, whichever way it goes"""
    if isinstance(n, ast.Expr) and isinstance(n.value, ast.Call) and isinstance(n.value.func, ast.Attribute) and \
            n.value.func.attr == 'append' and isinstance(n.value.func.value, ast.Name):
        return n.value.func.value.id
    if isinstance(n, ast.If):
        a = [appended(x) for x in n.body if appended(x)]
        b = [appended(x) for x in n.orelse if appended(x)]
        if len(a) == 1 and a == b:
            return a[0]
    return None


def padd(a, b, k=1):
    out = dict(a)
    for m, c in b.items():
        out[m] = out.get(m, 0) + k * c
    return {m: c for m, c in out.items() if c}


def pscale(a, k):
    return {m: c * k for m, c in a.items() if c * k}


def pmul(a, b):
    out = {}
    for m, c in a.items():
        for n, d in b.items():
            k = tuple(sorted(m + n))
            out[k] = out.get(k, 0) + c * d
    return {m: c for m, c in out.items() if c}


# ------------------------------------------------------------------ loaders
class Readers:
    """what a loader reads, from its flow"""

    def __init__(self, ctx):
        self.ctx, self.memo = ctx, {}
        self.stops = [RF + 'Read', RF + 'ReadValue', RF + 'ReadAndVerifyString', RF + 'Open', RF + 'Close', PK + 'util::Format',
                      PK + 'Vector::Read', PK + 'Matrix::Read', PK + 'Nnet::Read', PK + 'Layer::Read',
                      PK + 'Configuration::GetPath', PK + 'Configuration::GetInteger']

    def flow(self, f):
        ex = {k: v for k, v in SUMMARY.items() if not k.endswith('::Read')}
        return self.ctx.flow(f, stop=[s for s in self.stops if s != f['n']], extra=ex, key='f01')

    def strings(self, F, v):
        if v.op == 'str':
            return v.args[0].encode()
        if v.op == 'init' and v.args[0].op == 'glob':
            g = self.ctx.prog.globals.get(v.args[0].args[0])
            if g and 'str' in g:
                return g['str'].encode()
        for x in walk(v):
            if x is not v and x.op in ('str', 'init'):
                s = self.strings(F, x)
                if s is not None:
                    return s
        return None

    def tagof(self, name):
        for f in self.ctx.fns(name) if name.startswith(('Vector', 'Matrix')) else [self.ctx.fn(name)]:
            g = self.grammar(f)
            if g and g['items'] and g['items'][0][0] == 'tag':
                return g['items'][0][1].rstrip(b'\0')
        return None

    def am(self):
        """{field: the Read it is filled with} in the acoustic model"""
        F = self.flow(self.ctx.fn('AcousticModel::Read'))
        out = {}
        for e in F.events:
            if e.kind == 'call' and last(e.name) == 'Read' and e.obj is not None and e.obj.op == 'fld':
                ts = self.ctx.prog.targets(e.e)
                if ts:
                    out[e.obj.args[1]] = ts[0]
        return out

    def grammar(self, f):
        if f['key'] not in self.memo:
            self.memo[f['key']] = None
            self.memo[f['key']] = self._grammar(f)
        return self.memo[f['key']]

    def _grammar(self, f):
        F = self.flow(f)
        G = {'F': F, 'f': f, 'items': [], 'eqs': []}
        evs = []
        for e in F.events:
            if e.kind != 'call' or not e.name:
                continue
            if e.name in (RF + 'Read', RF + 'ReadValue', RF + 'ReadAndVerifyString') or last(e.name) == 'Read' and \
                    e.name.startswith(PK) and e.name in self.stops + [f['n']] or last(e.name) == 'Read' and e.name.startswith(PK):
                evs.append(e)
        memo = {}

        def after(n):
            if n not in memo:
                seen, todo = set(), [n]
                while todo:
                    a = todo.pop()
                    for i, (t, _) in enumerate(a.succs):
                        if F.E.get((a, i)) is not None and t not in seen:
                            seen.add(t)
                            todo.append(t)
                memo[n] = seen
            return memo[n]

        def rank(e):
            return sum(1 for x in evs if x is not e and (
                x.node is e.node and x.seq < e.seq or x.node is not e.node and (
                    F.dominates(x.node, e.node) or e.node in after(x.node) and x.node not in after(e.node))))
        evs = sorted(evs, key=rank)
        G['events'] = evs
        stack = [(None, G['items'])]
        for e in evs:
            hs = loops.rounds(F, e.node)
            hs = list(reversed(hs))
            while len(stack) > 1 and stack[-1][0] not in hs:
                stack.pop()
            for h in hs:
                if h not in [s[0] for s in stack]:
                    l = ['loop', self.count(F, h, e, evs), [], '', h]
                    stack[-1][1].append(l)
                    stack.append((h, l[2]))
            stack[-1][1].append(self.item(F, e))
        eqs = set()
        for k, fs in F.E.items():
            if fs is None:
                continue
            n = k[0]
            for g in fs:
                if g.op != 'not' and self.lin(g) is not None:
                    eqs.add((g, n))
        G['eqs'] = self.needed(F, [g for g, n in eqs])
        return G

    def needed(self, F, gs):
        """equations without which the loader does not succeed"""
        out = []
        for g in dict.fromkeys(gs):
            ds = F.defnodes(g)
            d = F.entry
            for x in ds:
                if F.dominates(d, x):
                    d = x
            R = F.assume(d, [NOT(g)])
            if not [v for v in R.accepts()]:
                out.append(self.lin(g))
        return out

    def lin(self, g):
        """the linear form an equation sets to zero, over the values read"""
        if g.op not in ('eq0', 'eq') or len(g.args) < 1:
            return None
        x = g.args[0] if g.op == 'eq0' else sub(g.args[0], g.args[1]) if g.args[0].op in ('sum', 'c', 'out') and \
            g.args[1].op in ('sum', 'c', 'out') else None
        return self.poly(x) if x is not None else None

    def poly(self, x):
        if x is None:
            return None
        out = {}
        y = x
        if x.op == 'c' and isinstance(x.args[0], int):
            return {(): x.args[0]} if x.args[0] else {}
        if x.op == 'sum':
            for a, k in self.terms(x):
                if a is None:
                    out[()] = out.get((), 0) + k
                elif a.op == 'out':
                    out[(a,)] = out.get((a,), 0) + k
                else:
                    return None
            return out
        return {(x,): 1} if x.op == 'out' else None

    def terms(self, x):
        d, c = lin(x)
        for a, k in d.items():
            yield a, k
        if c:
            yield None, c

    def count(self, F, h, e, evs):
        memo = {}

        def gone(k):
            # a failure leaves the file unread
            if k not in memo:
                memo[k] = not F.assume(k[0].succs[k[1]][0], list(F.E.get(k) or ())).accepts() or aborts(F, k)
            return memo[k]
        outs = [T_ for x in evs for T_ in self.outs(F, x)]
        for o in outs:
            if len(o.args) == 2 and o.args[1] in (0, '0') and F.dominates(F.defnode[o], h) and F.defnode[o] is not h and \
                    not counted(F, e.node, o, gone):
                return {(o,): 1}
        return None

    def outs(self, F, e):
        return [x for x, n in F.defnode.items() if n is e.node and x.op == 'out']

    def value(self, F, e):
        """the value this read yields"""
        a = e.args[0]
        loc = a.args[0] if a.op == 'addr' else None
        u = F.uid(e.frame, e.e)
        for x in self.outs(F, e):
            if x.args[0] is u and x.args[-1] in (0, '0'):
                return x, loc
        return None, loc

    def item(self, F, e):
        if e.name == RF + 'ReadAndVerifyString':
            return ('tag', self.strings(F, e.args[0]) or b'?')
        if e.name == RF + 'ReadValue':
            t = e.e['f']['pt'][0].replace('*', '').strip()
            v, loc = self.value(F, e)
            return ('val', CTYPE.get(t, t), v, name_of(loc), e)
        if e.name == RF + 'Read':
            n = e.args[1]
            loc = None
            for x in walk(e.args[0]):
                if x.op == 'addr':
                    loc = x.args[0]
            if n.op == 'c':
                tag = self.compared(F, e)
                if tag is not None:
                    return ('tag', tag.ljust(n.args[0], b'\0'))
            t, size = self.elements(F, e, n)
            c, d = None, None
            p = self.poly(n)
            if p is not None and size and all(k % size == 0 for k in p.values()):
                c = {m: k // size for m, k in p.items()}
            return ['loop', c, t, name_of(loc)]
        ts = self.ctx.prog.targets(e.e)
        if last(e.name) == 'Read' and (e.name == PK + 'Layer::Read' or len(ts) > 1):
            return ('layer', e)
        return ('sub', ts[0], name_of(e.obj), e)

    def compared(self, F, e):
        """the text the bytes read are compared with"""
        for x in F.events:
            if x.kind == 'call' and last(x.name) in ('operator!=', 'operator==', 'strcmp', 'strncmp', 'memcmp', 'compare') and \
                    F.dominates(e.node, x.node):
                for a in list(x.args) + ([x.val] if x.val is not None else []):
                    s = self.strings(F, a) if a is not None else None
                    if s:
                        return s
        return None

    def elements(self, F, e, n):
        """(fields of an element, size) of the array that is filled"""
        cands = []
        for x in F.events:
            if x.node is e.node and x.seq < e.seq and last(x.name) in ('data', 'Data', 'begin') and x.kind == 'call':
                cands.append(x.e['f'].get('cls') or '')
                cands.append(x.e['f'].get('clst') or '')
        cands.append(F.frames[0].fn.get('q') or '')
        cands.append(F.frames[0].fn['key'])
        for c in cands:
            m = re.search(r'(?:vector|Vector|VectorBase|array)<([^,<>]+)', c)
            if m:
                t = m.group(1).strip()
                if t in CTYPE:
                    return [('val', CTYPE[t], None, '')], SIZES[CTYPE[t]]
                r = self.ctx.prog.records.get(t) or self.ctx.prog.records.get(PK + t)
                if r:
                    fs = [('val', CTYPE.get(x['type'], x['type']), None, x['name']) for x in r['fields']]
                    return fs, r['size']
        return [('val', '?', None, '')], None


def name_of(loc):
    while loc is not None and loc.op in ('el',):
        loc = loc.args[0]
    if loc is None:
        return ''
    if loc.op == 'fld' and loc.args[1].startswith('#'):
        return name_of(loc.args[0])
    if loc.op == 'fld':
        return loc.args[1]
    if loc.op == 'var':
        return show(loc)
    return ''


# ------------------------------------------------------------------ agreement
class Match:
    def __init__(self, ctx, R, S, at):
        self.ctx, self.R, self.S, self.at = ctx, R, S, at
        self.bind, self.pairs, self.name = {}, [], S.name
        self.eqs = list(S.equal)

    def bad(self, rule, key, msg):
        self.ctx.check(rule, '%s/%s' % (self.name, key), False, self.at, '%s: %s' % (self.name, msg))

    def good(self, rule, key):
        self.ctx.check(rule, '%s/%s' % (self.name, key), True, self.at, '')

    def seq(self, items, G, pre=''):
        gi = list(G['items'])
        self.walk_(list(items), gi, G, pre or last(G['f']['n'].rsplit('::', 1)[0]))
        # what the loader insists on
        for p in G['eqs']:
            q = {}
            for m, c in p.items():
                v = {(): 1}
                for a in m:
                    v = pmul(v, self.bind.get(a) or {('?%s' % show(a),): 1})
                q = padd(q, v, c)
            if any('?' in a for m in q for a in m):
                continue
            self.ctx.check('sizes', '%s/%s' % (self.name, G['f']['n'].replace(PK, '')), self.zero(q), self.at,
                           '%s: what is written differs from what %s computes by %s' % (
                               self.name, G['f']['n'].replace(PK, ''), ptext(q)))

    def zero(self, q):
        if not q:
            return True
        for e in self.eqs:
            for m, c in e.items():
                if m and len(m) == 1 and abs(c) == 1 and any(m[0] in n for n in q):
                    # replace m[0]
                    r = {}
                    for n, k in q.items():
                        t = {(): 1}
                        for a in n:
                            t = pmul(t, pscale(padd(e, {m: c}, -1), -1 if c == 1 else 1) if a == m[0] else {(a,): 1})
                        r = padd(r, t, k)
                    if not r:
                        return True
        return False

    def walk_(self, w, r, G, pre):
        i = 0
        w, r = list(w), list(r)
        while w or r:
            a = w[0] if w else None
            b = r[0] if r else None
            if b is not None and b[0] == 'sub':
                g = self.R.grammar(b[1])
                n = len(g['items'])
                if a is None:
                    return self.bad('fields', pre, '%s is missing' % b[2])
                before = len(self.pairs)
                self.pairs.append((wname(w[:n]), b[2], 'sub'))
                sub_ = Match(self.ctx, self.R, self.S, self.at)
                sub_.pairs = []
                sub_.seq(w[:n], g, pre + '/' + (b[2] or '?'))
                self.note(g, sub_, b, G)
                w, r = w[n:], r[1:]
                continue
            if a is not None and a[0] == 'layer':
                # the layers are compared one by one
                k = next((j for j, x in enumerate(r) if x[0] == 'layer'), None)
                if k is None:
                    return self.bad('fields', pre, 'a layer is written where none is read')
                w, r = w[1:], r[k + 1:]
                continue
            if a is None or b is None:
                return self.bad('fields', pre, ('%s is not written' % kind(b)) if a is None else ('%s is not read' % kind(a)))
            if a[0] != b[0]:
                return self.bad('fields', pre, '%s is written where %s is read' % (kind(a), kind(b)))
            if a[0] == 'tag':
                if a[1] != b[1]:
                    return self.bad('fields', pre, '%r is written where %r is read' % (a[1], b[1]))
            elif a[0] == 'val':
                if a[1] != b[1]:
                    return self.bad('fields', pre, '%s is written where %s is read' % (kind(a), kind(b)))
                if b[2] is not None and a[2] is not None:
                    self.bind[b[2]] = a[2]
                self.pairs.append((a[3], b[3], a[1]))
            elif a[0] == 'loop':
                if b[1] is not None:
                    n = {}
                    for m, c in b[1].items():
                        v = {(): 1}
                        for x in m:
                            v = pmul(v, self.bind.get(x) or {('?%s' % show(x),): 1})
                        n = padd(n, v, c)
                    self.ctx.check('counts', '%s/%s/%s' % (self.name, pre, b[3] or i), self.zero(padd(a[1], n, -1)), self.at,
                                   '%s: %s times something is written that is read %s times' % (self.name, ptext(a[1]), ptext(n)))
                else:
                    self.bad('counts', pre + '/%s' % (b[3] or i), 'how often the loader reads is unclear')
                self.pairs.append((a[3], b[3], 'loop' + ''.join(x[1] for x in flat(a[2]) if x[0] == 'val')))
                self.walk_(a[2], b[2], G, pre + '/' + (b[3] or 'each'))
            else:
                return self.bad('fields', pre, 'what is written is unclear: %s' % (a,))
            w, r = w[1:], r[1:]
            i += 1
        self.good('fields', pre)

    def note(self, g, sub_, b, G):
        """what is known of the object read, in the caller's terms"""
        pass

    def done(self):
        # exchanged: what is written under one name is read under the name of another
        ps = [(words(a), words(b), k) for a, b, k in self.pairs]
        bad = None
        for i, (a, b, k) in enumerate(ps):
            if not a or not b or a == b:
                continue
            for j, (c, d, k2) in enumerate(ps):
                if j != i and d and a == d and k == k2:
                    bad = (self.pairs[i], self.pairs[j])
        self.ctx.check('names', self.name, bad is None, self.at, '%s: %s is written where %s is read' % (
            self.name, bad[0][0] if bad else '', bad[0][1] if bad else ''))


def wname(items):
    """the object a run of fields describes"""
    for x in items:
        if x[0] == 'loop':
            return x[3]
    return ''


def words(n):
    if not n:
        return None
    n = re.sub(r"\[.*?\]|len\(|\)|float\(|int\(", '', n).split('.')[-1]
    n = n.replace('input', 'i').replace('output', 'o')
    n = re.sub(r'[^A-Za-z0-9_]', '', n).lower().strip('_')
    parts = frozenset(p for p in n.split('_') if p)
    if not parts:
        return None
    return frozenset({''.join(sorted(parts))}) if len(parts) > 1 else parts


def kind(x):
    names = {'i': 'a 32-bit integer', 'f': 'a float', 'd': 'a double', 'q': 'a 64-bit integer', 'h': 'a 16-bit integer', 'b': 'a byte'}
    if x is None:
        return 'nothing'
    if x[0] == 'tag':
        return 'the tag %r' % x[1]
    if x[0] == 'val':
        return names.get(x[1], x[1])
    if x[0] == 'loop':
        return 'an array'
    if x[0] == 'sub':
        return 'a section'
    return 'something else (%s)' % (x[0],)


def ptext(p):
    return ' + '.join(('%d*' % c if c != 1 or not m else '') .rstrip('*' if not m else '') + '*'.join(m) for m, c in sorted(p.items())) or '0'


# ------------------------------------------------------------------ layers
def layers(ctx, R, scripts):
    f = ctx.fn('Nnet::ReadLayer')
    F = R.flow(f)
    G = R.grammar(f)
    types = [x for x in G['items'] if x[0] == 'val']
    if not ctx.check('layers', 'type', bool(types), f['loc'], 'the loader reads no layer number'):
        return
    v, e = types[0][2], types[0][4]
    made = {}
    seen = set()
    for S in {s.name: s for s in scripts}.values():
        for cls, (num, items, line) in sorted(S.layers().items()):
            at = 'tool/%s:%d' % (S.name, line)
            reached = F.assume(e.node, [eq(v, C(num))])
            cs = {last(x.name) for x in F.events if x.kind in ('new', 'ctor', 'enter') and x.name and reached.reached(x) and
                  re.match(PK + r'\w+Layer(::\w+Layer)?$', x.name) and x.name.split('::')[1] == last(x.name)}
            cs = {x for x in cs if x != 'Layer' and PK + x in ctx.prog.records}
            if not ctx.check('layers', '%s/known' % cls, len(cs) == 1, at, 'the loader knows no layer %d, which %s is written as' % (num, cls)):
                continue
            c = cs.pop()
            made[cls] = c
            ctx.check('layers', '%s/once' % cls, num not in seen, at, 'layer number %d is written for two kinds of layers' % num)
            seen.add(num)
            g = next((x for x in ctx.prog.functions.values() if x['n'] == PK + c + '::Read'), None) or \
                next((x for x in ctx.prog.functions.values() if x['n'] == PK + 'Layer::Read' and x['blocks']), None)
            M = Match(ctx, R, S, at)
            M.name = '%s/%s' % (S.name, cls)
            head = [x for x in G['items'] if x[0] != 'layer']
            M.walk_(items[:len(head)], head, G, 'header')
            M2 = Match(ctx, R, S, at)
            M2.name = M.name
            M2.seq(items[len(head):], R.grammar(g) if g is not None else {'items': [], 'eqs': [], 'f': f}, c)
            M2.done()
        # no layer is written under the number of another one
        for a, c in made.items():
            other = [b for b, d in made.items() if b != a and d.lower() == a.lower()]
            ctx.check('layers', '%s/same' % a, not other, 'tool/%s:%d' % (S.name, S.layers()[a][2]) if a in S.layers() else 'tool',
                      'a %s is loaded as a %s' % (a, c))
    wrong = [a for a, c in made.items() if a.lower() != c.lower() and any(
        x['n'].split('::')[-2].lower() == a.lower() for x in ctx.prog.functions.values() if x['n'].endswith('Layer::Read'))]
    ctx.check('layers', 'kind', not wrong, f['loc'], 'a %s is loaded as a %s' % (wrong[0] if wrong else '', made.get(wrong[0]) if wrong else ''))


# ------------------------------------------------------------------ the graph
def states(ctx, R, scripts):
    for S in {s.name: s for s in scripts}.values():
        if 'fst' not in S.name:
            continue
        # the tuple each arc is kept as
        rec = None
        for n in ast.walk(S.tree):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == 'append' and n.args and \
                    isinstance(n.args[0], ast.Tuple) and len(n.args[0].elts) >= 4:
                rec = (n.func.value.id if isinstance(n.func.value, ast.Name) else '', [last_name(x) for x in n.args[0].elts])
        if not ctx.check('states', S.name + '/arcs', rec is not None, 'tool/' + S.name, 'how the arcs are kept is unclear'):
            continue
        arcs, names = rec
        keyf, sline = None, None
        for n in ast.walk(S.tree):
            if isinstance(n, ast.Call) and (isinstance(n.func, ast.Attribute) and n.func.attr == 'sort' and
                                            isinstance(n.func.value, ast.Name) and n.func.value.id == arcs or
                                            isinstance(n.func, ast.Name) and n.func.id == 'sorted' and n.args and
                                            isinstance(n.args[0], ast.Name) and n.args[0].id == arcs):
                ks = [k.value for k in n.keywords if k.arg == 'key']
                rev = [k for k in n.keywords if k.arg == 'reverse' and not (isinstance(k.value, ast.Constant) and not k.value.value)]
                if rev:
                    continue
                sline = n.lineno
                if ks and isinstance(ks[0], ast.Lambda):
                    p = ks[0].args.args[0].arg
                    b = ks[0].body
                    keyf = [x.slice.value for x in (b.elts if isinstance(b, ast.Tuple) else [b]) if isinstance(x, ast.Subscript) and
                            isinstance(x.value, ast.Name) and x.value.id == p and isinstance(x.slice, ast.Constant)]
                elif ks and isinstance(ks[0], ast.Call) and 'itemgetter' in ast.unparse(ks[0].func):
                    keyf = [a.value for a in ks[0].args]
                elif not ks:
                    keyf = list(range(len(names)))
        got = [names[i] for i in keyf] if keyf and max(keyf) < len(names) else []
        ctx.check('states', S.name + '/sorted', len(got) >= 2 and got[0] == 'state' and got[1] in ('ilabel', 'input_label'),
                  'tool/%s:%d' % (S.name, sline or 1), 'the arcs are not sorted by state and input label, but by %s' % (got or 'nothing'))
        # the index of the first arc of each state, taken after sorting
        first = None
        for n in ast.walk(S.tree):
            if isinstance(n, ast.For) and isinstance(n.iter, ast.Call) and getattr(n.iter.func, 'id', '') == 'enumerate' and \
                    isinstance(n.iter.args[0], ast.Name) and n.iter.args[0].id == arcs and isinstance(n.target, ast.Tuple):
                ix = n.target.elts[0].id if isinstance(n.target.elts[0], ast.Name) else None
                for s in ast.walk(n):
                    if isinstance(s, ast.Assign) and isinstance(s.targets[0], ast.Subscript) and isinstance(s.value, ast.Name) and \
                            s.value.id == ix:
                        guarded = [i for i in ast.walk(n) if isinstance(i, ast.If) and any(x is s for x in i.body) and
                                   isinstance(i.test, ast.Compare) and (isinstance(i.test.ops[0], (ast.Eq, ast.Lt, ast.NotIn)) or
                                    isinstance(i.test.ops[0], ast.NotEq) and remembered(i))]
                        first = (s.lineno, bool(guarded) and (sline or 0) < s.lineno)
        ctx.check('states', S.name + '/index', first is not None and first[1], 'tool/%s:%d' % (S.name, first[0] if first else 1),
                  'a state does not point to its first arc')


def remembered(i):
    """the body sets one side of the comparison to the other"""
    a, b = ast.unparse(i.test.left), ast.unparse(i.test.comparators[0])
    return any(isinstance(s, ast.Assign) and {ast.unparse(s.targets[0]), ast.unparse(s.value)} == {a, b} for s in i.body)


def last_name(x):
    if isinstance(x, ast.Call) and x.args and isinstance(x.func, ast.Name):
        return last_name(x.args[0])
    if isinstance(x, ast.Attribute):
        return x.attr
    if isinstance(x, ast.Name):
        return x.id
    return ast.unparse(x)
