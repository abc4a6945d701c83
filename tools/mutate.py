#!/usr/bin/env python3
"""Mutation testing of the checks (development tool, no check uses it).

usage: mutate.py FILE(regex) CHECKS(comma list) OUT.jsonl [max] [seed] [function regex]

Each mutant lives in a private mount namespace: a copy of /repo bound over /repo,
a copy of /verif over /verif; nothing outside is changed.
"""
import ast, json, os, random, re, shutil, subprocess, sys
import warnings; warnings.simplefilter('ignore')

ROOT = '/tmp/mutate.%d' % os.getpid()
SRC = 'src/sympkf'
CMP = {ast.Lt: '<=', ast.LtE: '<', ast.Gt: '>=', ast.GtE: '>', ast.Eq: '!=', ast.NotEq: '==',
       ast.In: 'not in', ast.NotIn: 'in', ast.Is: 'is not', ast.IsNot: 'is'}
BIN = {ast.Add: '-', ast.Sub: '+', ast.Mult: '+', ast.Div: '*', ast.FloorDiv: '/', ast.Mod: '+', ast.Pow: '*'}


def offsets(text):
    o, n = [0], 0
    for l in text.split('\n'):
        n += len(l.encode()) + 1
        o.append(n)
    return o


class Gen(ast.NodeVisitor):
    def __init__(self, text):
        self.text, self.b = text, text.encode()
        self.o = offsets(text)
        self.out, self.stack = [], []

    def span(self, n):
        return self.o[n.lineno - 1] + n.col_offset, self.o[n.end_lineno - 1] + n.end_col_offset

    def seg(self, n):
        a, b = self.span(n)
        return self.b[a:b].decode()

    def add(self, node, new, kind):
        a, b = self.span(node)
        self.out.append((a, b, new, kind, '.'.join(self.stack), node.lineno))

    def visit_FunctionDef(self, n):
        self.stack.append(n.name); self.generic_visit(n); self.stack.pop()

    visit_ClassDef = visit_FunctionDef

    def visit_Compare(self, n):
        if len(n.ops) == 1:
            self.add(n, '(%s %s %s)' % (self.seg(n.left), CMP[type(n.ops[0])], self.seg(n.comparators[0])), 'cmp')
        self.generic_visit(n)

    def visit_BinOp(self, n):
        if type(n.op) in BIN and not (isinstance(n.op, ast.Mod) and isinstance(n.left, ast.Constant)):
            if not any(isinstance(x, (ast.JoinedStr,)) or isinstance(x, ast.Constant) and isinstance(x.value, str)
                       for x in (n.left, n.right)):
                self.add(n, '(%s %s %s)' % (self.seg(n.left), BIN[type(n.op)], self.seg(n.right)), 'bin')
        self.generic_visit(n)

    def visit_BoolOp(self, n):
        op = ' or ' if isinstance(n.op, ast.And) else ' and '
        self.add(n, '(' + op.join('(%s)' % self.seg(v) for v in n.values) + ')', 'bool')
        for v in n.values:
            self.add(n, '(' + self.seg(v) + ')', 'drop-bool')
        self.generic_visit(n)

    def visit_UnaryOp(self, n):
        if isinstance(n.op, (ast.Not, ast.USub)):
            self.add(n, '(%s)' % self.seg(n.operand), 'unary')
        self.generic_visit(n)

    def visit_If(self, n):
        self.add(n.test, '(not (%s))' % self.seg(n.test), 'ifnot')
        self.add(n.test, 'True', 'iftrue')
        self.add(n.test, 'False', 'iffalse')
        self.generic_visit(n)

    def visit_IfExp(self, n):
        self.add(n, '(%s)' % self.seg(n.body), 'ifexp')
        self.add(n, '(%s)' % self.seg(n.orelse), 'ifexp')
        self.generic_visit(n)

    def visit_Constant(self, n):
        if isinstance(n.value, bool):
            self.add(n, str(not n.value), 'const')
        elif isinstance(n.value, int):
            self.add(n, str(n.value + 1), 'const')
            if n.value:
                self.add(n, str(n.value - 1), 'const')
        elif isinstance(n.value, float):
            self.add(n, str(n.value * 2 + 1), 'const')

    def visit_Expr(self, n):
        if isinstance(n.value, ast.Constant):
            return                                   # docstring
        self.add(n, 'pass', 'drop')
        self.generic_visit(n)

    def visit_AugAssign(self, n):
        self.add(n, '%s = %s' % (self.seg(n.target), self.seg(n.value)), 'aug')
        self.add(n, 'pass', 'drop')
        self.generic_visit(n)

    def visit_Assign(self, n):
        if len(n.targets) == 1 and isinstance(n.targets[0], (ast.Subscript, ast.Attribute)):
            self.add(n, 'pass', 'drop')
        self.generic_visit(n)

    def visit_For(self, n):
        self.add(n.iter, 'list(%s)[1:]' % self.seg(n.iter), 'iter')
        self.add(n.iter, 'list(%s)[:-1]' % self.seg(n.iter), 'iter')
        self.add(n.iter, 'list(%s)[::-1]' % self.seg(n.iter), 'iter')
        self.generic_visit(n)

    def visit_comprehension(self, n):
        self.add(n.iter, 'list(%s)[1:]' % self.seg(n.iter), 'comp')
        self.add(n.iter, 'list(%s)[::-1]' % self.seg(n.iter), 'comp')
        for i in n.ifs:
            self.add(i, 'True', 'compif')
        self.generic_visit(n)

    def visit_Break(self, n):
        self.add(n, 'continue', 'break')

    def visit_Continue(self, n):
        self.add(n, 'pass', 'continue')

    def visit_Return(self, n):
        if n.value is not None and isinstance(n.value, ast.Name):
            self.add(n.value, 'None', 'return')
        self.generic_visit(n)

    def visit_Call(self, n):
        if len(n.args) >= 2 and not any(isinstance(a, ast.Starred) for a in n.args):
            a, b = n.args[:2]
            s, e = self.span(a)[0], self.span(b)[1]
            self.out.append((s, e, '%s, %s' % (self.seg(b), self.seg(a)), 'swap', '.'.join(self.stack), n.lineno))
        for k in n.keywords:
            if k.arg:
                pass
        self.generic_visit(n)

    def visit_Subscript(self, n):
        if isinstance(n.slice, ast.Slice):
            for part in (n.slice.lower, n.slice.upper):
                if part is not None:
                    self.add(n, '%s[:]' % self.seg(n.value), 'slice')
        self.generic_visit(n)


def mutants(path):
    text = open(path).read()
    if 'templates' in path and 'body' not in path:
        g = None
    t = ast.parse(text)
    g = Gen(text)
    g.visit(t)
    b = text.encode()
    out = []
    for a, e, new, kind, fn, line in g.out:
        m = (b[:a] + new.encode() + b[e:]).decode()
        try:
            ast.parse(m)
        except SyntaxError:
            continue
        out.append((m, kind, fn, line, b[a:e].decode(), new))
    if 'templates' in path:
        out += text_mutants(text)
    return out


def text_mutants(text):
    """templates are string literals: line and token edits of their text"""
    L = text.split('\n')
    out = []
    for i, l in enumerate(L):
        if not l.strip() or l.strip().startswith('#') or '"""' in l:
            continue
        new = [('drop', '')]
        if i + 1 < len(L):
            new.append(('swap', L[i + 1]))
        for a, b in ((r'\b0\b', '1'), (r'\b1\b', '0'), (r'\b1\b', '2'), (r' \+ ', ' - '), (r' - ', ' + '),
                     (r' ==? ', ' != '), (r'\bin\b', 'not in'), (r'\.prognostic', '.constant'),
                     (r'state\b', 'self'), (r'\bif\b', 'if not'), (r'True', 'False'), (r'False', 'True'),
                     (r'-%', '%'), (r'\bx\b', 'y'), (r'\[\w+\]', '[0]')):
            for m in re.finditer(a, l):
                new.append(('tok', l[:m.start()] + b + l[m.end():]))
        for k, n in new:
            M = list(L)
            M[i] = n
            if k == 'swap':
                M[i + 1] = l
            m = '\n'.join(M)
            try:
                ast.parse(m)
            except SyntaxError:
                continue
            if m != text:
                out.append((m, 'text-' + k, '', i + 1, l, n))
    return out


def sh(cmd, timeout):
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, start_new_session=True)
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        p.communicate()
        return 99, 'timeout'


def ns(cmd, timeout):
    pre = 'mount --bind %s/repo /repo && mount --bind %s/verif /verif && ' % (ROOT, ROOT)
    return sh(['unshare', '-Urm', 'bash', '-c', pre + cmd], timeout)


def main():
    pat, checks, outp = sys.argv[1:4]
    n = int(sys.argv[4]) if len(sys.argv) > 4 else 30
    rng = random.Random(int(sys.argv[5]) if len(sys.argv) > 5 else 0)
    fpat = sys.argv[6] if len(sys.argv) > 6 else ''
    checks = checks.split(',')
    os.makedirs(ROOT)
    subprocess.run(['cp', '-a', '/repo', ROOT + '/repo'], check=True)
    subprocess.run(['cp', '-a', '/verif', ROOT + '/verif'], check=True)
    base = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
    todo = []
    for d, _, fs in os.walk(ROOT + '/repo/' + SRC):
        for f in fs:
            p = os.path.join(d, f)
            if f.endswith('.py') and '/test' not in p and re.search(pat, p):
                todo += [(p, m) for m in mutants(p) if re.search(fpat, m[2])]
    rng.shuffle(todo)
    print(len(todo), 'mutants, running', min(n, len(todo)), flush=True)
    out = open(outp, 'a')
    stats = {}
    for p, (text, kind, fn, line, old, new) in todo[:n]:
        orig = open(p).read()
        rec = dict(file=p.split(SRC + '/')[1], line=line, fn=fn, kind=kind, old=old[:300], new=new[:300])
        try:
            open(p, 'w').write(text)
            rc, log = ns('bash /opt/vp/test.sh %s/t.json' % ROOT, 120)
            try:
                ok = base <= set(json.load(open(ROOT + '/t.json'))['passed'])
            except Exception:
                ok = False
            if os.path.exists(ROOT + '/t.json'):
                os.unlink(ROOT + '/t.json')
            if not ok:
                rec['result'] = 'tests'
            else:
                rec['result'] = 'SURVIVED'
                rec['rcs'] = {}
                for c in checks:
                    rc, log = ns('cd /verif && VERIF_FAILFAST=1 ./check %s quick' % c, 900)
                    rec['rcs'][c] = rc
                    if rc == 1:
                        rec['result'] = 'caught'
                        rec['by'] = c
                        break
                    if rc:
                        rec['result'] = 'ERROR'
                        rec.setdefault('log', {})[c] = log[-700:]
        finally:
            open(p, 'w').write(orig)
        stats[rec['result']] = stats.get(rec['result'], 0) + 1
        out.write(json.dumps(rec) + '\n')
        out.flush()
        if rec['result'] in ('SURVIVED', 'ERROR'):
            print(rec['result'], rec['file'], line, fn, kind, '|', old[:100].replace('\n', ' '), '->', new[:100].replace('\n', ' '), rec.get('rcs'), flush=True)
    print(stats, flush=True)
    shutil.rmtree(ROOT)


if __name__ == '__main__':
    main()
