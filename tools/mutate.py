#!/usr/bin/env python3
"""Systematic small changes of the source: which of them pass the tests and every check?

usage: python3-vt mutate.py OUT.jsonl [-f FILE ...] [-s STEP] [-o OFFSET]
Each mutant is tried in a scratch copy: first the check of the index's definition, then (if quiet) the others.
A line per mutant is appended to OUT; 'survived' ones are then judged by hand (equivalent, or a hole)."""
import ast, copy, json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEF = {'CH': 'C02', 'WB': 'C02', 'XB': 'C02', 'DB': 'C03', 'GD43': 'C03', 'GD53': 'C03', 'cSIL': 'C04', 'PS': 'C04', 'rCIP': 'C05', '_base': 'C01', 'v0': 'C17'}
SWAP = {ast.Add: [ast.Sub], ast.Sub: [ast.Add], ast.Mult: [ast.Div], ast.Div: [ast.Mult], ast.Pow: [ast.Mult],
        ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq], ast.Lt: [ast.LtE, ast.Gt], ast.Gt: [ast.GtE, ast.Lt], ast.LtE: [ast.Lt], ast.GtE: [ast.Gt],
        ast.And: [ast.Or], ast.Or: [ast.And], ast.MatMult: []}
NAMES = {'min': 'max', 'max': 'min', 'zeros': 'ones', 'sum': 'max', 'mean': 'median', 'sqrt': 'abs', 'exp': 'expm1', 'minimum': 'maximum', 'maximum': 'minimum',
         'amin': 'amax', 'amax': 'amin', 'argmin': 'argmax', 'copy': None, 'asarray': 'array', 'i_label': '0'}


def mutants(src):
    tree = ast.parse(src)
    nodes = list(ast.walk(tree))
    docs = {id(n.body[0]) for n in nodes if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and n.body and isinstance(n.body[0], ast.Expr)
            and isinstance(n.body[0].value, ast.Constant)}

    def make(i, f):
        t = copy.deepcopy(tree)
        n = list(ast.walk(t))[i]
        if f(n, t) is False:
            return None
        return ast.unparse(ast.fix_missing_locations(t))

    def delete(n, t):
        for p in ast.walk(t):
            for fld in ('body', 'orelse'):
                b = getattr(p, fld, None)
                if isinstance(b, list) and n in b:
                    b[b.index(n)] = ast.copy_location(ast.Pass(), n)
                    return
        return False
    for i, n in enumerate(nodes):
        line = getattr(n, 'lineno', 0)
        if isinstance(n, (ast.BinOp, ast.AugAssign)):
            for o in SWAP.get(type(n.op), []):
                yield line, f'{type(n.op).__name__}->{o.__name__}', make(i, lambda n, t: setattr(n, 'op', o()))
        if isinstance(n, ast.AugAssign):
            def plain(n, t):
                for p in ast.walk(t):
                    for fld in ('body', 'orelse'):
                        b = getattr(p, fld, None)
                        if isinstance(b, list) and n in b:
                            b[b.index(n)] = ast.copy_location(ast.Assign([n.target], n.value), n)
            yield line, 'aug->plain', make(i, plain)
        if isinstance(n, ast.BoolOp):
            for o in SWAP[type(n.op)]:
                yield line, 'boolop', make(i, lambda n, t: setattr(n, 'op', o()))
        if isinstance(n, ast.Compare):
            for o in SWAP.get(type(n.ops[0]), []):
                yield line, f'{type(n.ops[0]).__name__}->{o.__name__}', make(i, lambda n, t: setattr(n, 'ops', [o()]))
        if isinstance(n, ast.Constant) and type(n.value) in (int, float) and line:
            for dv in (1, -1):
                yield line, f'{n.value}->{n.value + dv}', make(i, lambda n, t: setattr(n, 'value', n.value + dv))
        if isinstance(n, ast.Constant) and type(n.value) is bool:
            yield line, 'bool', make(i, lambda n, t: setattr(n, 'value', not n.value))
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub):
            yield line, 'neg', make(i, lambda n, t: setattr(n, 'op', ast.UAdd()))
        if isinstance(n, ast.Attribute) and n.attr in NAMES and NAMES[n.attr] and NAMES[n.attr] != '0':
            yield line, f'{n.attr}->{NAMES[n.attr]}', make(i, lambda n, t: setattr(n, 'attr', NAMES[n.attr]))
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id in ('i_label', 'ix', 'jx', 'i', 'j'):
            other = {'ix': 'jx', 'jx': 'ix', 'i': 'j', 'j': 'i', 'i_label': '0'}[n.id]
            yield line, f'{n.id}->{other}', make(i, lambda n, t: setattr(n, 'id', other))
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == 'copy' and not n.args:
            def uncopy(n, t):
                for p in ast.walk(t):
                    for fld, v in ast.iter_fields(p):
                        if v is n:
                            setattr(p, fld, n.func.value)
            yield line, 'no copy', make(i, uncopy)
        if isinstance(n, (ast.Assign, ast.AugAssign, ast.Expr, ast.If, ast.For)) and id(n) not in docs:
            yield line, 'delete', make(i, delete)
        if isinstance(n, ast.If):
            yield line, 'if True', make(i, lambda n, t: setattr(n, 'test', ast.Constant(True)))
            yield line, 'if False', make(i, lambda n, t: setattr(n, 'test', ast.Constant(False)))
        if isinstance(n, ast.Call):
            for kw in n.keywords:
                if kw.arg == 'axis':
                    yield line, 'no axis', make(i, lambda n, t: setattr(n, 'keywords', [k for k in n.keywords if k.arg != 'axis']))
        if isinstance(n, (ast.Tuple,)) and isinstance(n.ctx, ast.Load) and len(n.elts) == 2:
            yield line, 'swap', make(i, lambda n, t: setattr(n, 'elts', n.elts[::-1]))
        if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load) and n.attr.startswith('_') and isinstance(n.value, ast.Name) and n.value.id == 'self':
            pass


def main():
    args = sys.argv[1:]
    out = args[0]

    def opt(k, default, cast=int):
        return cast(args[args.index(k) + 1]) if k in args else default
    files = args[args.index('-f') + 1].split(',') if '-f' in args else [k for k in DEF if k != 'v0']
    step, off = opt('-s', 1), opt('-o', 0)
    done = set()
    if os.path.exists(out):
        done = {(r['file'], r['k']) for r in map(json.loads, open(out))}
    tmp = tempfile.mkdtemp(prefix='mut', dir='/tmp')
    r = os.path.join(tmp, 'repo')
    shutil.copytree('/repo', r, symlinks=True)
    allprops = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
    try:
        for f in files:
            p = os.path.join(r, 'src/cvi', 'compat/v0.py' if f == 'v0' else f'modules/{f}.py')
            src = open(p).read()
            base = ast.unparse(ast.parse(src))
            seen = {base}
            for k, (line, what, new) in enumerate(mutants(src)):
                if k % step != off or (f, k) in done or new is None or new in seen:
                    continue
                seen.add(new)
                open(p, 'w').write(new)
                rec = dict(file=f, k=k, line=line, what=what, src=src.splitlines()[line - 1].strip())
                first = DEF[f]
                # a value that follows the definition is not touched by C08, C09, C10
                order = [first, 'C01', 'C16', 'C13', 'C15', 'C11', 'C12', 'C07', 'C14']
                if f == 'v0':
                    order = [x for x in allprops if x >= 'C17']
                killed = None
                errs = []
                for q in order:
                    c = subprocess.run(['python3', os.path.join(V, 'check.py'), q, 'quick'] + ([] if f in ('_base', 'v0') else ['-i', f]), env=dict(os.environ, CVI_REPO=r), capture_output=True, text=True)
                    if c.returncode == 1:
                        killed = q
                        break
                    if c.returncode != 0:
                        errs.append((q, c.returncode, (c.stdout + c.stderr)[-200:]))
                rec.update(killed=killed, errs=errs)
                if killed is None:
                    t = os.path.join(tmp, 't.json')
                    c = subprocess.run(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider', 'tests'], cwd=r,
                                       env=dict(os.environ, PYTHONPATH=os.path.join(r, 'src'), PYTHONDONTWRITEBYTECODE='1'), capture_output=True, text=True)
                    rec['tests'] = c.returncode
                with open(out, 'a') as h:
                    h.write(json.dumps(rec) + '\n')
                open(p, 'w').write(src)
            open(p, 'w').write(src)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


if __name__ == '__main__':
    main()
