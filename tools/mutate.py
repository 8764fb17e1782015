"""Mutation run (by hand; no check uses it): python3 tools/mutate.py OUT.jsonl [file-substring] [--list]
Generates first-order mutants of /repo's sources, runs the checks mapped to the mutated function until one reports a violation;
for mutants no check reports, runs the test suite. Works on scratch copies of /repo's committed tree and of /verif."""
import ast, json, os, random, shutil, subprocess, sys, tempfile

REPO, PKG = '/repo', '/repo/oranssi'
MAP = {
    ('circuit_tools.py', None): ['C01', 'C02', 'C03', 'C06', 'C07'],
    ('circuit_tools.py', 'get_all_su_n_directions'): ['C06', 'C27'],
    ('circuit_tools.py', 'get_full_operator'): ['C01', 'C02'],
    ('circuit_tools.py', 'get_ops_from_qnode'): ['C02'],
    ('circuit_tools.py', 'get_hamiltonian_matrix'): ['C03', 'C21'],
    ('circuit_tools.py', 'circuit_state_from_unitary'): ['C03'],
    ('circuit_tools.py', 'circuit_observable_from_unitary'): ['C03'],
    ('circuit_tools.py', 'param_shift_comm'): ['C07', 'C08'],
    ('circuit_tools.py', 'get_commuting_set'): ['C25', 'C15'],
    ('edge_coloring.py', None): ['C33', 'C25', 'C15'],
    ('pauli.py', None): ['C22', 'C23', 'C24', 'C30', 'C32'],
    ('plot_utils.py', None): ['C26', 'C27', 'C31'],
    ('utils.py', None): ['C04', 'C28', 'C21'],
    ('opt_tools.py', None): ['C14', 'C11', 'C06'],
    ('opt_tools.py', 'LieLayer'): ['C11', 'C06', 'C20', 'C12'],
    ('opt_tools.py', 'LocalLieAlgebraLayer'): ['C12', 'C20', 'C11', 'C21', 'C30'],
    ('opt_tools.py', 'CustomDirectionLieAlgebraLayer'): ['C12', 'C20', 'C11', 'C21', 'C30'],
    ('opt_tools.py', 'StochasticLieAlgebraLayer'): ['C13', 'C20', 'C11', 'C30'],
    ('opt_tools.py', 'SquaredLieAlgebraLayer'): ['C14', 'C15', 'C20', 'C21', 'C11', 'C30'],
    ('opt_tools.py', 'AdaptVQELayer'): ['C16', 'C20', 'C11', 'C30'],
    ('opt_tools.py', 'SU8_AlgebraLayer'): ['C14', 'C20', 'C21', 'C11', 'C30'],
    ('opt_tools.py', 'ZassenhausLayer'): ['C17', 'C14', 'C20', 'C11', 'C30'],
    ('opt_tools.py', 'ZassenhausLayerV2'): ['C29', 'C11', 'C06', 'C20', 'C30'],
    ('opt_tools.py', 'AlgebraSU2'): ['C05', 'C13', 'C12', 'C30'],
    ('opt_tools.py', 'AlgebraSU4'): ['C05', 'C13', 'C12', 'C30'],
    ('opt_tools.py', 'AlgebraSU8'): ['C05', 'C14', 'C17', 'C30'],
    ('opt_tools.py', 'rotosolve'): ['C14', 'C17'],
    ('optimizers.py', 'parameter_shift_optimizer'): ['C19', 'C18', 'C10', 'C20', 'C09'],
    ('optimizers.py', 'exact_lie_optimizer'): ['C08', 'C18', 'C10', 'C20', 'C09'],
    ('optimizers.py', 'approximate_lie_optimizer'): ['C10', 'C18', 'C20', 'C06', 'C15', 'C17', 'C21', 'C16'],
}
CMP = {ast.Lt: [ast.LtE, ast.Gt], ast.LtE: [ast.Lt], ast.Gt: [ast.GtE, ast.Lt], ast.GtE: [ast.Gt], ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq], ast.In: [ast.NotIn], ast.NotIn: [ast.In], ast.Is: [ast.IsNot], ast.IsNot: [ast.Is]}
BIN = {ast.Add: [ast.Sub], ast.Sub: [ast.Add], ast.Mult: [ast.Div], ast.Div: [ast.Mult], ast.Pow: [ast.Mult], ast.FloorDiv: [ast.Mult], ast.Mod: [ast.Add]}


def mutants(src):
    tree = ast.parse(src)
    lines = src.splitlines(keepends=True)
    offs = [0]
    for l in lines:
        offs.append(offs[-1] + len(l.encode()))
    raw = src.encode()
    pos = lambda l, c: offs[l - 1] + c
    out = []

    def rep(node, text, what, scope):
        a, b = pos(node.lineno, node.col_offset), pos(node.end_lineno, node.end_col_offset)
        new = (raw[:a] + text.encode() + raw[b:]).decode()
        try:
            ast.parse(new)
        except SyntaxError:
            return
        out.append((scope, node.lineno, what + ': ' + raw[a:b].decode()[:70].replace('\n', ' ') + '  ->  ' + text[:70], new))

    def alt(node, **kw):
        n = ast.copy_location(type(node)(**{f: getattr(node, f, None) for f in node._fields}), node)
        for k, v in kw.items():
            setattr(n, k, v)
        return '(' + ast.unparse(ast.fix_missing_locations(n)) + ')'

    def expr(node, scope):
        if isinstance(node, ast.JoinedStr):
            return
        if isinstance(node, ast.Compare):
            for o in CMP.get(type(node.ops[0]), []):
                rep(node, alt(node, ops=[o()] + node.ops[1:]), 'cmp', scope)
        elif isinstance(node, ast.BinOp):
            for o in BIN.get(type(node.op), []):
                rep(node, alt(node, op=o()), 'arith', scope)
            if isinstance(node.op, (ast.MatMult, ast.Sub, ast.Div)):
                rep(node, alt(node, left=node.right, right=node.left), 'swap', scope)
            if isinstance(node.op, (ast.Add, ast.Sub, ast.Mult, ast.Div, ast.MatMult)):
                rep(node, '(' + ast.unparse(node.left) + ')', 'left only', scope)
        elif isinstance(node, ast.BoolOp):
            rep(node, alt(node, op=ast.Or() if isinstance(node.op, ast.And) else ast.And()), 'bool', scope)
            for v in node.values:
                rep(node, '(' + ast.unparse(v) + ')', 'bool operand', scope)
        elif isinstance(node, ast.UnaryOp) and isinstance(node.op, (ast.USub, ast.Not)):
            rep(node, '(' + ast.unparse(node.operand) + ')', 'unary', scope)
        elif isinstance(node, ast.Constant):
            v = node.value
            if isinstance(v, bool):
                rep(node, str(not v), 'const', scope)
            elif isinstance(v, int):
                rep(node, str(v + 1), 'const', scope)
                if v:
                    rep(node, str(v - 1), 'const', scope)
            elif isinstance(v, float):
                rep(node, repr(v * 2 if v else 1.0), 'const', scope)
                if v and v < 0.01:
                    rep(node, repr(v / 1000), 'const', scope)
            elif isinstance(v, complex):
                rep(node, '(-%r)' % v, 'const', scope)
        elif isinstance(node, ast.Call):
            f = node.func
            name = f.id if isinstance(f, ast.Name) else getattr(f, 'attr', '')
            if name in ('abs', 'sorted', 'copy', 'deepcopy', 'list', 'conj', 'float', 'array', 'set') and (node.args or isinstance(f, ast.Attribute)):
                if isinstance(f, ast.Attribute) and not node.args:
                    rep(node, ast.unparse(f.value), 'drop call', scope)
                elif len(node.args) == 1 and not node.keywords:
                    rep(node, '(' + ast.unparse(node.args[0]) + ')', 'drop call', scope)
            if name == 'max':
                rep(f, 'min', 'max/min', scope)
            for i, k in enumerate(node.keywords):
                if k.arg:
                    rep(node, alt(node, keywords=node.keywords[:i] + node.keywords[i + 1:]), 'drop kw', scope)
        elif isinstance(node, ast.Attribute) and node.attr in ('T', 'imag', 'real'):
            rep(node, ast.unparse(node.value) + ('' if node.attr == 'T' else '.real' if node.attr == 'imag' else '.imag'), 'attr', scope)
        elif isinstance(node, ast.IfExp):
            rep(node, '(' + ast.unparse(node.body) + ')', 'ifexp', scope)
            rep(node, '(' + ast.unparse(node.orelse) + ')', 'ifexp', scope)
        elif isinstance(node, ast.Tuple) and len(node.elts) == 2 and isinstance(node.ctx, ast.Load):
            rep(node, '(' + ast.unparse(node.elts[1]) + ', ' + ast.unparse(node.elts[0]) + ')', 'tuple swap', scope)
        for c in ast.iter_child_nodes(node):
            if isinstance(c, (ast.expr, ast.comprehension, ast.keyword)):
                expr(c, scope)
            elif isinstance(c, ast.arguments):
                for d in c.defaults:
                    expr(d, scope)

    def stmt(node, scope):
        if isinstance(node, ast.Expr):
            if isinstance(node.value, ast.Constant):
                return
            if isinstance(node.value, ast.Call) and getattr(node.value.func, 'id', '') == 'print':
                return
            rep(node, 'pass', 'delete', scope)
        elif isinstance(node, (ast.AugAssign, ast.Continue, ast.Break, ast.Raise, ast.Delete)):
            rep(node, 'pass', 'delete', scope)
        elif isinstance(node, ast.Assign) and not isinstance(node.targets[0], ast.Name):
            rep(node, 'pass', 'delete', scope)
        elif isinstance(node, ast.Assert):
            rep(node, 'pass', 'delete', scope)
            expr(node.test, scope)
            return
        elif isinstance(node, ast.If):
            rep(node.test, 'True', 'if', scope)
            rep(node.test, 'False', 'if', scope)
        elif isinstance(node, (ast.FunctionDef, ast.ClassDef)):
            if scope is None:
                scope = node.name
        if isinstance(node, ast.Raise):
            return
        for f, v in ast.iter_fields(node):
            for c in (v if isinstance(v, list) else [v]):
                if isinstance(c, ast.stmt):
                    stmt(c, scope)
                elif isinstance(c, (ast.expr, ast.keyword, ast.comprehension)) and f != 'decorator_list':
                    expr(c, scope)
                elif isinstance(c, ast.arguments):
                    for d in c.defaults:
                        expr(d, scope)
                elif isinstance(c, (ast.ExceptHandler,)):
                    for cc in c.body:
                        stmt(cc, scope)
    for n in tree.body:
        if not isinstance(n, (ast.Import, ast.ImportFrom)):
            stmt(n, None)
    return out


def suite(repo):
    env = dict(os.environ, MPLBACKEND='Agg', PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1')
    return subprocess.run(['timeout', '300', '/opt/venv/bin/python', '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider', 'oranssi/tests'], cwd=repo, env=env, capture_output=True, text=True).returncode


def main():
    out, sub = sys.argv[1], sys.argv[2] if len(sys.argv) > 2 and not sys.argv[2].startswith('--') else ''
    frac = float(os.environ.get('MUT_FRAC', '1'))
    tmp = tempfile.mkdtemp(prefix='mut-')
    ver = os.path.join(tmp, 'verif')
    subprocess.check_call('mkdir %s && cd /verif && git archive HEAD | tar -x -C %s --exclude=seeded' % (ver, ver), shell=True)
    os.makedirs(ver + '/evidence', exist_ok=True)
    repo = os.path.join(tmp, 'repo')
    subprocess.check_call('mkdir %s && cd /repo && git archive HEAD | tar -x -C %s' % (repo, repo), shell=True)
    done = set()
    if os.path.exists(out):
        done = {json.loads(l)['id'] for l in open(out)}
    r = random.Random(7)
    try:
        for f in sorted(os.listdir(PKG)):
            if not f.endswith('.py') or sub not in f:
                continue
            src = open(os.path.join(repo, 'oranssi', f)).read()
            ms = mutants(src)
            if '--list' in sys.argv:
                print(f, len(ms))
                continue
            for i, (scope, line, what, new) in enumerate(ms):
                if r.random() > frac:
                    continue
                mid = '%s:%d:%d' % (f, line, i)
                if mid in done:
                    continue
                p = os.path.join(repo, 'oranssi', f)
                open(p, 'w').write(new)
                checks = MAP.get((f, scope)) or MAP.get((f, None)) or []
                res, env = {}, dict(os.environ, VERIF_REPO=repo)
                caught = None
                tests = suite(repo) if '--testsfirst' in sys.argv else None       # only mutants the tests miss
                for c in (checks if not tests else []):
                    q = subprocess.run([ver + '/run.sh', c], env=env, capture_output=True, text=True)
                    res[c] = q.returncode
                    if q.returncode == 1:
                        caught = c
                        break
                rec = {'id': mid, 'scope': scope, 'what': what, 'caught': caught, 'res': res}
                if caught is None and tests is None:
                    tests = suite(repo)
                if tests is not None:
                    rec['tests'] = tests
                with open(out, 'a') as fo:
                    fo.write(json.dumps(rec) + '\n')
                open(p, 'w').write(src)
    finally:
        shutil.rmtree(tmp)


if __name__ == '__main__':
    main()
