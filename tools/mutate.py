"""
Mutation campaign: find changes of rf which no check notices

mutate.py list [FILE...]          print number of mutants per file
mutate.py run OUT FILE[:A-B]...   run checks (quick) against all mutants
mutate.py second IN OUT FILE...   run remaining checks against survivors of IN

Mutants are single edits of the syntax tree (comparison, arithmetic and
boolean operators, constants, conditions, deleted statements and keyword
arguments). Survivors are looked at by hand: they are either equivalent, not
part of any property, or show a hole in the alphabet of a check.
Works on copies below /tmp, /repo and /verif are not touched.
"""
import ast
import json
import multiprocessing
import os
import shutil
import subprocess
import sys
import warnings

REPO = '/repo'
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
# cheap and specific checks, survivors are run against the second list
CHECKS = {
    'deconvolve.py': ['C08', 'C07'],
    'simple_model.py': ['C11', 'C09'],
    'rfstream.py': ['C15', 'C13', 'C12', 'C05', 'C20', 'C25', 'C01', 'C04'],
    'util.py': ['C03', 'C14', 'C19'],
    'profile.py': ['C16'],
    'harmonics.py': ['C17'],
    'imaging.py': ['C24'],
    'batch.py': ['C22', 'C21', 'C23']}
# checks for the functions
FUNCS = {
    'rfstream.py': {
        '': ['C12', 'C25', 'C01'], 'read_rf': ['C25', 'C01'],
        '__init__': ['C25', 'C01'], '__is_set': ['C01'],
        '__get_unique_header': ['C25'], 'type': ['C25'], 'method': ['C25'],
        'write': ['C02', 'C01'], 'trim2': ['C20'], 'slice2': ['C20'],
        '_seconds2utc': ['C20'], 'deconvolve': ['C08'],
        'rf': ['C05', 'C04', 'C06', 'C19'], 'moveout': ['C10', 'C19', 'C09'],
        'ppoints': ['C11', 'C10'], 'stack': ['C15', 'C19', 'C18'],
        'harmonics': ['C17'], 'profile': ['C16'], '__str__': ['C25'],
        '_read_format_specific_header': ['C01', 'C02'],
        '_write_format_specific_header': ['C02', 'C01'],
        'obj2stats': ['C12', 'C13'], 'rfstats': ['C12', 'C13', 'C11']},
    'simple_model.py': {
        'load_model': ['C10'], 'ppoint': ['C11'], 'ppoint_distance': ['C11']},
    'util.py': {
        '_get_stations': ['C14'], 'iter_event_data': ['C14'],
        'iter_event_metadata': ['C14', 'C21'], '__init__': ['C03'],
        '__len__': ['C03'], '__iter__': ['C03'],
        'direct_geodetic': ['C11', 'C16'], 'minimal_example_rf': ['C18'],
        'minimal_example_Srf': ['C18'], '_add_processing_info': ['C19'],
        '': ['C03', 'C14']},
    'deconvolve.py': {
        'deconvolve': ['C08'], '__find_nearest': ['C08']},
    'batch.py': {
        'write': ['C21'], 'load_func': ['C23'], 'init_data': ['C23'],
        'decode': ['C22'], 'run': ['C22'], '_create_dir': ['C21'],
        'run_cli': ['C22']}}
SECOND = {
    'deconvolve.py': ['C05', 'C06', 'C04', 'C19'],
    'simple_model.py': ['C10', 'C24'],
    'rfstream.py': ['C02', 'C19', 'C08', 'C11', 'C09', 'C10', 'C14', 'C18'],
    'util.py': ['C18', 'C16'],
    'profile.py': ['C19', 'C18'],
    'harmonics.py': ['C19', 'C18'],
    'imaging.py': ['C18', 'C10'],
    'batch.py': []}
SEC = len(sys.argv) > 1 and sys.argv[1] == 'second'
CMP = {ast.Lt: '<=', ast.LtE: '<', ast.Gt: '>=', ast.GtE: '>', ast.Eq: '!=',
       ast.NotEq: '==', ast.In: 'not in', ast.NotIn: 'in', ast.Is: 'is not',
       ast.IsNot: 'is'}
CMP2 = {ast.Lt: '>', ast.LtE: '>', ast.Gt: '<', ast.GtE: '<'}
BIN = {ast.Add: '-', ast.Sub: '+', ast.Mult: '/', ast.Div: '*',
       ast.FloorDiv: '/', ast.Mod: '*', ast.Pow: '*', ast.BitAnd: '|'}


def mutants(src):
    """Yield (line, description, new source)"""
    tree = ast.parse(src)
    lines = src.splitlines(keepends=True)
    off = [0]
    for ln in lines:
        off.append(off[-1] + len(ln))

    def pos(node):
        # ast columns count bytes, sources are ascii but for a few comments
        a = lines[node.lineno - 1].encode()[:node.col_offset].decode()
        b = lines[node.end_lineno - 1].encode()[:node.end_col_offset].decode()
        return (off[node.lineno - 1] + len(a),
                off[node.end_lineno - 1] + len(b))

    def text(node):
        a, b = pos(node)
        return src[a:b]

    def repl(node, new):
        a, b = pos(node)
        return src[:a] + new + src[b:]
    doc = set()
    for node in ast.walk(tree):
        if (isinstance(node, ast.Expr) and
                isinstance(node.value, ast.Constant) and
                isinstance(node.value.value, str)):
            doc.add(node.value)
    for node in ast.walk(tree):
        if isinstance(node, ast.Compare):
            for i, op in enumerate(node.ops):
                left = node.left if i == 0 else node.comparators[i - 1]
                a, b = pos(left)[1], pos(node.comparators[i])[0]
                for tab in (CMP, CMP2):
                    if type(op) in tab:
                        mid = src[a:b]
                        pre = mid[:mid.index(mid.strip()[0])] or ' '
                        # keep brackets
                        tail = ''.join(x for x in mid if x in '()\\\n')
                        if tail.strip('\n'):
                            continue
                        yield (node.lineno, 'cmp %s' % tab[type(op)],
                               src[:a] + ' ' + tab[type(op)] + ' ' + src[b:])
        elif isinstance(node, ast.BinOp) and type(node.op) in BIN:
            if isinstance(node.left, ast.Constant) and isinstance(
                    node.left.value, str):
                continue
            a, b = pos(node.left)[1], pos(node.right)[0]
            mid = src[a:b]
            if any(x in mid for x in '()\\\n'):
                core = mid.strip('() \\\n')
                yield (node.lineno, 'bin', src[:a] + mid.replace(
                    core, BIN[type(node.op)]) + src[b:])
            else:
                yield (node.lineno, 'bin %s' % BIN[type(node.op)],
                       src[:a] + ' ' + BIN[type(node.op)] + ' ' + src[b:])
        elif isinstance(node, ast.BoolOp):
            vals = node.values
            for i in range(len(vals)):
                rest = [text(v) for j, v in enumerate(vals) if j != i]
                op = ' and ' if isinstance(node.op, ast.And) else ' or '
                yield (node.lineno, 'drop operand %d' % i,
                       repl(node, '(' + op.join('(%s)' % r for r in rest)
                            + ')'))
        elif isinstance(node, ast.UnaryOp):
            yield (node.lineno, 'drop unary', repl(node,
                                                   text(node.operand)))
        elif isinstance(node, ast.Constant) and node not in doc:
            v = node.value
            if isinstance(v, bool):
                yield node.lineno, 'bool', repl(node, str(not v))
            elif isinstance(v, (int, float)):
                yield node.lineno, 'const+1', repl(node, repr(v + 1))
                if v not in (0, 1):
                    yield node.lineno, 'const-1', repl(node, repr(v - 1))
                if v == 1:
                    yield node.lineno, 'const 0', repl(node, '0')
            elif isinstance(v, str) and 0 < len(v) < 25 and ' ' not in v:
                a = pos(node)
                if src[a[0]] in '"\'':
                    yield node.lineno, 'str', repl(node, repr(v + 'x'))
                    if len(v) == 1:
                        yield node.lineno, 'str', repl(node, "''")
            elif v is None:
                pass
        elif isinstance(node, (ast.If, ast.While, ast.IfExp)):
            t = node.test
            if isinstance(node, ast.While):
                yield t.lineno, 'while False', repl(t, 'False')
            else:
                yield t.lineno, 'if True', repl(t, '(True or 0)')
                yield t.lineno, 'if False', repl(t, '(False and 0)')
        elif isinstance(node, ast.Call):
            for kw in node.keywords:
                a, b = pos(kw)
                e = b
                while src[e] in ' \n':
                    e += 1
                if src[e] == ',':
                    yield (kw.value.lineno, 'drop kw %s' % kw.arg,
                           src[:a] + src[e + 1:])
                else:
                    s = a
                    while src[s - 1] in ' \n':
                        s -= 1
                    if src[s - 1] == ',':
                        s -= 1
                    yield (kw.value.lineno, 'drop kw %s' % kw.arg,
                           src[:s] + src[b:])
        elif isinstance(node, ast.ListComp):
            for gen in node.generators:
                for i in gen.ifs:
                    yield i.lineno, 'comp if True', repl(i, 'True')
        elif isinstance(node, ast.Subscript) and isinstance(
                node.slice, ast.Slice):
            for part in ('lower', 'upper', 'step'):
                x = getattr(node.slice, part)
                if x is not None:
                    yield x.lineno, 'slice ' + part, repl(
                        x, '' if part != 'step' else '1')
        if isinstance(node, (ast.Expr, ast.Assign, ast.AugAssign, ast.Delete,
                             ast.Raise, ast.Return, ast.Continue, ast.Break)):
            if isinstance(node, ast.Expr) and node.value in doc:
                continue
            if isinstance(node, ast.Return):
                if node.value is not None:
                    yield node.lineno, 'return None', repl(node,
                                                           'return None')
            elif node.col_offset > 0:
                yield node.lineno, 'del stmt', repl(node, 'pass')


def collect(args):
    out = []
    for arg in args:
        fname, _, rng = arg.partition(':')
        a, b = ([int(x) for x in rng.split('-')] if rng else (1, 10 ** 6))
        with open(os.path.join(REPO, 'rf', fname)) as f:
            src = f.read()
        seen = {src}
        ms = []
        for line, what, new in mutants(src):
            if not a <= line <= b or new in seen:
                continue
            seen.add(new)
            try:
                compile(new, fname, 'exec')
            except SyntaxError:
                continue
            ms.append((fname, line, what, new))
        ms.sort(key=lambda m: m[1])
        out.extend(ms)
    return out


def checks_for(fname, line):
    if SEC:
        return SECOND[fname]
    with open(os.path.join(REPO, 'rf', fname)) as f:
        tree = ast.parse(f.read())
    best = ''
    for node in ast.walk(tree):     # breadth first, inner functions last
        if isinstance(node, ast.FunctionDef):
            if node.lineno <= line <= node.end_lineno and (
                    best == '' or best not in FUNCS.get(fname, {}) or
                    node.name in FUNCS.get(fname, {})):
                best = node.name
    return FUNCS.get(fname, {}).get(best, CHECKS[fname])


def diff(fname, new):
    with open(os.path.join(REPO, 'rf', fname)) as f:
        old = f.read().splitlines()
    new = new.splitlines()
    i = 0
    while i < min(len(old), len(new)) and old[i] == new[i]:
        i += 1
    return '%s  =>  %s' % (old[i].strip() if i < len(old) else '',
                           new[i].strip() if i < len(new) else '')


def one(job):
    n, (fname, line, what, new), base = job
    w = multiprocessing.current_process()._identity[0]
    wt = os.path.join(base, 'wt%d' % w)
    if not os.path.exists(wt):
        shutil.copytree(os.path.join(REPO), wt,
                        ignore=shutil.ignore_patterns('.git', '__pycache__'))
        shutil.copytree(os.path.join(base, 'verif'),
                        os.path.join(base, 'v%d' % w))
    path = os.path.join(wt, 'rf', fname)
    with open(path, 'w') as f:
        f.write(new)
    env = dict(os.environ, RF_REPO=wt, MC_JOBS='1', MC_MAXVIOL='1',
               PYTHONDONTWRITEBYTECODE='1', OMP_NUM_THREADS='1')
    killed = None
    try:
        for prop in checks_for(fname, line):
            p = subprocess.Popen(['bin/check', prop, 'quick'],
                                 cwd=os.path.join(base, 'v%d' % w), env=env,
                                 stdout=subprocess.DEVNULL,
                                 stderr=subprocess.DEVNULL,
                                 start_new_session=True)
            try:
                rc = p.wait(600)
            except subprocess.TimeoutExpired:
                os.killpg(p.pid, 9)
                p.wait()
                rc = 'timeout'
            if rc != 0:
                killed = '%s %s' % (prop, rc)
                break
    finally:
        shutil.copy(os.path.join(REPO, 'rf', fname), path)
        subprocess.call('rm -rf %s/v%d/out' % (base, w), shell=True)
    return n, killed


def main(argv):
    warnings.simplefilter('ignore')
    if argv[0] == 'list':
        for f in argv[1:] or sorted(CHECKS):
            print(f, len(collect([f])))
        return
    keep = None
    if argv[0] == 'second':
        with open(argv.pop(1)) as f:
            keep = {tuple(json.loads(x)[:4]) for x in f
                    if json.loads(x)[4] is None}
    out = argv[1]
    ms = collect(argv[2:])
    if keep is not None:
        ms = [m for m in ms
              if (m[0], m[1], m[2], diff(m[0], m[3])) in keep]
    base = '/tmp/mutate_%d' % os.getpid()
    os.makedirs(base)
    shutil.copytree(VERIF, os.path.join(base, 'verif'),
                    ignore=shutil.ignore_patterns('.git', 'seeded', 'out',
                                                  'evidence', '__pycache__'))
    done = set()
    if os.path.exists(out):
        with open(out) as f:
            done = {tuple(json.loads(x)[:4]) for x in f}
    jobs = [(i, m, base) for i, m in enumerate(ms)
            if (m[0], m[1], m[2], diff(m[0], m[3])) not in done]
    nproc = int(os.environ.get('MC_PAR', 8))
    nk = 0
    with multiprocessing.Pool(nproc) as pool, open(out, 'a') as f:
        for k, (n, killed) in enumerate(pool.imap_unordered(one, jobs)):
            m = ms[n]
            nk += killed is not None
            f.write(json.dumps([m[0], m[1], m[2], diff(m[0], m[3]), killed])
                    + '\n')
            f.flush()
    subprocess.call(['rm', '-rf', base])
    print('%d mutants, %d killed' % (len(jobs), nk))


if __name__ == '__main__':
    main(sys.argv[1:])
