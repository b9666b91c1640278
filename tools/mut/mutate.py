#!/usr/bin/env python3
"""Mutation campaign: small random changes of hyvr in a scratch copy, and the checks that notice them.

mutate.py list FILE...            number of mutants per file
mutate.py run OUT.jsonl N SEED    N random mutants, appended to OUT.jsonl
"""
import ast, json, os, random, shutil, subprocess, sys, time

V = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
WT = '/tmp/mutwt'
FS = ['C18', 'C05', 'C01', 'C02', 'C04', 'C08', 'C09', 'C03', 'C19', 'C07', 'C11', 'C06', 'C10', 'C12', 'C13']
GEO = ['C14', 'C24', 'C13', 'C15', 'C16', 'C25', 'C22', 'C17', 'C12', 'C06']
FILES = {
    'hyvr/input/parameters.py': FS, 'hyvr/sim.py': FS + ['C17', 'C16'], 'hyvr/postprocess/output.py': ['C06', 'C10', 'C05', 'C18', 'C17', 'C07'],
    'hyvr/__main__.py': ['C18', 'C01', 'C05'], 'hyvr/assign_points.py': GEO, 'hyvr/geo/model.py': GEO, 'hyvr/geo/stratum.py': GEO,
    'hyvr/geo/contact_surface.py': GEO, 'hyvr/geo/ae_realization.py': GEO, 'hyvr/geo/sheet_ae.py': GEO, 'hyvr/geo/sheet.py': GEO,
    'hyvr/geo/trough_ae.py': GEO, 'hyvr/geo/trough.py': GEO, 'hyvr/geo/channel_ae.py': GEO, 'hyvr/geo/channel.py': GEO,
    'hyvr/geo/trough_utils.py': GEO, 'hyvr/geo/channel_utils.py': GEO, 'hyvr/utils.py': GEO, 'hyvr/optimized.py': ['C16', 'C14', 'C24', 'C25'],
    'hyvr/geo/grid.py': GEO, 'hyvr/input/option_parsing.py': ['C04', 'C13', 'C18'], 'hyvr/geo/contact_surface_utils.py': ['C04', 'C15', 'C13'],
    'hyvr/geo/ae_types.py': GEO,
}
CMP = {ast.Lt: ['<=', '>'], ast.LtE: ['<', '>'], ast.Gt: ['>=', '<'], ast.GtE: ['>', '<'], ast.Eq: ['!='], ast.NotEq: ['=='],
       ast.Is: ['is not'], ast.IsNot: ['is'], ast.In: ['not in'], ast.NotIn: ['in']}
BIN = {ast.Add: ['-'], ast.Sub: ['+'], ast.Mult: ['/'], ast.Div: ['*'], ast.FloorDiv: ['*'], ast.Pow: ['*']}


def offsets(src):
    o = [0]
    for l in src.splitlines(True):
        o.append(o[-1] + len(l))
    return o


def mutants(src):
    """(start, end, new text, what) in characters"""
    tree = ast.parse(src)
    off = offsets(src)
    enc = src.splitlines(True)

    def pos(line, col):
        return off[line - 1] + len(enc[line - 1].encode()[:col].decode())

    def span(n):
        return pos(n.lineno, n.col_offset), pos(n.end_lineno, n.end_col_offset)
    res = []
    funcs = [f for f in ast.walk(tree) if isinstance(f, ast.FunctionDef)]
    skip = set()
    for f in funcs:
        if f.name in ('print_model', 'get_new_parameters_from_deprecated', 'parse_deprecated_inifile', 'parse_old_strata_contact_model',
                      'parse_old_elem_contact_model', 'get_new_facies_list'):
            skip.update(range(f.lineno, f.end_lineno + 1))
    infunc = set()
    for f in funcs:
        for n in ast.walk(f):
            if hasattr(n, 'lineno'):
                infunc.add(n.lineno)
    for n in ast.walk(tree):
        if not hasattr(n, 'lineno') or n.lineno in skip or n.lineno not in infunc:
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            a, b = span(n.left)[1], span(n.comparators[0])[0]
            for new in CMP.get(type(n.ops[0]), ()):
                res.append((a, b, ' ' + new + ' ', 'cmp'))
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN:
            a, b = span(n.left)[1], span(n.right)[0]
            t = src[a:b]
            if '(' in t or ')' in t or '\n' in t:
                continue
            if isinstance(n.left, ast.Constant) and isinstance(n.left.value, str) or isinstance(n.right, ast.Constant) and isinstance(n.right.value, str):
                continue
            for new in BIN[type(n.op)]:
                res.append((a, b, ' ' + new + ' ', 'bin'))
        elif isinstance(n, ast.Constant) and n.value is True:
            res.append(span(n) + ('False', 'const'))
        elif isinstance(n, ast.Constant) and n.value is False:
            res.append(span(n) + ('True', 'const'))
        elif isinstance(n, ast.Constant) and type(n.value) in (int, float) and n.value in (0, 1, 2, -1, 0.5):
            res.append(span(n) + (repr(n.value + 1), 'const'))
        elif isinstance(n, (ast.Assign, ast.AugAssign)) or isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
            a, b = span(n)
            if '\n' not in src[a:b] and 'print' not in src[a:b]:
                res.append((a, b, 'pass', 'del'))
        elif isinstance(n, (ast.If, ast.While)):
            a, b = span(n.test)
            res.append((a, b, 'not (' + src[a:b] + ')', 'neg'))
        elif isinstance(n, ast.BoolOp):
            res.append(span(n.values[0]) + (src[slice(*span(n.values[1]))], 'bool'))
        elif isinstance(n, (ast.Continue, ast.Break)):
            res.append(span(n) + ('pass', 'jump'))
    return res


def read(path):
    return open(os.path.join('/repo', path), newline='', encoding='utf-8').read()


def main():
    if sys.argv[1] == 'list':
        for f in FILES:
            print(f, len(mutants(read(f))))
        return
    out, n, seed = sys.argv[2], int(sys.argv[3]), int(sys.argv[4])
    only = sys.argv[5:]
    rng = random.Random(seed)
    allm = []
    for f in FILES:
        if only and not any(o in f for o in only):
            continue
        ms = mutants(read(f))
        rng.shuffle(ms)
        allm.append((f, ms))
    done = set()
    if os.path.exists(out):
        for l in open(out):
            d = json.loads(l)
            done.add((d['file'], d['start'], d['new']))
    k = 0
    while k < n and any(ms for f, ms in allm):
        f, ms = rng.choices(allm, [min(len(m), 60) for f, m in allm])[0]
        a, b, new, kind = ms.pop()
        if (f, a, new) in done:
            continue
        src = read(f)
        mut = src[:a] + new + src[b:]
        line = src.count('\n', 0, a) + 1
        try:
            compile(mut, f, 'exec')
        except SyntaxError:
            continue
        k += 1
        shutil.rmtree(WT, ignore_errors=True)
        subprocess.check_call(['cp', '-a', '/repo', WT])
        open(os.path.join(WT, f), 'w', newline='', encoding='utf-8').write(mut)
        t = time.time()
        rec = dict(file=f, start=a, line=line, kind=kind, old=src[a:b], new=new, text=src.splitlines()[line - 1].strip(), caught=None, other=[])
        r = subprocess.run(['/opt/venv/bin/python', '-c', 'import hyvr'], cwd=WT, capture_output=True)
        if r.returncode:
            rec['caught'] = 'import'
        else:
            for c in FILES[f]:
                r = subprocess.run(['/opt/venv/bin/python', 'sim/vc.py', 'check', c], cwd=V, capture_output=True, text=True,
                                   env=dict(os.environ, HYVR_SIM_REPO=WT, VERIF_SEED='1'))
                if r.returncode == 1 and 'VIOLATION' in r.stdout:
                    rec['caught'] = c
                    break
                if r.returncode:
                    rec['other'].append((c, r.returncode, (r.stdout + r.stderr)[-300:]))
        rec['seconds'] = round(time.time() - t)
        with open(out, 'a') as o:
            o.write(json.dumps(rec) + '\n')
        print(rec['caught'] or 'SURVIVED', f, line, kind, repr(rec['text']), repr(rec['old']), '->', repr(new), rec['seconds'], flush=True)
    shutil.rmtree(WT, ignore_errors=True)


main()
