"""Mutation testing: small changes all over the code under test, in copies of /repo, against copies of /verif. Prints the
mutants that pass the tests and that no check notices.

  mutate.py list FILE...            shows the mutants
  mutate.py run N DIR FILE...       N at a time, results in DIR/results.jsonl (done ones are skipped)
"""
import ast
import hashlib
import json
import os
import queue
import shutil
import subprocess
import sys
import threading
import xml.etree.ElementTree as ET

PY = '/opt/venv/bin/python'
STORE = ['C01', 'C04', 'C05', 'C03', 'C02', 'C07', 'C06', 'C08', 'C20', 'C13', 'C11', 'C14', 'C09', 'C17', 'C10', 'C12']
CHECKS = {
    'gb/hypergraph/sql.py': STORE,
    'gb/hypergraph/sqlite.py': STORE + ['C31'],
    'gb/hypergraph/backend.py': ['C17', 'C01'],
    'gb/hypergraph/mysql.py': ['C17', 'C31'],
    'gb/hypergraph/null.py': ['C17'],
    'gb/hypergraph/hypergraph.py': ['C18', 'C08', 'C01', 'C20', 'C31', 'C19', 'C17', 'C14', 'C05', 'C07', 'C03', 'C09', 'C11', 'C12'],
    'gb/hypergraph/batch_hypergraph.py': ['C14', 'C28'],
    'gb/hypergraph/queries.py': ['C19', 'C18'],
    'gb/hypergraph/symbol.py': ['C16', 'C15', 'C07', 'C28', 'C26', 'C01'],
    'gb/hypergraph/edge.py': ['C15', 'C16', 'C01', 'C02', 'C03'],
    'gb/hypergraph/constants.py': ['C08', 'C28', 'C18', 'C19', 'C31'],
    'gb/knowledge/semantic_tree.py': ['C27', 'C22', 'C24', 'C23', 'C26', 'C25', 'C21'],
    'gb/knowledge/extractor.py': ['C21', 'C25', 'C22', 'C31'],
    'gb/knowledge/stages/alpha.py': ['C22', 'C21', 'C25'],
    'gb/knowledge/stages/beta.py': ['C23', 'C21'],
    'gb/knowledge/stages/gamma.py': ['C24', 'C21'],
    'gb/knowledge/stages/delta.py': ['C25', 'C21'],
    'gb/knowledge/stages/epsilon.py': ['C26', 'C21'],
    'gb/readers/wordnet.py': ['C28', 'C31'],
    'gb/nlp/parser.py': ['C30', 'C32', 'C21'],
    'gb/nlp/sentence.py': ['C30', 'C32', 'C21'],
    'gb/nlp/nlp_token.py': ['C30', 'C32', 'C21', 'C22'],
    'gb/gbrain.py': ['C31'],
    'gb/tools/shell.py': ['C31'],
    'python/filter_wikidump.py': ['C29'],
}
CMP = {ast.Eq: '!=', ast.NotEq: '==', ast.Lt: '<=', ast.LtE: '<', ast.Gt: '>=', ast.GtE: '>', ast.In: 'not in', ast.NotIn: 'in',
       ast.Is: 'is not', ast.IsNot: 'is'}
BIN = {ast.Add: '-', ast.Sub: '+', ast.Mult: '+', ast.Div: '*', ast.FloorDiv: '*', ast.Mod: '+'}


def mutants(src):
    """(start, end, new text) of each."""
    lines = src.split('\n')
    starts = [0]
    for ln in lines:
        starts.append(starts[-1] + len(ln.encode()) + 1)
    raw = src.encode()

    def span(n):
        return starts[n.lineno - 1] + n.col_offset, starts[n.end_lineno - 1] + n.end_col_offset

    def text(n):
        a, b = span(n)
        return raw[a:b].decode()
    tree = ast.parse(src)
    docs = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and n.body and isinstance(n.body[0], ast.Expr) \
                and isinstance(n.body[0].value, ast.Constant):
            docs.add(id(n.body[0].value))
            docs.add(id(n.body[0]))
    out = []

    def put(n, new):
        a, b = span(n)
        if raw[a:b].decode() != new:
            out.append((a, b, new))
    for n in ast.walk(tree):
        if id(n) in docs:
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            put(n, '%s %s %s' % (text(n.left), CMP[type(n.ops[0])], text(n.comparators[0])))
        elif isinstance(n, ast.BoolOp):
            op = ' or ' if isinstance(n.op, ast.And) else ' and '
            put(n, '(' + op.join('(%s)' % text(v) for v in n.values) + ')')
            for i in range(len(n.values)):
                rest = [text(v) for j, v in enumerate(n.values) if j != i]
                put(n, '(' + (' and ' if isinstance(n.op, ast.And) else ' or ').join('(%s)' % t for t in rest) + ')')
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            put(n, '(%s)' % text(n.operand))
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub):
            put(n, '(%s)' % text(n.operand))
        elif isinstance(n, ast.Constant):
            if isinstance(n.value, bool):
                put(n, str(not n.value))
            elif isinstance(n.value, int):
                put(n, str(n.value + 1))
                if n.value:
                    put(n, str(n.value - 1))
            elif n.value is None:
                pass
            elif isinstance(n.value, str) and len(n.value) < 30:
                put(n, repr(n.value + 'x' if n.value else 'x'))
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN:
            if not isinstance(n.left, ast.Constant) or not isinstance(n.left.value, str):
                put(n, '(%s %s %s)' % (text(n.left), BIN[type(n.op)], text(n.right)))
        elif isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Slice):
            put(n, '%s[:]' % text(n.value))
        elif isinstance(n, (ast.If, ast.While, ast.IfExp)):
            put(n.test, 'True' if not isinstance(n, ast.While) else 'False')
            if not isinstance(n, ast.While):
                put(n.test, 'False')
        elif isinstance(n, ast.Return) and n.value is not None:
            put(n, 'return None')
        elif isinstance(n, ast.Expr) or isinstance(n, ast.Assign) or isinstance(n, ast.AugAssign):
            put(n, 'pass')
            if isinstance(n, ast.AugAssign):
                put(n, '%s = %s' % (text(n.target), text(n.value)))
        elif isinstance(n, ast.Raise):
            put(n, 'pass')
        elif isinstance(n, ast.Break):
            put(n, 'continue')
        elif isinstance(n, ast.Continue):
            put(n, 'pass')
            put(n, 'break')
        elif isinstance(n, ast.For):
            put(n.iter, 'list(%s)[1:]' % text(n.iter))
            put(n.iter, 'list(%s)[:-1]' % text(n.iter))
            put(n.iter, 'list(reversed(list(%s)))' % text(n.iter))
        elif isinstance(n, (ast.List, ast.Tuple, ast.Set)) and len(n.elts) > 1 and isinstance(getattr(n, 'ctx', ast.Load()), ast.Load):
            o, c = {'List': '[]', 'Tuple': '()', 'Set': '{}'}[type(n).__name__]
            for i in range(len(n.elts)):
                put(n, o + ', '.join(text(e) for j, e in enumerate(n.elts) if j != i) + ',' + c)
        elif isinstance(n, ast.Call):
            if len(n.args) >= 2 and not any(isinstance(a, ast.Starred) for a in n.args):
                a = [text(x) for x in n.args]
                a[0], a[1] = a[1], a[0]
                put(n, '%s(%s)' % (text(n.func), ', '.join(a + ['%s=%s' % (k.arg, text(k.value)) for k in n.keywords if k.arg])))
            for i, k in enumerate(n.keywords):
                if k.arg:
                    ks = ['%s=%s' % (x.arg, text(x.value)) for j, x in enumerate(n.keywords) if j != i]
                    put(n, '%s(%s)' % (text(n.func), ', '.join([text(x) for x in n.args] + ks)))
            if len(n.args) == 1 and not n.keywords and isinstance(n.func, ast.Name) and n.func.id in (
                    'set', 'list', 'tuple', 'sorted', 'str', 'int', 'abs', 'reversed'):
                put(n, '(%s)' % text(n.args[0]))
            if isinstance(n.func, ast.Attribute) and not n.args and not n.keywords:
                put(n, text(n.func.value))
    res = []
    for a, b, new in out:
        m = (raw[:a] + new.encode() + raw[b:]).decode()
        try:
            ast.parse(m)
        except SyntaxError:
            continue
        line = raw[:a].count(b'\n') + 1
        res.append({'line': line, 'old': raw[a:b].decode()[:160], 'new': new[:160], 'text': m,
                    'key': hashlib.sha1(m.encode()).hexdigest()[:12]})
    seen, uniq = set(), []
    for m in res:
        if m['key'] not in seen:
            seen.add(m['key'])
            uniq.append(m)
    return uniq


def passing(copy):
    rep = copy + '.xml'
    env = dict(os.environ, PYTHONPATH=copy, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', MPLBACKEND='Agg')
    try:
        subprocess.run([PY, '-m', 'pytest', '-q', '-x' if False else '-q', '-p', 'no:cacheprovider', '--timeout=20', '--continue-on-collection-errors',
                        '--junitxml=' + rep, '--ignore=gb/hypergraph/tests/test_mysql.py', 'gb'], cwd=copy, env=env,
                       stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=120)
    except subprocess.TimeoutExpired:
        return set()
    good = set()
    try:
        for c in ET.parse(rep).getroot().iter('testcase'):
            if not list(c):
                good.add('%s::%s' % (c.get('classname'), c.get('name')))
    except ET.ParseError:
        pass
    for f in ('test.db', 'test.db-journal'):
        if os.path.exists(os.path.join(copy, f)):
            os.unlink(os.path.join(copy, f))
    return good


def run(n, out, files):
    os.makedirs(out, exist_ok=True)
    path = os.path.join(out, 'results.jsonl')
    done = set()
    if os.path.exists(path):
        done = set(json.loads(ln)['id'] for ln in open(path))
    todo = queue.Queue()
    for f in files:
        for m in mutants(open('/repo/' + f).read()):
            i = f + '@' + m['key']
            if i not in done and int(m['key'][:4], 16) < 65536 * float(os.environ.get('MUT_SAMPLE', '1')):
                todo.put((i, f, m))
    print('%d mutants to do' % todo.qsize(), flush=True)
    lock = threading.Lock()

    def work(k):
        repo, verif = '%s/repo%d' % (out, k), '%s/verif%d' % (out, k)
        for d in (repo, verif):
            shutil.rmtree(d, ignore_errors=True)
        subprocess.check_call(['cp', '-a', '/repo', repo])
        subprocess.check_call(['git', 'clone', '-q', '/verif', verif])
        p = verif + '/harness/common.py'
        s = open(p).read()
        s2 = s.replace("'/repo'", repr(repo))
        assert s2 != s
        open(p, 'w').write(s2)
        base = passing(repo)
        while True:
            try:
                i, f, m = todo.get_nowait()
            except queue.Empty:
                break
            target = os.path.join(repo, f)
            old = open(target).read()
            open(target, 'w').write(m['text'])
            res = {'id': i, 'file': f, 'line': m['line'], 'old': m['old'], 'new': m['new']}
            try:
                if not base <= passing(repo):
                    res['result'] = 'tests'
                else:
                    res['result'] = 'SURVIVED'
                    for c in CHECKS[f]:
                        env = dict(os.environ, VERIF_SEED='1', VERIF_TIER='quick')
                        try:
                            q = subprocess.run([PY, '-B', 'run.py', c], cwd=verif, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                                               timeout=600)
                        except subprocess.TimeoutExpired:
                            res['result'] = 'timeout ' + c
                            break
                        if q.returncode != 0:
                            res['result'] = '%s %s' % (c, q.returncode)
                            if q.returncode != 1:
                                res['tail'] = q.stdout.decode('utf-8', 'replace')[-600:]
                            break
            finally:
                open(target, 'w').write(old)
            with lock:
                with open(path, 'a') as fo:
                    fo.write(json.dumps(res) + '\n')
        for d in (repo, verif):
            shutil.rmtree(d, ignore_errors=True)
    ts = [threading.Thread(target=work, args=(k,)) for k in range(n)]
    for t in ts:
        t.start()
    for t in ts:
        t.join()


if __name__ == '__main__':
    if sys.argv[1] == 'list':
        for f in sys.argv[2:]:
            ms = mutants(open('/repo/' + f).read())
            print(f, len(ms))
            if len(sys.argv) == 3:
                for m in ms:
                    print('%d: %s  =>  %s' % (m['line'], m['old'], m['new']))
    else:
        run(int(sys.argv[2]), sys.argv[3], sys.argv[4:] or list(CHECKS))
