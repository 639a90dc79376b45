"""Development tool: mutate /repo's source, keep what passes the unit tests, run the checks against it.

python3 tools/mutate.py tests OUT.jsonl [files]      mutants that pass the unit tests
python3 tools/mutate.py checks OUT.jsonl RESULT.jsonl    checks of the properties anchored in the file
"""
import ast
import concurrent.futures
import copy
import json
import os
import random
import shutil
import subprocess
import sys

REPO, PY = '/repo', '/opt/venv/bin/python'
ENV = dict(os.environ, PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1')
PROPS = {
    'processor/trigger_handler.py': 'C15 C14 C03 C01 C04 C12', 'processor/context/trigger_context.py': 'C10 C06 C04 C02 C01',
    'processor/context/action_context.py': 'C10 C04 C07 C02', 'processor/context/snapshot_action.py': 'C02 C16 C20 C15 C05 C11',
    'processor/context/log_action.py': 'C16 C10 C20 C11', 'processor/context/metric_action.py': 'C17 C20 C10', 'processor/context/span_action.py': 'C15 C11 C20',
    'processor/context/callback_context.py': 'C15 C01', 'processor/context/action_results.py': 'C16 C06', 'processor/frame_collector.py': 'C02 C06 C05 C19',
    'processor/frame_config.py': 'C05 C02', 'processor/variable_processor.py': 'C06 C02 C05 C07', 'processor/variable_set_processor.py': 'C05 C07 C06 C02',
    'processor/bfs/__init__.py': 'C05 C07', 'api/tracepoint/trigger.py': 'C03 C04 C11 C15 C10 C17', 'api/tracepoint/tracepoint_config.py': 'C04 C11 C08 C17',
    'api/tracepoint/eventsnapshot.py': 'C08 C02 C07', 'api/tracepoint/constants.py': 'C11 C04', 'api/attributes/__init__.py': 'C18', 'api/resource/__init__.py': 'C18',
    'api/deep.py': 'C14 C13 C18 C20 C09', 'api/plugin/__init__.py': 'C20 C14', 'api/plugin/otel.py': 'C20 C15', 'api/plugin/python.py': 'C16 C20 C02',
    'api/plugin/metric/__init__.py': 'C17 C20', 'api/plugin/span/__init__.py': 'C15 C20', 'api/plugin/metric/otel_metrics.py': 'C17',
    'api/plugin/metric/prometheus_metrics.py': 'C17', 'api/auth/__init__.py': 'C08', 'config/config_service.py': 'C19 C20 C17', 'config/__init__.py': 'C19',
    'config/tracepoint_config.py': 'C12 C13', 'grpc/__init__.py': 'C03 C08 C11 C17 C18', 'grpc/grpc_service.py': 'C08 C14', 'push/__init__.py': 'C08',
    'push/push_service.py': 'C09 C08', 'poll/poll.py': 'C12 C14 C19', 'task/__init__.py': 'C09 C14', 'utils.py': 'C10 C12 C14 C19', 'thread_local.py': 'C15 C01',
    '__init__.py': 'C19 C14', 'logging/__init__.py': 'C01',
}
CMP = {ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq], ast.Lt: [ast.LtE], ast.LtE: [ast.Lt], ast.Gt: [ast.GtE], ast.GtE: [ast.Gt], ast.Is: [ast.IsNot],
       ast.IsNot: [ast.Is], ast.In: [ast.NotIn], ast.NotIn: [ast.In]}
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.FloorDiv, ast.Div: ast.Mult, ast.FloorDiv: ast.Mult, ast.Mod: ast.Add}


def is_doc(node):
    return isinstance(node, ast.Expr) and isinstance(node.value, ast.Constant)


def is_log(node):
    return isinstance(node, ast.Expr) and isinstance(node.value, ast.Call) and ast.unparse(node.value.func).startswith('logging.')


def variants(node):
    """Replacements for a node: description and function that changes a copy of it."""
    out = []
    if isinstance(node, ast.Compare) and len(node.ops) == 1:
        for new in CMP.get(type(node.ops[0]), []):
            out.append(('cmp', lambda n, new=new: (setattr(n, 'ops', [new()]), n)[1]))
    if isinstance(node, ast.BoolOp):
        out.append(('boolop', lambda n: (setattr(n, 'op', ast.Or() if isinstance(n.op, ast.And) else ast.And()), n)[1]))
        for i in range(len(node.values)):
            out.append(('drop operand %d' % i, lambda n, i=i: n.values[1 - i] if len(n.values) == 2 else ast.BoolOp(n.op, n.values[:i] + n.values[i + 1:])))
    if isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.Not):
        out.append(('not', lambda n: n.operand))
    if isinstance(node, ast.BinOp) and type(node.op) in BIN and not isinstance(node.left, ast.Constant):
        out.append(('binop', lambda n: (setattr(n, 'op', BIN[type(n.op)]()), n)[1]))
    if isinstance(node, ast.Constant):
        if isinstance(node.value, bool):
            out.append(('bool', lambda n: ast.Constant(not n.value)))
        elif isinstance(node.value, int):
            out.append(('int+1', lambda n: ast.Constant(n.value + 1)))
            if node.value:
                out.append(('int-1', lambda n: ast.Constant(n.value - 1)))
        elif isinstance(node.value, str) and node.value:
            out.append(('text', lambda n: ast.Constant(n.value + 'x')))
    if isinstance(node, (ast.If, ast.While, ast.IfExp)):
        out.append(('if true', lambda n: (setattr(n, 'test', ast.Constant(True)), n)[1]))
        out.append(('if false', lambda n: (setattr(n, 'test', ast.Constant(False)), n)[1]))
    if isinstance(node, (ast.Expr, ast.AugAssign, ast.Delete, ast.Raise)) and not is_doc(node) and not is_log(node):
        out.append(('drop', lambda n: ast.Pass()))
    if isinstance(node, ast.Assign) and not isinstance(node.value, ast.Constant) and isinstance(node.targets[0], ast.Attribute):
        out.append(('assign none', lambda n: (setattr(n, 'value', ast.Constant(None)), n)[1]))
    if isinstance(node, ast.Return) and node.value is not None and not isinstance(node.value, ast.Constant):
        out.append(('return none', lambda n: ast.Return(ast.Constant(None))))
    if isinstance(node, ast.Break):
        out.append(('break', lambda n: ast.Continue()))
    if isinstance(node, ast.Continue):
        out.append(('continue', lambda n: ast.Break()))
    if isinstance(node, ast.Call) and len(node.args) >= 2 and not any(isinstance(a, ast.Starred) for a in node.args):
        out.append(('swap', lambda n: (setattr(n, 'args', [n.args[1], n.args[0]] + n.args[2:]), n)[1]))
    if isinstance(node, ast.ExceptHandler) and isinstance(node.type, ast.Name) and node.type.id in ('BaseException', 'Exception'):
        to = 'Exception' if node.type.id == 'BaseException' else 'LookupError'
        out.append(('except ' + to, lambda n: (setattr(n, 'type', ast.Name(to, ast.Load())), n)[1]))
    if isinstance(node, ast.Subscript) and isinstance(node.slice, ast.Slice):
        out.append(('no slice', lambda n: n.value))
    if isinstance(node, ast.With) and 'lock' in ast.unparse(node.items[0]).lower():
        out.append(('no lock', lambda n: ast.If(ast.Constant(True), n.body, [])))
    return out


def mutants(path):
    """Description, first and last line, and text of each mutant of a file."""
    text = open(path).read()
    tree = ast.parse(text)
    lines = text.split('\n')
    skip = set()
    for node in ast.walk(tree):
        if is_doc(node) or is_log(node) or isinstance(node, (ast.ImportFrom, ast.Import)):
            skip |= {id(n) for n in ast.walk(node)}
        for field in ('returns', 'annotation'):
            a = getattr(node, field, None)
            if a is not None:
                skip |= {id(n) for n in ast.walk(a)}
        if isinstance(node, (ast.FunctionDef,)) and node.name in ('__str__', '__repr__'):
            skip |= {id(n) for n in ast.walk(node)}
    out = []
    nodes = list(ast.walk(tree))
    for k, node in enumerate(nodes):
        if id(node) in skip:
            continue
        for what, fn in variants(node):
            new = copy.deepcopy(tree)
            target = list(ast.walk(new))[k]
            # keep the format of the file: only the statement is replaced
            class Change(ast.NodeTransformer):
                def visit(self, n):
                    if n is target:
                        return ast.fix_missing_locations(ast.copy_location(fn(n), n))
                    return self.generic_visit(n)
            stmt = [s for s in nodes if isinstance(s, (ast.stmt, ast.ExceptHandler)) and s.lineno <= node.lineno and s.end_lineno >= node.end_lineno
                    and not isinstance(s, (ast.ClassDef,)) and (not isinstance(s, ast.FunctionDef) or node.lineno <= s.lineno)]
            try:
                after = ast.unparse(Change().visit(new))
            except Exception:
                continue
            out.append(('%d %s: %s' % (node.lineno, what, lines[node.lineno - 1].strip()[:90]), after))
    return out


def scratch(name, file, text):
    d = '/tmp/mut/' + name
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    for part in ('src', 'tests'):
        shutil.copytree(os.path.join(REPO, part), os.path.join(d, part), ignore=shutil.ignore_patterns('__pycache__'))
    open(os.path.join(d, 'src/deep', file), 'w').write(text)
    return d


def tests(job):
    i, file, what, text = job
    d = scratch('t%d' % i, file, text)
    try:
        r = subprocess.run([PY, '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider', 'unit_tests'], cwd=d + '/tests', timeout=60,
                           env=dict(ENV, PYTHONPATH=d + '/src'), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode
    except subprocess.TimeoutExpired:
        r = 99
    shutil.rmtree(d, ignore_errors=True)
    return {'file': file, 'what': what, 'text': text, 'rc': r}


def main():
    if sys.argv[1] == 'tests':
        files = sys.argv[3:] or list(PROPS)
        jobs = []
        for f in files:
            seen = set()
            for what, text in mutants(os.path.join(REPO, 'src/deep', f)):
                if text not in seen:
                    seen.add(text)
                    jobs.append((len(jobs), f, what, text))
        print(len(jobs), 'mutants', flush=True)
        with open(sys.argv[2], 'w') as out, concurrent.futures.ThreadPoolExecutor(int(os.environ.get('JOBS', '7'))) as pool:
            for m in pool.map(tests, jobs):
                if m['rc'] == 0:
                    out.write(json.dumps(m) + '\n')
                    out.flush()
    else:
        todo = [json.loads(line) for line in open(sys.argv[2])]
        done = set()
        if os.path.exists(sys.argv[3]):
            done = {(m['file'], m['what']) for m in map(json.loads, open(sys.argv[3]))}
        random.Random(int(os.environ.get('SEED', '1'))).shuffle(todo)
        for m in todo:
            if (m['file'], m['what']) in done:
                continue
            d = scratch('c' + os.path.basename(sys.argv[3]), m['file'], m['text'])
            caught, rcs = None, {}
            for p in PROPS[m['file']].split():
                try:
                    r = subprocess.run(['python3-vt', os.environ.get('VX', '/verif') + '/vx/run.py', p, '--budget', os.environ.get('BUDGET', '40')], env=dict(ENV, VX_REPO=d), timeout=200,
                                       stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
                    rcs[p] = r.returncode
                    if r.returncode == 1 and 'VIOLATION' in r.stdout:
                        caught = p
                        break
                except subprocess.TimeoutExpired:
                    rcs[p] = 'timeout'
            shutil.rmtree(d, ignore_errors=True)
            with open(sys.argv[3], 'a') as out:
                out.write(json.dumps({'file': m['file'], 'what': m['what'], 'caught': caught, 'rcs': rcs}) + '\n')


main()
