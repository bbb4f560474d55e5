"""
Rules over the syntax trees of the package: diagnostic switches, imports and
cached values.
"""
import ast
import os
import re
import sys

from .checks_opt import Finding

MUTATORS = {'append', 'extend', 'insert', 'remove', 'pop', 'popitem', 'clear', 'update', 'setdefault', 'add', 'discard', 'sort', 'reverse',
            '__setitem__', '__setattr__', 'move_to_end', 'put', 'fill', 'resize', 'write', 'union_update', 'difference_update'}
LOG_SINKS = ('_opt_logs', '_new_logs', '_logs', 'logs', 'logger', 'stderr', 'stdout')


def rel(program, mod):
    return program.relpath(mod.path)


def finding(program, mod, qual, node, rule, message, **detail):
    where = '%s:%s' % (rel(program, mod), qual)
    return Finding(rule, where, message, '%s:%s' % (where, getattr(node, 'lineno', 0)), dict(detail, source=ast.unparse(node)[:400] if isinstance(node, ast.AST) else ''))


def walk_own(node):
    """The nodes of a function without those of nested functions and classes."""
    todo = list(ast.iter_child_nodes(node))
    while todo:
        n = todo.pop()
        yield n
        if not isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Lambda)):
            todo.extend(ast.iter_child_nodes(n))


def root_name(e):
    while isinstance(e, (ast.Attribute, ast.Subscript, ast.Call)):
        e = e.func if isinstance(e, ast.Call) else e.value
    return e.id if isinstance(e, ast.Name) else None


def is_logging(e):
    """The receiver of an effect is a log."""
    t = ast.unparse(e)
    return any(re.search(r'(^|[._])%s\b' % s.lstrip('_'), t) for s in LOG_SINKS)


# ------------------------------------------------------------------ diagnostic switches

class Flags:
    """The diagnostic switches and the expressions which depend on them."""

    def __init__(self, program):
        self.names = set()
        self.funcs = set()
        for name, mod in program.modules.items():
            if name.endswith('.constants'):
                for st in mod.tree.body:
                    for t in getattr(st, 'targets', [getattr(st, 'target', None)]):
                        if isinstance(t, ast.Name) and re.search(r'TRACE|DEBUG|VERBOSE', t.id):
                            self.names.add(t.id)
        # a function which only tells whether a switch is on
        for mod, stack, fn in program.functions():
            body = [s for s in fn.body if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))]
            if len(body) == 1 and isinstance(body[0], ast.Return) and body[0].value is not None and self.is_flag(body[0].value) and pure_test(body[0].value):
                self.funcs.add(fn.name)

    def is_flag(self, e, local=()):
        for n in ast.walk(e):
            if isinstance(n, ast.Name) and (n.id in self.names or n.id in local):
                return True
            if isinstance(n, ast.Attribute) and n.attr in self.names:
                return True
            if isinstance(n, ast.Call) and isinstance(n.func, (ast.Name, ast.Attribute)) and (n.func.id if isinstance(n.func, ast.Name) else n.func.attr) in self.funcs:
                return True
            if isinstance(n, ast.Constant) and isinstance(n.value, str) and re.fullmatch(r'[A-Z_]*(DEBUG|TRACE)[A-Z_]*', n.value) and '_' in n.value:
                return True
        return False


def pure_test(e):
    return not any(isinstance(n, (ast.Yield, ast.Await, ast.NamedExpr)) for n in ast.walk(e))


def stores_of(program):
    """Names of package functions that store into their arguments or self."""
    out = {}
    for mod, stack, fn in program.functions():
        params = {a.arg for a in fn.args.args + fn.args.posonlyargs + fn.args.kwonlyargs}
        if fn.name == '__init__':
            params.discard('self')
        hit = None
        for n in walk_own(fn):
            ts = n.targets if isinstance(n, (ast.Assign, ast.Delete)) else [n.target] if isinstance(n, (ast.AugAssign, ast.AnnAssign)) else []
            for t in ts:
                if isinstance(t, (ast.Attribute, ast.Subscript)) and root_name(t) in params and not is_logging(t):
                    hit = hit or t
        if hit is not None:
            out.setdefault(fn.name, []).append('%s:%s' % (rel(program, mod), '.'.join(stack + (fn.name,))))
    return out


def diagnostics(program):
    flags = Flags(program)
    findings, n = [], {'functions': 0, 'switch tests': 0, 'guarded statements': 0, 'calls in guarded code': 0, 'obligations': 0}
    storing = stores_of(program)
    skip_calls = {'prepare', 'finalize', 'optimize', '_load_metadata'}
    for mod, stack, fn in program.functions():
        n['functions'] += 1
        qual = '.'.join(stack + (fn.name,))
        local = set()
        for s in walk_own(fn):
            if isinstance(s, (ast.Assign, ast.AnnAssign)) and s.value is not None:
                ts = s.targets if isinstance(s, ast.Assign) else [s.target]
                for t in ts:
                    if isinstance(t, ast.Name) and (flags.is_flag(s.value) and small(s.value) or re.fullmatch(r'_?(DEBUG|TRACE|VERBOSE)\w*', t.id) and isinstance(s.value, ast.Constant)):
                        local.add(t.id)
        guarded = []       # (statement list, the test)
        exits = []

        def visit(body):
            for i, st in enumerate(body):
                if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                    continue
                if isinstance(st, ast.If) and flags.is_flag(st.test, local):
                    n['switch tests'] += 1
                    leave = [x for x in st.body if isinstance(x, (ast.Return, ast.Continue, ast.Break))]
                    if leave and len(st.body) == 1 and not st.orelse and negated(st.test):
                        # the rest of the block only runs with the switch on
                        guarded.append((body[i + 1:], st))
                        if isinstance(leave[0], ast.Return) and leave[0].value is not None and not isinstance(leave[0].value, ast.Constant):
                            exits.append(leave[0])
                        return
                    guarded.append((st.body, st))
                    if st.orelse:
                        guarded.append((st.orelse, st))
                    continue
                if isinstance(st, ast.While) and flags.is_flag(st.test, local):
                    guarded.append((st.body, st))
                    continue
                for sub in blocks(st):
                    visit(sub)
        visit(fn.body)
        inside = set()
        for body, test in guarded:
            for st in body:
                for x in ast.walk(st):
                    inside.add(id(x))
        for e in exits:
            findings.append(finding(program, mod, qual, e, 'diagnostics', 'returns a value that depends on a diagnostic switch'))
        # other uses of a switch
        for x in walk_own(fn):
            if isinstance(x, ast.IfExp) and flags.is_flag(x.test, local) and id(x) not in inside:
                n['obligations'] += 1
                if not (isinstance(x.body, ast.Constant) and isinstance(x.orelse, ast.Constant) and (x.body.value, x.orelse.value) in ((1, 0), (True, False))):
                    findings.append(finding(program, mod, qual, x, 'diagnostics', 'a diagnostic switch decides a value'))
        for body, test in guarded:
            bound = set()
            for st in body:
                n['guarded statements'] += 1
                for x in [st] + list(ast.walk(st)):
                    n['obligations'] += 1
                    if isinstance(x, (ast.Return, ast.Yield, ast.YieldFrom)) and getattr(x, 'value', None) is not None and not (isinstance(x.value, ast.Constant) and x.value.value is None):
                        findings.append(finding(program, mod, qual, x, 'diagnostics', 'code of a diagnostic switch returns a value'))
                    elif isinstance(x, ast.Raise):
                        findings.append(finding(program, mod, qual, x, 'diagnostics', 'code of a diagnostic switch raises'))
                    elif isinstance(x, (ast.Return, ast.Continue, ast.Break)) and leaves(x, st, body) and not diagnostic_only(fn, test):
                        findings.append(finding(program, mod, qual, x, 'diagnostics', 'code of a diagnostic switch changes the flow of control'))
                    elif isinstance(x, (ast.Assign, ast.AugAssign, ast.AnnAssign, ast.Delete, ast.For, ast.NamedExpr)):
                        ts = x.targets if isinstance(x, (ast.Assign, ast.Delete)) else [x.target]
                        for t in flat(ts):
                            if isinstance(t, ast.Name):
                                bound.add(t.id)
                            elif not is_logging(t):
                                r = root_name(t)
                                if r is None or r not in bound:
                                    findings.append(finding(program, mod, qual, x, 'diagnostics', 'code of a diagnostic switch stores into %s' % ast.unparse(t)))
                    elif isinstance(x, ast.Call):
                        n['calls in guarded code'] += 1
                        f = x.func
                        name = f.attr if isinstance(f, ast.Attribute) else f.id if isinstance(f, ast.Name) else None
                        if isinstance(f, ast.Attribute) and name in MUTATORS:
                            if not is_logging(f.value) and root_name(f.value) not in bound and root_name(f.value) not in ('os', 'sys', 'logging'):
                                findings.append(finding(program, mod, qual, x, 'diagnostics', 'code of a diagnostic switch changes %s' % ast.unparse(f.value)))
                        elif any(k.arg == 'out' and root_name(k.value) not in bound and not isinstance(k.value, ast.Constant) or
                                 k.arg == 'copy' and isinstance(k.value, ast.Constant) and not k.value.value and name == 'nan_to_num' for k in x.keywords):
                            findings.append(finding(program, mod, qual, x, 'diagnostics', 'code of a diagnostic switch writes into an array: %s' % ast.unparse(x)[:100]))
                        elif name in storing and isinstance(f, ast.Attribute) and root_name(f) not in bound and name not in MUTATORS:
                            findings.append(finding(program, mod, qual, x, 'diagnostics', 'code of a diagnostic switch calls %s, which stores into its operand' % name, stores=storing[name]))
            if bound:
                for x in escapes(fn, bound, body, inside):
                    findings.append(finding(program, mod, qual, x, 'diagnostics', '%s is set by code of a diagnostic switch and used outside of it' % x.id))
                    break
    return findings, n


def small(e):
    return not any(isinstance(n, (ast.IfExp, ast.Dict, ast.List, ast.ListComp)) for n in ast.walk(e))


def negated(e):
    return isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not) or isinstance(e, ast.Compare) and isinstance(e.ops[0], ast.Eq)


def blocks(st):
    for f in ('body', 'orelse', 'finalbody'):
        b = getattr(st, f, None)
        if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
            yield b
    for h in getattr(st, 'handlers', ()):
        yield h.body
    for c in getattr(st, 'cases', ()):
        yield c.body


def flat(ts):
    for t in ts:
        if isinstance(t, (ast.Tuple, ast.List)):
            yield from flat(t.elts)
        elif isinstance(t, ast.Starred):
            yield from flat([t.value])
        elif t is not None:
            yield t


def leaves(x, st, body):
    """break/continue of a loop outside of the guarded statements, or return."""
    if isinstance(x, ast.Return):
        return True
    for loop in [n for s in body for n in ast.walk(s) if isinstance(n, (ast.For, ast.While))]:
        if any(n is x for n in ast.walk(loop)):
            return False
    return True


def diagnostic_only(fn, test):
    """Nothing but diagnostics follows the switch in the function."""
    rest = [s for s in fn.body if s.lineno > test.lineno]
    return all(s.lineno <= (test.end_lineno or 0) for s in rest) or negated(test.test)


def escapes(fn, bound, body, inside):
    """The uses outside of the guarded code that a definition inside of it reaches (reaching definitions)."""
    first = body[0] if body else None
    out = []

    def uses(e, live):
        if e is None or id(e) in inside:
            return
        for x in ast.walk(e):
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load) and x.id in live and id(x) not in inside and x not in out:
                out.append(x)

    def kill(ts, live):
        names = {t.id for t in flat(ts) if isinstance(t, ast.Name)}
        return live - names

    def run(stmts, live):
        for st in stmts:
            if st is first:
                # the guarded statements, which may or may not run
                live = live | bound
            if id(st) in inside:
                continue
            live = step(st, live)
        return live

    def step(st, live):
        if isinstance(st, ast.Assign):
            uses(st.value, live)
            for t in st.targets:
                if not isinstance(t, ast.Name):
                    uses(t, live)
            return kill(st.targets, live)
        if isinstance(st, ast.AnnAssign):
            uses(st.value, live)
            return kill([st.target], live) if st.value is not None else live
        if isinstance(st, ast.AugAssign):
            uses(st.value, live)
            if isinstance(st.target, ast.Name) and st.target.id in live:
                out.append(ast.Name(st.target.id, ast.Load(), lineno=st.lineno, col_offset=0))
            return live
        if isinstance(st, ast.If):
            uses(st.test, live)
            return run(st.body, live) | run(st.orelse, live)
        if isinstance(st, (ast.For, ast.AsyncFor, ast.While)):
            uses(st.iter if not isinstance(st, ast.While) else st.test, live)
            for _ in range(2):
                inner = live if isinstance(st, ast.While) else kill([st.target], live)
                live = live | run(st.body, inner)
                if isinstance(st, ast.While):
                    uses(st.test, live)
            return live | run(st.orelse, live)
        if isinstance(st, (ast.With, ast.AsyncWith)):
            for i in st.items:
                uses(i.context_expr, live)
            return run(st.body, live)
        if isinstance(st, ast.Try):
            a = run(st.body, live)
            r = run(st.orelse, a)
            for h in st.handlers:
                r = r | run(h.body, live | a)
            return run(st.finalbody, r)
        if isinstance(st, (ast.Return, ast.Raise)):
            uses(st, live)
            return set()
        if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            uses(st, live)
            return live - {st.name}
        uses(st, live)
        return live
    run(fn.body, set())
    return out


# ------------------------------------------------------------------ imports

def requirements(program):
    out = {'delayed_image'}
    path = os.path.join(program.root, 'requirements', 'runtime.txt')
    if os.path.exists(path):
        for line in open(path, encoding='utf8'):
            line = line.split('#')[0].strip()
            m = re.match(r'[A-Za-z0-9_.-]+', line)
            if m and not line.startswith('-'):
                out.add(m.group(0).lower().replace('-', '_'))
    return out


def caught(handlers):
    for h in handlers:
        if h.type is None:
            return True
        for t in ast.walk(h.type):
            n = t.id if isinstance(t, ast.Name) else t.attr if isinstance(t, ast.Attribute) else None
            if n in ('ImportError', 'ModuleNotFoundError', 'Exception', 'BaseException'):
                return True
    return False


def imports(program):
    req = requirements(program)
    std = set(sys.stdlib_module_names)
    findings, n = [], {'modules': 0, 'imports when loaded': 0, 'guarded imports': 0, 'functions run when loaded': 0}
    funcs = {}
    for mod, stack, fn in program.functions():
        funcs.setdefault((mod.name, fn.name), []).append((stack, fn))
    for mod in program.modules.values():
        n['modules'] += 1
        seen = set()

        def names(st):
            if isinstance(st, ast.Import):
                return [a.name for a in st.names]
            if st.level:
                return []
            return [st.module]

        def expr(e, safe):
            """Calls that happen while the module is loaded."""
            for c in ast.walk(e):
                if isinstance(c, ast.Call) and isinstance(c.func, ast.Name) and (mod.name, c.func.id) in funcs and c.func.id not in seen:
                    for stack, fn in funcs[(mod.name, c.func.id)]:
                        if not stack:
                            seen.add(c.func.id)
                            n['functions run when loaded'] += 1
                            visit(fn.body, safe, c.func.id)
                if isinstance(c, ast.Call) and isinstance(c.func, (ast.Name, ast.Attribute)) and (ast.unparse(c.func) in ('__import__', 'importlib.import_module', 'import_module')) and c.args and isinstance(c.args[0], ast.Constant):
                    check([c.args[0].value], c, safe, '<module>')

        def check(ns, node, safe, qual):
            for name in ns:
                top = name.split('.')[0]
                if safe:
                    n['guarded imports'] += 1
                    continue
                n['imports when loaded'] += 1
                if top not in std and top.lower() not in req:
                    findings.append(finding(program, mod, qual, node, 'imports', 'importing the package needs %s, which is not a required package' % top))

        def visit(body, safe, qual):
            for st in body:
                if isinstance(st, (ast.Import, ast.ImportFrom)):
                    check(names(st), st, safe, qual)
                elif isinstance(st, ast.Try):
                    visit(st.body, safe or caught(st.handlers), qual)
                    for h in st.handlers:
                        visit(h.body, safe, qual)
                    visit(st.orelse, safe, qual)
                    visit(st.finalbody, safe, qual)
                elif isinstance(st, ast.If):
                    t = ast.unparse(st.test)
                    if 'TYPE_CHECKING' in t:
                        if t.startswith('not '):
                            visit(st.body, safe, qual)
                        else:
                            visit(st.orelse, safe, qual)
                    elif t in ("__name__ == '__main__'", '0', 'False'):
                        visit(st.orelse, safe, qual)
                    else:
                        expr(st.test, safe)
                        visit(st.body, safe, qual)
                        visit(st.orelse, safe, qual)
                elif isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    for d in st.decorator_list + st.args.defaults + [x for x in st.args.kw_defaults if x is not None]:
                        expr(d, safe)
                elif isinstance(st, ast.ClassDef):
                    for d in st.decorator_list + st.bases:
                        expr(d, safe)
                    visit(st.body, safe, qual)
                elif isinstance(st, ast.With):
                    sup = any('suppress' in ast.unparse(i.context_expr) and re.search('ImportError|Exception|ModuleNotFound', ast.unparse(i.context_expr)) for i in st.items)
                    visit(st.body, safe or sup, qual)
                elif isinstance(st, (ast.For, ast.While)):
                    visit(st.body, safe, qual)
                    visit(st.orelse, safe, qual)
                else:
                    expr(st, safe)
        visit(mod.tree.body, False, '<module>')
    return findings, n


# ------------------------------------------------------------------ cached values

MEMO = {'memoize', 'memoize_property', 'memoize_method', 'cache', 'lru_cache', 'cached_property', '_cache'}


def memo_kind(fn):
    for d in fn.decorator_list:
        e = d.func if isinstance(d, ast.Call) else d
        name = e.attr if isinstance(e, ast.Attribute) else e.id if isinstance(e, ast.Name) else None
        if name in MEMO:
            return name
    return None


def class_table(program):
    classes = {}
    for mod, node in program.classes():
        classes[node.name] = (mod, node)
    return classes


def ancestry(classes, name):
    out, todo = [], [name]
    while todo:
        c = todo.pop(0)
        if c in classes and c not in out:
            out.append(c)
            for b in classes[c][1].bases:
                b = b.attr if isinstance(b, ast.Attribute) else b.id if isinstance(b, ast.Name) else None
                if b:
                    todo.append(b)
    return out


def methods_of(classes, name):
    out = {}
    for c in ancestry(classes, name):
        for st in classes[c][1].body:
            if isinstance(st, ast.FunctionDef):
                out.setdefault(st.name, []).append((c, st))
    return out


def caches(program):
    classes = class_table(program)
    subs = {c: [d for d in classes if c in ancestry(classes, d)] for c in classes}
    findings, n = [], {'cached functions': 0, 'attributes that a cached value depends on': 0, 'stores checked': 0, 'uses of cached values': 0}
    # stores per class family: attribute -> [(mod, qual, node, fresh receiver)]
    stores = {}
    for mod, stack, fn in program.functions():
        qual = '.'.join(stack + (fn.name,))
        cls = stack[0] if stack and stack[0] in classes else None
        for x in walk_own(fn):
            ts = x.targets if isinstance(x, (ast.Assign, ast.Delete)) else [x.target] if isinstance(x, (ast.AugAssign, ast.AnnAssign)) else []
            if isinstance(x, ast.AnnAssign) and x.value is None:
                ts = []
            for t in flat(ts):
                deep = False
                b = t
                while isinstance(b, ast.Subscript):
                    b, deep = b.value, True
                if isinstance(b, ast.Attribute) and isinstance(b.value, ast.Name):
                    stores.setdefault(b.attr, []).append((mod, qual, cls, fn, x, b.value.id, deep))
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in MUTATORS:
                b = x.func.value
                while isinstance(b, ast.Subscript):
                    b = b.value
                if isinstance(b, ast.Attribute) and isinstance(b.value, ast.Name):
                    stores.setdefault(b.attr, []).append((mod, qual, cls, fn, x, b.value.id, True))
    cached_attrs = {}
    properties = {}
    for c in classes:
        for st in classes[c][1].body:
            if isinstance(st, ast.FunctionDef) and (memo_kind(st) in ('memoize_property', 'cached_property') or any(ast.unparse(d) == 'property' for d in st.decorator_list)):
                properties.setdefault(st.name, []).append((c, st))
    for mod, qual, fn, where in process_wide(program, classes):
        n['cached functions'] += 1
        use = opens_files(program, classes, mod, qual, fn)
        if use is not None and 'mtime' not in ast.unparse(fn):
            findings.append(finding(program, mod, qual, use, 'caches', 'the contents of a file are kept in %s, and stay when the file changes' % where))
    for mod, stack, fn in program.functions():
        kind = memo_kind(fn)
        cls = stack[-1] if stack and stack[-1] in classes else None
        own = set()
        if kind is None:
            own = kept_attributes(fn, classes) if cls else set()
            if not own:
                continue
        n['cached functions'] += 1
        qual = '.'.join(stack + (fn.name,))
        if kind is not None:
            cached_attrs.setdefault(fn.name, []).append((cls, kind))
        if cls is None:
            # module level: only constants besides the arguments
            bad = global_reads(program, mod, fn)
            for name, st in bad:
                findings.append(finding(program, mod, qual, st, 'caches', 'the cached value depends on the variable %s, which changes' % name))
            continue
        reads, seen = {}, set()
        family = set(subs[cls]) | set(ancestry(classes, cls))
        kept = {k[0] for k in own}
        todo = [(cls, fn)]
        while todo:
            c, f = todo.pop()
            if id(f) in seen:
                continue
            seen.add(id(f))
            selfname = f.args.args[0].arg if f.args.args else None
            inner = {id(y.value) for y in walk_deep(f) if f is fn and isinstance(y, (ast.Subscript, ast.Attribute)) and key_of(y, selfname) in own}
            inner |= {id(y.func.value) for y in walk_deep(f) if f is fn and isinstance(y, ast.Call) and isinstance(y.func, ast.Attribute) and key_of(y, selfname) in own}
            for x in walk_deep(f):
                if f is fn and own and (id(x) in inner or isinstance(x, ast.Attribute) and key_of(x, selfname) in own):
                    continue
                if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Load) and x.attr in properties and not (isinstance(x.value, ast.Name) and x.value.id == selfname):
                    todo.extend(properties[x.attr])      # a property of another object
                elif isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == selfname and isinstance(x.ctx, ast.Load):
                    hits = [m for d in subs[cls] for m in methods_of(classes, d).get(x.attr, [])[:1]]
                    if not hits:                     # a property of another class, reached through another object
                        hits = [m for d in subs.get(c, ()) for m in methods_of(classes, d).get(x.attr, [])[:1]]
                    if hits:
                        for c2, m in hits:
                            todo.append((c2, m))
                    else:
                        reads.setdefault(x.attr, (x, set(subs.get(c, ())) | set(ancestry(classes, c))))
        for attr, (use, family) in sorted(reads.items()):
            n['attributes that a cached value depends on'] += 1
            for smod, squal, scls, sfn, node, recv, deep in stores.get(attr, ()):
                n['stores checked'] += 1
                if kept and any(forgets(sfn, recv, k) for k in kept):
                    continue                      # the stored value is dropped with it
                if scls is not None and scls not in family and recv == (sfn.args.args[0].arg if sfn.args.args else None):
                    continue                      # an attribute of another family of classes
                if scls is None and not deep and not receiver_may_be(sfn, recv, family):
                    continue
                if id(sfn) in seen:
                    continue                      # part of the computation of the cached value itself
                selfname = sfn.args.args[0].arg if sfn.args.args else None
                if recv == selfname and sfn.name in ('__init__', '__new__', '__post_init__', '__setstate__'):
                    continue
                if recv != selfname and fresh(sfn, recv, node, family):
                    continue
                if recv == selfname and lazy_fill(classes, family, attr, sfn, node):
                    continue
                findings.append(finding(program, smod, squal, node, 'caches', '%s changes, but %s.%s is cached and depends on it' % (attr, cls, fn.name)))
    # a cached list or dictionary is not changed by its users
    for mod, stack, fn in program.functions():
        qual = '.'.join(stack + (fn.name,))
        alias = {}
        for x in walk_own(fn):
            if isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Name):
                a = cached_use(x.value, cached_attrs)
                if a:
                    alias.setdefault(x.targets[0].id, []).append((a, x))
        for x in walk_own(fn):
            tgt = None
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in MUTATORS:
                tgt = x.func.value
            elif isinstance(x, (ast.Assign, ast.Delete)):
                for t in flat(x.targets):
                    if isinstance(t, ast.Subscript):
                        tgt = t.value
            elif isinstance(x, ast.AugAssign):
                tgt = x.target if not isinstance(x.target, ast.Subscript) else x.target.value
            if tgt is None:
                continue
            a = cached_use(tgt, cached_attrs)
            if a is None and isinstance(tgt, ast.Name) and tgt.id in alias and sole_def(fn, tgt.id, alias[tgt.id]):
                if isinstance(x, ast.AugAssign) and not isinstance(x.target, ast.Subscript):
                    continue
                a = alias[tgt.id][0][0]
            if a is not None:
                n['uses of cached values'] += 1
                if isinstance(x, ast.AugAssign) and not isinstance(x.target, ast.Subscript):
                    continue
                findings.append(finding(program, mod, qual, x, 'caches', 'changes the cached value of %s in place' % a))
    return findings, n


def key_of(x, selfname):
    """The place on self that an expression names: (attribute, key or None)."""
    if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == selfname:
        return (x.attr, None)
    if isinstance(x, ast.Subscript) and isinstance(x.slice, ast.Constant) and isinstance(x.value, ast.Attribute):
        k = key_of(x.value, selfname)
        if k:
            return (x.slice.value, None) if k[0] == '__dict__' else (k[0], x.slice.value)
    if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in ('get', 'setdefault') and x.args and isinstance(x.args[0], ast.Constant):
        k = key_of(x.func.value, selfname)
        if k:
            return (x.args[0].value, None) if k[0] == '__dict__' else (k[0], x.args[0].value)
    if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ('getattr', 'hasattr') and len(x.args) >= 2:
        if isinstance(x.args[0], ast.Name) and x.args[0].id == selfname and isinstance(x.args[1], ast.Constant):
            return (x.args[1].value, None)
    return None


def kept_attributes(fn, classes):
    """The places on self in which the function keeps the value it returns,
    to return it again on the next call. Objects with a state of their own
    (readers of files) are not values."""
    if fn.name in ('__init__', '__new__', '__setstate__') or not fn.args.args:
        return set()
    if any(isinstance(d, ast.Attribute) and d.attr in ('setter', 'deleter') for d in fn.decorator_list):
        return set()
    me = fn.args.args[0].arg
    loads, saves, held = set(), {}, {}
    returned, values = set(), set()
    for x in walk_own(fn):
        if isinstance(x, (ast.Attribute, ast.Subscript)) and isinstance(x.ctx, ast.Load) or isinstance(x, ast.Call):
            k = key_of(x, me)
            if k:
                loads.add(k)
        if isinstance(x, ast.Compare) and len(x.ops) == 1 and isinstance(x.ops[0], (ast.In, ast.NotIn)) and isinstance(x.left, ast.Constant):
            k = key_of(x.comparators[0], me)
            if k:
                loads.add((x.left.value, None) if k[0] == '__dict__' else (k[0], x.left.value))
        if isinstance(x, (ast.Assign, ast.AnnAssign)) and x.value is not None:
            ts = x.targets if isinstance(x, ast.Assign) else [x.target]
            names = {t.id for t in ts if isinstance(t, ast.Name)}
            if isinstance(x.value, ast.Name):
                names.add(x.value.id)
            ks = {key_of(t, me) for t in ts} - {None}
            v = x.value
            made = isinstance(v, ast.Call) and ast.unparse(v.func).split('.')[-1] in classes
            if not made and not isinstance(v, ast.Constant) and not (isinstance(v, ast.Name) and v.id == 'NotImplemented'):
                values.update(ks)
            for k in ks:
                saves.setdefault(k, set()).update(names)
            k = key_of(x.value, me)
            if k:
                held.setdefault(k, set()).update(names)
        if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == 'setattr' and len(x.args) == 3:
            if isinstance(x.args[0], ast.Name) and x.args[0].id == me and isinstance(x.args[1], ast.Constant):
                values.add((x.args[1].value, None))
                saves.setdefault((x.args[1].value, None), set()).update({x.args[2].id} if isinstance(x.args[2], ast.Name) else set())
        if isinstance(x, ast.NamedExpr):
            k = key_of(x.value, me)
            if k:
                held.setdefault(k, set()).add(x.target.id)
        if isinstance(x, ast.Return) and x.value is not None:
            k = key_of(x.value, me)
            if k:
                returned.add(k)
            if isinstance(x.value, ast.Name):
                returned.add(x.value.id)
    out = set()
    for k, names in saves.items():
        if k in loads and k in values and (k in returned or returned & names or returned & held.get(k, set())):
            out.add(k)
    return out


def forgets(fn, recv, attr):
    """The function also drops or replaces the attribute of the same object."""
    for x in walk_own(fn):
        ts = x.targets if isinstance(x, (ast.Assign, ast.Delete)) else []
        for t in flat(ts):
            while isinstance(t, ast.Subscript):
                t = t.value
            if isinstance(t, ast.Attribute) and t.attr == attr and isinstance(t.value, ast.Name) and t.value.id == recv:
                return True
    return False


OPENS = {'open', 'Open', 'OpenEx', 'read_text', 'read_bytes', 'imread', 'load_image_shape', 'exists', 'isfile', 'stat', 'is_file'}


def opens_files(program, classes, mod, qual, fn):
    """The call through which the function looks at a file, if any."""
    byname = {}
    for m, stack, f in program.functions():
        if not stack:
            byname.setdefault(f.name, []).append(('', f))
    cls = qual.split('.')[0] if qual.split('.')[0] in classes else None
    todo, seen = [(cls, fn, None)], set()
    while todo:
        c, f, first = todo.pop()
        if id(f) in seen:
            continue
        seen.add(id(f))
        me = f.args.args[0].arg if c and f.args.args else None
        for x in walk_own(f):
            if isinstance(x, ast.Call):
                name = x.func.attr if isinstance(x.func, ast.Attribute) else x.func.id if isinstance(x.func, ast.Name) else None
                if name in OPENS:
                    return first or x
                if isinstance(x.func, ast.Name):
                    todo.extend((None, g, first or x) for _, g in byname.get(name, ()))
            if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and me and x.value.id == me:
                todo.extend((c, g, first or x) for _, g in methods_of(classes, c).get(x.attr, [])[:1])
    return None


def is_table(classes, e):
    """An expression that builds a dictionary."""
    if isinstance(e, (ast.Dict, ast.DictComp)):
        return True
    if isinstance(e, ast.Call):
        t = ast.unparse(e.func).split('.')[-1]
        if t in ('dict', 'OrderedDict', 'defaultdict', 'WeakValueDictionary', 'WeakKeyDictionary'):
            return True
        if t in classes:
            return any(ast.unparse(b).split('.')[-1] in ('dict', 'OrderedDict', 'UserDict', 'defaultdict') for c in ancestry(classes, t) for b in classes[c][1].bases)
    return False


def process_wide(program, classes):
    """Functions whose values are kept for the life of the process."""
    tables, shared = {}, {}
    for mod in program.modules.values():
        for st in mod.tree.body:
            if isinstance(st, (ast.Assign, ast.AnnAssign)) and st.value is not None and is_table(classes, st.value):
                for t in st.targets if isinstance(st, ast.Assign) else [st.target]:
                    if isinstance(t, ast.Name):
                        tables.setdefault(id(mod), set()).add(t.id)
    for c in classes:
        for st in classes[c][1].body:
            if isinstance(st, (ast.Assign, ast.AnnAssign)) and st.value is not None and is_table(classes, st.value):
                for t in st.targets if isinstance(st, ast.Assign) else [st.target]:
                    if isinstance(t, ast.Name):
                        shared.setdefault(c, set()).add(t.id)
    for mod, stack, fn in program.functions():
        qual = '.'.join(stack + (fn.name,))
        cls = stack[-1] if stack and stack[-1] in classes else None
        static = any(ast.unparse(d) in ('staticmethod', 'classmethod') for d in fn.decorator_list)
        if memo_kind(fn) in ('memoize', 'cache', 'lru_cache', '_cache') and (cls is None or static):
            yield mod, qual, fn, 'a cache of the process'
            continue
        local = {a.arg for a in fn.args.args + fn.args.kwonlyargs}
        names = tables.get(id(mod), set()) - local
        for a, d in zip(fn.args.args[::-1], fn.args.defaults[::-1]):
            if is_table(classes, d):
                names = names | {a.arg}
        for a, d in zip(fn.args.kwonlyargs, fn.args.kw_defaults):
            if d is not None and is_table(classes, d):
                names = names | {a.arg}
        attrs = set()
        for c in ancestry(classes, cls) if cls else ():
            attrs |= shared.get(c, set())

        def table(e):
            if isinstance(e, ast.Name) and e.id in names:
                return e.id
            if isinstance(e, ast.Attribute) and e.attr in attrs and isinstance(e.value, (ast.Name, ast.Call)):
                return e.attr
            return None
        loads, saves = set(), set()
        for x in walk_own(fn):
            if isinstance(x, ast.Subscript):
                t = table(x.value)
                if t:
                    (saves if isinstance(x.ctx, ast.Store) else loads).add(t)
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute):
                t = table(x.func.value)
                if t and x.func.attr == 'setdefault':
                    saves.add(t)
                    loads.add(t)
                elif t and x.func.attr in ('get', '__getitem__'):
                    loads.add(t)
                elif t and x.func.attr in ('update', '__setitem__'):
                    saves.add(t)
        for t in sorted(loads & saves):
            yield mod, qual, fn, t


def walk_deep(fn):
    """All nodes of a function, also of nested functions and lambdas."""
    for st in fn.body:
        yield from ast.walk(st)


def receiver_may_be(fn, recv, family):
    for a in fn.args.args:
        if a.arg == recv and a.annotation is not None:
            t = ast.unparse(a.annotation)
            return any(re.search(r'\b%s\b' % c, t) for c in family)
    return False


def fresh(fn, recv, node, family):
    """The receiver was constructed in this function (before)."""
    for x in walk_own(fn):
        if isinstance(x, (ast.Assign, ast.AnnAssign)) and x.value is not None and x.lineno <= node.lineno:
            ts = x.targets if isinstance(x, ast.Assign) else [x.target]
            if any(isinstance(t, ast.Name) and t.id == recv for t in ts) and isinstance(x.value, ast.Call):
                f = x.value.func
                t = ast.unparse(f)
                last = t.split('.')[-1]
                if last in family or last in ('__class__', '__new__', 'cls') or t == 'cls' or re.match(r'type\(', t):
                    return True
    return False


def lazy_fill(classes, family, attr, fn, node):
    """attr starts as None and is filled on demand."""
    if not isinstance(node, ast.Assign):
        return False
    inits = []
    for c in family:
        if c not in classes:
            continue
        for st in classes[c][1].body:
            if isinstance(st, ast.FunctionDef) and st.name == '__init__':
                for x in walk_own(st):
                    if isinstance(x, ast.Assign) and any(isinstance(t, ast.Attribute) and t.attr == attr for t in x.targets):
                        inits.append(isinstance(x.value, ast.Constant) and x.value.value is None)
    if not inits or not all(inits):
        return False
    # the filling function, or all of its callers, test for None
    text = ast.unparse(fn)
    if re.search(r'\.%s is None' % re.escape(attr), text):
        return True
    for c in family:
        if c in classes:
            for st in classes[c][1].body:
                if isinstance(st, ast.FunctionDef):
                    for x in ast.walk(st):
                        if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == fn.name:
                            if not re.search(r'\.%s is None' % re.escape(attr), ast.unparse(st)):
                                return False
    return True


def global_reads(program, mod, fn):
    """Module variables that are assigned from within functions."""
    changed = set()
    for m, stack, f in program.functions():
        if m is not mod:
            continue
        for x in walk_own(f):
            if isinstance(x, ast.Global):
                changed.update(x.names)
    out = []
    local = {a.arg for a in fn.args.args}
    for x in walk_deep(fn):
        if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load) and x.id in changed and x.id not in local:
            out.append((x.id, x))
    return out


def cached_use(e, cached):
    """The cached property or method whose value the expression is."""
    if isinstance(e, ast.Attribute) and e.attr in cached and all(k in ('memoize_property', 'cached_property') for c, k in cached[e.attr]):
        return e.attr
    if isinstance(e, ast.Call):
        f = e.func
        name = f.attr if isinstance(f, ast.Attribute) else f.id if isinstance(f, ast.Name) else None
        if name in cached and all(k not in ('memoize_property', 'cached_property') for c, k in cached[name]):
            return name
    return None


def sole_def(fn, name, defs):
    """The name is only bound by these statements."""
    k = 0
    for x in walk_own(fn):
        if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store) and x.id == name:
            k += 1
    return k == len(defs)
