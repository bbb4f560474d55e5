"""Loading of the analysed sources."""
import ast
import os


class ModuleSrc:
    def __init__(self, name, path, text):
        self.name = name
        self.path = path
        self.text = text
        self.tree = ast.parse(text, path)


class Program:
    """All modules of the package, parsed."""

    def __init__(self, root='/repo', package='delayed_image'):
        self.root = root
        self.package = package
        self.modules = {}
        base = os.path.join(root, package)
        for dirpath, dirnames, filenames in os.walk(base):
            dirnames[:] = sorted(d for d in dirnames if d != '__pycache__')
            for fn in sorted(filenames):
                if not fn.endswith('.py'):
                    continue
                path = os.path.join(dirpath, fn)
                rel = os.path.relpath(path, root)[:-3].replace(os.sep, '.')
                if rel.endswith('.__init__'):
                    rel = rel[:-len('.__init__')]
                with open(path, encoding='utf8') as f:
                    self.modules[rel] = ModuleSrc(rel, path, f.read())

    def relpath(self, path):
        return os.path.relpath(path, self.root)

    def functions(self):
        """Yield (module, class qualname or None, FunctionDef)."""
        for mod in self.modules.values():
            yield from _functions(mod, mod.tree, ())

    def classes(self):
        for mod in self.modules.values():
            for node in ast.walk(mod.tree):
                if isinstance(node, ast.ClassDef):
                    yield mod, node


def _functions(mod, node, stack):
    for child in ast.iter_child_nodes(node):
        if isinstance(child, (ast.FunctionDef, ast.AsyncFunctionDef)):
            yield mod, stack, child
            yield from _functions(mod, child, stack + (child.name,))
        elif isinstance(child, ast.ClassDef):
            yield from _functions(mod, child, stack + (child.name,))
        else:
            yield from _functions(mod, child, stack)
