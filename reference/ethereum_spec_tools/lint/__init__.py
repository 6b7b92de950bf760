import ast
import importlib
import inspect
import pkgutil
from abc import ABCMeta, abstractmethod
from dataclasses import dataclass
from itertools import zip_longest
from typing import Generator, List, Optional, Sequence, Tuple
from ..forks import Hardfork
def compare_ast(old: ast.AST, new: ast.AST) -> bool:
    if type(old) is not type(new):
        return False
    if isinstance(old, ast.Expr) and isinstance(old.value, ast.Constant) and isinstance(old.value.value, str):
        return True
    if isinstance(old, ast.AST):
        for k, v in vars(old).items():
            if k in {'lineno', 'end_lineno', 'col_offset', 'end_col_offset', 'ctx'}:
                continue
            if not compare_ast(v, getattr(new, k)):
                return False
        return True
    elif isinstance(old, list) and isinstance(new, list):
        return all((compare_ast(old_item, new_item) for old_item, new_item in zip_longest(old, new)))
    else:
        return old == new
def walk_sources(fork: Hardfork) -> Generator[Tuple[str, str], None, None]:
    for mod_info in fork.walk_packages():
        mod = importlib.import_module(mod_info.name)
        source = inspect.getsource(mod)
        name = mod.__name__
        if name.startswith(fork.name):
            name = name[len(fork.name):]
        yield (name, source)
@dataclass
class Diagnostic:
    message: str
class Lint(metaclass=ABCMeta):

    @abstractmethod
    def lint(self, forks: List[Hardfork], position: int) -> Sequence[Diagnostic]:
        pass

    def _parse(self, source: str, visitor: ast.NodeVisitor, attr: str) -> Sequence[str]:
        parsed = ast.parse(source)
        visitor.visit(parsed)
        return getattr(visitor, attr)
class Linter:
    lints: Sequence[Lint]

    @staticmethod
    def discover_lints() -> Sequence[Lint]:
        from . import lints
        path = getattr(lints, '__path__', None)
        if path is None:
            return []
        modules = pkgutil.iter_modules(path, lints.__name__ + '.')
        for _, name, _ in modules:
            try:
                importlib.import_module(name)
            except Exception:
                continue
        found = set()
        for subclass in Lint.__subclasses__():
            if inspect.isabstract(subclass):
                continue
            try:
                found.add(subclass())
            except Exception:
                pass
        return list(found)

    def __init__(self, lints: Optional[Sequence[Lint]]=None) -> None:
        if lints is None:
            lints = Linter.discover_lints()
        if not lints:
            raise Exception('no lints specified')
        self.lints = lints

    def run(self) -> int:
        count = 0
        hardforks = Hardfork.discover()
        for lint in self.lints:
            diagnostics: List[Diagnostic] = []
            for hardfork in range(0, len(hardforks)):
                diagnostics += lint.lint(hardforks, hardfork)
                if diagnostics:
                    count += len(diagnostics)
                    print(f'{hardforks[hardfork].name} - {lint.__class__.__name__}:')
                    for diagnostic in diagnostics:
                        print('\t', diagnostic.message)
                    diagnostics = []
        if count > 0:
            print('Total diagnostics:', count)
        return 1 if count > 0 else 0
def main() -> int:
    linter = Linter()
    return linter.run()
