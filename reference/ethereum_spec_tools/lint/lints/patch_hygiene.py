import ast
from typing import List, Optional, OrderedDict, Sequence
from ethereum_spec_tools.forks import Hardfork
from ethereum_spec_tools.lint import Diagnostic, Lint, walk_sources
class PatchHygiene(Lint):

    def lint(self, forks: List[Hardfork], position: int) -> Sequence[Diagnostic]:
        if position == 0:
            return []
        all_previous = dict(walk_sources(forks[position - 1]))
        all_current = dict(walk_sources(forks[position]))
        items = ((k, v, all_previous.get(k, None)) for k, v in all_current.items())
        diagnostics: List[Diagnostic] = []
        for name, current, previous in items:
            diagnostics += self.compare(name, current, previous)
        return diagnostics

    def compare(self, name: str, current_source: str, previous_source: Optional[str]) -> List[Diagnostic]:
        if previous_source is None:
            return []
        current_nodes = self._parse(current_source, _Visitor(), 'items')
        previous_nodes = {item: idx for idx, item in enumerate(self._parse(previous_source, _Visitor(), 'items'))}
        diagnostics: List[Diagnostic] = []
        maximum = None
        for item in current_nodes:
            previous_position = previous_nodes.get(item)
            if previous_position is None:
                continue
            if maximum is None or previous_position > maximum:
                maximum = previous_position
            elif previous_position <= maximum:
                diagnostic = Diagnostic(message=f'the item `{item}` in `{name}` has changed relative positions')
                diagnostics.append(diagnostic)
        return diagnostics
class _Visitor(ast.NodeVisitor):
    path: List[str]
    _items: 'OrderedDict[str, None]'
    in_assign: int

    def __init__(self) -> None:
        self.path = []
        self._items = OrderedDict()
        self.in_assign = 0

    def _insert(self, item: str) -> None:
        item = '.'.join(self.path + [item])
        if item in self._items:
            raise ValueError(f'duplicate path {item}')
        self._items[item] = None

    @property
    def items(self) -> Sequence[str]:
        return list(self._items.keys())

    def visit_AsyncFunctionDef(self, function: ast.AsyncFunctionDef) -> None:
        self._insert(function.name)

    def visit_FunctionDef(self, function: ast.FunctionDef) -> None:
        self._insert(function.name)

    def visit_ClassDef(self, klass: ast.ClassDef) -> None:
        self._insert(klass.name)
        self.path.append(klass.name)
        self.generic_visit(klass)
        got = self.path.pop()
        assert klass.name == got

    def visit_Assign(self, assign: ast.Assign) -> None:
        self.in_assign += 1
        for target in assign.targets:
            self.visit(target)
        self.in_assign -= 1
        self.visit(assign.value)

    def visit_AnnAssign(self, assign: ast.AnnAssign) -> None:
        self.in_assign += 1
        self.visit(assign.target)
        self.in_assign -= 1
        self.visit(assign.annotation)
        if assign.value is not None:
            self.visit(assign.value)

    def visit_Name(self, identifier: ast.Name) -> None:
        if self.in_assign > 0:
            self._insert(identifier.id)
