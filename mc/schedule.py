"""
Controlled scheduling of threads inside the library.

Importing this module makes later imports of the library instrumented: a call of
the scheduler is put before every statement of every function, before storing to
anything but a local variable, before each element of a comprehension and into
the branches of conditional expressions. Two real threads then run one at a time;
a schedule says after how many scheduling points the running thread is preempted. Or one call is
interrupted at such a point.
"""

import ast
import importlib.abc
import importlib.machinery
import os
import sys
import threading
import _thread

PACKAGE = "qctrlopencontrols"
GRACE = 0.25
CLEANING = ("__enter__", "__exit__", "__del__")


class Instrument(ast.NodeTransformer):
    def __init__(self, file_number):
        self.file_number = file_number
        self.scopes = []
        # inside code that cleans up, where an interruption cannot be asked to be harmless
        self.cleaning = False

    def place(self, node):
        return ast.Constant(self.file_number * 100000 + getattr(node, "lineno", 0))

    def call(self, node):
        # what was set up just before a try statement is released by it
        arguments = [self.place(node)]
        if self.cleaning or isinstance(node, ast.Try):
            arguments.append(ast.Constant(True))
        return ast.Call(ast.Name("__mc_step__", ast.Load()), arguments, [])

    def step(self, node):
        return ast.copy_location(ast.Expr(self.call(node)), node)

    def wrapped(self, node):
        """The expression with a scheduling point before it."""
        call = self.call(node)
        pair = ast.Tuple([call, node], ast.Load())
        return ast.copy_location(
            ast.Subscript(pair, ast.Constant(1), ast.Load()), node
        )

    def after(self, node):
        """The expression with a scheduling point after it."""
        call = self.call(node)
        pair = ast.Tuple([node, call], ast.Load())
        return ast.copy_location(
            ast.Subscript(pair, ast.Constant(0), ast.Load()), node
        )

    def block(self, body):
        result = []
        for position, statement in enumerate(body):
            documentation = (
                position == 0
                and isinstance(statement, ast.Expr)
                and isinstance(statement.value, ast.Constant)
            )
            if self.scopes and not documentation:
                result.append(self.step(statement))
            result.append(self.visit(statement))
        return result

    def generic_visit(self, node):
        for field, value in ast.iter_fields(node):
            if isinstance(value, list) and value and isinstance(value[0], ast.stmt):
                setattr(node, field, self.block(value))
            elif isinstance(value, list):
                value[:] = [
                    self.visit(item) if isinstance(item, ast.AST) else item
                    for item in value
                ]
            elif isinstance(value, ast.AST):
                setattr(node, field, self.visit(value))
        return node

    def visit_FunctionDef(self, node):
        outer = set()
        for inner in ast.walk(node):
            if isinstance(inner, (ast.Global, ast.Nonlocal)):
                outer |= set(inner.names)
        node.decorator_list = [self.visit(item) for item in node.decorator_list]
        self.scopes.append(outer)
        cleaning, self.cleaning = self.cleaning, node.name in CLEANING
        node.body = self.block(node.body)
        self.cleaning = cleaning
        self.scopes.pop()
        return node

    visit_AsyncFunctionDef = visit_FunctionDef

    def visit_Try(self, node):
        node.body = self.block(node.body)
        node.orelse = self.block(node.orelse)
        cleaning, self.cleaning = self.cleaning, True
        node.handlers = [self.visit(handler) for handler in node.handlers]
        node.finalbody = self.block(node.finalbody)
        self.cleaning = cleaning
        return node

    def visit_ClassDef(self, node):
        scopes, self.scopes = self.scopes, []
        node.body = [self.visit(item) for item in node.body]
        self.scopes = scopes
        return node

    def visit_Lambda(self, node):
        node.body = self.wrapped(self.visit(node.body))
        return node

    def shared(self, target):
        if isinstance(target, ast.Name):
            return any(target.id in scope for scope in self.scopes)
        if isinstance(target, (ast.Tuple, ast.List)):
            return any(self.shared(item) for item in target.elts)
        return True

    def visit_Assign(self, node):
        self.generic_visit(node)
        if self.scopes and any(self.shared(target) for target in node.targets):
            node.value = self.after(node.value)
        return node

    def visit_AugAssign(self, node):
        self.generic_visit(node)
        if self.scopes and self.shared(node.target):
            node.value = self.after(node.value)
        return node

    def comprehension(self, node):
        self.generic_visit(node)
        node.elt = self.wrapped(node.elt)
        return node

    visit_ListComp = visit_SetComp = visit_GeneratorExp = comprehension

    def visit_DictComp(self, node):
        self.generic_visit(node)
        node.value = self.wrapped(node.value)
        return node

    def visit_IfExp(self, node):
        self.generic_visit(node)
        node.body = self.wrapped(node.body)
        node.orelse = self.wrapped(node.orelse)
        return node

    def visit_BoolOp(self, node):
        self.generic_visit(node)
        node.values = node.values[:1] + [self.wrapped(item) for item in node.values[1:]]
        return node


class Loader(importlib.machinery.SourceFileLoader):
    files = []

    def source_to_code(self, data, path, *, _optimize=-1):
        if path not in self.files:
            self.files.append(path)
        tree = ast.parse(data, path)
        tree = Instrument(self.files.index(path) + 1).visit(tree)
        ast.fix_missing_locations(tree)
        return compile(tree, path, "exec", dont_inherit=True, optimize=_optimize)

    def exec_module(self, module):
        module.__dict__["__mc_step__"] = step
        super().exec_module(module)


class Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, name, path=None, target=None):
        if name != PACKAGE and not name.startswith(PACKAGE + "."):
            return None
        spec = importlib.machinery.PathFinder.find_spec(name, path, target)
        if spec is not None and isinstance(
            spec.loader, importlib.machinery.SourceFileLoader
        ):
            spec.loader = Loader(spec.loader.name, spec.loader.path)
        return spec


class Run:
    """Two functions under one schedule."""

    current = None

    def __init__(self, functions, quotas):
        self.functions = functions
        self.quotas = list(quotas)
        self.gates = [_thread.allocate_lock() for _ in functions]
        for gate in self.gates:
            gate.acquire()
        self.alive = [True] * len(functions)
        self.numbers = {}
        self.results = [None] * len(functions)
        self.steps = [0] * len(functions)
        self.places = []
        self.trace = []
        self.remaining = None
        self.free = False
        self.finished = _thread.allocate_lock()
        self.finished.acquire()
        self.waiting = [False] * len(functions)
        self.switches = 0

    def body(self, me):
        self.gates[me].acquire()
        self.numbers[_thread.get_ident()] = me
        try:
            self.results[me] = ("returned", self.functions[me]())
        except BaseException as error:  # pylint: disable=broad-except
            self.results[me] = ("raised", error)
        self.alive[me] = False
        self.numbers.pop(_thread.get_ident(), None)
        for other in range(len(self.functions)):
            if self.alive[other]:
                self.hand_over(other)
                return
        self.finished.release()

    def next_quota(self):
        return self.quotas.pop(0) if self.quotas else None

    def hand_over(self, other):
        self.remaining = self.next_quota()
        self.switches += 1
        try:
            self.gates[other].release()
        except RuntimeError:
            pass

    def switch(self, me, place):
        """Gives the turn to the other thread and waits for it to come back."""
        if self.free:
            return
        others = [i for i in range(len(self.functions)) if i != me and self.alive[i]]
        if not others:
            self.remaining = None
            return
        self.places.append((me, place))
        self.waiting[me] = True
        self.hand_over(others[0])
        while not self.gates[me].acquire(timeout=GRACE):
            # is the other thread waiting for something that this one holds?
            seen = list(self.steps)
            if self.gates[me].acquire(timeout=GRACE):
                break
            if seen == self.steps:
                self.free = True
                break
        self.waiting[me] = False

    def run(self):
        Run.current = self
        for me in range(len(self.functions)):
            _thread.start_new_thread(self.body, (me,))
        self.remaining = self.next_quota()
        self.gates[0].release()
        self.finished.acquire()
        Run.current = None
        return self.results


class Interrupted(KeyboardInterrupt):
    """The user has pressed the interrupt key."""


class Interruption:
    """A function that is interrupted at one of its scheduling points."""

    current = None

    def __init__(self, point=None):
        self.point = point
        # whether the point lies in code that cleans up, and where it is
        self.trace = []
        self.place = None

    def run(self, function, *arguments, **keywords):
        Interruption.current = self
        try:
            return function(*arguments, **keywords)
        finally:
            Interruption.current = None

    def step(self, place, cleaning):
        number = len(self.trace)
        self.trace.append((place, cleaning))
        if number == self.point:
            self.place = place
            raise Interrupted()


def place_name(place):
    return "{}:{}".format(
        os.path.basename(Loader.files[place // 100000 - 1]), place % 100000
    )


def step(place, cleaning=False):
    if Interruption.current is not None:
        Interruption.current.step(place, cleaning)
        return
    run = Run.current
    if run is None:
        return
    me = run.numbers.get(_thread.get_ident())
    if me is None:
        return
    run.steps[me] += 1
    if me == 0:
        run.trace.append(place)
    if run.remaining is not None:
        run.remaining -= 1
        if run.remaining < 0:
            run.remaining = None
            run.switch(me, place)


class CooperativeLock:
    """A lock of the library: waiting for it gives the turn to the other thread."""

    def __init__(self, reentrant):
        self.reentrant = reentrant
        self.owner = None
        self.depth = 0
        self.real = _thread.allocate_lock()

    def acquire(self, blocking=True, timeout=-1):
        me = _thread.get_ident()
        if self.reentrant and self.owner == me:
            self.depth += 1
            return True
        while not self.real.acquire(False):
            if not blocking:
                return False
            run = Run.current
            number = None if run is None else run.numbers.get(me)
            if number is None or run.free:
                if not self.real.acquire(True, timeout):
                    return False
                break
            run.switch(number, 0)
            if not any(
                alive for other, alive in enumerate(run.alive) if other != number
            ):
                run.free = True
        self.owner = me
        self.depth = 1
        return True

    def release(self):
        self.depth -= 1
        if self.depth == 0:
            self.owner = None
            self.real.release()

    def locked(self):
        return self.real.locked()

    __enter__ = acquire

    def __exit__(self, *details):
        self.release()


def _factory(original, reentrant):
    def make(*arguments, **keywords):
        name = sys._getframe(1).f_globals.get("__name__", "")
        if name == PACKAGE or name.startswith(PACKAGE + "."):
            return CooperativeLock(reentrant)
        return original(*arguments, **keywords)

    return make


threading.Lock = _factory(threading.Lock, False)
threading.RLock = _factory(threading.RLock, True)
sys.meta_path.insert(0, Finder())
