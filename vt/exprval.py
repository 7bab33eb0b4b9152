"""Values of solver expressions at many assignments of the unknowns at once.

Expressions are evaluated as a graph (every shared node once) with numpy arrays at the leaves. An expression with a node of
unknown kind is evaluated by the modelling library itself, one assignment after the other.
"""

import numpy as np
import pyomo.environ as pyo
from pyomo.core.expr.numvalue import native_numeric_types

UNARY = {"exp": np.exp, "log": np.log, "log10": np.log10, "sqrt": np.sqrt, "sin": np.sin, "cos": np.cos, "tan": np.tan,
         "abs": np.abs}


class Unknown(Exception):
    pass


def _apply(node, values):
    from pyomo.core.expr import numeric_expr as ne

    if node.is_named_expression_type():
        return values[0]
    name = type(node).__name__
    if "UnaryFunction" in name:
        f = UNARY.get(node.getname())
        if f is None:
            raise Unknown(node.getname())
        return f(values[0])
    if "Abs" in name:
        return np.abs(values[0])
    if isinstance(node, (ne.SumExpression, ne.LinearExpression)):
        out = 0.0
        for v in values:
            out = out + v
        return out
    if isinstance(node, (ne.ProductExpression, ne.DivisionExpression, ne.PowExpression, ne.NegationExpression)):
        return node._apply_operation(values)
    raise Unknown(name)


class Tape:
    """An expression as a straight-line program; leaves (variables, parameters) are read at every evaluation."""

    def __init__(self, expr):
        self.expr = expr
        self.fixed = True  # no named expression, whose content could be replaced
        self.leaves = []  # (slot, node)
        self.consts = []  # (slot, value)
        self.ops = []  # (slot, node, slots of the arguments)
        self.n = 0
        self._slots = {}
        self._keep = []  # argument lists are created on the fly: keep them, so that identities stay unique
        self.root = self._build(expr)

    def _new(self):
        self.n += 1
        return self.n - 1

    def _simple(self, node):
        """Slot of a constant, leaf or known node; None for an expression still to be built."""
        if node.__class__ in native_numeric_types:
            slot = self._new()
            self.consts.append((slot, node))
            return slot
        slot = self._slots.get(id(node))
        if slot is None and not node.is_expression_type():
            slot = self._slots[id(node)] = self._new()
            self.leaves.append((slot, node))
        return slot

    def _build(self, expr):
        slot = self._simple(expr)
        if slot is not None:
            return slot
        stack = [(expr, None)]
        while stack:
            node, args = stack.pop()
            if id(node) in self._slots:
                continue
            if args is None:
                args = list(node.args)
                self._keep.append((node, args))
                if node.is_named_expression_type():
                    self.fixed = False
                stack.append((node, args))
                for a in args:
                    if a.__class__ not in native_numeric_types and self._simple(a) is None:
                        stack.append((a, None))
            else:
                slots = [self._simple(a) for a in args]
                slot = self._slots[id(node)] = self._new()
                self.ops.append((slot, node, slots))
        return self._slots[id(expr)]

    def run(self, override):
        v = [None] * self.n
        for slot, c in self.consts:
            v[slot] = c
        for slot, node in self.leaves:
            x = override.get(id(node))
            v[slot] = pyo.value(node) if x is None else x
        for slot, node, slots in self.ops:
            v[slot] = _apply(node, [v[s] for s in slots])
        return v[self.root]


_tapes = {}


def _tape(expr):
    t = _tapes.get(id(expr))
    if t is None:
        t = Tape(expr)
        if t.fixed:
            while len(_tapes) >= 4:
                _tapes.pop(next(iter(_tapes)))
            _tapes[id(expr)] = t
    return t


def evaluate(expr, variables, assignments):
    """assignments: array (K, number of variables) -> array (K,)."""
    assignments = np.atleast_2d(np.asarray(assignments, float))
    override = {id(v): assignments[:, k] for k, v in enumerate(variables)}
    try:
        with np.errstate(all="ignore"):
            out = _value(expr, override)
    except Unknown:
        out = _slowly(expr, variables, assignments)
    return np.broadcast_to(np.asarray(out, float), (len(assignments),)).copy()


def _value(expr, override):
    if expr.__class__ in native_numeric_types:
        return expr
    if id(expr) in override:
        return override[id(expr)]
    return _tape(expr).run(override)


def _slowly(expr, variables, assignments):
    old = [v.value for v in variables]
    out = []
    for row in assignments:
        for v, x in zip(variables, row):
            v.set_value(float(x), skip_validation=True)
        out.append(pyo.value(expr))
    for v, x in zip(variables, old):
        v.set_value(x, skip_validation=True)
    return np.array(out)
