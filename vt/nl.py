"""What a gradient-based solver reads: the problem in NL format, written by the modelling library and evaluated here.

Every operation is evaluated together with the local derivatives a solver needs (first and second); places where these do not
exist (root of zero, logarithm or quotient of zero, ...) are recorded, as the solver library stops there.
"""

import io
import math
import warnings

import numpy as np

UNARY = {15: "abs", 16: "neg", 39: "sqrt", 41: "sin", 42: "log10", 43: "log", 44: "exp", 46: "cos", 38: "tan", 40: "sinh", 45: "cosh", 37: "tanh"}
BINARY = {0: "+", 1: "-", 2: "*", 3: "/", 5: "^"}


class Unsupported(Exception):
    pass


class Problem:
    def __init__(self, model):
        from pyomo.repn.plugins.nl_writer import NLWriter

        out = io.StringIO()
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            self.info = NLWriter().write(model, out)
        self.variables = [v[0] if isinstance(v, tuple) else v for v in self.info.variables]
        self.lines = out.getvalue().splitlines()
        self.n = len(self.variables)
        self.start = [None] * self.n
        self.bounds = [None] * self.n
        self.constraints = {}  # number -> nonlinear part
        self.objective = None
        self.minimise = None
        self.linear = {}  # number -> [(variable, coefficient)]
        self.objective_linear = []
        self.ranges = []
        self.defined = {}  # number -> (linear part, expression)
        self.suffixes = []
        self._read()

    def _read(self):
        L = [x.split("#")[0].strip() for x in self.lines]
        head = L[1].split()
        self.n_file, self.m, self.n_objectives = int(head[0]), int(head[1]), int(head[2])
        k = 10
        while k < len(L):
            s = L[k]
            if not s:
                k += 1
                continue
            kind, rest = s[0], s[1:].split()
            k += 1
            if kind == "C":
                self.constraints[int(rest[0])], k = self._expression(L, k)
            elif kind == "O":
                if self.objective is not None:
                    raise Unsupported("several objectives")
                self.minimise = int(rest[1]) == 0
                self.objective, k = self._expression(L, k)
            elif kind == "V":
                linear = []
                for _ in range(int(rest[1])):
                    i, c = L[k].split()
                    linear.append((int(i), float(c)))
                    k += 1
                e, k = self._expression(L, k)
                self.defined[int(rest[0])] = (linear, e)
            elif kind == "x":
                for _ in range(int(rest[0])):
                    i, v = L[k].split()
                    self.start[int(i)] = float(v)
                    k += 1
            elif kind in "br":
                count = self.n_file if kind == "b" else self.m
                for i in range(count):
                    f = L[k].split()
                    k += 1
                    lo, hi = -math.inf, math.inf
                    if f[0] == "0":
                        lo, hi = float(f[1]), float(f[2])
                    elif f[0] == "1":
                        hi = float(f[1])
                    elif f[0] == "2":
                        lo = float(f[1])
                    elif f[0] == "4":
                        lo = hi = float(f[1])
                    elif f[0] != "3":
                        raise Unsupported(f"bound {f}")
                    if kind == "b":
                        self.bounds[i] = (lo, hi)
                    else:
                        self.ranges.append((lo, hi))
            elif kind in "JG":
                entries = []
                for _ in range(int(rest[1])):
                    i, c = L[k].split()
                    entries.append((int(i), float(c)))
                    k += 1
                if kind == "J":
                    self.linear[int(rest[0])] = entries
                else:
                    self.objective_linear = entries
            elif kind == "k":
                k += int(rest[0])
            elif kind == "S":
                self.suffixes.append(rest)
                k += int(rest[1])
            elif kind == "d":
                k += int(rest[0])
            else:
                raise Unsupported(f"segment {s}")

    def _expression(self, L, k):
        """One expression in prefix order, as a list of instructions (op, arguments) in evaluation order."""
        program, stack = [], []  # stack: [op, arguments still missing, slots of the arguments]

        def finish(slot):
            while stack:
                top = stack[-1]
                top[2].append(slot)
                top[1] -= 1
                if top[1]:
                    return False
                stack.pop()
                program.append((top[0], top[2]))
                slot = len(program) - 1
            return True

        while True:
            s = L[k]
            k += 1
            c = s[0]
            if c == "n":
                program.append(("const", float(s[1:])))
            elif c == "v":
                program.append(("var", int(s[1:])))
            elif c == "o":
                op = int(s[1:])
                if op == 54:
                    count = int(L[k])
                    k += 1
                    stack.append(["sum", count, []])
                elif op in BINARY:
                    stack.append([BINARY[op], 2, []])
                elif op in UNARY:
                    stack.append([UNARY[op], 1, []])
                else:
                    raise Unsupported(f"operation {op}")
                continue
            else:
                raise Unsupported(f"expression line {s}")
            if finish(len(program) - 1):
                return program, k

    # -- evaluation -----------------------------------------------------------------------------------------

    def run(self, program, x, singular=None):
        """Values for x of shape (n, K). singular: list that takes descriptions of operations without derivatives."""
        v = []

        def note(bad, what):
            if singular is not None and np.any(bad):
                singular.append(what)

        with np.errstate(all="ignore"):
            for op, a in program:
                if op == "const":
                    v.append(a)
                    continue
                if op == "var":
                    if a < self.n_file:
                        v.append(x[a])
                    else:
                        linear, e = self.defined[a]
                        v.append(self.run(e, x, singular) + sum(c * (x[i] if i < self.n_file else self.run([("var", i)], x)) for i, c in linear))
                    continue
                p = v[a[0]]
                q = v[a[1]] if len(a) > 1 else None
                if op == "sum":
                    r = p
                    for j in a[1:]:
                        r = r + v[j]
                elif op == "+":
                    r = p + q
                elif op == "-":
                    r = p - q
                elif op == "*":
                    r = p * q
                elif op == "/":
                    note(np.asarray(q) == 0, "a division by zero")
                    r = p / q
                elif op == "^":
                    constant = program[a[1]][0] == "const"
                    if constant and q == int(q) and q >= 0:
                        pass
                    elif constant and q >= 2:
                        note(np.asarray(p) < 0, f"a negative number to the power {q}")
                    elif constant and q == int(q):
                        note(np.asarray(p) == 0, f"zero to the power {q}")
                    else:
                        note(np.asarray(p) <= 0, "a number not positive to a power that is not whole")
                    r = np.power(np.asarray(p, float), q)
                elif op == "neg":
                    r = -p
                elif op == "sqrt":
                    note(np.asarray(p) <= 0, "the root of a number that is not positive")
                    r = np.sqrt(p)
                elif op in ("log", "log10"):
                    note(np.asarray(p) <= 0, "the logarithm of a number that is not positive")
                    r = getattr(np, op)(p)
                elif op == "abs":
                    note(np.asarray(p) == 0, "the modulus of zero")
                    r = np.abs(p)
                else:
                    r = getattr(np, op)(p)
                v.append(r)
        return v[-1]

    def value(self, x, singular=None):
        """Objective (to be minimised) for x of shape (K, n_file)."""
        x = np.asarray(x, float).T
        r = self.run(self.objective, x, singular) + sum((c * x[i] for i, c in self.objective_linear), np.zeros(x.shape[1]))
        return r if self.minimise else -r

    def constraint_values(self, x):
        x = np.asarray(x, float).T
        return [self.run(self.constraints[k], x) + sum((c * x[i] for i, c in self.linear.get(k, ())), np.zeros(x.shape[1])) for k in range(self.m)]
