"""Stand-ins for the components a user plugs into the optimizers."""
import numpy as np
from qiskit.algorithms import MinimumEigensolver, MinimumEigensolverResult

from qiskit_optimization.algorithms import OptimizationAlgorithm, OptimizationResult, OptimizationResultStatus, SolutionSample


class FixedEigensolver(MinimumEigensolver):
    """Returns the given eigenstate; remembers the operators it was asked about."""

    def __init__(self, make_state):
        self.make_state = make_state
        self.operators = []

    def compute_minimum_eigenvalue(self, operator, aux_operators=None):
        self.operators.append(operator)
        res = MinimumEigensolverResult()
        res.eigenstate = self.make_state(operator)
        res.eigenvalue = 0.0
        return res

    @classmethod
    def supports_aux_operators(cls):
        return True


class NoStateSupport(FixedEigensolver):
    @classmethod
    def supports_aux_operators(cls):
        return False


def _status(problem, x):
    return OptimizationResultStatus.SUCCESS if problem.is_feasible(x) else OptimizationResultStatus.INFEASIBLE


class StubOptimizer(OptimizationAlgorithm):
    """Answers with what the given function returns: a list of (x, probability)."""

    def __init__(self, answer, msg="", status=None):
        self.answer = answer
        self.msg = msg
        self.status = status
        self.problems = []

    def get_compatibility_msg(self, problem):
        return self.msg

    def solve(self, problem):
        import copy
        self.problems.append(copy.deepcopy(problem))
        rows = self.answer(problem)
        samples = []
        for x, prob in rows:
            x = np.asarray(x)
            samples.append(SolutionSample(x, problem.objective.evaluate(x), prob, _status(problem, x)))
        best = samples[0]
        return OptimizationResult(best.x, best.fval, problem.variables, self.status or best.status, samples=samples)


class DiagonalSolver(FixedEigensolver):
    """Exact and deterministic: weights on the lowest basis states, the ground states first."""

    def __init__(self, levels=3):
        super().__init__(self._state)
        self.levels = levels

    def _state(self, op):
        diag = np.round(np.real(np.diag(op.to_matrix())), 6)
        order = np.argsort(diag, kind="stable")[:self.levels]
        vec = np.zeros(len(diag))
        for k, i in enumerate(order):
            vec[i] = 2.0 ** (-k)
        return vec / np.linalg.norm(vec)
