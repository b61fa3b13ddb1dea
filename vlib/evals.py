"""Evaluators that report what the harness says, through whichever public entry the code under test asks."""
import threading


def scripted(ir):
    """An Evaluator class whose every public way of scoring a model ends in one call of measure(model) -> {metric: value}.

    Whether a caller asks get_target_score, get_score or get_scores, and whether one of them is written in terms of another,
    is the code's own affair: one question asked is one measurement."""
    class Scripted(ir.Evaluator):
        def measure(self, model):
            raise NotImplementedError

        def measured(self, model):
            """The metrics of the real evaluator, asked without being measured again."""
            local = self.__dict__.setdefault("_local", threading.local())
            local.inside = True
            try:
                return dict(super().get_score(model))
            finally:
                local.inside = False

        def _inside(self):
            return getattr(self.__dict__.get("_local"), "inside", False)

        def get_target_score(self, model):
            return super().get_target_score(model) if self._inside() else self.measure(model)[self.target_metric.name]

        def get_score(self, model):
            return super().get_score(model) if self._inside() else self.measure(model)

        def get_scores(self, model, cutoffs):
            if self._inside():
                return super().get_scores(model, cutoffs)
            s = self.measure(model)
            return {f"{k}@{c}": v for c in cutoffs for k, v in s.items()}
    return Scripted
