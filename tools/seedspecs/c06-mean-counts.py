PROPERTY = "C06"
NEEDS = "the mean of lists with NaN or missing values in them"
BREAKS = "the missing values count in the denominator"
EDITS = [('awkward0/array/base.py', """                return self.numpy.true_divide(self.sum(), self.count())
            else:
                return self.numpy.true_divide(self._util_sum(self * weight)""", """                total = self.sum()
                return self.numpy.true_divide(total, self.counts if isinstance(total, self.numpy.ndarray) and hasattr(type(self), "fromcounts") else self.count())
            else:
                return self.numpy.true_divide(self._util_sum(self * weight)""")]
DEMO = """
import awkward0
a = awkward0.fromiter([[1.0, float("nan"), 3.0], [4.0]])
assert a.mean().tolist() == [2.0, 4.0]
"""
