"""Uniform draws for Hypothesis.

Hypothesis draws bounded integers (and with them the branches of one_of and the elements of sampled_from) from a
distribution with a sharp peak at zero, and then mutates earlier cases; half of the cases of these checks were duplicates,
and later branches were rare. This backend draws small ranges uniformly; shrinking is left to Hypothesis.
"""
from hypothesis.internal.conjecture import providers
from hypothesis.internal.conjecture.providers import HypothesisProvider

UNIFORM_BELOW = 1 << 17


class UniformProvider(HypothesisProvider):
    def _maybe_draw_constant(self, choice_type, constraints, *, p=0.05):
        if choice_type == 'integer' and small(constraints['min_value'], constraints['max_value']):
            return None
        return super()._maybe_draw_constant(choice_type, constraints, p=p)

    def _draw_integer_from_distribution(self, min_value, max_value):
        if small(min_value, max_value):
            return self._random.randint(min_value, max_value)
        if min_value is not None and max_value is not None:
            k = self._random.randrange(8)
            if k < 3:
                return self._random.randint(min_value, max_value)
            if k < 6:        # every magnitude counts the same
                lo, hi = self._bits(min_value), self._bits(max_value)
                n = self._random.randint(min(lo, hi), max(lo, hi)) if lo * hi > 0 else self._random.randint(min(lo, hi, 0), max(lo, hi, 0))
                v = self._random.getrandbits(abs(n)) if n else 0
                return min(max_value, max(min_value, -v if n < 0 else v))
            if k == 6:
                return self._random.choice([min_value, min_value + 1, max_value - 1, max_value])
        return super()._draw_integer_from_distribution(min_value, max_value)

    @staticmethod
    def _bits(v):
        return v.bit_length() if v >= 0 else -v.bit_length()


def small(lo, hi):
    return lo is not None and hi is not None and hi - lo < UNIFORM_BELOW


providers.AVAILABLE_PROVIDERS['kolombos-uniform'] = 'vlib.provider.UniformProvider'
NAME = 'kolombos-uniform'
