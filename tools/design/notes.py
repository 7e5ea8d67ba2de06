N = {
 'C36': '''Why the local rules suffice: let the digits be ordered as the rule establishes (dependent sets, sets, ranges; within a kind by
 its order of digits), the number of values of a digit be its radix, which is positive and, for a dependent set, may depend on a later digit that
 does not move while the earlier ones run. One call moves the first digit; a digit that moves on ends the call; one that starts again passes
 on to the next, so that a call maps the tuple of digits to its successor in the lexicographic order with the last digit most significant.
 All digits begin with their first value, the end is set exactly when the last one starts again: hence every tuple occurs once, by induction on
 the number of digits. The value of a range takes its first value plus multiples of its step below its limit, and the block of a position is
 [value, value + step) cut at the limit, so that the blocks of a range are a partition of it. Steps multiply to at most the package size because each
 divides (rounding down) what is left. Whether the sets of a digit contain repetitions, or depend on digits of another kind, is not decided by this rule: C30
 decides it for the families that are really built. Products that number of values and packages could overflow are not considered.''',
 'C27': 'The general iteration of the loops that count is taken from the interpreter; the number left in the entry must be a sum of constants and of what those loops add.',
 'C26': 'Codes are read as powers of the generator, with one more code for zero; the two tables have the meaning that C32 establishes. For FLINT values the ring operations are read symbolically.',
}
CAUGHT = {}
