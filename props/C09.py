"""Sign and definedness queries."""
from common import *

LEVEL = 'proof'
RULE = 'for every disjunct the answer equals the sign condition on numerator * denominator'
ASSUMPTIONS = []

Q = {
    'is_defined': lambda S, a, b: not S.zero(b),
    'is_undefined': lambda S, a, b: S.zero(b),
    'is_positive': lambda S, a, b: not S.zero(b) and S.pos(a * b),
    'is_negative': lambda S, a, b: not S.zero(b) and S.neg(a * b),
    'is_zero': lambda S, a, b: not S.zero(b) and S.zero(a),
    'is_non_negative': lambda S, a, b: not S.zero(b) and not S.neg(a * b),
    'is_non_positive': lambda S, a, b: not S.zero(b) and not S.pos(a * b),
}


def build(tier):
    obls = []
    for rep in WIDE:
        q = query_obls('c09', rep, kinds_for(rep, tier), Q)
        obls += q + lean(q, lambda S: [S.a, S.b])
    return obls


def run(rep, tier):
    rep.add_units(run_units(chunk(build(tier), 'c09', size=60)))
