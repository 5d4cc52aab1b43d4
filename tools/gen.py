#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (development tool; both are committed)."""
import json
import os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
H = 'include/ieme/'

AI = 'abstract interpretation of the compiled IR (sign/polynomial disjuncts)'
TY = 'type-level witnesses decided by the type checker (static_assert, overload resolution)'


def P(id, title, statement, over, text, why, files, mech, tech, note, observe=None):
    return dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
                why_tests_cant=why,
                anchors=dict(files=[H + f for f in files],
                             mechanism=[dict(name=n, where=H + w) for n, w in mech],
                             observe_at=observe or [], hook_needed=None),
                _tech=tech, _note=note)


WHY = ('The quantifier is over all inputs and all policies; the tests evaluate a handful of fixed operand pairs per '
       'operator, mostly positive and small.')
NOTE = ('For all operand values at once: the driver of each operator, policy and operand shape is interpreted over '
        'symbolic operands; an obligation is discharged when the predicate holds in every disjunct. '
        'Trusts clang 18 and the transfer functions in engine/.')

PROPS = [
    P('C01', 'Arithmetic is exact under every policy',
      'For defined operands (and a nonzero divisor for division and remainder), +, -, *, /, %, unary minus and their '
      'compound assignments give a defined fraction whose value is exactly that of the rational operation (the '
      'remainder truncating towards zero), whichever arithmetic policy the fractions use and whether an operand is a '
      'fraction or a plain integer. This holds whenever the cross products (under the safe policies: the terms scaled '
      'to the least common denominator) and the result are representable in the number type.',
      ['inputs', 'configurations'], 'all operand values whose computation stays representable, all policies',
      WHY, ['ops.hpp', 'fraction.hpp', 'raw_fraction_math.hpp'],
      [('policy operations', 'ops.hpp'), ('operator templates', 'fraction.hpp'), ('reduction', 'raw_fraction_math.hpp')],
      AI, NOTE),
    P('C02', 'Undefined operands and zero divisors give undefined results',
      'If an operand of +, -, *, /, % or unary minus is undefined (zero denominator), or a division or remainder has a '
      'zero divisor, the result is undefined, whatever the number types of the operands. The operation returns normally: it '
      'never divides by zero in the processor, traps or aborts.',
      ['inputs', 'configurations'], 'all operands with a zero denominator or a zero divisor, all policies',
      'The tests try one undefined operand for a few operators; a trap shows only for particular zero patterns under '
      'particular policies.',
      ['ops.hpp', 'fraction.hpp', 'raw_fraction_math.hpp'],
      [('policy operations', 'ops.hpp'), ('reduction', 'raw_fraction_math.hpp')], AI, NOTE),
    P('C03', 'Comparisons follow the order of the rational numbers',
      '==, !=, <, <=, > and >= between defined fractions, or a fraction and an integer, answer exactly as the rational '
      'numbers they denote compare, whatever the signs of the denominators, the form of the fractions and the policy. '
      'This holds whenever the cross products (under the safe policies: the terms scaled to the least common '
      'denominator) are representable in the number type.',
      ['inputs', 'configurations'], 'all defined operands, all six comparisons, all policies',
      WHY, ['ops.hpp', 'fraction.hpp'], [('comparison operations', 'ops.hpp'), ('operator templates', 'fraction.hpp')],
      AI, NOTE),
    P('C04', 'Undefined compares unequal to everything',
      'When either operand is undefined, ==, <, <=, > and >= are false and != is true, like a NaN, whatever the number '
      'types of the operands. The comparison never traps.',
      ['inputs', 'configurations'], 'all operands with a zero denominator on either side, all policies',
      'The tests compare one or two undefined fractions; a trap or a wrong answer needs particular numerators or policy '
      'nestings.',
      ['ops.hpp', 'fraction.hpp'], [('comparison operations', 'ops.hpp')], AI, NOTE),
    P('C05', 'Policies that reduce their output deliver lowest terms',
      'Under a policy that reduces its output with sign normalisation, every arithmetic result that is defined has '
      'coprime terms and a positive denominator (a zero result is 0/1), so equal results are identical. Undefined '
      'results keep a zero denominator.',
      ['inputs', 'configurations'], 'all operands, all output-reducing policies and operators',
      WHY, ['ops.hpp', 'raw_fraction_math.hpp'], [('reduced output policy', 'ops.hpp'), ('reduction', 'raw_fraction_math.hpp')],
      AI, NOTE),
    P('C06', 'Safe arithmetic forms no intermediate larger than it must',
      'Under the safe policy no intermediate product is formed beyond what the least common denominator and the result '
      'need: addition, subtraction, remainder and comparison scale operands to the least common denominator only, and '
      'input-reducing policies compute on operands in lowest terms. So a computation overflows only if those scaled '
      'operands or its own result do.',
      ['inputs', 'configurations'], 'all defined operands, every path of every operator of the safe and input-reducing policies',
      'Whether an intermediate exceeds the bound shows only for operands near the limits of the type with a common '
      'factor; tests use small operands, where every variant agrees.',
      ['ops.hpp', 'raw_fraction_math.hpp'], [('common denominator', 'raw_fraction_math.hpp'), ('reduced input policy', 'ops.hpp')],
      AI, NOTE),
    P('C07', 'Mixed number types compute in the common type; assignment aliases safely',
      'Operations between fractions (or a fraction and an integer) of different number types are carried out in the '
      'common type, whose fraction is also the type of the result, and no operand loses value on the way. Compound '
      'assignment converts its right operand to the number type of its left one, stores the value of the operation into the '
      'left operand and returns a reference to it, also when both operands are the same object.',
      ['inputs', 'programs', 'configurations'], 'all pairs of integer types, operators, policies, operand values and aliasing',
      'Tests instantiate a few type pairs with small values, for which a conversion through a narrower type is invisible.',
      ['fraction.hpp', 'raw_fraction.hpp'], [('operator templates and their conversions', 'fraction.hpp')],
      AI + '; ' + TY, NOTE),
    P('C08', 'Fractions of different policies never mix silently',
      'An expression that combines fractions (or mixed numbers) of two different arithmetic policies with an operator, '
      'a comparison, an assignment or an implicit conversion does not compile; only an explicit conversion crosses '
      'policies. The explicit conversion keeps numerator and denominator unchanged.',
      ['programs', 'configurations'], 'all pairs of different policies, operators, and operand kinds',
      'That a program is rejected cannot be expressed in a test that has to compile.',
      ['fraction.hpp', 'mixed_number.hpp', 'ops.hpp'],
      [('deleted operators between policies', 'fraction.hpp'), ('explicit converting constructor', 'fraction.hpp')],
      TY + '; ' + AI, 'Enumerates policies x operators x kinds; the compiler decides well-formedness of each expression.'),
    P('C09', 'Sign and definedness queries are right for every representation',
      'Queries for zero, positive, negative, defined and undefined answer according to the rational value denoted by '
      'numerator and denominator, for any combination of signs, on fractions and raw fractions alike. Undefined '
      'fractions are neither zero, positive nor negative.',
      ['inputs', 'configurations'], 'all numerators and denominators',
      WHY, ['fraction_queries.hpp', 'raw_fraction_queries.hpp'],
      [('queries', 'raw_fraction_queries.hpp'), ('queries on fractions', 'fraction_queries.hpp')], AI, NOTE),
    P('C10', 'Structural queries mean what they say',
      'Queries for integer, unit fraction, proper, improper and reduced form, and for identity or difference of '
      'representation, answer exactly by the arithmetic property they name, for every combination of signs (terms of '
      'representable magnitude). They never trap on zero denominators.',
      ['inputs', 'configurations'], 'all numerators and denominators of representable magnitude (the lowest number has no opposite)',
      WHY, ['fraction_queries.hpp', 'raw_fraction_queries.hpp', 'math_utilities.hpp'],
      [('queries', 'raw_fraction_queries.hpp')], AI, NOTE),
    P('C11', 'Reduction, sign normalisation, reciprocal and absolute value',
      'Reducing gives lowest terms with the same value (a positive denominator when signs are normalised), normalising '
      'signs makes the denominator positive, reciprocal gives the inverse value and absolute value the magnitude. '
      'Undefined fractions stay undefined and nothing traps.',
      ['inputs', 'configurations'], 'all numerators and denominators of representable magnitude (the lowest number has no opposite)',
      WHY, ['raw_fraction_math.hpp', 'fraction_math.hpp', 'reduce_mode.hpp'],
      [('raw operations', 'raw_fraction_math.hpp'), ('on fractions', 'fraction_math.hpp')], AI, NOTE),
    P('C12', 'Rounding functions round in the right direction',
      'For every defined fraction trunc, floor, ceil and round return the integer towards zero, below, above and '
      'nearest to its value (halves upwards), for every sign of numerator and denominator, in unreduced form too and up to the '
      'ends of the number range.',
      ['inputs', 'configurations'], 'all defined fractions whose rounding is representable',
      'The tests round some positive and some negative values; errors sit in the interval (-1, 0), at exact integers, '
      'at halves and with negative denominators.',
      ['fraction_math.hpp'], [('rounding functions', 'fraction_math.hpp')], AI, NOTE),
    P('C13', 'Redenomination rounds to a multiple of the new unit',
      'Changing the denominator of a fraction gives exactly the requested denominator and the numerator that rounds the '
      'value in the requested direction (nearest, down, up, towards zero); it is exact when the value is a multiple of '
      'the new unit. This holds whenever the numerator times the new denominator is representable. A zero target denominator or an undefined fraction gives an undefined result instead of a trap.',
      ['inputs', 'configurations'], 'all fractions and all new denominators',
      WHY, ['fraction_math.hpp'], [('redenomination', 'fraction_math.hpp')], AI, NOTE),
    P('C14', 'Powers are exact, also for negative exponents',
      'Raising an integer to an integer power gives the exact power as a fraction, a negative exponent the power of the '
      'reciprocal, and a power of two is that of the base two, whenever exponent and power are representable in the '
      'number type. A zero base with a negative exponent is undefined instead of a trap.',
      ['inputs', 'configurations'], 'all bases, all exponents with a representable power',
      WHY, ['fraction_math.hpp', 'math_utilities.hpp'], [('powers', 'math_utilities.hpp'), ('powers as fractions', 'fraction_math.hpp')],
      AI, 'For all bases at once, the exponents enumerated up to the largest with a representable power. ' + NOTE),
    P('C15', 'Mixed numbers are always in canonical form',
      'A mixed number built from a whole part and a fraction, a fraction, or an integer has the value given, a proper '
      'fractional part, and parts that do not differ in sign. An undefined fractional part is kept as an undefined mixed '
      'number without a trap.',
      ['inputs', 'configurations'], 'all whole parts and fractions',
      WHY, ['mixed_number.hpp'], [('constructors and their normalisation', 'mixed_number.hpp')], AI, NOTE),
    P('C16', 'Mixed number arithmetic and conversion to fractions are exact',
      'Adding mixed numbers, fractions and integers to mixed numbers in either order, negating them and converting them '
      'to a fraction and back gives the exact value, and every mixed result is again in canonical form, '
      'whenever the results of the computation are representable in their number types. An undefined operand gives an '
      'undefined result.',
      ['inputs', 'configurations'], 'all pairs of mixed numbers, fractions and integers',
      WHY, ['mixed_number.hpp'], [('operators and conversion', 'mixed_number.hpp')], AI, NOTE),
    P('C17', 'Floating-point to fraction is exact',
      'Converting a float or double that the number type can hold gives a fraction of exactly the same value, for every '
      'sign, exponent and mantissa, both zeros included. Infinities and NaNs give an undefined fraction.',
      ['inputs'], 'all normal, zero, infinite and NaN bit patterns whose exponent the number type can represent',
      'There are 2^32 and 2^64 bit patterns; the tests convert a few.',
      ['floating_point.hpp'], [('bit field decoding', 'floating_point.hpp')], AI,
      'For all bit patterns of each exponent at once, the exponents enumerated. ' + NOTE),
    P('C18', 'Fraction to floating-point is one correctly rounded division',
      'Converting a fraction to float, double or long double is the quotient, in that type, of its reduced numerator '
      'and denominator converted to that type, with a single division; so it is correctly rounded whenever both are '
      'exactly representable, equal fractions convert equally, and undefined converts to NaN.',
      ['inputs'], 'all fractions and the three floating-point types',
      WHY, ['floating_point.hpp'], [('conversion', 'floating_point.hpp')], AI,
      'The floating-point result is compared as a term, not evaluated. ' + NOTE),
    P('C19', 'Floating-point strings parse to their exact value or to undefined',
      'Parsing a decimal or hexadecimal floating-point string (digits with optional separators, radix point and signed '
      'exponent) gives exactly the value it denotes whenever that is representable. A string of any other form gives an '
      'undefined fraction and is never read outside its bounds.',
      ['inputs'], 'all strings up to the analysed length, all digits',
      'The set of strings is unbounded; tests parse about a dozen.',
      ['floating_point.hpp', 'parse_utilities.hpp'], [('scanner', 'parse_utilities.hpp'), ('assembly', 'floating_point.hpp')], AI,
      'Shapes (character classes per position) are enumerated up to a length, the digits stay symbolic. ' + NOTE),
    P('C20', 'Equal values hash equally',
      'Two fractions that are equal have the same hash, whatever their form and number type, and so do equal mixed numbers, through the '
      'library function and the standard hash alike. No part of a value is '
      'ignored by its hash, and hashing an undefined value does not trap.',
      ['inputs'], 'all pairs of equal fractions',
      WHY, ['hash.hpp', 'raw_fraction_math.hpp'], [('hash functions', 'hash.hpp')], AI, NOTE),
    P('C21', 'Limits describe the types',
      'The minimum, maximum, smallest and undefined values reported for fractions and mixed numbers are the true bounds '
      'of the number type for every policy and type, compile for every one of them, and agree between the library and '
      'the standard interface. Traits (signedness, exactness, availability of NaN) match the behaviour.',
      ['configurations', 'programs'], 'all number types and policies',
      'Tests look at one or two instantiations; members of a class template that no test names are never compiled.',
      ['limits.hpp'], [('limits', 'limits.hpp')], TY, 'Every member is instantiated and compared at compile time for each type and policy.'),
    P('C22', 'Writing a fraction and reading it back gives the same fraction',
      'What a fraction or raw fraction (of a number type wider than a character) writes to a stream is its numerator, a slash and its denominator, and reading '
      'that text gives the identical fraction back. A failed or malformed read sets the failure state of the stream '
      'and does not invent a value.',
      ['inputs', 'histories'], 'all numerators and denominators, all read failures',
      'Tests write and read one or two fractions.',
      ['raw_fraction.hpp', 'fraction.hpp'], [('stream operators', 'raw_fraction.hpp')], AI, NOTE),
    P('C23', 'Time conversions lose nothing',
      'Converting a standard duration or time point to a fractional one keeps the exact tick count, and converting '
      'between units of fractional durations keeps the exact time. The clock wrapper reports the wrapped clock with the '
      'same exact value, period and steadiness.',
      ['inputs', 'configurations'], 'all tick counts, all standard units',
      WHY, ['chrono.hpp'], [('conversions', 'chrono.hpp')], AI + '; ' + TY, NOTE),
    P('C24', 'Arithmetic is pure: no allocation, exceptions or shared state',
      'Constructing, computing with, comparing, querying, rounding and converting fractions and mixed numbers of '
      'built-in number types never allocates memory, never throws, and neither reads nor writes mutable global state, '
      'so it is usable from any thread and in freestanding environments. These operations are usable in constant '
      'expressions and declared non-throwing.',
      ['inputs', 'schedules', 'programs'], 'all call paths of all operations, any interleaving of threads',
      'Absence of effects on every path cannot be observed by running some paths.',
      ['fraction.hpp', 'ops.hpp', 'fraction_math.hpp', 'mixed_number.hpp'],
      [('all operations', 'fraction.hpp')], 'effect analysis over the call graph of the compiled IR; ' + TY,
      'Transitive over the call graph of every driver, including instantiated standard library code.'),
    P('C25', 'Every header stands alone and links from many translation units',
      'Each public header compiles as the only include of a translation unit, in any order with the others, and can be '
      'included from several translation units of one program without duplicate or missing definitions.',
      ['programs', 'configurations'], 'all headers, all include orders up to pairs, any number of translation units',
      'Each test includes headers after others and is one translation unit per feature.',
      ['ieme.hpp', 'floating_point.hpp', 'parse_utilities.hpp', 'chrono.hpp'], [('includes and linkage', 'ieme.hpp')],
      'syntax-only compilation of each header and pair; linkage scan of the IR', 'All headers and ordered pairs.'),
    P('C26', 'The configured default policy is the one used',
      'Defining one of the configuration macros makes exactly the named policy the default of fractions, mixed numbers '
      'and literals, and without a macro the default is the safe policy reducing inputs and outputs.',
      ['configurations'], 'all configuration macros',
      'The test binary is built in one configuration.',
      ['ops.hpp'], [('default selection', 'ops.hpp')], TY, 'One translation unit per configuration.'),
    P('C27', 'Construction and access are verbatim',
      'A fraction holds exactly the numerator and denominator it was built from, whichever constructor, number type or '
      'ratio (its num and den) is used: nothing is reduced, reordered or sign-changed, a missing denominator is one, and the default value '
      'is zero over one. Accessors read and write those very components.',
      ['inputs', 'configurations'], 'all numerators and denominators, all policies and constructors',
      WHY, ['fraction.hpp', 'raw_fraction.hpp'], [('constructors and accessors', 'fraction.hpp')], AI, NOTE),
    P('C28', 'Literals denote what they spell',
      'An integer divided by a fraction literal gives the fraction they spell, with any sign on either side, a decimal '
      'literal gives the exact value of its digits, and an invalid decimal literal never yields a value: in a constant '
      'expression it does not compile.',
      ['programs', 'inputs'], 'all literal values',
      'Tests spell a few literals.',
      ['fraction_literals.hpp'], [('literal operators', 'fraction_literals.hpp')], AI + '; ' + TY, NOTE),
    P('C29', 'Fast arithmetic does no hidden work',
      'Under the fast policy addition, subtraction, multiplication, division and comparison run in constant time: the '
      'number of steps is bounded whatever the operands, with no greatest common divisor, least common multiple or integer division on any path.',
      ['inputs'], 'all paths of all operators of the fast policy',
      'Tests check results, not the work done.',
      ['ops.hpp'], [('fast policy', 'ops.hpp')], AI + '; effect analysis over the call graph and control flow of the compiled IR',
      'All paths of each operator: the abstract execution is finite, or else the call graph and control flow are acyclic.'),
]

NA = []


def main():
    have = {f[:3] for f in os.listdir(os.path.join(HERE, 'props')) if f[0] == 'C' and f.endswith('.py') and f[1].isdigit()}
    claimed = [p for p in PROPS if p['id'] in have]
    na = [p for p in PROPS if p['id'] in dict(NA)]
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in claimed + na:
            f.write(json.dumps({k: v for k, v in p.items() if not k.startswith('_')}) + '\n')
    import importlib
    import sys
    sys.path[:0] = [os.path.join(HERE, 'engine'), os.path.join(HERE, 'props')]
    checks = []
    for p in claimed:
        m = importlib.import_module(p['id'])
        checks.append(dict(property=p['id'], quick_cmd='python3 check.py %s quick' % p['id'],
                           thorough_cmd='python3 check.py %s thorough' % p['id'],
                           technique=p['_tech'], level=m.LEVEL,
                           level_note=p['_note'] + (' Assumes: ' + '; '.join(m.ASSUMPTIONS) + '.' if m.ASSUMPTIONS else '')))
    man = dict(version=1, setup_cmd='python3 --version && /usr/bin/clang++-18 --version && /usr/bin/opt --version', checks=checks,
               not_applicable=[dict(property=a, reason=b) for a, b in NA])
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(man, f, indent=1)
        f.write('\n')
    for p in PROPS:
        assert len(p['title']) <= 80, p['title']


main()
