"""expression text: the grammar, the evaluator"""
from pv.contracts import grammar, trees

LEVEL = 'proof'
ASSUMES = trees.ASSUMES + [
    'the words of the text are those of the scanner contract (C02): sign tokens carry + or -, number tokens a number',
    'a parsing method is checked against the contracts of the methods it calls (induction on the length of the text); a method that '
    'calls itself where it started is refused',
    'date offsets of up to 59 periods are enumerated (PeriodVar)',
]


def units():
    return grammar.units() + grammar.entries() + trees.evaluators()
