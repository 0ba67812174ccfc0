"""steady-state residuals: core/expressions.py and the visitors of parsing/base.py"""
from pv.contracts import trees
from pv.contracts.trees import ASSUMES


def units():
    return trees.equations(False) + trees.others(False)
