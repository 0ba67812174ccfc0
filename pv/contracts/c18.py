"""what a model file declares"""
from pv.contracts import files, filegrammar

LEVEL = 'proof'
ASSUMES = files.ASSUMES + filegrammar.ASSUMES


def units():
    return files.analysis() + files.outline() + filegrammar.units()
