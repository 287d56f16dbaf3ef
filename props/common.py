"""Helpers shared by the harnesses."""

UPPER = 'ABCDEFGHIJKLMNOPQRSTUVWXYZ'
LOWER = 'abcdefghijklmnopqrstuvwxyz'
DIGIT = '0123456789'
ALNUM = UPPER + LOWER + DIGIT
PRINT = ' !"#$%&\'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~'
LINE = PRINT + '\t\xe9'                  # characters of one line of a file
TEXT = LINE + '\n'


def stash(S, **kw):
    return S.mod('oelint_parser.cls_stash').Stash(quiet=True, **kw)


def minus(alpha, drop):
    return ''.join([c for c in alpha if c not in drop])


def lean(S):
    """empties the values of the base set of variables: they are expanded on every ExpandVar, and say nothing about the variables of a recipe"""
    c = S.mod('oelint_parser.constants').CONSTANTS
    c.OverrideConstants({'sets': {'base': {k: '' for k in c.SetsBase}}})
