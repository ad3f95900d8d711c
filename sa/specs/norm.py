"""Spelling variants: letter case, h for ', commas and one initial period do not change a word."""
LOWER = "abcdefgijklmnopqrstuvwxyz'"
UPPER = "ABCDEFGIJKLMNOPQRSTUVWXYZ'"
CONFIG = {}


def letter():
    return pick("a", "b", "c", "d", "e", "f", "g", "i", "j", "k", "l", "m", "n", "o", "p", "r", "s", "t", "u", "v", "x", "y", "z", "'")


def variant(c):
    """A spelling of the letter c: itself, its capital, h/H for the apostrophe; commas may surround it."""
    if c == "'":
        return pick("'", "h", "H")
    if flip():
        return c
    return c.upper()


def check_two_variants():
    """Two letters anywhere in a word, each spelt in any variant; the rest is arbitrary normal-form text."""
    a, b = text(LOWER), text(LOWER)
    c = text(LOWER)
    x = letter()
    y = letter()
    plain = a + x + b + y + c
    spelt = a + variant(x) + b + variant(y) + c
    check(normalise(spelt) == plain, "spelling-variant-same-word")


def check_two_commas():
    a, b = text(LOWER), text(LOWER)
    c = text(LOWER)
    check(normalise(a + "," + b + "," + c) == a + b + c, "comma-ignored")
    check(normalise(a + ",," + b) == a + b, "comma-ignored")


def check_period():
    a, b = text(LOWER), text(LOWER)
    x = letter()
    check(normalise("." + a) == a, "initial-period-ignored")
    check(normalise("." + a + variant(x) + b) == a + x + b, "initial-period-ignored")
    check(normalise("." + a + "," + b) == a + b, "initial-period-ignored")


def check_period_kept_inside():
    """Only one period, at the start, is spelling: any other period keeps the string from being a word."""
    a, b = text(LOWER), text(LOWER)
    x = char(LOWER)
    check(normalise(a + x + "." + b) == a + x + "." + b, "inner-period-kept")


def check_normal_form():
    a = text(LOWER)
    check(normalise(a) == a, "normal-form-unchanged")


def check_foreign_kept():
    """Letters outside the alphabet are not dropped or turned into Lojban letters."""
    a, b = text(LOWER), text(LOWER)
    x = char("qw0123456789-_ ;:!?/")
    check(normalise(a + x + b) == a + x + b, "foreign-letter-kept")
