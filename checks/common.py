"""Shared pieces of the case generators."""
import gen

UW = ("sfst", "foma", "log")
SY3 = ["a", "b", "c"]


def load(r, v, **kw):
    return dict({"op": "load", "r": r, "fst": v}, **kw)


def n_of(tier, q, t):
    return q if tier == "quick" else t


def extra_alpha(rng, p=0.3):
    return ("c",) if rng.random() < p else ()


def syms(rng):
    """operands often have different alphabets"""
    return rng.choice([("a", "b"), ("a", "b"), ("a",), ("b", "c"), ("a", "c")])


def pair(rng, ss=SY3, eps=True):
    s = list(ss) + ([""] if eps else [])
    return [rng.choice(s), rng.choice(s)]
