"""Exploration core: families of enumerated cases, violations, signatures."""
import hashlib
import json


class Violation(Exception):
    """The property does not hold on this case."""


def expect(cond, *msg):
    if not cond:
        raise Violation(' '.join(str(m) for m in msg))


class Family:
    """One bounded space.

    name     identifies the family in evidence and replay files.
    cases    cases(tier) -> iterable of JSON-able case descriptors; the whole
             iterable is explored (that is the bound).
    check    check(case) -> signature (anything with a repr) of what was
             observed; raises Violation when the property fails.  Any other
             exception is a violation as well: no input of the family may make
             k2 raise unless the check itself expects it.
    rule     one sentence: what is enumerated and why it is exhaustive.
    steps    optional steps(case) -> number of API transitions executed.
    """

    def __init__(self, name, cases, check, rule):
        self.name = name
        self.cases = cases
        self.check = check
        self.rule = rule


def sig64(obj):
    return int.from_bytes(
        hashlib.blake2b(repr(obj).encode(), digest_size=8).digest(), 'little')


def case_key(family, case):
    return family + ':' + json.dumps(case, separators=(',', ':'))


class Counter:
    """transitions executed against the implementation (global per worker)."""
    steps = 0


def step(n=1):
    Counter.steps += n
