"""Assumptions left unchecked, as reported in the evidence."""

BASE = [
    'the verifier itself (engine/core.py, interp.py, loops.py, containers.py, '
    'intrinsics.py, symapi.py): its semantics of the Python subset and its '
    'loop rules; cross checked by executing the same contracts natively',
    'z3 5.3 and its simplifier',
    'contracts of builtins and standard library containers (dict, list, set, '
    'tuple, str, int, isinstance, getattr, iteration) in '
    'engine/containers.py and engine/intrinsics.py',
    'sorting of sequences of any length: a permutation which is determined by '
    'the sequence of keys (and the direction)',
    'odict.odict is specified as an insertion ordered map '
    '(engine/containers.py), not verified itself',
    'zope.interface providedBy/implementedBy are computed by the real zope '
    'code on the real classes; dynamic interface changes are out of scope',
    'plumber and zope.interface class construction: the verified functions '
    'are the ones found on the imported, plumbed classes',
    'mathematical integers (Python integers are unbounded) and no '
    'MemoryError, KeyboardInterrupt or recursion limit',
    'keys are None, integers or strings, other values are arbitrary objects '
    'without overridden equality unless a contract says otherwise',
    'sequential execution between lock operations, no attribute or container '
    'is changed by other threads meanwhile',
]

PROPERTY = {}
