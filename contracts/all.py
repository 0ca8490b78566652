"""All specification units."""
from . import keys, extkeys, registry, paths, util, versions, mnemonic, derive      # noqa: F401
from .lib import UNITS  # noqa: F401

_CHILD = {keys.NEWCHILD: keys.NewChildContract()}
_PUBEXT = {keys.PUBEXT: extkeys.PubExtContract()}
# unit id -> the contracts it establishes
_PATHS = {paths.VALUES: paths.ValuesContract(), paths.PVALID: paths.ValidContract()}
CONTRACTS = {"roundtrip": {derive.ISVALID: derive.KeyValidContract()}, "decode": {mnemonic.DEC: mnemonic.DecodeContract()}, "path_values": {paths.VALUES: _PATHS[paths.VALUES]}, "path_valid": {paths.PVALID: _PATHS[paths.PVALID]}, "child_priv": _CHILD, "child_pub": _CHILD, "pubext_priv": _PUBEXT, "pubext_pub": _PUBEXT}


def contracts_for(unit):
    """callee contracts a unit assumes: function name -> contract"""
    out = {}
    for uid in unit.uses:
        if uid == "child_any":
            out[keys.NEWCHILD] = derive.ChildFunction()
        for n, c in CONTRACTS.get(uid, {}).items():
            out[n] = c
    return out


def units_of(prop):
    """units stating the property, and those establishing the contracts they assume"""
    ids, todo = [], [u.id for u in UNITS.values() if prop in u.props]
    while todo:
        x = todo.pop(0)
        if x not in ids:
            ids.append(x)
            todo += [y for y in UNITS[x].uses if y in UNITS]
    return [UNITS[x] for x in ids]
