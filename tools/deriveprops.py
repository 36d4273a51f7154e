"""C18, C19: derived mappings of every definition of a bounded grammar."""
import os
import likeprops, runner

NOTES = {
    "C18": "About 2600 generated definitions (every sequence of variant shapes and of field types up to the bounds in DESIGN.md, generic, nested, empty ones), compiled with the derive of the working tree; every value goes to a number and back, every number to a value and back, with a table of the numbers taken.",
    "C19": "The same definitions; the number of every value and the value of every number are compared with a numbering generated from the definition text by another program; numbers past the end (the next 40, around all powers of two, multiples, the largest) must be rejected by enums.",
}


def run(prop, tier, seed):
    d = likeprops.twice("derivemc", prop, tier, 840 if tier == "quick" else 3 * 3600)
    res = likeprops.result(prop, d, NOTES[prop], tier, "derive")
    res.assumptions = ["definitions are written in syntax the pinned parser (syn 0.12) accepts", "field types' own mappings are correct (the harness's own)"]
    return res


def replay(prop, r):
    return likeprops.again("derivemc", prop, r)
