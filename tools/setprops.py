"""C21 to C23: exhaustive exploration of histories of enum sets and of pairs."""
import os
import likeprops, runner

NOTES = {
    "C21": "Histories of calls on one set over alphabets of values around the 32-bit block boundaries, to a fixpoint of the internal states; in every state every way of iterating.",
    "C22": "The same fixpoint, closed under in-place algebra with every reachable set; every pair of reachable sets under the lazy forms, the tests and (as transitions) the in-place forms.",
    "C23": "The same closure; every pair compared and hashed, and in every state debug output, conversions and clones with every call on either of the two.",
}


def run(prop, tier, seed):
    d = likeprops.twice("setmc", prop, tier, 840 if tier == "quick" else 3 * 3600)
    res = likeprops.result(prop, d, NOTES[prop], tier, "set")
    res.coverage.update({
        "exhaustive": not d["fails"] and d.get("capped", 0) == 0, "alphabets_explored_to_a_fixpoint": d["types"] - d.get("capped", 0),
        "states_from_calls_on_one_set": d.get("single", 0), "probes_in_states_and_pairs": d.get("probes", 0), "longest_history": d.get("depth", 0),
        "histories_not_followed_for_reasons_outside_this_property": d.get("pruned", 0)})
    res.coverage.pop("types_with_all_values_enumerated", None)
    res.assumptions = ["the bit-set and bit-vec crates behave as documented", "values outside the alphabet behave like those in it (the bit index matters only through its block and position)", "bit sets given to from_bit_set hold numbers of the type only"]
    return res


def replay(prop, r):
    return likeprops.again("setmc", prop, r)
