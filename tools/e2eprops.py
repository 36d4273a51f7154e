"""C24: one type definition through every container of this repository."""
import os
import likeprops, runner

NOTE = "567 types made of derived definitions and built-in constructors, built with this repository's own crates in place of the published ones; every value (of types with up to 1100, thorough 70000 values; the ends and all powers of two of larger ones) alone and as the odd one among copies of every other (up to 20, thorough 130 values; of a few others beyond) at every position of a block and across its end, through every vector back end that takes the type, sets, and both packed forms, by several ways in and out."


def run(prop, tier, seed):
    d = likeprops.twice("e2emc", prop, tier, 840 if tier == "quick" else 3 * 3600, workspace="e2e", target="e2e")
    res = likeprops.result(prop, d, NOTE, tier, "e2e")
    res.coverage["type_and_container_pairs"] = d.get("pairs", 0)
    res.assumptions = ["the crates are built with [patch.crates-io] pointing at this repository, as its published versions would depend on each other"]
    return res


def replay(prop, r):
    return likeprops.again("e2emc", prop, r, workspace="e2e", target="e2e")
