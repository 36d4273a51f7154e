"""Techniques of C14 to C24."""
T = {
 "C14": "exhaustive enumeration of all values and numbers of a bounded grammar of types",
 "C15": "exhaustive enumeration against an independent positional model",
 "C16": "exhaustive exploration of iterator call sequences against a counter model",
 "C17": "exhaustive enumeration of values and pairs of values against their numbers",
 "C18": "exhaustive enumeration of definitions of a bounded grammar and of all their values and numbers",
 "C19": "exhaustive enumeration of definitions against an independently generated numbering model",
 "C20": "exhaustive enumeration of (back end, number of variants, call) programs through the compiler, and of vectors at the limits",
 "C21": "explicit-state model checking of the real set to a fixpoint of its internal states",
 "C22": "explicit-state model checking: every pair of reachable sets, closed under in-place algebra",
 "C23": "explicit-state model checking: identity of every pair of reachable sets, clones under every call",
 "C24": "exhaustive enumeration of (type, value, neighbour, position, container) round trips against an independent model",
}
NOTE = {}
NA = {}
