TV = ("TLA+ trace validation: TLC judges executions of the real maps, recorded event by event, against spec/HashMapTrace.tla (refinement of the closed model "
      "spec/HashMap.tla, which TLC checks exhaustively)")
NB = ("Sampled executions (seeded generator over operation walks, key/value types, hashers, allocators, layouts, faults), each judged event by event by TLC; "
      "trusted: the harness' projection of the real state, TLC, the generator. Not a proof: histories that were not generated are not covered.")
FV = "TLA+ conformance: TLC judges recorded results of the real functions against spec/%s.tla (%s); the closed model spec/%s.tla is checked exhaustively"
FB = "Enumerated and sampled arguments (%s), each result judged by TLC; trusted: the harness' recording, TLC. Not a proof beyond the arguments explored."
CLAIMS = {p: (TV, NB) for p in ["C%02d" % i for i in range(1, 15)]}
LG = {"C01", "C03", "C04", "C05", "C10", "C11", "C12"}
WK = {"C01", "C03", "C04", "C05", "C06", "C08", "C09", "C10", "C11", "C12"}
for p in CLAIMS:
    t, b = CLAIMS[p]
    if p in WK:
        t += ("; walks over the complete state graphs of the layout models GroupTable.tla/RobinTable.tla (all invariants checked by TLC) are "
              "replayed into the real maps, hashes chosen so that the real table takes the model's path")
    if p in LG:
        t += "; histories of hundreds of thousands of elements are judged as key runs against spec/MapRuns.tla"
    CLAIMS[p] = (t, b)
CLAIMS["C15"] = (FV % ("StringViewTrace", "comparison, slicing and copying of character sequences", "StringView"), FB % "all pairs of short strings, differing positions around vector widths, walks, three character types, all STRING_UTILS_MODEs, placements at inaccessible pages")
CLAIMS["C16"] = (FV % ("BitsTrace", "powers of two and bit scans on the set of bit positions", "BitsLaws"), FB % "0..299, all powers of two and of ten and neighbours, all contiguous masks, two-bit operands, random; two instruction sets")
CLAIMS["C17"] = (FV % ("HashTrace", "the algorithms of spec/Hashes.tla on 16-bit limbs, which are checked against published vectors", "HashVectors"), FB % "lengths 0..200 with dense boundaries, five kinds of content, placements at inaccessible pages and offsets; four build variants")
CLAIMS["C18"] = (FV % ("MersenneTrace", "the twisted recurrence with its state as a window of words, ranges and repetition", "MersenneVectors, against the published outputs,"), FB % "seeds and key arrays around the state size, whole blocks, walks over three generators with copies and reseeding, bounds at the ends of every type")
NOT_APPLICABLE = {}
