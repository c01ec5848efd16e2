#!/usr/bin/env python3
"""Source of properties.jsonl (one call of P per property); run it to regenerate the file."""
import json, os
out = []
def P(id, title, statement, over, text, why, files, mech, observe, hook=None, state=()):
    assert len(title) <= 80, (id, len(title))
    out.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                     mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe, hook_needed=hook)))

P("C01", "Space-filling-curve keys follow a genuine Hilbert curve in 2D and 3D",
  "For every bounding box and every set of points inside it, the sort key of a point is that of a continuous self-similar space-filling curve: at every refinement level, points of one grid cell share a key prefix, points of different cells have different prefixes, and cells with consecutive prefixes are face neighbours. Points on or at the edges of the box get valid keys too, points further apart than the key resolution (a few 2^-32 of the box in 2D, 2^-42 in 3D) get different keys, and the key depends only on the point's relative position in the box.",
  ["inputs"], "every point, bounding box, refinement level, dimension",
  "The one existing test inverts the 2D map for the 30x30 lowest integer positions, i.e. the lowest 5 of 32 bits of one of the two curves; the 3D tables, high bits, float conversion and padding are never exercised.",
  ["src/peano_hilbert.rs", "src/domain/key.rs"],
  [("bit-interleaving loops with rotation tables", "src/peano_hilbert.rs"), ("padding of the box before scaling", "src/peano_hilbert.rs")],
  ["the key computed for a point and a bounding box"], "re-export of the key types (private module)")

P("C02", "Signs of determinants are decided exactly, however degenerate the input",
  "The reported sign of a 3x3, 4x4 or 5x5 determinant equals the sign of the exact determinant of the given floating point entries (zero included) for every matrix of normal-range entries of magnitude up to a quarter, and for larger entries whenever the exact value is not below rounding noise. The result does not depend on which internal precision path was taken.",
  ["inputs"], "every matrix, in particular nearly or exactly singular ones",
  "Tests contain two recorded sets of 5x5 matrices and a single 3x3 one; near-singular inputs of other shape and scale decide whether the grid construction is right and are unreachable by samples.",
  ["src/voronoi/math/utils.rs", "src/voronoi/math/precision_types.rs"],
  [("floating point filter with arbitrary precision fallback", "src/voronoi/math/utils.rs")],
  ["the sign returned for a matrix"], None)

P("C03", "Determinants and linear solvers agree with exact arithmetic",
  "Determinants computed in floating point agree with the exact value to within the rounding error of their expansion and exactly in rational arithmetic. Solving a non-singular linear system returns a vector that satisfies the system (exactly in rational arithmetic, with a small residual in floating point) for every row order and pivot structure, and the error-checked solver either reports a precision error or returns such a solution - never a wrong one - and reports an error for singular systems. Vector operations (components, sums, distances, normalization, extremes, dot and cross products), generic over floating point and rational vectors of two and three dimensions, are those of Euclidean space.",
  ["inputs"], "every matrix / right-hand side, all pivot orders and zero patterns",
  "A handful of hand-written systems with friendly pivots is tested; the error-checked variant is effectively tested on a single diagonal matrix.",
  ["src/voronoi/math/utils.rs", "src/voronoi/math/traits.rs", "src/voronoi/math/precision_types.rs"],
  [("Gaussian elimination with partial pivoting", "src/voronoi/math/utils.rs"), ("cofactor expansions", "src/voronoi/math/utils.rs")],
  ["returned determinants and solution vectors"], None)

P("C04", "Reading: every entry of the input files goes to exactly one rank",
  "For every list of per-file entry counts and every number of ranks, the regions assigned to the ranks are non-empty, lie inside their files and tile all entries of all files exactly once, in order (rank by rank, file by file). All ranks but the last get the same number of entries (the total divided by the number of ranks, rounded down) and the last gets the rest.",
  ["inputs", "configurations"], "every file-size list (empty files included) and every rank count",
  "Six example file lists are tested; tiling has to hold for all lists, including empty files at awkward places and more ranks than entries.",
  ["src/io/file_distribution.rs", "src/io/input/mod.rs"],
  [("region walk over files", "src/io/file_distribution.rs")],
  ["the regions assigned to each rank"], "re-export of the private module's functions")

P("C05", "Writing: the entries of all ranks tile the output files exactly",
  "For every list of per-rank entry counts and every number of output files, the regions the ranks write are disjoint, contiguous per file from its start and tile the files exactly in rank order; each rank writes exactly as many entries as it holds. All files but the last hold the same number of entries (the total divided by the number of files, rounded down), the last the rest, and the sizes do not depend on how the entries are spread over the ranks.",
  ["inputs", "configurations"], "every per-rank count list (ranks without entries included) and every file count",
  "Three examples are tested.",
  ["src/io/file_distribution.rs", "src/io/output/plugin.rs"],
  [("region walk over files", "src/io/file_distribution.rs")],
  ["the regions assigned to each rank"], "re-export of the private module's functions")

P("C06", "All-to-all exchange delivers every item once, in order, to its addressee",
  "In every round of an all-to-all exchange among any number of ranks, each rank receives from every other rank exactly the sequence that rank addressed to it in this round (empty if nothing was addressed), whatever the sizes and whoever sends nothing; any number of rounds on one or several exchangers never mix. Splitting data into chunks for repeated exchange gives every rank the same number of chunks, and the chunks of a rank concatenate to its data with no chunk above the limit.",
  ["inputs", "schedules", "histories"], "every rank count, message sizes, number of rounds, chunk size",
  "Exchange has no unit test that runs on more than one process; only ignored or externally launched tests do.",
  ["src/communication/exchange_communicator.rs", "src/communication/mpi_world.rs"],
  [("immediate sends followed by empty sends and one receive per rank", "src/communication/exchange_communicator.rs")],
  ["what each rank receives"], None)

P("C07", "Collective operations and point-to-point messages have their MPI meaning",
  "For every number of ranks and every contribution, gathering returns the contributions of all ranks in rank order (also for varying lengths), sum, minimum and maximum equal those of the gathered list, and the equality test is true exactly if all ranks passed the same value; all ranks see the same result. Messages between two ranks arrive complete, in order and only at the addressed rank and on the addressed channel; probing without blocking finds nothing where nothing was sent; and the lists of all and of other ranks are complete and duplicate-free.",
  ["inputs", "schedules"], "every rank count, payload type, length and message sequence",
  "A single rank sending three integers to itself is tested.",
  ["src/communication/mpi_world.rs", "src/communication/sized_communicator.rs"],
  [("thin wrappers around MPI calls with per-type tags", "src/communication/mpi_world.rs")],
  ["results on every rank"], None)

P("C08", "Values survive the wire: message types round-trip bit-exactly",
  "Optional values, bounding boxes, sort keys, direction indices and their combinations arrive on the other side exactly as they were sent, field by field, whether packed singly, in sequences, or gathered from all ranks; absent optionals stay absent and never expose stale data; copies of an optional equal the original.",
  ["inputs"], "every value of these message types, sequences of any length and present/absent pattern",
  "Four optional values are packed one at a time in the existing test; bounding boxes and 128-bit keys are never sent in a test.",
  ["src/communication/communicated_option.rs", "src/extent.rs", "src/peano_hilbert.rs", "src/communication/identified.rs"],
  [("hand-written MPI datatypes with field offsets", "src/communication/communicated_option.rs, src/extent.rs, src/peano_hilbert.rs")],
  ["values after a pack/unpack or message"], "re-export of private types")

P("C09", "The per-rank container behaves like a map from rank to value",
  "For every history of construction, insertion, lookup, mutation, removal, iteration and draining, the per-rank container returns exactly what an ordered map from rank to value would: iteration is in rank order and skips absent ranks, inserting beyond the current size keeps everything already there, freshly built containers have an entry for every other rank and none for the own one, and size counts all contained elements.",
  ["histories"], "every operation history and rank numbering",
  "Two tests with three fixed insertions in ascending order.",
  ["src/communication/data_by_rank.rs"],
  [("vector of optional slots indexed by rank", "src/communication/data_by_rank.rs")],
  ["results of all container operations"], None)

P("C10", "Typed arenas, index vectors and per-direction counters match their models",
  "For every operation history, the id-typed arena behaves like a map in which an id identifies one inserted value until it is removed and never another one afterwards; the append-only indexed vector hands out ids that keep denoting their value; the per-direction counters count each direction independently and their total is the sum; and encoding a tree-node index as a byte and back is the identity with distinct codes for distinct indices.",
  ["histories"], "every operation history",
  "Neither the arena nor the counters have tests; the index codec is tested.",
  ["src/voronoi/indexed_arena.rs", "src/sweep/count_by_dir.rs", "src/quadtree/node_index.rs"],
  [("generational arena wrapped in typed ids", "src/voronoi/indexed_arena.rs")],
  ["results of all operations"], "re-export of private types")

P("C11", "Bounding boxes are tight and their derived quantities consistent",
  "The bounding box of any non-empty point set contains every point and each of its faces touches one; the empty set has none; the result does not depend on order or repetition of the points. Centre, side lengths and longest side are those of the box, and the extension by periodic images has the same centre and three times the side lengths in every dimension, so that it contains every first-order periodic image of every contained point.",
  ["inputs"], "every point set (any order, duplicates, negative and huge coordinates), 2D and 3D",
  "One test with three points, in which the first point is the minimum.",
  ["src/extent.rs", "src/voronoi/math/traits.rs", "src/domain/extent.rs"],
  [("min/max reduction", "src/extent.rs")],
  ["minimum, maximum, centre and side lengths"], "re-export of the private type")

P("C12", "Random rotations are proper rotations, and vectors are rotated by them",
  "Every rotation matrix drawn is orthogonal with determinant one, so rotating preserves lengths, angles and handedness of all vectors and differs from draw to draw; applying a matrix to a vector gives the matrix-vector product for every matrix and vector. Over many draws the rotation axes have no preferred direction.",
  ["inputs"], "every generator state, matrix and vector",
  "Tests check the determinant and the length of the rotated x axis for one seed each, which leaves wrong off-axis components and transposed or mis-indexed products unnoticed.",
  ["src/sweep/direction/mod.rs"],
  [("axis-angle rotation matrix", "src/sweep/direction/mod.rs")],
  ["drawn matrices and rotated vectors"], "access to the private functions")
if __name__ == "__main__":
    exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "properties_full.py")).read())
    with open("/verif/properties.jsonl", "w") as f:
        for p in out:
            f.write(json.dumps(p) + "\n")
    print(len(out), "properties")
