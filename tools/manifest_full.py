TECHNIQUE.update({
    "C13": ("generated point clouds (uniform, clustered, near-lattice, near-sphere, flat, elongated) with exact in-sphere and tiling oracles", "2D and 3D, all at once and incremental"),
    "C14": ("generated point clouds compared with cells cut out of a box plane by plane", "2D and 3D; volume, face area, normals, neighbours"),
    "C15": ("stateful generated histories of sweeps on 1-5 MPI ranks against an independent upwind solution, and distributed against single-rank runs", "irregular tensor and Voronoi grids, arbitrary cell-to-rank assignment, level changes"),
    "C16": ("generated timesteps and step histories against the definition of the hierarchy", "powers of two and their floating point neighbours included"),
    "C17": ("generated states of the gas; invariants, metamorphic bounds and differential comparison with an independent integrator", "extreme densities, temperatures, fractions"),
    "C18": ("generated states of the gas against independently written rates and numerical derivatives", "SI and cgs conversions, photon conservation"),
    "C19": ("generated particle sets run through decomposition, exchange, tree and sources on 1-5 MPI ranks, against brute-force ownership, search and nearest-particle oracles", "clusters down to 1e-6 of the box, planes, corners, any box"),
    "C20": ("generated particle sets run through the parallel grid construction on 1-5 MPI ranks, against cells cut out plane by plane of all particles and their images", "125-276 particles per case"),
    "C21": ("each direction set under generated series of rotations, seen from generated axes; moments, separation and covering as oracles", "net flux below 2e-6"),
    "C22": ("generated input files and parameter files run through the real program on 1-4 MPI ranks, snapshots and time series compared with a single-rank reference computed from the generated numbers", "10-40 cells, up to about 8 steps, 320 runs"),
    "C25": ("generated stars and wind particles in generated input files of runs of the program; source terms, luminosity and evolution against a reference lookup (own interpolation in a copy of the table, own ages) and the reference run of C22", "0-20 stars, 10-30 cells, 1-4 ranks"),
    "C27": ("generated snapshots of an earlier run taken over by runs of the program; the state against a brute-force search for the nearest particle, evolution as in C22", "1-80 earlier particles, 1-3 snapshots of up to 12 files, 10-30 cells, 1-4 ranks"),
    "C26": ("generated lists and numbers of directions against their definition; runs of the program with rotating directions against the schedule of the same run and the rates due to the light that arrives", "lists up to 100, 10-30 cells, 1-4 ranks, up to about 8 steps"),
    "C23": ("generated runs of the program into new and used output folders, as an unprivileged user; files compared before and after with a model of what a run writes, contents as in C22; each run repeated from its copy of the parameters", "10-20 cells, 1-4 ranks, up to 12 older files"),
    "C28": ("generated sets of particles and parameter files run through the real program, which makes its own grid, on 1-4 MPI ranks; snapshots and time series against the single-rank sweep over cells cut out plane by plane", "64-245 particles, periodic or not, up to about 8 steps"),
    "C29": ("generated numbers and sizes of cells through the Cartesian grid system on 1-5 MPI ranks, against the definition of the lattice, its neighbours, wraps and haloes", "up to 199 cells on a side"),
    "C30": ("generated boxes, positions (on and near faces and middles, outside), particle sets and tree configurations against brute-force geometry", "up to 150 particles, boxes of 1e-3-1e22 m with sides up to 1:100"),
    "C31": ("generated messages with any bits and entities of any generation, round trip through pack, exchange and gather on 1-4 MPI ranks; stateful histories of entities that come and go", "13 message types"),
    "C32": ("generated cosmologies and scale factors against numerical integration, algebraic relations and round trip", "scale factors 1e-4-5"),
    "C24": ("generated parameter files and overrides against a model of sections, keys, defaults and mistakes; round trip of the written copy", "seven sections of the program, about forty keys"),
})
NOT_APPLICABLE += []
