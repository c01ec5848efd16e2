P("C13", "Triangulations satisfy the Delaunay criterion and tile their hull",
  "For every set of distinct points in general or nearly degenerate position, in every box that contains them, in 2D and 3D and whether the points are inserted at once or one after another, the constructed triangulation contains every point once, its simplices tile the surrounding simplex without gap or overlap, neighbour links are mutual and share the linked face, and no point lies inside the circumsphere of any simplex (by exact arithmetic up to the rounding of the constructed coordinates).",
  ["inputs", "histories"], "every point set, containing box and insertion order",
  "The existing tests check uniformly random points of one seed in a cube; nearly cospherical and clustered points, flat distributions, elongated boxes and incremental insertion are not sampled.",
  ["src/voronoi/delaunay/mod.rs", "src/voronoi/delaunay/impl_3d.rs", "src/voronoi/delaunay/impl_2d.rs", "src/voronoi/primitives/tetrahedron.rs", "src/voronoi/primitives/triangle.rs", "src/dimension.rs"],
  [("point insertion by splitting and flipping", "src/voronoi/delaunay/mod.rs"), ("point location by walking", "src/voronoi/delaunay/mod.rs"), ("exact in-sphere predicates in a remapped box", "src/voronoi/primitives/tetrahedron.rs")],
  ["points, simplices, faces and links of a finished triangulation"], "access to the private triangulation")

P("C14", "Voronoi cells have the volumes, faces and neighbours of the true diagram",
  "For every point set, each bounded cell is exactly the set of places closer to its generator than to any other one: its volume, the areas and outward unit normals of its faces and the neighbour behind each face are those of the exact Voronoi cell, neighbouring cells agree on their common face, faces close (area-weighted normals sum to zero), the reported cell size is that of a ball or disc of the volume, and a point is reported inside exactly if it is. Cells that reach outside are marked unbounded.",
  ["inputs"], "every point set, 2D and 3D, clustered, flat and nearly degenerate ones included",
  "Tests compare against a hand-computed cell of a four-point configuration and check that volumes add up for uniform random points of one seed.",
  ["src/voronoi/cell.rs", "src/voronoi/mod.rs", "src/voronoi/constructor/mod.rs", "src/voronoi/primitives/polygon3d.rs"],
  [("cells collected from the circumcentres around a point", "src/voronoi/cell.rs")],
  ["volume, size, faces, normals and neighbours of cells"], "access to the private constructor")

P("C15", "The sweep solves the transport problem whatever the distribution over ranks",
  "For every grid, set of directions, sources, timesteps and assignment of cells to ranks, a sweep ends, visits every (active cell, direction) exactly once with all upwind neighbours done before, and yields the rates of the exact upwind solution: what leaves a cell is split over its downwind faces by projected area, every photon leaving a cell enters the neighbour (or leaves the box, or re-enters on the other side if periodic), sources are divided evenly over the directions. Inactive cells keep absorbing and forwarding consistently when their neighbours change. Results do not depend on the number of ranks or on which rank owns which cell.",
  ["inputs", "configurations", "schedules", "histories"], "every grid, direction set, source distribution, timestep-level history, rank count and cell-to-rank assignment",
  "Existing tests run one cubic grid with one source in slabs of cells per rank and without timestep levels; interleavings of messages, cells on other ranks and level changes are not sampled.",
  ["src/sweep/mod.rs", "src/sweep/site.rs", "src/sweep/task.rs", "src/sweep/active_list.rs", "src/sweep/communicator.rs", "src/sweep/deadlock_detection.rs", "src/sweep/chemistry_output.rs"],
  [("task queue driven by counts of missing upwind rates", "src/sweep/mod.rs"), ("messages of rate changes between ranks", "src/sweep/communicator.rs"), ("detection of the end of a sweep", "src/sweep/deadlock_detection.rs")],
  ["incoming and outgoing rates, abundances and timesteps of every cell after every step"], "set-up of the private solver from plain numbers")

P("C16", "Timestep levels respect the desired timestep and cover time exactly",
  "For every maximum timestep, number of levels and desired timestep, the level of a cell is the coarsest one whose timestep does not exceed the desired one (clamped to the existing levels), the timestep of a level is the maximum one divided by a power of two, and in every sequence of steps each level is active exactly as often as its timestep fits, so that at the end of a full step every cell has advanced by the same time.",
  ["inputs", "histories"], "every maximum timestep, number of levels and desired timestep",
  "Tests check a few hand-picked levels.",
  ["src/sweep/timestep_level.rs", "src/sweep/timestep_state.rs", "src/sweep/mod.rs"],
  [("binary hierarchy of timesteps", "src/sweep/timestep_level.rs"), ("lowest active level of a step", "src/sweep/timestep_state.rs")],
  ["level and timestep of a cell, active levels of a step"], "access to the private level type")

P("C17", "The state of the gas stays physical and follows the rate equations",
  "For every physical state of a cell, rate of photons and timestep, the chemistry update ends with an ionized fraction within its bounds [1e-10, 1 - 1e-10] and a positive finite temperature; with cooling prevented neither temperature nor ionized fraction falls; entirely neutral or ionized gas behaves like gas at the bound. As the limit on the change per step tightens, the result converges to the solution of the rate equations of photoionization, collisional ionization, recombination, heating and cooling.",
  ["inputs", "histories"], "every density, temperature, ionized fraction, rate, cell size, timestep and safety factor",
  "Tests follow a handful of recorded evolutions and print them; extremes of density, temperature and ionized fraction are not sampled.",
  ["src/chemistry/hydrogen_only/mod.rs"],
  [("semi-implicit update with recursive halving of the timestep", "src/chemistry/hydrogen_only/mod.rs")],
  ["temperature, ionized fraction and timescale after an update"], "access to the private solver")

P("C18", "Rates of absorption, ionization, heating and cooling are the published ones",
  "For every state of a cell the coefficients of recombination, collisional ionization and excitation, bremsstrahlung and Compton cooling and their temperature derivatives are those of the published fits, in consistent units, the total cooling rate is their sum weighted by the densities, and photons are conserved: of the incoming rate exactly the fraction 1 - exp(-depth) is absorbed, ionizes and heats, and the rest leaves; rates below the threshold are dropped.",
  ["inputs"], "every density, temperature, ionized fraction, rate and cell size",
  "Tests compare a few rates at a few temperatures; derivatives enter only the convergence of the implicit update.",
  ["src/chemistry/hydrogen_only/mod.rs", "src/units/mod.rs"],
  [("fits of rate coefficients and their derivatives", "src/chemistry/hydrogen_only/mod.rs")],
  ["coefficients, cooling and heating rates, photons absorbed and leaving"], "access to the private solver")

P("C19", "Every particle ends up once on the rank that owns its place, and is found there",
  "For every box, particle distribution and first distribution over the ranks, the domain decomposition assigns every place to one rank, on which all ranks agree, as one piece of the space-filling curve each, with balanced numbers of particles. After the exchange every particle exists exactly once, on the rank that owns its place, with all its components unchanged and with a dense, unique id from which it is found again. The tree of a rank contains its particles once, a periodic search by radius returns exactly the particles within it, and every rank with such a particle is among those asked. Each source adds its rate to exactly one particle, the nearest one of the owning rank.",
  ["inputs", "configurations"], "every box, particle and source distribution, number of ranks and first assignment",
  "Existing tests decompose a few hand-placed or uniformly random points; clusters, planes, corners of the box, boxes off the origin and far from unit size, and several ranks are not sampled.",
  ["src/domain/decomposition.rs", "src/domain/mod.rs", "src/domain/key.rs", "src/domain/exchange_data_plugin.rs", "src/particle.rs", "src/quadtree/mod.rs", "src/quadtree/radius_search.rs", "src/simulation_box.rs", "src/source_systems.rs"],
  [("cuts of the curve found by bisection over all ranks", "src/domain/decomposition.rs"), ("exchange of all components of leaving entities", "src/domain/exchange_data_plugin.rs"), ("tree with periodic search", "src/quadtree/radius_search.rs")],
  ["particles, ids and components on each rank, owners of places, results of searches, source terms"], "none beyond the public plugins")

P("C20", "The distributed grid is the Voronoi diagram of all particles",
  "For every set of particles, number of ranks and distribution over them, the cells built by the simulation, each on the rank of its particle from local particles and imported haloes, are those of the (periodic) Voronoi diagram of all particles together: volume, size, face areas, outward normals and neighbours (local, on another rank, through the periodic border or at the boundary of the box) are those of the exact cells, every remote neighbour has a halo particle at its place, and the result does not depend on the number of ranks or the first search radius.",
  ["inputs", "configurations"], "every particle set, number of ranks, decomposition and search radius",
  "The existing test compares two decompositions of one random set within one process.",
  ["src/voronoi/constructor/halo_iteration.rs", "src/voronoi/constructor/parallel/mod.rs", "src/voronoi/constructor/parallel/plugin.rs", "src/voronoi/constructor/parallel/mpi_types.rs", "src/voronoi/constructor/halo_cache.rs", "src/sweep/grid/cell.rs"],
  [("iterative import of haloes until all circumspheres are complete", "src/voronoi/constructor/halo_iteration.rs"), ("exchange of search requests", "src/voronoi/constructor/parallel/mod.rs")],
  ["cells, faces and neighbours of each particle, halo particles"], "none beyond the public plugins")

P("C21", "Predefined direction sets cover the sphere evenly",
  "Each predefined set holds as many directions as its number says; they are unit vectors, pairwise clearly apart, with a direction close to every point of the sphere; their sum vanishes, so that an isotropic source has no net flux in any direction, and the flux through every plane and the mean squared projection on every axis are those of an isotropic distribution. All of this is unchanged by any series of rotations of the set.",
  ["inputs", "histories"], "every predefined set, every series of rotations and every axis",
  "No test looks at the direction tables at all.",
  ["src/sweep/direction/healpix.rs", "src/sweep/direction/mod.rs"],
  [("tables of directions", "src/sweep/direction/healpix.rs"), ("rotation of the set", "src/sweep/direction/mod.rs")],
  ["direction vectors"], "access to the private tables and functions")

P("C22", "A run yields what its input files and parameters say, on any number of ranks",
  "A run of the program reads every particle of its input files once, whatever the files, units and powers of the scale factor and the Hubble parameter in their attributes, the box, the cosmology, the direction set, the sources and the grid file; it ends regularly, and every particle of every snapshot has the position, density, mass, source, ionized fraction, temperature, rates and ionization time that follow from the input by the sweep up to the time of the snapshot. The time series hold one entry per step with the averages over those same particles. All of this is the same for every number of ranks, of input and of output files.",
  ["inputs", "configurations", "histories"], "every input, unit system, parameter file and number of ranks",
  "No test runs the program as a whole: reading, decomposition, grid, sweep and output are only tested apart, if at all.",
  ["src/main.rs", "src/lib.rs", "src/io/input/mod.rs", "src/io/unit_reader.rs", "src/io/output/mod.rs", "src/io/time_series.rs", "src/io/to_dataset.rs", "src/arepo_postprocess/mod.rs", "src/arepo_postprocess/read_grid/mod.rs", "src/sweep/time_series.rs", "src/sweep/mod.rs", "src/cosmology.rs", "src/simulation_plugin/mod.rs"],
  [("units and scale factors read from attributes", "src/io/unit_reader.rs"), ("grid given by file", "src/arepo_postprocess/read_grid/mod.rs"), ("systems run in the order of stages", "src/simulation/mod.rs")],
  ["contents of snapshots and time series"], "the program itself; hooks for the reference solver")

P("C24", "Parameters are those of file and command line, or the run does not start",
  "For every parameter file and list of overrides, each section has the value the file gives it, with the overrides applied in their order, and the documented default for each key that neither mentions, quantities being read in the units they are given in. A file that is not valid YAML, a missing required key, an unknown key or section, and a value of the wrong kind or dimension, in the file or in an override, end the run instead of being ignored. The copy of the parameters the program writes reads back as the parameters it used.",
  ["inputs"], "every parameter file and list of overrides",
  "Existing tests read a few tiny files; combinations of omitted sections, overrides, defaults and mistakes are what users write.",
  ["src/parameter_plugin/parameter_file_contents.rs", "src/parameter_plugin/mod.rs", "src/command_line_options.rs", "src/io/output/parameters.rs", "src/simulation/mod.rs", "src/simulation_box.rs", "src/sweep/parameters.rs", "src/cosmology.rs", "src/units/mod.rs"],
  [("overrides merged into sections", "src/parameter_plugin/parameter_file_contents.rs"), ("parsing of overrides", "src/command_line_options.rs"), ("unknown sections rejected", "src/simulation/mod.rs")],
  ["parameter structures, copy of the used parameters, panics"], "access to the private parser")

P("C25", "Stars of the input shine as their age, metallicity and mass demand",
  "With sources from the initial conditions, every star particle in the input, in whatever file and units, adds to the gas cell it lies in the photon rate of the BPASS table at its age and metallicity, linear between the entries and cut off at its ends, times its mass in solar masses and the escape fraction; its age is the time from its formation to the scale factor of the run in the given flat cosmology. Wind particles (formation time not above zero) add nothing. The sum over all stars is the total luminosity in the output, on every number of ranks, and files without stars change nothing.",
  ["inputs", "configurations"], "every set of stars, files, units, cosmology and number of ranks",
  "No test reads a star or looks up a rate; a wrong age or weight gives plausible but wrong luminosities.",
  ["src/arepo_postprocess/sources.rs", "src/arepo_postprocess/bpass.rs", "src/cosmology.rs", "src/source_systems.rs", "src/io/input/mod.rs"],
  [("table lookup", "src/arepo_postprocess/bpass.rs"), ("stars and wind", "src/arepo_postprocess/sources.rs"), ("age", "src/cosmology.rs")],
  ["source field and evolution in snapshots, total_luminosity"], "none: the program itself")

P("C27", "A run can take over the state of an earlier one",
  "With remap_from, every cell starts with the larger of its own ionized fraction and that of the nearest particle of the earlier run in its last (highest-numbered) snapshot, and the same for its temperature; positions are those in the first snapshot, scaled to the scale factor of the present run. This holds with and without cosmology, for any numbers of ranks, snapshots and files per snapshot, and for any distribution of the earlier particles, even where a rank has none of them.",
  ["inputs", "configurations"], "every pair of an earlier run and a present one, every number of ranks",
  "No test remaps; particles paired with the state of others look plausible.",
  ["src/arepo_postprocess/remap.rs", "src/io/input/mod.rs", "src/io/input/attribute.rs"],
  [("search for the nearest particle over all ranks", "src/arepo_postprocess/remap.rs"), ("first and last snapshot", "src/arepo_postprocess/remap.rs"), ("files of a folder", "src/io/input/mod.rs")],
  ["fields in snapshots of the later run"], "none: the program itself")

P("C26", "A run uses the direction set its parameters ask for",
  "A list of directions in the parameters, of vectors of any length, gives one direction per vector, of length 1, parallel to it and in the order of the list. A number of directions gives a set of exactly that many different unit vectors that cancel out, or the run does not start if there is no such set. With rotating directions, a run makes the same steps and snapshots as without, all results stay finite and positive, and the rates in a snapshot are those of the light that arrives in each cell.",
  ["inputs", "configurations", "histories"], "every list or number of directions, every run",
  "Tests use a few fixed directions; none rotates them in a run.",
  ["src/sweep/direction/mod.rs", "src/sweep/parameters.rs", "src/sweep/mod.rs"],
  [("sets by number and normalisation", "src/sweep/direction/mod.rs"), ("rotation after each step", "src/sweep/direction/mod.rs")],
  ["directions used by the sweep, fields of snapshots"], "access to the private set of directions; the program itself")

P("C23", "Output goes to its folder only, and older output is treated as asked",
  "A run writes its snapshots, time series, copy of the parameters and logs to the folders and files its parameters name, and changes nothing outside of its output folder. If the folder exists, the run ends without changing anything in it, or replaces only the files it writes, or starts from an empty folder, as the parameters say (the first if they say nothing); the results are those of a run into a new folder in every case, with nothing of older time series in them. A run from the copy of the parameters gives the same results again.",
  ["inputs", "configurations", "histories"], "every parameter file, every state of the output folder, every number of ranks",
  "No test writes into a folder that exists; losing or mixing the results of an older run is noticed too late.",
  ["src/io/output/mod.rs", "src/io/output/parameters.rs", "src/io/output/plugin.rs", "src/io/time_series.rs", "src/simulation_builder.rs", "src/performance.rs"],
  [("existing output", "src/io/output/mod.rs"), ("time series start empty", "src/io/time_series.rs"), ("folders made before any log", "src/simulation_builder.rs")],
  ["files in and around the output folder"], "none: the program itself, run by an unprivileged user in a folder of its own")

P("C28", "A run that makes its own grid sees the gas as the Voronoi cells of its particles",
  "A run whose parameters ask for a grid of its own, on any number of ranks, ends regularly and yields what the sweep over the Voronoi cells of all particles of the input yields: masses are densities times volumes of those cells, light passes exactly through their faces, and leaves the box at its sides, or enters again on the other side if the box is periodic. Schedule, snapshots and time series are those of the parameters, and the results do not depend on the number of ranks or the first search radius.",
  ["inputs", "configurations", "histories"], "every set of particles, box, first search radius and number of ranks",
  "No test runs the program with a grid of its own; decomposition, grid and sweep have to agree on ids, ranks, neighbours and units.",
  ["src/voronoi/constructor/parallel/plugin.rs", "src/voronoi/constructor/halo_iteration.rs", "src/arepo_postprocess/mod.rs", "src/sweep/mod.rs", "src/sweep/grid/cell.rs", "src/domain/mod.rs", "src/particle.rs"],
  [("grid inserted as components of particles", "src/voronoi/constructor/parallel/plugin.rs"), ("choice of grid and its sides", "src/arepo_postprocess/mod.rs"), ("cells taken over into the sweep", "src/sweep/mod.rs")],
  ["contents of snapshots and time series"], "the program itself; hooks for the reference solver")

P("C29", "Cartesian grids fill the box and agree on all ranks",
  "A Cartesian grid of a box whose sides are multiples of the cell size (to rounding) has that many cells per side, each once and on one rank, in layers ordered by rank and about equally many on each. Every cell has the volume, size, face areas and normals of a cube; its six neighbours are the cells next to it, told to be local or on the rank that has them; at the sides of the box there is a boundary, or the cell on the other side with the right wrap if the grid is periodic. Every rank has one halo for exactly the cells of other ranks next to its own, at their places.",
  ["inputs", "configurations"], "every number of cells, cell size and number of ranks, periodic or not",
  "Tests use a few small grids of one size and look only at fluxes at the end.",
  ["src/sweep/grid/cartesian.rs", "src/sweep/grid/mod.rs", "src/sweep/grid/cell.rs"],
  [("number of cells", "src/sweep/grid/cartesian.rs"), ("neighbours and wraps", "src/sweep/grid/cartesian.rs"), ("local cells and haloes", "src/sweep/grid/cartesian.rs")],
  ["cells, ids and haloes of each rank"], "none beyond public items")

P("C30", "Periodic boxes, their parts and search trees agree with geometry",
  "In every box, wherever it is and whatever its sides, wrapping a position gives an image of it in the box (itself if it is inside); the distance of two positions in the box is that to the nearest image, alike both ways; and a position has 27 images, one for each wrap. The eight parts of a box tile it and hold the positions said to be in them; boxes around positions or boxes are the smallest, and distance to a box, volume and longest side are theirs; boxes read from text are those described. The search tree of any set of particles, coinciding ones included, holds each once, in a leaf whose box contains it, is divided only where more particles than allowed meet and never below its depth, and a search within any radius finds exactly the particles whose nearest image is closer.",
  ["inputs"], "every box, position, set of particles, tree configuration and radius",
  "Tests wrap and search a few positions in two boxes; faces, middles, coinciding particles and uneven sides are where such code fails.",
  ["src/simulation_box.rs", "src/domain/extent.rs", "src/quadtree/mod.rs", "src/quadtree/radius_search.rs", "src/quadtree/config.rs"],
  [("wrapping and distances", "src/simulation_box.rs"), ("parts of a box", "src/domain/extent.rs"), ("division of nodes", "src/quadtree/mod.rs"), ("pruning of searches", "src/quadtree/radius_search.rs")],
  ["positions, boxes, contents of trees, results of searches"], "access to images and the parts of a tree")

P("C31", "Messages about particles reach the entity and particle they name",
  "A request that carries an entity, of whatever index and generation, arrives with exactly that entity and its data, so that the reply finds the entity that asked even if others have come and gone before; particle ids, positions, sources, photon rates of the sweep and optional values of them arrive with every field as sent. This holds singly, in sequences exchanged between all ranks, and gathered from all ranks.",
  ["inputs", "histories"], "every entity, value, sequence and number of ranks, every history of entities",
  "The existing test packs a few entities one at a time and compares the packed key only.",
  ["src/communication/identified.rs", "src/communication/communicated_option.rs", "src/particle.rs", "src/sweep/task.rs", "src/components.rs"],
  [("entity in a message", "src/communication/identified.rs"), ("layout of photon rates", "src/sweep/task.rs")],
  ["received messages"], "access to the type of the chemistry")

P("C32", "Cosmic times and scale factors belong together",
  "For every flat cosmology, also one without dark energy, the time between two scale factors is the integral of the inverse Hubble rate between them: zero from a scale factor to itself, positive forwards, opposite backwards, and additive. The scale factor found for a time after (or before) another one is the one that lies this time away, to a hundred years, and redshift and scale factor written with a time belong to it.",
  ["inputs"], "every flat cosmology, Hubble parameter and pair of scale factors",
  "One cosmology and a few pairs are tested, and only that the two functions invert each other.",
  ["src/cosmology.rs", "src/time_spec.rs"],
  [("time between scale factors", "src/cosmology.rs"), ("search for the scale factor", "src/cosmology.rs"), ("times in output", "src/time_spec.rs")],
  ["times, scale factors and redshifts"], "none beyond public items")
