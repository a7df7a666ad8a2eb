CHECKS = {
    "C01": dict(
        sources=["c01_main.cpp", "c01_c.cpp", "c01_f.cpp", "c01_l.cpp", "c01_k.cpp"],
        rule="A case is one grid (storage policy, checking policy, element type, rank 1-10, extents incl. negative, single-cell and far-from-origin "
             "bounds, construction route); every position is written by one accessor and read back through all others. Non-trivial: at least one "
             "monitored access; distinct by the full case description."),
    "C02": dict(
        sources=["c02_main.cpp", "c02_b.cpp", "c02_k.cpp"],
        rule="A case is one random history of construct/copy/assign/self-assign/resize/pass-by-value/fill/write/destroy over up to 8 grid handles; "
             "after every step every handle is compared with a model of the data it shares. Distinct by the full history text."),
    "C03": dict(
        sources=["c03_main.cpp", "c03_b.cpp", "c03_c.cpp"],
        rule="A case is one range (rank 1-10, int/long/unsigned/double bounds, empty, single-point, offset and far-away boxes, five construction routes): the visit "
             "traces of iterators, range-for and the C, Fortran and Kokkos iteration policies are compared with an independently generated trace, and membership, "
             "projection and growth with integer arithmetic. Distinct by description."),
    "C04": dict(
        sources=["c04_main.cpp", "c04_b.cpp", "c04_c.cpp", "c04_d.cpp"], flags=["-O0"],
        rule="A case draws array contents for one pair of element types and one length and evaluates ten expressions (or all compound assignments, reductions, "
             "projections, comparisons) both on the arrays and element by element on plain scalars; operands must stay unchanged and the target may alias an operand. "
             "Distinct by operand values."),
    "C05": dict(
        sources=["c05_main.cpp", "c05_b.cpp", "c05_c.cpp", "c05_d.cpp"],
        rule="A case is one grid pair combined with += or -=, one sub grid with a random sequence of window and base operations, one transformed grid, or one index "
             "presented to a checking policy in a forked child; all positions are compared with a position-wise model after each step. Distinct by description."),
    "C06": dict(
        sources=["c06_main.cpp", "c06_b.cpp"],
        rule="A case is one boundary (domain, ghost width) whose ghost, source, boundary and inner regions are compared with interval arithmetic in every dimension, or "
             "one field (extent, ghost width, physical domain, staggering, construction/copy/assignment/resize route) whose index-position maps are compared at every index. "
             "Distinct by description."),
    "C07": dict(
        sources=["c07_main.cpp"],
        rule="A case is one serial subdivision (rank 1-4, grid or field, storage order, ghost width, offset and tiny domains, init route) driven through a random "
             "history of exchange/accumulate per dimension or over all dimensions; after every step every cell incl. corners is compared with a periodic model. Distinct by description."),
    "C08": dict(
        sources=["c08_main.cpp"], lib=True, np=dict(quick=[1, 2, 3, 4, 6, 8], thorough=[1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 16]), parallel=2,
        timeout=dict(quick=400, thorough=2400),
        rule="A case is one global domain (rank 1-4, offset, ghost width, init route) split by a real MPI run with the given process count; the pieces of all "
             "processes are gathered and checked for overlap, cover, alignment, balance, boundary flags, identities and physical extents. Distinct by description per process count."),
    "C09": dict(
        sources=["c09_main.cpp", "c09_b.cpp", "c09_c.cpp"], flags=["-O0"], lib=True, np=dict(quick=[1, 2, 3, 4, 6, 8], thorough=[1, 2, 3, 4, 5, 6, 7, 8, 9, 12]), parallel=2,
        timeout=dict(quick=450, thorough=3000),
        rule="A case is one global domain split over the given number of MPI processes and driven through a random history of exchange/accumulate (per dimension and "
             "over all), buffer exchange or reductions, with randomly delayed processes; every local cell incl. ghost corners of every process is compared with a model holding "
             "all processes' cells. Distinct by description per process count."),
    "C10": dict(
        sources=["c10_main.cpp"], flags=["-O0"], lib=True,
        rule="A case is one generated setup file of up to six assignments or declarations whose random expressions (all operators, signs, parentheses, literal forms, "
             "constants, run-time variables, 30 functions, mixed types, noise of white space and comments) are evaluated by the real parser and by an independent evaluator "
             "with an error bound; run-time variables are moved through several points. Distinct by the text of the setup file."),
    "C11": dict(
        sources=["c11_main.cpp"], flags=["-O0"], lib=True,
        rule="A case is one generated setup file (nested named and unnamed blocks of five classes, declarations that hide outer names, assignments and references to own, "
             "enclosing and path-qualified variables), interpreted by a reference model of scopes; or such a file with one fault of 16 kinds planted at a known line. All "
             "block instances, their parents, order, parameters and every variable of every scope are compared. Distinct by the text."),
    "C12": dict(
        sources=["c12_main.cpp"], flags=["-O0"], lib=True,
        rule="A case is one text given to the parser: token soup and token-mutated setup files judged by an independent recogniser of the language and by a sentinel "
             "statement at the end, byte-mutated files and random bytes, oversized tokens, nesting, overflowing numbers, truncated files, and good files read after bad ones. "
             "Sanitizers, a hang watchdog and an exception filter observe every run. Distinct by the text."),
    "C13": dict(
        sources=["c13_main.cpp"], flags=["-O0"], lib=True,
        rule="A case is one generated setup file whose variables form a random dependency graph across nested blocks, followed by a random history of moving independent "
             "variables, adding and clearing dependents and independents, updating one of two updaters, updating all and recreating the map; after every update each registered "
             "dependent is compared with a recursive reference evaluation. Further cases: self-changing functions, cycles, failing updates, parameter groups, array parameters. Distinct by text."),
    "C14": dict(
        sources=["c14_main.cpp"], flags=["-O0"], lib=True,
        rule="A case is one generated hierarchy of blocks (six classes incl. container, child and grouping blocks, up to seven levels, from a setup file or built by hand) taken "
             "through parsing and initAll from a random block; the recorded hook trace is compared with the specified one, online monitors check parameter values and container "
             "contents inside hooks, hooks may throw, files may be faulty, a second hierarchy may exist. Distinct by text."),
    "C15": dict(
        sources=["c15_main.cpp"], flags=["-O0"], lib=True,
        rule="A case is one hierarchy of blocks from a generated setup file in which random blocks register data of six types under colliding keys, followed by 60 (120 when thorough) "
             "retrievals by value and by pointer from random blocks with plain and path keys, with further registrations in between; outcome and address are compared with an "
             "independent search of the hierarchy. Distinct by text and registrations."),
    "C16": dict(
        sources=["c16_main.cpp"], flags=["-O0"], lib=True, np=dict(quick=[0, 3], thorough=[0, 1, 2, 4, 6]), parallel=2,
        rule="A case is a set of up to five diagnostics (interval or physical time, appending or not, master only or all, file name patterns) driven through a random "
             "history of time steps, jumps, adjusted steps and destructions by the real manager; every open/write/close call, and in a second family the bytes in real files, is "
             "compared with a reference schedule after each execution. A third family runs as several MPI processes, each told by its decomposition which process it is. "
             "Distinct by description."),
    "C17": dict(
        sources=["c17_main.cpp", "c17_b.cpp", "c17_c.cpp"], flags=["-O0"], lib=True, np=dict(quick=[1, 2, 3, 4, 6], thorough=[1, 2, 3, 4, 5, 6, 8]), parallel=2,
        timeout=dict(quick=450, thorough=3000),
        rule="A case writes up to six data sets of a global domain, cut at random between the (possibly not all active) processes with random ghost margins, to real HDF5 files, "
             "compares names, types, extents, every value and attribute with the plain HDF5 library, and reads them back with a different cut; or drives grid diagnostics and "
             "readers from a setup file. Distinct by description per process count."),
    "C18": dict(
        sources=["c18_main.cpp"], flags=["-O0"], lib=True,
        rule="A case is up to five real and integer fields (rank 1-3, three storage policies, offset bounds, ghost cells, physical domain, staggering) filled from the "
             "random formulas of a generated setup file by fill_field with registered or given dependents or by a FieldFiller, repeatedly while time moves on; every cell incl. "
             "ghost cells is compared with an independent evaluation at its position. Further cases: array parameters of rank 1 to 6 in every form. Distinct by text."),
    "C19": dict(
        sources=["c19_main.cpp"], flags=[], lib=True,
        rule="A case is a block of 16 consecutive process counts, each split into one to four factors with random weights (all counts up to 2560, 8192 when thorough), or one "
             "count of a chosen prime structure with up to five factors; the factors are multiplied and compared with the count, and their sum over weights with the smallest one found by enumeration. Distinct by arguments."),
    "C20": dict(
        sources=["c20_main.cpp"], flags=[], lib=False,
        rule="A case is one random grid of rank 1 to 5 (three storage policies, four element types, offset bounds) or array streamed with random formatting; the text is compared "
             "byte by byte with the documented layout of the model's values. Distinct by bounds, formatting and values."),
    "C21": dict(
        sources=["c21_main.cpp"], flags=[], lib=True,
        rule="A case is one history of a process' literature manager: random references of all thirteen kinds, copied, assigned, altered by setters, added with new and repeated "
             "keys and descriptions; after each round the BibTeX and LaTeX output is read back by an independent reader and compared with the model. Distinct by description."),
    "C22": dict(
        sources=["c22_main.cpp"], flags=["-O0"], lib=True, np=dict(quick=[1, 2, 3, 4, 6], thorough=[1, 2, 3, 4, 5, 6, 8]), parallel=2,
        timeout=dict(quick=450, thorough=3000),
        rule="A case packs random sets of objects of five types repeatedly into one data buffer and reads them back, or lets up to 60 particles move for several steps over a "
             "periodic domain divided between the processes, migrating through data buffers; an exactly-once and conservation monitor compares the particles of every process after each "
             "step with the global reference. Distinct by description per process count."),
    "C23": dict(
        sources=["c23_main.cpp"], flags=[], lib=True,
        rule="A case draws 400 random numbers over a stand-in for the C library's generator that also returns its extreme values, or applies the comparison, vector and mean helpers "
             "to random and extreme operands, and compares every result with its definition. Distinct by operands and generator state."),
    "C24": dict(
        sources=["c24_main.cpp", "c24_a.cpp", "c24_b.cpp"], flags=[], lib=False, san="tsan",
        rule="A case lets two to six threads at once write distinct elements of one grid by every access route, window and iteration, read the same grids, fields, views, ranges, "
             "boundaries and arrays, or run random histories on grids and buffers of their own; ThreadSanitizer watches every access, and each thread's result is compared with the same "
             "work done by one thread alone. The order in which threads pass their sample points is recorded. Distinct by description."),
    "C25": dict(
        sources=["c25_main.cpp", "c25_b.cpp"], flags=["-O0"], lib=True, np=dict(quick=[1, 2, 3, 4, 6], thorough=[1, 2, 3, 4, 5, 6, 8]), parallel=2,
        timeout=dict(quick=600, thorough=3000),
        rule="A case is one whole simulation of rank 1 to 3 described by a generated setup file: two staggered fields filled from formulas on a serial or MPI subdivision, several steps of six kinds "
             "(staggered differences, neighbour sums with corners, deposition with accumulation, global reductions, sources and outer boundaries, particles that move between processes and are deposited), HDF5 output by step and by time, and a restart from files "
             "with another ghost width; after every step each process' cells, and afterwards every file, are compared with the same simulation on one global periodic array. Distinct by description per process count."),
}
