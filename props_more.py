prop("C03", "A range is exactly its index box, and every way to iterate visits it once",
     "A range of any rank with inclusive limits contains exactly the positions that lie between its limits in every dimension, and none if the upper limit is below the lower one in any dimension: membership tests, "
     "iterators (pre- and post-increment, copies, comparison) and range-for loops agree on this for signed, unsigned, 64-bit and real limits up to the extreme values of their type (a position that is not a number lies in no range). Iterators and the C-order traversal visit each position once with the last index "
     "fastest, the Fortran-order traversal with the first index fastest, and the Kokkos traversal (with upper limits below the largest value) visits each position once in any order. Limits are reported as given, projecting drops exactly the named dimensions, growing "
     "moves each limit outwards by exactly the given amount, and copies are independent.",
     ["inputs", "configurations"], "All ranks, limit types, boxes (empty, single-cell, offset, far away) and iteration routes.",
     "The tests iterate over a few small non-empty boxes; empty ranges, post-increment, per-dimension growth, extreme limits and membership at all faces are not covered.",
     ["src/grid/range.hpp", "src/grid/iteration/range-iteration.hpp", "src/grid/iteration/kokkos-iteration.hpp"],
     [("iterator stepping", "Range::iterator::increment"), ("nested loops", "RangeCIterationPolicy / RangeFortranIterationPolicy / RangeKokkosIterationPolicy")],
     "runtime monitoring: visit-trace checker against an independently generated trace, under ASan+UBSan",
     SAN + "The recorded visit sequence of each iteration route is compared with the expected sequence." + ASSUME,
     ["Range iterators", "forEach", "inside", "grow", "project"])

prop("C04", "Array arithmetic equals the same arithmetic done element by element",
     "Any expression built from fixed-size arrays, scalars, +, -, *, / and unary signs evaluates, at every element, to what the same scalar expression of the elements gives in C++ (common arithmetic types, grouping and operand "
     "order included), for every length and mix of element types, and may be assigned (plainly or with +=, -=, *=, /=) to an array that is itself an operand. Comparisons hold if and only if they hold for all elements, those that are not a number included (and != is the negation of ==), "
     "sum, product and sum of squares, constructors, fill, clear, projection and converting copies are element-wise exact, and operands never change. An array with the asserting check stops the program on any index "
     "outside it and on no other.",
     ["inputs", "programs", "configurations"], "All expressions, element types, lengths 1-10 (and some longer), operand values of any magnitude and aliasing patterns.",
     "The tests evaluate fixed expressions over one element type at a time; mixed types, nested non-commutative expressions, aliasing and compound assignment of expressions are not sampled.",
     ["src/grid/array.hpp", "src/grid/array.t", "src/grid/arrayexpression.hpp"],
     [("expression templates", "ArrayBinaryOp, ArrayUnaryOp and the operator generators in arrayexpression.hpp"), ("member operators", "Array::operator op=")],
     "runtime monitoring: differential element-wise oracle under ASan+UBSan, forked death monitor for the asserting policy",
     SAN + "Each expression is evaluated both on arrays and on their scalars, with random values." + ASSUME,
     ["Array operators", "ArrayExpression::operator[]"])

prop("C05", "Grid views and whole-grid operations act on exactly the positions they name",
     "Adding or subtracting a grid changes every position of the target by the operand's value at that same position whatever the two storage orders or element types, and nothing else. A sub grid is a window: for any history of window moves, "
     "fills, single writes and changes of the base (resize included), reading or writing it at an index is reading or writing the base there, iterating it visits every window cell once and no other, and a transformed grid always reads as the transformation of "
     "the base's current value. Index checking policies let every valid index through unchanged; for an invalid one the asserting policy stops the program and the debug policy uses the nearest valid index and reports the offending one.",
     ["inputs", "histories", "configurations"], "All pairs of grids, windows, transformations, histories and indices.",
     "No test instantiates sub grids or transforms, and grid arithmetic is tested on equal layouts only.",
     ["src/grid/grid.t", "src/grid/subgrid.hpp", "src/grid/subgrid.t", "src/grid/gridtransform.hpp", "src/grid/gridcheck.hpp"],
     [("grid arithmetic", "GridBase::operator+= / -="), ("window storage", "SubGridStorage"), ("index checks", "GridAssertCheck, GridDebugCheck")],
     "runtime monitoring: position-wise model of windows and operations under ASan+UBSan, forked death monitor for checking policies",
     SAN + "All positions of base, window and operand are compared with a model after each step." + ASSUME,
     ["Grid::operator+=", "SubGrid", "GridTransform", "GridDebugCheck"])

prop("C06", "Ghost regions and field positions follow the declared geometry",
     "For any domain and ghost width the ghost cells of each side, the inner cells next to them that feed the opposite neighbour, the boundary cells (one fewer on the lower side of a staggered dimension) and the inner domain are exactly the regions of that width, "
     "so that in each dimension ghosts and inner cells partition the domain, and a ghost view of a grid or field touches those cells only. A field of any extent, ghost width, physical domain and staggering has the inner and total bounds, domain and "
     "staggering it was given, whether constructed, copied, assigned or resized. Its index-to-position map is the affine map that puts the inner cells evenly on the physical domain, shifted by half a cell in staggered dimensions, and "
     "position-to-index inverts it, ghost cells included.",
     ["inputs", "configurations"], "All ranks, domains, ghost widths, physical domains, staggerings, construction and resize routes.",
     "No test touches Boundary or Field.",
     ["src/grid/boundary.hpp", "src/grid/boundary.t", "src/grid/field.hpp", "src/grid/field.t"],
     [("ghost regions", "Boundary::getGhostDomain/getGhostSourceDomain/getBoundaryDomain/getInnerDomain"), ("position maps", "Field::indexToPosition/positionToIndex")],
     "runtime monitoring: interval-arithmetic and affine-map oracle under ASan+UBSan",
     SAN + "Every region and every index of random fields is compared with an independent computation." + ASSUME,
     ["Boundary", "Field"])

prop("C07", "A serial subdivision makes the domain periodic and conserves what it accumulates",
     "With a single process, exchanging a grid or field in a dimension gives every ghost cell in that dimension the value of the inner cell one period away and changes no inner cell; exchanging all dimensions makes the whole domain, edges and corners included, periodic. "
     "Accumulating in a dimension gives each inner cell and all its periodic images in that dimension the sum of their values, so nothing is lost or counted twice. "
     "This holds for every rank, extent and ghost width for which the inner domain is wide enough and after any history of these operations; the subdivision reports the domain, inner domain and physical extent it was given, reductions return their argument and exchanged buffers arrive unchanged.",
     ["inputs", "histories", "configurations"], "All ranks, domains, ghost widths, storage orders and histories of exchange and accumulate.",
     "No test touches domain subdivisions.",
     ["src/grid/domainsubdivision.hpp", "src/grid/domainsubdivision.t", "src/grid/boundary.t"],
     [("serial exchange", "SerialSubdivision::exchange / accumulate / exchangeData")],
     "runtime monitoring: cell-exact periodic model over random histories under ASan+UBSan",
     SAN + "Every cell is compared with a periodic model after every operation." + ASSUME,
     ["SerialSubdivision::exchange", "accumulate", "getInnerDomain", "getInnerExtent"])

prop("C08", "An MPI subdivision tiles the global domain between the processes",
     "For any number of processes and any global domain large enough to give each process cells, the inner domains of all processes are non-empty, disjoint, lie inside the global domain, cover it completely, differ by no more than two cells per dimension and are aligned so that each process has "
     "exactly one neighbour on either side in every dimension (periodically, possibly itself); each local domain is the inner one widened by the ghost width. Longer dimensions are cut into more pieces, as the even split of the process count weighted with the extents demands. Boundary flags are set exactly on the pieces that touch the global bounds, "
     "ranks and ids are unique with exactly one master, and the physical extents of the pieces are the matching parts of the whole extent.",
     ["inputs", "configurations"], "All process counts, ranks, global domains (offset, small, uneven) and ghost widths.",
     "No test touches MPI subdivisions, and none runs under MPI with more than one process.",
     ["src/grid/mpisubdivision.hpp", "src/grid/mpisubdivision.t", "src/grid/domainsubdivision.hpp", "src/util/factor.cpp"],
     [("splitting", "MPICartSubdivision::init"), ("extent", "DomainSubdivision::getInnerExtent")],
     "runtime monitoring: gathered global partition checker on real MPI runs (1-16 processes) under ASan+UBSan",
     SAN + "All pieces are gathered and checked for overlap, cover, alignment and balance." + ASSUME,
     ["MPICartSubdivision"])

prop("C09", "MPI exchange, accumulation and reductions act as on one global periodic grid",
     "For any process count, global domain and ghost width that fits, exchanging a grid or field gives every ghost cell of every process the value of the cell it images on the global periodic domain (corners included when all dimensions are exchanged) and leaves inner cells unchanged. "
     "Accumulating gives each cell and all its images on all processes the sum of their values. Sum, average, minimum and maximum reductions return the value over all processes on every process, and exchanged buffers of any "
     "(different, empty or large) sizes arrive complete and unaltered at the right neighbour; all of this for every element type, history of operations and relative timing of the processes.",
     ["inputs", "histories", "schedules", "configurations"], "All process counts, domains, element types, operation histories and process schedules.",
     "No test touches MPI subdivisions.",
     ["src/grid/mpisubdivision.hpp", "src/grid/mpisubdivision.t", "src/grid/boundary.t"],
     [("halo exchange", "MPICartSubdivision::exchange / accumulate / exchangeData"), ("reductions", "sumReduce/avgReduce/maxReduce/minReduce")],
     "runtime monitoring: distributed model checker over real MPI runs with injected delays under ASan+UBSan",
     SAN + "Each process holds a model of all processes' cells and compares its own after every operation; processes are delayed at random." + ASSUME,
     ["MPICartSubdivision::exchange/accumulate/exchangeData/*Reduce"])

prop("C10", "Setup file expressions evaluate to their arithmetic meaning",
     "Every expression in a setup file evaluates to its mathematical value: ^ binds tighter than * and /, these tighter than + and -, operators of equal precedence associate to the left, a sign may start an expression, parentheses and function arguments group, integers stay integers "
     "(division truncates) until combined with a float, and + joins strings. Function arguments are passed in order converted to their declared type, an assignment converts the value to the parameter's type, "
     "and parameters that are not set keep their default. This holds for every literal form, white space, comment, nesting (within the parser's stack), predefined constant and run-time variable, and the parsed formula gives the value for the variables' current values each time it is evaluated.",
     ["inputs", "programs"], "All expressions, operand types, functions, layouts of the text and values of run-time variables.",
     "The tests evaluate a few dozen fixed expressions; mixed types, deep nesting, left association across types and functions of run-time variables are not sampled systematically.",
     ["src/parser/deckgrammar.inc", "src/parser/parsertoken.cpp", "src/parser/deckscanner.cpp", "src/variables/expression.hpp", "src/variables/operators.hpp", "src/variables/types.hpp",
      "src/variables/function_expression.hpp", "src/functions.cpp", "src/variables/blockparameters.hpp"],
     [("grammar", "src/parser/deckgrammar.inc"), ("evaluation", "BinaryOp / UnaryOp / TypePromoter"), ("parameters", "ConcreteBlockParameter::evaluate")],
     "runtime monitoring: differential oracle with error bounds over generated setup files under ASan+UBSan",
     SAN + "Random expressions are evaluated by the library and by an independent evaluator that carries an error bound." + ASSUME,
     ["Parser::parse", "BlockParameters::evaluate", "DependencyUpdater::update"])

prop("C11", "Names in setup files resolve by block nesting, and faults are located",
     "The blocks created from a setup file are exactly those it declares, with the declared class, name, order and nesting, each with the parameters set in it. A name refers to the nearest enclosing declaration, a path a:b starts at the nearest "
     "enclosing block with a child of that name and then only descends, an assignment changes the nearest declared variable, and statements take effect in the order written. A file with a fault (undeclared or redeclared name, unknown "
     "block class or child, wrong type or argument, syntax error) is refused with an error that names the file and the exact line, and a required parameter that is never set is reported.",
     ["inputs", "programs"], "All block structures, scopes, name collisions, paths and single faults.",
     "The tests parse a handful of fixed files with one or two levels of nesting and check no error locations.",
     ["src/parser/deckgrammar.inc", "src/parser/parsercontext.hpp", "src/parser/parser.cpp", "src/variables/variables.cpp", "src/variables/block.cpp", "src/variables/blockclasses.cpp", "src/variables/blockparameters.cpp"],
     [("scoping", "BlockVariables::getVariable/exists, VariableStorage"), ("block creation", "ParserToken driver, BlockClasses"), ("error location", "ParserError::atToken")],
     "runtime monitoring: reference scope model over generated setup files and fault injection, under ASan+UBSan",
     SAN + "Generated files are interpreted by a reference model; every block, parent, parameter and variable is compared; planted faults must be reported at their line." + ASSUME,
     ["Parser::parse", "Block::getParent/getName", "ParserError"])

prop("C12", "Any text given as a setup file is accepted or refused cleanly",
     "Whatever bytes are given to the parser, it terminates and either succeeds having taken every statement into account or reports an error of the library's exception hierarchy; it never crashes, hangs, invokes undefined behaviour or drops part of the input silently. "
     "Text that is not in the language, a file that ends inside a statement or text, numbers that can not be represented, integer overflow and integer division by zero are refused. "
     "The outcome depends only on the text: reading it again, or after any other (valid or faulty) file, gives the same result.",
     ["inputs", "fault_sequences", "histories"], "All byte sequences, and all sequences of files read one after another.",
     "The tests feed well-formed files and a few faulty ones.",
     ["src/parser/deckscanner.cpp", "src/parser/deckscanner.hpp", "src/parser/parser.cpp", "src/parser/deckgrammar.inc", "src/parser/parsertoken.cpp", "src/variables/operators.hpp"],
     [("scanner state machine", "DeckScanner"), ("parser driver", "Parser::parse")],
     "runtime monitoring: fuzzing with ASan+UBSan, hang watchdog, exception filter, independent recogniser and sentinel statements",
     SAN + "Token soup, mutated files, random bytes and limit-breaking input are judged by an independent recogniser." + ASSUME,
     ["Parser::parse"])

prop("C13", "Derived parameters always match their formulas after an update",
     "After the independent variables change and the updater runs, every registered dependent parameter has the value of its formula at the current values, through any chain or graph of intermediate variables across blocks and any history of "
     "adding or clearing dependents and independents, using several updaters, updating all and rebuilding the map; each intermediate value is consistent for all its users, and functions that must always be evaluated are evaluated at every update. "
     "Independent variables and parameters that are not registered (any more) are never changed by an update. Cyclic definitions are reported as an error instead of hanging, and an update that fails reports an error and does not spoil later updates.",
     ["inputs", "histories", "fault_sequences"], "All dependency graphs and all histories of registration and update.",
     "The tests use fixed chains of at most a few variables and one updater.",
     ["src/variables/dependencies.cpp", "src/variables/dependencies.hpp", "src/variables/expression.hpp", "src/variables/function_expression.hpp", "src/variables/blockparameters.cpp"],
     [("update order", "DependencyMap::constructMapRecursive/makeUpdateList"), ("updater", "DependencyUpdater::update")],
     "runtime monitoring: recursive reference evaluation after every update of a random history, under ASan+UBSan",
     SAN + "Random dependency graphs are driven through random histories." + ASSUME,
     ["DependencyUpdater", "DependencyMap", "ParametersGroup"])

prop("C14", "Blocks go through their life cycle once each, phase by phase, in order",
     "Every block of a setup file has its parameters set up once when it is opened, and initialising the hierarchy from any of its blocks evaluates the parameters of all blocks and then runs registerData, preInit, init and postInit, "
     "each exactly once on every block in the order of the file and each phase completely before the next one. An exception in a hook reaches the caller and nothing runs after it, a faulty file initialises nothing, and other hierarchies are not touched. "
     "A container block holds exactly its child blocks of the contained type, in order, from init on, and parents and children of every block are those of the file.",
     ["inputs", "programs", "fault_sequences"], "All block hierarchies, starting blocks and failing hooks.",
     "The tests initialise a few fixed trees of two levels and never check the order between blocks.",
     ["src/variables/block.cpp", "src/variables/block.hpp", "src/variables/blockcontainer.hpp", "src/parser/parsercontext.hpp"],
     [("phases", "Block::initAll and the recursive *All methods"), ("containers", "BlockContainer / ChildBlock")],
     "runtime monitoring: trace of hook events against a trace specification, online checks inside hooks, under ASan+UBSan",
     SAN + "Recorded hook traces of random hierarchies are compared with the specified trace." + ASSUME,
     ["Block::initAll", "registerData/preInit/init/postInit", "BlockContainer::childBlocks"])

prop("C15", "Shared data is found by name, type and block nesting, or reported missing",
     "Retrieving data from a block gives exactly the object registered under that key and type by the block itself, otherwise by its nearest enclosing block (with a path a.b: as b in the child called a), otherwise the only match found when searching down from the root. "
     "Several equally near candidates are reported as duplicate and no candidate as not found, and neither ever yields data of another type, key or hierarchy. "
     "A later registration under the same key in the same block replaces the earlier one, and retrieving by pointer gives access to the registered object itself.",
     ["inputs", "histories"], "All hierarchies, registrations, types and keys.",
     "The tests register one or two values in a two-level tree.",
     ["src/variables/block.hpp", "src/variables/block.cpp", "src/variables/blockdata.hpp"],
     [("search", "BlockData<T>::get/exists, Block::retrieveData"), ("registration", "Block::addData")],
     "runtime monitoring: differential oracle (independent search of the hierarchy) over random registrations and retrievals under ASan+UBSan",
     SAN + "Outcome and address of each retrieval are compared with an independent search." + ASSUME,
     ["Block::addData", "Block::retrieveData"])

prop("C16", "Diagnostics write exactly when they are due and into the right file",
     "An interval diagnostic writes exactly at the time steps divisible by its interval and at negative (final) steps; a physical time diagnostic writes at the first execution at or after each of its output times, once per execution, and stepping with the adjusted time step meets every output time. "
     "Each output opens, writes and closes the file whose name has the step, output count and rank filled in, an appending diagnostic opens its file once at its first execution, and the data is in the file when the execution returns. "
     "Master-only diagnostics write only on the master while all processes agree on the next output time; destroyed diagnostics are never executed, and a missing time is reported before anything is written.",
     ["histories", "inputs", "configurations"], "All sets of diagnostics and all histories of time steps, restarts and destructions.",
     "The tests do not drive the diagnostic manager.",
     ["src/diagnostic/diagnostic.cpp", "src/diagnostic/diagnostic.hpp", "src/diagnostic/diagnostic.t"],
     [("schedule", "IntervalDiagnostic::execute, DeltaTimeDiagnostic::execute"), ("manager", "DiagnosticManager::execute/adjustDeltaT"), ("file names", "DiagnosticInterface::parsedFileName")],
     "runtime monitoring: trace of open/write/close events and files against a reference schedule, under ASan+UBSan",
     SAN + "Random diagnostics are driven through random histories of steps; all events and real files are compared with a reference schedule." + ASSUME,
     ["DiagnosticManager::execute", "open/write/close", "files"])

prop("C17", "HDF5 files hold exactly the global data, and reading restores each part",
     "However a global domain is cut between any number of processes, whichever of them are active, whatever ghost margins and storage order the grids have, writing it produces a file that holds under the expected name a data set of the global extent with "
     "every value at its global position, the element type and the attributes; successive data sets in one file are numbered (anew in each file) and successive files are complete, also when streams are copied or reused. Reading gives every process exactly the values of its own part, for any cut, and leaves cells outside it alone. "
     "Grid diagnostics and grid readers from a setup file do the same for the grid or the inner part of the field they name, and no combination of these operations hangs, aborts, changes the written grid or leaves a closed file open.",
     ["inputs", "configurations", "histories", "schedules"], "All domains, decompositions, process counts, active subsets, storage orders, element types and sequences of files.",
     "The tests never run the HDF5 code in parallel, with attributes, subsets or Fortran storage.",
     ["src/diagnostic/hdfdiagnostic.cpp", "src/diagnostic/hdfdiagnostic.hpp", "src/diagnostic/hdfdiagnostic.t"],
     [("selection of local and global hyperslabs", "HdfOStream::writeGrid, HdfIStream::readGrid"), ("communicators", "HdfStream::makeMPIGroup"), ("blocks", "HDFGridDiagnostic, HDFGridReader")],
     "runtime monitoring: files of real MPI runs verified with the plain HDF5 library, round trips, hang watchdog, under ASan+UBSan",
     SAN + "Real MPI runs with 1-6 (8) processes; each file is read back with the plain HDF5 library and compared element by element." + ASSUME,
     ["HdfOStream::writeGrid", "HdfIStream::readGrid", "HDFGridDiagnostic", "HDFGridReader"])

prop("C18", "Fields filled from formulas hold the formula's value at every cell position",
     "Filling a field from a formula of the setup file gives every cell, ghost cells included, the value of the formula with the coordinates set to that cell's physical position (respecting domain, resolution and staggering) and the other variables at their current values, whatever intermediate variables it goes through. "
     "This holds for real and integer fields of every rank and storage order, for fill_field with given or registered dependents and for FieldFiller, for every fill in a history, and filling one field changes no other field and no independent variable. "
     "Array parameters of any rank, default and name extension take their components one by one from the variable with their letter in the setup file and keep their defaults otherwise.",
     ["inputs", "histories", "configurations"], "All formulas, fields, staggerings and sequences of fills.",
     "The test suite never calls the field filling code.",
     ["src/tools/fieldtools.hpp", "src/tools/fieldtools.t", "src/variables/dependencies.cpp", "src/variables/blockparameters.hpp", "src/grid/field.t"],
     [("filling", "fill_field, FieldFiller::fillFields"), ("update", "DependencyUpdater::update"), ("positions", "Field::indexToPosition"), ("array parameters", "BlockParameters::addArrayParameter")],
     "runtime monitoring: differential oracle (independent evaluation of random formulas at every cell) under ASan+UBSan",
     SAN + "Every cell of every filled field is compared with an independent evaluation of the formula at its position." + ASSUME,
     ["fill_field", "FieldFiller::fillFields"])

prop("C19", "A process count is split into factors that multiply to exactly that count",
     "For every positive number of processes, number of dimensions and set of positive weights, splitting the number gives one positive factor per dimension whose product is exactly that number, so that every process has one place in the process grid. "
     "The split is as even as possible: the sum of factor over weight is no larger than for any split whose first factor is a multiple of the smallest prime factor, so with equal weights it is the smallest there is. The result depends on the arguments only, whatever the output vector held before, and the weights are left unchanged.",
     ["inputs"], "All process counts, dimensions and weights.",
     "The tests never call the factorisation.",
     ["src/util/factor.cpp", "src/util/factor.hpp"],
     [("factorisation", "makePrimes, factorize"), ("distribution", "distribute, equalFactors")],
     "runtime monitoring: product oracle over every count up to a bound and structured larger ones, under ASan+UBSan",
     SAN + "Every process count up to 2560 (8192 when thorough) in one to four dimensions with random weights, and larger structured counts." + ASSUME,
     ["equalFactors"])

prop("C20", "Streaming an array or grid writes every element once in the documented layout",
     "Writing an array or a grid of rank one to five to a stream writes each of its elements exactly once, in the stream's current number format, with the first index running fastest, elements of a row separated by single spaces, each row of a grid of rank two or more ended by a newline and each two-dimensional slice followed by an empty line. "
     "This holds for any bounds, element type and storage order; the grid is not changed and nothing else is written.",
     ["inputs", "configurations"], "All bounds, element types, storage orders and stream formats.",
     "The tests never stream a grid.",
     ["src/datastream.hpp", "src/datastream.t"],
     [("layout", "operator<< for Array and Grid")],
     "runtime monitoring: byte-wise comparison of the written text with an independent rendering of the model, under ASan+UBSan",
     SAN + "The text of each random grid or array is compared byte by byte with an independent rendering." + ASSUME,
     ["operator<<"])

prop("C21", "Every work referred to is listed once with all the information given",
     "After any history of adding references, the BibTeX output holds exactly one well-formed entry for each citation key that was added (and the one for Schnek itself), with the publication type and exactly the fields that were first given for it, under their own names and unaltered, whichever of the reference classes, setters, copies or assignments were used. "
     "The LaTeX report cites each of these works exactly once, under all of its distinct descriptions, with the given title, subtitle and bibliography file.",
     ["histories", "inputs"], "All references, kinds of publication and histories of additions.",
     "The tests do not touch the literature manager.",
     ["src/tools/literature.hpp", "src/tools/literature.cpp", "src/util/singleton.hpp"],
     [("records", "LiteratureManager::addReference"), ("output", "writeBibTex, writeInformation, operator<<"), ("kinds of publication", "LiteratureArticle and its siblings")],
     "runtime monitoring: output of random histories read back by an independent BibTeX/LaTeX reader, exactly-once monitor, under ASan+UBSan",
     SAN + "The outputs after every step of random histories are read back by an independent reader and compared with the model." + ASSUME,
     ["addReference", "writeBibTex", "writeInformation"])

prop("C22", "Objects sent through data buffers arrive exactly once and unaltered",
     "Packing the objects a container of pointers or iterators refers to gives a buffer that holds exactly these objects, byte for byte and in order, which its iterators visit once each; the buffer can be refilled with any number of objects, none included, and neither packing nor writing through the iterators changes the originals. "
     "Objects that migrate between the processes of a serial or MPI subdivision by exchanging such buffers in any dimension and direction are, after any number of steps and for any number of processes, held by exactly one process, the right one, unaltered.",
     ["inputs", "histories", "schedules", "configurations"], "All object types, sets of objects, histories of migration, process counts and relative timings.",
     "The tests never use data buffers.",
     ["src/util/databuffer.hpp", "src/util/databuffer.t", "src/grid/mpisubdivision.t", "src/grid/domainsubdivision.t"],
     [("packing", "DataBuffer::makeBuffer, DataBuffer::iterator"), ("transfer", "MPICartSubdivision::exchangeData, SerialSubdivision::exchangeData")],
     "runtime monitoring: exactly-once and conservation monitor over migrating objects in real MPI runs with random delays, under ASan+UBSan",
     SAN + "Real MPI runs with 1-6 (8) processes; after each step every process' objects are compared with the global reference." + ASSUME,
     ["DataBuffer::makeBuffer", "exchangeData"])

prop("C23", "Random numbers stay in range and numeric helpers match their definition",
     "Whatever values the system's random generator yields, extreme ones included, drand lies between 0 and 1 and irand(n) is one of 0 to n-1 for every positive n, and with ordinary values both cover their range. "
     "min, max, signum (1 for zero), signum0 (0 for zero), the cross product and the mean give their mathematical value for every arithmetic type and never change their operands, and every Unique object has an id of its own.",
     ["inputs", "histories"], "All generator values, ranges and operands.",
     "The tests never use these helpers; the extreme random values occur once in 10^9 draws.",
     ["src/functions.hpp", "src/functions.cpp", "src/algo.t", "src/util/unique.hpp"],
     [("random numbers", "drand, irand"), ("helpers", "min, max, signum, signum0, crossProduct, mean"), ("ids", "Unique")],
     "runtime monitoring: fault injection in the random generator and definition oracles, under ASan+UBSan",
     SAN + "rand() is replaced by a stand-in that also yields its extreme values; every result is compared with its definition." + ASSUME,
     ["drand", "irand", "helpers"])

prop("C24", "Threads that share grids for reading or write distinct elements do not interfere",
     "Any number of threads may at the same time read the same grid, field, sub grid, constant transformed grid, range, array or boundary by any accessor, iterator or iteration policy, and write distinct elements of one grid by any access route, through windows of their own or by iterating its range, "
     "for every storage order and element type; and each may construct, copy, assign, resize, fill and destroy array-stored grids, windows and data buffers that no other thread uses. Every thread then sees what it would see running alone, no write is lost, the shared objects keep their extents, and no two threads access the same memory without synchronisation unless both only read. "
     "(Copying, assigning or resizing a grid whose data another thread is using, reading a non-constant transformed grid, the debug checking policy and Kokkos allocations are not part of this.)",
     ["schedules", "inputs", "configurations"], "All schedules of any number of threads, grids, access routes and histories.",
     "The tests run one thread; a hidden cache or static variable is invisible to them.",
     ["src/grid/grid.t", "src/grid/gridstorage/single-array-storage-base.hpp", "src/grid/gridstorage/single-array-allocation.hpp", "src/grid/gridstorage/kokkos-storage.hpp", "src/grid/range.hpp", "src/grid/iteration/range-iteration.hpp", "src/grid/subgrid.hpp", "src/grid/field.t", "src/grid/boundary.t", "src/grid/array.t"],
     [("element access", "GridBase::operator(), operator[], get"), ("iteration", "Range::iterator, RangeCIterationPolicy, RangeFortranIterationPolicy"), ("geometry", "Field::indexToPosition, Boundary")],
     "runtime monitoring: ThreadSanitizer over real threads, with a comparison of every thread's result with the same work done alone",
     "ThreadSanitizer on the real code (all reports fatal); two to six threads per case, the order in which they pass sample points is recorded and the number of distinct interleavings reported." + ASSUME,
     ["GridBase", "Range", "Field", "Boundary", "SubGrid"])

prop("C25", "A simulation gives the same result on every number of processes",
     "A simulation described by a setup file - fields filled from its formulas, steps that read neighbouring cells after an exchange, deposit onto cells and accumulate, use global reductions, act on the outer boundary of the global domain, and move particles from process to process - has after every step, "
     "for every rank, global domain, ghost width and number of processes and on a serial or MPI subdivision alike, the cells and particles that one process working on a single global periodic array would have. "
     "The HDF5 files its diagnostics write, by step or by time, new or appended, hold the global fields of the moment they were due, and a simulation restarted from such files, with other ghost cells, goes on as if it had never stopped.",
     ["inputs", "histories", "schedules", "configurations"], "All setup files, process counts, domains, sequences of steps and relative timings.",
     "The tests run each part alone on one or a few processes; no test runs a simulation.",
     ["src/grid/mpisubdivision.t", "src/grid/domainsubdivision.hpp", "src/grid/domainsubdivision.t", "src/grid/field.t", "src/grid/boundary.t", "src/tools/fieldtools.t", "src/diagnostic/hdfdiagnostic.t", "src/diagnostic/diagnostic.cpp", "src/variables/block.cpp", "src/variables/dependencies.cpp", "src/parser/parser.cpp"],
     [("set-up", "Parser::parse, Block::initAll, fill_field, FieldFiller"), ("steps", "DomainSubdivision::exchange, accumulate, exchangeData, reductions"), ("files", "HDFGridDiagnostic, HDFGridReader, DiagnosticManager::execute")],
     "runtime monitoring: every step of real MPI runs compared with the same simulation on one global periodic array, exactly-once monitor over particles, files read back independently, under ASan+UBSan",
     SAN + "Real MPI runs with 1-6 (8) processes and random delays; every cell of every process is compared with the reference after every step." + ASSUME,
     ["DomainSubdivision", "fill_field", "HDFGridDiagnostic", "HDFGridReader"])
