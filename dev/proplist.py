TABLES = ("constant propagation over the module body (abstract interpretation), "
          "then comparison of every table entry with an independent physical "
          "reference")
ABSINT = ("path-sensitive abstract interpretation over value terms, specific to "
          "this code base, from the public entry point to the primitive operation")

prop('M01', "Unit and prefix definitions and conversion factors are physically right",
     "Every metric prefix, every named unit and every tabulated conversion factor the "
     "package ships denotes its accepted physical value: each spelling of a unit names "
     "the right prefix, unit and quantity, and each conversion factor equals the ratio "
     "of the two units. Chains of tabulated conversions between the same two units "
     "agree.",
     ['inputs'], "every prefix, unit spelling and pair of connected units",
     "the tests convert a few dozen units; the tables define hundreds of spellings and "
     "over fifty factors, and a wrong entry silently rescales data",
     ['metric/_reference.py'],
     [('prefix, unit and conversion tables', 'metric/_reference.py')],
     TABLES, "all table entries are examined; the reference data lives in sa/physics.py")

prop('M02', "Conversion factors and unit algebra agree with the sizes of units",
     "The factor from one unit to another is the size of the first over the size of "
     "the second, however it is found (same base unit, table, chain of conversions, "
     "prefixes, term by term, by dimensions), and the inverse conversion and the "
     "shift operators follow it. Compound units are converted only when every term "
     "is matched by one of opposite exponent, each factor raised to its term's "
     "exponent; units of different dimensions have no factor. A unit reduced or "
     "decomposed to base units equals its scale times those. Results kept for reuse "
     "are found only under the pair they were computed for. Converting to a metric "
     "system uses that system's unit of the quantity and refuses ambiguous units. "
     "Products, quotients and powers of units are those of their operands.",
     ['inputs', 'histories'], "every pair of units, every way to a factor",
     "the tests convert some dozens of pairs, many with factor one or symmetric "
     "exponents; a wrong direction, exponent or stale cached factor shows only for "
     "others",
     ['metric/_conversions.py', 'metric/_defined.py', 'metric/_units.py',
      'metric/_systems.py', 'container.py'],
     [('conversion search', 'metric/_conversions.py'),
      ('named units', 'metric/_defined.py'), ('unit algebra', 'metric/_units.py'),
      ('conversion graph', 'container.py')],
     ABSINT, "every path of the conversion functions, read as a product of unit sizes "
     "and compared with the required ratio; factors of the tables are M01")

prop('M03', "Universal constants have accepted values, coherent across systems",
     "Every universal constant has its accepted value in the MKS and in the CGS "
     "system, its unit in each system has the dimension of the constant, and both "
     "values denote the same physical amount. Looking up a constant returns the value "
     "and the unit of that same constant in the requested system.",
     ['inputs'], "every constant, metric system and look-up",
     "the tests look at single constants; a wrong digit, exponent or unit in any other "
     "entry, or a look-up mixing systems, goes unnoticed",
     ['universal.py'], [('constants table and look-up', 'universal.py')],
     TABLES + "; look-up paths by interpretation over value terms",
     "every entry in both systems, and every return path of the look-up")

prop('M04', "Quantities have their physical dimension and canonical unit per system",
     "For every metric quantity and both metric systems the dimension the package "
     "states is the physical dimension of the quantity, and the canonical unit has "
     "that dimension. A quantity defined by a formula in terms of other quantities "
     "has the dimension and unit of that formula.",
     ['inputs'], "every quantity and metric system",
     "tests sample a few quantities; each of some eighty entries decides how observed "
     "data of that quantity are scaled",
     ['metric/_reference.py'], [('quantity table', 'metric/_reference.py')],
     TABLES, "every quantity in both systems")

prop('N05', "Arithmetic and comparison operators compute what they are named for",
     "For scalars, vectors, tensors and arrays, physical or plain, each arithmetic, "
     "comparison, rounding and cast operator applies exactly the operation it is named "
     "for to the data of its operands, in the order the expression gives them "
     "(including reflected operators), with the digits of round and the modulus of "
     "pow passed on. Derived comparisons and subtraction are consistent with the "
     "operators they are derived from. The numpy functions registered for physical "
     "objects (sin, cos, tan, sqrt, logarithms, squeeze, min, max, mean, sum, cumsum, "
     "transpose, gradient) compute that function of the data and honour the axis.",
     ['inputs'], "every operator, every combination of operand kinds, every value",
     "the tests try selected operand kinds with values for which a swapped operand or "
     "a wrong operator often gives the same answer",
     ['physical/_operations.py', 'real/_operations.py', 'numeric/_mixins.py',
      'numeric/_implementation.py', 'numeric/_operations.py', 'base/mixins.py'],
     [('operator dispatch', 'numeric/_mixins.py'),
      ('registered implementations', 'physical/_operations.py')],
     ABSINT, "all operators x operand kinds; builtin arithmetic on data is trusted")

prop('N06', "Operations on incompatible units are refused",
     "Sums, differences and orderings of measured objects succeed only when the "
     "operands have equal units; a plain number can only be added to or subtracted "
     "from a unitless object; an exponent must be unitless (and the base too unless "
     "the exponent is a single number); trigonometric functions accept only angles "
     "and logarithms only unitless arguments; compatible operands are accepted. Two "
     "objects are equal only when values, units and (for arrays) axes agree.",
     ['inputs'], "every operator and function, every combination of operand kinds "
     "and units",
     "the tests pick a few mismatching units per operator; a guard that is missing for "
     "one operand order or kind lets metres be added to seconds",
     ['physical/_operations.py'], [('registered implementations',
                                    'physical/_operations.py')],
     ABSINT, "all operators x operand kinds; path conditions must imply the guard")

prop('N07', "Results of operations on measured objects have the right unit",
     "The unit of every result follows from the operation: sums, differences, "
     "rounding, negation, absolute values and reductions keep the unit; products "
     "multiply, quotients divide (and, by the package's convention, so do floor "
     "quotients and remainders) and powers raise it (a plain number counts as "
     "unitless); square roots take the root of it; trigonometric functions "
     "and logarithms give unitless results; a gradient divides by the unit of the "
     "coordinates or spacing, an integral multiplies by it.",
     ['inputs'], "every operator and function, every combination of operand kinds",
     "the tests assert the unit for a few operand kinds and units whose square or "
     "inverse happen to coincide with the expected one",
     ['physical/_operations.py'], [('registered implementations',
                                    'physical/_operations.py')],
     ABSINT, "all operators x operand kinds; units compared as monomials modulo the "
     "equalities each path establishes")

prop('N08', "Results of operations have the kind and axes of their operands",
     "An operation on scalars, vectors, tensors and arrays creates an object of the "
     "highest kind among its operands; a reduction over all data creates a scalar, one "
     "along an axis an object whose axes are those left. The axes of an array result "
     "are those of the array operand (for products, the merged axes of both). Indexing "
     "or transposing an array selects the same elements of the data and of the axes.",
     ['inputs'], "every operator, function and index, every combination of operand "
     "kinds",
     "tests use square or one-dimensional arrays where keeping the wrong operand's "
     "axes cannot be seen",
     ['physical/_operations.py', 'physical/_array.py', 'physical/_axes.py'],
     [('registered implementations', 'physical/_operations.py'),
      ('array indexing', 'physical/_array.py')],
     ABSINT, "all operators x operand kinds; result terms compared with operand axes")

prop('N09', "Converting a measured object to another unit rescales its values",
     "Creating a measured object (value, sequence, measurement, scalar, vector, "
     "tensor, array) from plain data keeps the data and the given unit; creating one "
     "from another measured object keeps that object's data and unit. An object "
     "reports the data, unit and axes it was created with. withunit multiplies the "
     "data by the factor from the old to the new unit, sets the new unit, keeps the "
     "axes, and returns the object itself only when the units are equal; an array "
     "that was rescaled reports rescaled data everywhere (data, elements, slices). "
     "Elements and slices keep the unit, and measuring an object gives its values "
     "and its unit.",
     ['inputs'], "every measured object, every pair of units",
     "the tests convert a few objects between a few units, with data for which an "
     "inverted, missing or repeated factor can coincide, and look at one accessor",
     ['measured/_factories.py', 'measured/_convert.py', 'measured/_context.py',
      'physical/_object_factories.py', 'physical/_array.py',
      'quantity/_measurement.py'],
     [('factories', 'physical/_object_factories.py'),
      ('converters', 'measured/_convert.py')],
     ABSINT, "every factory x kind of argument, every converter and accessor")

prop('O11', "Every observable quantity computes its defining formula",
     "The implementation of every observable quantity returns its defining formula in "
     "terms of the simulated quantities: Cartesian coordinates from spherical ones, "
     "field magnitudes, products, parallel and perpendicular speeds, the angle "
     "(its cosine limited to [-1, 1]), the velocity divergence from the continuity "
     "equation, rigidity, mean free path, acceleration rate, average energy, energy "
     "density, flux from the distribution, fluence and integral flux (from the given "
     "minimum energy up, interpolated by a power law from the flux at the energy just "
     "below it). Each "
     "requested time, shell, species, energy and pitch-angle index is applied exactly "
     "once and to its own dimension, whole-axis operations (gradients, sums, cumulative "
     "sums, means) see the whole axis, neighbouring indices stay on the axis, and "
     "assumptions (values to interpolate to) reach every quantity they concern. Each "
     "name denotes the implementation of that name.",
     ['inputs'], "every observable quantity, every combination of indices and "
     "assumptions, both kinds of dataset",
     "the tests check only shapes and units of observables, and need datasets that are "
     "not in the repository",
     ['observable/_interfaces.py'],
     [('observable implementations', 'observable/_interfaces.py')],
     "abstract interpretation of each implementation to a value term, reduced to a "
     "canonical rational function and compared with the defining formula; index and "
     "interpolation state tracked per dimension",
     "all implementations and all paths; gradients, sums and means are uninterpreted")

prop('O12', "Each observable name gives that quantity, with its unit and dimensions",
     "Asking an observer for a quantity by any of its names gives the observable built "
     "on the implementation of that quantity, and the same one for every alias; two "
     "different quantities never share a name. Before it is observed, each quantity "
     "reports the unit of its result in the dataset's system of units (that of its "
     "defining formula) and the dimensions (time, shell, species, energy, mu) its "
     "result has. Creating a quantity from a requested unit, and changing its unit, "
     "keep the implementation and the dimensions and change only the unit.",
     ['inputs'], "every observable name and alias, both kinds of dataset, every unit",
     "the tests look up a sample of names, and compare units and dimensions with a "
     "table only for datasets that are not in the repository",
     ['observable/_interfaces.py', 'observable/_objects.py', 'reference.py',
      'quantity/_defined.py'],
     [('observable quantities', 'observable/_interfaces.py'),
      ('observables', 'observable/_objects.py')],
     ABSINT, "all registered quantities; units compared as dimensional exponents")

prop('O13', "Subscripting an observable selects or interpolates to what was requested",
     "Subscripting a quantity takes one index per dimension (a bare value for a "
     "one-dimensional one) and refuses any other number. Along each dimension, an "
     "index, a slice or a value on the axis selects those elements. A time, energy, "
     "pitch-angle cosine or radius which is not on the axis is interpolated to, "
     "linearly, in the dataset's unit, between the elements that bound it, along that "
     "dimension only: the dimensions keep their order and the new axis holds the "
     "requested values. Requested values within the range of the axis, its ends "
     "included, are accepted and any other is refused; interpolated dimensions are "
     "not indexed again. Radius is interpolated with the grid of the same times, and "
     "before time. The result is in the quantity's unit; an inconsistent unit is "
     "refused. Sums, differences, products, ratios and powers of quantities observe "
     "those of the observed arrays, with the matching unit and dimensions, and sums "
     "and differences of unequal units or dimensions are refused.",
     ['inputs'], "every kind of request for every dimension, every combination of "
     "interpolated dimensions and order of dimensions",
     "the tests that subscript observables need datasets that are not in the "
     "repository",
     ['observable/_objects.py', 'observable/_interfaces.py', 'numeric/_index.py'],
     [('subscription and context', 'observable/_objects.py'),
      ('interpolation and indexing', 'observable/_interfaces.py'),
      ('bounding indices', 'numeric/_index.py')],
     "abstract interpretation of subscription and interpolation over arrays whose "
     "dimensions are tracked by name through every reordering",
     "all kinds of request, dimension orders and combinations of interpolated "
     "dimensions; interp1d and numpy are trusted")

prop('O14', "A dataset gives each variable of its file in the requested system of units",
     "Each array of a dataset (times, shells, pitch-angle cosines, energies, speeds, "
     "masses, charges, coordinates, fields, velocities, density, distribution, flux) "
     "and each of its axes is the variable of the file with that meaning, with the "
     "file's data, in the unit the file declares, converted to the unit of that "
     "quantity in the requested system, with its dimensions labelled as in the file, "
     "whatever was read before, from this file, an earlier file of that path, or with another hint of its type. Energies and speeds lose their dimensions of length one. "
     "Whether a dataset has a distribution or a flux tells whether its file has that "
     "variable. An observer's times, shells, species, energies and pitch angles are "
     "the axes of its file in its system. Ions are named by the element of their mass "
     "and the sign and number (both rounded) of their charge; the table of elements has the symbols "
     "and masses of the elements; a species' mass is in nucleon masses and its charge "
     "in elementary charges. The names by which variables are known are unique and "
     "their quantities have the dimension of the variable.",
     ['inputs', 'histories'], "every variable, system of units and order of access",
     "the tests that open datasets need files that are not in the repository",
     ['datafile/_interfaces.py', 'datafile/_viewers.py', 'datafile/_core.py',
      'datafile/_reference.py', 'reference.py', 'atomic.py', 'eprem.py'],
     [('dataset interfaces', 'datafile/_interfaces.py'),
      ('file viewers', 'datafile/_viewers.py'), ('species', 'atomic.py')],
     ABSINT, "all properties, alone and after every other; netCDF4 is trusted")

prop('E18', "An observer is made of the files that belong to it",
     "The observer with a given number or name is made from the one data file of the "
     "source directory (default: the working directory) whose name is that of EPREM: "
     "'stream', 'obs' or 'flux' and six digits for streams, 'point' or 'p_obs' and "
     "three digits, or exactly the given name, for points. No such file, or more than "
     "one for the same name, is refused, as is an ID of another type. The configuration "
     "file is the given one (in the source directory if it is a bare name, whether "
     "string or path), else the first of eprem_input_file, *.cfg, *.ini and *.in that "
     "exists. The file view, the quantities and their parameters come from those "
     "files, in the given system of units. A dataset has one observer of the right "
     "kind for every data file of its directory, known by the number (streams) or "
     "text (points) that follows the whole prefix; its observers are all of them. "
     "Full paths are expanded and resolved, and strictly checked only on request; "
     "searches take the first match in the given order; every line that matches is "
     "parsed.",
     ['inputs'], "every ID, directory content and kind of config path",
     "the tests that create observers need files that are not in the repository",
     ['eprem.py', 'paths.py'],
     [('observers and datasets', 'eprem.py'), ('paths', 'paths.py')],
     "abstract interpretation; file-name templates compared with EPREM's for digits of "
     "every width, counts of matching files read from path conditions",
     "all paths of the functions involved; pathlib is trusted")


prop('P15', "The tables of EPREM parameters are right and agree with one another",
     "The constants of baseTypes.h have the values of their defining expressions; the "
     "physical and mathematical ones have their accepted values in the stated units. "
     "The JSON database, the public reference tables and the metadata agree on the "
     "type, default value, bounds, unit and aliases of each parameter. Every unit is "
     "one the package knows, no name or alias refers to two parameters, and every "
     "default value is of its type and within its bounds.",
     ['inputs'], "every constant and parameter",
     "the tests compare defaults and types of two of the tables with each other; "
     "units, aliases, bounds and physical values are not compared at all",
     ['parameter/_metadata.py', 'parameter/reference.py', 'parameter/reference.json'],
     [('metadata', 'parameter/_metadata.py'), ('reference', 'parameter/reference.py')],
     TABLES, "all entries of all tables")

prop('P16', "Parameter values come from the config file, else from EPREM's defaults",
     "Every EPREM parameter has the value set in the config file if there is one, else "
     "the default of configuration.c, which is read from the given source directory if "
     "it is there and else from the package's database; the config file adds no "
     "other parameters. Values are converted to the type of the parameter where "
     "possible (numbers, lists of numbers) and left as they are where not. All names "
     "of a parameter give the same value, with its unit if it has one: angles are in "
     "degrees instead of radians if useDegrees is set. Unknown names are refused. A "
     "config file consists of exactly the name = value pairs of its lines, without "
     "surrounding space, comments and blank lines, and two files differ in exactly "
     "the names and values that differ. Defaults that refer to constants, other "
     "parameters, or sums, differences and products of them are resolved to their "
     "values, including zero. Parts and roundings of a variable keep its unit.",
     ['inputs', 'configurations'], "every config file, source directory and parameter",
     "the tests read one sample file and compare defaults; other formats of lines, "
     "values of zero, aliases, degrees and overriding are not tested",
     ['parameter/_config.py', 'parameter/_runtime.py', 'parameter/_src.py', 'paths.py'],
     [('config files and defaults', 'parameter/_config.py'),
      ('interface and variables', 'parameter/_runtime.py'),
      ('EPREM sources', 'parameter/_src.py')],
     "abstract interpretation compared with decision tables: each path's value term "
     "must be that of every row its conditions allow",
     "all paths of the functions; regular expressions over C sources are not decided")

prop('R17', "Operations on projects overwrite nothing and stay within the project",
     "Creating a project or a run, or renaming one, never overwrites what exists: a "
     "project that exists is restored if no attributes are given and refused "
     "otherwise; a run is created only where there is nothing, renamed only from an "
     "existing directory to where there is nothing, and removed only if it is an "
     "existing directory. A refused operation changes nothing, stops the operation on "
     "the remaining runs unless errors are to be ignored, and is then reported unless "
     "silent. Only runs of the project are affected, in all of its branches or in the "
     "given ones; names that lead outside (absolute, or with '..') are refused. "
     "The files of a project are within its root under the names given as its "
     "attributes or the documented defaults. No other part of the package removes, "
     "renames or writes files.",
     ['inputs', 'faults'], "every project, run name and state of the directories",
     "no test creates a project",
     ['project.py', 'paths.py'],
     [('projects', 'project.py'), ('paths', 'paths.py')],
     "abstract interpretation compared with decision tables of calls that must and must "
     "not happen on each path; inventory of file-changing calls",
     "all paths of the functions; races with other processes and symbolic links are not "
     "considered")

prop('R18', "The log and metadata of a project follow its runs",
     "The log of a project holds one entry for each run that EPREM completed "
     "successfully, under the current path of the run. Creating, loading, appending "
     "to, renaming and removing entries change the named entry and keep all others; "
     "operations on unknown runs are refused and change nothing, and contents that "
     "cannot be written leave the log as it was. Renaming and removing runs, and "
     "renaming projects, are first done on disk and then in the log (runs which are not "
     "in the log are left out) and the metadata. A project that is opened again has the "
     "attributes it was created with, a copy has those of the original except the ones "
     "given, with its input files, and projects are equal if their attributes are. A "
     "run executes the given or located MPI and EPREM programs in its own directory, on "
     "the given number of processes, with a copy of the config file from the project's "
     "inputs if it is there and else of the given path, and with output in its log.",
     ['inputs', 'faults', 'histories'], "every project, log and sequence of operations",
     "no test creates a project",
     ['project.py'],
     [('projects', 'project.py')],
     "abstract interpretation compared with decision tables of values written and calls "
     "made, in order, on each path",
     "all paths of the functions; a crash between a change on disk and its entry in the "
     "log is not considered")

prop('C19', "Command-line options reach the operations that they name",
     "Every subcommand of the project tools (create, reset, rename, remove, show; run, mv "
     "and rm of a project) and every mode of the package's program exists under its name "
     "with its documented flags. Each option sets exactly the parameter of the same "
     "meaning of its function, with the right kind of value: flags are off unless given, "
     "lists collect all their values, required arguments are required, and each "
     "parameter can be given. Each subcommand passes all that it was given to the "
     "operation of the project at the given path (or of its own project), and raises "
     "errors unless forced and is silent unless verbose. The program prints its version, "
     "generates or compares config files as asked, or reports an error. A generated "
     "config file holds each parameter that has a default value, in a form that is read "
     "back as the same value, from the given EPREM source if there is one; a comparison "
     "shows, for each parameter (only those that differ if asked), its default value and "
     "its value in each file, or that the file does not set it.",
     ['inputs', 'configurations'], "every combination of options and every config file",
     "no test uses the command line",
     ['project.py', '_project_main.py', '__main__.py', 'cli.py', 'interfaces.py'],
     [('project tools', 'project.py'), ("a project's own tools", '_project_main.py'),
      ('program', '__main__.py'), ('config-file tools', 'cli.py'),
      ('subcommands', 'interfaces.py')],
     "abstract interpretation of the code that sets up parsers: options are compared with "
     "the parameters of their functions; decision tables of the calls of each command",
     "all paths of the functions; the layout of printed comparisons is not considered")

TABLED = ("abstract interpretation compared with decision tables of results, refusals "
          "and calls on each path")

prop('A20', "Axes and their collections keep names, values and order together",
     "A collection of axes finds each axis by its name, and by its position in the order "
     "of names. Collections are equal if names, their order and all axes are equal; they "
     "are ordered as sets of names, and refuse the comparison if a common name has "
     "different axes. Addition needs the same names and replaces an axis of one value by "
     "the axis of the other operand that contains it, else refuses unequal axes; union "
     "merges names in order, with the axes of the right operand where it has them, except that one of a single value gives way to a longer one. copy, "
     "replace, without, extract and permute give a new collection that differs only as "
     "asked, in order, and refuse unknown names. Created collections pair each dimension "
     "with the axis, or length, given for it and refuse unequal numbers of them. The "
     "index of a target in an axis is its position: of the equal integer, of the same "
     "string, or of the value close to it in the axis's unit (a target without a unit has "
     "that of the axis), or of its lower or upper neighbour if so asked; other targets "
     "are refused. An axis contains one-valued axes whose value it contains, and equals "
     "axes of the same values and unit; a part of an axis knows the indices it was made "
     "from.",
     ['inputs'], "every collection of axes, every axis, target and option",
     "the tests use small collections whose axes are mostly distinct and sorted alike; "
     "order, unequal units, one-valued and missing members matter only for others",
     ['physical/_axes.py', 'physical/_axis.py', 'physical/_axis_factories.py',
      'numeric/_data.py'],
     [('collections', 'physical/_axes.py'), ('axes', 'physical/_axis.py')],
     TABLED, "all paths of the methods; insertion before or after a dimension is not "
     "considered (the tests pin the two the other way round), nor are printed forms")

prop('C21', "Containers and functions on collections keep their contracts",
     "unique keeps the first of equal items in order, of its single argument unless "
     "strict; unwrap strips enclosing lists and tuples of one member only, wrap makes a "
     "list of the members, of a scalar or of a string, and of None an empty one. An object "
     "is separable if it can be iterated and is not a string or bytes; has a type itself, "
     "or through any (all, if strict) members of a named wrapper; has size the number of "
     "leaves; looks like a shape if it is a non-empty collection of integers. distribute "
     "pairs all members of two collections, or one object with each member. A graph keeps "
     "the first weight given to each connection and its reciprocal in reverse; a table "
     "gives the values of keys common to all entries, the entries with a value, and the "
     "only entry that matches a request, and refuses requests with none, or more; a "
     "bijection refuses repeated values and its inverse maps each value to its key; a "
     "registry never stores an object under the key of another unless told to overwrite "
     "it, and reset restores what it began with. nearest pairs the closest value, among "
     "those not below (above) the target if so bounded, with its own index, and merge "
     "keeps the order of both arguments and refuses contradicting orders.",
     ['inputs'], "every collection, mapping, key, request, target and bound",
     "tests call these functions with a few literal arguments; the rest of the package "
     "calls them with arbitrary data and inherits any error in them",
     ['container.py'], [('containers', 'container.py')],
     TABLED, "all paths of the functions and methods, loops to their first iteration (the "
     "loop of unwrap to the depth of eleven given nestings); Table.show and the texts of "
     "errors are not considered")

prop('D22', "Arrays keep the names of their dimensions with their axes",
     "A collection of dimensions is an ordered set of names: unique, strings only, x0, x1 "
     "and so on when made from a number. a & b gives the names in both and a - b those of "
     "a only, in the order of a then b; a | b merges the names and refuses contradicting "
     "orders; a ^ b gives the names in one only; each also works with a name or an iterable "
     "of names, reversed as well (except a difference from names). Equality depends on "
     "order, <, <=, > and >= on the sets of names. replace, insert and copy give new "
     "collections with the other names unchanged; permute refuses an order that does not "
     "keep all names. An array has one name per axis: creation refuses another number, "
     "and a name both as an argument and a keyword; a copy keeps data and names and takes "
     "no new ones. shapemap pairs each name with the size of its axis. A subscript keeps "
     "all dimensions, single indices leaving an axis of size one; a Boolean mask gives the "
     "selected values; transpose moves data and names alike, by index or by name, and "
     "refuses names that are not those of the array. Two arrays are equal if their data "
     "and their dimensions are. Reading part of an array gives the same values as "
     "reading it all, whose values are then kept. remesh gives data that broadcast over "
     "the merged dimensions of both arrays, a singular axis repeated, and refuses axes of "
     "one name and different sizes.",
     ['inputs'], "every array, collection of names, index, permutation and pair of arrays",
     "tests try two or three dimensions in a fixed order; all data of observers and all "
     "arithmetic between quantities of different dimensions rest on these rules",
     ['numeric/_array.py'], [('dimensions', 'numeric/_array.py')],
     TABLED, "all paths of the functions and methods; the index given to insert and the "
     "formatting of arrays are not considered")

prop('I23', "Indices of arrays denote the positions their arguments state",
     "index.value makes an index from one integer, string of digits, integral array of "
     "one element, or unitless quantity of one; index.sequence makes them in order from a "
     "range, a collection of such, a one-dimensional integral array, or one index. Both "
     "refuse non-integers and quantities with a unit. shift adds the given amount, not "
     "passing floor or ceil when given (both apply). A subscript of a sequence gives a "
     "value for one index and a sequence for many. Comparisons and +, -, *, //, % and ** "
     "of values, sequences and integers apply that operation to the integers in pairs, "
     "operands in order, an integer or value with each member; sequences of different "
     "lengths and negative powers are refused; two values give a value, a sequence with "
     "anything a sequence, an integer the type of the other operand; objects that are not "
     "indices are unequal to indices. Subscript arguments are resolved for a shape: an "
     "ellipsis, of which one may be given, stands for as many full slices as axes "
     "remain; more arguments than axes are refused unless the last is an ellipsis; beside "
     "collections of indices, a slice stands for its own positions on its axis and an "
     "integer of any type for itself, all combined orthogonally; arguments of builtin "
     "types and integral or Boolean arrays are kept as they are.",
     ['inputs'], "every kind of argument, operand and shape",
     "tests try a few small arguments; every subscript of every array and axis passes here",
     ['numeric/_index.py'], [('indices', 'numeric/_index.py')],
     TABLED, "all paths of the functions and methods, and the wiring of operators; the "
     "text of indices and round are not considered")

prop('S24', "Symbolic expressions denote products of powers",
     "Text is read as terms c b^e, grouped by (...) with coefficient and power, joined by "
     "* or / or juxtaposition, where / divides by the next operand only and sqrt takes the "
     "root of the next; numbers are integers, fractions n/m or decimals with an optional "
     "power of ten, all digits of which count, and coefficients and exponents of zero are "
     "kept; names are letters (Latin, μ or Ω), # or _ followed by digits. A power of a group applies to "
     "all that it holds, not to the coefficient before the group. Text that is neither is "
     "refused; with operator_order='error', so are / or * after /. An expression holds one "
     "term per base, with the product of the coefficients first unless it is 1, bases "
     "ordered by falling exponent and then by name, without powers of zero. *, / and ** "
     "of expressions, text, numbers and iterables multiply, divide and raise what they "
     "denote, exactly for rational numbers; expressions are equal if they hold equal "
     "terms. A term is evaluated at a number by putting it for the base; only constant "
     "terms convert to numbers or equal them; the text of a term without style reads as "
     "that term.",
     ['inputs'], "every text, operand, power and grouping",
     "tests try a few dozen expressions; every unit of the package is built from these",
     ['symbolic/_operand.py', 'symbolic/_parser.py', 'symbolic/_expression.py'],
     [('symbolic algebra', 'symbolic/')],
     TABLED, "patterns over all text, loops from any state, and all paths of the functions; "
     "the text of TeX styles and of errors, and Expression.apply, are not considered")

prop('L25', "Aliased mappings find one value by any of its names",
     "A group of aliases is the set of them: groups with equal aliases are equal and have "
     "equal hashes, and in comparisons and set operations, on either side, text or any "
     "other single object counts as one alias. Groups holds every group once; an alias or "
     "an equal set of aliases finds its group; add refuses an alias in use; update and "
     "merge join every group that shares an alias with a new one; discard and without drop "
     "whole groups. The keys of an aliased mapping are groups made of each key and of the "
     "aliases declared for it: in the key itself, in an item ('aliases' unless another is "
     "named) of a value that is a mapping, which the value then lacks, or in Groups or "
     "another mapping. Keys that share an alias are merged and the last value counts. "
     "Membership, lookup, iteration, length and views agree: every alias of a group is "
     "there with its value, or every group once if aliased=True. Mappings are equal "
     "if every alias has the same value; m | n holds both with n deciding; copies and "
     "frozen mappings keep aliases, values and, when asked, named groups of keys. Setting "
     "or deleting an item applies to all its aliases; a new alias of a key that is in use "
     "elsewhere is refused. A NameMap gives the canonical name for each name and alias, "
     "and is not changed by definitions of other names.",
     ['inputs', 'histories'], "every set of names, aliases, values and sequence of changes",
     "tests use a few keys; units, quantities, parameters and observables are looked up by "
     "these mappings", ['aliased.py'], [('aliased mappings', 'aliased.py')],
     TABLED, "all paths of the functions and one pass of the loop that builds keys from any "
     "state; the order of aliases within a group, texts, squeeze beyond when it "
     "applies, and what iterables of iterables stand for in a group are not considered")

prop('Q26', "Measuring keeps every value and the unit that goes with it",
     "parse and measure read numbers, text that holds a number, collections of them, "
     "collections followed by one unit (its name or a Unit), one collection of numbers with "
     "a unit, and collections of those with equal units. All values come out in order with "
     "that unit, or with '1' if there is none; with distribute=True, as pairs of a value and "
     "the unit. What cannot be read that way is refused with ParsingTypeError or "
     "ParsingValueError (MeasuringTypeError from measure): nothing, empty input, mappings, "
     "text that is not a number, several units, different units, further values next to a "
     "collection; no value is dropped. ismeasurable tells measurable input from other input; "
     "getdata gives the data of an object, or its parsed numbers without the unit, and "
     "hasdata is true for a zero. A measurement returns itself; objects are measured by their "
     "own __measure__, which must give a measurement, or keep data and unit. Values, sequences "
     "and measurements are created with the data and the unit of a measured argument, or else "
     "with the given unit, '1' by default. They convert to int, float and complex only if they "
     "hold one number; items keep the unit; two measured objects are equal if both data and "
     "units are.",
     ['inputs'], "every combination of numbers, text, units and nested collections",
     "tests use a dozen forms; user arguments and configured parameters are read by these "
     "functions",
     ['quantity/_functions.py', 'quantity/__init__.py', 'quantity/_measurement.py',
      'measured/_factories.py', 'measured/_context.py'],
     [('measuring', 'quantity/_functions.py'), ('measured objects', 'measured/_factories.py')],
     TABLED, "all paths of the functions; '1' at the end is a unit; which order the units of "
     "several collections are compared in, sets and generators, unknown unit names, and "
     "arguments after a measured object are not considered")

prop('F28', "General-purpose helpers do what they document for every input",
     "Arguments are shown as they would be passed: positional ones first, texts quoted. "
     "Texts are joined in order, with commas and the conjunction before the last of two or "
     "more; none give an empty text. Help text is the first line of the docstring (without "
     "leading blank lines, after replacements), as a phrase without its capital and full "
     "stop, or with the whole body. The first true result of several methods, each called "
     "with the same arguments, is given, else None. Numbers are never null, arrays and sized "
     "objects if they are empty. All targets must be of the types. The widest of two types is "
     "the one that the other derives from, or else the base, which both must derive from. "
     "Sentinels equal their values, are as true as they are, and one name and value gives one "
     "sentinel, which no other name or value gives. A guarded call gives its result, or the "
     "value registered for the exception or its nearest base class, or its own arguments if "
     "that is '...'; other exceptions propagate. Converted functions give the result, or "
     "replace the expected exceptions by the value or exception, with the message. Generated "
     "__str__ and __repr__ never replace those of the class.",
     ['inputs'], "every argument, exception and class",
     "tests use one or two arguments of each kind",
     ['etc.py', 'exceptions.py'],
     [('helpers', 'etc.py'), ('exceptions', 'exceptions.py')],
     TABLED, "all paths of the functions; wrapping of help text, error messages and "
     "subclasses of singletons are not considered")

prop('T29', "Physical objects have the data, unit and axes they are made from",
     "Objects made from a measured object, coordinates or an object of another kind have its "
     "values and unit; from plain numbers, the unit given. A scalar needs exactly one value, "
     "a vector data of one dimension, a tensor of at least one; the axes of an array that "
     "are not given have the lengths of its data. An attempt to give an existing object another unit or other axes is "
     "refused with ValueError. Elements and slices of vectors and tensors have the unit of "
     "the whole; transposing permutes data and axes alike; the values of an array are the "
     "stored values times its scale. Only objects of exactly one real value become int, "
     "float or complex; others raise TypeError. Points are non-negative integers, symbols "
     "texts.",
     ['inputs'], "every form of input, unit and set of axes",
     "tests make each kind of object from a few forms of input",
     ['physical/_object_factories.py', 'physical/_axis_factories.py', 'physical/_scalar.py',
      'physical/_vector.py', 'physical/_tensor.py', 'physical/_array.py',
      'numeric/_objects.py', 'real/_objects.py'],
     [('factories', 'physical/_object_factories.py'), ('arrays', 'physical/_array.py'),
      ('registry', 'numeric/_objects.py')],
     TABLED, "all paths of the functions; error messages and the order in which lazy data is "
     "read are not considered")

prop('U30', "Plots show the values asked for, in the unit asked for, against the right axis",
     "plot() draws the values of the array in the requested unit (by default its own), "
     "without dimensions of length one, and refuses arrays that are not one-dimensional "
     "then. It draws them against the values of the remaining axis, or of x: a measured "
     "object, coordinates or the name of an axis; other values of x raise TypeError. Options "
     "for the axes (labels, limits, scales, bounds, margins, ticks, title) go to the axes, "
     "others to the line. The figure is saved to the path if one is given and shown "
     "otherwise, and closed.",
     ['inputs'], "every array, unit, x, path and option",
     "no test plots anything",
     ['physical/_array.py'],
     [('plots', 'physical/_array.py')],
     TABLED, "all paths of the functions; texts of labels are not considered")

prop('V31', "numpy functions and operators use the data of arrays and keep its dimensions",
     "A numpy function applied to an eprempy object calls the implementation registered for "
     "it with the same arguments; without one, numpy's own function is applied to the data "
     "of the object; objects of unsupported types are refused. Operations between arrays of "
     "real values need the same dimensions (comparison, sum, difference; otherwise "
     "ValueError) or broadcast to the merged dimensions (product, quotient); arrays are equal "
     "if their values and their dimensions are; between an array and other "
     "values, they use its values; other operands are refused. mean, sum, squeeze, trapz "
     "and transpose name the remaining axes of the result as the array did, cumsum, gradient "
     "and keepdims=True keep all names, negative axes count from the end.",
     ['inputs'], "every numpy function, array, axis and operand",
     "tests call a few functions with one or two axes",
     ['numeric/_mixins.py', 'numeric/_operations.py', 'real/_array.py'],
     [('dispatch', 'numeric/_mixins.py'), ('functions', 'real/_array.py')],
     TABLED, "all paths of the functions; what numpy computes, and tuples of axes for mean and "
     "sum, are not considered")

prop('W32', "Units compare, and belong to metric systems, as their definitions say",
     "Units are equal if their expressions are; equivalent (&) if equal, if they differ only "
     "by terms of unity, or if both or neither are dimensionless and their base units or "
     "their sizes agree; consistent (|) if equivalent, of the same dimension in a metric "
     "system, of the same quantity, or convertible. A unit is fundamental in a system if it "
     "is the canonical unit of its quantity there, by symbol or name; defined there if it is "
     "that or has its base unit; allowed in the systems that define it, else in all. The "
     "dimension of a unit in a system is the product of the dimensions of its terms to their "
     "exponents, taken from that system, or from the only one that allows the term; units "
     "that no term allows there have none. A dimension given for all systems holds in each "
     "that has none of its own. Without a given system, units reduce in the only one where "
     "they are fundamental, else in any if their dimension is the same in both, else in the "
     "only one that has it, and otherwise are refused as ambiguous. A reduction multiplied, "
     "divided or raised to a power keeps its units, raised to that power, and counts its "
     "scale once. Systems, quantities and units are found by name without regard to case, "
     "and those that do not exist are refused; a unit for a system is found from the unit, "
     "dimension or quantity given, in that order.",
     ['inputs'], "every unit expression, dimension, quantity and system",
     "tests compare a few units of common quantities",
     ['metric/_units.py', 'metric/_defined.py', 'metric/_systems.py',
      'metric/_dimensions.py'],
     [('consistency', 'metric/_units.py'), ('systems', 'metric/_defined.py')],
     TABLED, "all paths of the functions; what the definitions of quantities imply is M01 "
     "and M04; the sizes of units are M02")

prop('Z91', "Interpolated values approximate the underlying field",
     "A value interpolated to a time, shell, energy or radius lies between the values "
     "at the neighbouring grid points, and approaches the value of the field as the "
     "grid is refined.",
     ['inputs'], "every grid, array and target",
     "tests compare a few targets on a few files",
     ['observable/_objects.py'], [('interpolation', 'observable/_objects.py')],
     na="The bound is on floating-point results of scipy and numpy routines over run-time "
        "arrays; no static argument over the source of this package bounds them. What "
        "the source does decide (which axis, which reference, which targets, which unit) "
        "is part of O13.")

prop('Z92', "The values read from a file are those that EPREM wrote",
     "Arrays of a stream are, value by value, those stored in its netCDF file.",
     ['inputs'], "every file", "tests read one set of small files",
     ['datafile/_viewers.py'], [('netCDF views', 'datafile/_viewers.py')],
     na="Decided by the netCDF4 library and by the file, not by code in the repository; "
        "that the right variable is read, transposed and scaled once is part of O14.")

prop('Z93', "Logs and renames survive a crash at any point",
     "If the process dies during an operation on a project, the log can still be read "
     "and describes the directories that exist.",
     ['crash_points'], "every crash point of every operation",
     "tests never interrupt an operation",
     ['project.py'], [('project operations', 'project.py')],
     na="The package writes its log in place and performs renames one after another, "
        "with no recovery; the property does not hold by design and states no "
        "obligation that the source could be compared with. The order of checks before "
        "effects, and the log after complete operations, are R17 and R18.")
