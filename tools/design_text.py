# per property: what is specified / against what oracle / limits
D = {
'P01': 'Every member of the class template is instantiated at a symbolic dimension and proved component by component (loop rule: closed forms of element loops); aliasing variants of each operator are separate units. Oracle: the componentwise formula.',
'P02': 'As P01 with symbolic M, N, K and row-major index algebra; products are proved with a sum spec function unfolded by the loop rule. Oracle: the textbook definition of each operation.',
'P03': 'The class template is instantiated at a symbolic dimension; the history is three arrays with symbolic number of steps and capacity, realloc an assumed contract (old block released, contents kept). Storing is proved to append exactly one step, keep every earlier element and re-establish "capacity covers the steps"; initial value, look-ups, last step, constructor and setters are contracts over that invariant.',
'P04': 'The trial step is executed with an uninterpreted equation: the arguments of each of its evaluations and the combination of the results are compared with the Dormand-Prince tableau written from the literature, for a symbolic component of a symbolic dimension; a lemma proves the order conditions of that tableau. The error norm is proved by a sum spec function, the step control for every branch (NaN enters through isnan), and the step loop by an invariant (step positive and equal to the one proposed) over the contracts of its callees: stored = accepted, same starting point, stages those of the stored step.',
'P05': 'Storing the coefficients is proved to keep earlier ones and append the Hermite data plus quartic correction of the step; a lemma shows that this is the interpolant (end values, end slopes, order conditions of the continuous extension). The evaluation is proved with invariants on the search index over any number of steps and times, including the errors; the equidistant grid is proved against the contract of the evaluation.',
'P06': 'The bodies of the field, derivative and flux evaluations are executed symbolically once per safety-factor profile; the derivatives, curl, divergence, tangency and flux derivatives of the contract are obtained by symbolic differentiation of the *executed field* and compared in an algebraic normal form with sqrt/sin/cos/exp/pow laws. Constructors, clone, domain construction and conversion loops have their own contracts.',
'P07': 'The GSL interpolants are uninterpreted functions with a range precondition (an obligation at every call); a lemma (axisymmetric field: derivative of the rotated interpolant) turns the Jacobian contract into the derivative of the field contract. Initialisation, clone, copies of contours and error cases are contracts over ownership of the arrays (double free, leak of foreign arrays, use after free are obligations).',
'P08': 'Segment loops are proved with existential/extremal invariants over a symbolic number of points (true iff some segment is met; extreme value over all crossings), plus lemmas on a single segment. Histories (domain replaced between queries) are covered because every query contract speaks about the contour held at that time and the setters are contracts over the whole cached state.',
'P09': 'The tile test (line against cone/plane of revolution) is proved equivalent to the existence of a common point by nonlinear real arithmetic (nlsat + algebra); the loop over tiles is proved against that contract.',
'P11': 'Search, evaluation, insertion (before/after/in between, growing and shrinking grids), logarithm handling and copies are proved over symbolic grid length; GSL interpolants are uninterpreted.',
'P12': 'Each profile: formula inside, zero outside, refusals in the constructor; the product is proved against the *contracts* of an arbitrary profile and an arbitrary momentum-space function.',
'P13': 'Formula contracts on evaluation as a function of constructor/initialisation arguments, for each way of setting the object up.',
'P14': 'Look-up loops with first-match invariants over symbolic vectors of settings/sub-blocks; copy, merge and recursion proved against their own contracts (induction on depth) with ghost ownership of the blocks.',
'P15': 'Spec functions give the meaning of a text (lexer: recursive function over character positions; parser: recursive function over tokens building an abstract tree log); the loops of the lexer and parser are proved to compute them, including error reporting, includes and recovery.',
'P16': 'Type checks and readers are proved against one abstract "text is an integer/number, consumed length, value" contract of the C++ conversion functions, for symbolic strings and any number of values.',
'P17': 'The stream library is modelled by a token log: writing a variable is proved to append exactly the header and element tokens (with the precision in force as an obligation), loading to read line by line, token by token; opening modes, maps of variables (find/emplace, first definition wins) and copies handed out are contracts. The round trip is the composition of the writing contract with the lemma that a written block parses to the same variable.',
'P18': 'Every call to HDF5 is an assumed contract over a ghost log of events (open, create, write, attribute, group, close) and uninterpreted functions for the contents of the file (existence, type, rank, dimensions, elements); reads oblige the buffer to hold the number of elements of the data set, writes record buffer, type and data space. The readers and writers, including the templates for each element type and the MAT overrides, are proved against it for any rank, dimensions and row placement; that a character survives the sign extension to 16 bits and back is a lemma over the two contracts.',
'P24': 'The virtual readers are replaced by their contract (rows of one block with the stored elements) and the base-class functions proved over them: templates are executed for each element type, loops over rows/columns in closed form, pointer tables of arrays of several dimensions element by element.',
'P21': 'The table is an array of records of symbolic length; Eval is proved against the table with the bracketing index and weight as ghost values. The loops of the writers are summarised in closed form (invariants give the log position, or the pixel index, as a polynomial of the two counters), so that the token (PPM) or the byte of the row buffers passed to libpng (PNG) at a symbolic pixel is compared with the colour of the value at that pixel. Selection of format and colormap is executed with symbolic enumerators.',
'P10': 'Load, Save (both classes) and LoadWall are executed over a file whose variables have symbolic presence, dimensions and contents. The loops that copy, transpose and split the tables are summarised in closed form by rows, columns or separate parts, so that each element of each array of the field is compared at symbolic indices with the element of the file it must be. Each combination of contour layouts, each layout of each component and each missing or mismatching variable is a unit. Save is proved against the log of what is handed to the writer, with a frame condition for the field. For LUKE, the data and grids given to the interpolation are proved to be the normalised flux, the angle and the component.',
}
