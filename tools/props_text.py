REAL = 'Proved for all inputs over mathematical reals (rounding not modelled); '
P('P01', 'Vector arithmetic is the componentwise mathematical operation',
  'For every dimension and all component values, each vector operation (construction, assignment, addition, subtraction and scaling with vectors or scalars, negation, dot product, norm, normalisation, copy to an array, and cross product in three dimensions) yields exactly its mathematical definition in every component. Operations that produce a new vector leave their operands unchanged, in-place operations change only their target, and results are the same when operands refer to the same vector or to one of its components. The cross product is refused for dimensions other than three.',
  ['inputs', 'configurations'], 'every dimension N >= 1, all component values, every aliasing of operands',
  'No existing test exercises vectors directly; they reach fixed small dimensions through other code and never aliased operands.',
  ['include/softlib/Vector.h', 'include/softlib/General/Vector.tcc'],
  [('element loops of the class template', 'include/softlib/General/Vector.tcc')],
  REAL + 'N symbolic. Trusted: clang AST, VC generator, sqrt/norm contracts. The replay driver samples N up to 33 on compiled code.')
P('P02', 'Matrix arithmetic is the mathematical operation for all dimensions',
  'For every pair of dimensions and all element values, element access by row and column, construction (zero, from arrays, copy, outer product of two vectors), assignment, sums, differences, scalar products, negation, matrix-matrix products and matrix-vector products (from either side) equal their mathematical definition in every element. Operators that produce a new value leave their operands unchanged, and in-place operators, including multiplication of a square matrix by itself, give the same result as the out-of-place ones.',
  ['inputs', 'configurations'], 'every M, N, K >= 1, all element values, aliased operands',
  'The existing tests contain no matrix test; several of the operators did not even compile when instantiated.',
  ['include/softlib/Matrix.h', 'include/softlib/General/Matrix.tcc'],
  [('row-major index loops of the class template', 'include/softlib/General/Matrix.tcc')],
  REAL + 'M, N, K symbolic (below 65536); construction from an array of row pointers is checked only by the bounded replay driver.')
P('P03', 'Integrator history: every step stored is kept exactly and in order',
  'For every dimension and any number of steps, the integrator returns for each step exactly the time, solution and derivative that were stored for it, the last step is the one stored last, and storing a step changes no earlier one. Setting an initial value discards the history and makes that value, at time zero and with the derivative the equation gives for it, the only step; before that there is no last solution. Storage never overflows, whatever the number of steps.',
  ['inputs', 'histories'], 'every dimension N >= 1, any number of steps, any sequence of initial values and steps',
  'The existing test solves two equations with a few dozen steps in one and two dimensions; growing the storage, reusing an integrator and looking up earlier steps are not reached.',
  ['include/softlib/Integrator.h', 'include/softlib/Integrator/Integrator.tcc', 'include/softlib/RungeKutta.h', 'include/softlib/Integrator/RungeKutta.tcc'],
  [('storing and looking up steps', 'include/softlib/Integrator/Integrator.tcc')],
  REAL + 'N and the number of steps symbolic (product below 2^31). realloc and the equation are assumed contracts; looking up a step that was not taken is outside the property.')
P('P04', 'Integration steps are Dormand-Prince steps that meet the tolerance',
  'For every equation, state and step length, a trial step is the Dormand-Prince 5(4) step: it satisfies the order conditions up to order five, the error estimate is the difference to the embedded fourth-order solution and is measured against the given tolerance in the root-mean-square norm. A step is stored exactly when its estimated error is within the tolerance; otherwise, also if the error is undefined, it is repeated from the same point with a strictly smaller step, and an error is raised (nothing stored) once the step is negligible. Step lengths are positive, change by no more than the configured factors, never grow right after a rejection and follow from error, safety factor and exponents.',
  ['inputs', 'histories'], 'all equations, dimensions, states, tolerances and controller settings; any number of rejections',
  'The existing test compares the solutions of two autonomous equations with a loose tolerance; rejected steps, time-dependent equations, undefined values and controller settings are not reached.',
  ['include/softlib/RKDP45.h', 'include/softlib/RungeKutta.h', 'include/softlib/Integrator/RKDP45.tcc', 'include/softlib/Integrator/RungeKutta.tcc'],
  [('trial step and coefficients', 'include/softlib/Integrator/RKDP45.tcc'), ('error estimate, step control, step loop', 'include/softlib/Integrator/RungeKutta.tcc')],
  REAL + 'N symbolic; the equation is an uninterpreted function; pow and sqrt enter through their laws. That a stored solution is accurate follows from the order conditions only up to the error estimate. Termination of the repetition rests on the strictly decreasing step.')
P('P05', 'Dense output is the continuous solution of the steps taken, or an error',
  'With dense output enabled, for any number of steps and any list of requested times within the range covered, in any order and with repetitions, the value returned for each time is that of the continuous extension of the step containing it: it equals the stored solutions and their derivatives at both ends of the step and is the fourth-order Dormand-Prince interpolant in between. Times outside the range covered, or a request before the first step, raise an error; an equidistant grid starts and ends exactly at the limits given. The history and the requested times are not modified and nothing beyond the requested number of values is written.',
  ['inputs', 'histories'], 'all step histories, all lists of times',
  'The existing test samples one ascending grid over the range of two equations; unordered times, step boundaries, times out of range and histories longer than one block are not reached.',
  ['include/softlib/RKDP45.h', 'include/softlib/Integrator/RKDP45.tcc', 'include/softlib/Integrator/Integrator.tcc', 'include/softlib/Integrator/RungeKutta.tcc'],
  [('coefficients and evaluation of the continuous extension', 'include/softlib/Integrator/RKDP45.tcc'), ('equidistant grid', 'include/softlib/Integrator/Integrator.tcc')],
  REAL + 'storing the coefficients is proved for symbolic N, the evaluation loop for N = 1, 2, 3 with any number of steps and times; larger N only by the bounded replay driver. Switching dense output off and on again during a run is outside the property.')
P('P06', 'Analytical magnetic field: derivatives, flux and conversion are consistent',
  'For every choice of parameters, safety-factor profile and direction of field and current, and at every point off the symmetry axis, the field strength, its gradient, the curl and the Jacobian returned by the analytical field are exactly those of the field vector it evaluates, the field is divergence-free and tangent to the surfaces of constant flux, and the flux derivatives are the derivatives of the flux. The field equals the documented circular-cross-section field for the given safety factor, the domain is the circle of the minor radius about the magnetic axis, and clones and conversions to a gridded field hold exactly the same parameters, axis, contour and sampled values.',
  ['inputs', 'configurations'], 'all field parameters, five safety-factor profiles, all points off the symmetry axis, all grid sizes',
  'The existing tests compare a converted field at sampled points to a tolerance for one profile and direction; the gradient of the field strength was wrong for non-constant profiles and no test noticed.',
  ['src/MagneticField/MagneticFieldAnalytical2D.cpp', 'src/MagneticField/MagneticFieldAnalytical2D.q.cpp', 'include/softlib/MagneticField/MagneticFieldAnalytical2D.h'],
  [('field and derivatives', 'src/MagneticField/MagneticFieldAnalytical2D.cpp'), ('safety-factor profiles', 'src/MagneticField/MagneticFieldAnalytical2D.q.cpp')],
  REAL + 'sqrt, exp, pow, sin, cos enter through their algebraic and differential laws (assumed contracts of libm); derivatives are computed symbolically from the executed body, not sampled.')
P('P07', 'Gridded magnetic field: interpolation, exact derivatives, flux and copies',
  'For every grid and every point off the symmetry axis, the field vector is the bicubic interpolant of the three tabulated cylindrical components at the nearest point of the grid, rotated to the toroidal angle of the point; the Jacobian, field strength, its gradient and the curl are those of that same field, and flux and its derivatives are the interpolated ones (an error if no flux was given). All forms of each query agree and the caller\'s data are not modified. The domain is the wall if one was given and the separatrix otherwise, the plasma extent refers to the separatrix if there is one, and a copy behaves identically while sharing nothing with the original.',
  ['inputs', 'histories'], 'all grids of at least 4x4 points, all points inside and outside the grid, with and without wall, separatrix and flux',
  'The existing test compares one equilibrium with tabulated values at a few points inside the grid; derivatives, points outside the grid, missing flux or wall and copies are not reached.',
  ['src/MagneticField/MagneticFieldNumeric2D.cpp', 'include/softlib/MagneticField/MagneticFieldNumeric2D.h', 'src/MagneticField/MagneticField2D.cpp'],
  [('interpolation, Jacobian, construction, copying', 'src/MagneticField/MagneticFieldNumeric2D.cpp')],
  REAL + 'the GSL interpolant and its two partial derivatives enter as uninterpreted functions with the range precondition of the library; the Jacobian of the contract is proved to be the derivative of the field by symbolic differentiation.')
P('P08', 'Domain geometry: crossings, extents and bounds are exact for any contour',
  'For every closed wall contour and every pair of points, a line is reported to cross the domain exactly when its projection on the poloidal plane meets some segment of the contour, including the segment joining the last point to the first, lines ending on the wall, and parallel or degenerate segments. The maximum and minimum radius at the level of the magnetic axis, the vertical extent at a given radius and the bounding box are the true extreme values over the whole closed contour (an error is raised if the contour does not reach that level), and they always refer to the contour given last.',
  ['inputs', 'histories'], 'contours with any number of points, all lines, any sequence of domain changes and queries',
  'The existing domain test tries a few lines against one contour; parallel segments, open contours and replaced domains are not reached.',
  ['src/MagneticField/MagneticField2D.cpp', 'include/softlib/MagneticField/MagneticField2D.h'],
  [('segment loops', 'src/MagneticField/MagneticField2D.cpp')],
  REAL + 'number of contour points symbolic (below 2^31). hypot enters as sqrt(x^2+y^2).')
P('P09', 'Lines of sight are blocked exactly where they meet the wall of revolution',
  'For every wall contour with non-negative radii and every pair of points, the line of sight between them is reported blocked exactly when some point of the straight segment coincides with a point of a wall tile rotated about the symmetry axis; a segment lying in the plane of a horizontal tile does not count. When the outer wall is excluded, tiles lying entirely outside the magnetic axis, and only those, are ignored; all forms of the query agree and nothing is modified.',
  ['inputs'], 'contours with any number of points, all pairs of points, with and without outer wall',
  'No existing test covers lines of sight.',
  ['src/MagneticField/MagneticField2D.cpp'],
  [('intersection of a line with a conical tile, loop over the tiles', 'src/MagneticField/MagneticField2D.cpp')],
  REAL + 'number of contour points symbolic; the tile test is proved on its own and the loop is checked against its contract.')
P('P12', 'Radial profiles and products follow their formulas, copies included',
  'For all parameters and radii, each radial profile is zero outside its interval and has exactly its documented shape (linear, power, Gaussian, Bessel, uniform) at the radius corrected for the drift shift inside it; intervals without extent and non-positive Gaussian parameters are refused. A radial distribution is always the product of its profile and its momentum-space function, whichever way it was put together, and a momentum-space function alone does not depend on radius. Copies evaluate identically to, and are distinct from, the original.',
  ['inputs'], 'all parameters, radii, drift shifts, momenta and pitches; any profile and momentum-space function',
  'No existing test evaluates a radial profile.',
  ['src/DistributionFunction/LinearRadialProfile.cpp', 'src/DistributionFunction/PowerRadialProfile.cpp', 'src/DistributionFunction/GaussianRadialProfile.cpp', 'src/DistributionFunction/BesselRadialProfile.cpp', 'src/DistributionFunction/RadialDistributionFunction.cpp', 'src/DistributionFunction/MomentumSpaceDistributionFunction.cpp'],
  [('evaluation, construction, copying', 'src/DistributionFunction')],
  REAL + 'exp, pow and the Bessel function are uninterpreted; the product is verified against the contracts of an arbitrary profile and momentum-space function.')
P('P13', 'Analytic momentum-space distributions follow their documented formulas',
  'For all parameters, momenta and pitches in their domain, the avalanche, Connor-Hastie (with and without Gaussian cut-off), exponential-pitch and unit distributions equal their documented formulas, symmetric in the sign of the pitch. This holds however the object was set up (constructor, later initialisation, repeated initialisation), and copies evaluate identically.',
  ['inputs', 'histories'], 'all parameters and phase-space points in the domain of the formulas; every order of construction and initialisation',
  'The analytic distributions have a test that is not part of the suite\'s reliable tests; copies, cut-off and negative pitch are not reached.',
  ['src/DistributionFunction/AnalyticalAvalanche.cpp', 'src/DistributionFunction/ConnorHastieDistribution.cpp', 'src/DistributionFunction/ExponentialPitch.cpp', 'src/DistributionFunction/UnitDistributionFunction.cpp'],
  [('evaluation, initialisation, copying', 'src/DistributionFunction')],
  REAL + 'exp is uninterpreted apart from its sign and its position relative to 1; pi is the double nearest to it.')
P('P11', 'Tabulated distributions: interpolation, radial grid, logarithms and copies',
  'For every strictly monotonic radial grid (increasing or decreasing, a single radius, or starting at zero) and all tables, a tabulated distribution is at each radius of the grid exactly the (bilinear or bicubic) interpolant of the table of that radius and zero outside it, is linear between neighbouring radii, and is extrapolated linearly beyond the first and last one, or refuses such radii if extrapolation is forbidden. Tables may be given all at once or inserted in any order, as values or to be interpolated logarithmically, with either sign of the pitch, and grids that are not strictly monotonic are refused. Copies evaluate identically and keep all settings, and tables are modified only where that was asked for.',
  ['inputs', 'histories'], 'all radial grids and table sizes, all orders of insertion, all phase-space points',
  'The existing test evaluates one momentum-space table at its own grid points; the radial dimension, extrapolation, insertion, logarithms and copies are not reached, and most of them were wrong at the ends of the grid.',
  ['src/DistributionFunction/NumericDistributionFunction.cpp', 'src/DistributionFunction/NumericMomentumSpaceDistributionFunction.cpp', 'include/softlib/DistributionFunction/NumericDistributionFunction.h'],
  [('search, interpolation in radius, insertion, copying', 'src/DistributionFunction/NumericDistributionFunction.cpp'), ('interpolation in momentum space', 'src/DistributionFunction/NumericMomentumSpaceDistributionFunction.cpp')],
  REAL + 'the GSL interpolant enters as an uninterpreted function with the range precondition of the library; momentum-space functions are represented by number and by the contracts proved for them. Values of zero in logarithmic tables (infinities) are only checked by the replay driver.')
P('P14', 'Configuration tree: look-up, overriding, use tracking, copying and merging',
  'Settings and sub-blocks are found exactly by their name (and type), in the order in which they were added, and giving a setting again overrides its values without adding a second one or marking it used; a setting counts as used exactly when it was looked up. A copy has equal contents in the same order, with its own blocks as parents, and shares nothing with the original. Merging gives every known setting the new values and either adds every unknown setting and sub-block or, if that is not permitted, adds none and reports their names; the tree merged in is left unchanged, and block types are numbered in the order of registration and cannot be registered twice.',
  ['inputs', 'histories'], 'trees of any size and depth, all names and values, all sequences of additions, look-ups, copies and merges',
  'The existing configuration test reads one script and looks up its settings; copies, merges, overriding and use tracking are hardly reached, and parents and ownership after copying were wrong.',
  ['src/Configuration/ConfigBlock.cpp', 'src/Configuration/Configuration.cpp', 'src/Configuration/Setting.cpp', 'include/softlib/Configuration.h'],
  [('block contents, copying, merging', 'src/Configuration/ConfigBlock.cpp'), ('block types', 'src/Configuration/Configuration.cpp')],
  'Proved for any number of settings and sub-blocks; strings are exact, names symbolic. Names are taken to be unique within a block (which the contracts for adding maintain). Merging with unknown names while new ones are not permitted is checked only by the bounded replay driver, and the driver covers destruction.')
P('P16', 'Setting values: type checks accept exactly what can be read back in full',
  'For every text, a value counts as boolean, signed or unsigned integer of 32 or 64 bits, or scalar exactly when the whole text is one and within the range of the type (a setting as a whole only if it has a single value, a numeric vector if all its values are numbers), and reading it then yields exactly the boolean or number written. Reading a non-existing value or a non-boolean as boolean raises an error. Text, number and order of values are preserved by construction, appending, overwriting and copying, and asking for the type never fails or modifies the setting.',
  ['inputs'], 'all texts, any number of values, all types',
  'The existing test reads a handful of well-formed values; partial numbers, numbers out of range and negative values of unsigned settings are not reached and were accepted.',
  ['src/Configuration/Script/SettingScript.cpp', 'src/Configuration/Setting.cpp', 'include/softlib/Configuration/ConfigurationScript.h'],
  [('type checks and conversion of values', 'src/Configuration/Script/SettingScript.cpp')],
  'Proved for any number of values below 2^32; the conversion functions of the standard library enter through their documented contracts (longest numeric prefix, end position, invalid-argument and out-of-range exceptions). Reading a value that is not of the type asked for (other than booleans) is not constrained.')
P('P15', 'Configuration scripts: the text gives exactly the tree it describes, or an error',
  'For every text, the tree obtained is exactly the one the script describes: words are separated by white space, commas or symbols, comments extend to the end of the line (or text), quoted text is taken literally (even if empty or a symbol), all values up to the semicolon belong to a setting in order, blocks nest to any depth with an optional secondary type, repeated settings override and repeated blocks extend earlier ones, and the amount and kind of white space is irrelevant. Included files of complete statements count as if written in place, and reading continues right after them; a script file gives the same tree as its text. A text that is not a script (missing or misplaced symbols or words, unbalanced braces, unreadable files) always either raises an error or sets the error flag, and a correct script never does.',
  ['inputs'], 'all texts of any length and nesting depth, all included files',
  'The existing configuration test reads one well-formed script; comments at the end, quoted symbols, errors at the end of the text and included files are not reached, and some of these looped forever or read out of bounds.',
  ['src/Configuration/Script/Lexer.cpp', 'src/Configuration/Script/Interpreter.cpp', 'src/Configuration/Script/ConfigurationScript.cpp', 'src/Configuration/Script/ConfigToken.cpp'],
  [('characters and tokens', 'src/Configuration/Script/Lexer.cpp'), ('grammar', 'src/Configuration/Script/Interpreter.cpp')],
  'Proved for texts of any length below 2^40 without zero bytes: the lexer is shown to follow a recursive reference lexer character by character, the interpreter a recursive reference grammar token by token; included files are taken to have balanced quotes. Reading from standard input is not covered.')
P('P18', 'HDF5 and MAT files: what is written is read back, with the documented layout',
  'Every variable written to an HDF5 or MAT file (matrices with rows anywhere in memory, lists and arrays of several dimensions of every numeric type, strings, attributes, groups) is found again after re-opening with the same type, dimensions and values, and the files carry the documented types, dimensions and, for MAT files, class marks, character encoding and header. Opening for reading leaves the file alone, opening for update keeps its contents, opening for writing discards them. Missing variables or attributes, variables with too many dimensions and files that cannot be opened raise the error of this library, and no request reads or writes outside the arrays involved.',
  ['inputs', 'histories'], 'variables of any dimensions and contents, all files, all sequences of opening, writing, closing and reading',
  'The existing tests write three small variables; matrices whose rows are not contiguous were written out of bounds, variables of three dimensions overflowed the stack on reading, missing attributes escaped as foreign exceptions, writing integer arrays of several dimensions to MAT files always failed and the MAT header was wrong in every month.',
  ['src/SFile/SFile_HDF5.cpp', 'src/SFile/SFile_MAT.HDF5.cpp', 'include/softlib/SFile_HDF5.h'],
  [('HDF5', 'src/SFile/SFile_HDF5.cpp'), ('MAT', 'src/SFile/SFile_MAT.HDF5.cpp')],
  'The HDF5 library is an assumed contract (what a data set, data space, attribute and group are; that data are converted between types of equal meaning); the code of this library is proved to make exactly the required calls with buffers of sufficient size. The time stamp in the MAT header and the contents read from foreign files with other types are checked by the harness only.')

P('P10', 'Magnetic field files: what is saved is what is loaded, bad files are refused',
  'A magnetic field loaded from a file has exactly the grid, the components, the flux, the axis, the names and the contours stored in it, whichever of the two layouts each of them is stored in, and a field saved and loaded again is the same field; an equilibrium of LUKE gives the field, flux and outermost flux surface of the file at every point of its grid, measured from the axis. The domain is the wall if there is one, and otherwise the separatrix. Files that cannot be opened, lack a variable, whose fields do not match the grid or their verification vectors, or whose contours do not have two coordinates per point are refused with an error, and files are closed after use.',
  ['inputs'], 'files of any size and content, both layouts, with or without flux, wall, separatrix and verification vectors',
  'The existing tests load two fixed files with one layout; transposed fields, contours stored by columns, mismatching sizes, verification vectors and saving are not reached.',
  ['src/MagneticField/MagneticFieldNumeric2D.cpp', 'src/MagneticField/MagneticFieldLUKE.cpp'],
  [('loading, saving, verification', 'src/MagneticField/MagneticFieldNumeric2D.cpp'), ('LUKE equilibria and walls', 'src/MagneticField/MagneticFieldLUKE.cpp')],
  'Proved over symbolic dimensions (each below 2^15, the product below 2^30) and contents; the file enters by the contracts of its interface (P17, P18, P24) and GSL by the contract that its bilinear interpolation is a function of the data, the grid and the point. Interpolation of the loaded field is P07.')
P('P21', 'Images: every pixel has the colour of its value, in both formats',
  'A colormap gives every value within its range the linear interpolation between the two neighbouring colours of its table, and the first or last colour outside the range; the table is a copy of what the caller gave, and the built-in colormaps run from black to white. An image of any size is written transposed, one pixel per value, with the colour of the value, to a PNG or PPM file of the requested name; formats and colormaps that do not exist and files that cannot be created raise an error.',
  ['inputs'], 'all values, all tables of colours, images of any size and content, all names',
  'The existing tests never generate an image; the colormap was scaled with its upper limit instead of its width and converted numbers out of range, generating an image without colormap crashed, and unwritable PPM files were lost silently.',
  ['include/softlib/ImageGenerator/ImageColormap.h', 'include/softlib/ImageGenerator/ImageGenerator.h', 'src/ImageGenerator/ImageGenerator.cpp', 'src/ImageGenerator/ImageGeneratorPNG.cpp', 'src/ImageGenerator/ImageGeneratorPPM.cpp'],
  [('colours', 'include/softlib/ImageGenerator/ImageColormap.h'), ('formats', 'src/ImageGenerator/ImageGenerator.cpp'), ('PNG files', 'src/ImageGenerator/ImageGeneratorPNG.cpp'), ('PPM files', 'src/ImageGenerator/ImageGeneratorPPM.cpp')],
  'Proved over symbolic tables, values, sizes (below 2^31 rows and columns, 2^32 pixels) and contents; libpng enters by the contract that it writes the size and rows it is given, the stream library by the log of what is inserted. Values that are not numbers are covered by the replay driver only.')
P('P24', 'File interface: lists, numbers and conversions agree with what is stored',
  'For every variable, whatever the format of the file, reading it as list, single number, integer array or array of several dimensions gives exactly the stored elements in their order and place (converted to the type asked for), with the right dimensions and in memory that belongs to the caller; what does not have the shape or kind asked for is refused with an error, never read out of bounds. Writing a single number or an array of any element type stores it as an array of that type. The format follows from the text after the last dot of the file name.',
  ['inputs'], 'variables of any shape, element type and content, all names',
  'The existing tests write and read a few fixed matrices; conversions between element types, column vectors and arrays of more than two dimensions are not reached, and one-dimensional arrays were read out of bounds.',
  ['src/SFile/SFile.cpp', 'include/softlib/SFile.h'],
  [('conversions, lists, single numbers, arrays of several dimensions, types of files', 'src/SFile/SFile.cpp')],
  'Proved over symbolic dimensions and contents (below 2^40 elements, at least one row; up to three dimensions for arrays of pointers, four in the replay driver); the readers of the formats enter by the contract that they return the stored matrix as rows of one block. Conversion of numbers outside the range of a 64-bit integer is not constrained.')
P('P17', 'Text files: what is written is read back exactly, ill-formed files are refused',
  'Every variable written to a self-descriptive text file (matrices and vectors of every numeric type, strings of any bytes, attributes) is found again with equal dimensions and exactly equal values after closing and re-opening, any number of times, and variables that were not written are reported missing with an error. Opening for update keeps what was there, opening for writing discards it, and a file that cannot be opened or does not follow the format (missing names, dimensions, numbers or unknown kinds of variables; white space and empty lines between variables are insignificant) raises an error. Requests that the format cannot serve are refused and reading never gives access to the memory of the file object.',
  ['inputs', 'histories'], 'variables of any size and content, files of any number of lines, all sequences of opening, writing, closing and reading',
  'The existing test writes integers and short decimals and reads each variable once; reading twice used freed memory, only six digits were kept, column vectors were refused, unopenable files looked empty and update mode destroyed the file.',
  ['src/SFile/SFile_SDT.cpp', 'src/SFile/SFile_SDT.load.cpp', 'include/softlib/SFile_SDT.h'],
  [('writing and access', 'src/SFile/SFile_SDT.cpp'), ('parsing', 'src/SFile/SFile_SDT.load.cpp')],
  'Writing is proved to produce a log of words, numbers and line ends, reading to parse lines of such tokens, for any dimensions and any number of lines; that numbers printed with 17 digits are read back exactly (finite doubles, integers up to 2^53) is the assumed contract of the standard library. Names are taken to be non-empty and free of white space.')
