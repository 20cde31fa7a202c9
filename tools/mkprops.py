import json
P=[]
def p(id,title,st,over,q,why,files,mech,**k):
    a={"files":files,"mechanism":[{"name":mech,"where":", ".join(files)}]}; a.update(k)
    P.append({"id":id,"title":title,"statement":st,"quantifier":{"over":over,"text":q},"why_tests_cant":why,"anchors":a})
F='symbolics/functions/'
p("S01","Building an expression preserves the meaning of what was asked for",
 "Applying an arithmetic operator, a mathematical function or a matrix function to well-formed operands either is refused, or yields an expression whose value and dimensions are those of the mathematical operation on the operands' values, for every assignment of values to the symbols at which both sides are defined. The folding done while building (neutral elements, zeros, numbers, signs, nested powers, merged arguments) never changes that value.",
 ["inputs","programs"],"All operand expressions of any type, shape and depth, and all values of their symbols.",
 "The tests build a few dozen fixed expressions; the folding rules branch on operand types, numeric values, signs and shapes in thousands of combinations.",
 ["symbolics/Operators.cpp","symbolics/Util.cpp",F+"*.cpp","symbolics/Matrix.cpp"],"New factories, operator overloads, Util::add/mul/div/pow and constructors fold at construction time")
p("S02","Simplifying an expression keeps its value, its dimensions and its operands",
 "Simplifying an expression returns an expression with the same dimensions and, wherever both are defined, the same value for every assignment of its symbols; this includes repeated simplification. The expression that was simplified, which other expressions may share, still denotes its old value afterwards.",
 ["inputs","programs","histories"],"All expressions, all assignments of their symbols, any sequence of simplifications of shared sub-expressions.",
 "Simplification is a large set of rewrite rules over unbounded trees; tests check the printed form of chosen trees only.",
 [F+"*.cpp","symbolics/NaryOp.cpp","symbolics/UnaryOp.cpp","symbolics/BinaryOp.cpp","symbolics/Matrix.cpp"],"simplify() of every node class")
p("S03","The time derivative is the derivative",
 "The time derivative of an expression denotes, wherever both are defined, the derivative with respect to time of the value of the expression, for every choice of differentiable functions of time for the variables and states and of constants for parameters and constants, and has the dimensions of the expression.",
 ["inputs","programs"],"All expressions built from differentiable operations, all trajectories of their symbols.",
 "The chain, product and quotient rules are applied recursively over unbounded trees with matrix factors whose order matters; tests differentiate a handful of small trees.",
 [F+"*.cpp","symbolics/Symbol.cpp","symbolics/Matrix.cpp"],"der() of every node class and Symbol's derivative symbols")
p("S04","Partial derivatives and Jacobians are the partial derivatives",
 "The derivative of an expression with respect to a scalar symbol denotes, wherever both are defined, the partial derivative of its value with respect to that symbol and has its dimensions. The Jacobian of a scalar or column expression with respect to a vector of symbols has in row i and column j the partial derivative of component i with respect to symbol j, however it is obtained.",
 ["inputs","programs"],"All expressions of differentiable operations, all symbols, all vectors of symbols, all assignments.",
 "As for time derivatives; matrix-valued rules have their own code paths that tests rarely reach.",
 [F+"*.cpp","symbolics/Matrix.cpp"],"der(symbol) of every node class, Jacobian")
p("S05","Dimensions are inferred correctly and mismatching operands are refused",
 "The dimensions reported for the result of every operation are those of the mathematical result, for scalars, row and column vectors and matrices of any size. An operation on operands whose dimensions do not conform is refused with an error and never yields an expression.",
 ["inputs"],"All pairs of shapes and all operations.",
 "Shapes are an infinite family with degenerate members (one row, one column, one element); tests use 3-vectors and 3x3 or 2x2 matrices.",
 ["symbolics/Shape.cpp","symbolics/Operators.cpp",F+"*.cpp","symbolics/Matrix.cpp"],"Shape arithmetic and the checks in constructors and factories")
p("S06","Matrix storage and element-wise matrix arithmetic",
 "Reading an element of a matrix returns what was last stored at that row and column, for plain and for symmetric matrices of any size, storing changes only that element (and its mirror image in a symmetric matrix), and an index outside the matrix is refused. Sum, difference, negation, scaling, product, transpose, element extraction and comparison of explicitly given matrices agree with the element-wise definition.",
 ["inputs","histories"],"All sizes, all indices, all element expressions, any sequence of stores.",
 "Tests use one or two fixed sizes, mostly square, so swapped rows and columns or wrong strides cannot show.",
 ["symbolics/Matrix.cpp","symbolics/SymmetricMatrix.cpp","symbolics/Operators.cpp",F+"Element.cpp",F+"Transpose.cpp"],"row-major vector of elements, packed triangle for symmetric matrices, loops over rows and columns")
p("S07","Equality and ordering of expressions are sound",
 "Two expressions reported equal have the same dimensions and the same value for every assignment; equality is reflexive and symmetric, inequality is its negation. The ordering used for sorted containers is irreflexive and asymmetric, and two expressions neither of which precedes the other have the same value.",
 ["inputs","programs"],"All pairs of expressions and all assignments.",
 "A wrong positive comparison silently merges different sub-expressions; tests compare a few pairs of small expressions.",
 ["symbolics/Operators.cpp","symbolics/Basic.cpp",F+"*.cpp","symbolics/NaryOp.cpp"],"operator==, operator< over BasicPtr and per node class")
p("S08","Substitution replaces a symbol and nothing else",
 "Substituting an expression of the same dimensions for a sub-expression that is a symbol yields an expression whose value is the value of the original with that symbol bound to the value of the replacement; other symbols are unaffected.",
 ["inputs","programs"],"All expressions, symbols, replacement expressions and assignments.",
 "Every node class rebuilds itself from substituted arguments; tests substitute into a few small trees.",
 [F+"*.cpp","symbolics/NaryOp.cpp","symbolics/UnaryOp.cpp","symbolics/BinaryOp.cpp"],"subs() of every node class")
p("C01","Printed code denotes the expression in every target language",
 "The text printed for an expression in each supported target language, read with the precedence and function meanings of that language, denotes the value of the expression for every assignment; in particular signs, parentheses around compound operands, powers, quotients, numbers and conditionals are unambiguous.",
 ["inputs","programs"],"All expressions over scalar operations, all target languages, all assignments.",
 "A missing parenthesis shows only for particular nestings of operators in one of eight printers; tests compare the text of a few expressions.",
 ["symbolics/printer/*.cpp"],"Printer base class and one subclass per language")
p("C02","Generated model files assign before use and compute the requested values",
 "A generated model or function file lists inputs, parameters, states and constants exactly once with the right dimensions and defaults, assigns each intermediate quantity before it is read, and the assignments executed in file order compute the value of the symbolic model.",
 ["inputs","programs","configurations"],"All symbol/equation graphs and all writers.",
 "The writers combine graph sorting, printing and per-language templates; the tests look at a few small models.",
 ["symbolics/writer/*.cpp","symbolics/graph/*.cpp"],"writers over the sorted graph")
p("G01","Assignments are scheduled once and after everything they depend on",
 "For every set of assigned symbols without cyclic definitions, the order produced for code generation contains every assigned quantity that is needed exactly once and after all quantities its expression mentions; a cyclic definition is refused.",
 ["inputs","programs"],"All acyclic and cyclic dependency graphs.",
 "Ordering errors depend on the shape of the dependency graph, of which tests use a few.",
 ["symbolics/graph/*.cpp"],"graph building, topological sort")
p("G02","Sharing common sub-expressions leaves every requested quantity unchanged",
 "Extracting common sub-expressions and other graph optimisations leave the value of every requested quantity the same for every assignment of the remaining symbols.",
 ["inputs","programs"],"All expression graphs.",
 "Depends on which sub-expressions coincide across an arbitrary model.",
 ["symbolics/graph/*.cpp"],"graph optimisation passes")
p("K01","Rotation matrices, skew matrices and joint coordinates follow their definitions",
 "The elementary rotation matrices are orthogonal with determinant one and transform coordinates into a frame that is rotated about the named axis in the mathematically positive sense, rotation vectors and angular velocities derived from them are consistent with their time derivatives, and the cross-product matrix of a vector satisfies its defining identity, for all angles and vectors.",
 ["inputs"],"All angles, vectors and joint coordinates.",
 "Tests evaluate at a few numbers; a sign error in one element can cancel there.",
 ["pymbs/common/functions.py","pymbs/processing"],"rotation helpers")
p("K02","Merging rigidly connected bodies conserves mass, centre of gravity and inertia",
 "Replacing bodies connected by fixed joints by one body keeps the total mass, the centre of gravity and the inertia tensor about it, and keeps every remaining frame at its place and orientation, for all masses, offsets, orientations and tensors.",
 ["inputs","programs"],"All chains of fixed joints with arbitrary orientation and offset.",
 "The tests use fixed joints with identity orientation or zero offsets.",
 ["pymbs/input/transformation.py","pymbs/input"],"applyFixedJoints transformation")
p("K03","Kinematic loop formulas satisfy the loop-closure equations",
 "The explicit solutions provided for closing kinematic loops (four-bar linkage, crank slider and similar) satisfy the closure equations for all geometries and independent coordinates for which the mechanism can be assembled, and their velocity terms are the time derivatives of the position solution.",
 ["inputs","configurations"],"All link lengths, mounting offsets and independent coordinates.",
 "Tests simulate one geometry per mechanism.",
 ["pymbs/processing/loops"],"closed-form loop solutions")
p("K04","The equations of motion are those of Newton and Euler, whichever generator is chosen",
 "For every multibody system described through the user interface - bodies, frames, joints of any degrees of freedom, fixed joints, explicitly solved loops, forces, torques, joint loads, springs - the recursive, the explicit and the order-n generator yield the accelerations that satisfy the Newton-Euler equations of that system for every state, input and parameter value, hence the same accelerations, and the generated mass matrix is symmetric.",
 ["inputs","programs","configurations"],"All topologies, joint types, load elements, reference frames and parameter values.",
 "Tests compare stored trajectories of a few systems.",
 ["pymbs/processing/generator_recursive.py","pymbs/processing/generator_explicit.py","pymbs/processing/generator_order_n.py","pymbs/input/transformation.py","pymbs/processing/loads"],"generators, loads, transformation of the model")
p("K05","Sensors report the quantity they are named for",
 "Every sensor (position, velocity, acceleration, orientation, angular velocity and acceleration, distance and its rate, joint coordinates, energy, centre of mass, constraint force and torque) reports, for every system, state, input and parameter value, the mechanical quantity its documentation names, with respect to the reference frame given (by default the first frame), with each generator that supports it; the helper functions that add several sensors and loads at once connect them as documented.",
 ["inputs","programs","configurations"],"All systems, pairs of frames, reference frames and states.",
 "Tests record a few sensors of a few models, mostly with respect to the world.",
 ["pymbs/processing/sensors","pymbs/input/mbs_system.py","pymbs/input/transformation.py"],"sensor classes, addSensor interface")
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
