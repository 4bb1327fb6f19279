import json
P=[]
def p(id,title,st,over,text,why,files,mech):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=["solidspy/"+f for f in files],mechanism=[dict(name=n,where="solidspy/"+w) for n,w in mech])))
I=["inputs"];IC=["inputs","configurations"]
p("C01","Every free degree of freedom gets exactly one equation; restrained get none",
 "For any restraint table (flags 0 free, -1 restrained) and any number of degrees of freedom per node, the free degrees of freedom are numbered 0,1,2,... consecutively in node-major order, the restrained ones keep -1, and the reported number of equations is the number of free ones. The assembly operator lists, for every element (built-in or user defined, in meshes of any mix of element types), the equation numbers of its nodes in connectivity order and nothing else. Equation numbers are kept exactly, whatever the mesh size.",
 IC,"all flag tables and connectivities within the bounds (symbolic flags on up to 4 nodes with 1-3 dof, one large mesh for integer ranges), built-in and user dof counts",
 "Tests number three or four fixed meshes with mostly free nodes; the numbering must be right for all 2^n restraint patterns and connectivities.",
 ["assemutil.py"],[("equation counter","assemutil.py eqcounter"),("assembly operator","assemutil.py DME")])
p("C02","Global matrices are the exact sum of element matrices, dense and sparse alike",
 "Each entry (i, j) of the assembled global stiffness and mass matrices equals the sum, over all elements and all pairs of their local degrees of freedom mapped to equations i and j, of the corresponding entries of the element matrices; restrained degrees of freedom contribute nothing. The dense and the sparse assemblers, with built-in elements and with a user element routine, give the same matrices, of size number-of-equations squared, in the requested storage. No entry is dropped, truncated, symmetrised or rounded, whatever its magnitude or sign.",
 IC,"all element matrices (symbolic, not necessarily symmetric), restraint patterns and connectivities within the bounds; mixed meshes; built-in elements",
 "Tests assemble a few tiny meshes with particular symmetric matrices and compare at loose tolerance; the identity must hold for every matrix, numbering and connectivity.",
 ["assemutil.py"],[("dense assembly","assemutil.py dense_assem"),("sparse assembly","assemutil.py sparse_assem"),("dispatch","assemutil.py assembler")])
p("C03","Element data reach the right element routine; invalid requests are rejected",
 "For every element of a mesh, the local matrices are those of the routine documented for its type code, evaluated with the coordinates of its own nodes, in order, and with the row of the material table it names, whatever identifiers the first column of the tables holds; a user element routine, when given, replaces them all. The tables of degrees of freedom, nodes and integration points per type agree with the element routines. Unknown element types, material rows beyond the table, unavailable quadrature orders and system matrices of an unsupported class raise an error instead of returning a result.",
 IC,"all element types 1-8, symbolic coordinates and materials, any element/material position; all integers outside the supported codes within the bounds",
 "Tests call element routines directly and use one material row; they do not reach selection by type, material row and node order for every mesh, nor the rejections.",
 ["assemutil.py","femutil.py","gaussutil.py","solutil.py"],[("retriever","assemutil.py retriever"),("type table","assemutil.py ele_fun"),("type data","femutil.py eletype"),("matrix class","solutil.py static_sol")])
p("C04","The load vector is the sum of all nodal loads on free degrees of freedom",
 "The right-hand side has one entry per equation, equal to the sum of all the load components given for that node and direction; loads on restrained degrees of freedom are ignored, and unloaded equations are zero. This holds for any number and order of load rows, repeated nodes included, and any number of degrees of freedom per node.",
 IC,"all load values (real), load positions (including repeated nodes) and restraint patterns within the bounds; 1, 2 and 3 dof per node",
 "Tests use one or two loads on different nodes; accumulation, restraint and ordering combine over all histories of load rows.",
 ["assemutil.py"],[("load assembly","assemutil.py loadasem")])
p("C05","Completed displacements put each value at its own node, zero at supports",
 "For any solution vector and equation numbering, the completed field has one row per node and one column per degree of freedom, with the value of the corresponding equation at free degrees of freedom, exactly, and zero at restrained ones. Projecting the completed field back through the numbering gives the solution vector.",
 IC,"all solution values and restraint patterns within the bounds; 1-3 dof per node",
 "Tests check one mesh with two dof per node.",
 ["postprocesor.py"],[("completion","postprocesor.py complete_disp")])
p("C06","Shape functions interpolate: completeness, Kronecker and exact derivatives",
 "For each supported element shape (3/6-node triangles, 4/8/9-node quadrilaterals, 4-node tetrahedron, 8-node hexahedron), at every point, the shape functions are one at their own node and zero at the others, sum to one, and reproduce every polynomial of the element's space. The returned derivatives are the exact partial derivatives of those functions, one row per local coordinate and one column per node.",
 I,"all evaluation points in a box containing the reference element (real, exact); all nodes",
 "Tests sample a handful of points and compare hard-coded numbers; polynomial identities must hold everywhere.",
 ["femutil.py"],[("interpolation","femutil.py shape_tri3 .. shape_hex8")])
p("C07","Degenerate or inverted elements are always rejected, valid ones never",
 "For every element shape, the mapping routine returns the determinant of the Jacobian matrix and its inverse for every geometry that preserves orientation, and raises an error whenever the determinant is negative or numerically zero. The returned inverse times the Jacobian is the identity, for two and three dimensions. No element routine returns matrices for an inverted element.",
 I,"all Jacobian matrices in a box, 2-D and 3-D, positive, negative and zero determinants; distorted and mirrored elements",
 "Tests try one negative and one zero case; the guard must separate the whole space of geometries.",
 ["femutil.py"],[("Jacobian guard","femutil.py jacoper")])
p("C08","Strain operators give the exact strain of any affine displacement field",
 "For every element geometry with positive Jacobian and every evaluation point, the strain operator applied to the nodal values of an affine displacement field (also quadratic fields for quadratic elements on affine geometries) gives that field's exact strains, in the documented component order with engineering shear, and rigid motions give zero. The displacement operator returns the interpolated displacement, and the axisymmetric operator adds the hoop strain u/r and rejects negative radii.",
 I,"all affine fields, evaluation points and element geometries within the bounds; 2-D, 3-D and axisymmetric operators",
 "Tests compare one element at one point with stored numbers; geometry, point and field are all universally quantified.",
 ["femutil.py"],[("2-D operator","femutil.py elast_diff_2d"),("axisymmetric","femutil.py elast_diff_axi"),("3-D operator","femutil.py elast_diff_3d")])
p("C09","Constitutive matrices follow Hooke's law for every admissible material",
 "For every Young modulus E > 0 and Poisson ratio in (-1, 1/2), each constitutive matrix is symmetric, positive definite on its in-plane (2-D) or full (axisymmetric and 3-D) strain space, has shear modulus E/(2(1+nu)) on the engineering shear entries, and its inverse is Hooke's compliance: uniaxial stress sigma produces strain sigma/E axially and -nu sigma/E laterally. The plane-stress matrix is the one obtained from the 3-D law by eliminating the out-of-plane stress.",
 I,"all E in [0.1, 100] and nu in [-0.9, 0.49], symbolic; four constitutive routines",
 "Tests evaluate a single nice material (8/3, 1/3), for which many wrong formulas coincide.",
 ["femutil.py"],[("plane stress","femutil.py umat"),("plane strain","femutil.py elast_mat_2d"),("axisymmetric","femutil.py elast_mat_axi"),("3-D","femutil.py elast_mat")])
p("C10","Continuum element stiffness is the exact strain energy of the element",
 "For every admissible geometry and material, each 2-D and 3-D continuum element stiffness matrix is symmetric, annihilates rigid translations and rotations, and its quadratic form on nodal values of a linear field is the strain energy density times the exact element area or volume. On affine (parallelogram, straight-sided) geometries it equals the exact integral of B'CB where the element's quadrature promises it, and on distorted ones the documented Gauss sum; it does not depend on a translation of the element and scales correctly with size and with the modulus.",
 IC,"all seven continuum elements; symbolic E, nu and geometry within the bounds (affine families and distorted families)",
 "Tests check one square or one triangle with one material.",
 ["uelutil.py"],[("element routines","uelutil.py elast_tri3 .. elast_hex8")])
p("C11","Element mass matrices are consistent: symmetric and with the exact total mass",
 "For every admissible geometry and density, the mass matrix of each continuum, truss and beam element is symmetric and, for a uniform translational velocity, gives exactly density times area (volume, area times length) in each direction and no coupling between directions (for the beam without axial deformation, in its transverse direction); the density defaults to one where it is optional. On affine continuum elements and on members it is the exact consistent matrix, and it is positive semidefinite with each diagonal entry positive.",
 IC,"all continuum elements and truss/beam elements with symbolic geometry and density; default and explicit density",
 "Tests check a few entries for unit density or unit squares, where density, thickness and Jacobian factors are invisible.",
 ["uelutil.py"],[("element routines","uelutil.py")])
p("C12","The axisymmetric element integrates over the full revolution with hoop terms",
 "For every admissible rectangle or parallelogram section with non-negative radii and every material, the axisymmetric element stiffness is symmetric, does no work for axial rigid translation, and its quadratic form on affine displacement fields whose radial part is proportional to the radius equals the strain energy of the full solid of revolution (weight 2 pi r, hoop strain u/r coupled by the elasticity law); for any field it is the documented 3x3 Gauss sum of that energy. Its mass matrix gives density times the volume of revolution for axial motion.",
 I,"symbolic section sizes, position, material and displacement coefficients within the bounds",
 "No test compares the axisymmetric element with anything.",
 ["uelutil.py","femutil.py"],[("element","uelutil.py elast_axi_quad9"),("operator","femutil.py elast_diff_axi"),("law","femutil.py elast_mat_axi")])
p("C13","Springs and trusses respond only to elongation, in every orientation",
 "For every orientation, length and stiffness, the spring and truss stiffness matrices are symmetric positive semidefinite of rank one: end forces are k (or EA/L) times the elongation along the member axis, opposite at both ends, and zero for rigid motion and for transverse displacement. Reversing the node order permutes the matrix consistently, and the truss mass matrix is the consistent one of a bar in both directions.",
 I,"all end points with length in [0.3, 5], all stiffness parameters; both node orders",
 "Tests use members along the axes or one direction.",
 ["uelutil.py"],[("spring","uelutil.py spring"),("truss","uelutil.py truss2D")])
p("C14","Beam elements obey Euler-Bernoulli theory in every orientation",
 "For every orientation, length and section, beam stiffness and mass matrices are symmetric, rigid translations and the rigid rotation (counter-clockwise nodal rotation with its transverse displacements) produce no force, and cubic transverse fields (and linear axial ones for the beam with axial stiffness) produce exactly the strain energy of beam theory with EI and EA. The matrices are the horizontal-member matrices rotated by the member's angle, and the mass matrices are the consistent ones.",
 I,"all end points with length in [0.3, 5] and any angle; symbolic E, I, A and density; default and explicit density",
 "Tests use a 1e-1 tolerance on one frame and beams along an axis; a wrong rotation sign passes them.",
 ["uelutil.py"],[("beam","uelutil.py beam2DU"),("beam with axial","uelutil.py beam2D")])
p("C15","Quadrature rules integrate every polynomial of their declared degree exactly",
 "The Gauss-Legendre rule with n points integrates every polynomial of degree up to 2n-1 on [-1, 1], its tensor products integrate every product of such polynomials in up to three dimensions, and the triangle and tetrahedron rules integrate every polynomial up to their order over the reference simplex. Points lie inside the domain, and points and weights correspond to each other in the returned ordering.",
 IC,"every rule offered, all coefficient values of the polynomials (symbolic), up to 13 digits",
 "Tests integrate a few monomials for a few orders.",
 ["gaussutil.py"],[("1-D","gaussutil.py gauss_1d"),("tensor","gaussutil.py gauss_nd"),("triangle","gaussutil.py gauss_tri"),("tetrahedron","gaussutil.py gauss_tet")])
p("C16","Nodal strains and stresses are the average of each element's recovered values",
 "For meshes of 3-node, 6-node triangles or 4-node quadrilaterals, an affine displacement field gives its exact strain at every node and the plane-stress Hooke stress of each element's own material averaged over the elements sharing the node. For any displacement field the nodal value is the plain average, over the elements that share the node, of the strain that each element has at its integration point associated with that node. The recovered integration points are reported at their physical position.",
 IC,"symbolic geometry, displacements and materials on small meshes with several materials and element orders",
 "Tests check one patch of square elements under one load.",
 ["postprocesor.py","femutil.py"],[("averaging","postprocesor.py strain_nodes"),("element strains","femutil.py str_el3, str_el4, str_el6")])
p("C17","The analysis returns the equilibrium displacement, from files or from data",
 "For every well-posed model, the complete analysis returns displacements that satisfy the equilibrium equations of the assembled model under the given loads, are zero at restrained degrees of freedom, are linear in the loads (the linear solver behind it solves any regular system, dense or sparse, symmetric or not, without altering it), and, when requested, come with the strains and stresses of that same displacement field. Plotting or printing options do not change the result. Running from a folder of input files and running from the equivalent arrays give the same answer.",
 IC,"symbolic loads, moduli and node positions on small models of every 2-dof element type, all plot/strain options",
 "Tests run three fixed models.",
 ["solids_GUI.py","preprocesor.py","solutil.py"],[("from files","solids_GUI.py solids_GUI"),("from data","solids_GUI.py solids_auto"),("reader","preprocesor.py readin"),("solver","solutil.py static_sol")])
p("C18","Structured rectangle meshes tile the rectangle with properly oriented elements",
 "For any size and any numbers of divisions, the structured mesh has (nx+1)(ny+1) nodes equally spaced row by row over the rectangle centred at the origin and nx*ny quadrilaterals, numbered consecutively, whose counter-clockwise nodes are the corners of cell (row, column). Together the elements cover the rectangle exactly once, and neighbours share nodes.",
 IC,"real length and height, all nx, ny up to the bounds",
 "The doctest and test use 2x2 and square cases, where swapped dimensions are invisible.",
 ["preprocesor.py"],[("mesh","preprocesor.py rect_grid")])
p("C19","Mesh import helpers select exactly the tagged entities and share out the load",
 "From meshed data, the element table contains exactly the cells with the requested physical tag, in order, with consecutive identifiers from the given start, the given type and material, and their own connectivity, and the next free identifier is returned. Node tables keep index and planar coordinates; boundary conditions are set on exactly the nodes of the lines with the requested tag, leaving all others unchanged; loads go to exactly those nodes, each once, in equal shares adding up to the given resultant.",
 IC,"all tag patterns and connectivities (with shared nodes) on small meshes, symbolic coordinates, flags and loads",
 "Tests exercise one fixed mesh each; selection must hold for every tag pattern.",
 ["preprocesor.py"],[("elements","preprocesor.py ele_writer"),("nodes","preprocesor.py node_writer"),("supports","preprocesor.py boundary_conditions"),("loads","preprocesor.py loading")])
p("C20","Bloch reduction numbers and phase-links periodic degrees of freedom correctly",
 "For every assignment of image degrees of freedom to reference ones, the new numbering is consecutive over the non-image degrees of freedom in their original order, and each image has its reference's number. For every wavevector and coordinates the transformation has one column per non-image degree of freedom, maps each non-image degree of freedom to itself, and each image one to its reference with phase exp(i k . (x_image - x_reference)), the entries having modulus one; every row has exactly one nonzero.",
 IC,"all image/reference assignments on up to 6 dofs, in any list order; symbolic wavevector and coordinates; 1-2 dof per node, 1-3 dimensions",
 "Tests use two fixed lattices with ordered numbering.",
 ["blochutil.py"],[("numbering","blochutil.py reassign_dof_bloch"),("transformation","blochutil.py bloch_transform_mat")])
p("C21","Principal values are eigenvalues with orthonormal directions, largest first",
 "For every symmetric 2x2 tensor above the documented tolerance, the two values returned are its eigenvalues ordered by decreasing absolute value, each with its own unit eigenvector, and the two vectors are orthogonal. Tensors below the tolerance give zero values with undefined (NaN) directions and never fail, and a field of tensors in Voigt notation is processed row by row without interaction.",
 I,"all symmetric tensors in a box, diagonal, isotropic, tiny and general ones; fields of several rows",
 "Tests use a few tensors; the case split by sign, ordering and diagonality needs all inputs.",
 ["postprocesor.py"],[("2x2","postprocesor.py eigvals"),("field","postprocesor.py principal_dirs")])
p("C22","Truss stresses and strain energy follow from the displacements",
 "For every truss geometry, material and displacement field, each member's stress is Young's modulus times its axial strain, positive in tension, independent of area, density and node order, and each member uses its own material row. The energy reported for a displacement vector and a stiffness matrix is minus one half of the quadratic form u'Ku, for dense and sparse matrices.",
 IC,"symbolic geometry, materials, displacements; trusses with several members and materials; 2 and 3-column materials",
 "The doctests have unit area and modulus, for which these factors are invisible.",
 ["postprocesor.py"],[("stress","postprocesor.py stress_truss"),("energy","postprocesor.py energy")])
p("C23","Plot triangulation tiles every element exactly, keeping nodes and orientation",
 "For every mesh of one continuum 2-D type, and mixtures of 4-, 6- and 9-node elements in one padded table, the triangulation keeps the nodes and their coordinates, uses only the element's own nodes, and the triangles of each element are consistently oriented and add up to the element's area without overlap for straight-sided elements.",
 IC,"symbolic coordinates of each element type with mid nodes in the straight position, all mixes of two elements",
 "Tests check one element each against stored lists.",
 ["postprocesor.py"],[("triangulation","postprocesor.py mesh2tri")])
p("C24","Patch test: meshes of distorted elements reproduce linear fields exactly",
 "For any mesh of one continuum element type (the built-in 2-D types, and the 8-node quadrilateral, tetrahedron and hexahedron used as user elements), distorted but valid, the assembled system is in equilibrium, at every interior node, with any linear displacement field, and the nodal forces on the boundary are those of the constant stress. Consequently the assembled stiffness is symmetric and its rigid motions are stress free.",
 IC,"patches of two to five elements with symbolic interior node and field coefficients, tri3, tri6, quad4, quad9, quad8, tet4, hex8",
 "Tests only use regular meshes, for which errors in Jacobian, weights or numbering can cancel.",
 ["assemutil.py","uelutil.py","femutil.py"],[("assembly","assemutil.py"),("elements","uelutil.py"),("operators","femutil.py")])
p("C25","Calculations leave their inputs unchanged and do not depend on earlier calls",
 "No computation modifies the arrays passed to it (except the documented node table in boundary-condition assignment), nor do its results alias them (except the coordinates of a plot triangulation), and calling any routine again, after any other calls, with the same inputs gives the same result. Modifying a returned array does not affect later results.",
 ["inputs","histories"],"sequences of two or three calls with symbolic inputs over the public routines, with mutation of returned values in between",
 "Tests call each routine once per input; aliasing, caching and mutation need histories.",
 ["assemutil.py","femutil.py","uelutil.py","postprocesor.py","preprocesor.py","gaussutil.py","blochutil.py"],[("all","assemutil.py"),("numbering copy","assemutil.py eqcounter")])
p("C26","Figures show the given fields on the mesh, one per component",
 "A nodal field is drawn with one figure per column (a single figure for a vector or one column), on the mesh's triangulation with each node's own value, under the titles, windows, levels and style asked for, and saved (after drawing, under the given or numbered names) only when requested. The field plots show displacement, and strains and stresses when given, each component under its own title, and meshes with structural members are not drawn as contours. A truss is drawn member by member between its own end nodes whatever the element numbers, with line width linear in the area of its material between the smallest and largest width, and a colour that depends on its own stress on a scale symmetric about zero, whose end is the largest absolute stress. The analysis draws exactly the fields it returns.",
 IC,"meshes of every 2-D type, fields of one to three columns or a vector with symbolic values, trusses of up to four members with symbolic positions, areas, stresses and element numbers, all option combinations",
 "Tests only call two plots and never look at what is drawn; with contour plots on, the analysis even raised an error unnoticed.",
 ["postprocesor.py","solids_GUI.py"],[("field figures","postprocesor.py plot_node_field, tri_plot"),("analysis fields","postprocesor.py fields_plot"),("trusses","postprocesor.py plot_truss")])
p("C27","The answer does not depend on how the same structure is described",
 "Renumbering the nodes, reordering elements, load rows or material rows (repeated or unused rows included), starting an element at another of its nodes, or reversing a member, gives the same displacement at each node, the same nodal strains and stresses, and the same axial stress in each member. Turning, mirroring or moving the structure with its loads turns or mirrors the displacements, strains and stresses with it, and changing the units of length and stiffness rescales them. Results are linear in the loads, however these are split into rows, satisfy reciprocity of two load cases, and agree between dense and sparse systems. A straight member in several pieces gives the displacements of one member, elements in the same place add their stiffness, and half of a symmetric structure held along its axis moves like the whole. This holds for plane meshes, springs and trusses through the analysis driver and for frames and user-supplied elements through the documented steps.",
 IC,"models of two to nine elements of each kind with every value of the loads, under the stated renumberings, orders, motions, units and subdivisions",
 "Tests analyse a handful of models in one description each; dependence on order, numbering, orientation or place shows only when two descriptions of one structure are compared.",
 ["solids_GUI.py","assemutil.py","uelutil.py","femutil.py","postprocesor.py","solutil.py"],[("driver","solids_GUI.py solids_auto"),("numbering and assembly","assemutil.py DME, assembler, loadasem"),("elements","uelutil.py"),("recovery","postprocesor.py complete_disp, strain_nodes, stress_truss"),("solution","solutil.py static_sol")])
p("C28","An unsupported structure moves rigidly without force and has its exact mass",
 "For any structure of plane or solid elements, springs, trusses or frames without restraints, the assembled stiffness is symmetric and gives no force for any translation of the whole and for any small rotation about any point, wherever the structure lies. The assembled mass is symmetric and its energy in a translation is that of the total mass (sum of density times area or volume, or length times section), with no coupling between directions, and in a rotation of straight-sided plane elements, trusses and frames that of the exact moment of inertia. Uniform stretch of a meshed rectangle stores exactly the plane-stress energy.",
 IC,"structures of two to 60 elements of eleven kinds, dense and sparse, with free moduli, densities, areas and places, some node positions free",
 "Tests look at single elements in reference position or at supported models; rigid-body balance and totals involve all the parts at once, for every place, material and connectivity.",
 ["assemutil.py","uelutil.py","femutil.py","gaussutil.py","preprocesor.py"],[("assembly","assemutil.py assembler, DME"),("elements","uelutil.py"),("operators","femutil.py"),("rules","gaussutil.py")])
p("C29","A meshed model gives the answer of the structure it describes",
 "Taking elements, nodes, supports and loads from a mesh with physical groups through the mesh helpers, and analysing the resulting tables (as arrays or written to files), gives the displacements, strains and stresses of the same model written by hand: the elements of each group with its own type and material whatever the order in which groups are written, supports on exactly the nodes of their lines, and the resultant of each loaded group shared by its nodes; cells and groups that were not asked for, and the third coordinate of the points, have no effect. Grids of the grid generator and meshed bars under uniform tension or shear give the exact uniform solution.",
 IC,"rectangles of one to six cells of three cell kinds with one or two material groups, two loaded edges with any resultants, any place; grids and bars with exact uniform answers",
 "Tests call each helper on one tiny mesh and never feed its tables to an analysis.",
 ["preprocesor.py","solids_GUI.py","assemutil.py","postprocesor.py"],[("mesh helpers","preprocesor.py ele_writer, node_writer, boundary_conditions, loading, rect_grid"),("driver","solids_GUI.py solids_auto, solids_GUI")])
p("C30","A solved structure balances forces, moments and energy",
 "For any solved structure, the forces that the complete (unrestrained) stiffness assigns to the displacements are zero, or the load, at every free node, and those left at the supports balance the loads in every direction and about every axis. The work of the loads is twice the stored energy, whichever way this is computed: from the reported energy of the reduced or of the complete system, dense or sparse, as the sum over the elements, or (plane elements, springs and trusses) from the strains recovered in the elements. Loads never do negative work, and another support, a stiffer material or an added element never lets them do more.",
 IC,"structures of two to five elements of eleven kinds with every value of the loads at the free nodes and one support",
 "Tests compare displacements of a few models with stored numbers; global balance ties drivers, numbering, assembly, element routines, recovery and energy together for every load.",
 ["assemutil.py","solutil.py","solids_GUI.py","postprocesor.py","uelutil.py","femutil.py"],[("driver","solids_GUI.py solids_auto"),("energy","postprocesor.py energy"),("recovery","femutil.py str_el3, str_el4, str_el6"),("assembly","assemutil.py")])
p("C31","Finer meshes approach from the stiff side; contained solutions are exact",
 "For the same body, supports and loads, dividing the elements of a mesh of straight-sided plane elements, or replacing them by elements of more nodes (3- by 6-node triangles, 4- by 8- or 9-node quadrilaterals, 8- by 9-node ones), never lets the loads do less work. Where the elements contain the exact solution the analysis returns it at every node, for every load and number of elements: bars in pure bending with quadratic elements (6-node triangles, 8- and 9-node quadrilaterals), beams with forces and couples at their end or loads at a node between supports, trusses of inclined bars with their member stresses, solid and hollow cylinders under uniform radial tension (axisymmetric elements), and blocks of solid elements under uniform tension.",
 IC,"meshes of one to eight plane elements of five kinds in nested pairs with two free load components; bars, beams, trusses, cylinders and blocks of one to eight elements with every value of the loads",
 "Tests compare a handful of meshes with stored numbers at loose tolerance; exactness and one-sided convergence must hold for every load, division and element kind.",
 ["assemutil.py","solids_GUI.py","uelutil.py","femutil.py","gaussutil.py","postprocesor.py"],[("driver","solids_GUI.py solids_auto"),("elements","uelutil.py"),("rules","gaussutil.py"),("assembly","assemutil.py")])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
