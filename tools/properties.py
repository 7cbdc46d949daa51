"""Writes properties.jsonl and MANIFEST.json (the source of both)"""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
E = 'meshless/espim/'
READ, CLS = E + 'read_mesh.py', E + 'classes.py'
K0, KG = E + 'plate2d_calc_k0.py', E + 'plate2d_calc_kG.py'
KS, KC, KN, KE = [E + 'plate2d_add_k0s%s.py' % s for s in ('', '_cell_based', '_cell_based_no_smoothing', '_edge_based')]
SYM, INT, UT, LOG = 'meshless/dev/sympytools.py', 'meshless/interpolate.py', 'meshless/utils.py', 'meshless/logger.py'
PLATES = ('every flat triangulated plate: structured, Delaunay, fan-like, single and paired triangles, holes, separate pieces, '
          'nodes without triangles, any orientation of the triangles, any numbering, size and position')
LAMS = 'any assignment of isotropic and orthotropic laminates (any stack, offset, moduli)'
FIXED = 'The tests assemble two or three small regular plates with one laminate'

P = []


def prop(id, title, statement, text, why, files, mech, observe, technique, note, over=('inputs',), state=()):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=list(over), text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech],
                               state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               observe_at=observe, hook_needed=None), technique=technique, note=note))


prop('C01', 'Importing a triangulated point cloud gives exactly that mesh',
     'A point cloud with its triangulation becomes a mesh whose nodes carry exactly the given coordinates (missing third '
     'coordinates are zero) and whose triangles connect exactly the given nodes. Every pair of nodes joined by a triangle side '
     'is exactly one edge that knows its two ends and its one or two triangles, and every node knows exactly its edges and '
     'triangles. The input is not modified and two imports share nothing.',
     'all point clouds in two or three columns (lists, tuples, arrays of any numeric type and layout) with all valid triangulations',
     'The test imports one fixed 10-point cloud and looks at the number of triangles, edges and nodes; adjacency, coordinates and other '
     'input forms are never compared.',
     [READ, CLS], [('read_delaunay', READ), ('Node, Tria, Edge', CLS)], ['nodes, edges and elements of the returned mesh'],
     'property-based testing against an independent topology model',
     'Generated clouds and triangulations compared with a from-scratch topology; SciPy Delaunay also used as the producer.')
prop('C02', 'Importing a Nastran deck gives exactly the mesh it describes',
     'A deck with GRID and CTRIA3 cards becomes a mesh whose nodes and triangles carry the ids of the deck, whose positions are the ones '
     'in the basic coordinate system and whose edges and adjacency are those of the triangulation, whatever the format, order, id '
     'range or coordinate systems of the cards. It gives the same stiffness matrices as the equivalent point cloud. Decks '
     'with other element types are rejected with NotImplementedError.',
     'all decks of three-node triangles: small/large/free fields, any ids and card order, comments, other cards, local coordinate systems',
     'One deck of 16 nodes with dense ids in basic coordinates is read and only counted.',
     [READ, CLS], [('read_mesh', READ), ('pyNastran subclassed objects', CLS)], ['nodes, edges and elements of the returned mesh', 'assembled matrices'],
     'property-based testing: independent deck writer, round trip and differential against the point-cloud import',
     'Decks are written by code of /verif; pyNastran is trusted to parse the cards.')
prop('C03', 'Smoothing domains partition the plate and satisfy the divergence theorem',
     'Setting up a plate gives each edge one smoothing domain, made of the edge\'s ends and the centres of its one or two triangles, whose '
     'area is a third of those triangles; the domains add up to the area of the plate. The outline of every domain is closed, its normals are '
     'outward unit vectors, and its integration points sit at the middle of the segments with shape functions that sum to one and '
     'interpolate the position. Setting up again replaces, and does not add to, the previous domains.',
     PLATES, FIXED + ' and never look at the domains; a wrong normal or area shows only in some orientations or at the outline.',
     [K0, CLS, UT], [('domain set-up in calc_k0', K0), ('IntegrationPoint', CLS), ('area_of_polygon, unitvec, getMid', UT)],
     ['areas and integration points of the edges after the constitutive stiffness was calculated'],
     'property-based testing: geometric invariants (partition, closure, divergence theorem) on generated plates',
     'All invariants are recomputed independently from coordinates for each generated plate.')
for id, pn, other in (('C04', 'elements', 'the area-weighted mean of the laminates of the adjacent triangles'),
                      ('C05', 'nodes', 'the mean over the corners of the domain (ends of the edge, centres of its triangles) of the laminates interpolated there')):
    prop(id, 'Constitutive stiffness with the laminates of the %s is the smoothed one' % pn,
         'With laminates given to the %s, the constitutive stiffness is the sum over the edge-based smoothing domains of area times B^T C B, where B '
         'averages the strain of the linear interpolation over the domain and C holds the membrane, coupling and bending '
         'stiffness of the domain. The laminate of a domain is %s. All five degrees of freedom of a node occupy consecutive rows in the order u, v, w, phi_x, phi_y.' % (pn, other),
         PLATES + '; ' + LAMS, FIXED + '; B (coupling), A16/A26/D16/D26 and mixed laminates never enter, and results are compared within 5% or through an eigenvalue.',
         [K0], [('calc_k0', K0)], ['matrix returned by calc_k0'],
         'property-based differential testing against an independent reference assembly',
         'Reference from constant-strain triangles, not from the boundary integral of the code; entry-wise tolerance 1e-9 of the sum of absolute terms.')
prop('C06', 'Constitutive stiffness is symmetric, semi-definite, free of rigid motions',
     'The constitutive stiffness is symmetric and positive semi-definite, gives no forces for rigid in-plane motions and uniform rotations, and '
     'stores exactly the energy of any linear membrane and rotation field. It has no terms for the transverse displacement nor for nodes that no triangle uses.',
     PLATES + '; ' + LAMS, 'No test looks at the matrix itself; fixed plates cannot show the sign of every energy.',
     [K0], [('calc_k0', K0)], ['matrix returned by calc_k0'],
     'property-based testing: algebraic invariants and exact energies', 'Eigenvalues, null fields and exact energies on generated plates.')
for id, method, what in (
        ('C07', 'cell-based', 'the discrete shear gap strain of the three sub-triangles around the centre of each triangle, whose displacements are the means of the corners, averaged over the triangle'),
        ('C08', 'cell-based-no-smoothing', 'the discrete shear gap strain of each triangle starting at its first node'),
        ('C09', 'edge-based', 'the discrete shear gap strain of the sub-triangles between the edge and the centres of its triangles, averaged over the smoothing domain of the edge')):
    mod = {'C07': KC, 'C08': KN, 'C09': KE}[id]
    prop(id, 'Transverse shear stiffness (%s) equals its definition' % method,
         'The %s transverse shear stiffness is the sum of area times Bs^T E Bs where Bs is %s. E holds the xz and yz transverse moduli, each times '
         'its shear correction factor, divided by 1 + alpha l^2/h^2, with l the longest side or the square root of the area of the %s, as asked for. '
         'Moduli, factors and thickness are those of the laminates of the elements, or the means of those of the nodes.' % (method, what, 'smoothing domain' if id == 'C09' else 'triangle'),
         PLATES + '; ' + LAMS + '; any correction constant and both measures of length',
         FIXED + ' of one isotropic laminate with one constant; unequal G13/G23, other lengths and mixed laminates never enter.'
         + (' The encoded buckling load of this method contains a defect.' if id == 'C09' else ''),
         [KS, mod], [('add_k0s', KS), ('add_k0s of the method', mod)], ['matrix returned by add_k0s'],
         'property-based differential testing against an independent reference assembly',
         'Reference written from the definition.' + (' Known finding edge-based-y1 is matched exactly (a second reference with the defect); anything else is a violation.' if id == 'C09' else ''))
prop('C10', 'The shear correction divides by 1 + alpha l^2/h^2 and never stiffens',
     'A correction constant alpha divides the transverse shear stiffness of a domain by 1 + alpha l^2/h^2, with l the longest side or l^2 the area, as asked for, '
     'and h its thickness; alpha = 0 changes nothing. Larger constants never stiffen the plate in any direction, and the stiffness stays positive semi-definite. '
     'Options left out mean the cell-based method, alpha 0.08 and the longest edge.',
     PLATES + '; ' + LAMS + '; all alpha >= 0 for the three methods', 'The tests use one constant and one length.',
     [KS, KC, KN, KE], [('alpha, maxl_from_area', KS)], ['matrix returned by add_k0s'],
     'property-based metamorphic testing (factor, monotonicity, defaults)', 'Eigenvalue order between pairs of constants plus the reference.')
prop('C11', 'Shear stiffness adds on, is symmetric, semi-definite and shear-free exact',
     'Adding the transverse shear stiffness adds the same symmetric positive semi-definite matrix to whatever matrix is given, in place, touching nothing else, and '
     'involves no in-plane displacement. Rigid motions (translation, and inclination with the matching rotations) give no forces. Uniform shear '
     'stores exactly area times gamma^T E gamma.',
     PLATES + '; ' + LAMS + '; any matrix to add to; the three methods', FIXED + ', always added to the constitutive stiffness.',
     [KS, KC, KN, KE], [('add_k0s', KS)], ['matrix before and after add_k0s'],
     'property-based testing: algebraic invariants and exact energies',
     'Random existing matrices; energy and null fields of generated plates; known finding edge-based-y1 matched exactly.')
prop('C12', 'Geometric stiffness equals that of the smoothed membrane forces',
     'For any displacements, the geometric stiffness is the sum over the smoothing domains of area times G^T N G on the transverse displacement only, with N the membrane forces A eps + B kappa of the '
     'smoothed strain and curvature, and laminates as in the constitutive stiffness. It is symmetric, linear in the displacements, zero for rigid in-plane motions, and semi-definite for uniform tension. '
     'The displacements are not modified.',
     PLATES + '; ' + LAMS + '; all displacement vectors', 'One load case of one isotropic plate, observed through one eigenvalue.',
     [KG], [('calc_kG', KG)], ['matrix returned by calc_kG'],
     'property-based differential testing against an independent reference, and linearity',
     'Reference from constant-strain triangles.')
prop('C13', 'Results do not depend on numbering, position, orientation or units',
     'Renumbering nodes or triangles permutes the matrices; moving the plate changes nothing; rotating or mirroring it with its laminates transforms the matrices by the '
     'same rotation or reflection; other units of length and force scale them accordingly. This holds for the constitutive, shear and geometric stiffness.',
     PLATES + '; ' + LAMS + '; all permutations, motions and scales', 'Each test uses one numbering, position, orientation and unit.',
     [K0, KG, KS, KC, KN, KE, READ], [('node index', READ), ('calc_k0', K0), ('calc_kG', KG), ('add_k0s', KS)], ['matrices of equivalent models'],
     'property-based metamorphic testing on pairs of equivalent models', 'Pairs of generated equivalent models compared entry-wise.')
prop('C14', 'Static solutions are in equilibrium, reciprocal and converge',
     'Solving any supported plate with the assembled stiffness gives reciprocal deflections, non-negative work and reactions in equilibrium with the loads; plates of one laminate whose outline moves linearly '
     'have no forces on interior nodes. Simply supported rectangular plates deflect as the exact first-order shear theory predicts, within the discretisation error, and finer meshes come closer.',
     'all supports, loads, laminates and plates (equilibrium); simply supported isotropic and cross-ply plates of any aspect, thickness, mesh (accuracy)',
     'One cantilever is compared within 5% with a Nastran result.', [K0, KS, KC, KN], [('calc_k0', K0), ('add_k0s', KS)], ['deflections and reactions'],
     'property-based testing: equilibrium, reciprocity, patch test and exact Navier solutions as oracles',
     'Accuracy bound 25% at 8-10 elements per side (observed up to 15%), the other parts to round-off; the edge-based method is included for reciprocity and work only.')
prop('C15', 'Buckling loads match the exact ones and scale with the load',
     'The buckling load factors of simply supported plates under uniform in-plane loads agree with first-order shear theory within the discretisation error, positive for compression and none in tension. '
     'The factor is inversely proportional to the load and the same in other units, positions and numberings.',
     'isotropic and cross-ply rectangular plates of any aspect, thickness, mesh and bi-axial load', 'One load case per method, compared with a number which the code itself once produced.',
     [K0, KG, KS, KC, KN], [('calc_kG', KG), ('calc_k0', K0), ('add_k0s', KS)], ['eigenvalues of the assembled matrices'],
     'property-based testing against exact Navier buckling loads and scaling laws',
     'Accuracy bound 25% (observed up to 13%); scaling laws to 1e-6; eigenvalue solvers trusted.')
for id, dim, more in (('C16', '2D', ''), ('C17', '3D', ' The results encoded in the test contain a defect.')):
    prop(id, 'Lagrange interpolation on %s grids is the exact polynomial' % dim,
         'Interpolating nodal values on a %s grid of distinct coordinates gives the unique product polynomial through them: nodal values at the nodes, polynomials of the degree of the grid everywhere, '
         'inside and outside of the grid. It is linear in the values and does not depend on the order of the nodes, and inconsistent sizes are rejected.' % dim,
         'all grids (1 and more nodes per direction, any order and spacing), values and query points', 'One grid with equal directions and one set of values.' + more,
         [INT], [('interpolate_lagrange_%s' % dim, INT)], ['interpolated values'],
         'property-based testing against an exact rational oracle',
         'Exact fractions.' + (' Known finding lagrange3d-z-basis is matched exactly (second oracle with the defect).' if id == 'C17' else ''))
prop('C18', 'Expanding powers keeps the value of the expression',
     'Expanding the powers of an expression gives an expression of the same value. Positive integer powers of names, brackets and calls, written with ** or pow(), become products; other powers and text without powers stay.',
     'all arithmetic expressions with any names, nesting, spacing and exponents', 'One string is compared; names contained in one another, chains and fractional exponents never occur.',
     [SYM], [('pow2mul', SYM)], ['returned text'], 'grammar-based generation with evaluation before and after (50 digits)', 'Expressions are evaluated with 50-digit arithmetic.')
COM = ('Random symbolic matrices; the printed lines are interpreted with 50 digits and compared with the value of the generated expressions.')
prop('C19', 'Code printed for dense matrices evaluates to the matrix',
     'Executing the printed dense code gives the matrix: every non-zero term exactly once at its row and column (by nodes and degrees of freedom if asked for), with powers as products if asked for, collected or with substitutions listed. '
     'The announced number of terms is right, the written file equals the returned text, and the matrix is not modified.',
     'all symbolic matrices and combinations of options', 'Fixed 1x2 matrices compared as text.', [SYM], [('mprint_as_dense', SYM), ('pow2mul', SYM)], ['returned text and file'],
     'property-based testing by executing the generated code', COM, over=('inputs', 'programs'))
prop('C20', 'Triplets printed for sparse matrices are the matrix',
     'Executing the printed sparse code gives consecutive triplets of exactly the non-zero terms, or of those of the upper triangle for symmetric output, also when rows and columns are given by nodes and degrees of freedom. '
     'Options, announced number of terms, substitutions, file and header behave as for dense matrices, and the matrix is not modified.',
     'all symbolic matrices and combinations of options', 'The test compares texts without asserting the result.', [SYM], [('mprint_as_sparse', SYM), ('pow2mul', SYM)], ['returned text and file'],
     'property-based testing by executing the generated code', COM, over=('inputs', 'programs'))
prop('C21', 'Code printed for flattened arrays evaluates to the matrix',
     'Executing the printed array code assigns every non-zero term once at its row-wise or column-wise position with the requested operator, also through common sub-expressions, each declared and assigned once before its use. '
     'Announced number of terms, file and header are right, and the matrix is not modified.',
     'all symbolic matrices and combinations of options', 'One 1x2 matrix compared as text.', [SYM], [('mprint_as_array', SYM), ('pow2mul', SYM)], ['returned text and file'],
     'property-based testing by executing the generated code', COM, over=('inputs', 'programs'))
prop('C22', 'Incomplete or unsupported models are rejected',
     'Calculating with a laminate missing on a node or triangle that is used, setting up a plate with an edge shared by more than two triangles, or asking for an unknown shear method raises ValueError, or NotImplementedError for such an edge, instead of returning a matrix. '
     'The same model without the fault is accepted.',
     'all plates with a missing laminate, non-manifold edge or unknown method, wherever it is', 'No test covers any rejection.',
     [K0, KG, KS, KC, KN, KE], [('checks of properties, of edges and of the method', K0), ('dispatch', KS)], ['exceptions'],
     'fault injection into generated models', 'Each faulty model is paired with its repaired twin, which has to be accepted.', over=('inputs', 'fault_sequences'))
prop('C23', 'Results depend on the state of the model, not on its history',
     'Any sequence of calculations, changes of laminates, moves of nodes and switches between element and node laminates leaves a model that gives the same matrices as a fresh model in the same state. '
     'Calculations on one model never affect another one.',
     'all sequences of operations on one or two models', 'Each test performs one fixed sequence once or twice.',
     [K0, KG, KS, CLS], [('domain set-up is redone by calc_k0', K0), ('stored properties of domains', K0)], ['matrices after each operation'],
     'stateful (model-based) property testing', 'Histories of 3-9 operations, every result compared with a new model in a process that did nothing before.', over=('histories', 'inputs'),
     state=[('domains', 'area, integration points and nodes of each edge', K0)])
prop('C24', 'Geometric helpers are exact for every orientation and form',
     'The area of a simple polygon is right for any orientation, first corner and position; unit vectors have length one and the direction of the vector; centres of triangles and middles of edges are the means of their corners. '
     'Integration points interpolate the position with their shape functions, and edges keep separate lists.',
     'all simple polygons (lists, tuples, arrays of integers or floats), vectors and triangles', 'No test calls them directly.',
     [UT, CLS], [('area_of_polygon, unitvec, getMid', UT), ('Edge, IntegrationPoint', CLS)], ['returned values'],
     'property-based testing against exact rational arithmetic', 'Exact fractions as the oracle.')
prop('C25', 'Messages are complete, and calculations are silent unless asked',
     'A message, warning or error returns its text with its kind as prefix, and prints it indented by its level unless silent. All calculations print nothing by default, report start and end when silent is false, and give the same results.',
     'all texts, levels and flags; all calculations on all plates', 'No test looks at the output.',
     [LOG, READ, K0, KG, KC, KN, KE], [('msg, warn, error', LOG)], ['captured output, returned text'],
     'property-based testing of captured output', 'Standard output and error are captured for each call.')
prop('C26', 'A plate of one laminate is the same from nodes and from elements',
     'When the whole plate has one laminate, giving it to the nodes or to the elements gives the same constitutive, shear and geometric stiffness, whether one or many equal laminate objects are used. '
     'Laminates on the objects that are not used, or used by earlier calculations, have no influence.',
     PLATES + '; any laminate; the three shear methods', 'The tests run both ways but compare within 5%, on one isotropic laminate, and never with another laminate around.',
     [K0, KG, KC, KN, KE], [('prop_from_node', K0)], ['matrices of both assignments'],
     'property-based differential testing between the two assignments', 'Entry-wise comparison between assignments.')
prop('C27', 'Contributions are local: distant changes and pieces do not interact',
     'Changing a laminate, a node position, a displacement or a triangle changes only the terms between nodes of the triangles concerned and of their neighbours over an edge. '
     'Separate plates in one model give exactly the blocks of each plate alone, with no coupling.',
     PLATES + '; ' + LAMS + '; any single change', 'No test changes a part of a model.',
     [K0, KG, KC, KN, KE], [('assembly by edges and triangles', K0)], ['matrices before and after the change'],
     'property-based metamorphic testing', 'Matrices of changed and unchanged models compared outside of the reach of the change.')
T2 = 'theory/espim/2D/'
THEORY = [T2 + 'plate/FSDT/transverse_shear_%s/stiffmatrices.py' % x for x in ('cell_based', 'cell_based_no_smoothing', 'edge_based')] + [
    T2 + 'membrane/stiffmatrices.py', 'theory/sfem/stiffmatrices.py']
prop('C28', 'The derivation scripts print the matrices of the theory',
     'Each derivation script (theory/espim/2D/**/stiffmatrices.py, theory/sfem/stiffmatrices.py) runs on its own and writes the files it names (print_k0, print_k0s..., print_kG) '
     'as code which, executed with the values of its names for any domain, triangles and laminate, gives the matrices of the theory: membrane, coupling and bending stiffness of a smoothing domain, the discrete shear gap '
     'stiffness of each method (with the full matrix E), the geometric stiffness, and the smoothed triangle of theory/sfem. The printed files kept beside the scripts give the same matrices.',
     'all values of the names in the printed code; all shapes of domains and triangles', 'No test runs the derivation scripts.',
     THEORY + [SYM], [('strain matrices Bm, Bb, Bs', THEORY[0]), ('mprint_as_dense', SYM)], ['executed text of the printed files'],
     'property-based testing: printed code executed for random values against matrices assembled from the theory',
     'Agreement at random points of rational functions: a wrong term shows at almost every point.')

prop('C29', 'The same input gives the same result in every process',
     'The same model gives the same numbering of nodes, ids, edges and stiffness matrices, and the same symbolic matrix the same printed code, in every '
     'process, whatever its hash seed and the addresses of its objects: displacements, matrices and code kept from one process fit the next.',
     PLATES + '; ' + LAMS + '; all symbolic matrices and options of printing; pairs of processes',
     'Tests run in one process and look at norms that do not depend on the numbering.', [READ, K0, KG, KC, KN, KE, SYM],
     [('numbering of nodes in calc_k0', K0), ('numbering in read_mesh, read_delaunay', READ), ('printing', SYM)],
     ['node indices, edges, matrices and texts of two interpreters'],
     'property-based differential testing between interpreters with different hash seeds and memory',
     'Two of four hash seeds per case; texts equal, matrices equal up to roundoff.', over=('inputs', 'configurations'))

prop('C30', 'Threads that work on separate models do not disturb each other',
     'Threads that each import and calculate a model of their own (stiffness, each transverse shear method, geometric stiffness), interpolate their own values or print their own '
     'symbolic matrices at the same time get the results, texts and files that each of them gets alone, whatever the order in which the statements of the threads alternate: nothing that one call needs is kept in a place that the calls share.',
     'every schedule of two to four threads; ' + PLATES + '; ' + LAMS, 'Tests run one calculation at a time.', [READ, CLS, K0, KG, KS, KC, KN, KE, SYM, INT, UT],
     [('calc_k0, add_k0s*, calc_kG without state of the module', K0), ('printing without state of the module', SYM)],
     ['results of each thread compared with those of the same calls alone'],
     'property-based testing over generated schedules: one thread at a time advances, a seed decides before which statements they change',
     'Threads change between statements of the code under test only; deterministic replay.', over=('inputs', 'schedules'))

prop('C31', 'A calculation that is interrupted or fails can be repeated',
     'Whatever statement of an import, a stiffness calculation, an interpolation or a printing function is interrupted (Ctrl-C, MemoryError, any other error), or fails because a laminate is missing or incomplete, '
     'coordinates are invalid or displacements too short: the laminates, coordinates and assignments of the model, symbolic matrices and the settings of the process are as before, '
     'repeating the call gives what it gives on a model that was never interrupted, and other models and matrices are not affected.',
     'every statement at which a call stops, every kind of error; ' + PLATES + '; ' + LAMS, 'Tests never interrupt a calculation.', [READ, CLS, K0, KG, KS, KC, KN, KE, SYM, INT, UT],
     [('calc_k0 sets up the domains anew each time', K0), ('restoring what is changed for the time of a call', KG)],
     ['results of the repeated calls', 'settings of the process after an interruption'],
     'property-based fault injection: an exception raised before a generated statement, then the call repeated and compared with a run without interruption',
     'Interruptions between statements of the code under test.', over=('crash_points', 'inputs'))

prop('C32', 'A call changes nothing but what it is meant to change',
     'Imports, calculations, interpolations, utilities and printing leave everything given to them as it was (points, triangulations, decks, displacements, coordinates, laminates with their plies and matrices, which laminate each '
     'node and element has, the connections of the mesh, symbolic matrices, substitutions, lists) apart from the stiffness that add_k0s adds to; they write no files but the printed one, leave the settings of the process alone (handling of floating point errors, '
     'print options, random numbers, working directory, environment, streams, precision of mpmath and decimal, evaluation by sympy...), and their results share no memory with the model or with former results.',
     PLATES + '; ' + LAMS + '; all options; any settings', 'Tests look at results only.', [READ, CLS, K0, KG, KS, KC, KN, KE, SYM, INT, UT],
     [('laminates, coordinates and displacements are only read', KG), ('m.subs, collect on copies', SYM)],
     ['arguments, model, files and settings recorded before and after each call'],
     'property-based testing: invariant over arguments, model and process state before and after each generated call',
     'Laminates compared by their numbers and arrays; about 20 settings of the process.', over=('inputs', 'configurations'))

prop('C33', 'An imported mesh remains a valid pyNastran model',
     'The mesh that is imported can be used with pyNastran as it is, before and after calculations and when nodes are moved (in place or by new coordinates): positions, areas, centres, normals, node and edge ids, the nodes and elements '
     'found by their ids, counts and the map from nodes to elements are those of the triangulation; and a model imported from a deck that pyNastran writes to a new deck is imported from that one as the same mesh (ids, coordinates as precise as printed, '
     'triangles, edges), also if the first deck has local coordinate systems.',
     PLATES + '; decks of all formats and coordinate systems; formats of writing', 'Tests never use the mesh as a pyNastran model nor write it.', [READ, CLS, K0],
     [('tria.nodes, nodes_ref of read_mesh, read_delaunay', READ)],
     ['methods of pyNastran on the imported objects', 'decks written and read again'],
     'property-based testing: geometry against numpy, round trip through decks written by pyNastran',
     'Written numbers have 8 to 16 digits.', over=('inputs',))

SKIP = set()
if __name__ == '__main__':
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in P:
            q = dict((k, v) for k, v in p.items() if k not in ('technique', 'note'))
            assert len(q['title']) <= 80, q['title']
            f.write(json.dumps(q) + '\n')
    checks = []
    for p in P:
        if not os.path.exists(os.path.join(HERE, 'props', p['id'].lower() + '.py')):
            continue
        cmd = '/opt/venv/bin/python run.py %s --tier ' % p['id']
        checks.append(dict(property=p['id'], quick_cmd=cmd + 'quick', thorough_cmd=cmd + 'thorough',
                           technique=p['technique'], level='exploration', level_note=p['note']))
    m = dict(version=1, setup_cmd='/opt/venv/bin/python selftest.py', checks=checks, not_applicable=[],
             notes='Hypothesis generates expanded JSON cases in 8 processes; failures shrink to the JSON case named in the '
                   'VIOLATION line (python replay.py FILE runs it again). No hooks in /repo are needed. Known findings: known_findings.txt.')
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')
