import json, os
P=[]
def p(id,title,st,over,txt,why,files,mech,state=None,obs=None):
    d=dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=txt),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech]))
    if state: d['anchors']['state']=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    if obs: d['anchors']['observe_at']=obs
    d['anchors']['hook_needed']=None
    assert len(title)<=80,(id,len(title))
    P.append(d)
S='src/tinymesh/'
NOTEST="The runnable tests only cover the vector class, and the mesh tests that exist upstream drive a handful of sample models; "
p('T01','Flipping an edge keeps the mesh connectivity valid',
 'Whenever flipping an edge of a valid triangle mesh succeeds, the edge afterwards joins the two vertices that were opposite to it, both adjacent triangles are again closed three-edge loops, and every origin, opposite, successor, face, vertex-to-edge and face-to-edge link in the neighbourhood agrees with that. No vertex, edge or face is created or destroyed and all connectivity outside the two triangles is untouched.',
 ['inputs','histories'],'every valid triangle mesh, every halfedge that passes the refusal tests, every sharing pattern of the neighbouring triangles the mesh may have, after any earlier sequence of edits',
 NOTEST+'they check that a whole remeshing run ends in a mesh that passes its own verification, which only looks at some links on the sampled edges.',
 [S+'core/mesh.cpp',S+'core/halfedge.h',S+'core/vertex.h',S+'core/face.h'],
 [('edge flip relinks the two triangles','src/tinymesh/core/mesh.cpp: Mesh::flipHE')],
 [('halfedge links','origin, successor, opposite and face of each halfedge',S+'core/halfedge.h')],['Mesh::flipHE','Mesh::verify'])
p('T02','Splitting an edge keeps the mesh connectivity valid',
 'Whenever splitting an edge of a valid triangle mesh succeeds, exactly one vertex, three edges and two faces have been added, the new vertex sits at the midpoint of the old edge and is joined to its two end points and the two opposite vertices, and every link in the neighbourhood is mutually consistent. Each newly created element is registered with the mesh exactly once.',
 ['inputs','histories'],'every valid triangle mesh, every halfedge for which the split is performed, after any earlier sequence of edits',
 NOTEST+'they never inspect the links an individual split produces.',
 [S+'core/mesh.cpp'],[('edge split creates and links the new elements','src/tinymesh/core/mesh.cpp: Mesh::splitHE')],None,['Mesh::splitHE'])
p('T03','Collapsing an edge keeps the mesh connectivity valid',
 'Whenever collapsing an edge of a valid triangle mesh succeeds, exactly one vertex, three edges and the two adjacent faces have disappeared, and no element that remains in the mesh refers to a removed one. Every edge that left the removed vertex leaves the surviving vertex instead, and all remaining links are mutually consistent.',
 ['inputs','histories'],'every valid triangle mesh and halfedge for which the collapse is performed, every degree of the two end points, after any earlier sequence of edits',
 NOTEST+'dangling references left by a collapse are only noticed if a later operation happens to follow them.',
 [S+'core/mesh.cpp'],[('edge collapse relinks and removes elements','src/tinymesh/core/mesh.cpp: Mesh::collapseHE')],None,['Mesh::collapseHE'])
p('T04','Mesh edits that would break the mesh are refused and change nothing',
 'Flips of boundary edges or that would duplicate an existing edge, splits of boundary edges, collapses of edges whose adjacent triangles touch the boundary, and collapses that would make the surface non-manifold or leave a vertex of degree below three are refused with a false result. Whenever an edit is refused, the mesh is exactly as it was before the call.',
 ['inputs','histories'],'every valid triangle mesh, every halfedge offered to flip, split or collapse',
 NOTEST+'no test offers an illegal edit, and "unchanged" would have to be checked on every refusal path.',
 [S+'core/mesh.cpp'],[('refusal tests before the first change','src/tinymesh/core/mesh.cpp: Mesh::flipHE, Mesh::splitHE, Mesh::collapseHE')],None,['Mesh::flipHE','Mesh::splitHE','Mesh::collapseHE'])
p('T05','Collapsing an edge does not turn triangles over',
 'An edge collapse that is carried out leaves no triangle around the remaining vertex facing against the mean normal (weighted by area) that the triangles around the removed vertex had before; otherwise the collapse is refused. This holds for every triangle that stays, whatever their number and order.',
 ['inputs','histories'],'every valid mesh, every edge, any number of neighbours, any vertex positions',
 'Which triangle turns over depends on the shape; the meshes in the tests collapse without any triangle turning.',
 [S+'core/mesh.cpp'],[('orientation test before the collapse','src/tinymesh/core/mesh.cpp: collapseHE')])
p('C01','Every element id equals its position in the mesh',
 'At any time, the id reported by the vertex, halfedge or face stored at position i of the mesh is i, and ids run from 0 to the element count minus one without gaps. Adding an element gives it the next free id; removing one removes exactly that element and at most renumbers elements so that the rule holds again.',
 ['histories'],'every sequence of additions and removals of vertices, halfedges and faces, including removal of the last element and of elements already renumbered',
 NOTEST+'the number of add/remove histories is unbounded and a wrong id shows up only when somebody later indexes with it.',
 [S+'core/mesh.cpp',S+'core/mesh.h'],[('registration and swap-with-last removal','src/tinymesh/core/mesh.cpp: Mesh::addVertex/addHalfedge/addFace, removeVertex/removeHalfedge/removeFace')],
 [('element arrays','the mesh owns its elements in three arrays',S+'core/mesh.h')],['Mesh::vertex','Mesh::halfedge','Mesh::face'])
p('C02','Asking for an element that does not exist is reported',
 'Requesting a vertex, halfedge or face with a position that is negative or not smaller than the element count ends with a reported error and never yields an element or touches memory outside the stored elements.',
 ['inputs'],'every mesh size including empty, every requested position',
 'Out-of-range access is undefined behaviour when unguarded; a test run that happens not to crash proves nothing, and no existing test requests an invalid position.',
 [S+'core/mesh.h',S+'core/mesh.cpp'],[('range assertion in the element accessors','src/tinymesh/core/mesh.h: Mesh::vertex, Mesh::halfedge, Mesh::face')])
p('B01','Loading or rebuilding a mesh leaves nothing of the old mesh behind',
 'After a mesh object is loaded from a file or rebuilt from vertex and index lists, its elements and its exported index list depend only on the new data, whatever the object contained before. This holds for every supported file format.',
 ['histories','inputs'],'every previous content of the object, every way of filling it (OBJ file, PLY file, vertex and index lists)',
 NOTEST+'each test object is filled exactly once.',
 [S+'core/mesh.cpp'],[('state is cleared before it is filled','src/tinymesh/core/mesh.cpp: Mesh::load, Mesh::loadOBJ, Mesh::loadPLY, Mesh::construct')])
p('B02','Face indices that point outside the vertex list are reported before use',
 'Building a mesh from vertex and index lists or from an OBJ or PLY file in which a face index points outside the vertex list, or (lists, OBJ) whose index count is not a multiple of three, ends with a reported error, and no vertex data is read through such an index before. A vertex left without any face is reported as well before its missing link is followed.',
 ['inputs'],'every index list and every content of the buffers the file parsers deliver, including vertices without faces and empty lists',
 'The inputs are unbounded and the sample models are all well formed; reading outside a list often goes unnoticed.',
 [S+'core/mesh.cpp'],[('range checks before indexing','src/tinymesh/core/mesh.cpp: Mesh::construct, Mesh::loadOBJ, Mesh::loadPLY'),('vertices without a face','src/tinymesh/core/mesh.cpp: Mesh::construct')])
p('B03','Building a mesh makes one face per triangle and links what belongs together',
 'When a mesh is built, triangles with two equal corners are left out wherever they stand, a triangle with a directed edge that is already used is skipped without ending the operation, and every other triangle becomes one face with three edges in the given order. Edges with opposite end points become each other\'s opposites, and every boundary loop gets one additional face whose edges are marked as boundary, together with their opposites, and run against the loop. The edge kept for a vertex starts at that vertex.',
 ['inputs'],'every list of triangles over every vertex list: any number and place of degenerate and duplicate triangles, any number and length of boundary loops',
 NOTEST+'the sample models contain no degenerate or duplicate triangles and no holes.',
 [S+'core/mesh.cpp'],[('construction of faces, edges and boundary loops','src/tinymesh/core/mesh.cpp: Mesh::construct')])
p('U01','Memory that was given up is not used any more',
 'No operation reads or writes through a reference, pointer or iterator into a list or queue after the list has been enlarged, shrunk, replaced or had that entry taken off. No operation goes on using a mesh element after it has removed that element from the mesh, and a composite edit that removed elements reports success, so that its caller does not go on using them either.',
 ['histories','inputs'],'every path through every library operation, every list size and capacity',
 'Whether a stale reference is noticed depends on when the list happens to move its storage and on what the allocator does with freed memory; a test that does not crash proves nothing.',
 [S+'core/mesh.cpp',S+'core/completion.cpp',S+'remesh/simplify.cpp',S+'restore/completion.cpp'],
 [('references into element lists while elements are added','src/tinymesh/core/mesh.cpp: Mesh::construct'),('elements removed by a collapse','src/tinymesh/core/mesh.cpp: Mesh::collapseHE, Mesh::collapseFace'),('queues','src/tinymesh/core/completion.cpp, src/tinymesh/remesh/simplify.cpp')])
p('I01','File open and write failures are reported',
 'Loading from a file that cannot be opened and saving to a file that cannot be opened or completely written always ends in a reported error; neither operation returns normally as if it had succeeded.',
 ['fault_sequences','inputs'],'every supported format, every point at which opening or writing may fail (missing directory, no permission, full disk)',
 'Tests write a few small files to a writable directory; failing streams never occur.',
 [S+'core/mesh.cpp'],[('stream state checks','src/tinymesh/core/mesh.cpp: Mesh::loadOBJ, loadPLY, saveOBJ, savePLY')])
p('I02','Exported data lists every vertex and every real face exactly once',
 'The vertex list, the index list and the files a mesh is saved to contain every vertex once, in id order with its own coordinates (which files may round), and every face that is not a hole once, as its vertices in loop order; faces refer to vertices by id, counted from zero, except in OBJ files where counting starts at one.',
 ['inputs','histories'],'every mesh, including meshes with holes and meshes after edits, every export path',
 NOTEST+'saved output is only checked by reloading a few closed models.',
 [S+'core/mesh.cpp'],[('export loops','src/tinymesh/core/mesh.cpp: Mesh::getVertices, getVertexIndices, saveOBJ, savePLY')])
p('I03','Meshes that are built have the corners and positions of the input',
 'In a mesh built from vertex and index lists, an OBJ file or a PLY file, the k-th corner refers to a vertex exactly at the position the k-th index of the input names, in the order of the input and without leaving any out. Corners at equal positions share one vertex, which is created where the position is used first.',
 ['inputs'],'every vertex and index list, every content of the data the file parsers deliver: unused, repeated and unordered vertices, several shapes',
 NOTEST+'a wrong merge or order shows only on inputs with repeated or unordered vertices.',
 [S+'core/mesh.cpp'],[('merging of equal positions','src/tinymesh/core/mesh.cpp: Mesh::construct, Mesh::loadOBJ, Mesh::loadPLY')])
p('N01','Walking around a vertex or face visits each neighbour exactly once',
 'Iterating over the vertices, edges or faces around a vertex or a face of a valid mesh visits every adjacent element of that kind exactly once and then ends, starting from any vertex, at boundaries as well, and for read-only objects in the same order as for modifiable ones.',
 ['inputs','histories'],'every valid mesh, every vertex and face of it, every degree, the 12 iteration facilities in both const and non-const form',
 NOTEST+'traversals are exercised only indirectly on closed models.',
 [S+'core/vertex.cpp',S+'core/face.cpp',S+'core/vertex.h',S+'core/face.h'],[('circulators','src/tinymesh/core/vertex.cpp and face.cpp: iterator classes')])
p('N02','Boundary, hole, locked and degree queries match their definitions',
 'A vertex is on the boundary exactly if at least one edge leaving it is a boundary edge, a face exactly if at least one of its edges is; a face is a hole exactly if all of its edges are boundary edges, a face is locked exactly if at least one of its vertices is, and the degree of a vertex is the number of edges leaving it.',
 ['inputs'],'every valid mesh, every vertex and face, wherever in the traversal order the deciding edge or vertex appears',
 NOTEST+'none of these queries has a test of its own.',
 [S+'core/vertex.cpp',S+'core/face.cpp'],[('status queries','src/tinymesh/core/vertex.cpp: Vertex::isBoundary, degree; src/tinymesh/core/face.cpp: Face::isBoundary, isHole, isLocked')])
p('F01','Laplacian and Taubin smoothing keep boundary and locked vertices fixed',
 'Laplacian and Taubin smoothing never change the position of a vertex that lies on the boundary or is locked, for any number of iterations and any parameter values.',
 ['inputs','configurations','schedules'],'every mesh, every choice of locked vertices, every parameter value and iteration count, any number of threads',
 NOTEST+'smoothing is only run on closed models without locked vertices.',
 [S+'filters/smooth.cpp'],[('skip tests before a vertex is moved','src/tinymesh/filters/smooth.cpp: smoothLaplacian, smoothTaubin')])
p('F02','Analyses never modify the mesh and filters only move vertices',
 'Queries, exports, distance measures, Laplacian and curvature computations leave every part of the meshes they are given unchanged. Smoothing and denoising filters change nothing but vertex positions: connectivity, boundary flags, locks and ids stay as they were.',
 ['inputs','configurations'],'every mesh and parameter value, every public analysis and filter entry point',
 'A test can only compare the parts it thinks of on the sampled meshes; absence of any write on any path is a statement about all code reachable from the entry points.',
 [S+'ops',S+'filters',S+'core'],[('functions only read the mesh or call position setters','src/tinymesh/ops/*.cpp, src/tinymesh/filters/*.cpp')])
p('R01','Parallel loops are race-free and independent of the thread count',
 'In every parallel loop, two iterations never access the same memory with at least one of them writing, and no iteration reads what another iteration writes. Results are therefore identical for any number of threads, any schedule, and to the sequential build.',
 ['schedules','configurations'],'every schedule and thread count, every mesh',
 'Data races depend on timing; the tests run one schedule and do not touch the parallel loops at all.',
 [S+'filters',S+'restore/completion.cpp',S+'core/openmp.h',S+'ops'],[('iterations write only their own slots','every omp_parallel_for loop')])
p('V01','Vector arithmetic is component-wise in every dimension',
 'Adding, subtracting, negating, multiplying and dividing vectors by vectors or scalars (from either side, in place or not) yields in every component that operation applied to the corresponding components. Construction, copying, component access, comparison and the conversions to and from linear-algebra types keep every component at its index and never touch anything outside the vector.',
 ['inputs','configurations'],'every supported dimension and scalar type, every component value, every operator overload',
 'The runnable tests cover a few instantiations and sampled values; several overloads (scalar subtraction, the four-component constructor at small dimensions) are not called by any test.',
 [S+'core/vec.h'],[('operator overloads','src/tinymesh/core/vec.h: class Vec and free operators')])
p('V02','Dividing a vector by zero is always reported',
 'Dividing a vector by a zero scalar or by a vector with a zero component, with any operator form, ends with a reported error and never returns a result with infinite or undefined components.',
 ['inputs'],'every dimension, scalar type, operator form, and position of the zero component',
 'The tests try zero divisors for some forms and positions only.',
 [S+'core/vec.h'],[('zero checks','src/tinymesh/core/vec.h: Vec::operator/=, Vec::operator/')])
p('V03','Length, angle and product helpers compute their defining formulas',
 'Dot and cross product, length, normalisation, cotangent and dihedral angle of vectors equal their textbook definitions for all inputs where these are defined. Hash values of vectors depend on nothing but the components, so that equal vectors always hash equally.',
 ['inputs'],'all argument values; all three dimensions',
 'Tests compare a few random samples with tolerance; angle helpers and hashing have no runnable test.',
 [S+'core/vec.h',S+'core/utils.h'],[('formulas','src/tinymesh/core/vec.h and utils.h free functions')])
p('G01','Closest point on a triangle is the nearest point for every query',
 'For every query point and every non-degenerate triangle, the point reported as closest lies in the triangle and no other point of the triangle is nearer, whichever of the vertex, edge or interior cases applies; the reported distance is the distance to that point.',
 ['inputs'],'all query positions relative to the triangle (the seven regions and their borders), all triangle shapes',
 NOTEST+'the closest-point routine has no test of its own and a wrong region test affects a wedge of space only.',
 [S+'core/triangle.cpp',S+'core/triangle.h'],[('region case analysis','src/tinymesh/core/triangle.cpp: Triangle::closestPoint, distance')])
p('G02','Bounding boxes are the tightest boxes around what was merged',
 'A box grown by any sequence of points and boxes contains all of them and is minimal in every axis, an empty box changes nothing when merged, and its surface area and point distance follow from its extents in all three axes; a point inside has distance zero.',
 ['inputs','histories'],'every sequence of merges, every axis, points on all sides of the box',
 'No test covers boxes; errors in a single axis are invisible for symmetric samples.',
 [S+'core/bounds.h'],[('merge, area and distance','src/tinymesh/core/bounds.h: Bounds3')])
p('G03','The search tree finds the globally nearest triangle',
 'For every mesh and query point, the tree search returns the minimum over all triangles of the distance to that triangle: building the tree places every triangle in exactly one leaf under boxes that contain it, and the search never skips a subtree that could contain a nearer triangle.',
 ['inputs'],'every triangle set including coincident centroids, every query point, every tree shape',
 'No test compares the tree against brute force; pruning errors depend on geometry.',
 [S+'core/bvh.cpp',S+'core/bvh.h'],[('build partition and pruned descent','src/tinymesh/core/bvh.cpp: BVH::construct, closestPoint, distance')])
p('G04','Hausdorff distance is the larger of both one-sided maxima',
 'The Hausdorff distance of two meshes is the maximum over the vertices of either mesh of the distance to the other mesh, hence symmetric in its arguments; the per-vertex distances list one value per vertex of the source mesh, in vertex order, measured to the destination mesh.',
 ['inputs'],'every pair of meshes, of any sizes, in any argument order',
 'No runnable test covers the metrics.',
 [S+'ops/metrics.cpp'],[('two directed passes','src/tinymesh/ops/metrics.cpp')])
p('F03','Smoothing moves vertices towards the mean of their neighbours',
 'Each round of Laplacian smoothing moves every vertex that is neither locked nor on the boundary from its position p to p + s(m - p), where s is the given strength and m the mean of the positions its neighbours have at the start of the round, weighted with the cotangent weights of the connecting edges if these are requested and equally otherwise; the requested number of rounds is made. Taubin smoothing makes two such rounds with equal weights per iteration, one with the shrinking factor and one with the negative inflation factor.',
 ['inputs','configurations'],'every mesh, any set of locked vertices, all factors, any number of iterations',
 'The filter tests only check that the mesh remains valid; a wrong weight, a neighbour left out or positions taken in the middle of a round still give a smooth-looking mesh.',
 [S+'filters/smooth.cpp'],[('rounds of averaging and moving','src/tinymesh/filters/smooth.cpp: smoothLaplacian, smoothTaubin')])
p('A03', 'Principal curvatures and directions are those of the curvature tensor',
  'For every vertex the two principal curvatures returned are the eigenvalues of its curvature tensor, smoothed before if requested, the larger one first. The direction returned with the larger curvature is the combination of the two tangent vectors of the vertex given by a unit eigenvector for it, and the other direction is the unit vector perpendicular to it and to the normal. Where the two curvatures differ by less than 1e-6, both directions are zero.',
  ['inputs', 'configurations'], 'all closed triangle meshes and both settings of the smoothing option, for the plain query and the one that also returns derivatives',
  'Tests look at a few surfaces with known curvature, where many vertices are alike; a wrong order or a direction paired with the other curvature shows only at saddles or where the tensor is not diagonal.',
  [S + 'ops/features.cpp', S + 'ops/ops.h'],
  [('principal curvatures and directions', 'src/tinymesh/ops/features.cpp'), ('principal curvatures with derivatives', 'src/tinymesh/ops/features.cpp')])
p('F04','Denoising filters face normals and moves vertices to fit them',
 'Each of the requested rounds of normal denoising of a triangle mesh applies one Taubin smoothing with its default factors and then replaces the unit normal of every face by the unit vector along the sum of the normals of the three faces across its edges, each weighted with its area and with K(distance of the centroids, sigma times the mean edge length of the input), in the bilateral variant also with K(length of the difference of the two normals, sigma for normals). K(x, s) is exp(-x^2/(2 s^2)) for x below 2s, (4 - x/s)^4/(16 e^2) from there to 4s and zero beyond, up to a constant factor. Every vertex is then moved by the mean over the faces around it, weighted with area, of the offset from the vertex to the centroid projected on the filtered normal.',
 ['inputs','configurations'],'every valid triangle mesh, all standard deviations, any number of rounds',
 'The filter tests only check that the mesh remains valid; a wrong weight, a neighbour left out or an unfiltered normal still gives a smoother mesh.',
 [S+'filters/denoise.cpp'],[('filtering of normals and moving of vertices','src/tinymesh/filters/denoise.cpp: denoiseNormalGaussian, denoiseNormalBilateral')])
p('A01','Lengths, areas, normals and curvatures match their definitions',
 'The length of an edge is the distance of its end points and its cotangent weight half the sum of the cotangents of the two angles opposite to it; a triangle has half the length of the cross product of two edges as area and the unit vector along it as normal. For a vertex surrounded by triangles, the cell area adds up per triangle the Voronoi share, or half or a quarter of the triangle if it is obtuse at the vertex or elsewhere; the Gaussian curvature is the angle deficit over the cell area; the mean curvature is the cotangent-weighted sum of the edges towards the vertex projected on the vertex normal, over four times the cell area. The vertex normal is the unit vector along the sum of the cross products of consecutive edges, each divided by both squared edge lengths.',
 ['inputs'],'every valid mesh, every edge, every triangle, every vertex whose surrounding is closed, all positions without degenerate triangles',
 'No runnable test asks for these quantities; a wrong corner or weight still gives plausible numbers, and on regular meshes even the right ones.',
 [S+'core/vertex.cpp',S+'core/halfedge.cpp',S+'core/face.cpp'],[('sums around a vertex','src/tinymesh/core/vertex.cpp'),('edge quantities','src/tinymesh/core/halfedge.cpp'),('face quantities','src/tinymesh/core/face.cpp')])
p('A02','Mean edge length, dihedral angle and face area count everything once',
 'The mean edge length is the sum of the lengths of all edges, each counted once, divided by the number of edges; the mean dihedral angle averages the angle between the normals of the two sides of every edge in the same way. The mean face area is the sum of the areas of all faces that are not holes divided by the number of these faces.',
 ['inputs'],'every valid mesh with at least one triangle, closed or with holes',
 'No runnable test covers the averages; counting an edge twice or leaving one out changes the result only a little.',
 [S+'core/mesh.cpp'],[('averages','src/tinymesh/core/mesh.cpp: getMeanEdgeLength, getMeanDihedralAngle, getMeanFaceArea')])
p('O01','Laplacian matrices have zero row sums and one row per vertex',
 'For every Laplacian type the matrix is square with one row and column per vertex, each row contains exactly the weights of the vertex towards its neighbours with the opposite sign of the diagonal, and the diagonal makes the row sum to zero. The type requested selects the weights: one per neighbour, half the sum of the cotangents of the two angles opposite the edge, or heat-kernel weights that fall with the squared distance.',
 ['inputs','configurations'],'every mesh and every Laplacian type',
 'No runnable test covers the operators.',
 [S+'ops/operators.cpp'],[('triplet assembly','src/tinymesh/ops/operators.cpp')])
p('O03','A failed linear solve is never used silently',
 'Whenever a sparse linear system or a sparse eigenproblem inside a public operation cannot be factorised or solved, the operation reports it by a warning or an error before it returns or goes on to the next system; no failed solution reaches the mesh or the returned data without such a report.',
 ['inputs','fault_sequences'],'every solver use in every public operation, every input that makes the factorisation or iteration fail',
 'Solver failure needs singular or non-convergent systems which sample models do not produce.',
 [S+'filters',S+'ops',S+'restore',S+'core/completion.cpp'],[('solver status checks','call sites of sparse solvers')])
p('H01','Filling a hole sews it completely into the mesh',
 'Each hole-filling method replaces the hole by triangles of which every edge has an opposite edge running the other way between the same vertices, removes the hole face, registers everything it creates, and leaves neither side of a filled edge marked as boundary.',
 ['inputs'],'every mesh and every hole, of any number of edges, and each of the filling methods',
 NOTEST+'the fill tests check that the result verifies, which does not look at boundary marks.',
 [S+'core/completion.cpp'],[('triangle insertion links new halfedges with their opposite','src/tinymesh/core/completion.cpp')])
p('M01','Remeshing keeps protected vertices in place',
 'Remeshing never collapses or flips an edge of a triangle that has a locked vertex and never moves a locked or boundary vertex; vertices whose surrounding angles fall below the requested feature angle are treated as locked.',
 ['inputs','configurations','histories'],'every mesh, any set of locked vertices, every parameter value and random sequence',
 'Remeshing tests use no locked vertices, and the random order makes individual runs unrepresentative.',
 [S+'remesh/remesh.cpp'],[('lock tests before each edit','src/tinymesh/remesh/remesh.cpp: remeshTriangular')])
p('M02','Simplification reduces towards the requested number of faces and no further',
 'Simplification stops as soon as the requested number of faces is reached, never edits elements that no longer exist, and never collapses an edge when doing so would turn a remaining neighbouring triangle over; boundary and locked vertices are not moved.',
 ['inputs','configurations','histories'],'every mesh, target count and number of trials',
 'Simplification tests only check the final counts of two models.',
 [S+'remesh/simplify.cpp'],[('edge queue processing','src/tinymesh/remesh/simplify.cpp: simplifyQEM')])
p('M03','Remeshing selects edges by length and by vertex degree',
 'With L the mean edge length before remeshing, every requested round splits exactly the edges whose length is at least the long factor times L, collapses a short edge (at most the short factor times L) only if none of the edges this creates reaches the long limit, and flips exactly those inner edges, in triangles without locked vertices, whose flip lowers the total deviation of the four vertex degrees from six (four on the boundary).',
 ['inputs','configurations','histories'],'every mesh, every pair of limits, every random order of the edges, any number of rounds',
 'Remeshing tests look at counts of a few results; a wrong selection in some situations still gives plausible counts.',
 [S+'remesh/remesh.cpp',S+'core/mesh.cpp'],[('selection of edges','src/tinymesh/remesh/remesh.cpp: remeshTriangular'),('vertex that remains','src/tinymesh/core/mesh.cpp: Mesh::collapseHE')])
p('E01','Error reports and failed assertions never return to the caller',
 'Reporting an error or failing an assertion ends the calling function by an exception or ends the program, in every build configuration except with the explicit option that compiles assertions out; nothing after the report is executed. A condition under assertion is evaluated exactly once and an assertion that holds has no other effect.',
 ['configurations','inputs'],'debug and release builds, any message and argument list, every place an error is reported',
 'Tests run in one configuration; a disabled assertion in another build cannot be seen from there.',
 [S+'core/debug.h'],[('error reporting throws','src/tinymesh/core/debug.h')])
p('E02','New mesh elements start blank and copies carry everything over',
 'A newly created vertex, halfedge or face is unlinked, unlocked, not marked as boundary, has id -1 and its position is the origin or the one given. Copying, moving or assigning an element carries over every field; setters change only what they name and getters return it. Two elements of a kind compare equal exactly if their positions, links and ids agree; an edge is locked exactly if both its ends are.',
 ['inputs','configurations'],'every constructor and every creation site',
 'Uninitialised memory often reads as zero under test and differs in other builds.',
 [S+'core'],[('member initialisers','constructors of all classes')])
p('D01','Results depend only on the inputs',
 'Apart from remeshing, whose visiting order is random by design, no public operation lets the mesh or the returned data depend on random numbers, clock time, thread numbers, or the memory addresses of objects.',
 ['configurations','schedules','histories'],'every public operation, every run and every address-space layout',
 'Repeating a run in the same process environment usually repeats addresses too.',
 ['src/tinymesh'],[('id-based ordering and hashing','all operations')])
p('L02','The Python interface does what the C++ interface does',
 'Every function and method offered to Python calls the C++ operation it is named after, with the same argument order, meaning and default values; element handles obtained from a mesh stay valid while they are referenced from Python; vectors of the wrong shape are rejected.',
 ['configurations','programs'],'every bound name and every Python program using it',
 'The Python module is not built by the test setup.',
 ['src/pybind11.cpp','src/tinymesh'],[('binding table','src/pybind11.cpp')])
open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'properties.jsonl'),'w').write(''.join(json.dumps(x,ensure_ascii=False)+'\n' for x in P))
print(len(P))
for x in P:
    n=x['statement'].count('. ')+1
    if n>3: print(x['id'],n)
