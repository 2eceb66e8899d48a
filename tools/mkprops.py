#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the list can be edited in one place)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=["include/GooseFEM/" + f for f in files],
                     mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe)))

p("C01", "Vector conversions between DOF, nodal and element storage are exact gathers",
  "Converting a DOF vector or nodal vector to nodal or element storage puts, in every entry, exactly the value stored for the node/DOF that the connectivity and DOF-table refer to, and nothing else. Converting nodal or element storage to DOFs (or element storage to nodes) gives every referenced DOF (node) the value of the entry that refers to it whenever all entries that share it agree, and zero to unreferenced ones. Hence round-trips are the identity on consistent data, and the in-place and allocating variants agree.",
  ["inputs"], "all connectivities and DOF-tables (including tied DOFs, unused nodes, any number of elements, nodes per element and dimensions) and all values",
  "The tests use one small mesh with one DOF-table; the claim is for every connectivity, DOF numbering and dimension.",
  ["Vector.h", "Element.h"], [("asDofs/asNode/asElement conversion loops", "Vector.h: Vector::asDofs_impl_*, asNode_impl_*, asElement_impl_*"), ("free gather function", "Element.h: asElementVector")],
  ["return values of AsDofs, AsNode, AsElement and their in-place versions", "Element::asElementVector"])
p("C02", "Assembly is the exact sum of all contributions to each DOF or node",
  "Assembling element or nodal storage into DOFs (or nodes) gives each DOF exactly the sum of all entries that refer to it, and zero to DOFs to which nothing refers; previous content of the output does not matter. Assembling element storage to nodes gives each node, per direction, the assembled value of its DOF. Assembly is therefore linear, conserves the total, and is the adjoint of the gather from DOFs to element storage.",
  ["inputs"], "all connectivities and DOF-tables (including tied DOFs and elements that refer to the same node more than once) and all values",
  "The tests assemble on one mesh; the sum must be complete for any sharing pattern of nodes and DOFs.",
  ["Vector.h", "Element.h"], [("accumulation loops", "Vector.h: assembleDofs_impl_nodevec, assembleDofs_impl_elemvec, assembleNode_impl_elemvec"), ("free assembly function", "Element.h: assembleNodeVector")],
  ["AssembleDofs, AssembleNode and in-place versions", "Element::assembleNodeVector"])
p("C03", "The unknown/prescribed partition of a vector is complete and lossless",
  "For every DOF-table and every list of distinct prescribed DOFs, the unknown DOFs are exactly the remaining DOFs in ascending order, the prescribed DOFs keep the order given by the user, and the masks per node agree with this partition. Extracting the unknown or prescribed part returns the values of exactly these DOFs in that order, and combining the two parts restores the DOF, nodal or element vector exactly. Copying the unknown (prescribed) part overwrites exactly the entries of unknown (prescribed) DOFs and leaves all others untouched.",
  ["inputs"], "all DOF-tables, all sets of prescribed DOFs (empty, all, any order) and all values",
  "The tests use one mesh with one ordered list of prescribed DOFs; order, emptiness and interleaving of the list are not covered.",
  ["VectorPartitioned.h", "Vector.h", "Mesh.h"], [("partition in the constructor", "VectorPartitioned.h: VectorPartitioned::VectorPartitioned"), ("extraction and recombination", "VectorPartitioned.h: asDofs_u, asDofs_p, dofsFromParitioned, nodeFromPartitioned, elementFromPartitioned, copy_u, copy_p, dofs_is_u, dofs_is_p")],
  ["iiu, iip, dofs_is_u, dofs_is_p, AsDofs_u, AsDofs_p, DofsFromParitioned, NodeFromPartitioned, ElementFromPartitioned, Copy_u, Copy_p"])
p("C04", "Reduction of a vector to the independent DOFs of a tied system",
  "The index lists of unknown, prescribed, independent and dependent DOFs are the consecutive blocks whose sizes follow from the tying matrices. The independent part of a nodal vector is its value on each independent DOF, plus - when tyings are applied - the transposed tying matrix times the values on the dependent DOFs. Copying the prescribed part changes exactly the prescribed DOFs.",
  ["inputs"], "all DOF-tables numbered unknown-prescribed-dependent, all tying matrices of matching size, and all nodal vectors",
  "No existing test exercises this class.",
  ["VectorPartitionedTyings.h"], [("block sizes and index lists", "VectorPartitionedTyings.h: constructor"), ("reduction and copy", "VectorPartitionedTyings.h: asDofs_i, Eigen_asDofs_d, copy_p")],
  ["iiu, iip, iii, iid, nn*, AsDofs_i, asDofs_i, copy_p"])
p("C05", "A sparse matrix represents exactly what was assembled, set or added",
  "After assembly the (dense image of the) matrix has, for every pair of DOFs, exactly the sum of all element-matrix entries that refer to that pair; setting replaces and adding increments exactly by the given block scattered to the given rows and columns. The product with a DOF vector equals the product with the dense image, and the product with a nodal vector is the same product on the DOFs of that nodal vector. Any sequence of these operations behaves as on a dense matrix.",
  ["inputs", "histories"], "all connectivities, DOF-tables, element matrices, row/column lists (including repeated entries), vectors, and all sequences of assemble/set/add",
  "The tests check one product for a few meshes; not arbitrary sharing of DOFs, repeated rows or sequences of operations.",
  ["Matrix.h"], [("triplet assembly, set, add", "Matrix.h: Matrix::assemble_impl, set, add"), ("dense image and product", "Matrix.h: todense_impl, dot_nodevec_impl, dot_dofval_impl, Eigen_AsDofs_nodevec, Eigen_asNode_dofval_nodevec")],
  ["assemble, set, add, Todense, todense, Dot, dot, data"])
p("C06", "A partitioned sparse matrix is the same matrix, split without loss",
  "The four blocks of a partitioned matrix are exactly the rows and columns of the assembled (or set, or added) matrix that belong to the unknown and the prescribed DOFs, in the order of the partition. Its dense image, its product with DOF or nodal vectors, and its reaction forces equal those of the unpartitioned matrix: the reaction overwrites only prescribed entries and leaves all others as they were.",
  ["inputs", "histories"], "all connectivities, DOF-tables, sets of prescribed DOFs, matrices, vectors and sequences of assemble/set/add",
  "The tests use a single mesh and a sorted list of prescribed DOFs at the end of the numbering or one random case.",
  ["MatrixPartitioned.h", "Matrix.h"], [("block assembly", "MatrixPartitioned.h: assemble_impl, set, add"), ("use of the blocks", "MatrixPartitioned.h: todense_impl, dot_*_impl, reaction_*_impl, AsDofs_u, AsDofs_p; Matrix.h: MatrixPartitionedBase::Reaction*")],
  ["data_uu/up/pu/pp, Todense, Dot, Reaction, Reaction_p"])
p("C07", "A matrix with nodal tyings: exact blocks and the condensed system is solved",
  "The nine blocks and the dense image of a matrix with tyings are exactly the assembled matrix restricted to the unknown, prescribed and dependent DOFs. Solving returns prescribed values untouched, dependent values that satisfy the tying relation, and unknown values for which the residual forces projected on the independent unknown DOFs (own force plus transposed tying times the forces on the dependent DOFs) vanish. The nodal, DOF and partitioned interfaces of the solver give the same answer.",
  ["inputs"], "all connectivities, DOF-tables numbered unknown-prescribed-dependent, tying matrices, element matrices with a regular condensed system, right-hand sides and prescribed values",
  "No existing test exercises this class.",
  ["MatrixPartitionedTyings.h"], [("block assembly", "MatrixPartitionedTyings.h: assemble_impl, todense_impl"), ("condensation and solve", "MatrixPartitionedTyings.h: MatrixPartitionedTyingsSolver::factorize, solve_nodevec_impl, solve_dofval_impl, solve_u, AsDofs_u/p/d")],
  ["data_**, Todense, MatrixPartitionedTyingsSolver::Solve, Solve_u"])
p("C08", "A diagonal matrix: assembly, storage, product and solution are exact",
  "A diagonal matrix holds, per DOF, exactly the sum of all diagonal element-matrix entries that refer to that DOF, or the values that were set. The product multiplies entry-wise by that value of the entry's DOF and solving divides by it, for DOF and nodal vectors alike, and the dense image has these values on its diagonal and zeros elsewhere.",
  ["inputs", "histories"], "all connectivities, DOF-tables, diagonal element matrices with non-zero sums, vectors, and sequences of assemble/set/solve/dot",
  "The tests use one mesh and one assembled matrix; repeated modification after a solve is not covered.",
  ["MatrixDiagonal.h", "Matrix.h"], [("assembly and set", "MatrixDiagonal.h: assemble_impl, set"), ("product and solve", "MatrixDiagonal.h: dot_*_impl, solve_*_impl, factorize")],
  ["assemble, set, data, Todense, Dot, Solve"])
p("C09", "A partitioned diagonal matrix equals the diagonal matrix on each part",
  "The unknown and prescribed diagonals are exactly the entries of the full diagonal on these DOFs in partition order. Products equal those of the full diagonal matrix; solving sets exactly the unknown entries to force over diagonal and leaves prescribed entries untouched; reaction forces set exactly the prescribed entries to diagonal times value and leave the others untouched. All allocating, in-place and per-part interfaces agree.",
  ["inputs", "histories"], "all connectivities, DOF-tables, sets of prescribed DOFs, diagonal matrices, vectors, and sequences of assemble/set/solve",
  "The tests use one mesh with one partition, and do not call all interfaces.",
  ["MatrixDiagonalPartitioned.h", "Matrix.h"], [("assembly, set, data", "MatrixDiagonalPartitioned.h: assemble_impl, set, data"), ("dot, solve, reaction", "MatrixDiagonalPartitioned.h: dot_*, solve_*, reaction_*, factorize; Matrix.h: MatrixPartitionedBase")],
  ["data, data_uu, data_pp, Dot, Dot_u, Dot_p, Solve, Solve_u, Reaction, Reaction_p"])
p("C10", "Solvers always solve with the current matrix",
  "Whatever was assembled, set, added or solved before, solving returns the solution of the system with the matrix as it is at the time of the call: all rows (for a partitioned matrix: the unknown rows with the prescribed values moved to the right-hand side) of the current matrix times the solution equal the right-hand side. Re-used factorisations are never stale, also when a solver is used for more than one matrix or a matrix by more than one solver. Prescribed entries are returned as given.",
  ["histories", "inputs"], "all sequences of assemble/set/add/solve on any number of matrices and solver objects, all regular matrices and right-hand sides",
  "The tests solve once per matrix; stale factorisations need a sequence of operations.",
  ["Matrix.h", "MatrixPartitioned.h", "MatrixDiagonal.h", "MatrixDiagonalPartitioned.h", "MatrixPartitionedTyings.h"], [("change tracking", "Matrix.h: m_changed / MatrixSolver::factorize; idem MatrixPartitioned.h, MatrixDiagonal.h, MatrixDiagonalPartitioned.h, MatrixPartitionedTyings.h")],
  ["Solve, solve, Solve_u, solve_u of all solver classes and diagonal matrices"])
p("C11", "Shape-function gradients are exact for every element geometry",
  "For every non-degenerate element geometry the shape functions sum to one and their spatial gradients sum to zero and reproduce every linear field exactly at each integration point, for 2-d quadrilaterals, plane quadrilaterals in 3-d tensor space, axisymmetric quadrilaterals and hexahedra. The integration volume is the quadrature weight times the Jacobian determinant (times thickness for the plane element, times the circumference at the integration point for the axisymmetric element), so that the volumes sum to the exact volume of affine elements.",
  ["inputs"], "all element geometries (any non-degenerate node positions), all numbers of elements, both built-in and user-defined integration schemes",
  "The tests use axis-aligned regular meshes, for which errors in the off-diagonal of the Jacobian cannot be seen.",
  ["Element.h", "ElementQuad4.h", "ElementQuad4Planar.h", "ElementQuad4Axisymmetric.h", "ElementHex8.h", "detail.h"], [("gradient computation", "compute_dN_impl in Element.h, ElementQuad4.h, ElementQuad4Planar.h, ElementQuad4Axisymmetric.h"), ("inverse and determinant", "detail.h: tensor<2>::inv, tensor<3>::inv"), ("integration points and shape functions", "Gauss/Nodal/MidPoint namespaces and constructors in ElementQuad4.h, ElementHex8.h, ...")],
  ["GradN, dV, B of the Quadrature classes; Gauss/Nodal/MidPoint nip, xi, w"])
p("C12", "Interpolation and gradient operators at integration points match their formula",
  "Interpolating element vectors gives at every integration point the shape-function weighted sum of the nodal values; the gradient, its transpose and the symmetric gradient give at every integration point the tensor built from the shape-function gradients and nodal values, with the symmetric gradient the symmetric part of the gradient. Components outside the element's own dimension (plane and axisymmetric elements in 3-d tensor space) have their prescribed value, and the previous content of the output does not matter.",
  ["inputs"], "all numbers of elements and integration points, all shape functions and gradients, all element vectors, all element types",
  "The tests check a constant or one linear field on regular meshes; single components and the cross terms are not separated.",
  ["Element.h", "ElementQuad4.h", "ElementQuad4Planar.h", "ElementQuad4Axisymmetric.h", "ElementHex8.h"], [("interpolation and gradients", "interpQuad_vector_impl, gradN_vector_impl, gradN_vector_T_impl, symGradN_vector_impl in Element.h, ElementQuad4.h, ElementQuad4Planar.h, ElementQuad4Axisymmetric.h")],
  ["InterpQuad_vector, GradN_vector, GradN_vector_T, SymGradN_vector and in-place versions"])
p("C13", "Integration operators are the exact transposes of interpolation and gradient",
  "Integrating an integration-point vector, scalar, second-order or fourth-order tensor gives, per element and nodal component, exactly the quadrature sum of the integrand built from shape functions, shape-function gradients and integration volumes. In particular integrating a stress with the shape-function gradients does the work conjugate to the gradient operator (internal force times nodal displacement equals the volume sum of stress contracted with the displacement gradient), the mass matrix carries the total mass, and applying the stiffness matrix to nodal displacements equals the internal force of the stress that follows from the same gradient.",
  ["inputs"], "all numbers of elements and integration points, all shape functions, gradients and volumes, all integration-point fields, all element types",
  "The tests check uniform fields on regular meshes or compare one random case through the assembled result.",
  ["Element.h", "ElementQuad4.h", "ElementQuad4Planar.h", "ElementQuad4Axisymmetric.h", "ElementHex8.h"], [("integration loops", "int_N_vector_dV_impl, int_N_scalar_NT_dV_impl, int_gradN_dot_tensor2_dV_impl, int_gradN_dot_tensor4_dot_gradNT_dV_impl in Element.h and the element headers")],
  ["Int_N_vector_dV, Int_N_scalar_NT_dV, Int_gradN_dot_tensor2_dV, Int_gradN_dot_tensor4_dot_gradNT_dV and in-place versions"])
p("C14", "Updating nodal positions equals constructing the quadrature anew",
  "After any sequence of position updates, the gradients, integration volumes and all operators of a quadrature object are those of an object freshly constructed with the last positions and the same integration scheme. Construction does not depend on later changes to the arrays it was given.",
  ["histories", "inputs"], "all sequences of position updates on all element types and integration schemes",
  "The tests never update positions more than once, or not at all for most elements.",
  ["Element.h", "ElementQuad4.h", "ElementQuad4Planar.h", "ElementQuad4Axisymmetric.h", "ElementHex8.h"], [("re-evaluation after an update", "Element.h: update_x; compute_dN_impl of each element type")],
  ["update_x followed by GradN, dV"])
p("C15", "Regular meshes are the exact structured grid, with conforming connectivity",
  "For any number of elements per direction and any element size, a regular mesh of quadrilaterals, triangles or hexahedra has the documented number of nodes and elements, its nodes are exactly the grid points numbered x-fastest, and every element connects the grid points of its own cell in the documented (positively oriented) order. The elements tile the domain, and the DOF-table numbers DOFs consecutively per node.",
  ["inputs"], "all numbers of elements in each direction (including one) and all element sizes",
  "The tests compare literal tables for one or two small meshes.",
  ["MeshQuad4.h", "MeshTri3.h", "MeshHex8.h", "Mesh.h"], [("coordinates and connectivity", "Regular::coor_impl, conn_impl, elementgrid in MeshQuad4.h, MeshTri3.h, MeshHex8.h; Mesh.h: dofs, RegularBase")],
  ["coor, conn, dofs, nelem, nnode, nne, ndim, elementgrid, elementType"])
p("C16", "Boundary node-sets of regular meshes are exactly the boundary nodes",
  "Every edge, face, open edge, open face and corner set of a regular mesh contains exactly the nodes that lie on that part of the boundary (open sets exclude their end-points or edges), each once, in order of increasing node number/coordinate. All alternative names of the same set return the same set.",
  ["inputs"], "all numbers of elements in each direction and all boundary sets",
  "The tests compare literal lists for one small mesh; the sets depend on all dimensions of the mesh.",
  ["MeshQuad4.h", "MeshTri3.h", "MeshHex8.h", "Mesh.h"], [("node sets", "nodes*_impl in Regular of MeshQuad4.h, MeshTri3.h, MeshHex8.h"), ("aliases", "Mesh.h: RegularBase2d, RegularBase3d")],
  ["nodes*Edge, nodes*OpenEdge, nodes*Face, nodes*Corner, nodesBottom/Top/Left/Right/Front/Back"])
p("C17", "Periodic node pairs and periodic DOFs tie exactly the opposite boundaries",
  "The periodic pairs relate every boundary node that is not the origin to its image on the opposite boundary displaced by whole mesh periods, with every dependent node occurring exactly once. The periodic DOF-table gives tied nodes the same DOFs, all other nodes different DOFs, and numbers the DOFs consecutively from zero without holes.",
  ["inputs"], "all numbers of elements in each direction, for all 2-d and 3-d meshes with periodic support",
  "The tests compare literal lists for one small mesh per type.",
  ["Mesh.h", "MeshQuad4.h", "MeshTri3.h", "MeshHex8.h"], [("periodic pairs and DOFs", "Mesh.h: RegularBase2d::nodesPeriodic_impl, RegularBase3d::nodesPeriodic_impl, RegularBase::dofsPeriodic, nodesOrigin")],
  ["nodesPeriodic, nodesOrigin, dofsPeriodic"])
p("C18", "The quadrilateral fine-layer mesh is a conforming mesh with consistent sets",
  "For any number of elements in each direction a fine-layer mesh is a conforming mesh of positively oriented quadrilaterals that tiles its rectangular domain symmetrically, with a middle layer of the finest elements. Its boundary node sets are exactly the nodes on that boundary, its layer information (number of elements, element sizes, element sets per layer and of the middle layer) agrees with the actual elements, and rebuilding a mesh from its own coordinates and connectivity reproduces it. Selecting elements by rows and columns or around an element returns exactly the elements of the fine middle layer region concerned, and rolling the mesh permutes elements exactly as shifting by whole coarse elements does.",
  ["inputs"], "all numbers of elements in both directions, element sizes, minimal fine-layer thicknesses, and selections",
  "The tests compare literal tables for a few sizes; the layer structure depends on number-theoretic properties of the number of elements.",
  ["MeshQuad4.h", "Mesh.h"], [("layer structure", "MeshQuad4.h: FineLayer::init, init_by_mapping"), ("mesh and sets", "MeshQuad4.h: FineLayer::coor_impl, conn_impl, nodes*_impl, elementsLayer, elementsMiddleLayer, elementgrid_ravel, elementgrid_around_ravel, elementgrid_leftright, roll")],
  ["coor, conn, node sets, elemrow_*, elementsLayer, elementsMiddleLayer, elementgrid_*, roll"])
p("C19", "The hexahedral fine-layer mesh is a conforming mesh with consistent sets",
  "For any number of elements in each direction a fine-layer mesh of hexahedra is a conforming mesh of positively oriented elements that tiles its box-shaped domain, with a middle layer of the finest elements. Its boundary node sets (faces, edges, corners, open or not) are exactly the nodes on that part of the boundary and its middle-layer element set is exactly the layer of finest elements around mid-height.",
  ["inputs"], "all numbers of elements in the three directions, element sizes and minimal fine-layer thicknesses",
  "The tests check a few sizes only by node-set literals; conformity of refinement layers in three dimensions is not tested.",
  ["MeshHex8.h", "Mesh.h"], [("layer structure", "MeshHex8.h: FineLayer constructor"), ("mesh and sets", "MeshHex8.h: FineLayer::coor_impl, conn_impl, nodes*_impl, elementsMiddleLayer")],
  ["coor, conn, node sets, elementsMiddleLayer"])
p("C20", "Refinement and fine-to-regular maps are complete and geometrically consistent",
  "The refinement map assigns to each coarse element exactly the fine elements inside it, so that mapping to fine and averaging back is the identity and the average is the (weighted) mean of exactly those elements. The fine-layer-to-regular map assigns to each regular element the fine-layer elements that overlap it, with fractions equal to the overlapped area fraction; mapping a field preserves constants. Everything is in units of elements: the fine mesh of a refinement keeps the element size of the coarse mesh.",
  ["inputs"], "all regular meshes and refinement factors, all fine-layer meshes and fields",
  "The tests check one or two cases through a literal map.",
  ["MeshQuad4.h"], [("refinement", "MeshQuad4.h: Map::RefineRegular"), ("fine layer to regular", "MeshQuad4.h: Map::FineLayer2Regular")],
  ["RefineRegular::map, meanToCoarse, averageToCoarse, mapToFine, coarse/fine mesh; FineLayer2Regular::map, mapFraction, mapToRegular"])
p("C21", "Stitching meshes merges exactly the overlapping nodes and keeps all elements",
  "Stitching keeps every element of every sub-mesh at the same geometric position, merges each pair of overlapping (or manually indicated) nodes into one and leaves no unused or duplicate nodes. The node and element maps send each sub-mesh node and element to its image in the stitched mesh, and node and element sets are converted accordingly, without duplicates when several meshes are combined. Vertical stacking shifts each mesh on top of the previous one.",
  ["inputs", "histories"], "all sequences of meshes with conforming interfaces, all node and element sets",
  "The tests stitch two or three small regular meshes in one arrangement.",
  ["Mesh.h"], [("stitching", "Mesh.h: overlapping, ManualStitch, Stitch::push_back, Vstack::push_back"), ("maps and sets", "Mesh.h: nodemap, elemmap, nodeset, elemset of ManualStitch and Stitch")],
  ["coor, conn, nodemap, elemmap, nodeset, elemset of ManualStitch, Stitch, Vstack; overlapping"])
p("C22", "Renumbering and reordering DOFs are order-preserving relabelings",
  "Renumbering replaces the DOFs by consecutive numbers from zero, with equal DOFs kept equal and their order preserved; reordering numbers the DOFs of the given lists consecutively in the order of the lists. Both apply the same relabeling to every table to which they are applied, are consistent with the returned index, and the default DOF-table of a mesh numbers DOFs consecutively per node.",
  ["inputs"], "all DOF tables and lists (with holes, repetitions and ties)",
  "The tests renumber one or two literal tables.",
  ["Mesh.h"], [("relabeling", "Mesh.h: Renumber, Reorder, renumber, detail::renum, dofs")],
  ["Renumber::apply, Renumber::index, Reorder::apply, Reorder::index, renumber, dofs"])
p("C23", "Connectivity inversions list exactly the incidences",
  "The coordination of a node is the number of times elements refer to it; the elements per node and nodes per DOF are exactly the elements (nodes) that refer to that node (DOF), in ascending order when sorted; with a DOF-table, tied nodes share the union of their elements. The tied nodes of a node are exactly the nodes with which it shares its DOFs. Mapping an element map to nodes or moving data with it is consistent with the geometry.",
  ["inputs"], "all connectivities and DOF tables, including ties and unused nodes",
  "The tests use one or two literal meshes.",
  ["Mesh.h"], [("inversions", "Mesh.h: coordination, elem2node, node2dof, nodaltyings, elemmap2nodemap")],
  ["coordination, elem2node, node2dof, nodaltyings, elemmap2nodemap"])
p("C24", "Periodic tyings express every dependent DOF by independent and control DOFs",
  "For every list of nodal ties the renumbered DOFs are partitioned in unknown, prescribed and dependent blocks, and the tying matrix gives each dependent DOF the value of its independent counterpart plus the control (macroscopic gradient) DOFs times the distance between the two nodes. The unknown and prescribed tying matrices are exactly the columns of the independent one. Adding control nodes appends one virtual node per dimension with new consecutive DOFs and leaves the existing coordinates and DOFs unchanged.",
  ["inputs"], "all meshes, DOF tables, lists of ties, control DOFs and prescribed DOFs",
  "No existing test exercises the tying classes.",
  ["TyingsPeriodic.h", "Mesh.h"], [("DOF blocks", "TyingsPeriodic.h: Periodic constructor"), ("tying matrices", "TyingsPeriodic.h: Cdi, Cdu, Cdp"), ("control nodes", "TyingsPeriodic.h: Control")],
  ["dofs, control, iiu/iip/iii/iid, Cdi, Cdu, Cdp; Control::coor, dofs, controlDofs, controlNodes"])
p("C25", "The stop criterion is the sliding window of the last residuals",
  "After any sequence of insertions and resets the list contains exactly the last inserted residuals since the reset, oldest first, preceded by infinity for positions not yet filled. It reports descending exactly if no residual is larger than its predecessor, and below-tolerance exactly if every residual is strictly smaller than the tolerance.",
  ["histories", "inputs"], "all window sizes, all sequences of insertions and resets (including a change of size), all residuals (also not-a-number) and tolerances",
  "The test makes one short sequence of insertions.",
  ["Iterate.h"], [("sliding window", "Iterate.h: StopList::roll_insert, reset"), ("criteria", "Iterate.h: StopList::descending, all_less")],
  ["data, descending, all_less after reset/roll_insert"])
p("C26", "Shapes and allocations of all storage types agree, and broadcasts are exact",
  "Every function that reports the shape of a storage type returns the dimensions that the operators on that type use, and every allocation has that shape and is filled with the requested value. Broadcasting integration-point scalars to tensors repeats each scalar over all tensor components of its integration point, for every rank and interface, and extending nodal vectors to three dimensions keeps the given components and sets the others to zero.",
  ["inputs"], "all numbers of elements, integration points, nodes, dimensions, tensor ranks and values",
  "The tests check one rank and shape per function.",
  ["Allocate.h", "Element.h", "Vector.h"], [("broadcast and extension", "Allocate.h: asTensor, AsTensor, as3d"), ("shapes and allocation", "Element.h: QuadratureBase::shape_*, allocate_*; Vector.h: shape_*, allocate_*")],
  ["AsTensor, asTensor, as3d, shape_*, allocate_*"])
p("C27", "Mesh measures: centres, edge sizes, nodal mass and centre of gravity",
  "Element centres are the mean of the element's node positions, edge sizes are the distances between consecutive corner nodes, and the nodal mass is the volume fraction of the elements attached to the node, adding up to the mesh volume in each direction. The centre of gravity is the mass-weighted mean of the node positions, and the detected element type is that of the connectivity.",
  ["inputs"], "all node positions and connectivities of supported element types",
  "The tests check regular meshes with unit elements.",
  ["Mesh.h"], [("measures", "Mesh.h: centers, edgesize, nodal_mass, center_of_gravity, detail::average_axis_0, defaultElementType")],
  ["centers, edgesize, nodal_mass, center_of_gravity, defaultElementType"])
p("C28", "Triangle orientation is reported by signed area and corrected without distortion",
  "The reported orientation of each triangle is minus the sign of its counter-clockwise area (-1 for counter-clockwise node order, which is the default target and that of the regular mesh; +1 for clockwise order, and for an area of zero). Setting the orientation returns, for each element, the same three nodes, ordered such that the signed area has the requested sign, and leaves elements that already have it unchanged; with given orientations it swaps exactly the elements whose given orientation differs from the requested one.",
  ["inputs"], "all node positions (non-degenerate triangles), connectivities and requested signs",
  "The test flips one mesh.",
  ["MeshTri3.h"], [("orientation", "MeshTri3.h: getOrientation, setOrientation")],
  ["getOrientation, setOrientation"])
p("C29", "Predicates on tables and matrices decide exactly their definition",
  "The uniqueness check is true exactly if no value occurs twice; the sequentiality check is true exactly if every number from zero to the maximum occurs; the diagonality check is true exactly if all off-diagonal entries of all element matrices vanish (to machine precision).",
  ["inputs"], "all integer tables and all element matrices, of every size",
  "The tests only evaluate positive examples.",
  ["assertions.h", "Element.h"], [("predicates", "assertions.h: is_unique; Element.h: isSequential, isDiagonal")],
  ["is_unique, Element::isSequential, Element::isDiagonal"])
p("C30", "Results do not depend on the number of threads or their schedule",
  "When compiled with multi-threading enabled every conversion, assembly, product, integration and gradient operator compiles and returns, for consistent data, the same result for every number of threads and every schedule: iterations that may run concurrently never write different values to the same entry, nor read what another one writes.",
  ["schedules", "inputs"], "all schedules of the parallel loops, all connectivities and values",
  "The tests are compiled without multi-threading, so that the parallel annotations are never exercised.",
  ["Vector.h", "VectorPartitioned.h", "VectorPartitionedTyings.h", "Matrix.h", "MatrixPartitioned.h", "MatrixPartitionedTyings.h", "MatrixDiagonal.h", "MatrixDiagonalPartitioned.h", "Element.h", "ElementQuad4.h", "ElementQuad4Planar.h", "ElementQuad4Axisymmetric.h"], [("parallel annotations", "all loops annotated with 'omp parallel for' in the listed files")],
  ["all functions with an annotated loop"])
out = os.path.join(os.path.dirname(__file__), "..", "properties.jsonl")
with open(out, "w") as f:
    for q in P: f.write(json.dumps(q) + "\n")
print(len(P))
