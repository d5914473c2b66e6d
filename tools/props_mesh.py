from props_base import P
P("M01","Mesh connectivity is exactly that of the cells",
  "For any valid 2D mesh of triangles and quadrilaterals, the computed connectivity lists every edge exactly once with its one or two cells, its nodes in the order of the lower-numbered cell, and in the right category (boundary or interior). Cell neighbours, face-of-cell, cells-around-point and local index queries all agree with the cells' node lists, and every boundary face keeps its markers. Recomputing the connectivity changes nothing.",
  ["inputs"],"all valid meshes: any mix of cell shapes, any topology (holes, annuli), any numbering of points, cells, cell corners and boundary faces",
  "The tests check a few entries on one or two fixed meshes; wrong neighbours on other numberings or topologies go unseen.",
  ["src/mesh/mesh.cpp","src/mesh/mesh.hpp"],
  [("topology construction","compute_topological, compute_elementsSurroundingElements, compute_faceConnectivity in mesh.cpp"),("boundary orientation","correctBoundaryFaceOrientation in mesh.cpp")],
  "random structured-derived quad/triangle/hybrid meshes compared, entity by entity, with an edge map computed independently from the cells")
P("M02","Cell areas, centres, face normals and lengths are geometrically right",
  "On any valid mesh, cell areas are positive and equal the polygon areas, cell centres are the means of the corners, and each face has its true length and a unit normal pointing out of its first cell (towards the second, or out of the domain). The length-weighted outward normals of every cell sum to zero and the cell areas add up to the area enclosed by the boundary.",
  ["inputs"],"all valid meshes under any rotation, translation, scaling, shear and stretching",
  "Tests look at a handful of fixed meshes; orientation errors that depend on numbering or cell type need arbitrary meshes.",
  ["src/mesh/mesh.cpp"],
  [("areas and face data","compute_areas, compute_face_data, compute_cell_centres in mesh.cpp"),("normal direction convention","intfac node order in compute_faceConnectivity")],
  "generated meshes; shoelace areas, closedness and Gauss identities recomputed from the points")
P("M03","Mesh files are read and written without loss or change",
  "Reading a Gmsh 2 or SU2 mesh file yields exactly the points, cells, boundary faces and markers the file contains. Writing any mesh to the Gmsh format and reading it back yields the same mesh with bit-identical coordinates, and a mesh built from data holds exactly that data.",
  ["inputs"],"all meshes, and all file layouts the formats allow for them (marker counts, spacing, number style, element order)",
  "The tests read a few fixed files and check a few counts and entries.",
  ["src/mesh/meshreaders.cpp","src/mesh/mesh.cpp"],
  [("readers","readGmsh2, readSU2, readMesh in meshreaders.cpp"),("writer","UMesh::writeGmsh2")],
  "round trip through the writer, and files written independently by the harness compared with what is read")
P("M04","Renumbering cells changes only the numbering",
  "Any requested cell reordering is a permutation: every cell keeps its corners (in order), shape, area and markers, boundary faces are untouched, and connectivity and geometry remain consistent. Line orderings put the cells of each strongly coupled line consecutively, walking from the boundary, and hybrid orderings never split a line.",
  ["inputs","configurations"],"all meshes, numberings, anisotropy thresholds and ordering options",
  "Tests check one permutation on one mesh and a line count on one boundary-layer mesh.",
  ["src/mesh/mesh.cpp","src/mesh/meshordering.cpp","src/mesh/ameshutils.cpp"],
  [("cell permutation","UMesh::reorder_cells"),("lines","findLines, lineReorder, hybridLineReorder in meshordering.cpp"),("option handling","preprocessMesh, reorderMesh in ameshutils.cpp")],
  "metamorphic comparison of a renumbered mesh with the original, and an independent reference line finder")
P("M05","Level schedules contain only mutually independent cells",
  "The computed levels partition the cells, in order, into contiguous non-empty groups such that no two neighbouring cells share a group. Each group ends only because the next cell is coupled to one already in it.",
  ["inputs"],"all meshes and cell numberings",
  "The test checks a single mesh with one known answer.",
  ["src/mesh/ameshutils.cpp"],
  [("level construction","levelSchedule in ameshutils.cpp")],
  "invariant over generated meshes with random numbering, adjacency taken from an independent edge map")
P("M06","Periodic boundary faces are paired with their images",
  "When two opposite straight boundaries carry the periodic marker, each face on one gets as outside neighbour the interior cell of the face at the same position on the other. Nothing else in the connectivity changes.",
  ["inputs"],"all channel meshes with matching periodic ends, in either axis, under any numbering and with any other markers",
  "The test reads one mesh and checks its own fixed mapping.",
  ["src/mesh/mesh.cpp"],
  [("face pairing","UMesh::compute_periodic_map")],
  "generated periodic channels; partner found geometrically by the harness")
P("M07","Partitioning distributes the mesh without losing or inventing anything",
  "Splitting a mesh among any number of processes gives each cell to exactly one process with its shape, corners and markers, keeps every physical boundary face (with markers) with its cell, and turns every edge between cells of different processes into a pair of matching connectivity faces, one on each side, naming the right remote process, remote cell and common face. Local neighbours, geometry and counts agree with the global mesh.",
  ["inputs","configurations"],"all meshes, cell numberings, process counts and partitioners",
  "The tests partition one or two fixed meshes over a fixed number of processes.",
  ["src/mesh/meshpartitioning.cpp","src/mesh/mesh.cpp"],
  [("restriction to a subdomain","ReplicatedGlobalMeshPartitioner::restrictMeshToPartitions, extractbfaces, getConnectivityFaceEIndices"),("cell distribution","TrivialReplicatedGlobalMeshPartitioner, ScotchRGMPartitioner")],
  "every subdomain of a generated decomposition is computed (rank and size queries answered by the harness) and compared with the global mesh")
