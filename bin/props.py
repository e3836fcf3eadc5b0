"""The properties (written out by gen.py) and why those without a check are not claimed."""
PROPS = []
PENDING = {}


def P(id, title, statement, over, text, why, files, mech, observe=()):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, observe=list(observe)))


I, H, C, F = ["inputs", "configurations"], ["histories", "inputs"], ["configurations", "inputs"], ["fault_sequences", "inputs"]
WHY = "The CI tests run a few dozen meshes and mostly check that the program exits with 0; nobody looks at the mesh that comes out, and a combination of options and tagged entities is met once at most."

P("C01", "3D remeshing returns a valid conforming mesh",
  "For every valid tetrahedral input and every combination of supported options, sizes and entity tags, MMG3D_mmg3dlib succeeds and returns a mesh whose tetrahedra all have positive volume, do not overlap, use only existing vertices and share faces conformingly. No vertex is left unused, no entity is stored twice, and the listed triangles are exactly the faces on the boundary or between different subdomains (plus the internal triangles asked for with opnbdy). Every returned coordinate and size is finite and sizes are positive.",
  I, "every valid mesh, metric, option set and tag combination", WHY,
  ["src/mmg3d/libmmg3d.c", "src/mmg3d/mmg3d1.c", "src/mmg3d/mmg3d1_delone.c", "src/mmg3d/colver_3d.c", "src/mmg3d/split_3d.c", "src/mmg3d/swap_3d.c", "src/mmg3d/movpt_3d.c", "src/mmg3d/hash_3d.c"],
  [("local operators check the cavity before they change it", "src/mmg3d/colver_3d.c MMG5_chkcol_bdy/int, split_3d.c *_sim, swapgen_3d.c"), ("packing and boundary rebuild", "src/mmg3d/libmmg3d.c MMG3D_packMesh, hash_3d.c MMG5_chkBdryTria / MMG5_bdryTria")], ["MMG3D_Get_*"])
P("C02", "3D remeshing preserves the domain, its subdomains and its sharp features",
  "Remeshing keeps the domain: each subdomain reference keeps its volume and its number of connected parts, each boundary reference keeps its area and location, and the boundary keeps its topology (exactly on flat geometry; within the Hausdorff tolerance scale on curved geometry). Sharp edges (dihedral angle above the detection threshold), user ridges, reference lines and corners are found again at the same place with the same references and flags, and nothing that is not a feature is reported as one.",
  I, "every valid mesh and every combination of options and tags", WHY,
  ["src/mmg3d/analys_3d.c", "src/mmg3d/hash_3d.c", "src/mmg3d/colver_3d.c", "src/mmg3d/swap_3d.c", "src/mmg3d/tools_3d.c", "src/common/analys.c"],
  [("detection and storage of feature edges", "src/mmg3d/analys_3d.c MMG3D_setdhd / MMG5_setadj / singul"), ("collapse and swap conditions on references and tags", "src/mmg3d/colver_3d.c MMG5_chkcol_bdy")], ["MMG3D_Get_*"])
P("C03", "Required entities survive 3D remeshing unchanged",
  "Every vertex, edge, triangle and tetrahedron marked as required comes back with the same vertices at the same coordinates, the same reference and the required flag, whatever the sizes and options. Entities are not reported as required when nothing was marked.",
  I, "every set of required entities, mesh, metric and option set", WHY,
  ["src/mmg3d/API_functions_3d.c", "src/mmg3d/analys_3d.c", "src/mmg3d/hash_3d.c", "src/mmg3d/colver_3d.c", "src/mmg3d/swapgen_3d.c", "src/mmg3d/movpt_3d.c"],
  [("MG_REQ tags on points, xtetra and edges", "src/mmg3d/analys_3d.c, hash_3d.c MMG5_hGeom"), ("operators refuse required entities", "src/mmg3d/colver_3d.c, swapgen_3d.c, split_3d.c, movpt_3d.c")], ["MMG3D_Get_*"])
P("C04", "Surface remeshing (mmgs) returns a valid, faithful surface",
  "For every valid surface mesh (closed, open, multi-reference, non-manifold) and every combination of options, sizes and tags, MMGS_mmgslib returns non-degenerate, conforming triangles that keep the topology, the area and location of each reference, the sharp edges, corners and user feature lines. Required vertices, edges and triangles come back unchanged and flagged, and nothing else is reported as required.",
  I, "every valid surface, metric, option set and tag combination", WHY,
  ["src/mmgs/libmmgs.c", "src/mmgs/mmgs1.c", "src/mmgs/analys_s.c", "src/mmgs/colver_s.c", "src/mmgs/swapar_s.c", "src/mmgs/split_s.c", "src/mmgs/movpt_s.c", "src/mmgs/hash_s.c"],
  [("operator checks", "src/mmgs/colver_s.c chkcol, swapar_s.c chkswp, split_s.c"), ("feature detection", "src/mmgs/analys_s.c"), ("packing", "src/mmgs/libmmgs.c MMGS_packMesh")], ["MMGS_Get_*"])
P("C05", "2D remeshing returns a valid, faithful planar mesh",
  "For every valid planar mesh and every combination of options, sizes and tags, MMG2D_mmg2dlib returns positively oriented, conforming, non-overlapping triangles whose listed edges are the boundary and interface edges, and keeps the area and connectivity of each subdomain and the location and reference of each boundary line. Required vertices, edges and triangles come back unchanged and flagged, and nothing else is reported as required.",
  I, "every valid planar mesh, metric, option set and tag combination", WHY,
  ["src/mmg2d/libmmg2d.c", "src/mmg2d/mmg2d1.c", "src/mmg2d/analys_2d.c", "src/mmg2d/colver_2d.c", "src/mmg2d/swapar_2d.c", "src/mmg2d/split_2d.c", "src/mmg2d/movpt_2d.c", "src/mmg2d/hash_2d.c"],
  [("operator checks", "src/mmg2d/colver_2d.c, swapar_2d.c, split_2d.c"), ("packing", "src/mmg2d/libmmg2d.c MMG2D_pack")], ["MMG2D_Get_*"])
P("C06", "Restricting options (noinsert, noswap, nomove, nosurf) are honoured",
  "With nomove no vertex that remains is displaced; with noinsert no vertex is created nor deleted; with noinsert and noswap together the connectivity is unchanged; with nosurf the boundary triangles (in 2D the boundary edges) keep their vertices, coordinates and references. This holds in every combination with each other, with any size prescription, tags and other options.",
  C, "every subset of the restricting options x every mesh, size map and further option", WHY,
  ["src/mmg3d/mmg3d1_delone.c", "src/mmg3d/mmg3d1.c", "src/mmg2d/mmg2d1.c", "src/mmgs/mmgs1.c", "src/mmg3d/tools_3d.c"],
  [("each remeshing phase tests info.noinsert / noswap / nomove", "src/mmg3d/mmg3d1_delone.c, mmg3d1.c, src/mmg2d/mmg2d1.c, src/mmgs/mmgs1.c"), ("nosurf marks the boundary as required", "src/mmg3d/analys_3d.c MMG3D_nosurf / MMG5_freeXTets, src/mmg2d/analys_2d.c")], ["MMG*_Get_*"])
P("C07", "Prescribed sizes drive the mesh and the returned size map",
  "The mesh follows the size prescription: the returned size map has one positive (definite) entry per vertex within [hmin, hmax], equals hsiz when hsiz is given, agrees with a user size map (isotropic or anisotropic, up to gradation), obeys local parameters, and its edges have lengths close to one with an element count to match. The size gradation is bounded by hgrad for most edges (not at all when it is disabled), and on curved boundaries the distance to the geometry is of the order of hausd.",
  C, "every size prescription (hsiz, hmin, hmax, hgrad, hausd, optim, anisosize, local parameters, isotropic and anisotropic maps) x every mesh", WHY,
  ["src/common/scalem.c", "src/common/isosiz.c", "src/common/anisosiz.c", "src/mmg3d/isosiz_3d.c", "src/mmg3d/anisosiz_3d.c", "src/mmgs/isosiz_s.c", "src/mmgs/anisosiz_s.c", "src/mmg2d/isosiz_2d.c", "src/mmg2d/anisosiz_2d.c", "src/common/intmet.c", "src/mmg3d/intmet_3d.c"],
  [("size map definition", "MMG3D_defsiz_iso / _ani, MMGS_defsiz_*, MMG2D_defsiz_*"), ("gradation", "MMG5_gradsiz_iso / _ani, MMG5_grad2met*"), ("interpolation at new points", "MMG5_intmet_*, MMG5_intridmet")], ["MMG*_Get_scalarSol / tensorSol", "MMG*_Get_*"])
WHYL = "The tests run a handful of level-set files and only check the exit status; which cells are cut, on which side they end up, with which reference, and whether the interface separates them, is never looked at, let alone for every pattern of signs around a cell."
P("C08", "3D level-set discretisation separates the two sides correctly",
  "For every level-set function given at the vertices of a valid tetrahedral mesh, MMG3D_mmg3dls succeeds and returns a valid mesh in which every tetrahedron lies on one side of the (given) level: it carries the interior reference where the function is smaller and the exterior one where it is larger, or what the multi-material map asks for (materials not split keep their reference). The two sides are separated by triangles of the interface reference lying on the level, and only there; both sides have the volume of the corresponding regions. Outer boundary references survive, small components are removed exactly when asked (rmc, base references), and a second discretisation of the result works as the first.",
  I, "every level-set function, level, multi-material map, component removal and remeshing option", WHYL,
  ["src/mmg3d/mmg3d2.c", "src/common/mmg2.c", "src/mmg3d/libmmg3d.c", "src/mmg3d/split_3d.c", "src/mmg3d/hash_3d.c"],
  [("values near the level are snapped where the topology allows it", "src/mmg3d/mmg3d2.c MMG3D_snpval_ls / MMG3D_ismaniball"), ("cells are split and given references", "src/mmg3d/mmg3d2.c MMG3D_cuttet_ls, MMG3D_setref_ls, src/common/mmg2.c MMG5_isSplit / MMG5_getStartRef"), ("small components", "src/mmg3d/mmg3d2.c MMG3D_rmc")], ["MMG3D_Get_*"])
P("C09", "2D level-set discretisation separates the two sides correctly",
  "For every level-set function given at the vertices of a valid planar mesh, MMG2D_mmg2dls succeeds and returns a valid mesh in which every triangle lies on one side of the level and carries the reference of that side (interior, exterior, or as the multi-material map asks), the sides being separated exactly by edges of the interface reference lying on the level, with the areas of the regions; outer boundary references survive and small components are removed exactly when asked. In boundary mode (isosurf) the referenced edges are split in the same way. A function whose zero set cannot be a manifold line may be refused, never half treated.",
  I, "every level-set function, level, multi-material map, component removal and remeshing option, on planes and on their boundary lines", WHYL,
  ["src/mmg2d/mmg2d6.c", "src/common/mmg2.c", "src/mmg2d/libmmg2d.c", "src/mmg2d/API_functions_2d.c"],
  [("snapping", "src/mmg2d/mmg2d6.c MMG2D_snapval / MMG2D_ismaniball"), ("splitting and references", "src/mmg2d/mmg2d6.c MMG2D_cuttri / MMG2D_setref_ls, src/common/mmg2.c"), ("small components", "src/mmg2d/mmg2d6.c MMG2D_rmc")], ["MMG2D_Get_*"])
P("C10", "Level-sets on surfaces separate the two sides correctly",
  "For every level-set function given at the vertices of a surface mesh (MMGS_mmgsls), or on the boundary surface of a volume (MMG3D_mmg3dls with isosurf), the result is a valid mesh in which every surface triangle lies on one side of the level and carries the reference of that side (interior, exterior, or as the multi-material map asks), the sides being separated exactly by edges of the interface reference lying on the level, with the areas of the regions. The volume is unchanged in the second case. Small components are removed exactly when asked. A zero set that cannot be a manifold line may be refused.",
  I, "every level-set function, level, multi-material map, component removal and remeshing option, on surfaces and on the boundaries of volumes", WHYL,
  ["src/mmgs/mmgs2.c", "src/mmg3d/mmg3d2s.c", "src/common/mmg2s.c", "src/common/mmg2.c", "src/mmgs/libmmgs.c"],
  [("snapping", "src/common/mmg2s.c MMG5_snpval_lssurf / MMG5_ismaniball"), ("splitting and references", "src/mmgs/mmgs2.c MMGS_cuttri / src/mmg3d/mmg3d2s.c MMG3D_cuttet_lssurf, src/common/mmg2s.c MMG5_setref_lssurf"), ("small components", "src/common/mmg2s.c MMG5_rmc")], ["MMGS_Get_*", "MMG3D_Get_*"])
P("C11", "Planar meshes are generated from the given edges",
  "MMG2D_mmg2dmesh, given points and edges that do not cross, succeeds and returns a valid triangulation of exactly the regions the edges enclose (everything outside is empty; holes that are regions of their own stay meshed), each region with a reference of its own, or of the single region asked for. Edges between regions are covered by mesh edges of their reference that lie on them; edges dangling inside a region are kept when they are required or when open boundaries are asked for; required edges and vertices are present unchanged; no vertex is inserted when insertion is off and a constant size that is asked for is reached. The order and orientation of the edges, the numbering of the points, isolated points, position and scale do not matter.",
  I, "every arrangement of points and non-crossing edges, references, requirements, sizes and options", "The tests generate a few meshes and check the exit status; which regions are meshed, with which references, and whether every given edge is there, is never looked at, let alone for every arrangement of edges.",
  ["src/mmg2d/mmg2d2.c", "src/mmg2d/enforcement_2d.c", "src/mmg2d/locate_2d.c", "src/mmg2d/delaunay_2d.c", "src/mmg2d/libmmg2d.c"],
  [("insertion of the points", "src/mmg2d/mmg2d2.c MMG2D_mmg2d2, MMG2D_insertpointdelone"), ("enforcement of the edges", "src/mmg2d/enforcement_2d.c MMG2D_bdryenforcement"), ("regions", "src/mmg2d/mmg2d2.c MMG2D_settagtriangles, MMG2D_findtrianglestate, MMG2D_markSD")], ["MMG2D_Get_*"])
P("C12", "Keeping one subdomain gives exactly this subdomain",
  "When one subdomain is asked for (nsd) in remeshing, mesh generation or level-set discretisation, the output is a valid mesh of exactly the elements of this reference: the same volume or area, boundary, feature lines and references as this part of the input, with the required and corner entities of this part unchanged, and no element, triangle, edge or vertex of the removed parts.",
  I, "every mesh, subdomain, size, tag and option, for the three libraries", WHY,
  ["src/common/tools.c", "src/mmg3d/tools_3d.c", "src/mmg2d/tools_2d.c", "src/mmgs/tools_s.c", "src/mmg3d/libmmg3d.c", "src/mmg2d/libmmg2d.c", "src/mmgs/libmmgs.c"],
  [("selection", "MMG3D_keep_only1Subdomain, MMG2D_keep_only1Subdomain, MMGS_keep_only1Subdomain"), ("vertices", "src/common/tools.c MMG5_mark_verticesAsUnused, MMG5_mark_usedVertices"), ("mesh generation", "src/mmg2d/mmg2d2.c MMG2D_markSD")], ["MMG*_Get_*"])
P("C13", "What is set through the API is what is read back, in any order of calls",
  "After any sequence of API calls, reading an entity (one by one, by index or by arrays) gives the vertices, coordinates, references, flags, normals and field values last set for it: setting one entity or field changes nothing else, setting by arrays equals setting one by one, successive reads walk through the entities in order and start again after the last one, calls with a position beyond the announced size are refused without effect, inverted elements are reoriented, and handles alive together do not influence one another.",
  H, "every sequence of Set, Unset, Add, Get and resize calls on one or two handles", "The tests call each setter in one fixed order on one mesh; order of calls, repeated or partial settings, arrays against single calls and several handles alive together are not covered.",
  ["src/mmg3d/API_functions_3d.c", "src/mmg2d/API_functions_2d.c", "src/mmgs/API_functions_s.c", "src/common/API_functions.c"],
  [("setters with tag handling", "MMG*_Set_vertex / _triangle / _edge / _tetrahedron, MMG*_Set_required*, MMG*_Unset_*"), ("internal read cursors npi, nti, nei, nai", "MMG*_Get_vertex, MMG*_Get_triangle, MMG*_Get_edge"), ("fields", "MMG*_Set_solSize, MMG*_Set_scalarSol(s), MMG*_Set_ithSol_inSolsAtVertices")], ["MMG*_Get_*", "MMG*_GetByIdx_vertex"])
WHYF = "The tests load and save a few files and check the exit status; what the file contains is not compared with what was in memory, let alone for every kind of entity, tag, field type, precision and byte order."
P("C16", "Results depend on the input and the parameters alone",
  "Running remeshing, level-set discretisation or mesh generation again on the same input with the same parameters gives the very same mesh and sizes, bit for bit: whatever was run before in the process, whichever other handles are alive, whatever fresh memory contains, the time of day, the state of rand(), the memory allowed (when sufficient) and the verbosity.",
  H, "every input, parameter and previous history of the process", "Each test is one process that runs once and whose output is not compared with anything.",
  ["src/mmg3d/libmmg3d.c", "src/mmg2d/libmmg2d.c", "src/mmgs/libmmgs.c", "src/mmg2d/enforcement_2d.c", "src/common/librnbg.c"],
  [("library calls", "MMG3D_mmg3dlib, MMG3D_mmg3dls, MMG2D_mmg2dlib, MMG2D_mmg2dls, MMG2D_mmg2dmesh, MMGS_mmgslib, MMGS_mmgsls"), ("edge enforcement", "src/mmg2d/enforcement_2d.c MMG2D_bdryenforcement"), ("renumbering", "src/common/librnbg.c MMG5_kPartBoxCompute")], ["MMG*_Get_*"])
P("C17", "A handle can be used for several calls in a row",
  "After a successful remeshing the handle holds a mesh that can be remeshed again, with other sizes, a new metric, other options, after setting the mesh anew or through files: every call succeeds, and after each of them the mesh is valid and still represents the domain, references, required entities and feature lines of the mesh first given; sizes are always returned, and calls without insertion never add vertices.",
  H, "every sequence of library calls on one handle", "The tests call the library once per process, or twice in one fixed way.",
  ["src/mmg3d/libmmg3d.c", "src/mmg2d/libmmg2d.c", "src/mmgs/libmmgs.c", "src/common/scalem.c"],
  [("library calls", "MMG3D_mmg3dlib, MMG2D_mmg2dlib, MMGS_mmgslib"), ("packing of the result", "MMG3D_packMesh, MMG2D_pack, MMGS_packMesh"), ("scaling", "src/common/scalem.c MMG5_scaleMesh, MMG5_unscaleMesh")], ["MMG*_Get_*"])
P("C20", "Files that end too early are refused, not misread",
  "Reading a mesh, solution, Gmsh or VTK file (ASCII or binary, either byte order) that is cut short at any byte never crashes, hangs, reads or writes outside its memory, frees what it does not own, or leaves the file open: the loader returns an error code, or a mesh whose entities refer to existing vertices, and the handle can be freed.",
  I, "every byte at which a file can end, for every flavour of the formats and the three libraries", "A test reads complete files; what a truncated file does depends on where it ends.",
  ["src/common/inout.c", "src/mmg3d/inout_3d.c", "src/mmg2d/inout_2d.c", "src/mmgs/inout_s.c", "src/common/vtkparser.cpp"],
  [("mesh readers", "MMG3D_loadMesh, MMG2D_loadMesh, MMGS_loadMesh"), ("solution readers", "src/common/inout.c MMG5_loadSolHeader, MMG5_readDoubleSol3D"), ("Gmsh reader", "src/common/inout.c MMG5_loadMshMesh_part1, MMG5_loadMshMesh_part2")], ["return codes", "MMG*_Get_*"])
P("C22", "Medit mesh and solution files hold exactly what is in memory",
  "Loading a Medit mesh or solution file (.mesh, .meshb, .sol, .solb; ASCII or binary, either byte order, single or double precision, sections in any order, comments and blank lines in ASCII meshes) gives the vertices, elements, references, corner / ridge / required flags, normals and fields of the file, in the same order. Saving a mesh or its fields - set through the API, loaded, or produced by remeshing - writes a well-formed file (counts, index ranges, positions of binary sections, one End) with exactly what the API returns, to 15 digits in ASCII and to the bit in binary, which loads again to the same mesh and fields.",
  I, "every kind of entity, reference, flag, coordinate range and list of fields x every flavour of the format, for the three libraries", WHYF,
  ["src/mmg3d/inout_3d.c", "src/mmg2d/inout_2d.c", "src/mmgs/inout_s.c", "src/common/inout.c"],
  [("mesh reader and writer", "MMG3D_loadMesh_opened / MMG3D_saveMesh, MMG2D_loadMesh / MMG2D_saveMesh, MMGS_loadMesh / MMGS_saveMesh"), ("solution reader and writer", "src/common/inout.c MMG5_loadSolHeader, MMG5_readDoubleSol3D, MMG5_saveSolHeader, MMG5_writeDoubleSol3D; MMG2D_readDoubleSol, MMG2D_writeDoubleSol")], ["MMG*_Get_*", "files"])
P("C23", "Gmsh files hold exactly what is in memory",
  "Loading a Gmsh 2.2 file (ASCII or binary, either byte order, elements of all types in any order, with or without point elements, nodes in any order, further tags) gives its vertices, elements, references and node fields (scalar, vector, metric tensor). Saving writes a well-formed file with exactly what is in memory (fields in ASCII to six digits, coordinates to fifteen), which loads again to the same mesh and fields. Tags (corner, required, ridge) have no place in the format.",
  I, "every kind of entity, reference, coordinate range and list of fields x every flavour of the format, for the three libraries", WHYF,
  ["src/common/inout.c", "src/mmg3d/inout_3d.c", "src/mmg2d/inout_2d.c", "src/mmgs/inout_s.c"],
  [("reader", "src/common/inout.c MMG5_loadMshMesh_part1, MMG5_loadMshMesh_part2, MMG5_readMshMesh_header"), ("writer", "src/common/inout.c MMG5_saveMshMesh")], ["MMG*_Get_*", "files"])
P("C24", "VTK files hold exactly what is in memory",
  "Loading a VTK file (legacy .vtk, .vtu, .vtp) gives its vertices, cells (lines, triangles, quadrangles, tetrahedra, wedges, in any order), the references stored as medit:ref, and its point fields (metric, level-set, or a list of fields). Saving writes a well-formed file with the mesh, references and fields in memory, coordinates to single precision, which loads again to the same mesh and fields.",
  I, "every kind of entity, reference, coordinate range and list of fields x input format x output format, for the three libraries", WHYF,
  ["src/common/vtkparser.cpp", "src/common/vtkparser.hpp", "src/mmg3d/inoutcpp_3d.cpp", "src/mmg2d/inoutcpp_2d.cpp", "src/mmgs/inoutcpp_s.cpp"],
  [("reader", "src/common/vtkparser.cpp MMG5_count_vtkEntities, MMG5_loadVtkMesh_part2"), ("writer", "src/common/vtkparser.hpp MMG5_saveVtkMesh_i")], ["MMG*_Get_*", "files"])
