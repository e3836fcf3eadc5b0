"""What each check runs.  jobs: harnesses explored one after the other for the property."""
SL = "model_checking"
RUN = "Each leaf is one full run of the library on one combination of choices, in a process of its own."

CHECKS = {
    "C01": dict(level=SL, jobs=[dict(harness="rm")], rule="Every 3D geometry of the list x every base size x every subset of at most `bound` features; the output mesh goes through an independent validity checker. " + RUN,
                assumptions=["inputs are the listed small meshes; anything outside their combinations is not covered"]),
    "C02": dict(level=SL, jobs=[dict(harness="rm")], rule="As C01, with an independent comparison of the input and output domains (volumes, areas, distances, feature lines, corners, topology). " + RUN,
                assumptions=["on curved geometries distances are compared with the sagitta of the coarse input, on flat ones to 1e-6"]),
    "C03": dict(level=SL, jobs=[dict(harness="rm")], rule="Every way of marking required entities x geometries x sizes x further features; each required entity is looked for in the output. " + RUN, assumptions=[]),
    "C04": dict(level=SL, jobs=[dict(harness="rm")], rule="Every surface geometry x every base size x every subset of at most `bound` features (mmgs). " + RUN, assumptions=[]),
    "C05": dict(level=SL, jobs=[dict(harness="rm")], rule="Every planar geometry x every base size x every subset of at most `bound` features (mmg2d). " + RUN, assumptions=[]),
    "C06": dict(level=SL, jobs=[dict(harness="opt")], rule="Every subset of the restricting options x geometries x sizes x further options or tags; vertices are marked by their reference and compared with the input. " + RUN, assumptions=["noswap alone cannot be judged from the outside and is not checked"]),
    "C07": dict(level=SL, jobs=[dict(harness="size")], rule="Every way to prescribe sizes x geometries x options; the returned mesh and size map are measured (edge lengths, element counts, slopes, distances, agreement with the prescription). " + RUN,
                assumptions=["thresholds on lengths, slopes and distances leave room for the heuristics: small deviations from the prescription are not seen"]),
    "C08": dict(level=SL, jobs=[dict(harness="ls")], rule="Every assignment of level-set values (both signs, zero, near zero) to the vertices of small meshes, deviations bounded, and every function x options combination on a finer mesh; also every pair of successive functions. " + RUN, assumptions=["the position of the interface is compared within the resolution of the mesh"]),
    "C09": dict(level=SL, jobs=[dict(harness="ls")], rule="As C08 on planar meshes, and on their boundary lines. " + RUN, assumptions=["refusals are accepted only where a mesh edge has two zero values or a zero vertex is a saddle"]),
    "C10": dict(level=SL, jobs=[dict(harness="ls")], rule="As C08 on surface meshes and on the boundary of tetrahedral meshes. " + RUN, assumptions=["refusals are accepted only where a mesh edge has two zero values or a zero vertex is a saddle"]),
    "C11": dict(level=SL, jobs=[dict(harness="gen")], rule="Every subset of the edges of a small triangulation, and every simple polygon of a small lattice x what lies inside x at most `bound` deviations, as input of the mesh generator; the regions are computed independently from the base triangulation. " + RUN, assumptions=["points and edges come from small lattices, slightly deformed"]),
    "C12": dict(level=SL, jobs=[dict(harness="gen")], rule="Every geometry with several subdomains x every subdomain x sizes x at most `bound` features, compared with the part of the input that has this reference; level-set runs keeping one side against the same run keeping both. " + RUN, assumptions=[]),
    "C13": dict(level=SL, jobs=[dict(harness="api")], rule="Every sequence of API calls of the given length from every starting state, for each module, against a reference model of what was set; every list of fields with every way to fill it. " + RUN, assumptions=["flags of an entity that is set again are taken as unspecified where the modules differ"]),
    "C16": dict(level=SL, jobs=[dict(harness="det")], rule="Every geometry x size x at most `bound` features, every level-set function x option, every arrangement of edges x option: each run is repeated in the same process under perturbations of everything that is not its input, and compared bit by bit. " + RUN, assumptions=["results of different executables, compilers or machines are not compared"]),
    "C17": dict(level=SL, jobs=[dict(harness="det")], rule="Every geometry x entity tags x every sequence of library calls of the given length over an alphabet of nine calls; validity, domain and required entities are checked after every call. " + RUN, assumptions=["a metric can only be forgotten together with its handle"]),
    "C20": dict(level="fault_enumeration", jobs=[dict(harness="bad", variant="asan"), dict(harness="bad", vtk=True, prop="C20v")], rule="Every file of a list (module x kind x flavour) cut at every byte (quick: every byte of the small files, a stride in the largest) and loaded in a process of its own under the address sanitizer; VTK files without it. " + RUN,
                assumptions=["arbitrary garbage inside a complete file is not generated: the loaders do not validate it", "VTK files are read without the sanitizer: the vtk libraries are not built with it"]),
    "C22": dict(level=SL, jobs=[dict(harness="io")], rule="Every kind of entity, reference, tag, coordinate range and field (at most `bound` deviations) x file flavours (ASCII, binary, both byte orders, single and double precision, section orders); files are written and read by independent code, then by the library; and the result of remeshing runs. " + RUN,
                assumptions=["vertices used by no element are not written by the library (documented packing) and are not generated", "ridge flags of 2D edges and the normals computed by a run are not compared"]),
    "C23": dict(level=SL, jobs=[dict(harness="io")], rule="Every kind of entity, reference, coordinate range and list of fields (at most `bound` deviations) x file flavours; files are written and read by independent code, then by the library. " + RUN, assumptions=["tensors are only exchanged as metrics"]),
    "C24": dict(level=SL, jobs=[dict(harness="vtk", vtk=True)], rule="Every kind of entity, reference, coordinate range and list of fields (at most `bound` deviations) x input format x output format; input and legacy output go through independent code. " + RUN, assumptions=["XML output is only read back by the library itself"]),
}
