#!/usr/bin/env python3
"""Writes properties.jsonl from the table below (kept as one place to edit)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files,
                               mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=observe, hook_needed=hook)))
S = "pygrt/C_extension/src/"

prop("C01", "Every command is memory safe and free of undefined behaviour",
 "Whatever arguments and text files (models, receiver points, fault tables, time functions, value lists) a user supplies, and on every file the toolkit itself produced, each command ends either successfully with its outputs written or with a reported error and a nonzero exit status. It never reads or writes outside its data, uses freed or uninitialised memory, or executes undefined arithmetic, and never ends by a signal.",
 ["inputs", "configurations"], "all command lines and text inputs, valid and malformed, of every module",
 "The shell tests run a few fixed, valid command lines on an uninstrumented build and look only at the exit status; an out-of-bounds access that does not crash passes.",
 [S+"grt.c", S+"common/util.c", S+"common/model.c", S+"dynamic/signals.c", S+"static/recv_points.c", S+"common/finite_fault.c", S+"static/stgrnlib.c"],
 [("bounds and argument checks before allocation and indexing", S+"common/util.c"), ("model parsing", S+"common/model.c")],
 ["process exit status", "sanitizer reports"])

prop("C02", "Results do not depend on the number of threads or their scheduling",
 "For the same request, the values written by every parallel computation (dynamic Green's functions and kernels, dispersion curves, eigenfunctions, modal summation, static synthesis of finite faults, analytic half-space solutions) are the same for every thread count and every interleaving, up to rounding where contributions are summed across threads. No two threads access the same data without synchronisation when one of them writes.",
 ["schedules", "configurations"], "all thread counts and all assignments of iterations to threads, for all requests",
 "Tests run once with the default thread count and compare nothing between runs.",
 [S+"dynamic/grn.c", S+"dynamic/grt_kernel.c", S+"modal/root.c", S+"modal/modgrn.c", S+"modal/grt_eigenfn.c", S+"static/grt_static_syn.c", S+"okada/grt_okada.c"],
 [("per-thread model copies and disjoint output slots", S+"dynamic/grn.c"), ("critical reduction over subfaults", S+"static/grt_static_syn.c")],
 ["output files for different -P / OMP_NUM_THREADS", "ThreadSanitizer reports under a controlled OpenMP runtime"])

prop("C03", "Invalid requests are refused with an error and leave existing results alone",
 "A request that is incomplete, contradictory, out of the documented range, or refers to missing or malformed inputs ends with an error message and a nonzero exit status, and never presents a result. It does not overwrite or delete results that existed before, and a request that is valid is never refused.",
 ["inputs", "configurations", "fault_sequences"], "all invalid argument combinations, values and input files of every module",
 "Tests exercise almost only valid command lines.",
 [S+"dynamic/grt_greenfn.c", S+"dynamic/grt_syn.c", S+"static/grt_static_greenfn.c", S+"static/grt_static_syn.c", S+"okada/grt_okada.c", S+"common/util.c", S+"common/model.c", S+"common/finite_fault.c"],
 [("option parsing and mutual-exclusion checks", "getopt_from_command in each module"), ("value-list parsing", S+"common/util.c")],
 ["exit status, stderr, output files"])

prop("C04", "Wavenumber kernels solve the elastic wave equations of the layered model",
 "For every layered model (solid or liquid layers, any attenuation, free, rigid or half-space boundary above and below), source and receiver depth, frequency and wavenumber, the kernel values written for each source type satisfy the elastodynamic equations of that model: exact propagation in each layer, continuity at every interface, the boundary conditions, and the source's displacement-stress jump. The vertical-derivative kernels are the depth derivatives of those values.",
 ["inputs", "configurations"], "all models, boundary conditions, depths (including source at/above/below the receiver and on interfaces), frequencies and wavenumbers",
 "No test checks a kernel value.",
 [S+"dynamic/source.c", S+"dynamic/layer.c", S+"common/RT_matrix.c", S+"integral/kernel.c", S+"integral/kernel_template.c_", S+"common/model.c", S+"common/attenuation.c", S+"dynamic/grt_kernel.c"],
 [("generalized reflection/transmission recursion", S+"integral/kernel_template.c_"), ("interface matrices", S+"dynamic/layer.c")],
 ["kernel files of the kernel module", "per-frequency kernel files of greenfn"])

prop("C05", "Dynamic Green's functions are the full inverse transform of the kernels",
 "Every seismogram of the dynamic Green's-function command equals the wavenumber integral and inverse Fourier transform of the model's response at that distance, depth pair and source type, in the documented units, signs and time origin. Its value does not depend on how the request is batched (several distances or depths at once), on which sources or derivatives are also requested, or, within numerical accuracy, on the integration and convergence method; window, damping, upsampling, delay and frequency-band options have exactly their documented effect.",
 ["inputs", "configurations"], "all models, geometries and option combinations",
 "Tests run greenfn on fixed models and check only that it exits successfully.",
 [S+"dynamic/grn.c", S+"dynamic/grnspec.c", S+"dynamic/grt_greenfn.c", S+"integral/integ_process.c", S+"integral/k_integ.c", S+"integral/dwm.c", S+"integral/fim.c", S+"integral/safim.c", S+"integral/ptam.c", S+"integral/dcm.c", S+"integral/kmax.c", S+"common/myfftw.c"],
 [("k-integration", S+"integral/k_integ.c"), ("spectrum to time series", S+"dynamic/grt_greenfn.c")],
 ["SAC files of greenfn"])

prop("C06", "Equivalent descriptions of one problem give the same answer",
 "Describing the same medium differently (thickness or top-depth column, layers split at arbitrary depths, comments and blank space, omitted versus infinite quality factors) never changes Green's functions, static deformation, travel times or dispersion beyond numerical accuracy. Exchanging source and receiver exchanges force Green's functions as reciprocity demands, and scaling all lengths, or all densities and moduli, scales results as elasticity theory demands.",
 ["inputs", "configurations"], "all models and their equivalent descriptions, all depth pairs",
 "Tests use each model in one form only and never compare two descriptions.",
 [S+"common/model.c", S+"dynamic/source.c", S+"static/static_source.c", S+"integral/kernel_template.c_", S+"common/travt.c", S+"modal/secular.c"],
 [("model reading and insertion of source/receiver interfaces", S+"common/model.c")],
 ["outputs of greenfn, static greenfn, travt, eigenv on pairs of equivalent inputs"])

prop("C07", "Static Green's functions solve the static problem of the layered model",
 "For every all-solid layered model, boundary condition and depth pair, the static Green's functions and their derivatives at every requested distance equal the elastostatic response of that model to each source type; in a homogeneous half-space with a free surface they equal the analytic solution. Each entry of a multi-depth, multi-distance or north/east library equals the entry computed alone, and integration options change it only within numerical accuracy.",
 ["inputs", "configurations"], "all solid models, depth pairs, distances and integration options",
 "Tests compare static results only for a few grids of one model.",
 [S+"static/static_grn.c", S+"static/static_layer.c", S+"static/static_source.c", S+"static/grt_static_greenfn.c", S+"static/stgrnlib.c", S+"integral/k_integ.c"],
 [("static reflection/transmission recursion", S+"static/static_layer.c"), ("distance de-duplication and 4D library layout", S+"static/grt_static_greenfn.c")],
 ["NetCDF library of static greenfn", "static kernel stats files"])

prop("C08", "Synthetic seismograms combine Green's functions by the source radiation",
 "For every source (explosion, single force, shear or tensile dislocation, moment tensor), strength, azimuth and component system, a synthetic displacement equals the analytic radiation combination of the Green's functions it was made from, in cm, with Z up, R outward and T clockwise, and N/E its rotation by the azimuth. It is linear in the source, a dislocation equals its equivalent moment tensor, the potency form multiplies by the source-layer rigidity, zero distance is handled as the limit of small distance, and selecting a trace by depth and distance picks exactly that trace.",
 ["inputs", "configurations"], "all sources, azimuths, geometries, component systems and Green's-function libraries",
 "Tests run syn on fixed mechanisms and look only at the exit status.",
 [S+"dynamic/grt_syn.c", S+"common/radiation.c", S+"common/coord.c"],
 [("radiation factors", S+"common/radiation.c"), ("rotation ZRT to ZNE", S+"common/coord.c"), ("library selection", S+"dynamic/grt_syn.c")],
 ["SAC files of syn"])

prop("C09", "Source time functions, integration and differentiation act as documented",
 "The built-in pulses have their documented shape, unit peak and duration on the sampling grid, and a custom pulse is used sample for sample; applying one convolves every trace and derivative trace with it, times the sampling interval, with wrap-around suppressed by the trace's own damping. Integration and differentiation of the given order are the trapezoidal running integral and the central difference in time, and the library functions in the Python interface give the same results as the command.",
 ["inputs", "configurations"], "all pulse parameters (longer and shorter than the trace), orders, delays and sampling intervals",
 "Tests apply a couple of pulses and look only at the exit status.",
 [S+"dynamic/signals.c", S+"dynamic/grt_syn.c", "pygrt/signals.py", "pygrt/utils.py"],
 [("pulse generation and damped convolution", S+"dynamic/signals.c")],
 ["SAC files of syn with -D/-I/-J", "pygrt.signals", "pygrt.utils.stream_*"])

prop("C10", "Requested spatial derivatives are the derivatives of the displacements",
 "Wherever spatial derivatives are requested (dynamic and static Green's functions, synthetics, analytic half-space solutions, modal summation), each derivative value equals the change of the corresponding displacement per unit length along depth-upward, radial, tangential, north or east, at every receiver, including at zero distance and at interfaces where it is defined. Requesting derivatives does not change the displacements.",
 ["inputs", "configurations"], "all sources, geometries and modules that output derivatives",
 "Tests never compare a derivative with a finite difference.",
 [S+"integral/kernel_template.c_", S+"dynamic/source.c", S+"dynamic/layer.c", S+"static/static_layer.c", S+"dynamic/grt_syn.c", S+"static/grt_static_syn.c", S+"common/coord.c", S+"okada/okada.c", S+"modal/modgrn.c"],
 [("derivative kernels and Bessel derivative terms", S+"integral/k_integ.c"), ("rotation of derivative tensors", S+"common/coord.c")],
 ["derivative SAC files and NetCDF variables"])

prop("C11", "Strain, rotation and stress follow from the derivatives and the medium",
 "From any synthetic with derivatives, dynamic or static, on grids or points, in ZRT or ZNE components, the strain, rotation and stress outputs equal the symmetric part, the antisymmetric part and the Hooke's-law stress of the displacement gradient, with the receiver's own moduli (including attenuation in the dynamic case) and with the curvature terms of cylindrical components. The tensors in the two component systems are rotations of each other.",
 ["inputs", "configurations"], "all sources, receiver media, geometries and both component systems",
 "Tests run the tensor commands and look only at the exit status, or compare C with Python calling the same code.",
 [S+"dynamic/grt_strain.c", S+"dynamic/grt_rotation.c", S+"dynamic/grt_stress.c", S+"static/grt_static_strain.c", S+"static/grt_static_rotation.c", S+"static/grt_static_stress.c"],
 [("tensor assembly", S+"dynamic/grt_stress.c")],
 ["SAC tensor files", "NetCDF tensor variables"])

prop("C12", "Static synthesis interpolates and superposes its library exactly",
 "A static synthetic at any receiver equals the radiation combination of the library at that azimuth, weighted linearly in distance, source depth and receiver depth between the surrounding library samples (and exact on samples), whether receivers come from the library grid, a new grid or a point list. A finite fault equals the sum over its subfaults of the point sources they stand for, at their positions and depths and with their slip and local rigidity, and results are linear in the source.",
 ["inputs", "configurations"], "all libraries (uniform or not, one or many depths), receivers, sources and fault tables",
 "Tests check a few interpolated values of one library.",
 [S+"static/grt_static_syn.c", S+"static/stgrnlib.c", S+"static/recv_points.c", S+"common/finite_fault.c", S+"common/radiation.c", S+"common/search.c"],
 [("bracketing and weights", S+"static/grt_static_syn.c"), ("subfault construction", S+"common/finite_fault.c")],
 ["NetCDF output of static syn"])

prop("C13", "The analytic half-space module gives the exact dislocation solution",
 "For every homogeneous half-space, point source (explosion, shear, tensile) or table of rectangular faults and point sources, and every receiver at or below the surface, displacement and its gradient are those of Okada's solution: elastic equilibrium away from the fault, zero traction at the surface, the prescribed slip across the fault, and decay to the equivalent point source at distance. Results are linear in slip, additive over faults, independent of how a fault is cut into pieces, and rotate with the fault's strike.",
 ["inputs", "configurations"], "all media, fault geometries, slips and receivers including on-edge and aligned ones",
 "Reference values exist for five fixed inputs only.",
 [S+"okada/okada.c", S+"okada/grt_okada.c", S+"common/finite_fault.c"],
 [("closed-form expressions with singular-case branches", S+"okada/okada.c"), ("coordinate mapping", S+"okada/grt_okada.c")],
 ["NetCDF output of okada"])

prop("C14", "First-arrival times are the earliest over all direct and head waves",
 "For every layered model, depth pair and distance, the reported P and S times are the minimum over the direct ray and every head wave possible between source and receiver, are symmetric in source and receiver, and mark as undefined a wave that cannot travel the path. The command, the Python call and the trace headers report the same times.",
 ["inputs", "configurations"], "all models (velocity inversions, thin layers, liquid layers), depth pairs and distances",
 "One test prints a few times without checking them.",
 [S+"common/travt.c", S+"tools/grt_travt.c", "pygrt/pymod.py"],
 [("direct-ray bisection and head-wave enumeration", S+"common/travt.c")],
 ["stdout of travt", "compute_travt1d", "SAC headers t0/t1"])

prop("C15", "Dispersion curves hold exactly the surface-wave modes of the model",
 "For every layered model, wave type and frequency, each reported phase velocity is one at which the layered model supports a free surface-wave mode, values are reported in increasing order without duplicates, and no mode up to the requested order is missing. Asking for more frequencies, more orders or periods instead of frequencies does not change the values at the common points.",
 ["inputs", "configurations"], "all models (low-velocity zones, liquid top layers, thin layers), frequencies and orders",
 "Tests compute curves for fixed models and look only at the exit status.",
 [S+"modal/root.c", S+"modal/secular.c", S+"modal/grt_eigenv.c", S+"modal/modal_util.c"],
 [("adaptive root search over phase velocity", S+"modal/root.c"), ("secular functions", S+"modal/secular.c")],
 ["NetCDF output of eigenv"])

prop("C16", "Eigenfunctions, group velocities and sensitivities match the dispersion",
 "For every mode, the eigenfunctions satisfy the equations of motion with continuity, a free surface and decay at depth; the group velocity is the derivative of frequency with respect to wavenumber along the mode; the energy integrals satisfy the variational identities; and the phase- and group-velocity sensitivities equal the change of those velocities when a layer's parameter is perturbed. Selecting frequencies, orders or depths selects values without changing them.",
 ["inputs", "configurations"], "all models, modes, frequencies and depth samplings",
 "Tests run the command and look only at the exit status.",
 [S+"modal/eigenfn.c", S+"modal/energy.c", S+"modal/grt_eigenfn.c", S+"modal/modal_util.c"],
 [("eigenfunction recursion", S+"modal/eigenfn.c"), ("analytic layer integrals", S+"modal/energy.c")],
 ["NetCDF outputs of eigenfn"])

prop("C17", "Modal summation gives the surface-wave part of the Green's functions",
 "For every model, depth pair, distance and source type, each trace of the modal-summation command is the inverse transform of the sum over the selected modes and frequencies of their analytic contributions, in the same units, signs, time origin and file layout as the dynamic Green's functions, and it agrees with them where surface waves dominate. It does not depend on batching, and subsets of modes or frequency bands add up to the whole.",
 ["inputs", "configurations"], "all models, geometries, mode and frequency selections and delays",
 "Tests run the command on one model and look only at the exit status.",
 [S+"modal/modgrn.c", S+"modal/grt_modsum.c", S+"modal/modal_util.c"],
 [("modal excitation and Bessel/Hankel terms", S+"modal/modgrn.c")],
 ["SAC files of modsum"])

prop("C18", "The surface Lamb solution is the exact half-space step response",
 "For every Poisson ratio, time and azimuth, the closed-form surface-to-surface solution is zero before the P arrival, reaches the static point-force solution after the Rayleigh wave has passed, is symmetric under reciprocity and reflection of azimuth, depends on azimuth by tensor rotation only, and agrees with the dynamic Green's functions of a uniform half-space. Each time sample is independent of which other samples are requested.",
 ["inputs"], "all Poisson ratios, times and azimuths",
 "One reference file at fixed Poisson ratios.",
 [S+"lamb/lamb1.c", S+"lamb/lamb_util.c", S+"lamb/elliptic.c", S+"lamb/grt_lamb1.c"],
 [("closed-form partial fractions and elliptic integrals", S+"lamb/lamb1.c")],
 ["stdout of lamb1", "pygrt.utils.solve_lamb1"])

prop("C19", "The Python interface returns exactly what the commands produce",
 "For every model and parameter set, the Python classes and functions return the same numbers, components, coordinates and metadata as the equivalent commands, honour every argument, do not modify their inputs unless told to, and raise an error where the command refuses. Streams and arrays read back carry the values stored in the files.",
 ["inputs", "configurations"], "all argument combinations of the Python interface",
 "Tests compare C and Python for one model and a few arguments.",
 ["pygrt/pymod.py", "pygrt/utils.py", "pygrt/cli.py", "pygrt/signals.py", "pygrt/c_interfaces.py"],
 [("argument formatting and result loading", "pygrt/pymod.py")],
 ["Python return values against files written by the command"])

prop("C20", "Output files carry correct metadata and convert without loss",
 "Every output states the geometry, sampling, medium and options it was computed with (trace headers, NetCDF coordinates and attributes, directory names, saved command and model copy), consistently with the request. The conversion tools print exactly the values stored in trace, kernel and dispersion files, for the selected entries only, and saved integration statistics reproduce the reported results.",
 ["inputs", "configurations"], "all requests and all files written by the toolkit",
 "Tests convert a few files and compare nothing.",
 [S+"common/sacio.c", S+"dynamic/grt_greenfn.c", S+"tools/grt_sac2asc.c", S+"tools/grt_ker2asc.c", S+"tools/grt_disp2asc.c", S+"integral/iostats.c", S+"static/stgrnlib.c", S+"modal/modal_util.c"],
 [("header filling and NetCDF writing", S+"dynamic/grt_greenfn.c")],
 ["files and standard output of the conversion tools"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
