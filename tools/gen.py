"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
U = "fv3gfs/util/"
PY = "PYTHONHASHSEED=0 /opt/venv/bin/python -m vf"


def P(id, title, statement, over, text, why, files, mechanism, technique, note,
      level="exploration", observe=(), state=()):
    return dict(id=id, title=title, statement=statement, over=over, text=text, why=why,
                files=[f if f.startswith("fv3gfs") else U + f for f in files], mechanism=mechanism,
                technique=technique, note=note, level=level, observe=list(observe),
                state=list(state))


SIM = ("monitored executions on a hostile deterministic MPI simulator (seeded schedules, "
       "rendezvous sends, delayed delivery, poisoned receive buffers) judged by ")
TRUST = ("Trusts numpy and the MPI simulator's reading of the MPI standard; explores seeded "
         "samples, not all inputs or schedules. ")

PROPS = [
    P("C01", "Scalar halo update fills every halo point with its neighbour's value",
      "After a scalar halo update of n_points, every halo point within n_points of the compute "
      "domain that lies across one rank or tile edge (or a rank corner) holds, bit for bit, the "
      "compute-domain value of the grid point which lies there on the cubed sphere, whichever "
      "way the neighbouring tile's axes are turned. The compute domain, halo points farther out, "
      "the halo at cube corners and all padding keep their values.",
      ["inputs", "configurations", "schedules"],
      "all square layouts, ranks, cells per rank, n_points up to the rank size, dimension "
      "orders, extra dimensions, centred or interface staggering, dtypes, memory layouts, "
      "origins/paddings and MPI schedules",
      "Tests use layouts 1x1..3x3, mostly double precision C-ordered arrays, one schedule in "
      "which all ranks run in lockstep, and compare with numbers taken from the same slicing "
      "helpers; wrong values for other orders, strides, sizes or at rotated corners pass.",
      ["communicator.py", "boundary.py", "_boundary_utils.py", "rotate.py", "partitioner.py",
       "buffer.py"],
      [{"name": "CubedSphereCommunicator.halo_update / start_halo_update",
        "where": U + "communicator.py"},
       {"name": "Boundary.send_view / recv_view", "where": U + "boundary.py"},
       {"name": "rotate_scalar_data", "where": U + "rotate.py"}],
      SIM + "an independent 3-D folded-cube oracle",
      TRUST + "Preconditions: square layout, equal cells per rank, n_points <= cells per rank.",
      observe=["quantity.data of every rank after wait()"]),
    P("C02", "Vector halo update carries both components as one physical vector",
      "After a vector halo update, the halo of both components within n_points holds the "
      "neighbour's vector at that grid point expressed along the receiving rank's axes: "
      "components swapped and negated exactly as the tiles' axes are turned. Everything else is "
      "unchanged.",
      ["inputs", "configurations", "schedules"],
      "as C01, for vectors on A, B, C and D grids",
      "Tests check a few layouts with hand-written sign tables on constant data; a sign or swap "
      "error for one of the rotations, staggerings or dimension orders not listed passes.",
      ["communicator.py", "rotate.py", "boundary.py"],
      [{"name": "CubedSphereCommunicator.vector_halo_update",
        "where": U + "communicator.py"},
       {"name": "rotate_vector_data", "where": U + "rotate.py"}],
      SIM + "parallel transport of a vector field over a folded cube in 3-D",
      TRUST + "Preconditions as C01; both components share dimension order and dtype.",
      observe=["data of both components on every rank"]),
    P("C03", "Interface synchronisation makes both holders of an edge agree",
      "After synchronize_vector_interfaces, every edge point held by two ranks has on both the "
      "value of the rank for which it is a south or west edge, negated on the other exactly when "
      "the tangent direction is reversed there. No other point changes, for any dimension order.",
      ["inputs", "configurations", "schedules"],
      "all square layouts, sizes, dimension orders with any number of extra dimensions, dtypes, "
      "memory layouts, origins and MPI schedules",
      "The existing test uses one shape of two-dimensional fields; a vertical dimension before "
      "the horizontal ones was already broken without any test noticing.",
      ["communicator.py", "rotate.py", "quantity.py"],
      [{"name": "start_synchronize_vector_interfaces", "where": U + "communicator.py"},
       {"name": "BoundaryArrayView.sel", "where": U + "quantity.py"}],
      SIM + "an oracle which finds both holders of each edge point on the folded cube",
      TRUST + "Preconditions as C01 for the layout.",
      observe=["data of both components on every rank"]),
    P("C04", "Overlapping asynchronous updates complete and do not interfere",
      "When several scalar, vector and interface updates are in flight at once and are waited "
      "for in any order (the same on all ranks), every wait returns, each update has the result "
      "it would have alone, and all messages sent are received, whatever order and speed ranks "
      "and messages have. No message buffer is changed or shared while in use.",
      ["schedules", "programs"],
      "all SPMD programs of start/wait calls and all MPI schedules: rank interleavings, eager or "
      "rendezvous sends, delivery delays, synchronising or lazy collectives",
      "Tests run ranks in lockstep on a mock whose sends always complete and which ignores tags, "
      "so mixed-up messages, deadlock under rendezvous, and buffer reuse races cannot show.",
      ["communicator.py", "buffer.py"],
      [{"name": "HaloUpdateRequest.wait", "where": U + "communicator.py"},
       {"name": "halo tags", "where": U + "communicator.py"},
       {"name": "recv_buffer / array_buffer", "where": U + "buffer.py"}],
      SIM + "per-update oracles plus deadlock, leak, tag and buffer-race monitors",
      TRUST + "Ranks start and wait in the same program order.",
      observe=["every MPI call", "data of all quantities after the last wait"]),
    P("C05", "The result of an update does not depend on the communicator's history",
      "A communicator used for a long time gives every update the same result as a fresh one: "
      "after other updates of any kind and shape, after data changed, after tens of thousands of "
      "updates, and after updates which were rejected. A rejected update (no points, more halo "
      "points than exist, wrong grid) raises, changes no data and sends nothing.",
      ["histories", "fault_sequences"],
      "all sequences of updates and rejected calls on one communicator",
      "Tests make one or two updates per communicator; state kept between calls (cached "
      "boundaries, recycled buffers, timers, tags) is never stressed.",
      ["communicator.py", "buffer.py", "_boundary_utils.py", "_timing.py"],
      [{"name": "BUFFER_CACHE", "where": U + "buffer.py"},
       {"name": "get_boundary_slice cache", "where": U + "_boundary_utils.py"},
       {"name": "CubedSphereCommunicator.boundaries", "where": U + "communicator.py"}],
      SIM + "per-step oracles over long random histories",
      TRUST + "All ranks make the same calls.",
      observe=["data of all quantities after every step", "tags of all messages"]),
    P("C06", "Domain decomposition covers each point once and extents invert",
      "For every layout the ranks' subtile slices without overlap partition the global compute "
      "domain, shared interface points going to the greater rank, and with overlap each is the "
      "rank's full extent including both shared edges. subtile_extent and global_extent are "
      "inverse to each other, and rank, tile and position indices agree with row-major order.",
      ["inputs", "configurations"],
      "all tile layouts (square or not) and cube layouts, dimension sets and orders, staggerings "
      "and sizes divisible by the layout",
      "Tests list about a dozen layouts up to 4x4; floating point and corner cases of other "
      "layouts are out of reach (layout 49 was already wrong).",
      ["partitioner.py", "utils.py"],
      [{"name": "subtile_slice", "where": U + "partitioner.py"},
       {"name": "rank_extent_from_tile_metadata / tile_extent_from_rank_metadata",
        "where": U + "partitioner.py"}],
      "runtime oracle over observed slices of all ranks: integer arithmetic and painting owners "
      "into a real array",
      "Explores seeded layouts up to 128 per side (1-D layouts up to 400, thorough 1500).",
      observe=["subtile_slice, subtile_extent, global_extent, index queries"]),
    P("C07", "Rank boundaries match the cubed-sphere topology and stay isolated",
      "boundary(type, rank) names the rank and the number of clockwise axis turns that the "
      "geometry of the cubed sphere (or of a doubly periodic tile) gives for that direction, and "
      "is None exactly at cube corners; crossing an edge and back returns to the start with "
      "turns cancelling. A cube of tiles with a layout which is not square is refused. The "
      "answer never depends on earlier requests or on what a caller did to "
      "an object returned before.",
      ["configurations", "histories"],
      "all layouts, ranks, boundary types, and histories of requests and caller modifications",
      "Tests pin layouts up to 3x3 with a table; larger layouts and shared mutable cache entries "
      "are not covered.",
      ["partitioner.py", "boundary.py"],
      [{"name": "CubedSpherePartitioner.boundary", "where": U + "partitioner.py"},
       {"name": "lru_cache + copy of boundaries", "where": U + "partitioner.py"}],
      "runtime oracle (3-D folded cube, torus) over randomised request/scribble histories",
      "Layouts 1..12 are enumerated completely (thorough: 1..24); histories are sampled.",
      observe=["objects returned by boundary()"]),
    P("C08", "Boundary views select exactly the points to send and to receive",
      "send_view is the n_points of the compute domain next to the boundary, leaving out the "
      "interface line both ranks share; recv_view is the n_points just outside the compute "
      "domain; other dimensions span the compute domain. Both are writable views of the "
      "quantity's data, and OutOfBoundsError is raised exactly when the region does not fit in "
      "the array. Rotating a boundary's vector data turns both components in place, once per "
      "clockwise rotation of the boundary.",
      ["inputs", "histories"],
      "all boundary types, dimension orders and staggerings, origins, extents, shapes, widths, "
      "and earlier requests for similar quantities",
      "Tests check a list of slices on a handful of quantities; the slice cache and the error "
      "conditions are not exercised across quantities that differ in one property only.",
      ["boundary.py", "_boundary_utils.py"],
      [{"name": "get_boundary_slice", "where": U + "_boundary_utils.py"}],
      "runtime oracle: index arithmetic and memory identity of the returned views",
      "Sampled inputs from small colliding pools.",
      observe=["send_view / recv_view results"]),
    P("C09", "Scatter and gather are exact inverse transfers of a quantity",
      "scatter gives every rank bit for bit its overlapping part of the root's global quantity "
      "with the same dims, units and dtype; gather of consistent parts rebuilds the global "
      "quantity on the root and returns nothing elsewhere. Quantities given to receive into are "
      "filled in their compute domain only; sent quantities are unchanged and share no memory "
      "with received ones.",
      ["inputs", "configurations", "schedules", "histories"],
      "tile (any layout), cube, and tile-of-cube communicators; all dimension sets, dtypes, "
      "memory layouts, paddings; repeated transfers through shared buffers; MPI schedules",
      "Tests use a few layouts with contiguous data without padding in one lockstep schedule, and "
      "one transfer per communicator.",
      ["communicator.py", "buffer.py", "partitioner.py"],
      [{"name": "Communicator.scatter / gather", "where": U + "communicator.py"},
       {"name": "array_buffer", "where": U + "buffer.py"}],
      SIM + "index-arithmetic oracles on whole memory blocks",
      TRUST + "Sizes divisible by the layout.",
      observe=["all quantities' memory on all ranks"]),
    P("C10", "State scatter and gather move every variable and the time",
      "scatter_state gives every rank its part of every variable of the root's state under the "
      "same name, and the root's time if it has one; gather_state rebuilds the state on the "
      "root. Sent states are unchanged; a state given to receive into keeps its own objects for "
      "transferred variables and everything that was not transferred.",
      ["inputs", "configurations", "schedules"],
      "all states (variables, order, dims, dtypes, with or without time), receiving states with "
      "any subset of the variables and unrelated ones, communicators and MPI schedules",
      "Tests use one or two variables in one lockstep schedule; a receiving state that had a time "
      "lost it without any test noticing.",
      ["communicator.py"],
      [{"name": "scatter_state / gather_state", "where": U + "communicator.py"}],
      SIM + "per-variable oracles and key-set comparison",
      TRUST + "Gathering ranks list variables in the same order.",
      observe=["returned and given states on all ranks"]),
    P("C11", "Quantity views index relative to the compute domain",
      "Indexing quantity.view (or sel by dimension name) addresses the data array relative to "
      "the start of the compute domain: 0 is the first compute point, negative or large indices "
      "reach the halo, missing slice ends mean the compute domain's ends, whatever the dimension "
      "order, number of dimensions, origin, extent, step or new axes. Reads are views of the "
      "same memory, writes change exactly the addressed points, and too many indices are "
      "refused.",
      ["inputs", "histories"],
      "all quantities (0 to 4 dimensions, any names, origin, extent, padding, dtype, memory "
      "layout) and sequences of reads and writes with integers, slices, steps, new axes and "
      "partial indices",
      "Tests list some slices of one- and two-dimensional quantities; zero-dimensional data, "
      "negative steps, new axes and refused indices were all wrong in some way.",
      ["quantity.py"],
      [{"name": "BoundaryArrayView / shift_slice / bound_default_slice",
        "where": U + "_boundary_utils.py"},
       {"name": "QuantityView", "where": U + "quantity.py"}],
      "runtime oracle: index arithmetic on the data array, memory identity, whole-block "
      "comparison after each write",
      "Indices within the underlying array (wrapping round numpy's negative indices excluded).",
      observe=["results of view[...] and sel", "the whole memory block after each write"]),
    P("C12", "Corner and interior views count from the right end of each dimension",
      "view.northwest, northeast, southwest and southeast index relative to that corner of the "
      "compute domain: from the start of the dimension for south and west, from its end for "
      "north and east, and from the start of the compute domain for every other dimension, in "
      "any dimension order and for centred and interface dimensions. view.interior's slices "
      "count from the start for their start and from the end for their stop. Reads are views and "
      "writes change exactly the addressed points.",
      ["inputs", "histories"],
      "all quantities with any dimension names and order, origins, extents, memory layouts, and "
      "sequences of reads and writes through corner and interior views, by index or by name",
      "Tests list indices on two-dimensional y,x arrays; other orders and vertical or extra "
      "dimensions between them, names without horizontal meaning and writes are not sampled.",
      ["quantity.py", "_boundary_utils.py"],
      [{"name": "BoundaryArrayView and its dim_starts/dim_ends helpers",
        "where": U + "quantity.py"}],
      "runtime oracle: index arithmetic on the data array, memory identity, whole-block "
      "comparison after each write",
      "Indices within the underlying array; interior takes slices only.",
      observe=["results of corner views", "the whole memory block after each write"]),
    P("C13", "Quantities keep data and metadata through conversion, copies and transposes",
      "A quantity reports the data, dims, units, origin, extent and shape it was made with; "
      "inconsistent ones are refused. Transposing, by names or groups of names, permutes data, "
      "dims, origin and extent together as a view, and back again; conversion to a DataArray "
      "or a dataset gives the compute domain with dims and units and converts back. Copies and "
      "pickles equal the original and share no memory with it; values is a read-only view.",
      ["inputs", "histories"],
      "all quantities of 0 to 5 dimensions, dtypes, memory layouts, origins and extents, and "
      "transpose targets including names which do not fit",
      "Tests check a handful of three-dimensional examples; writes after copies and transposes, "
      "invalid construction and other numbers of dimensions are not covered.",
      ["quantity.py", "types.py"],
      [{"name": "Quantity.__init__ / transpose / data_array / from_data_array",
        "where": U + "quantity.py"}],
      "runtime oracle: reference permutation and conversion, memory-sharing monitor, probing "
      "writes",
      "Dimension names distinct.",
      observe=["all attributes of quantities", "memory shared between quantities"]),
    P("C14", "Corner filling copies the proper halo points into tile corners only",
      "Filling the corners of a scalar for gradients in x or y sets each point of the cube-corner "
      "halo within n_halo to the edge-halo value obtained by turning about that corner, on "
      "exactly those ranks and corners that lie at a corner of the tile. All other points, "
      "padding included, keep their values, for any staggering, extra dimensions and halo width; "
      "unsupported dimensions or directions are refused.",
      ["inputs", "configurations"],
      "all tile layouts and ranks, staggerings, directions, halo widths, extents, trailing "
      "dimensions, dtypes and memory layouts",
      "Tests compare a few arrays with literals on 1x1 and some ranks; other layouts, paddings, "
      "staggerings in one direction only and wider halos are not reached.",
      ["_corners.py", "quantity.py", "partitioner.py"],
      [{"name": "fill_scalar_corners", "where": U + "_corners.py"}],
      "runtime oracle: points counted from each corner, whole-block comparison",
      "At least as many halo points and compute cells as are filled.",
      observe=["the quantity's whole memory block"]),
    P("C15", "The Zarr store holds exactly what the ranks' states held",
      "After all ranks have stored states, reading the store gives per variable, time, tile and "
      "point bit for bit the compute-domain value of the rank that owns the point, with dims, "
      "units and the times of the states in order and decoding to equal dates. This holds for "
      "any layout, dimension order, staggering, dtype, record count and order in which ranks "
      "run, and no chunk is written by two ranks at once or read while being written.",
      ["schedules", "inputs", "configurations", "histories"],
      "all cube layouts, states, numbers of records, calendars, in-memory or directory stores "
      "and interleavings of all ranks' store operations and MPI calls",
      "Tests store from ranks in lockstep into a dict for square layouts; races on chunks or "
      "metadata and unusual dimension orders cannot show.",
      ["zarr_monitor.py", "partitioner.py"],
      [{"name": "ZarrMonitor.store", "where": U + "zarr_monitor.py"},
       {"name": "_ZarrVariableWriter / _ZarrTimeWriter", "where": U + "zarr_monitor.py"}],
      "hostile schedules with every store operation a scheduling point; offline checker over "
      "the operation log (chunk races) and the store's final content",
      "Same variables and metadata on all ranks; variables without x or y hold equal values on "
      "the ranks sharing them.",
      observe=["every store operation", "content read back with zarr and xarray"]),
    P("C16", "Rejections, crashes and I/O faults leave stored Zarr records intact",
      "A state whose variables, dims, units, shape or calendar do not fit the store is rejected "
      "with an error and leaves the store as it was, and later good states are stored as if it "
      "had never been offered. If the program dies at any point or a store operation fails, "
      "every record completed before can still be read with its exact content; so it can after "
      "another monitor opened the store in a mode which keeps it. A failed store operation or "
      "a mode the store does not allow is reported to the caller.",
      ["crash_points", "fault_sequences", "histories", "schedules"],
      "every prefix of the store's operation log, any single failing operation, and any history "
      "of good and inconsistent states",
      "Tests check that an error is raised; what an inconsistent state, a crash or a failed write "
      "leaves behind was never looked at (rejected states used to be partly stored).",
      ["zarr_monitor.py"],
      [{"name": "ZarrMonitor.store (checks before writing)", "where": U + "zarr_monitor.py"}],
      "crash-point enumeration over the recorded store log, injected faults, byte comparison of "
      "the store around rejections",
      "Store operations on one key atomic and durable on return; all ranks offered an "
      "inconsistent state together; the monitor is not used again after a fault.",
      level="fault_enumeration",
      observe=["every store operation", "store bytes before and after"]),
    P("C17", "A state written to a file is read back unchanged, or an error is raised",
      "read_state of a file made by write_state returns the same names, values (bit for bit), "
      "dims, units and time (any calendar) as the state that was written, which itself is not "
      "changed. A state without time or with data a netCDF 3 file cannot hold is refused "
      "before the file is touched. A file that was cut "
      "short or an I/O operation that failed is reported, never taken for a good state.",
      ["inputs", "fault_sequences", "crash_points"],
      "all states (0 to 5 quantities, 0 to 4 dimensions, dtypes of netCDF 3, special values, all "
      "unit strings), local and remote file systems, any failing operation, any truncation",
      "Tests write three small states; units that look like times, special values, faults and "
      "truncated files are not covered (units of time used to be lost).",
      ["io.py", "filesystem.py", "_xarray.py"],
      [{"name": "write_state / read_state", "where": U + "io.py"}],
      "round-trip oracle with a fault-injecting file system and truncations",
      "int64 is compared by value (netCDF 3). Known finding: a quantity named like its own "
      "dimension is dropped.",
      observe=["file content", "state read back", "errors raised under faults"]),
    P("C18", "open_restart gives each rank exactly its part of the restart files",
      "Every rank gets under the standard names, for every variable the files hold (or each of "
      "those asked for), bit for bit its part of its tile's array with the proper dims and "
      "units, and the time of coupler.res, placed into a given state's own quantities if there "
      "is one. Nothing else of that state changes, variables without known metadata are left "
      "out, and missing required files or failing reads raise an error.",
      ["inputs", "configurations", "schedules", "fault_sequences"],
      "all layouts, sets of files and variables, tracers, calendars, selections, receiving "
      "states, MPI schedules and single I/O faults",
      "Tests read one reference directory of a single layout without faults; other layouts, "
      "selections, receiving states and labels are hardly sampled.",
      ["_legacy_restart.py", "_properties.py", "restart_properties.yml", "io.py",
       "communicator.py", "filesystem.py"],
      [{"name": "open_restart / load_partial_state_from_restart_file",
        "where": U + "_legacy_restart.py"},
       {"name": "RESTART_PROPERTIES", "where": U + "_properties.py"}],
      SIM + "the arrays of synthetic Fortran restart files, with a fault-injecting file system",
      TRUST + "Sizes divisible by the layout, one record per file, restart files with a Time "
      "coordinate.",
      observe=["states on all ranks", "file system operations"]),
    P("C19", "Nudging tendencies and their application are exact and local",
      "The tendency of each nudged variable is (reference - state) / timescale in seconds at "
      "every compute point with units per second; applying it over a timestep adds tendency "
      "times timestep to the compute domain of exactly those variables. References, time scales, "
      "other variables, metadata and the memory outside compute domains stay unchanged, names "
      "missing in either state raise and change nothing, and a variable may serve as another's "
      "reference.",
      ["inputs", "histories"],
      "all states and references with differing halos, dimension counts, dtypes and memory "
      "layouts, all time scales and time steps, repeated application",
      "Tests use one shape of quantities equal in state and reference; different halos, "
      "sub-second time scales, and what remains unchanged are not sampled.",
      ["nudging.py", "quantity.py"],
      [{"name": "get_nudging_tendencies / apply_nudging", "where": U + "nudging.py"}],
      "runtime oracle: the formula on plain arrays, whole-block comparison",
      "Floating point variables; state and reference share dims and extent.",
      observe=["tendencies", "memory of all quantities"]),
    P("C20", "Timers account every section once and never stay running by accident",
      "For any sequence of starts, stops, nested or failing clock blocks, resets, enabling and "
      "disabling, hits is the number of finished sections per name while enabled, times is the "
      "sum of their durations, and misuse raises an error and changes nothing. Leaving a clock "
      "block by an exception stops its clock. A disabled timer and a NullTimer record nothing.",
      ["programs", "histories"],
      "all programs of timer operations including exceptions, break and misuse",
      "Tests call one or two operations; sequences with failures in between are not covered (a "
      "clock used to stay running after an exception).",
      ["_timing.py"],
      [{"name": "Timer", "where": U + "_timing.py"}],
      "random programs next to a reference model, with clock readings bounding each section",
      "One thread per timer.",
      observe=["times, hits, warnings and errors after each operation"]),
    P("C21", "capture_stream takes exactly what is written inside the block",
      "Everything written to the captured stream inside the block, by Python, through the file "
      "descriptor or by a child process, is in the returned buffer once and in order, and "
      "nothing else; what is written before and after goes to the stream's own destination. The "
      "stream is restored however the block is left, nested blocks included, and no file "
      "descriptor or temporary file is left behind.",
      ["programs", "histories", "fault_sequences"],
      "all programs of writes and capture blocks: nested, repeated, left by exceptions, on text "
      "or binary streams of any buffering",
      "Tests capture one or two writes; buffered text before a block, exceptions and descriptor "
      "leaks are not covered (an exception used to leave the stream redirected).",
      ["_capture_stream.py"],
      [{"name": "capture_stream", "where": U + "_capture_stream.py"}],
      "random writer programs; offline comparison of captured and passed-through bytes with a "
      "perfect capture, descriptor-leak monitor",
      "Writers have finished when a block is left.",
      observe=["captured bytes", "the stream's own destination", "open descriptors"]),
    P("C22", "Message buffers in use are exclusive, contiguous and carry the data",
      "Buffers in use at one time never share memory with each other. A send buffer is "
      "contiguous and holds the given array's data (the array itself if contiguous); data "
      "received into a receive buffer is in the given array, and nowhere else, when the context "
      "ends without failing. Shape, dtype and allocator are as asked for, however contexts "
      "overlap, nest, repeat or fail.",
      ["programs", "histories"],
      "all programs entering and leaving buffer contexts in any order, over shapes, dtypes, "
      "allocators and contiguous or strided arrays",
      "Tests open one buffer at a time or two of the same kind; overlapping use with recycled "
      "buffers and failures is not sampled.",
      ["buffer.py", "utils.py"],
      [{"name": "array_buffer / send_buffer / recv_buffer", "where": U + "buffer.py"},
       {"name": "BUFFER_CACHE", "where": U + "buffer.py"}],
      "random context programs with a memory-ownership monitor and content oracle",
      "Allocators return fresh arrays; one thread.",
      observe=["buffers yielded", "target arrays and their surroundings"]),
    P("C23", "Allocated quantities fit the decomposition",
      "For every tile size, layout, halo and set of dimensions (also taken from a namelist), "
      "extent is the rank's share of the tile including both interface edges, origin is the halo "
      "width in horizontal dimensions and zero elsewhere, and the shape leaves room for the halo "
      "and does not depend on staggering. Quantities made with empty, zeros or ones have that "
      "geometry, the requested dtype, units and content, and memory of their own.",
      ["configurations", "inputs"],
      "all tile sizes, layouts, halo widths, levels, extra dimensions, dimension orders, dtypes "
      "and allocators",
      "Tests pin a handful of configurations; non-square layouts with extra dimensions in other "
      "orders, allocator arguments and use in halo updates are not covered.",
      ["initialization/sizer.py", "initialization/allocator.py", "quantity.py"],
      [{"name": "SubtileGridSizer", "where": U + "initialization/sizer.py"},
       {"name": "QuantityFactory", "where": U + "initialization/allocator.py"}],
      "runtime oracle: definition of the decomposition, boundary views and reassembled extents "
      "of allocated quantities",
      "Tile sizes divisible by the layout.",
      observe=["sizer results", "allocated quantities", "calls to the allocator"]),
    P("C24", "Model times read from files and numpy keep their exact value and calendar",
      "The current time in a coupler.res file is read as exactly that date in exactly the "
      "calendar it names, for every spacing and comment FMS writes, and a damaged file raises "
      "an error instead of giving some time. Numpy datetimes of any unit convert to the equal "
      "naive UTC datetime, before and after 1970 and whatever the local time zone.",
      ["inputs", "configurations"],
      "all dates, the four FMS calendars, file spacings and damages, numpy datetime units, "
      "process time zones",
      "Tests read one or two literal files per calendar and convert one recent date in the "
      "sandbox's time zone.",
      ["io.py", "time.py"],
      [{"name": "get_current_date_from_coupler_res", "where": U + "io.py"},
       {"name": "datetime64_to_datetime / FMS_TO_CFTIME_TYPE", "where": U + "time.py"}],
      "runtime oracle: dates generated and compared field by field",
      "Numpy datetimes in whole microseconds, years 1 to 9999.",
      observe=["returned dates", "errors for damaged files"]),
    P("C25", "Rotation of scalar and vector data is exact and composes",
      "Turning a scalar array by any number of clockwise quarter turns moves every point to the "
      "turned coordinates, bit for bit, for any order of dimensions; turning a vector also "
      "turns its components; turns add up modulo four and turning back gives the data back. "
      "Flips, transposition and quarter turns of a rank's position in a layout move it to the "
      "corresponding cell. Inputs are never modified.",
      ["inputs"],
      "all numbers of turns (also negative and beyond four), dimension orders, shapes, dtypes, "
      "memory layouts, ranks and layouts",
      "Tests rotate a handful of small arrays; half turns never occur on the cube, so that no "
      "other test of this package notices when they are wrong.",
      ["rotate.py", "partitioner.py"],
      [{"name": "rotate_scalar_data / rotate_vector_data", "where": U + "rotate.py"},
       {"name": "rotate_rank / fliplr_rank", "where": U + "partitioner.py"}],
      "monitored calls compared point by point with a reference rotation",
      "Explores seeded samples.",
      observe=["returned arrays and ranks", "memory of the inputs"]),
    P("C26", "Optional packages are needed only by the features which use them",
      "Whatever set of optional packages is missing, fv3gfs.util imports with the same public "
      "names, everything which needs numpy only (partitioning, halo updates, scatter/gather, "
      "nudging, timing, ...) gives the same results, and a feature which needs a missing "
      "package raises ModuleNotFoundError naming that package when used, not before.",
      ["configurations"],
      "all subsets of the optional packages (xarray, zarr, scipy, mpi4py, pandas, yaml, dask, "
      "gt4py, cupy, ...)",
      "Tests run in one environment which has xarray, zarr and scipy; an import moved to the "
      "top of a module breaks users of other environments only.",
      ["_optional_imports.py", "_xarray.py", "zarr_monitor.py", "quantity.py", "utils.py",
       "initialization/allocator.py", "__init__.py"],
      [{"name": "RaiseWhenAccessed", "where": U + "_optional_imports.py"},
       {"name": "import guards", "where": U + "_xarray.py"}],
      "fresh interpreters with blocked packages, compared with one which has all",
      "Packages are blocked by an import hook, as if not installed.",
      observe=["import errors", "digest of all results", "errors of each feature"]),
    P("C27", "Communication timings are right and outlive failed transfers",
      "During halo and interface updates the communicator's timer counts every send and "
      "receive, credits each at least the time it took, never more in total than passed, and "
      "no clock runs between calls. Enabling, disabling, resetting or replacing the timer "
      "between calls changes no data. If a send, receive or completion fails, the error "
      "reaches the caller, no clock is left running, only points the update writes may have "
      "changed, and the next update works as on a new communicator; likewise for scatter and "
      "gather when a collective call fails.",
      ["histories", "fault_sequences", "schedules"],
      "all interleavings of updates with timer operations, and every transfer as the point of "
      "failure",
      "No test lets a transfer fail or looks at the communicator's timer beyond its existence.",
      ["communicator.py", "buffer.py", "_timing.py"],
      [{"name": "_Isend / _Irecv / timer", "where": U + "communicator.py"},
       {"name": "send_buffer / recv_buffer", "where": U + "buffer.py"}],
      "a recorder between communicator and MPI keeps its own accounts; fault injection at the "
      "k-th transfer",
      "Clock readings to 2 microseconds. Memory allocation is assumed not to fail.",
      observe=["timer.times, timer.hits", "errors", "messages sent", "memory"]),
    P("C28", "Units are compared exactly, up to blanks around them",
      "units_are_equal is true exactly for strings which are the same after trimming blanks at "
      "both ends, whichever comes first; ensure_equal_units raises UnitsError naming both "
      "strings exactly when they differ.",
      ["inputs"], "all pairs of strings",
      "One test compares four literal pairs.",
      ["units.py"],
      [{"name": "units_are_equal / ensure_equal_units", "where": U + "units.py"}],
      "runtime oracle over generated pairs and near misses",
      "Explores seeded samples.",
      observe=["returned values and errors"]),
    P("C29", "A quantity's gt4py storage and its data are one memory on that backend",
      "A Quantity made of a gt4py storage, or with gt4py_backend (also by from_data_array), has "
      "a storage of exactly that backend which is the same memory as data and view: what is "
      "written through one is read through the others, data being a numpy array for CPU and a "
      "cupy array for GPU backends, and np the module of data. A storage made by Quantity has "
      "the quantity's origin as default_origin. Without a backend, storage raises TypeError; a "
      "storage given together with gt4py_backend raises TypeError. transpose keeps the backend "
      "and all of this. QuantityFactory.from_backend allocates zeros, ones and empty quantities "
      "as storages of that backend with the right shape, dtype, content and default_origin, and "
      "memory of their own.",
      ["inputs", "configurations"],
      "all backends (CPU and GPU), data sources (numpy, cupy, storages, DataArrays), dims, "
      "shapes, origins, extents, dtypes and memory layouts, and histories of writes",
      "The tests for these backends are skipped without gt4py and cupy, and sample one shape.",
      ["quantity.py", "initialization/allocator.py"],
      [{"name": "Quantity.storage / _initialize_storage", "where": U + "quantity.py"},
       {"name": "QuantityFactory.from_backend",
        "where": U + "initialization/allocator.py"}],
      "monitoring stand-ins for cupy and gt4py.storage under generated histories, judged by a "
      "numpy model",
      "gt4py and cupy are not installed: stand-ins with their interface (validated by the "
      "repository's own tests for these backends) replace them. Explores seeded samples.",
      observe=["quantity.data, view, storage, np, metadata"]),
    P("C30", "Device arrays and gt4py storages give the same results as numpy arrays",
      "Halo, vector halo and interface updates, scatter, gather and their state versions, "
      "corner filling, nudging and ZarrMonitor give on quantities which hold cupy arrays or "
      "gt4py storages exactly what they give on numpy arrays, without implicit conversions "
      "between host and device and without mixing host and device arrays; the quantities that "
      "scatter and gather create are of the same kind (np module and gt4py backend) as the "
      "sent ones.",
      ["inputs", "configurations", "schedules"],
      "the inputs and schedules of C01-C03, C09, C10, C14, C15 and C19 on cupy arrays and CPU "
      "and GPU storages",
      "Tests on GPU backends are skipped without a GPU; code for device arrays is never "
      "executed.",
      ["communicator.py", "buffer.py", "utils.py", "quantity.py", "zarr_monitor.py",
       "nudging.py", "_corners.py", "rotate.py"],
      [{"name": "assign_array", "where": U + "utils.py"},
       {"name": "QuantityMetadata.np", "where": U + "quantity.py"},
       {"name": "_ZarrVariableWriter.append", "where": U + "zarr_monitor.py"}],
      "monitoring stand-ins for cupy and gt4py.storage under the workloads and oracles of the "
      "other checks on the MPI simulator",
      "Stand-ins instead of a GPU: host memory, synchronous device, CUDA-aware MPI assumed for "
      "contiguous arrays. Explores seeded samples.",
      observe=["quantity.data", "the zarr store", "implicit conversions"]),
    P("C31", "A state keeps its content through any sequence of the package's facilities",
      "Through any sequence of gathering and scattering (states of a cube or of its tiles, into "
      "new or existing quantities), state files, restart files, new allocations, transposes, "
      "conversions to and from DataArrays and datasets, copies, pickles, halo updates and "
      "corner filling, every variable of a distributed state keeps on every rank its name, "
      "dims, units, dtype and bit for bit its compute-domain values, and the state its time; "
      "only nudging and writes change them, as specified. Quantities which come out of any of "
      "these can be used in all others, share memory only where they are views, and a Zarr "
      "store written on the way holds what the state held then.",
      ["inputs", "histories", "configurations", "schedules"],
      "all sequences of these operations, states (variables, dims and their order, staggering, "
      "dtypes, units, time), layouts and MPI schedules",
      "Every test uses one facility on quantities made for it; what one facility leaves in a "
      "quantity (origin, memory order, read-only or shared arrays, attributes, caches) and "
      "another depends on shows in sequences only.",
      ["quantity.py", "communicator.py", "io.py", "_legacy_restart.py", "_xarray.py",
       "zarr_monitor.py", "nudging.py", "_corners.py", "initialization/allocator.py"],
      [{"name": "Communicator.scatter_state / gather_state", "where": U + "communicator.py"},
       {"name": "Quantity.from_data_array / data_array / transpose",
        "where": U + "quantity.py"},
       {"name": "read_state / write_state", "where": U + "io.py"},
       {"name": "open_restart", "where": U + "_legacy_restart.py"}],
      "generated sequences of operations on all ranks of the MPI simulator and of real MPI, "
      "next to a global model in plain arrays compared after every step",
      "Explores seeded samples: 2-5 variables, up to 4 cells per rank, 5-14 steps.",
      observe=["all ranks' quantities after every step", "quantities replaced on the way",
               "the zarr store"]),
    P("C32", "Repeating the same work does not accumulate memory, buffers or open files",
      "Doing the same work again with the same communicators, partitioners, monitors and shapes "
      "but new quantities - blocking and asynchronous updates, scatter and gather, states, "
      "state files, restart files, Zarr records, nudging, corner filling, conversions, views, "
      "buffers, allocations, timers, captures, and calls of these which are refused or left by "
      "an exception - keeps no more memory, message buffers, objects, open files, temporary "
      "files or threads than a few repetitions do, and arrays and quantities which the caller "
      "has dropped are released.",
      ["histories", "inputs"],
      "any number of repetitions of any mixture of these operations with recurring shapes",
      "Tests do everything once; what each call leaves behind (a cache entry, a buffer which is "
      "never used again, a file or request kept) ends a model run after thousands of steps.",
      ["communicator.py", "buffer.py", "_boundary_utils.py", "partitioner.py", "io.py",
       "zarr_monitor.py", "_capture_stream.py", "_timing.py", "quantity.py",
       "_legacy_restart.py"],
      [{"name": "BUFFER_CACHE / array_buffer", "where": U + "buffer.py"},
       {"name": "get_boundary_slice (lru_cache)", "where": U + "_boundary_utils.py"},
       {"name": "HaloUpdateRequest", "where": U + "communicator.py"},
       {"name": "capture_stream", "where": U + "_capture_stream.py"}],
      "resource ledger (weak references, tracemalloc by package frame, descriptors, temporary "
      "files, threads) read between equal stretches of repeated work",
      "Explores seeded samples: 32 repetitions of mixtures of 21 kinds of work; sees arrays, "
      "objects of the package and blocks of 1 kB and more, not single numbers.",
      observe=["resources held after equal stretches of work"]),
]

NOT_APPLICABLE = []


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in PROPS:
            assert len(p["title"]) <= 80, p["id"]
            f.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["text"]},
                "why_tests_cant": p["why"],
                "anchors": {"files": p["files"], "state": p["state"],
                            "mechanism": p["mechanism"], "observe_at": p["observe"],
                            "hook_needed": None},
            }) + "\n")
    skip = {n["property"] for n in NOT_APPLICABLE}
    checks = []
    for p in PROPS:
        if p["id"] in skip:
            continue
        checks.append({
            "property": p["id"],
            "quick_cmd": f"{PY} --property {p['id']} --tier quick",
            "thorough_cmd": f"{PY} --property {p['id']} --tier thorough",
            "evidence_file": f"evidence/{p['id']}.json",
            "technique": p["technique"], "level": p["level"], "level_note": p["note"],
        })
    manifest = {
        "version": 1,
        "setup_cmd": "PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -c "
                     "\"import vf.runner, vf.core; vf.core.import_target()\"",
        "hooks": {"guard": "FV3GFS_UTIL_VERIF", "enable": "no hooks are needed: all monitors "
                  "sit at the public API and at the MPI/zarr/file-system interfaces",
                  "source_commits": []},
        "checks": checks,
        "not_applicable": NOT_APPLICABLE,
        "notes": "Pure Python under test: no build step; checks import /repo's working tree "
                 "directly without reading or writing bytecode there.",
    }
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(manifest, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
