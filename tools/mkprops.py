import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None):
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,
      "anchors":{"files":["fv3gfs/util/"+f for f in files],"mechanism":[{"name":n,"where":"fv3gfs/util/"+w} for n,w in mech],"observe_at":observe,"hook_needed":None, **({"state":[{"name":a,"meaning":b,"where":"fv3gfs/util/"+c} for a,b,c in state]} if state else {})}})
p("C01","Halo updates of scalars deliver exactly the neighbouring cells' values",
"After a halo update of n points completes, every halo point within n points of a rank's compute domain holds the value of the cell (or interface point) of the neighbouring subtile, rotated as the cubed-sphere geometry requires, and no other value of the quantity changes. This holds on every rank for any square layout, dimension order, staggering (both dimensions at centers or both at interfaces), dtype, memory layout, padding and halo width not exceeding the subtile. It holds regardless of the order in which ranks run and messages travel.",
["inputs","configurations","schedules"],"all layouts, quantity shapes and dtypes, all n, all rank interleavings and message timings",
"The tests run one fixed rank order with an in-process mock that has no timing, on quantities of a few shapes, and mostly check values that are constant per rank.",
["communicator.py","boundary.py","_boundary_utils.py","rotate.py","partitioner.py","buffer.py"],
[("start_halo_update","communicator.py"),("SimpleBoundary send/recv views","boundary.py"),("get_boundary_slice","_boundary_utils.py"),("rotate_scalar_data","rotate.py"),("CubedSpherePartitioner.boundary","partitioner.py")],
["CubedSphereCommunicator.halo_update / start_halo_update(...).wait()","Quantity.data"])
p("C02","Vector halo updates deliver neighbours' components, rotated and signed",
"After a vector halo update of n points completes, the halo points of both components within n points hold the neighbouring subtile's vector expressed in the receiving tile's axes: the right component, at the right place, with the right sign. Interior values and halo points further out are unchanged. This holds for A-, B-, C- and D-grid vectors on every rank, for any square layout, dimension order, dtype and memory layout, whatever the interleaving of ranks and messages.",
["inputs","configurations","schedules"],"all vector staggerings, layouts, shapes, n, rank interleavings and message timings",
"The tests check vectors whose value is constant per rank, in one rank order; sign, component and position cannot all be told apart, and timing is never varied.",
["communicator.py","rotate.py","boundary.py","partitioner.py","buffer.py"],
[("start_vector_halo_update","communicator.py"),("rotate_vector_data","rotate.py"),("halo tags","communicator.py")],
["CubedSphereCommunicator.vector_halo_update / start_vector_halo_update(...).wait()"])
p("C03","Interface synchronisation makes both owners of an edge agree",
"After synchronising a C-grid vector, both ranks that share a subtile edge hold identical values there up to the rotation between tiles, namely the values the rank for which it is the south or west edge had before. All other values are unchanged. This holds for quantities of any dimensionality, dimension order and memory layout, with or without halos, under every interleaving of ranks and messages.",
["inputs","configurations","schedules"],"all layouts, shapes and dimension orders, rank interleavings and message timings",
"The tests use two-dimensional (y, x) quantities on six ranks in one rank order.",
["communicator.py","rotate.py","quantity.py"],
[("start_synchronize_vector_interfaces","communicator.py"),("rotate_scalar_data","rotate.py"),("corner views","quantity.py")],
["CubedSphereCommunicator.synchronize_vector_interfaces"])
p("C04","Overlapping asynchronous exchanges do not interfere",
"Any number of halo updates, vector halo updates and interface synchronisations may be in flight at once, on different quantities, started in the same order on all ranks and waited for in any order, with other communication in between; each request's wait delivers exactly the data its own quantities held when it was started. Once a request's wait has returned, its quantities may be overwritten without affecting what any other rank receives.",
["schedules","histories","inputs"],"all sequences of starts and waits, all send completion modes and message timings",
"The tests have at most one exchange in flight and use a mock that copies data at once, so neither tag mix-ups nor late reads of a send buffer can show.",
["communicator.py","buffer.py"],
[("halo tags","communicator.py"),("HaloUpdateRequest.wait","communicator.py"),("_Isend contiguous copy","communicator.py"),("array_buffer pool","buffer.py")],
["start_*(...), request.wait()"],[("last halo tag","identifies the exchange a message belongs to","communicator.py"),("buffer cache","recycled contiguous arrays","buffer.py")])
p("C05","Every communication operation completes and leaves nothing behind",
"A program in which all ranks make the same sequence of exchange, scatter, gather and state operations completes on every rank, whether sends are buffered or wait for their receiver and whether or not collectives synchronise, with every message sent received exactly once by the operation it belongs to. This stays true for any number of operations: nothing runs out.",
["schedules","histories","configurations"],"all programs of matching operations of any length, all buffering, timing and scheduling behaviours MPI allows",
"Deadlock, leftover messages and exhaustion depend on MPI buffering, on scheduling and on run length; the mock used in the tests never blocks and tests make a handful of calls.",
["communicator.py","buffer.py","partitioner.py","zarr_monitor.py"],
[("non-blocking sends before blocking receives","communicator.py"),("same collective order on all ranks","communicator.py"),("halo tags","communicator.py")],
["all Communicator methods","messages on the wire"],[("last halo tag","must stay within what MPI guarantees","communicator.py")])
p("C06","A failed exchange reports its error and does not poison later ones",
"When an allocation or a communication call fails during an exchange, the error reaches the caller of that exchange, compute-domain values and halo points outside the requested width stay intact on all ranks, and exchanges on the same communicator that every rank starts afterwards work and deliver exactly the right data.",
["fault_sequences","schedules","histories"],"all single and repeated failures at any allocation, send or receive of any rank, then any further exchanges",
"No test makes an allocation or a communication call fail.",
["communicator.py","buffer.py","_timing.py"],
[("tag per exchange","communicator.py"),("Timer.clock","_timing.py"),("send_buffer / recv_buffer","buffer.py")],
["exceptions raised by exchanges","results of later exchanges"],[("clock starts","timers running","_timing.py"),("buffer cache","recycled contiguous arrays","buffer.py")])
p("C07","Scatter and gather move every subtile's data to and from the right place",
"Scattering a tile or a whole-cube quantity gives every rank exactly its subtile of it (including shared interface points), and gathering assembles exactly the ranks' compute domains into the global quantity, so that gathering what was scattered gives back the original. Returned quantities share no memory with those passed in to be sent, never change afterwards because of later communication, and pre-allocated receive quantities change only in their compute domain. It holds for any layout, square or not, any dimension order, dtype, halo and memory layout, under any scheduling.",
["inputs","configurations","schedules","histories"],"all layouts, shapes, dtypes, sequences of scatters and gathers, and interleavings",
"The tests sample a few layouts and shapes, call ranks one after the other, and never interleave several operations that share recycled buffers.",
["communicator.py","partitioner.py","buffer.py","quantity.py"],
[("scatter / gather","communicator.py"),("subtile_slice, extents","partitioner.py"),("array_buffer","buffer.py")],
["TileCommunicator and CubedSphereCommunicator scatter / gather"])
p("C08","State scatter and gather match variables by name on every rank",
"Scattering or gathering a state dictionary transfers each variable under its own name, whatever the order in which each rank's dictionary lists its variables, and writes only the variables (and time) that were sent: other entries of a pre-allocated receive state stay as they were. Time arrives unchanged on all ranks when it is sent.",
["inputs","schedules","histories"],"all sets of variables, per-rank dictionary orders, pre-allocated states, and interleavings",
"The tests use states with one variable built in the same order on all ranks.",
["communicator.py"],
[("scatter_state / gather_state","communicator.py")],["scatter_state, gather_state"])
p("C09","The Zarr monitor stores exactly the states given, in global layout",
"After any number of successful stores by all ranks, the Zarr group contains, for every variable, time step and tile, exactly the compute-domain values of every rank's quantity at its place on the tile, with dimension names, units and decodable times. No two ranks ever write the same chunk. This holds whatever the interleaving of ranks, the layout, the variables and the order of each rank's state dictionary.",
["schedules","inputs","configurations","histories"],"all interleavings of ranks with each other and with the store, all layouts, variables and numbers of steps",
"The tests run ranks one after the other against a directory store with a few variables; races between resizing, broadcasting and writing cannot occur.",
["zarr_monitor.py","partitioner.py"],
[("ZarrMonitor.store","zarr_monitor.py"),("sync_array broadcast after resize","zarr_monitor.py"),("array_chunks","zarr_monitor.py"),("subtile_slice overlap=False","partitioner.py")],
["ZarrMonitor.store","contents of the zarr store"],[("i_time","next time index on every rank","zarr_monitor.py")])
p("C10","Stored snapshots survive later crashes and errors; failures are reported",
"Once a store call has returned on all ranks, that snapshot can be read back unchanged after the job is killed at any later instant or later store calls fail. An input/output error during a store call is raised to the caller of that rank rather than swallowed, and a state rejected because its variables (their names, dimensions, units or sizes) or its calendar differ leaves what is stored as it was. A store that failed on every rank does not affect where and how later snapshots are stored.",
["crash_points","fault_sequences","schedules"],"all instants at which the job can die and all write or read errors of the store, in all interleavings",
"No test kills a job or makes the store fail.",
["zarr_monitor.py"],
[("resize from the root rank only","zarr_monitor.py"),("one chunk per rank and time","zarr_monitor.py"),("_check_writers","zarr_monitor.py")],
["contents of the zarr store after a crash","exceptions of ZarrMonitor.store"])
p("C11","write_state and read_state round-trip or fail loudly",
"If write_state returns, a read_state of that file returns the same variables, dimensions, units and compute-domain data and the same time, unless the storage reports an error. A write that meets an error raises it; reading a file that is incomplete or cannot be read raises an error or returns the exact state, never different data.",
["fault_sequences","crash_points","inputs"],"all states, all positions of a write, close or read error, all torn prefixes left by a crash, short reads",
"There is no test of these functions under storage faults; the repository's tests do not cover torn or failing files.",
["io.py","filesystem.py","_xarray.py","quantity.py"],
[("write_state / read_state","io.py"),("filesystem.open context manager","io.py")],["write_state, read_state, exceptions"])
p("C12","open_restart gives every rank its own part of the right restart files",
"Opening a restart gives each rank, for every requested variable with restart metadata, exactly its subtile of its own tile's file with the documented name, dimensions and units, plus the date from the coupler file; labels, optional files, name filters, tracer properties and pre-allocated states are honoured, in any sequence of calls with different options. With storage faults the call fails on the ranks concerned or returns exactly the right data.",
["inputs","configurations","schedules","fault_sequences"],"all layouts, sets of files and variables, options, interleavings, and file errors",
"The tests read one C12 example with one-rank-after-the-other scheduling and no faults.",
["_legacy_restart.py","io.py","filesystem.py","communicator.py"],
[("open_restart","_legacy_restart.py"),("restart_filenames","_legacy_restart.py"),("scatter_state","communicator.py")],["open_restart"])
p("C13","Recycled buffers are never shared between overlapping users",
"While a buffer obtained from the buffer pool is in use, no other user gets the same memory, and it comes from the requested allocator, has the requested shape and dtype and is contiguous; data sent through a send buffer is what the array held, and data received through a receive buffer ends in the destination array when its context is left normally. This holds for any interleaving and nesting of uses, including ones that end with an error or whose allocation fails.",
["schedules","histories","fault_sequences"],"all interleavings and nestings of buffer uses, exceptions at any point, allocation failures",
"The tests open one or two buffers in straight-line code and never leave a context with an exception.",
["buffer.py","utils.py"],
[("array_buffer","buffer.py"),("send_buffer / recv_buffer","buffer.py")],["array_buffer, send_buffer, recv_buffer"],[("buffer cache","free buffers by allocator, shape and dtype","buffer.py")])
p("C14","Timers account for exactly the time spent, whatever happens inside",
"For every name, the reported time is the sum of the durations between matching starts and stops and the reported hits their number, for any interleaving of names, nesting, enabling, disabling and resetting, however the system's date is set meanwhile. A timed block that ends with an exception is still stopped, so the timer stays usable. Reading the totals while a clock is running warns that they are incomplete, and totals that were read stay as they were.",
["histories","fault_sequences","schedules"],"all sequences of timer operations, clock advances and exceptions inside timed blocks",
"The tests use the real clock, so durations can only be checked loosely, and no test raises inside a timed block.",
["_timing.py"],
[("Timer.start/stop/clock","_timing.py")],["Timer.times, Timer.hits"],[("clock starts","running timers","_timing.py")])
p("C15","Captured streams are captured completely and always restored",
"Everything written to the stream inside the capture, by Python or directly to its file descriptor, is in the captured output in order and nothing of it reaches the original destination; everything written before or after goes to the original destination. The stream is restored and no file descriptor is left open, however the block ends, also when nested, repeated, or interrupted by an error.",
["histories","fault_sequences"],"all sequences and nestings of writes and captures, exceptions at any point, failures to get descriptors or temporary files",
"The test captures one write to the descriptor and never raises inside the block.",
["_capture_stream.py"],
[("capture_stream","_capture_stream.py")],["captured bytes","original stream","open descriptors"])
p("C16","A model run gives the same trajectory for every layout, schedule and restart",
"A model built on the package (distributed state, vector and scalar halo updates, interface synchronisation, nudging, monitor output, checkpoints) produces bit-identical global results whatever the number of ranks per tile and the scheduling. Killed at any point and restarted from its last complete checkpoint, it continues to the same trajectory.",
["configurations","schedules","crash_points","histories"],"all layouts, interleavings, crash instants and numbers of restarts",
"Needs whole distributed executions of several components together, at several layouts, with crashes; the tests exercise components one at a time.",
["communicator.py","zarr_monitor.py","nudging.py","io.py","initialization/allocator.py","partitioner.py"],
[("halo updates","communicator.py"),("scatter_state / gather_state","communicator.py"),("ZarrMonitor","zarr_monitor.py"),("write_state / read_state","io.py"),("apply_nudging","nudging.py")],["global fields in the zarr store and gathered states"])
p("C17","The mock communicator behaves like MPI or refuses, never differs silently",
"A program of matching sends, receives, broadcasts, scatters and gathers run on the mock communicator, with ranks taking turns in any order, either gives every rank the data MPI would give it or raises an error saying the rank cannot proceed yet, after which the call can be repeated. It never silently delivers other data.",
["schedules","histories","inputs"],"all programs of communication calls and all orders of ranks",
"The comparison tests need a real MPI launch and cover a fixed list of programs in one rank order.",
["testing/dummy_comm.py"],
[("DummyComm","testing/dummy_comm.py"),("ConcurrencyError","testing/dummy_comm.py")],["data received","ConcurrencyError"])
NA=[]
def na(id,title,statement,over,text,why,files,mech,reason):
    p(id,title,statement,over,text,why,files,mech,["return values"])
    NA.append({"property":id,"reason":reason})
na("C18","Compute-domain views address exactly the documented points",
"Indexing a quantity's view, or its corner and interior views, by position or by dimension name reads and writes exactly the points documented relative to the compute domain, for every origin, extent and index.",["inputs"],"all shapes, origins, extents and indices","Tests sample a few indices.",["quantity.py","_boundary_utils.py"],[("BoundedArrayView","quantity.py")],
"A pure function of array and index: no schedule, clock, I/O, fault or second party is involved, so there is nothing for a simulator to decide (views are exercised inside C01-C03 and C16).")
na("C19","Partitioner slices tile the domain exactly and extents are inverses",
"For every layout the non-overlapping slices of all ranks cover each point of the tile exactly once, overlapping slices share exactly the interface points, and rank and tile extents are inverses of each other.",["inputs","configurations"],"all layouts, dims and extents","Tests sample small layouts.",["partitioner.py"],[("subtile_slice","partitioner.py")],
"A pure integer function of layout and extents; no nondeterminism or fault to simulate (its consequences for distributed data are checked in C07 and C09).")
na("C20","Corner filling copies the documented cells for scalars and vectors",
"Filling the corners of a quantity sets each corner halo cell to the documented source cell in the chosen direction with the documented sign, and nothing else.",["inputs"],"all shapes, halos, directions, tiles","Tests sample shapes.",["_corners.py"],[("fill_scalar_corners","_corners.py")],
"A pure local array operation without communication, time or I/O.")
na("C21","Nudging tendencies follow the relaxation formula",
"The tendency of each nudged variable equals (reference - state) / timescale over the compute domain, and applying it changes the state by tendency times the time step, leaving other variables alone.",["inputs"],"all states, timescales and steps","Tests sample values.",["nudging.py"],[("apply_nudging","nudging.py")],
"A pure function of its arguments; the simulator has nothing to vary (its use in a distributed run is part of C16).")
na("C22","Allocated quantities have the sizes the namelist and dims imply",
"Quantities made by the factories have the extent, origin and shape that grid size, layout, halo and dims imply, on every rank.",["inputs","configurations"],"all namelists, layouts and dims","Tests sample a few.",["initialization/sizer.py","initialization/allocator.py"],[("SubtileGridSizer","initialization/sizer.py")],
"A pure function of configuration without nondeterminism or faults.")
na("C23","Transposing and converting quantities preserves every value and label",
"Transposing a quantity or converting it to and from a labelled array keeps every value under the same dimension labels, and keeps units and compute domain.",["inputs"],"all shapes and dim orders","Tests sample shapes.",["quantity.py","_xarray.py"],[("Quantity.transpose","quantity.py")],
"A pure function of its argument.")
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+"\n")
json.dump(NA,open('/verif/simkit/not_applicable.json','w'),indent=1)
