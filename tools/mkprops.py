import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=[]):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=state,mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=None)))
G='include/heffte_geometry.h'; PL='src/heffte_plan_logic.cpp'; R='src/heffte_reshape3d.cpp'; RH='include/heffte_reshape3d.h'; PK='include/heffte_pack3d.h'
CT='src/heffte_compute_transform.cpp'; U='include/heffte_utils.h'; F3='include/heffte_fft3d.h'; FR='include/heffte_fft3d_r2c.h'
p('C01','Index boxes behave as sets of grid points',
 'A box denotes the set of 3D grid points between its inclusive corners. Intersection contains exactly the common points, emptiness and point count are exact, equality compares the sets of corners, the real-to-complex shrink keeps exactly the first floor(n/2)+1 points of the chosen dimension, and the memory-order queries (size by storage position, position of a dimension, stride and number of 1-D lines along a dimension) describe the storage order given to the box.',
 ['inputs'],'for every pair of boxes (any corners, any storage order, empty boxes included) and every dimension',
 'Unit tests compare a few dozen hand-written boxes; no test fixes every corner/ordering/emptiness combination, yet all of the data movement is computed from these functions.',
 [G],[('box3d members','include/heffte_geometry.h box3d'),('fft1d_get_howmany / fft1d_get_stride','include/heffte_geometry.h')],
 ['return values of box3d methods'])
p('C02','Splitting a world over a process grid tiles it exactly',
 'Splitting a non-empty world box by a process grid returns one box per grid cell in first-index-fastest order; the boxes are pairwise disjoint, together contain every point of the world and nothing else, carry the world storage order, and sizes along each dimension differ by at most one. When only a subset of the ranks participates, participating ranks get those same boxes and all the others get empty boxes.',
 ['inputs'],'for every world, every process grid and every participation map',
 'Tests split a handful of small cubes; remainders, non-zero origins, grids larger than the world and participation maps are sampled at a few points only.',
 [G],[('split_world','include/heffte_geometry.h'),('rank_remap','include/heffte_geometry.h')],['returned vector of boxes'])
p('C03','Process grids multiply to the rank count and fit the world',
 'Every process grid that the library selects has positive factors whose product is exactly the number of ranks. The world-constrained selections never use more ranks along a dimension than there are points, choose a best grid under their documented criterion among the admissible ones, and fail only if no admissible grid exists.',
 ['inputs'],'for every rank count and every world size',
 'Tests evaluate the grid selection at a few rank counts with cubic worlds; admissibility and optimality are statements about all factorizations.',
 [G],[('get_factors, make_procgrid, make_procgrid2d, proc_setup_min_surface','include/heffte_geometry.h')],['returned grid, exceptions'])
p('C04','Intermediate pencil and slab layouts are a permutation of a valid tiling',
 'A pencil or slab layout built for a transform stage assigns to the ranks exactly the boxes of one tiling of the world: each tile goes to exactly one participating rank, non-participating ranks stay empty. Every tile spans the complete requested dimension (both dimensions for slabs) and all boxes carry the requested storage order; a source layout that already has the requested pencil shape is kept rank by rank.',
 ['inputs'],'for every world, source layout, number of ranks, dimension choice, storage order and participation map',
 'The greedy overlap assignment is a search over all tiles; a tile handed out twice or dropped shows only for particular overlaps, sizes and rank counts.',
 [G],[('maximize_overlap','include/heffte_geometry.h'),('make_pencils, make_slabs, reorder','include/heffte_geometry.h')],['returned vector of boxes'])
p('C05','Invalid box layouts and short buffers are rejected, valid ones accepted',
 'A set of per-rank boxes is accepted exactly when the boxes start at index zero, do not overlap and fill their bounding world; the bounding world is the smallest box containing all of them. Input and output layouts of different worlds (for a real transform: where the output world is not the shrunk input world), invalid real-to-complex dimensions, and containers that are too small are rejected with an exception instead of computing.',
 ['inputs'],'for every list of boxes and every container size',
 'Tests feed a few bad layouts; acceptance is a statement about all layouts of all sizes.',
 [G,PL,F3,FR],[('find_world, world_complete, match','include/heffte_geometry.h'),('size checks in forward/backward','include/heffte_fft3d.h, include/heffte_fft3d_r2c.h')],['exceptions / returned flag'])
p('C06','A transform plan is a valid chain of layouts',
 'For every valid pair of input and output layouts and every option set, the plan starts from the input layout and ends in the output layout, transforms each of the three dimensions exactly once, and at the stage for a dimension every participating rank holds complete lines along it, contiguous in memory when reordering is requested. All intermediate layouts tile the world (the real-to-complex shrunk world after the first stage of a real transform, whose dimension is always transformed first) and the normalization constant is the number of real-space points.',
 ['inputs','configurations'],'for all input/output layouts, storage orders, rank counts, sub-rank settings, pencil/slab and reorder options, and real-to-complex directions',
 'The planner has dozens of branches selected by geometric predicates over all ranks; tests reach a few of them with small rank counts.',
 [PL,'include/heffte_plan_logic.h'],[('plan_pencil_reshapes, plan_slab_reshapes, next_pencils_shape(0), reorder_slabs, apply_r2c, new_order','src/heffte_plan_logic.cpp')],['logic_plan3d returned by plan_operations'])
p('C07','Packing and unpacking move exactly the addressed block',
 'Packing copies the strided block of the source array described by a plan to consecutive positions of the buffer, fastest index first, and unpacking is its exact inverse; with a transposing plan, unpacking places each element at the position given by the permuted storage order for each of the six permutations. No element outside the addressed positions is written and the source is unchanged.',
 ['inputs'],'for all block sizes (including zero and sizes that are not multiples of the cache block), strides, permutations and element types',
 'Tests pack a few fixed small boxes; the blocked transposition loops have boundary cases at every size and permutation.',
 [PK],[('direct_packer, transpose_packer','include/heffte_pack3d.h')],['contents of destination arrays'])
p('C08','Overlap maps send every grid point once, to the right place',
 'For any two layouts of the same world, the send list of a rank contains exactly the ranks whose box intersects its own, each with the exact offset, strides and count of the intersection in local storage; the receive list is built symmetrically so that the count rank A prepares for B equals the count B expects from A. For layouts with different storage orders the plan permutes each block to the receiver order.',
 ['inputs','configurations'],'for every pair of layouts, every rank, every number of ranks and every pair of storage orders',
 'Tests check a few fixed layouts on 4-12 ranks; offsets, strides and permutation maps must be right for every geometry.',
 [R,RH],[('compute_overlap_map_direct_pack, compute_overlap_map_all2all_pack, compute_overlap_map_transpose_pack, count_collisions, get_max_size','src/heffte_reshape3d.cpp')],['send/recv lists and pack plans'])
p('C09','Communication groups are closed and agreed on by all members',
 'The group a rank computes for a collective exchange is the sorted connected component of that rank in the graph that links ranks whose input and output boxes intersect, so every member computes the identical group and no needed partner is missing. Per-member counts and displacements passed to the collective match the lists of the overlap maps: each partner slot refers to that partner message, and absent partners have zero counts.',
 ['inputs','configurations'],'for every pair of layouts, rank and rank count, including idle ranks',
 'A missing or differing member makes the collective hang or scatter data only for particular sparse connectivity; tests use dense small cases.',
 [R,RH],[('a2a_group','src/heffte_reshape3d.cpp'),('iotripple','include/heffte_reshape3d.h'),('new_comm_from_group','include/heffte_utils.h')],['group list, counts, displacements'])
p('C10','Redistribution delivers every element to its new owner',
 'Applying a redistribution between two layouts leaves, on every rank and for every batch entry, each point of its output box at the position given by the output storage order with the value its input owner held, for every exchange algorithm and for every order in which messages complete. Only the destination range and the reported workspace are written, so source and destination may be the same array where the pipeline uses them so.',
 ['inputs','schedules','configurations'],'for all layouts, batch sizes, algorithms, storage orders and message completion orders',
 'Tests run one machine schedule on a few layouts with batch one or two; offsets within multi-batch buffers and completion order are not enumerated.',
 [R,RH],[('reshape3d_alltoall, reshape3d_alltoallv, reshape3d_pointtopoint apply_base and factories, reshape3d_transpose, make_reshape3d','src/heffte_reshape3d.cpp, include/heffte_reshape3d.h')],['destination array after apply'])
p('C11','The transform pipeline runs every stage once, in order, on the right data',
 'Forward and backward execution apply, for each batch entry, the planned redistributions and 1-D transforms in plan order (reverse order for backward), each exactly once, on the data produced by the previous stage, and leave the result in the output array; the input array is not modified unless it is also the output. This holds for every combination of inactive redistributions and idle ranks, in-place and out-of-place, and real or complex data.',
 ['inputs','configurations'],'for every subset of active redistributions, every set of missing executors, every batch size, in-place and out-of-place',
 'Which of the sixteen activity patterns occurs depends on layouts and rank counts; combined with batches, directions and in-place use only a few are tested.',
 [CT,U],[('compute_transform (three variants)','src/heffte_compute_transform.cpp'),('get_last_active, count_active','include/heffte_utils.h')],['sequence of executor/reshape applications and buffers'])
p('C12','The reported workspace is always sufficient and never aliased',
 'With a caller-provided workspace of batch size times the reported size, every access of the pipeline and of the redistributions stays inside the workspace, and regions in simultaneous use (packed sends, received data, intermediate data, transform scratch) do not overlap. The same holds for the user arrays with the reported input and output box sizes.',
 ['inputs','configurations'],'for all plans, executors sizes, active patterns and batch sizes',
 'Overruns depend on the maximum over stages, algorithms and batch; tests use generously shared buffers and would not notice silent overlap.',
 [CT,RH,R,F3,FR,U],[('get_workspace_size, get_max_box_size(_r2c), get_max_work_size, setup','include/heffte_utils.h, include/heffte_reshape3d.h, include/heffte_fft3d.h, include/heffte_fft3d_r2c.h')],['offsets and extents of buffer accesses'])
p('C13','Each 1-D stage transforms every line of the box exactly once',
 'For any box, storage order and dimension, the transforms issued by a CPU backend stage use exactly the addresses of the 1-D lines of the box along that dimension: each stored element belongs to exactly one transformed line, lines have the length of the box along the dimension and correct stride, and nothing outside the box is touched. Real-to-complex stages read lines of the real box and write lines of the shrunk complex box with matching line indices; two- and three-dimensional stages cover the requested dimensions.',
 ['inputs','configurations'],'for every box size, storage order, dimension, precision and CPU backend',
 'Tests run small boxes in a few orders; the strided middle-dimension and the vector-batched remainder branches depend on sizes and lane counts.',
 ['include/heffte_backend_stock.h','include/heffte_backend_fftw.h','include/heffte_backend_mkl.h'],[('stock_fft_executor(_r2c), plan_stock_fft','include/heffte_backend_stock.h'),('fftw_executor(_r2c), plan_fftw','include/heffte_backend_fftw.h'),('mkl_executor(_r2c), plan_mkl','include/heffte_backend_mkl.h')],['element addresses passed to 1-D transforms'])
p('C14','Scaling multiplies every output entry once by the documented factor',
 'Full scaling multiplies every entry of the result by one over the total number of real-space points (with the transform-specific constant for cosine and sine types), symmetric scaling by its square root, and no scaling leaves the result unchanged. It is applied to all entries of all batch items of the output of the executed direction and to nothing else.',
 ['inputs'],'for all sizes, batches, directions, scalings and real or complex data',
 'Tests check a few sizes with full scaling; coverage of every entry for batched and complex data is not settled by samples.',
 [F3,FR,PK],[('get_scale_factor, apply_scale','include/heffte_fft3d.h, include/heffte_fft3d_r2c.h'),('data_scaling::apply','include/heffte_pack3d.h')],['output array, returned factor'])
p('C15','Cosine and sine transforms use the exact symmetric extension',
 'The pre-processing of the cosine and sine backends builds for every line exactly the even/odd symmetric extension of the data, and the post-processing extracts exactly the coefficients of the corresponding real transform; forward followed by backward with full scaling reproduces the input. Each line is extended in its own buffer segment.',
 ['inputs'],'for every line length and every line content',
 'Boundary terms depend on length parity; tests try a few lengths.',
 ['include/heffte_r2r_executor.h'],[('cpu_cos_pre_pos_processor, cpu_sin_pre_pos_processor, cpu_cos1_pre_pos_processor','include/heffte_r2r_executor.h'),('real2real_executor','include/heffte_r2r_executor.h')],['extended buffers and extracted lines'])
p('C16','The built-in FFT decomposes every length into a consistent plan',
 'For every transform length the built-in backend builds a tree of sub-transforms in which each composite node factors its length exactly, pure powers and other lengths use matching kernels, child links are consistent and inside the allocated plan, and prime lengths beyond the direct kernel use the prime algorithm only with a true prime and a generator of its multiplicative group.',
 ['inputs'],'for every transform length',
 'Tests build trees for a few lengths; a wrong factor or a pseudo-prime appears only at particular (large) lengths.',
 ['include/stock_fft/heffte_stock_tree.h','include/stock_fft/heffte_stock_algos.h'],[('factor, power, getNumNodes, init_fft_tree, biFuncNode','include/stock_fft/heffte_stock_tree.h'),('modPow, primeRoot','include/stock_fft/heffte_stock_algos.h')],['plan tree'])
p('C17','The built-in FFT kernels compute the discrete Fourier transform',
 'In exact arithmetic each kernel of the built-in backend, for every length it is used for, every input and output stride and both directions, writes the discrete Fourier transform of its strided input to its strided output, reading and writing nothing else.',
 ['inputs'],'for every length, stride and input',
 'Tests compare selected lengths with one data set.',
 ['include/stock_fft/heffte_stock_algos.h','include/stock_fft/heffte_stock_tree.h'],[('pow2_FFT, pow3_FFT, pow4_FFT, composite_FFT, rader_FFT, DFT','include/stock_fft/heffte_stock_algos.h')],['output array of a kernel'])
p('C18','Vectorized complex arithmetic equals scalar arithmetic lane by lane',
 'Loading, storing, adding, subtracting, multiplying, dividing, conjugating, negating and rotating packed complex numbers gives in every lane the same value, in exact arithmetic, as the scalar complex operation on that lane, for every precision and lane count of the built-in backend.',
 ['inputs'],'for all operand values, every precision and every vector width',
 'Tests use a couple of values per operation; a wrong shuffle or sign in one lane shows only when that lane holds a distinguishing value.',
 ['include/stock_fft/heffte_stock_complex.h','include/stock_fft/heffte_stock_vec_types.h'],[('stock::Complex','include/stock_fft/heffte_stock_complex.h'),('mm_* functions','include/stock_fft/heffte_stock_vec_types.h')],['lanes of the result'])
p('C19','The C interface is a faithful front end',
 'Creating a plan through the C interface builds the same transform as the C++ interface with the given backend, boxes, orders, dimension and options, and each compute call runs the direction, precision, batch and scaling requested on that plan. Sizes are those of the plan; invalid requests return the documented error codes, no exception crosses the interface and a failed creation leaves a null plan.',
 ['inputs','configurations'],'for every backend code, option set, type, direction and scaling code, valid or not',
 'Tests call the C interface for a few configurations; a swapped argument or code mapping shows only in the untested cell of the table.',
 ['src/heffte_c.cpp','include/heffte_c.h','include/heffte_c_defines.h'],[('heffte_plan_create, heffte_forward/backward, option mapping','src/heffte_c.cpp')],['return codes, created plan and call made on it'])
p('C20','All ranks learn the same ordered list of boxes',
 'Collecting the per-rank input and output boxes gives every rank the same two lists, where entry r of each list equals (corners and storage order) the box that rank r supplied, for any number of ranks.',
 ['inputs','configurations'],'for every rank count and boxes',
 'Interleaving mistakes depend on rank count; tests use a few.',
 [G],[('mpi::gather_boxes','include/heffte_geometry.h')],['gathered lists'])
p('C21','Floating-point results are accurate to working precision',
 'The computed transform differs from the exact transform by no more than a small multiple of the unit roundoff times a slowly growing function of the problem size.',
 ['inputs'],'for every input and size','Tests compare with fixed tolerances on a few random inputs.',
 ['include/heffte_backend_stock.h','include/stock_fft/heffte_stock_algos.h'],[('numerical kernels','include/stock_fft')],['output values'])
p('C22','Collective calls cannot deadlock',
 'If all ranks of the communicator enter the same plan operation, all of them eventually leave it, for every MPI progress behaviour permitted by the standard.',
 ['schedules','configurations'],'for all layouts, rank counts and schedules','A run samples one schedule of one MPI implementation.',
 [R,RH],[('exchange algorithms','src/heffte_reshape3d.cpp')],['completion of apply'])
with open('/verif/properties.jsonl','w') as f:
    for x in P:
        assert len(x['title'])<=80,(x['id'],len(x['title']))
        f.write(json.dumps(x)+'\n')
print(len(P))
