"""Every property: its statement, the obligation groups that decide it, and how assurance is described.

gen.py writes properties.jsonl and MANIFEST.json from this table."""
from props import matrix as M, iterate as I, graph as G, codec as D, compress as Z, capi as F, abi as H, pyapi as Q, surface as S, errors as X
from props.graph import SG, CG

MATF = ['graphrox-rs/src/matrix/csr_adjacency_matrix.rs', 'graphrox-rs/src/matrix/csr_square_matrix.rs']
STD = 'graphrox-rs/src/graph/standard.rs'
CMP = 'graphrox-rs/src/graph/compressed.rs'
UTL = 'graphrox-rs/src/util/mod.rs'
CLIB = 'graphrox-c/src/lib.rs'
CHDR = 'graphrox-c/gphrx.h'
PY = 'graphrox-py/graphrox/__init__.py'
def mech(*ps): return [{'name': n, 'where': w} for n, w in ps]
A_, S_ = MATF

VG = ('Abstract interpretation of the compiler-lowered (MIR) source into a gated value graph; loops become closed-form '
      'recurrences; two value graphs are compared by normalisation with a linear-arithmetic domain. ')
TECH = 'abstract interpretation of MIR: gated value graphs compared with a contract, linear-arithmetic domain'
LN = ('Decides the stated relation for every input and every prior state from the source alone; assumes the std-library models '
      '(hash tables, vectors, integers) listed in DESIGN.md. Constructs outside the analysed fragment are reported as UNDECIDED, not as alarms.')
MA = ['std HashMap/HashSet/Vec/Option behave as modelled', 'tables hold fewer than 2^61 entries (memory)']

def mgroups(asp, *more):
    def g(ck, W):
        K_ = M.ALL
        M.o_new(ck, W, K_, asp); M.o_set(ck, W, K_, asp); M.o_zero(ck, W, K_, asp); M.o_inc(ck, W, K_, asp)
        M.o_mind(ck, W, K_, asp); M.o_mul(ck, W, asp); M.o_clone(ck, W, K_)
    return g
def adjgroups(asp):
    def g(ck, W):
        K_ = ['adj']
        M.o_new(ck, W, K_, asp); M.o_set(ck, W, K_, asp); M.o_zero(ck, W, K_, asp); M.o_get(ck, W, K_)
    return g
def sqgroups(kinds, asp):
    def g(ck, W):
        M.o_new(ck, W, kinds, asp); M.o_set(ck, W, kinds, asp); M.o_get(ck, W, kinds); M.o_inc(ck, W, kinds, asp)
    return g
def getg(ck, W): M.o_get(ck, W, M.ALL)
def iters(kinds=None):
    def g(ck, W):
        I.o_into(ck, W, kinds or M.ALL); I.o_next(ck, W, kinds or M.ALL)
    return g
def gasp(*asp):
    def g(ck, W):
        G.o_new(ck, W, asp); G.o_add_edge(ck, W, asp); G.o_del_edge(ck, W, asp); G.o_add_vertex(ck, W, asp); G.o_from(ck, W, asp)
    return g
def dcs(f, *a): return lambda ck, W: f(ck, W, *a)

PROPS = {}
def P(id, title, statement, over, text, why, files, mechanism, groups, rule, tech=TECH, note=LN, assume=MA, mir=True, level='other', na=None):
    PROPS[id] = dict(title=title, statement=statement, over=over, text=text, why=why, files=files, mechanism=mechanism,
                     groups=groups, rule=rule, tech=tech, note=note, assume=assume, mir=mir, level=level, na=na)

P('C01', 'Reported entry and edge counts always equal what is stored',
  'After any sequence of operations, the entry count of a matrix equals the number of entries stored in it, namely those set to a nonzero value or incremented and not since cleared. '
  'A graph\'s edge count is the entry count of its matrix, with an undirected edge between distinct vertices counted in both directions.',
  ['histories', 'inputs'], 'every sequence of constructors and mutators, every coordinate and value, every element type',
  'The counter is maintained incrementally; tests sample a few histories, while a missed or doubled update needs a particular overwrite/clear sequence.',
  MATF + [STD], mech(('count updated with the entry table', A_ + ': set_entry, zero_entry'), ('same for square matrices', S_ + ': set_entry, increment_entry, zero_entry'), ('edge count', STD + ': edge_count')),
  [mgroups({'count'}), gasp('count'), G.o_queries], VG + 'Rule: every mutator changes the counter by exactly the change in the set of stored entries (inductive step), constructors start at zero.')

P('C02', 'A matrix entry reads back what was last written to it',
  'Reading any coordinate of a matrix returns the value last written there by setting, incrementing, scaling or clearing it, and zero if there is none. '
  'Writing one coordinate never changes any other; an adjacency matrix stores every nonzero value as one.',
  ['histories', 'inputs'], 'every sequence of operations on every matrix type, every pair of written and read coordinates, every value',
  'Frame conditions quantify over all other coordinates and all prior states, of which tests read a few.',
  MATF, mech(('column/row table writes', A_ + ': set_entry, zero_entry, get_entry'), ('column/row table writes', S_ + ': set_entry, zero_entry, increment_entry, multiply_entries_by, get_entry')),
  [mgroups({'value'}), getg], VG + 'Rule: the observer after each mutator, at an unknown coordinate of an unknown matrix, equals the specified selection between the written value and the observer before.')

P('C03', 'Dimension is one more than the largest index used, and never shrinks',
  'Setting or incrementing an entry, even to zero, raises a matrix\'s dimension to at least one more than both indices and changes it in no other way; clearing and scaling leave it unchanged, and the index 2^64-1 is ignored without effect. '
  'A graph\'s vertex count is its matrix\'s dimension, and adding a vertex makes the vertex count exceed that vertex.',
  ['histories', 'inputs'], 'every operation on every matrix or graph, including indices at the integer limits',
  'Tests use small indices in increasing order; the bound must hold for every pair of indices and prior dimension, including the extreme ones.',
  MATF + [STD], mech(('dimension update', A_ + ': set_entry'), ('dimension update', S_ + ': set_entry, increment_entry, set_minimum_dimension'), ('vertex without edges', STD + ': add_vertex')),
  [mgroups({'dim'}), gasp('vertices'), G.o_queries], VG + 'Rule: the dimension observer after each mutator equals the maximum of the old dimension and both indices plus one.')

P('C04', 'Iteration yields every stored entry exactly once',
  'Iterating over a matrix or a graph yields every stored entry exactly once, with its own coordinates and current value, yields nothing else, and then ends. '
  'The number of items equals the reported entry count.',
  ['inputs', 'histories'], 'every matrix and graph reachable by any history, including ones with emptied columns',
  'The iterator walks two nested tables with a resumable state; tests iterate over a few small matrices without emptied or single-entry columns.',
  MATF + [STD], mech(('two-level iterator', A_ + ': CsrAdjacencyMatrixIter::next'), ('two-level iterator', S_ + ': CsrSquareMatrixIter::next'), ('graph iterator', STD + ': StandardGraphIter::next')),
  [iters(), dcs(I.o_over, M.ALL), G.o_iter, mgroups({'count', 'dim'})], VG + 'Rule: simulation between the iterator state (unknown position) and the list of entries still to come: a yielded item is its head, a silent round leaves it unchanged, the end is reported only when it is empty.')

P('C05', 'An undirected graph is symmetric after every history',
  'In an undirected graph the edge from a to b exists exactly when the edge from b to a exists, however the graph was made: constructed, built from a matrix, edited, decoded, approximated, decompressed or cloned. '
  'The only exceptions are the constructors documented as unchecked and builders documented as leaving this to the caller.',
  ['histories', 'inputs'], 'every safe way of creating or changing a graph, for every pair of vertices',
  'Symmetry must survive every operation sequence; tests check it on single operations with distinct small vertices.',
  [STD, CMP] + MATF, mech(('mirrored writes', STD + ': add_edge, delete_edge'), ('symmetry check', STD + ': undirected_from'), ('decoding through add_edge', STD + ': try_from')),
  [G.o_symm, adjgroups({'value'})], VG + 'Rule: every function of the crate that returns or mutates a graph is enumerated from the type-checked program, and for each the resulting matrix is symmetric given symmetric inputs (induction over loop rounds and mirrored writes).')

P('C06', 'Graph edits change exactly the named edges and vertices',
  'Adding an edge, deleting an edge or adding a vertex with a list of targets adds or removes exactly the named edges (with their reverses when the graph is undirected) and leaves all other edges as they were. '
  'Deleting an edge never reduces the vertex count, and adding a vertex adds it even when no targets are given.',
  ['histories', 'inputs'], 'every graph, every vertex pair and every target list',
  'The frame condition ranges over all other edges of an arbitrary graph; tests look at a handful of edges in fresh graphs.',
  [STD, A_], mech(('edge edits', STD + ': add_edge, delete_edge, add_vertex'), ('entry writes', A_ + ': set_entry, zero_entry')),
  [gasp('edges', 'vertices', 'dir'), adjgroups({'value', 'dim'})], VG + 'Rule: existence of an unknown edge after each edit equals the specified selection between the edit and existence before; lists are folded edge by edge.')

P('C07', 'Edge queries, neighbour lists and degrees agree',
  'The out-neighbours of a vertex are exactly the targets of its existing edges, each once, and the in-neighbours exactly the sources of edges to it; degrees are the lengths of these lists. '
  'Queries about vertices outside the graph report no edges and never fail.',
  ['inputs', 'histories'], 'every graph and every vertex, inside the graph or not',
  'Agreement between four query paths (column table, row scan, counts, membership) has to hold for every graph; tests compare hand-picked ones.',
  [STD, A_], mech(('column and row vectors', A_ + ': get_sparse_col_vector, get_sparse_row_vector, col_nonzero_entry_count, row_nonzero_entry_count'), ('queries', STD + ': does_edge_exist, get_vertex_in_edges, get_vertex_out_edges, degrees')),
  [G.o_queries, G.o_vectors, adjgroups({'value', 'count'})], VG + 'Rule: each query on an unknown graph equals the value derived from the stored entries.')

P('C08', 'Graph bytes follow the documented layout',
  'The bytes of a graph are a 26-byte header (magic number, version 1, dimension, edge count, direction flag, weighted flag zero; all big-endian) followed by one 16-byte source/target record for every edge and nothing else. '
  'Every graph whose buffer can be allocated is encoded.',
  ['inputs'], 'every graph, for every header field and every record',
  'Byte positions, widths and endianness of every field for every value cannot be covered by comparing a few encodings with themselves through the decoder.',
  [STD, A_], mech(('encoder', STD + ': to_bytes'), ('record iteration', A_ + ': CsrAdjacencyMatrixIter::next')),
  [dcs(D.o_layout, SG), dcs(D.o_capacity, SG), iters(['adj']), adjgroups({'count'})], VG + 'Rule: the produced byte sequence, as a symbolic concatenation over an unknown graph, equals the documented layout.')

P('C09', 'The graph decoder accepts exactly well-formed bytes and rebuilds the graph',
  'Decoding succeeds exactly when the bytes have the documented header, the exact length for their edge count, all edges inside the declared dimension and as many distinct edges as declared. '
  'The decoded graph then has the encoded direction, dimension and edges, so decoding the encoding of any graph gives an equal graph.',
  ['inputs'], 'every byte string of every length',
  'Malformed inputs differ from well-formed ones in any field or record; tests corrupt a few fields of a few encodings.',
  [STD, A_], mech(('decoder', STD + ': try_from'), ('encoder', STD + ': to_bytes')),
  [dcs(D.dec_std, {'accept', 'rebuild'}), dcs(D.o_layout, SG), iters(['adj']), adjgroups({'value', 'count', 'dim'})], VG + 'Rule: the acceptance condition of the decoder, over an unknown byte string, is equivalent to the well-formedness predicate, and the decoded graph equals the fold of the records.')

P('C10', 'Compressed graph bytes follow the documented layout',
  'The bytes of a compressed graph are a 42-byte header (magic number, version 2, matrix dimension, entry count, edge count, vertex count, direction flag, compression level; all big-endian) followed by one 24-byte block/column/row record for every stored block and nothing else. '
  'Every compressed graph whose buffer can be allocated is encoded.',
  ['inputs'], 'every compressed graph, for every header field and every record',
  'As for graphs: every field at every value, which round trips through the project\'s own decoder cannot settle.',
  [CMP, S_], mech(('encoder', CMP + ': to_bytes'), ('record iteration', S_ + ': CsrSquareMatrixIter::next')),
  [dcs(D.o_layout, CG), dcs(D.o_capacity, CG), iters(['u64']), sqgroups(['u64'], {'count'})], VG + 'Rule: the produced byte sequence, as a symbolic concatenation over an unknown compressed graph, equals the documented layout.')

P('C13', 'Encoders report capacity problems as errors, never abort',
  'Encoding a graph or compressed graph computes the exact buffer size with overflow detection and reserves it fallibly, so that an unrepresentable or unallocatable size is returned as an error value. '
  'When the reservation succeeds the encoding succeeds without further allocation.',
  ['inputs', 'fault_sequences'], 'every graph size and every allocation failure',
  'Allocation failure and size overflow cannot be provoked by unit tests.',
  [STD, CMP], mech(('fallible reservation', STD + ': to_bytes'), ('fallible reservation', CMP + ': to_bytes')),
  [dcs(D.o_capacity, SG), dcs(D.o_capacity, CG)], VG + 'Rule: allocation events on every path: the only data-sized allocation is a fallible reservation of the exact encoding size, guarded by checked arithmetic.')

P('C11', 'The compressed decoder accepts exactly well-formed bytes and rebuilds',
  'Decoding a compressed graph succeeds exactly when the bytes have the documented header, the exact length, a level within 1 to 64, distinct blocks inside the declared dimension with no edge outside the vertex count, a matching edge count, and symmetric edges when undirected. '
  'The decoded graph has the encoded direction, counts, level and edges, so decoding the encoding of a compressed graph gives an equal graph.',
  ['inputs'], 'every byte string of every length',
  'Malformed inputs differ in any header field or record, and in relations between records; tests corrupt a few fields of a few encodings.',
  [CMP, S_], mech(('decoder', CMP + ': try_from'), ('encoder', CMP + ': to_bytes')),
  [dcs(D.dec_cmp, {'accept', 'rebuild'}), dcs(D.o_layout, CG), iters(['u64']), sqgroups(['u64'], {'value', 'count', 'dim'})],
  VG + 'Rule: the acceptance condition of the decoder, over an unknown byte string, is equivalent to the well-formedness predicate, and the decoded graph equals the fold of the records.')

P('C12', 'Decoders never panic and never allocate from untrusted counts',
  'Decoding any byte string, as a graph or as a compressed graph, returns a graph or an error: it never panics, indexes out of bounds or overflows, and it never allocates memory in proportion to a count in the header that the length of the input does not back.',
  ['inputs'], 'every byte string of every length, every header field value',
  'Adversarial counts and lengths near the integer limits are a vast input space of which tests try a few.',
  [STD, CMP], mech(('decoder', STD + ': try_from'), ('decoder', CMP + ': try_from')),
  [dcs(D.dec_std, {'panic'}), dcs(D.dec_cmp, {'panic'})],
  VG + 'Rule: every panic site (bounds check, overflow check, slice conversion, unwrap) and every allocation on every path is enumerated with its guard, and shown unreachable or bounded by the input length.')

P('C14', 'Compressed edge queries read the bit of the edge in its block',
  'An edge from a to b exists in a compressed graph exactly when bit (b mod 8)*8 + (a mod 8) of the block at column a/8 and row b/8 is set, the layout that compression writes and decompression reads. '
  'The query works for every pair of vertices, inside the graph or not, and reading a block returns the stored block or zero.',
  ['inputs'], 'every compressed graph and every pair of vertices',
  'An offset that is wrong for some rows, columns or distant blocks shows only on particular vertex pairs.',
  [CMP, STD, S_], mech(('edge query', CMP + ': does_edge_exist'), ('block layout', CMP + ': decompress'), ('block layout', STD + ': compress'), ('block lookup', S_ + ': get_entry')),
  [Z.o_query, Z.o_decompress, Z.o_compress, sqgroups(['u64'], {'value'})],
  VG + 'Rule: the query, on an unknown compressed graph, equals the specified bit of the specified block.')

P('C15', 'Compression keeps exactly the blocks with at least level edges',
  'Compressing a graph keeps an 8x8 block of its adjacency matrix losslessly exactly when it contains at least as many edges as the level (clamped to 1..64), and drops every other block. '
  'Direction, vertex count and level are recorded, and the edge count is the number of edges in kept blocks. Compression at level 1 loses nothing.',
  ['inputs'], 'every graph, every level 0..255, every number of edges in a block, graphs smaller than one block included',
  'Threshold arithmetic on floating-point averages, partial blocks at the border and small graphs are combinations that tests sample sparsely.',
  [STD, CMP, S_, A_, UTL], mech(('compression', STD + ': compress'), ('average pooling', STD + ': find_avg_pool_matrix'), ('builder', CMP + ': add_compressed_matrix_entry'), ('level clamp', UTL + ': clamp_compression_level')),
  [Z.o_compress, Z.o_pool, Z.o_builder, iters(['adj', 'f64']), adjgroups({'value', 'count'}), sqgroups(['u64'], {'value', 'dim'})],
  VG + 'Rule: the compressed matrix equals the specified fold over the blocks; the extracted block guard is constant-folded over its whole finite domain (level x block size x number of edges).')

P('C16', 'Decompression restores exactly the edges of the kept blocks',
  'Decompressing a compressed graph gives a graph of the same direction and vertex count whose edges are exactly those set in its blocks (and, when undirected, their reverses), so a graph compressed at level 1 and decompressed is the original.',
  ['inputs'], 'every compressed graph whose blocks lie inside its vertex count',
  'All 64 bit positions at all block positions must be mapped right, including the last partial block; tests decompress a few graphs.',
  [CMP, STD, S_], mech(('decompression', CMP + ': decompress'), ('block iteration', S_ + ': CsrSquareMatrixIter::next')),
  [Z.o_decompress, Z.o_compress, iters(['u64']), adjgroups({'value', 'count', 'dim'}), gasp('edges', 'vertices', 'dir', 'count')],
  VG + 'Rule: the resulting adjacency matrix equals the fold, over an unknown block list, of the 64 guarded edge insertions.')

P('C17', 'The compressed-graph builder keeps its books',
  'A new builder records direction, vertex count and the level clamped to 1..64, with a block matrix of one row and column per eight vertices. '
  'Adding a block overwrites the block at its position, adds the given hamming weight or else the number of set bits to the edge count (stopping at the maximum), and finishing returns a graph reporting exactly these.',
  ['inputs', 'histories'], 'every builder state, level, block value, position and weight',
  'The accumulated edge count and dimension depend on the whole history of additions.',
  [CMP, UTL, S_], mech(('builder', CMP + ': CompressedGraphBuilder'), ('level clamp', UTL + ': clamp_compression_level')),
  [Z.o_builder, sqgroups(['u64'], {'value', 'count', 'dim'})],
  VG + 'Rule: constructor, addition and finish on an unknown builder equal the specified state, observed through the public queries.')

P('C18', 'Average pooling gives the edge density of every block',
  'The average pool matrix has one row and column per started group of block-dimension vertices (the block dimension being clamped to between one and the vertex count), and each entry is the number of edges in its block divided by the block area, with no entry for blocks without edges. '
  'The pool matrix of an empty graph is empty.',
  ['inputs'], 'every graph and every block dimension from 0 to 2^64-1',
  'Padding, clamping and index arithmetic interact at sizes tests do not visit.',
  [STD, S_, A_], mech(('average pooling', STD + ': find_avg_pool_matrix'), ('increment and scale', S_ + ': increment_entry, multiply_entries_by')),
  [Z.o_pool, iters(['adj']), adjgroups({'count', 'dim'}), sqgroups(['f64'], {'value', 'dim', 'count'}), dcs(M.o_mul, {'value', 'dim', 'count'}), dcs(M.o_mind, ['f64'], {'dim'})],
  VG + 'Rule: dimension, count and an unknown entry of the result equal those of the specified fold of increments over the edges, scaled by the reciprocal block area.')

P('C19', 'Approximation keeps an edge per block that meets the threshold',
  'Approximating a graph gives a graph of the same direction with one vertex per started block and an edge for exactly the blocks whose density is at least the threshold, clamped to 10^-18..1 (both directions when undirected). '
  'With a block dimension of at most one, or at most one vertex, the result equals the original graph.',
  ['inputs'], 'every graph, block dimension and (non-NaN) threshold',
  'Clamping, border blocks and the comparison at equality need particular combinations of graph size, block size and threshold.',
  [STD, UTL, S_], mech(('approximation', STD + ': approximate'), ('threshold clamp', UTL + ': clamp_threshold'), ('average pooling', STD + ': find_avg_pool_matrix')),
  [Z.o_approx, Z.o_pool, iters(['adj', 'f64']), adjgroups({'value', 'count', 'dim'}), sqgroups(['f64'], {'value', 'dim', 'count'}), G.o_clone],
  VG + 'Rule: the result equals the specified fold over the pooled blocks; the extracted decision is compared with the specified one in every cell of the order arrangement of density, threshold and constants.')

P('C20', 'Out-of-range parameters act as the nearest allowed value',
  'A compression level of 0 acts as 1 and a level above 64 as 64; a block dimension of 0 acts as 1 and one above the vertex count as the vertex count; an approximation threshold at or below zero acts as 10^-18 and one above 1 as 1. '
  'The result is the same as for the nearest allowed value, for pooling, approximation, compression and the builder.',
  ['inputs'], 'every graph and every level, block dimension and (non-NaN) threshold',
  'Tests use one or two out-of-range values on one graph; the clamp must act before every use of the parameter.',
  [STD, CMP, UTL], mech(('level clamp', UTL + ': clamp_compression_level'), ('threshold clamp', UTL + ': clamp_threshold'), ('block dimension clamp', STD + ': find_avg_pool_matrix, approximate')),
  [Z.o_clamped, Z.o_pool, Z.o_approx, Z.o_compress, Z.o_builder],
  VG + 'Rule: the result for an unknown parameter equals the result for the clamped parameter, and both equal the specified one.')

P('C21', 'Every operation of the library returns',
  'No public operation of the library panics, overflows, divides by zero or unwraps nothing, for any graph or matrix that can be built and any arguments (indices at the integer limits, absent vertices, empty graphs and malformed bytes included). '
  'Exceptions: incrementing an integer entry that is at its type\'s maximum, failed memory allocation, and text formatting of numeric matrices.',
  ['inputs', 'histories'], 'every exported function, every argument, every reachable matrix or graph',
  'Arithmetic at the limits of the integer types and absent table entries fail only for particular arguments and histories.',
  MATF + [STD, CMP, UTL], mech(('graph operations', STD), ('compressed graph operations', CMP), ('matrix operations', A_), ('matrix operations', S_)),
  [mgroups(set()), iters(), S.o_total, dcs(D.dec_std, {'panic'}), dcs(D.dec_cmp, {'panic'})], VG + 'Rule: the path condition of the return of every exported function is implied by the representation invariants of its arguments.')

P('C22', 'Values own their contents and share no state',
  'Graphs, compressed graphs, builders, matrices and iterators can be sent to and read from any thread at once. A value owns its contents alone: reading it never changes anything, a clone equals its original, changing one value (a clone included) never affects another, and no call depends on state left by an earlier one.',
  ['schedules', 'histories'], 'every public type (each element type), every pair of values, every interleaving of reads',
  'Sharing and hidden state show only under particular interleavings or after particular earlier calls.',
  MATF + [STD, CMP, CLIB], mech(('owned tables', A_ + ': CsrAdjacencyMatrix'), ('owned tables', S_ + ': CsrSquareMatrix'), ('graph', STD + ': StandardGraph'), ('compressed graph', CMP + ': CompressedGraph')),
  [S.o_own, S.o_state, G.o_clone, G.o_copies, dcs(M.o_clone, M.ALL)],
  'Type-level analysis: the compiler\'s trait solver decides Send and Sync for every exported type, and the closure of each type under fields, pointers and type arguments is searched for shared or interior-mutable storage; all statics of both crates are enumerated. ' + VG + 'Rule: no such storage, no mutable static, and a clone equals its original.',
  tech='type-level analysis (trait solver, closure of field types, statics) and abstract interpretation of the clone functions')

P('C23', 'Only the operations can make or change a graph',
  'Safe code cannot alter or forge a graph, matrix or builder except through its operations: no field is public, no operation hands out mutable access to the contents, and the constructors that skip the symmetry check are unsafe. '
  'Every safe way to obtain an undirected graph yields a symmetric one.',
  ['histories'], 'every exported type and function',
  'A leak of this kind breaks other guarantees in caller code no test of this repository contains.',
  MATF + [STD, CMP], mech(('private fields', STD + ': StandardGraph'), ('private fields', CMP + ': CompressedGraph, CompressedGraphBuilder'), ('unsafe constructors', STD + ': undirected_from_unchecked; ' + CMP + ': finish')),
  [S.o_sealed, G.o_symm], 'Enumeration of the exported items of the type-checked crate: field visibilities, normalised result types searched for mutable references, safety of the unchecked constructors. ' + VG + 'Rule: no public field, no mutable reference to contents in a result, unchecked constructors unsafe, other constructors symmetric.',
  tech='type-level analysis of the exported items and abstract interpretation of the constructors')

P('C24', 'Matrix text shows every cell in order',
  'The text of an adjacency matrix, from the matrix, by displaying it or from its graph, has one line `[ c, c, ... ]` per target vertex, with one digit per source vertex that is 1 exactly when the entry is set, lines separated by CR LF and nothing after the last; the text of an empty matrix is empty. '
  'It is an error value, never an abort, when its size cannot be represented or allocated.',
  ['inputs'], 'every adjacency matrix of every dimension',
  'Tests compare the text of two or three small matrices; separators, orientation and size arithmetic must be right for every dimension.',
  [A_, STD], mech(('matrix text', A_ + ': try_to_string, fmt'), ('graph text', STD + ': matrix_string')),
  [M.o_text, G.o_text, adjgroups({'value', 'dim'})], VG + 'Rule: the text of an unknown matrix, as a nested symbolic concatenation, equals the specified one; the reserved size equals its length formula.')

P('C25', 'Numeric matrix text shows every entry in its own cell',
  'The text of a matrix of numbers has one line per row with one right-aligned cell per column, wide enough for every entry at the requested number of decimal digits.',
  ['inputs'], 'every numeric matrix and precision',
  'Cell widths depend on the printed width of the largest and smallest entries.',
  [S_], mech(('numeric matrix text', S_ + ': to_string_with_precision')), [], '-',
  na='The cell width has to bound the printed length of formatted numbers, which is a run-time quantity of the formatting library (decimal expansion and rounding of floating-point values); no sound static model of it is in reach. Known deviations are described in DESIGN.md.')

P('C26', 'Encoding and decoding returns an equal graph',
  'Decoding the bytes of any graph or compressed graph succeeds and gives one with the same direction, vertex count, edge count, edges and (if compressed) compression level. '
  'Changed bytes are either rejected or decode to a graph whose own counts and edges are consistent.',
  ['inputs', 'histories'], 'every graph and compressed graph obtainable from the operations, every byte string',
  'Round trips in tests use a few small graphs with their edges inside the first columns; encoder and decoder can also be wrong in the same way.',
  [STD, CMP, A_, S_], mech(('encoders', STD + ': to_bytes; ' + CMP + ': to_bytes'), ('decoders', STD + ': try_from; ' + CMP + ': try_from')),
  [dcs(D.o_layout, SG), dcs(D.o_layout, CG), dcs(D.dec_std, {'accept', 'rebuild'}), dcs(D.dec_cmp, {'accept', 'rebuild'}), iters(['adj', 'u64']), adjgroups({'value', 'count', 'dim'}), sqgroups(['u64'], {'value', 'count', 'dim'})],
  VG + 'Rule: encoder output equals the layout, decoder acceptance equals well-formedness under that layout, and the decoded graph equals the fold of the encoded records.')

P('C27', 'Compressing at level 1 and decompressing returns the original',
  'Compressing any graph at level 1 and decompressing the result gives a graph with the same direction, vertex count, edge count and edges, and the compressed graph answers edge queries exactly as the original. '
  'At higher levels the edges of the compressed graph are always a subset of the original ones.',
  ['inputs', 'histories'], 'every graph, including empty ones, ones smaller than a block and ones with a partial last block',
  'Bit positions, borders, thresholds and iteration all have to cooperate for every graph; tests compare a few.',
  [STD, CMP, S_, A_], mech(('compression', STD + ': compress'), ('decompression', CMP + ': decompress'), ('edge query', CMP + ': does_edge_exist')),
  [Z.o_compress, Z.o_decompress, Z.o_query, Z.o_pool, Z.o_builder, iters(['adj', 'f64', 'u64']), adjgroups({'value', 'count', 'dim'}), sqgroups(['u64', 'f64'], {'value', 'dim', 'count'}), gasp('edges', 'vertices', 'dir', 'count')],
  VG + 'Rule: compression, decompression and the query each equal their specified fold or bit over the same block layout.')

P('C28', 'Failures carry the kind of error that is documented',
  'Decoding malformed bytes, and building an undirected graph from an asymmetric matrix, fail with `InvalidFormat` whatever is wrong with the input. '
  'Encoding a graph or compressed graph, and printing an adjacency matrix or an uncompressed graph, fail only with `CapacityOverflow`.',
  ['inputs', 'faults'], 'every byte string, matrix and graph, every failing step',
  'Callers decide by the kind of error whether the data is bad or the machine is short of memory; tests only check that an error is returned.',
  [STD, CMP, A_], mech(('decoders', STD + ': try_from; ' + CMP + ': try_from'), ('symmetry check', STD + ': undirected_from'), ('sizes and allocations', STD + ': to_bytes; ' + CMP + ': to_bytes; ' + A_ + ': try_to_string')),
  [X.o_kinds], VG + 'Rule: in the value graph of each result no error alternative of another kind is reachable under any input.')

# ------------------------------------------------------------------ the C interface
VC = ('Abstract interpretation of the MIR of every exported C function, with calls into the library kept as uninterpreted operations. ')
CA = ['handles are null or were returned by this library and not yet released', 'buffers have the stated length', 'the library operations meet their own properties']
CF = [CLIB, CHDR]

P('C30', 'C functions treat null handles and null buffers as neutral',
  'Every C function accepts a null handle, and a null buffer, and then reads no memory through it, changes no graph and returns the neutral result: zero, or a null handle or pointer. '
  'A buffer of length zero may be null and stands for an empty list.',
  ['inputs'], 'every C function, every combination of null and non-null handles, buffers and out-parameters',
  'Each of the 47 functions has its own null guards on several pointers; a missing guard only shows as memory corruption on that call.',
  CF, mech(('handle access', CLIB + ': graph_ref, graph_mut, compressed_graph_ref, matrix_ref'), ('buffers', CLIB + ': gphrx_from_bytes, gphrx_add_vertex')),
  [F.o_null], VC + 'Rule: every memory access through a raw pointer is dominated by a test that it is not null; under a null handle or buffer the returned value equals the neutral one.', assume=CA)

P('C31', 'C out-parameters report the length and the error exactly',
  'Every C function with a length out-parameter stores the number of elements of the buffer it returns, and zero when it returns null; the decoding functions store 0 on success and 1 (GPHRX_ERROR_INVALID_FORMAT) on failure, in which case the handle is null. '
  'A null out-parameter is left alone.',
  ['inputs'], 'every function with an out-parameter, every handle, buffer and null combination',
  'The caller frees and reads the buffer with the reported length; it must be right on every path, including the failing ones.',
  CF, mech(('length', CLIB + ': boxed_bytes_to_raw, gphrx_get_edge_list, gphrx_matrix_get_entry_list'), ('error', CLIB + ': gphrx_from_bytes')),
  [F.o_out, F.o_forward_lists], VC + 'Rule: the final content of the out-parameter cell equals the specified value on every path.', assume=CA)

P('C32', 'C memory ownership is balanced',
  'Every non-null handle, string, list or byte buffer a C function returns is a fresh allocation of exactly the type and length its free function releases, nothing else is leaked or released, and functions other than the free functions never take ownership of what they are given. '
  'Each free function releases exactly the given object, with its own type and the given length, once, and ignores null.',
  ['inputs', 'histories'], 'every C function and every path through it',
  'A double free, a leak or a release with the wrong type or length usually goes unnoticed by functional tests.',
  CF, mech(('allocation', CLIB + ': Box::into_raw, CString::into_raw'), ('release', CLIB + ': free_gphrx_*')),
  [F.o_own], VC + 'Rule: ownership events (into_raw, from_raw, forget) on every path: each allocation handed out is the returned pointer with the type its release function takes; only release functions take ownership, exactly once under a non-null test.', assume=CA)

P('C33', 'C functions do what the library operation they are named after does',
  'For non-null handles every C function applies the library operation it is named after to its arguments in their declared order, and returns that result unchanged, booleans as 1 and 0, lists element by element in order with every field in its place, and a string or encoding that cannot be produced as null. '
  'Only add_vertex, add_edge and delete_edge change the graph, exactly as the library does.',
  ['inputs'], 'every C function, every argument and every library object',
  'Swapped coordinates, exchanged in/out edges or mixed-up fields agree on symmetric or small examples.',
  CF, mech(('forwarding', CLIB + ': gphrx_*'), ('lists', CLIB + ': gphrx_get_edge_list, gphrx_get_vertex_in_edges_list, gphrx_matrix_get_entry_list')),
  [F.o_forward], VC + 'Rule: the extracted result and final object equal the specified operation of the arguments; a difference is reported with a model of the library object exhibiting it.', assume=CA)

P('C34', 'The C header declares exactly what the library exports',
  'Every function in gphrx.h is exported with C linkage and the same parameter and result types, the structures have the same fields in the same order with a fixed layout, and the error constant has the value the functions store.',
  ['inputs'], 'every declaration of the header',
  'No Rust test compiles the header; a mismatch silently corrupts arguments.',
  CF, mech(('declarations', CHDR), ('definitions', CLIB)),
  [H.o_header], 'Comparison of the clang syntax tree of the header with the compiler\'s item signatures, types and attributes of the crate. Rule: names both ways, arity, ABI class of every parameter, result and field, field order, constants.',
  tech='comparison of the C syntax tree (clang) with the type-checked Rust signatures', assume=['x86-64 Linux data model'],
  note='Decides agreement of every declaration; assumes the LP64 data model.')

P('C35', 'C functions always return',
  'No C function panics in its own code, whatever the arguments: it returns for every combination of null and non-null handles, buffers, numbers and precisions, including when the library reports a failure.',
  ['inputs'], 'every C function, every argument, every result of the library operation',
  'A panic in an extern "C" function aborts the whole process, and only on the failing inputs.',
  CF, mech(('failures', CLIB + ': gphrx_matrix_string, gphrx_matrix_to_string, gphrx_to_bytes')),
  [F.o_panic], VC + 'Rule: no panic-capable operation (unwrap, expect, indexing, arithmetic overflow, explicit panic) is reachable under any argument or library result.', assume=CA)

# ------------------------------------------------------------------ the Python package
VP = ('Abstract interpretation of the syntax tree of the Python package (no part of it is imported or run): integers are linear terms, undecided branches split the path, '
      'native calls are uninterpreted events whose results and out-parameters are unknown. ')
PA = ['CPython semantics of the analysed constructs and of ctypes as modelled in sa/pyint.py', 'x86-64 Linux', 'arguments have the documented types and ranges', 'the C functions meet C30-C35']
PT = 'abstract interpretation of the Python syntax tree with linear-arithmetic path facts'
PN = ('Decides the stated relation for every argument and every native result; Python constructs outside the interpreted fragment are reported as UNDECIDED, not as alarms. '
      'An alarm needs a path whose linear facts have a concrete solution.')

P('C40', 'The Python declarations match the native library',
  'Every native function the Python package declares or calls is exported by the library with the same number of parameters and the same argument and result types, and its ctypes structures have the fields of the library\'s structures in the same order and with the same types.',
  ['inputs'], 'every declared native function and structure',
  'A wrong or missing declaration truncates 64-bit identifiers or pointers only for large values, and the Python tests are not part of the build.',
  [PY, CLIB], mech(('ctypes declarations', PY), ('exported functions', CLIB)),
  [Q.o_decl], VP + 'Rule: argument count, argument types, result type and structure fields of each declaration agree with the compiler\'s item signature of the exported function.',
  tech='comparison of abstractly evaluated ctypes declarations with the type-checked Rust signatures', note=PN, assume=PA)

P('C41', 'Python methods pass their arguments to the right operation and return its result',
  'Every public method of the Python classes performs the library operation it is named after, on its own object and with its arguments in order (compression levels clamped to 1..64), and returns that operation\'s result as the documented Python type, unchanged. '
  'Queries never modify the graph.',
  ['inputs'], 'every method of Graph, CompressedGraph and CsrSquareMatrix, every argument and every native result',
  'The Python tests use small symmetric values; swapped, truncated or cut arguments and results need particular values.',
  [PY], mech(('methods', PY + ': Graph, CompressedGraph, CsrSquareMatrix')),
  [Q.o_forward], VP + 'Rule: on every path exactly the specified native function receives the specified arguments and the returned value is the specified conversion of its result.',
  tech=PT, note=PN, assume=PA, mir=False)

P('C42', 'Python releases every native object exactly once',
  'Every native graph, matrix, list, buffer and string obtained by the Python package is released exactly once, with the matching function and length, whether or not an exception is raised, and is not used afterwards; '
  'copying a wrapper or list with copy.copy never makes two objects release the same memory.',
  ['histories', 'faults'], 'every path through every method, constructor and destructor',
  'Double frees and leaks are invisible to assertions on values and depend on which path was taken.',
  [PY], mech(('destructors', PY + ': __del__'), ('buffers', PY + ': __bytes__, matrix_string, to_string')),
  [Q.o_owner], VP + 'Rule: after each method and all destructors, every allocation event of the path has exactly one release event, with the right function and length, and no later use.',
  tech=PT, note=PN, assume=PA, mir=False)

P('C43', 'Python lists and iterators stay within their data',
  'A list returned by the Python package has the native length; index i below the length gives item i, -1 to -(length-1) count from the end, an index at or past the end (and any index into an empty list) raises IndexError, and no index reads outside the data. '
  'Iterating yields every item once in order and then stops, the iterator is itself iterable and keeps the data alive.',
  ['inputs', 'histories'], 'every list, length, index and iterator position',
  'Out-of-range reads through a raw pointer may return plausible values, and need an index far outside the list or a list released early.',
  [PY], mech(('index arithmetic', PY + ': __getitem__'), ('iterators', PY + ': __next__')),
  [Q.o_lists], VP + 'Rule: on every path the position read lies within 0..length-1 and is the specified one; the iterator step at an unknown position yields that position and advances by one.',
  tech=PT, note=PN, assume=PA, mir=False)

P('C44', 'Python reports malformed data and foreign handles as errors',
  'Constructing a graph or compressed graph from bytes that the decoder rejects raises ValueError and never returns an object, and accepted bytes never raise; constructing a wrapper from a native object of another kind raises TypeError.',
  ['inputs'], 'every byte string and every decoder verdict',
  'An ignored error byte yields a wrapper around a null handle that silently behaves as an empty graph.',
  [PY], mech(('decoding', PY + ': from_bytes'), ('constructors', PY + ': __init__')),
  [Q.o_errors, dcs(lambda ck, W: [ck.section('Python method', n, lambda n=n: Q.frombytes(ck, n, False)) for n in Q.FROM])], VP + 'Rule: on every path the error byte decides between ValueError and the object; a structure of another class is refused.',
  tech=PT, note=PN, assume=PA, mir=False)
