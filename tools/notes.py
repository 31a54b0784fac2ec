NOTE = {'C01': ('exhaustive enumeration of edge-list texts within bounds, each loaded under all thread interleavings (DPOR) for 1-3 threads and canonical schedules up to 300',
         'Line sequences up to 3 (6), strings up to 8 (10) characters, shifted and page-sized files; 16 type pairs.'),
 'C02': ('exhaustive enumeration of edge lists x flag combinations, each loaded under all thread interleavings (DPOR)', 'Texts up to 3-4 lines, all seven flag combinations, four weight kinds.'),
 'C03': ('exhaustive enumeration of number tokens and contexts, each loaded under all interleavings for 1-2 (3) threads',
         'Tokens from sign, integer, fraction and exponent parts; ten weight types; digits up to 400.'),
 'C04': ('exhaustive enumeration of Matrix Market headers and bodies, each loaded under all interleavings (DPOR)', 'Banner, header values and up to 3-4 lines varied independently.'),
 'C05': ('exhaustive enumeration of GRAPH files, each loaded under all interleavings (DPOR)', 'Rows up to 3-4 lines, all strings over small alphabets, header offsets.'),
 'C06': ('exhaustive exploration of all interleavings (DPOR with state matching) of the CSR construction for all small matrices',
         'Up to 3-5 entries with 2-4 threads in full; larger and narrow-type matrices with canonical schedules up to 300 threads.'),
 'C07': ('exhaustive exploration of all interleavings (DPOR) of the COO construction for all small matrices and sources', 'Up to 3-5 entries, 2-4 threads; larger ones with canonical schedules.'),
 'C08': ('exhaustive exploration of all interleavings (DPOR) of Matrix and DiGraph construction for all small matrices and sources',
         'Up to 3 entries, 2-4 threads; larger ones with canonical schedules.'),
 'C09': ('exhaustive exploration of all interleavings (DPOR) of sort and de-duplication over all small duplicate and weight patterns',
         'Up to 4-5 entries with 2-4 threads in full; long rows with canonical schedules.'),
 'C10': ('exhaustive enumeration of contents x prior file state x way of opening, saved and loaded under all interleavings (DPOR)', '0..14 (34) entries, sizes around pages and type limits.'),
 'C11': ('exhaustive enumeration of damaged binary files (every truncation, altered header byte and size), loaded by the implementation under the bounds monitor and all interleavings',
         'All headers, sizes and types of four formats.'),
 'C12': ('exhaustive enumeration of small COOs, written under all interleavings (DPOR) and compared byte by byte',
         'Up to 4 (5) entries of boundary labels; up to 300 threads with canonical schedules.'),
 'C13': ('exhaustive enumeration of all 8 and 16 bit values and of boundary sets of the wider types on the implementation, with guard bytes', 'Sequential code: one schedule per value.'),
 'C14': ('exhaustive enumeration of tensor texts, each loaded under all interleavings (DPOR)', 'Up to 3 lines, orders 1-5; shifted longer files up to 300 threads.'),
 'C15': ('exhaustive enumeration of small tensors, maxima and text under all interleavings (DPOR)', 'Orders 1-5, up to 6 entries; up to 300 threads with canonical schedules.'),
 'C16': ('exhaustive enumeration of byte strings and piece sequences, loaded by 40 loaders under all interleavings with memory, lifetime and step monitors',
         'Strings up to 4-7 characters, pieces up to 3-4, page-sized files, overflowing narrow types.'),
 'C17': ('exhaustive interleaving exploration (full for small, preemption bounded for larger inputs) with happens-before race and deadlock detection',
         '48 operations, teams of 2-5 explored, 16 with canonical schedules.'),
 'C18': ('exhaustive exploration of all operation histories up to depth 3-4 against a reference state machine executed in lockstep',
         '20 read and 34 write operations; parallel parts under all interleavings.'),
 'C19': ('exhaustive enumeration of texts and positions for every movement; find_offsets under all interleavings', 'Strings up to 5-7 characters over four alphabets.'),
 'C20': ('exhaustive enumeration of environment faults (every fallible call, and pairs) combined with schedule exploration',
         'Each call inside each of 48 operations fails in turn; pairs for small sizes.'),
 'C21': ('exhaustive exploration of operation histories over three objects against a reference model executed in lockstep, under all interleavings',
         '14 operations, depth 2-3 full, deeper with canonical schedules.'),
 'C22': ('exhaustive enumeration of names x contents x containers on the implementation', 'Name table and contents of all formats, 1-3 threads.'),
 'C23': ('exhaustive enumeration of inputs and operations, all variants of types, storage and OpenMP compared in one execution',
         'Texts up to depth 3 (4), 27 operations, 13 variants, canonical schedules of 1-3 threads.'),
 'C24': ('exhaustive exploration of operation sequences against a reference state machine executed in lockstep',
         '19 operations: length 2 with schedules, length 3 (4) with canonical schedules, six initial matrices.'),
 'C25': ('exhaustive enumeration of operations, sizes, releases and faults with resource counters at the system call seams', '48 operations, each fallible call failing in turn.'),
 'C26': ('exhaustive enumeration of small graphs and sources on the implementation under all interleavings of their construction',
         'Up to 3 edges in full; more edges than narrow types count with canonical schedules.')}
