H = 'deterministic simulation: seeded schedules of client and compaction threads at every instrumented access, lock, and system call; simulated file system; '
R = 'Random exploration of histories, tuning parameters and schedules; '
T.update({
 'L01': (H + 'refinement against an ordered-map model', 'exploration', R + 'answers compared after every operation.'),
 'L02': (H + 'drop-and-reopen cycles against an ordered-map model', 'exploration', R + 'reopens at random points.'),
 'L03': (H + 'kill points (incl. torn writes, and kills during recovery) reopened and compared with the states between last flush and latest operation', 'fault_enumeration', R + 'kill points sampled among all mutating system calls of each run.'),
 'L04': (H + 'injected I/O failures (EIO, ENOSPC, EMFILE, EACCES, EAGAIN, short, EINTR, full disk, refused threads) against a model of possible values per key', 'exploration', R + 'failures drawn per system call with random rates and bursts.'),
 'L05': (H + 'injected I/O failures, then a failure-free phase that must keep the number of tables bounded; deadlock and step bounds', 'exploration', R + 'the bound is generous: it decides growth without limit, not one table too many.'),
 'L06': (H + 'folder listing compared with the tables in use after every flush', 'exploration', R + 'a table counts as unused when nothing names it and the store reads the same without it.'),
 'L07': (H + 'live iterators compared with the snapshot taken at their creation', 'exploration', R + 'up to four live iterators.'),
 'L08': (H + 'clear against running compactions, with kills and reopens afterwards', 'exploration', R + 'kill points sampled.'),
})
B = 'deterministic simulation of the real B+ tree on a simulated disk: '
T.update({
 'B01': (B + 'kills, drops and reopens between operations against an ordered-map model', 'exploration', R + 'types, declared sizes and degrees drawn per run.'),
 'B02': (B + 'injected read and seek failures against an ordered-map model', 'exploration', R + 'runs end when an operation fails after it has changed the file (nothing is claimed then).'),
 'B03': (B + 'kill points between the system calls of single-page updates reopened and compared with the contents before and after', 'fault_enumeration', 'Kill points sampled, up to 24 per run; which updates change a single page is known from the history or observed from the writes.'),
 'B04': (B + 'space running out after 0-3 more extensions or blocks, eager and sparse allocation, against an ordered-map model', 'exploration', R + 'space limits drawn per run.'),
 'F01': ('deterministic simulation: partial and interrupted transfers injected into both on-disk maps at seeded system calls, exact comparison with an ordered-map model', 'exploration', R + 'transfers cut at random lengths.'),
})
M = 'deterministic simulation of every in-memory collection with caller code that panics at seeded comparisons and destructors, owning iterators abandoned, on a checking allocator: '
T.update({
 'M01': (M + 'element lives, contents against a model, red zones and freed memory checked at every access', 'exploration', R + 'ownership and contents are compared after every operation; after a caller panic only memory safety and no second destruction are claimed.'),
})
