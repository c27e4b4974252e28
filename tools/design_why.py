MISSED_FIRST = {'C19-search-window-moved', 'C13-average-time-kept', 'C14-null-switch',
                'C15-duplicates-other-module', 'C30-twelve-hour-clock',
                'C38-same-image-skipped', 'C39-empty-mean-zero',
                'C05-part-of-columns', 'C15-product-kept',
                'C23-negative-truth-dropped', 'C29-average-of-first',
                'C33-count-saturates', 'C36-nan-as-zero', 'C37-files-sorted',
                'C50-waveforms-by-reference', 'C13-solution-by-sum',
                'C15-names-by-case', 'C25-square-assumed',
                'C38-reset-before-image', 'C38-zero-limit',
                'C39-zeros-replaced', 'C40-many-devices',
                'C41-fewer-iterations', 'C41-pulses-of-earlier-events',
                'C42-columns-mirrored', 'C09-list-as-range',
                'C14-reducers-listed-once', 'C15-grandparent-columns',
                'C17-peak-of-rounded-sum', 'C37-zero-charges-dropped',
                'C38-single-precision', 'C13-no-copy-if-contiguous',
                'C15-helper-becomes-column', 'C26-dac-in-a-byte',
                'C35-limits-only-with-initial', 'C09-same-column-twice',
                'C42-dead-camera-listed', 'C22-negative-peak',
                'C38-one-highlight-kept', 'C30-commit-keeps-the-older',
                'C43-one-digit-illumination'}
NOT_CAUGHT = set()
MUTATION = """
A first campaign (2 mutants per line category and file, 639 mutants) is
described under "Gaps closed" in the git log; survivors are equivalent
mutants, cosmetics (labels, colours, messages), unused code, or were turned
into stronger checks. A second campaign (other seed, up to 14 mutants per file) was
treated in the same way. Besides, batches of hand-written bugs in hostile
patterns (class-level caches, caches keyed by identity or length, narrow types,
thresholds, NaN, call order, long runs, shared buffers) were run against the
checks of all properties they concern; each miss that was not equivalent to
the original within the stated domain led to a further kind of input. A third
campaign (third seed, 746 mutants) found one more gap (values per module of the
waveform readers, now in C10). A fourth (about 110 mutants) applied kinds that hide
(`mutate.py --hidden`: take effect from the n-th call, for long inputs, after
another method was called); a fifth turned values into ones shared between
instances of a class or remembered by a function and ran them against C51.
Three last batches of hand-written bugs (150, on rare triggers: many parts, whole
numbers, long simulations, repeats within a minute, several files with a maximum,
more than ten illuminations, repeated highlights) led to the inputs of these
kinds in C05, C06, C11, C16 to C24, C26, C30, C35, C38, C43 and C44.

The other direction, alarms on code that keeps the behaviour, was tried with
`tools/refactor.py`: behaviour-preserving rewrites of the *whole package* at
once (bodies moved to private helpers, methods split, results kept in local
names, locals renamed, conditions inverted, loops rewritten, operands of
commutative operations exchanged, constants folded, attributes made lazy) and two
handwritten sets of about fifty edits each (numerically re-associated formulas,
renamed attributes, rewritten loops). All fifty checks ran on each. One check
alarmed wrongly: C47 judged a new helper called from `__array_finalize__` by
the rules for public calls; private helpers, dunder methods and property
getters are now only boundaries of the recording, not judged themselves.
"""
WHY = dict(
    C01="""the repository's test appends a few small frames and never reaches a
flush; the flush threshold is 0.5 GB, so only scaled accounting exercises the
interleavings in which rows could be lost, repeated or misfiled.""",
    C02="""byte counts and metadata are the result of a history of calls over
several keys; a test sees one history.""",
    C03="""an exception can leave the context between any two operations and
inside one; every such point is taken.""",
    C04="""losses show only after several sessions over overlapping keys.""",
    C05="""the size limits are in gigabytes and chunk borders interact with the
row count; sizes are forged, chunk sizes enumerated.""",
    C06="""which rows are missing depends on the pattern of bad events and on
where the writer flushed.""",
    C07="""values pass calibration, a rolling baseline with history, reduction,
type narrowing and buffering; only a comparison of every value with an
independent recomputation sees an event mixed up with its neighbour.""",
    C08="""the metadata depends on camera version, number of modules,
configuration and file name.""",
    C09="""access methods keep caches and positions on one reader; errors need a
particular order of accesses and gaps in the numbers.""",
    C10="""reader buffers are shared between reads; only interleaved and nested
accesses with overwritten results reveal aliasing.""",
    C11="""there is no simulation file in the tests; a wrong permutation is
invisible unless every pixel's content is unique.""",
    C12="""contents, compression and names combine; names lie.""",
    C13="""purity is a statement about all histories and column sets.""",
    C14="""there are 2^columns configurations and YAML spells booleans in many
ways.""",
    C15="""collisions appear only between classes defined elsewhere, inherited or
redefined.""",
    C16="""edge windows, ties and asymmetric waveforms decide; the tests pin a
few numbers of one waveform.""",
    C17="""a different peak or a shifted template changes results only for
pixels that differ from the camera average.""",
    C18="""as C17: the defining peak of every variant differs only for hostile
waveforms; full windows are enumerated by brute force.""",
    C19="""missing crossings, pulses at window edges, flat tops and exact
half-sample vertices are outside the tested pulse.""",
    C20="""reading one sample too far yields plausible numbers; only index
checks and poisoned neighbours make it observable.""",
    C21="""the mean depends on the whole history and on short files.""",
    C22="""shifts beyond the length, files with dead pixels and repeated passes
over the file are not tested.""",
    C23="""splitting only matters once the 1 GB reduction triggers, which is
scaled here.""",
    C24="""as C23, plus the rounding edge of the variance.""",
    C25="""the layout is symmetric in the shipped camera: exchanged or transposed
members appear only for other layouts, orders and gaps.""",
    C26="""the formats allow comments, repeated and shuffled lines and numbers
of any width.""",
    C27="""whole and huge corrections, both float types and strided memory take
different paths through the compiled routine.""",
    C28="""repeated and reordered pixel selections separate a pixel's own
coefficients from those of its position.""",
    C29="""convergence is a property of the closed loop over dozens of
iterations.""",
    C30="""masks are a state machine over files and clock; a test sees one load.""",
    C31="""the table is finite: every entry and interval is visited, in both
directions.""",
    C32="""overflow and cancellation appear at large counts and extreme means
only; exact arithmetic is the oracle.""",
    C33="""loss of digits depends on offset and order; rational arithmetic is
the oracle.""",
    C34="""the truncation of the sum depends on mean and crosstalk; the oracle
brackets every value between the full and the permitted truncated sum.""",
    C35="""the configuration reaches Minuit through several translations; the
recorded likelihood arguments show what was used.""",
    C36="""entries on bin edges and outside, and state kept between fits, need
particular data and orders.""",
    C37="""completion order depends on the schedule; delays are injected to
enumerate orders.""",
    C38="""matplotlib state is a history of limits, images and highlights.""",
    C39="""bins that are empty, entries out of range and single entries.""",
    C40="""index columns may repeat, skip and go backwards; no such file is in
the tests.""",
    C41="""optimality of the non-negative fit is judged by its Kuhn-Tucker
conditions on every waveform.""",
    C42="""panel and pixel are confused only for non-square layouts and permuted
pixels.""",
    C43="""what a saved figure shows is read back from the artists instead of
only checking that a file exists.""",
    C44="""ROOT is not available to the tests; recording trees show every row.""",
    C45="""The bounds only matter beyond half a gigabyte, which no test reaches;
the check really hands over more and watches the memory of the process.""",
    C46="""What a figure shows is only known at the moment it is shown; the
monitor reads it back there.""",
    C47="""Assertions compare results with expectations; that an input was
changed along the way is noticed only by comparing the input itself.""",
    C48="""Whether a file was opened for writing, or left open, leaves no trace
in any result; the kernel and the audit hook see it.""",
    C49="""Hash order, time zone and locale are constant within a test session;
only processes that differ in them show a dependence.""",
    C50="""Deferred writing and kept references are invisible unless the caller
reuses its buffers, which no test does.""",
    C51="""One object at a time never shows what two objects share; the same
steps alone in a process are the oracle for the steps among others.""",
)
