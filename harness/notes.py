"""Technique, level and level note of each check, for MANIFEST.json."""

SEQ_T = 'TLA+ (Hyper, StoreMC, StoreTrace): TLC state graph replayed into the code, recorded traces decided by TLC'
SEQ_N = ('TLC explores a small model of the store exhaustively (laws of the property as invariants), every transition of it is '
         'replayed on the real SQLite store, and so are seeded random histories over rich universes; TLC decides every recorded '
         'observation against the abstract specification. Assurance is exhaustive for the small model, sampling beyond it; '
         'trusts the recorder and SQLite.')
CHECKS = {c: (SEQ_T, 'model_checking', SEQ_N) for c in ('C01', 'C02', 'C03', 'C04', 'C05', 'C06', 'C07', 'C08', 'C20')}
TXN_T = 'TLA+ (Hyper, StoreTrace): traces recorded from the code and from control runs decided by TLC'
CHECKS['C09'] = (TXN_T, 'model_checking',
                 'Batches and several-edge calls, nested, are recorded and decided by TLC against the abstract specification, and '
                 'against control runs of the same operations one at a time. Transitions of a small model exhaustively, histories '
                 'by sampling; trusts the recorder and SQLite.')
CHECKS['C13'] = (TXN_T, 'model_checking',
                 'Histories with re-opening, further handles, and files written in the old on-disk formats, decided by TLC.')
CHECKS['C14'] = (TXN_T, 'model_checking',
                 'Histories through the buffered writer with the store below observed from another handle, decided by TLC: the '
                 'observed store must be the effect of a prefix of the adds, the lag bounded; sampling beyond the small model.')
CHECKS['C17'] = (TXN_T, 'model_checking',
                 'Null, SQLite and MySQL backends run the same histories; MySQL is a stand-in driver that translates to SQLite, so '
                 'collations, key lengths and locking of a real server are not covered.')
F_T = ('TLA+: StoreTrace decides stores recorded after a fault or crash at every step of the operations; SqlImpl, the SQLite design '
       'statement by statement, is model checked to refine Hyper under faults and crashes')
CHECKS['C10'] = (F_T, 'fault_enumeration',
                 'A database error is raised at every statement, commit and fetch of every operation of the histories, and functions of '
                 'batches raise; the state seen by this handle and another one is decided by TLC. Exhaustive in fault points of each '
                 'history, histories by sampling.')
CHECKS['C11'] = (F_T, 'fault_enumeration',
                 'The store file is copied at every statement and processes are killed at every write to the file; the reopened store '
                 'is decided by TLC: before or after the interrupted operation. For a loss of power, files are made from the log of the writes, with any '
                 'part of those not yet synced; what a disk does beyond that is not covered.')
CHECKS['C12'] = ('TLA+: ConcTrace searches a sequential order for histories recorded under enumerated schedules; SqlImpl, the design, is checked to refine Hyper under all interleavings', 'model_checking',
                 'All single preemptions at database steps of the listed races, sampled ones of random programs on two or three handles in '
                 'threads; TLC searches a linearization of each recorded history. Granularity is the database call; processes on other machines '
                 'and network file systems are not covered.')
for c in ('C15', 'C16'):
    CHECKS[c] = ('TLA+ (Text, TextTrace): recorded conversions evaluated by TLC on a specification of texts as code point sequences', 'model_checking',
                 'All values and texts of a small model and random ones; TLC reads, writes, splits, composes and hashes them by the '
                 'specification. What a text of a float denotes is compared by recorded value; lower case is that of Python. Symbols '
                 'that read as numbers and doubly negated symbols are excluded.')
for c in ('C18', 'C19'):
    CHECKS[c] = ('TLA+ (Queries, QueryTrace): recorded answers of the real store evaluated by TLC against reachability and walks', 'model_checking',
                 'All stores of a small model and random ones, with vertices of degree around the limit of 250; TLC computes neighbourhoods '
                 'and connections from their definition. Sampling beyond the small model.')
for c in ('C21', 'C22', 'C23', 'C24', 'C25', 'C26'):
    CHECKS[c] = ('TLA+ (Stages, StageTrace): recorded outputs of each stage evaluated by TLC against its specification', 'model_checking',
                 'All labelled dependency trees of up to two words, trees of three words over a reduced label set, and random ones; each '
                 'stage is decided against the recorded output of the stage before. Sampling for longer sentences; the spaCy parser '
                 'and its model are not part of it.')
CHECKS['C27'] = ('TLA+ (TreeOps): recorded edits of trees replayed on a specification of places and what they hold', 'model_checking',
                 'All pairs of edits of a small tree and random sequences; after each edit every element is unfolded and compared by TLC. '
                 'Elements shared by two groups, other than the leaves a clone shares, are not edited.')
CHECKS['C28'] = ('TLA+ (LexiconDef, Lexicon): stores before and after importing recorded, TLC computes the beliefs of the lexicon', 'model_checking',
                 'All single relations between two synsets or lemmas, and random lexicons up to sizes beyond the buffer of the importer, imported '
                 'twice in different orders into stores with other beliefs. The lexicon is a stand-in for the corpus, which is not available.')
CHECKS['C29'] = ('TLA+ (Dump): outputs of the script decided by TLC against the pages of the dump; a three-state machine is checked to refine them', 'model_checking',
                 'All dumps of up to 7 lines of five kinds, and random ones; dumps with a page without a title are not covered.')
CHECKS['C30'] = ('TLA+ (Parse): recorded tokens, links and listings evaluated by TLC against the dependency trees of the texts', 'model_checking',
                 'All trees of up to 5 tokens and random texts of several sentences, several texts per parser. The parser is a stand-in with the '
                 'equality of tokens that spaCy has.')
CHECKS['C31'] = ('TLA+ (Cli): sessions of commands recorded with all the stores that there are, replayed by TLC', 'model_checking',
                 'All subsets of the options for each command and backend, on existing and missing stores, and random sessions; MySQL is a stand-in driver.')
CHECKS['C32'] = ('TLA+ (Drawn, on Parse): recorded printed trees compared by TLC with the drawing of the dependency tree', 'model_checking',
                 'All trees of up to 5 tokens and random texts, many of them with tokens that look the same; the parser is a stand-in.')
NOT_APPLICABLE = {}
