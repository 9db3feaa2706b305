claim('C31', 'explicit-state exploration of a model of TypeScript documents x option sets x missing modules (fault '
      'injection into the import system), every state replayed on the real transpiler; the module loaded without the '
      'package is compared with the module loaded with it',
      'Documents of up to two declarations, hierarchies of up to three interfaces, uses of types of the standard '
      'library; quick takes a slice. Missing modules are simulated within the process; only the Python version at hand.')
claim('C30', 'exhaustive enumeration of TypedDict types, of dictionaries with every combination of faults, and of functions '
      'with every set of wrong arguments, run through the real validator; the parsed messages are compared with the '
      'faults of the values',
      'Types of one and two fields exhaustively, of three fields by a slice (one in 23, thorough: one in 3). Which of several '
      'faults in nested values is reported is left open.')
NOT_APPLICABLE = {}
TRUST = ('Trusts the reference model in mc/tsmodel.py and mc/docs.py (plain Python), CPython and '
         'DHParser. Says nothing beyond the stated bounds. ')
REPLAY = ', every state replayed on the real transpiler'
claim('C01', 'explicit-state exploration of a model of TypeScript documents' + REPLAY + '; the generated module is '
      'imported and every annotation is evaluated',
      TRUST + 'All documents of up to two declarations of a menu of ~80 shapes in 4 contexts under the option sets '
      'of a pairwise cover (all option combinations in thorough).')
claim('C02', 'explicit-state exploration of class hierarchies' + REPLAY + ' and compared with a reference '
      'computation of keys and required keys',
      TRUST + 'All inheritance graphs with up to 3 interfaces (4 in thorough), all assignments of member kinds.')
claim('C03', 'explicit-state exploration of the type-term grammar' + REPLAY +
      ' and compared with a reference semantics',
      TRUST + 'Exhaustive for all type terms up to derivation depth 2 (3 in thorough) over 18 leaves, in 5 '
      'positions under rotating selections of 24 option sets.')
claim('C04', 'explicit-state exploration of documents x JSON values (all conforming representatives and all their '
      'single-point mutations) run through the generated classes and the real validator, compared with a '
      'three-valued reference semantics on the TypeScript level',
      TRUST + 'Documents of one declaration of the data menu in context, and all type terms up to depth 1 '
      '(2 in thorough) as member type.')
claim('C05', 'explicit-state exploration of documents x option sets' + REPLAY + '; all renderings of a document are '
      'compared with each other after normalisation',
      TRUST + 'All 24 option sets per document (48 in thorough).')
claim('C06', 'explicit-state exploration of sequences of enum items, constants and constant namespaces' + REPLAY +
      ' and compared with the reference values',
      TRUST + 'All item sequences up to length 3 over 8 kinds of values.')
claim('C07', 'systematic enumeration of every (document, token boundary, filler) on the real transpiler; the result '
      'must be the one of the plainly formatted document',
      'Trusts the tokeniser in mc/tokens.py. 17 fillers at every token boundary one at a time and everywhere at once.')
claim('C08', 'systematic enumeration of every (document, token boundary, comment) on the real transpiler with '
      'comment preservation; the Python tokens must be those without comments',
      'Trusts the tokeniser in mc/tokens.py and tokenize of CPython. 10 kinds of comments at every token boundary '
      'one at a time, at all declarations and everywhere at once.')
claim('C09', 'exhaustive enumeration of (document, role, spelling) renamings (pairs of renamings subsampled in quick)'
      + REPLAY + '; the modules must be equal up to the renaming',
      TRUST + 'All roles of the documents of the declaration menu x an alphabet of adversarial spellings (keywords '
      'as prefix or suffix, names of basic types, names of other declarations, digits, underscores).')
claim('C10', 'systematic enumeration of token sequences up to length 3 and of all single-token edits (a slice of the '
      'double edits), single-character edits and nestings on the real transpiler, against an independent recogniser of '
      'an over-approximation of the grammar',
      'Trusts mc/refgrammar.py (a hand-written over-approximation of the accepted language). A malformed text that '
      'the over-approximation accepts is not judged.')
claim('C11', 'explicit-state exploration of histories of transpilations, each from a fresh process, on the real code, and '
      'of all orders of iteration of all sets (stateless search over choice points)',
      'Trusts fork() to give fresh processes. All histories of two steps that involve erroneous or name-sharing '
      'documents (all in thorough) and a slice of those of three steps over 90 steps; set orders up to 120 '
      '(2000 in thorough) executions per document.')
claim('C12', 'stateless exploration of thread schedules of the real code under a controlled scheduler with a bound on '
      'preemptions (1 at lines, 2 at calls)',
      'Scheduling points are the lines of ts2pythonParser.py and calls within the transformation and compilation '
      'machinery; races within the parser engine or between bytecodes of one line are not explored (opcodes in '
      'thorough). Quick explores every 7th point, rotating with the seed.')
claim('C13', 'explicit-state exploration to the fixpoint of (directory contents, order of modification, configuration) under '
      'edits, reconfiguration, damage and runs of the real file processor, compared with a run in a clean directory',
      'Four kinds of sources (more in thorough), 3 configurations (8 in thorough) in two modes of usage; all pairs of '
      'runs for 13 sources x 8 configurations x 3 modes.')
claim('C14', 'systematic fault injection: every directory content observable between two lines of Python code, torn '
      'prefixes of every written file, exceptions at lines, failing writes; each followed by a run of the real file '
      'processor', 'Assumes that renaming and removing files is atomic and that data reaches the disk in the order of '
      'the writes. Quick enumerates prefixes at line boundaries, around the hash and at the end of the output.',
      'fault_enumeration')
claim('C17', 'explicit-state enumeration of type terms; every conforming value and every single-point mutation '
      'is run through the real validator and compared with a three-valued reference semantics',
      TRUST + 'Types up to derivation depth 2 (3 in thorough) in 6 positions, 4 spellings and 2 TypedDict '
      'flavours; values are the generated conforming ones and all their single-point mutations.')
claim('C25', 'exhaustive enumeration of the permutations of the declarations of a document' + REPLAY +
      '; all descriptions of the generated modules must be equal',
      TRUST + 'All permutations which keep bases before derived interfaces, of documents of up to 5 declarations.')
claim('C26', 'exhaustive enumeration of notational variants (all that deviate from the plain notation in one or '
      'two of 18 dimensions)' + REPLAY + '; descriptions of the generated modules must be equal',
      TRUST + 'Documents of the declaration menu and all type terms up to depth 1 (2 in thorough).')
claim('C15', 'systematic enumeration of batches x every execution order of the submitted jobs (controlled executor), '
      'of earlier results in the output directory and of the interleavings of worker threads up to a preemption '
      'bound, on the real batch processor; every file is compared with processing it alone',
      'Batches of up to 3 files (4 in thorough) of 5 kinds, 3 configurations; jobs are atomic except in the '
      'interleaved part.')
claim('C16', 'exhaustive enumeration of sets of up to three command line switches with all their values x ways of '
      'usage, each run of the real tool compared with the library call under the documented configuration',
      'Sets of three switches are run for one in four in quick, all in thorough. Most runs call main() in a forked '
      'process, some start the script itself.')
claim('C18', 'explicit-state exploration of histories of validations: every history of up to two validations is '
      'reached in a fresh process and followed by every validation of the alphabet; all outcomes, values and '
      'annotations are compared with those of the initial state',
      'Five pairs of modules that share names and typing constructs, 31 to 51 validations each; quick runs a half or '
      'a quarter of the histories of two, thorough all.')
claim('C19', 'systematic enumeration of signatures x ways to call x argument values x results on the real decorator, '
      'compared with the undecorated function and a table of conforming values',
      'Signatures of up to 3 parameters of all five kinds (all annotations for up to two parameters, three or four '
      'annotations for three), as function, method, static and class method.')
claim('C20', 'exhaustive enumeration of class hierarchies with all spellings of field types in all creation syntaxes, '
      'replayed on the real TypedDict replacement and compared with a reference classification',
      'About 85 spellings, all pairs of spellings as redeclaration, all inheritance graphs of up to three and a '
      'selection of those of four classes with few spellings.')
claim('C21', 'explicit-state exploration of histories of class definitions, registrations and calls on the real '
      'dispatcher; every call is compared with the choice of functools._find_impl for the resolved registry',
      'All histories of up to 3 (4 in thorough) steps of 31 kinds and up to 5 (6) steps of 8 kinds, functions and '
      'methods, one or two modules.')
claim('C22', 'stateless exploration of thread interleavings of the real code under a controlled scheduler with '
      'preemption bounding, from a state in which nothing has been resolved yet',
      'Scheduling points are lines and byte code instructions of the dispatcher, the validator, the TypedDict '
      'replacement and typing.ForwardRef._evaluate. One preemption (lines exhaustively, instructions one in six in '
      'quick), two preemptions for a part of the programs.')
claim('C23', 'systematic enumeration of short token sequences for every start symbol of the grammar, of documents and '
      'their layouts and of malformed mutants; the syntax tree, acceptance and errors of the shipped parser are '
      'compared with those of a parser freshly generated from the grammar file',
      'Token sequences of bounded length over a reduced alphabet per symbol. Node positions are not compared.')
claim('C24', 'exhaustive enumeration of signatures and of sets of overloads in all places' + REPLAY +
      '; signatures are inspected and every overload set is called with one argument of each class',
      TRUST + 'Up to two parameters of all kinds (three in thorough), overload sets of two and three declarations.')
claim('C27', 'explicit-state exploration: every path of an automaton of line kinds up to a depth and every acyclic '
      'include graph of up to four small files is processed by the real tool; the written lines are compared with '
      'those the automaton prescribes',
      'The network is replaced by a table of files; a part of the graphs is read from real files.')
claim('C28', 'exhaustive enumeration of unsupported constructs in all places (one or two, all combinations), of documents '
      'of supported constructs, and of sequences of equally and differently named declarations' + REPLAY +
      '; messages are compared with the prescribed places and the code with that for the type any',
      TRUST + 'Type restrictions (extends, defaults of type parameters), imports, and aliases beside enumerations of '
      'the same name are left open.')
claim('C29', 'exhaustive enumeration of documents over a declaration menu and of interface hierarchies x option sets' + REPLAY +
      '; decorators, bases and notation of every generated class are compared with the documented effect of the options',
      'Single items under one in 16 (thorough: all) of the 1152 option sets, pairs and hierarchies under a rotating one. '
      'Interfaces with methods are not derived from the base class by design.')
