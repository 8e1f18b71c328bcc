"""Which harnesses decide which property, with bounds."""
COMMON_ASSUMPTIONS = [
 'The interpreter is encoded from clang-18 -O1 bitcode of the current tree; libc is modelled (malloc never fails, formatted output and string functions by models).',
 'Each claim is bounded: it covers every value of the symbolic inputs on every explored path of the listed harness programs and nothing outside them.',
]
R = lambda h, mode=None, **k: dict(h=h, defs=(['-DMODE=%d' % mode] if mode is not None else []) + k.pop('d', []), **k)
LIBS = '-DLIB=set,attrs,delegate,openstruct,singleton,optparse,assert,pp'
CHECKS = {
 'C01': dict(bounds='two operands; any double for + - * / and comparisons; all 32-bit integers and quarters in [-25,25] for % | & ^ << >>; 7 operand kinds for mixed types',
   runs=[R('NUM', 0, q=90, covers=['comparison', 'modulo', 'shift left', 'shift right', 'division by zero reported']), R('NUM', 1, q=30, covers=['type error', 'operator method', 'opCmp']), R('NUM', 2, q=30, covers=['negate'])]),
 'C02': dict(bounds='generated functions: loops nested to depth 2 (while, for, foreach, forever), bodies of 2-3 statements out of 9 kinds, 3 iterations each, every value of the conditions',
   runs=[R('FLOW', 1, q=60, t=200), R('FLOW', 2, q=60, t=200), R('FLOW', 3, q=60, t=100), R('FLOW', 0, q=0, t=300, thorough_only=True)]),
 'C03': dict(bounds='generated programs with one try (2 body statements, any clause combination), in or around a loop or in a block, two nested tries, or a try between statements that always leave; errors of classes two below the caught one thrown directly or two calls deep; every value of the conditions',
   runs=[R('EXC', 0, q=20, t=60), R('EXC', 1, q=40, t=60), R('EXC', 3, q=60, t=100), R('EXC', 4, q=40, t=60), R('EXC', 2, q=40, t=100, d=['-DOPTS={1,9,8}']), R('EXC', 5, q=40, t=60), R('EXC', 0, q=20, t=60, d=['-DENSBODY', '-DOPTS={8,9}']),
         R('EXC', 1, q=20, t=60, d=['-DOPTS={9,8}']), R('EXC', 4, q=20, t=60, d=['-DOPTS={9,8}']), R('EXC', 0, d=['-DTSLOTS=2', '-DOPTS={8,9,10,11,13}'], t=100, thorough_only=True), R('EXC', 2, t=200, thorough_only=True), R('EXC', 1, d=['-DTSLOTS=2'], t=200, thorough_only=True)]),
 'C04': dict(bounds='generated functions of two slots (conditions, constant tests, and/or chains, loops, try, default arguments, blocks), and expressions of two operators (and, or, +, ==) over constants and variables in 5 places, compiled with and without the optimizer; every value of the conditions',
   runs=[R('OPT', 1, q=30, t=60), R('OPT', 0, q=100, d=['-DFEWK'], t=100), R('OPT', 2, q=80, t=120), R('OPT', 2, d=['-DNATOM=6'], t=250, thorough_only=True), R('OPT', 0, t=300, thorough_only=True), R('OPT', 0, t=200, d=['-DFEWK', '-DSLOTS=3'], thorough_only=True)]),
 'C05': dict(bounds='expressions with two binary/logical operators (three in the thorough tier) over variables, calls, literals and parentheses; assignments and compound assignments to locals, globals, captured variables, properties and elements; operands any integers of a small range',
   runs=[R('EXPR', q=100, t=200), R('EXPR', q=20, d=['-DPLAIN']), R('EXPR', q=40, d=['-DPLAIN', '-DNOPS=3', '-DOPSET={OR,EQ,LT,ADD,SUB,BOR,SHL,MUL}']), R('ASGN', q=40, t=60), R('EXPR', t=400, d=['-DNOPS=3', '-DOPSET={OR,AND,EQ,LT,ADD,SUB,BAND,MUL,DIV}'], thorough_only=True)]),
 'C06': dict(bounds='number and string literals of up to 4 characters out of an alphabet with every special character, interpolations of up to 3 (thorough 4) pieces, heredocs with up to 4 characters, two fillers (white space, comments) between any two tokens',
   runs=[R('LIT', 0, q=30, covers=['decimal', 'hexadecimal', 'octal', 'binary']), R('LIT', 1, q=40, covers=['single quoted', 'double quoted', 'static']), R('LIT', 2, q=40, d=['-DLEN=3']), R('LIT', 3, q=20), R('LIT', 4, q=20, tdefs=['-DLEN=5'], t=100),
         R('LIT', 2, t=120, thorough_only=True), R('LIT', 1, t=150, d=['-DLEN=5'], thorough_only=True), R('LIT', 0, t=150, d=['-DLEN=5'], thorough_only=True)]),
 'C07': dict(bounds='two operations (three from a reduced set) out of all Map operations on maps of 0-7 initial entries with 6 key kinds, against an association-list reference; numeric keys any integers of a small range (so insertion, lookup, deletion and rehash positions are symbolic)',
   runs=[R('MAP', 0, q=100, t=150), R('MAP', 0, q=20, d=['-DNOPS=3', '-DOPSET={0,1}', '-DKEYSET={0,1,2,5}', '-DFILL={5,6,7}'], t=60), R('MAP', 1, q=20, d=['-DKLO=2', '-DKHI=6'], t=60), R('MAP', 1, q=20, d=['-DKLO=-3', '-DKHI=1'], t=60), R('MAP', 1, t=250, thorough_only=True)]),
 'C08': dict(bounds='two operations (three in the thorough tier) out of 16 Array operations on arrays of 0-6 elements with every index from below -length to above length, against a reference vector; sort, index, dup, slices on arrays of 3 (thorough 5) symbolic elements',
   runs=[R('ARR', 0, q=20, d=['-DNOPS=1', '-DINIT={0,1,2,3,4,5,6}', '-DOPSET={0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15}']), R('ARR', 0, q=50, d=['-DNOPS=2', '-DOPSET={0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15}'], t=100), R('ARR', 1, q=20), R('ARR', 1, q=15, d=['-DFRAC']), R('ARR', 1, t=200, d=['-DLEN=5'], thorough_only=True), R('ARR', 0, t=300, d=['-DNOPS=3', '-DOPSET={0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15}'], thorough_only=True)]),
 'C09': dict(bounds='two mutating operations (three in the thorough tier) out of 12 on strings from 5 kinds of literals with aliases, copies and a re-evaluated literal observed; 13 pure methods on strings of up to 4 (thorough 5) symbolic characters with needles of up to 2',
   runs=[R('STR', 0, q=40), R('STR', 0, q=30, d=['-DHASH']), R('STR', 1, q=40, d=['-DLEN=5']), R('STR', 0, t=400, d=['-DNOPS=3'], thorough_only=True), R('STR', 1, t=200, d=['-DLEN=8'], thorough_only=True)]),
 'C10': dict(bounds='pairs of strings of up to 3 symbolic printable characters (up to 2 when their hashes are cached) and every collision of the 32-bit hash between "liquid" and costar????; the same two names as variables, locals, properties, methods, functions, map keys and keyword parameters',
   runs=[R('STR', 2, q=30), R('NAME', q=20, covers=['same name', 'colliding names'])]),
 'C18': dict(bounds='every text of 1-2 bytes (1-3 at top level) over an alphabet with every special character in 15 syntactic contexts; every sequence of two of 78 tokens in those contexts, of three of 30 tokens and of two of 49 longer phrases, the compiler being used again afterwards; thorough: three tokens or phrases in more contexts; 26 kinds of nesting around the depth limits; class bodies evaluated with instanceEval',
   runs=[R('SRC', 0, q=20, d=['-DLEN=2', '-DCTXSET={0,1,2,3,4,5,6,7,8,9,10,11,13,14}'], noxval=True, covers=['compiled', 'rejected']), R('SRC', 0, q=20, d=['-DLEN=3', '-DCTXSET={0}'], noxval=True), R('SRC', 1, q=30, d=['-DLEN=2'], noxval=True), R('SRC', 1, q=40, d=['-DLEN=3', '-DNTOK=30', '-DCTXSET={0}', '-DSECOND'], noxval=True), R('SRC', 2, q=40, d=['-DLEN=2', '-DSECOND'], noxval=True),
         R('NEST', 0, q=10, d=['-DLO=90', '-DHI=92']), R('NEST', 0, q=15), R('NEST', 0, q=15, d=['-DLO=1995', '-DHI=2003']), R('NEST', 1, q=20, d=['-DLEN=2'], noxval=True),
         R('SRC', 1, t=300, d=['-DLEN=3', '-DNTOK=52', '-DCTXSET={1,8}'], noxval=True, thorough_only=True), R('SRC', 2, t=300, d=['-DLEN=3', '-DCTXSET={0,1,8}'], noxval=True, thorough_only=True)]),
 'C16': dict(bounds='98 programs (41 of them storing a new value in each kind of old object; closures, bindings, eval, classes, errors, blocks, iterators, threads, regexes, finalizers, every container); a young or full collection before any one allocation while compiling and any one while running, and two young collections before any two; thorough: any two collections of either kind',
   runs=[R('GC', q=40, d=['-DKIND=2', '-DCOMPILING'], covers=['collected', 'not collected']), R('GC', q=100, t=150, d=['-DKIND=0', '-DNGC=2']), R('GC', t=400, d=['-DKIND=2', '-DNGC=2'], thorough_only=True)]),
 'C12': dict(bounds='functions, closures, methods, static methods, initializers, send, super, blocks called by yield and Block#yield; signatures of 0-2 required, 0-2 default, rest, 0-2 keyword (required or not) and block parameters, calls with 0-4 arguments with and without splats, every choice of keywords (also unknown ones), a block literal, a block argument or none; every argument value of a range',
   runs=[R('ARG', q=40, t=60, d=['-DKINDS={0,1,2,3,4,5,6,7,8}', '-DSIGS=1', '-DSPLAT'], covers=['bound', 'argument error', 'keyword', 'rest']), R('ARG', q=25, t=60, d=['-DKINDS={0}']), R('ARG', t=300, d=['-DKINDS={1,2,3,4,5,6,7,8}'], thorough_only=True), R('ARG', t=100, d=['-DKINDS={0}', '-DSPLAT'], thorough_only=True)]),
 'C15': dict(bounds='blocks of 1-2 statements out of 11 (captured variables, break, continue, return, throw, try, nested iterators, closures) given to 12 kinds of iterators (each, map, select, reject, find, reduce, Map#each, yield in functions and methods, block parameters, send, array subclasses) over three symbolic elements, with a nested iterator of one statement',
   runs=[R('BLK', q=60, t=60, d=['-DSTMTS={0,1,2,3,4,5,7,8,9,10}'], covers=['thrown out of a block', 'left by break', 'ran through']), R('BLK', q=60, t=60, d=['-DSTMTS={3,6,8}', '-DITERS={0,1,4,8}', '-DINSTMTS={1,3,5,8}']), R('BLK', t=500, d=['-DSTMTS={1,3,4,5,6,8,10}'], thorough_only=True)]),
 'C14': dict(bounds='functions with a loop (while, for, foreach over one or two variables) or a block nested in a scope, a closure created over variables of one of 4 scopes, left by the end of the body, break, continue, return or throw in any of three iterations; reads and writes through two closures; closures in closures (or in blocks) using six variables of three levels in any order of three uses inside and two outside; every value of the deciding variables',
   runs=[R('CLO', q=60, t=100, covers=['closures called']), R('UPV', q=60, t=100)]),
 'C23': dict(bounds='16 kinds of recursion; depths -1 to 12 and around the limit (1190-1192), thorough every depth from 90 to 1110',
   runs=[R('DEEP', q=15, d=['-DLO=-1', '-DHI=12'], covers=['result']), R('DEEP', q=20, d=['-DLO=1190', '-DHI=1192'], covers=['stack overflow']), R('DEEP', t=300, d=['-DLO=90', '-DHI=1110'], thorough_only=True)]),
 'C13': dict(bounds='hierarchies of up to three classes and two modules (included in any of 5 positions, also twice, extended by the object, singleton methods), each of 8 places defining or not the looked up method, getter, setter or static method and calling super or not; thorough: the modules including each other',
   runs=[R('CLS', q=55, d=['-DKINDS={0,1,2,3}', '-DINCS={0,1,4,6}'], t=100, covers=['found', 'not found']), R('CLS', t=300, d=['-DKINDS={0,1,2,3}', '-DINCS={0,1,2,4,6}', '-DNESTED'], thorough_only=True)]),
 'C20': dict(bounds='28 kinds of functions, methods, blocks, loops, handlers, closures and expressions (also the top level) that evaluate one of 29 pieces of code and then one of three others (thorough: any) with eval() or instanceEval(), at two places or in every iteration, and 4 bindings evaluating them in 4 kinds of functions; nested eval, errors and syntax errors included; all values of the three variables (numbers)',
   runs=[R('EVAL', q=70, covers=['plain', 'throws']), R('EVAL', q=40, d=['-DINST', '-DCODES2={0}']), R('EVAL', q=40, d=['-DBINDING']),
         R('EVAL', t=400, d=['-DCODES2={1,2,4,5,6,7,8,9,10,11,15,17,19,20,23,26,28}'], thorough_only=True), R('EVAL', t=200, d=['-DBINDING', '-DCODES2={1,2,4,5,6,7,8,9,10,11,15,17,19,20,23,26,28}'], thorough_only=True)]),
 'C25': dict(bounds='scripts run by the real main(), ending in 17 ways (their end, exit at any depth, in blocks, initializers, eval, catch and loops, _exit, uncaught errors, ends of other threads, syntax errors), with up to two (thorough three) exit handlers of 6 kinds and with or without finalizers; every exit status 0-255',
   runs=[R('EXIT', q=40, covers=['exit']), R('EXIT', t=200, d=['-DNH=3'], thorough_only=True)]),
 'C26': dict(bounds='values of 24 kinds (numbers, strings of up to 2 symbolic characters, arrays and maps of up to 2 of 4 kinds of values, instances of classes with and without toString() or inspect(), functions, methods, modules, self-containing containers), nested to depth 3',
   runs=[R('TEXT', q=50, t=100)]),
 'C24': dict(bounds='one name defined in any of seven places (top level, superclass, included module, outer module, class, nested class, subclass), 26 kinds of code that read it, assign another, define a class or catch a class of that name, called from the top level, from a method or from an iterator block of a class with its own definition (quick: from a method); the module included or not, the place reopened or not; all values',
   runs=[R('CONST', q=90, d=['-DCTXS={1}'], covers=['found', 'not found', 'defined']), R('CONST', t=300, thorough_only=True)]),
 'C27': dict(bounds='two operations (add, remove, membership, iteration, comparison) on a set of up to three initial elements out of four (thorough six) that may be equal or not; two operations on two instances for generated accessors, delegation, OpenStruct, Singleton, OptParser and assert; pp of values of each kind; all values (numbers, strings)',
   runs=[R('LIB', 0, q=40, d=['-DNEL=4', LIBS]), R('LIB', 1, q=20, d=[LIBS]), R('LIB', 2, q=20, d=[LIBS]), R('LIB', 0, t=300, d=[LIBS], thorough_only=True)]),
 'C28': dict(bounds='three operations (thorough four of 11) of 15 kinds on a hierarchy of three classes, a module and two instances, then all calls and reflection on both; all values of the fields',
   runs=[R('OBJ', q=50, d=['-DNOPS=3'], covers=['ran', 'copied']), R('OBJ', t=400, d=['-DNOPS=4', '-DOPS={1,2,3,4,5,6,7,8,9,10,11}'], thorough_only=True)]),
 'C22': dict(bounds='two operations (requireScript and loadScript of 6 names, autoload) in a function or block, on 4 virtual trees of up to 3 scripts in two directories, the scripts requiring or loading each other (also cyclically), throwing, returning early, defining a class, or not compiling, at their first, second or third run (symbolic)',
   runs=[R('LOAD', q=60, d=['-DCTXS=1']), R('LOAD', t=300, thorough_only=True)]),
 'C21': dict(bounds='one or two threads (14 bodies: locks, lock hand-over, errors, caught errors, blocks, thread locals, joins, classes, function names) beside the main program, switched at up to one (thorough two) symbolic points among the first 12-40 instructions of each thread, with at most one preemption at a lock or wait',
   runs=[R('THR', q=60, d=['-DBODIES={0,1,4,7,8,9,11,13}'], t=80, covers=['switched inside a thread']), R('THR', q=100, d=['-DBODIES={0,4,11}', '-DNTH=3', '-DOPS=24'], t=80), R('THR', q=70, d=['-DBODIES={0,4}', '-DPREEMPT=1', '-DOPS=12'], t=80), R('THR', q=20, d=['-DBODIES={0,4,13}', '-DPREEMPT=1', '-DSWITCHES=0']), R('THR', t=300, thorough_only=True), R('THR', t=300, d=['-DBODIES={0,4}', '-DSWITCHES=2', '-DOPS=20'], thorough_only=True)]),
 'C19': dict(bounds='every builtin method and getter of 17 builtin classes (of initialised receivers and of subclass instances whose init() does nothing), every static method and global function except those that wait, exit or start processes, and the methods of Object on 37 kinds of receivers, with 0-1 arguments out of 37 kinds of values (quick also 2 out of 3, thorough: 0-3), with and without a block; about 85 language operations on those kinds',
   runs=[R('ANY', 0, q=100, d=['-DNARGS={0,1}', '-DK1=18'], noxval=True, covers=['survived']), R('ANY', 1, q=30, d=['-DNARGS={0,1}'], noxval=True), R('ANY', 2, q=50, d=['-DNARGS={0,1}', '-DK1=4'], noxval=True), R('ANY', 3, q=40, noxval=True), R('ANY', 0, q=60, d=['-DNARGS={2}', '-DK2=3'], noxval=True), R('ANY', 1, q=15, d=['-DNARGS={2}', '-DK2=3'], noxval=True),
         R('ANY', 0, t=300, d=['-DNARGS={0,1}'], noxval=True, thorough_only=True), R('ANY', 2, t=400, d=['-DNARGS={0,1}'], noxval=True, thorough_only=True), R('ANY', 0, t=300, d=['-DNARGS={2,3}', '-DK2=7', '-DK3=3'], noxval=True, thorough_only=True), R('ANY', 1, t=100, d=['-DNARGS={2,3}', '-DK2=7', '-DK3=3'], noxval=True, thorough_only=True)]),
 'C17': dict(bounds='17 objects (strings, arrays, maps, instances, errors, subclass instances, regexes, match data, a class, a module) with symbolic contents; every builtin method of their class with 0-1 arguments out of 37 kinds of values (thorough: 0-3), with and without a block, and 25 language operations (indexing, <<, properties, setters, bound methods, send, instanceEval, iteration, changing copies); the same on an unfrozen twin',
   runs=[R('ANY', 4, q=60, d=['-DNARGS={0,1}', '-DK1=20', '-DK2=5'], noxval=True, covers=['would change', 'would not change']), R('ANY', 4, q=60, d=['-DNARGS={2}', '-DK1=1', '-DK2=3'], noxval=True), R('ANY', 4, t=300, d=['-DNARGS={0,1}'], noxval=True, thorough_only=True), R('ANY', 4, t=300, d=['-DNARGS={2,3}', '-DK2=10', '-DK3=3'], noxval=True, thorough_only=True)]),
}
