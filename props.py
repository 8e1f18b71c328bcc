"""Properties: statement, quantifier, anchors. gen.py writes properties.jsonl and MANIFEST.json from this."""
P = {}
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), technique=None, note=None, na=None):
    P[id] = dict(title=title, statement=statement, over=over, text=text, why=why, files=files, mech=[dict(name=n, where=w) for n, w in mech],
                 state=[dict(name=n, meaning=m, where=w) for n, m, w in state], observe=list(observe), technique=technique, note=note, na=na)

p('C01', 'Number operators compute the documented result',
  'For every pair of operands, + - * / % < <= > >= == != and unary - give the IEEE double result, and the bit operators | & ^ << >> the result of the same C operation on the operands as integers. Dividing or taking the remainder by a divisor that is zero (after truncation, for the integer operators) raises an error, and operands of a type without the operator raise a TypeError-like error or call the operator method; no operand makes the interpreter crash.',
  ['inputs'], 'all doubles for arithmetic and comparison, all 32-bit integers and quarter steps for integer operators, every pair of operand kinds',
  'tests use a handful of small positive operands; signs, -0, NaN, infinities, extremes and mixed types are not sampled',
  ['vm.c', 'value.c', 'runtime.c'], [('binary operator opcodes', 'vm.c BINARY_OP / OP_MODULO / OP_BITOR ..'), ('value equality', 'value.c valEqual')], observe=['value of the expression', 'class of the raised error'])
p('C02', 'Control flow runs exactly the statements the program prescribes',
  'In any nesting of if/else, while, for, foreach, break, continue and return, the statements that run, their order and the loop variables they see are those of the language definition, with every local variable keeping its own value.',
  ['programs', 'inputs'], 'all programs of the generated grammar (loop nests of depth 2, bodies of 2-3 statements out of 9 kinds) with all values of the conditions',
  'tests run fixed programs; the interaction of jumps, local slots and peephole optimisation is only visible in particular nestings',
  ['compiler.c', 'vm.c'], [('jump emission and patching', 'compiler.c emitJump/patchJump, loops, break/continue'), ('scope exit', 'compiler.c popScope')], observe=['sequence of values logged by the program'])
p('C03', 'Exceptions reach the right catch clause and ensure blocks run once',
  'A thrown error transfers control to the first matching catch clause of the innermost enclosing try on the dynamic call chain, running each ensure block passed on the way exactly once; else clauses run only when nothing was thrown; an error nobody catches leaves the program with that error. Locals of the catching function keep their values and no stack values leak.',
  ['programs', 'inputs'], 'all generated programs with a try statement (and one nested in its body or catch clause, in a loop, around a loop or in a block) over every clause combination and every condition value',
  'tests contain few try statements, none combining nesting, loops, locals, break/continue and blocks',
  ['compiler.c', 'vm.c', 'runtime.c'], [('catch tables', 'compiler.c NODE_STMT TRY_STMT, chunk.c catch table'), ('throw', 'vm.c throwError / findThrowJumpLoc'), ('ensure', 'vm.c OP_RETHROW_IF_ERR')], observe=['sequence of logged values', 'final error'])
p('C04', 'The bytecode optimizer does not change what a program does',
  'A program compiled with the peephole optimizer produces the same sequence of effects, the same result and the same error as the program compiled without it.',
  ['programs', 'inputs'], 'all generated functions of two slots out of the constructs the optimizer rewrites, all condition values',
  'tests run each program with one optimizer setting only',
  ['compiler.c', 'chunk.c'], [('peephole passes', 'compiler.c optimizeIseq'), ('offset patching', 'compiler.c patchOffsetsAround, rmInsnAndPatchJumps')], observe=['sequence of logged values', 'error or normal end'])
p('C05', 'Expressions evaluate with the documented precedence, order and short circuit',
  'Every expression evaluates its operands once, left to right, grouped by operator precedence and associativity, "and"/"or" evaluate their right operand only when needed, and an assignment or compound assignment (to a local, global, captured variable, property or element) evaluates its target once, stores the value and yields it.',
  ['programs', 'inputs'], 'all expressions with two or three operators of the grammar, all small integer operands; all assignment target kinds',
  'tests use few operator combinations with fixed operands and never observe the evaluation order',
  ['parser.c', 'compiler.c', 'vm.c'], [('precedence climbing', 'parser.c expression .. primary'), ('short circuit jumps', 'compiler.c LOGICAL_EXPR'), ('assignment', 'compiler.c ASSIGN_EXPR, PROP_SET_BINOP_EXPR')], observe=['value of the expression', 'sequence of operand evaluations'])
p('C06', 'Literals denote their value and layout does not change the program',
  'Every number literal (decimal, fraction, hexadecimal, octal, binary), string literal (single, double quoted, static, heredoc, with escapes and interpolation) denotes exactly the value its text describes in every position of a program; white space and comments separate tokens without changing the program, and line numbers count every line.',
  ['inputs'], 'all literals up to the stated length over an alphabet containing every special character; all pairs of fillers between tokens',
  'tests contain a few literals of each kind and no odd combinations of escapes, quotes and markers',
  ['scanner.c', 'parser.c', 'compiler.c'], [('token scanning', 'scanner.c scanToken, number, doubleQuotedString, singleQuotedString, heredocString'), ('interpolation', 'parser.c primary'), ('number conversion', 'compiler.c emitNumber')], observe=['value of the literal', '__LINE__'])
p('C07', 'A map is a finite function from keys to values',
  'After any sequence of insertions, replacements, deletions, merges, clears and copies, a lookup finds exactly the last value stored under an equal key, size/keys/values/each/foreach visit every entry exactly once, two maps are equal iff they hold equal entries, and a copy is independent of the original. Keys of any kind that are equal (numbers, strings, nil, booleans, arrays, instances with opEquals/hashKey) denote the same entry.',
  ['histories', 'inputs'], 'all sequences of two or three operations over every key kind on maps of 0-7 entries; all integer keys of a range',
  'tests insert few distinct keys and never hit deletion, tombstones, rehash and probing in combination',
  ['map.c', 'table.c', 'value.c'], [('hash table', 'table.c tableSet/tableGet/tableDelete/adjustCapacity'), ('map methods', 'map.c')], observe=['results of lookups', 'keys, values and sizes seen by iteration'])
p('C08', 'An array behaves as the sequence of its elements',
  'Every Array operation (push, <<, pop, pushFront, popFront, deleteAt, delete, [], []=, first, last, reverse, sort, dup, clear, fill, join, equality) produces the sequence its definition prescribes, for every index including negative and out of range ones, leaves other arrays (and the literal it came from) unchanged, and keeps the element count and order consistent.',
  ['histories', 'inputs'], 'all sequences of two or three operations on arrays of 0-6 elements with all indices around the bounds; symbolic elements for comparison based operations',
  'tests use one or two calls per method with in-range indices',
  ['array.c', 'vec.c', 'vm.c', 'object.c'], [('array methods', 'array.c'), ('shared literal copies', 'array.c ARRAY_IS_SHARED / static literals')], observe=['elements and size of every array after each operation'])
p('C09', 'A string behaves as the sequence of its bytes',
  'Every String method (push, <<, insertAt, [], []=, clear, dup, padRight, +, *, substr, rest, split, index, endsWith, compact, compactLeft, inspect, parseInt, size, toString, interpolation) yields and leaves the bytes its definition prescribes for every content and every index of the stated range, out of range indices are reported or ignored as defined, and mutating a string changes exactly the variables that refer to the same object: never a copy, another string, or the literal it came from.',
  ['histories', 'inputs'], 'all sequences of two or three mutating operations on strings from every kind of literal; all strings of up to 4 or 5 characters over every special character for the pure methods',
  'tests call a few methods once on ordinary strings; empty strings, one-character strings, boundaries and literals evaluated again are not sampled',
  ['string.c', 'object.c', 'vm.c'], [('string methods', 'string.c'), ('buffer growth and sharing', 'object.c pushCString, insertCString; string.c dedupString'), ('literal evaluation', 'vm.c OP_STRING')], observe=['contents of every string after each operation', 'results of the methods'])
p('C10', 'Strings and names are equal exactly when their characters are',
  'Two strings compare equal, find the same map entry and denote the same variable, property, method, function or parameter if and only if they have the same characters, whether or not their hashes are cached or collide.',
  ['inputs'], 'all pairs of short strings, and all collisions of the hash function in a family of names',
  'a test would have to know two colliding strings',
  ['value.c', 'object.c', 'table.c'], [('string equality', 'value.c valEqual, object.c objStringEquals'), ('interning', 'table.c tableFindString, object.c internedString')], observe=['result of ==', 'values of variables, properties and entries'])
p('C12', 'Arguments are bound to the parameters they are for',
  'For every signature (required, default, rest, keyword and block parameters) and every call (positional arguments, splats, keywords, a block), by whichever route (call, method, super, send, initializer, yield), each parameter receives the argument or default the language assigns to it, or the call throws an ArgumentError; the arguments are evaluated once, from left to right, and nothing is left on the stack.',
  ['inputs'], 'all combinations of signatures and calls within the bounds, all argument values',
  'the number of combinations of kinds of parameters, arguments and call routes is in the tens of thousands; tests hold a few dozen',
  ['vm.c', 'compiler.c'], [('binding', 'vm.c doCallCallable, callFunctionValue'), ('splats and call info', 'compiler.c emitCall; vm.c SPLAT_ARRAY, CHECK_KEYWORD'), ('default values', 'vm.c funcOffset; compiler.c emitFunction')], observe=['values of the parameters', 'ArgumentError thrown', 'value stack'])
p('C14', 'Closures keep the variables they were created over',
  'A closure refers to the variables visible where it was written: it sees later assignments, its own assignments are seen by everyone else who shares the variable, every iteration of a loop body and every call has fresh variables, and this stays true after the variable went out of scope however that happened (end of block, break, continue, return, throw).',
  ['inputs', 'histories'], 'all generated nestings of scopes, loops and exits, all values deciding which path is taken',
  'which of the exits closes which variables is decided by generated code paths that tests take one at a time',
  ['compiler.c', 'vm.c'], [('resolving and capturing', 'compiler.c resolveUpvalue, addUpvalue; vm.c captureUpvalue'), ('closing', 'vm.c closeUpvalues, OP_CLOSE_UPVALUE, OP_BREAK; compiler.c popScope, popLoopLocal')], observe=['values read through closures and variables', 'value stack'])
p('C15', 'Blocks and iterators run with the block rules of the language',
  'A block given to an iterating method or yielded to sees the variables of the function it is written in, runs once per element in order, and break, continue, return and throw in it end exactly the block, the iteration or the call they belong to, with the value the language gives them; the iterating method returns its result and the stacks are as before.',
  ['inputs', 'histories'], 'all generated combinations of iterators and block bodies, all element values',
  'the control flow of blocks goes through errors, long jumps and native frames; a leaked frame or entry shows only in later calls',
  ['vm.c', 'runtime.c', 'array.c', 'map.c', 'block.c'], [('block control flow', 'vm.c yieldBlockCatch, BLOCK_BREAK, BLOCK_CONTINUE, v_blockStack'), ('iterators', 'array.c lxArrayEach.., map.c lxMapEach, iter.c')], observe=['trace of what ran', 'results', 'value stack and frames'])
p('C23', 'Recursion is limited by an error, never by a crash',
  'However deep calls nest, of whatever kinds (functions, methods, blocks, iterators, operators, send, toString, errors being thrown), the program either computes its result or gets a "Stack overflow" Error it can catch, after which it goes on normally.',
  ['inputs', 'histories'], 'all depths in the ranges around the limits, for every kind of recursion',
  'tests do not recurse deeply; each kind of call has its own limit on three different stacks',
  ['vm.c', 'vm.h'], [('limits', 'vm.c pushFrame, push, stackOverflow; vm.h STACK_MAX, FRAMES_MAX')], observe=['result or error caught', 'memory safety', 'state of the stacks after'])
p('C16', 'Garbage collection never changes what a program does',
  'Whenever a young or full collection happens (at any allocation while compiling or running), every object the program or the interpreter still uses survives it unchanged, and the program computes the result it computes without collections.',
  ['schedules', 'histories'], 'all positions of one or two collections among the allocations of the harness programs',
  'tests run with collections at a few accidental points; a missing root or write barrier shows only when a collection falls into a window of one allocation',
  ['memory.c', 'object.c', 'vm.c', 'compiler.c', 'binding.c', 'regex.c'], [('roots, marking and write barriers', 'memory.c collectYoungGarbage, collectGarbage, blackenObject; memory.h OBJ_WRITE'), ('temporarily hidden objects', 'hideFromGC/unhideFromGC, stackObjects')], observe=['results of the programs', 'accesses to freed objects'])
p('C18', 'Any source text is either compiled or rejected with an error',
  'For every text given to the interpreter, scanning, parsing and compiling it ends with compiled code or a reported syntax error; it never reads or writes outside its buffers, aborts or hangs, and the compiler works normally on the next text.',
  ['inputs'], 'all byte strings of the stated length over an alphabet with every special character, and all token and phrase sequences of the stated length, in every syntactic context',
  'tests contain only well formed programs and a handful of syntax errors',
  ['scanner.c', 'parser.c', 'compiler.c', 'nodes.c'], [('token scanning', 'scanner.c scanToken'), ('recursive descent', 'parser.c'), ('code generation', 'compiler.c emitNode')], observe=['compiled or rejected', 'memory safety'])
p('C13', 'Methods are found along the inheritance chain, and super continues it',
  'For every class hierarchy with included modules, extended objects and singleton methods, calling a method, getter, setter or static method runs the first definition along the chain (singleton, extended modules, class, its modules last included first, superclass, ...), super runs the next one with the same receiver, and if there is none an Error is thrown or methodMissing is called.',
  ['inputs', 'histories'], 'all combinations of definitions, super calls and module inclusions in hierarchies within the bounds',
  'the number of hierarchies is in the tens of thousands; tests hold a dozen, none with super through modules included more than once',
  ['vm.c', 'object.c', 'runtime.c'], [('method lookup', 'object.c instanceFindMethod, instanceFindGetter, classFindStaticMethod'), ('super', 'vm.c OP_GET_SUPER, OP_INVOKE super lookup'), ('modules', 'runtime.c include, extend; object.c iclass')], observe=['which definitions ran, in which order, with which receiver', 'errors thrown'])
p('C25', 'Leaving the interpreter: output, exit handlers, finalizers and status',
  'However a script ends (its end, exit() anywhere, an uncaught error, _exit(), a syntax error), everything it printed has reached its output; the functions given to atExit() run once each, last first, also when one of them throws, exits or registers another (not after _exit() or a syntax error); then the remaining finalizers run once; the exit status is the one given to the last exit(), 1 after an uncaught error, and 0 otherwise. The end of a thread other than the main one ends only that thread.',
  ['inputs', 'histories'], 'the listed kinds of ends with any handlers and finalizers, every status',
  'tests run scripts to one of their ends and compare what they printed',
  ['main.c', 'vm.c', 'runtime.c', 'memory.c'], [('ends of the process', 'vm.c stopVM, _stopVM, runAtExitHooks, callFunctionShowError; main.c main'), ('natives', 'runtime.c lxExit, lx_Exit, lxAtExit'), ('finalizers', 'memory.c callFinalizer, freeObjects')], observe=['output', 'exit status', 'order of handlers and finalizers'])
p('C20', 'Code evaluated with eval(), instanceEval() or a binding behaves as if it stood there',
  'eval(code) computes what the code computes written in place as a block: it reads and assigns the visible variables of the function that calls it (its parameters and locals, those of the innermost scope where names repeat) and no others, has variables of its own that end with it, can define and call functions, classes and closures, and an uncaught error in it is thrown at the call; variables, values being computed, closures and `this` of the calling functions are otherwise untouched. instanceEval() does the same with another `this`; Binding#eval does it with the variables of the function that made the binding, which keeps their new values, and leaves those of its caller alone. A return ends the evaluated code only. (Variables of enclosing functions that a function reads only as a closure are not visible to code it evaluates.)',
  ['inputs', 'histories'], 'the listed codes in the listed functions, every value of the variables',
  'tests evaluate a few lines in one or two functions; where variables live depends on everything around the call',
  ['vm.c', 'compiler.c', 'binding.c', 'runtime.c'], [('evaluation', 'vm.c doVMEval, doVMBindingEval, popFrame, closeUpvalues; runtime.c lxEval, lxObjectInstanceEval; binding.c lxBindingEval'), ('visible variables', 'compiler.c initEvalCompiler, initBindingEvalCompiler, addLocal, patchOffsetsAround')], observe=['values of variables', 'values of closures', 'errors', 'stacks'])
p('C26', 'The text of a value',
  'print, String(v), interpolation and Array#join give the same text for a value, determined by what it contains: toString() of the instance if its class defines it (also inside containers), else the form of its kind (name of the class, function or method, [a,b] for arrays, {k => v} for maps, in iteration order); inspect() likewise gives literals, with inspect() of the elements; text of a container that contains itself ends with [...] or {...}. The result is a new string, values are not changed by it, and print writes exactly this text and a newline.',
  ['inputs'], 'all values of the listed kinds and nestings, all characters',
  'tests print a few values of a few kinds; the text of a kind goes through buffers, natives and overrides depending on where it stands',
  ['value.c', 'object.c', 'vm.c', 'runtime.c', 'array.c', 'map.c', 'string.c'], [('text', 'value.c valueToString, valueToInspectString, printValue, printInspectValue; runtime.c lxObjectInspect, lxClassInspect, lxModuleInspect; array.c lxArrayToString, lxArrayInspect; map.c lxMapToString; string.c lxStringInspect')], observe=['output', 'strings', 'value stack'])
p('C22', 'Scripts that load scripts',
  'requireScript(name) finds the first file of that name (or the name with .lox) along loadPath, or the absolute path, runs it as a script of its own and gives true; a script that was required before, by whatever name or from wherever, or whose run is under way, is not run again and false is given. loadScript runs it every time. autoload runs the script when the constant is first used. A missing or unreadable file is a LoadError, one that does not compile a SyntaxError, an error thrown in a script reaches the caller; in all cases the variables and values of the caller and __FILE__ are as before and files are closed.',
  ['inputs', 'histories'], 'the listed trees, scripts and sequences of operations',
  'tests load a script or two that exist; the order of files, repeated and cyclic loading and failures combine in many ways',
  ['runtime.c', 'vm.c', 'compiler.c'], [('loading', 'runtime.c loadScriptHelper, lxAutoload; vm.c loadScript, VMLoadedScript, OP_GET_CONST; compiler.c compile_file')], observe=['which scripts ran', 'results and errors', 'caller variables', 'open files'])
p('C24', 'Constants are those of the place where the code is written',
  'A constant used in a method, getter, setter, initializer, closure, block, eval or handler is the one defined in the class or module it is written in, its superclasses and included modules, or else in what that is nested in, or else at the top level; only when there is none, a method also finds those of its receiver\'s class. It does not depend on where, through which subclass, native iterator, thread or function the code is called. Assigning a constant or defining a class or module defines it in the class or module whose code that is, and nowhere else; an undefined constant is a NameError.',
  ['inputs', 'histories'], 'every choice of the places that define the name, kinds of code and callers in the stated program shape',
  'tests define a constant in one place; which of several definitions is found depends on all of nesting, inheritance, inclusion, kind of code and caller',
  ['vm.c', 'runtime.c', 'object.c'], [('constants', 'vm.c OP_GET_CONST, OP_SET_CONST, OP_CLASS, OP_MODULE, OP_SUBCLASS, findConstant, pushCref; runtime.c findConstantUnder')], observe=['value found', 'where a new constant is', 'errors'])
p('C27', 'The library scripts keep their contracts',
  'A Set is a finite set: membership, size, removal, iteration and comparison are those of the set of elements added, whatever their order, duplicates and kinds. Generated accessors read and write the attribute of their name of each instance separately; a delegated method calls the named object with the same arguments and gives back its result or error, and calls no other; an OpenStruct answers what was assigned to it (nil for other properties, a NameError for calls with arguments); Singleton classes have one instance each; OptParser runs the handlers of the arguments in their order and throws at the first without one; assert throws exactly when its condition is false or nil; pp writes elements and entries one per line, indented by depth, and marks a container within itself.',
  ['inputs', 'histories'], 'all values of the elements and all sequences of operations of the stated length',
  'the examples use each script once or not at all; none combines operations, equal elements of different origin, or several instances',
  ['lib/set.lox', 'lib/attrs.lox', 'lib/delegate.lox', 'lib/openstruct.lox', 'lib/singleton.lox', 'lib/optparser.lox', 'lib/assert.lox', 'lib/pp.lox', 'vm.c', 'runtime.c'], [('sets', 'lib/set.lox on map.c'), ('generated methods', 'lib/attrs.lox, lib/delegate.lox, lib/openstruct.lox on defineMethod, methodMissing')], observe=['results', 'elements', 'output', 'errors'])
p('C28', 'Methods and fields that change while the program runs are what calls and reflection see',
  'After any sequence of defining, redefining, aliasing, including, extending, shadowing by a field, copying with dup() or defining methodMissing: a call, send, a bound method and a property access find the definition that the current classes, modules and the object itself give, with its own super; an alias keeps the method it was made of; a function made a method of several classes, or a class body that runs for several objects, works in each; a copy has the class and fields, not the object\'s own methods; respondsTo, hasProperty, hasGetter, ancestors, superClass and isA say the same; methodMissing gets the name and arguments of exactly the calls that find nothing; methodAdded is called once for each method.',
  ['histories'], 'every sequence of the stated number of operations of 15 kinds, all values of the fields',
  'tests define a class and then use it; what redefinition, aliasing and inclusion in one order or another give needs all orders',
  ['vm.c', 'object.c', 'runtime.c'], [('definition', 'vm.c defineMethod, addMethod, GET_SUPER, superLookupStart; runtime.c lxClassAliasMethod, lxClassDefineMethod, lxClassInclude, lxObjectExtend, lxObjectDup'), ('lookup', 'object.c instanceFindMethod; vm.c OP_INVOKE, callMethod, propertyGet')], observe=['results', 'answers of reflection', 'errors'])
p('C21', 'Threads behave as if their instructions were interleaved, and mutexes exclude',
  'Wherever threads are switched, each thread computes what it computes alone from its own locals, errors and blocks; what a thread does between lock and unlock is not interleaved with what others do under the same mutex; joining waits for the end; a mutex is always handed on to a waiter and released when its thread ends; an uncaught error ends only its thread; the program always ends.',
  ['schedules', 'histories'], 'every point of a switch among the instructions of the stated number, every order of wake-ups, with the stated numbers of threads',
  'the scheduler switches every 10000 instructions, so tests of threads run each thread in one go',
  ['vm.c', 'runtime.c', 'object.h'], [('global lock', 'vm.c acquireGVL, releaseGVL, THREAD_OPS_UNTIL_SWITCH'), ('thread states', 'vm.c LxThread, exitingThread, threadDetachPid'), ('mutexes', 'runtime.c lxMutexLock, lxMutexUnlock')], observe=['values computed by each thread', 'errors', 'owner and waiters of mutexes', 'deadlock'])
p('C19', 'Every operation given any value returns a value or throws an Error',
  'For every builtin method, function and operation of the language and values of any kind as receiver and arguments, it gives a value or throws an Error the program can catch; the interpreter is never aborted, corrupts no memory and works normally afterwards, its stacks as before.',
  ['inputs'], 'all combinations of builtin methods, functions and operators with receivers and arguments of the listed kinds',
  'there are tens of thousands of combinations of methods and kinds of values; tests call methods with the values they are meant for',
  ['runtime.c', 'string.c', 'array.c', 'map.c', 'regex.c', 'binding.c', 'block.c', 'thread.c', 'object.c', 'vm.c'], [('argument checks', 'runtime.h CHECK_ARG_*, checkArity in every native function'), ('operators', 'vm.c vm_run OP_*')], observe=['values or errors', 'memory safety', 'stacks', 'working of the interpreter afterwards'])
p('C17', 'Frozen objects do not change',
  'After freeze(), nothing a program does with a string, array, map, error or other object changes its characters, elements, entries or fields until it is unfrozen: every operation that would change it throws an Error and has no effect; operations that only read it, and changes of copies of it, work as for any object.',
  ['inputs', 'histories'], 'all builtin methods and operations, with arguments of all kinds, on frozen objects and unfrozen twins',
  'no test freezes anything but a string literal; each of the about 60 builtin methods that change something needs its own check',
  ['object.c', 'string.c', 'array.c', 'map.c', 'runtime.c', 'vm.c'], [('freezing', 'object.c objFreeze; object.h isFrozen'), ('checks', 'isFrozen() in array.c, string.c, map.c, object.c, vm.c propertySet')], observe=['contents and fields before and after', 'errors thrown'])
p('X01', 'I/O and process primitives report every failure',
  'Every failing read, write, open, fork, exec, wait, directory or socket operation raises an error in the calling program and never silently loses data.',
  ['fault_sequences'], 'every failure of every system call', 'tests never inject faults',
  ['io.c', 'file.c', 'dir.c', 'process.c', 'socket.c'], [('error checks after system calls', 'io.c, file.c, process.c, socket.c')],
  na='the code is a thin layer over system calls (read, open, fork, socket, select): what decides the property is the kernel, which the symbolic executor does not model; checking it against an invented file and process model would test the model')
p('X02', 'Time, random numbers and signal delivery follow the system',
  'Time values, pseudo random numbers and signal handlers reflect the system clock, a seeded uniform generator and the signals sent to the process.',
  ['histories'], 'all clock values, seeds and signal arrival times', 'tests only check that the calls exist',
  ['time.c', 'rand.c', 'signal.c'], [('wrappers of libc', 'time.c, rand.c, signal.c')],
  na='thin wrappers of libc time/strftime/random/sigaction, which live outside the encoded code; asynchronous signals are outside the executor')
