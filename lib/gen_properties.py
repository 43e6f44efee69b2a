import json
M='paradigm/_core/models.py'; S='paradigm/_core/signatures.py'; SC='paradigm/_core/scoping.py'; ST='paradigm/_core/stubs.py'
CA='paradigm/_core/caching.py'; MO='paradigm/_core/modules.py'; EX='paradigm/_core/execution.py'; EV='paradigm/_core/arboreal/evaluation.py'; AN='paradigm/_core/annotated.py'; IX='paradigm/_core/index.py'; DI='paradigm/_core/discovery.py'; SO='paradigm/_core/sources.py'
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None):
    assert len(title)<=80,(id,len(title))
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=None))
    if state: d['anchors']['state']=[dict(name=n,meaning=m,where=w) for n,m,w in state]
    P.append(d)
p('C01','Signatures can be built exactly from legal Python parameter lists',
 'A plain signature is accepted if and only if its parameters could be written in that order in a Python function definition (unique names, kinds in definition order, no required positional after an optional one, at most one parameter of each variadic kind), a required parameter is never variadic, a variadic parameter never has a default, and everything else is rejected with an exception. An overloaded signature is accepted if and only if it consists of two or more plain signatures. An accepted object reports exactly the parameters, kinds, names, annotations, defaults, return annotation or overloads it was given, in order.',
 ['inputs'],'every sequence of parameters (any kinds, optionality, defaults, repeated names) and every sequence of signatures',
 'The tests only build signatures through strategies that already produce legal ones; no test enumerates illegal lists or checks that each legal one is accepted.',
 [M],[('constructor validation of adjacent parameters, visited names and kinds',M+' PlainSignature.__new__'),('kind and default validation',M+' RequiredParameter.__new__, OptionalParameter.__new__'),('overload validation',M+' OverloadedSignature.__new__')],
 ['construction of RequiredParameter/OptionalParameter/PlainSignature/OverloadedSignature and their attributes'])
p('C02','all_set tells exactly whether the call would succeed',
 'For a plain signature, all_set(*args, **kwargs) is true if and only if a Python function defined with those parameters could be called with those arguments without an argument-binding error. The answer depends only on how many positional arguments and which keyword names are given, and asking never changes the signature.',
 ['inputs'],'every legal parameter list and every combination of positional count and keyword names, including names that match no parameter, positional-only parameters and already filled parameters',
 'The tests relate all_set to expects and to signatures generated without a reference semantics; they never compare with what Python itself accepts.',
 [M],[('argument accounting',M+' PlainSignature.all_set')],['PlainSignature.all_set'])
p('C03','expects tells exactly whether a call can still be completed',
 'For a plain signature, expects(*args, **kwargs) is true if and only if some further keyword and positional arguments exist with which a Python function defined with those parameters could be called successfully while keeping the given ones (positional arguments are only appended). Whenever all_set holds, expects holds for the same arguments.',
 ['inputs'],'every legal parameter list and every combination of positional count and keyword names',
 'The tests check chosen argument shapes derived from the signature itself; completability against Python semantics is never quantified.',
 [M],[('argument accounting',M+' PlainSignature.expects')],['PlainSignature.expects'])
p('C04','bind behaves as partial application of the arguments',
 'bind(*args, **kwargs) raises TypeError exactly when expects(*args, **kwargs) is false; otherwise the result accepts, in all_set and in expects, exactly the further arguments with which functools.partial of a function with those parameters could be called or completed (later keywords override earlier ones), apart from keywords naming an already consumed positional parameter of a signature with variadic keywords, which the result no longer knows. The same holds for any sequence of binds, and the original signature is left unchanged.',
 ['inputs','histories'],'every legal parameter list, every sequence of bind calls with any positional counts and keyword names, and every follow-up call',
 'The tests bind once with arguments that fill known parameters; they never compare the remaining signature with a partially applied function nor chain binds.',
 [M],[('positional consumption',M+' _bind_positionals'),('keyword consumption',M+' _bind_keywords')],['PlainSignature.bind and the bound signature'])
p('C05','A bound signature keeps the untouched parameters and records bound values',
 'The parameters of a bound signature are the original ones in their original order without those consumed positionally; each keeps its name and annotation, and the return annotation is kept. Parameters bound by keyword become keyword-only optional parameters whose default is the bound value, positional-or-keyword parameters after the first of them become keyword-only and a variadic positional after it disappears, all the others keep kind, optionality and default. Binding nothing gives an equal signature.',
 ['inputs','histories'],'every legal parameter list, annotation and default assignment, and every accepted bind or sequence of binds',
 'Tests only look at the number or acceptance of parameters after a single bind, not at kinds, defaults and bound values of each of them.',
 [M],[('parameter rewriting',M+' _bind_keywords, _bind_positionals')],['parameters and returns of the result of bind'])
p('C06','An overloaded signature is the ordered union of its alternatives',
 'all_set and expects of an overloaded signature hold exactly when they hold for at least one of its plain signatures. bind raises TypeError exactly when no alternative expects the arguments; otherwise it gives the results of binding the alternatives that expect them, in the original order, and collapses to a plain signature when only one remains.',
 ['inputs','histories'],'every sequence of two or more plain signatures, every argument combination and every sequence of binds',
 'Tests exercise overloads with arguments expected by a sampled alternative; neither order, completeness of the surviving set nor the collapse is checked for all combinations.',
 [M],[('any() over alternatives and filtering by expects',M+' OverloadedSignature.all_set/expects/bind'),('flattening',M+' from_signatures')],['OverloadedSignature.all_set/expects/bind'])
p('C07','Signature equality is a discriminating equivalence that agrees with hash',
 'Equality of parameters and of signatures is reflexive, symmetric and transitive, and equal ones have equal hashes. Two of them are equal exactly when they agree on the class and order of the parameters, names, kinds, optionality, defaults, and annotations up to respelling of the same type: the order and spelling of unions (including Optional and the | operator) and literals, typing aliases against the builtin generics they stand for, and separately created type variables or new types with the same definition.',
 ['inputs'],'all pairs and triples of parameters and signatures over nested annotations built from classes, generics, unions, optionals, literals, callables, tuples and type variables, and over hashable defaults other than NaN',
 'Equality tests draw independent or identical samples, so near misses (same type spelled differently, one field different) practically never meet.',
 [M,AN],[('field-wise comparison',M+' __eq__'),('structural annotation comparison and hashing',AN+' are_equal, to_hash')],['== and hash() of parameters and signatures'])
p('C08','Pickle, copy and repr round trips preserve signatures',
 'For every parameter and signature built from picklable parts, unpickling its pickle (protocol 2 or later), copy.copy and copy.deepcopy each give an equal object of the same class that answers all_set, expects, bind, str and repr identically; evaluating its repr, with the public names and the mentioned modules in scope, gives an equal object whenever the annotations and defaults have evaluable representations. Whether an optional parameter has a default survives too, also when the default is None.',
 ['inputs','histories'],'every signature reachable by construction and binds, at any point of its history, every pickle protocol from 2 on',
 'Tests round-trip sampled fresh signatures through one protocol and compare with equality only; bound signatures and behaviour after the trip are not compared.',
 [M,AN],[('__getnewargs_ex__/__getnewargs__',M),('representation of annotations',AN+' to_repr')],['pickle/copy/repr of parameters and signatures'])
p('C09','str shows a signature as the Python parameter list it stands for',
 'str of a plain signature lists the parameters in order as in a Python definition, with annotations and defaults, a "/" right after the last positional-only parameter and only if there is one, a bare "*" right before the first keyword-only parameter only if there is no variadic positional, "*" and "**" before variadic names, and " -> " with the return annotation; an overloaded one joins its alternatives with " | " in order. Hence different parameter names, kinds, optionality with defaults or order never print alike, for parameters whose annotations and defaults print distinctly.',
 ['inputs'],'every legal parameter list with any mix of kinds, defaults and annotations',
 'Tests only check that nested parts occur in the string and that it is a string; the placement of separators is never checked.',
 [M],[('assembly by kind',M+' PlainSignature.__str__')],['str() of signatures and parameters'])
p('C10','Signatures of user-defined callables accept exactly what calls accept',
 'For functions, lambdas, coroutine functions, bound methods, static methods, class methods, and classes defined in user code (constructed by an initializer or an allocator, own or inherited), the signature has the parameters a caller has to supply, with their names, kinds, annotations (Any if absent) and defaults, and all_set on it is true exactly for the argument shapes the real call accepts (keywords naming a receiver beside variadic keywords apart). This also holds for renamed, nested, closure and functools.wraps-decorated functions and for user modules, functions and classes that share names with builtins or with modules described by type stubs; the return annotation is the declared one (Any if absent), and Self for classes.',
 ['programs','inputs'],'every definable parameter list in every kind of user-defined callable, and every argument shape',
 'Existing tests check a handful of callables and only that a signature comes back.',
 [S,M],[('dispatch on the callable type with fallback to introspection',S+' from_callable'),('conversion of parameters',S+' _from_raw_signature, _parameter_from_raw')],['signature_from_callable on user-defined callables'])
p('C11','Signatures of partials and bound methods are the bound signatures',
 'For any callable with a signature, the signature of functools.partial of it equals binding the partial arguments to the signature of the callable, also for nested partials, and is a TypeError when the arguments do not fit. For a method bound to an instance, from user code or the standard library, the signature equals that of the function reached through its class with the receiver bound, so the receiver is not among the parameters; this includes methods reached through super(), aliases and receivers that override the method.',
 ['inputs','programs'],'every supported callable, user-defined or from the standard library, every tuple of partial arguments and every nesting',
 'Tests take signatures of partials only to see that a signature comes back, they do not compare it with the one of the underlying callable.',
 [S],[('partial and method registrations',S+' from_callable for functools.partial, MethodType, BuiltinMethodType, MethodWrapperType')],['signature_from_callable on partials and bound methods'])
p('C12','Asking for a signature either answers or raises TypeError/ValueError',
 'For every object found in the standard library modules of the running interpreter, and every user-defined object, asking for the signature terminates and either returns a well-formed plain or overloaded signature or raises TypeError or ValueError; no other exception escapes, and functions, classes, methods and partials described by the type stubs always get an answer. Asking again gives an equal answer.',
 ['inputs'],'all objects reachable from importable standard library modules, and user-defined callables and non-callables',
 'The tests sample supported callables with a list of exclusions; the full population is never walked.',
 [S,EV,SC],[('dispatch and fallback on missing stubs',S+' from_callable, _from_callable'),('evaluation of stub annotations',EV)],['signature_from_callable over the whole standard library'])
p('C13','Standard library signatures say what the type stubs say',
 'For a standard library function, method or class described by the bundled type stubs under the running platform and version, the signature has exactly the overloads of the stub in order; each has the stub\'s parameters in order with their names, the positional ones reported as positional-only, keyword-only and variadic ones as such, optional exactly when the stub gives a default, and with the annotations and return type of the stub (Self for receivers and constructed classes, Any if absent). Classes take them from their initializer or allocator, the nearest one in the method resolution order, without the receiver.',
 ['inputs','configurations'],'every function, method and class of the standard library found in the type stubs',
 'Tests compare a couple of README examples; nothing compares the rest with the stubs.',
 [S,ST,IX,SC],[('stub parsing and tables',ST),('lookup of qualified paths',S+' resolve_qualified_paths, _to_class_builder_qualified_path'),('conversion of parameters',S+' _parameters_from')],['signature_from_callable on standard library callables, the stub files'])
p('C14','Names in stubs resolve the way Python and type checkers resolve them',
 'For a callable described by stubs, definitions are found through plain, aliased, relative, star and chained imports and re-exports, assignment aliases, nested classes, methods inherited from superclasses (nearest in method resolution order), and version or platform conditions, and annotations in them resolve in the scope of the stub that wrote them: enclosing class first, then module, then builtins. Branches not taken on the running version and platform have no effect.',
 ['programs','configurations'],'every set of stub modules with those features, in any combination and with any layout of modules and packages',
 'Tests only see the one bundled set of stubs; which features interact there is accidental.',
 [ST,SC,S,DI,SO],[('statement visitor building definitions, references, submodules, superclasses',ST),('path resolution',SC+' resolve_object_path')],['signature_from_callable for callables of synthetic stub sets'])
p('C15','Cyclic and self-referential stubs are handled and always terminate',
 'Stub modules that import each other in cycles, star-import each other, define classes and aliases referring to themselves or each other, or subclass through such cycles of modules are processed in finite time without an internal failure, and callables whose names are reachable through a cycle get the same signature as without it.',
 ['programs'],'every import graph among stub modules, cyclic or not, and every alias or class reference graph that type checkers allow',
 'The bundled stubs contain a fixed set of cycles; none of the tests varies them.',
 [SC,ST,EV],[('visited modules',SC+' resolve_object_path'),('placeholder for aliases under evaluation',EV+' evaluate_statement_node')],['import of the package and signature_from_callable with cyclic synthetic stubs'])
p('C16','Answers do not depend on query order, hash seed or cache state',
 'The signature returned for a callable is determined by the callable, the interpreter and the stubs: it is the same whatever was asked before it, in whichever order, however often, under any string hash seed, and whether the package was imported with a warm cache or had to build it.',
 ['histories','configurations'],'every order and multiplicity of queries, every PYTHONHASHSEED, cold and warm imports',
 'One test process has one hash seed, one order and usually a warm cache.',
 [S,EV,ST,MO,SC],[('memoised evaluation',EV+' evaluate_statement_node cache, evaluate_qualified_path caches'),('tables built from parsed stubs',ST),('sorted candidate paths',S+' resolve_qualified_paths')],['signature_from_callable in separate processes'])
p('C17','Concurrent queries give the same answers as sequential ones',
 'Any number of threads may ask for signatures of any callables at the same time, including the first queries after import, and each gets the answer it would get alone; no interleaving produces an exception, a partially evaluated annotation or a deadlock.',
 ['schedules'],'every interleaving of concurrent queries over shared and distinct callables',
 'All tests are single-threaded.',
 [EV,S,'paradigm/_core/arboreal/construction.py'],[('shared caches of evaluated objects',EV+' cache, objects_cache, modules_cache')],['signature_from_callable from several threads'])
p('C18','The on-disk cache never changes answers, whatever state it is in',
 'Importing the package with cache files that are missing, complete, from another package version, truncated at any byte, filled with garbage, unreadable or unwritable succeeds and gives the same answers as a fresh build; a writing process killed or failing at any point leaves at worst files that the next import detects and rebuilds. A failure to save is at most a warning, and a complete up-to-date cache is reused.',
 ['crash_points','fault_sequences','configurations'],'every byte at which writing stops, every order of faults and restarts, every mixture of file states',
 'Tests run with whatever cache is there; no test writes damaged ones or interrupts a save.',
 [CA,MO,ST],[('version field written last and compared on load',MO+', '+ST),('rebuild on any load failure, save failures as warnings',CA+' load, save')],['import of the package and the cache files beside it'],
 [('stubs and modules cache files','memoised tables with the package version as last field','paradigm/_core/_mypy_*_stubs.py, _mypy_*_modules.py')])
p('C19','Several processes may import the package for the first time at once',
 'Any number of processes importing the package concurrently, while others are building, writing or replacing the cache, all succeed in importing it and get the same answers as alone, and afterwards the cache is usable.',
 ['schedules','crash_points'],'every interleaving of first imports and cache writes by several processes, with kills of some of them',
 'Tests start one process.',
 [CA,MO,ST],[('load, rebuild and save protocol',CA+', '+MO+', '+ST)],['concurrent imports of the package'])
p('C20','Building the index runs in a contained child process',
 'While the package builds its tables, standard library modules are imported in a child process only: nothing they do on import happens in the importing process, which keeps its __main__ module, its loaded modules and its warnings filters. A module that fails to import with any kind of Exception is skipped and the others are still indexed; an error in the child is raised in the importing process with __main__ restored; a child that dies makes the import fail instead of hanging, after which importing again succeeds; a killed importing process leaves no child behind waiting for it. This holds in threads, forked, spawned and daemon processes (a daemon process may not have children and imports modules itself).',
 ['fault_sequences','crash_points'],'every point at which the child or an indexed module fails, raises, exits or is killed, and every retry afterwards',
 'Tests never make the child fail; the build normally ran before them.',
 [EX,IX,MO,DI],[('call in child process and result queue',EX+' call_in_process'),('skipping of failing modules',IX+' _index_module_path')],['import of the package with failing modules, sys.modules afterwards'])
p('C21','Answers follow the callable as it is when asked; asking leaves it alone',
 'The signature returned for a callable of user code describes the callable at the time of the question: after a function gets another code object, defaults, annotations or wrapped function, after members or the constructor of a class or of one of its superclasses are replaced, added or deleted, or its bases change, and after a callable is dropped and another one takes its place in memory, the next answer is the one for the new definition, also for subclasses, for bound methods kept from before and for partials of all these; deleting an override of a builtin method brings back the answer for the builtin. Signatures returned earlier stay what they were. Asking never calls the callable, changes no attribute of it, its class or its module, and keeps no callable, class or instance alive.',
 ['histories','programs'],'every history of changes to functions and classes and of questions in between',
 'Tests ask about each callable once and never change one.',
 [S],[('answers made anew from the callable',S+' from_callable and _from_raw_signature')],['signature_from_callable before and after changes to user functions and classes'])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
