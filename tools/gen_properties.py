import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=(),observe=()):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),
      why_tests_cant=why,anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
      mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=None)))
S='src/zope/security/'
p('C01','No operation reaches a proxied object unless its checker allowed it first',
 'Whenever code applies an operation to a security proxy (reading an attribute, calling, indexing, iterating, taking the length, containment, conversion to int/float/index, every unary, binary, reflected, three-argument-power and in-place operator), the proxy\'s own checker is asked first, with the real object and the name of that operation, before the real object is touched. If the checker raises, the operation is not performed on the object and that same exception is what the caller sees; if it allows, exactly that one operation is performed with the caller\'s operands, and the operation\'s own exception is passed on unchanged. Only reading the special methods of comparison, hashing and truth testing, which are always available, may skip the question. This holds for the C and the pure-Python proxy, for subclasses of the proxy type and for every operand, including the same object, other proxies and proxies on both sides of an operator.',
 ['inputs','configurations'],'all wrapped objects, checkers, operands, attribute names and all outcomes of the checker and of the operation, in both implementations',
 'The tests exercise each operator with one or two fixed objects and a checker stub; they cannot cover every aliasing of operands, every outcome of checker and object, or the operators a table forgot (an inherited slot is never mentioned by a test).',
 [S+'proxy.py',S+'_proxy.c'],
 [('check1/check2/check2i and the slot tables',S+'_proxy.c'),('_check_name, _check_name_inplace, __getattribute__',S+'proxy.py')],
 [('_wrapped / proxy_object','the real object',S+'proxy.py'),('_checker / proxy_checker','the checker consulted',S+'_proxy.c')])
p('C02','Whatever an operation on a proxy returns is itself put under protection',
 'The result of an attribute read, call, item access, iteration step, iterator creation, or unary, binary, reflected or in-place operator performed through a security proxy is never handed to the caller directly: it is passed to the proxy\'s checker for protection and the caller receives what the checker returns (or the exception the checker raises). The only exceptions are the proxy itself when an in-place operator really returned the object it was applied to, and results that are plain text, sizes, truth values or hash values (str, repr, len, containment, truth testing, hashing). No operation ever makes an existing proxy refer to a different object or a different checker.',
 ['inputs','configurations'],'all operations, results (fresh, the object itself, an operand, NotImplemented, None) and protection outcomes, in both implementations',
 'Tests check a handful of result types; a result that escapes unprotected only for a special result (the object itself, NotImplemented, a particular operand) is invisible to them.',
 [S+'proxy.py',S+'_proxy.c'],[('PROXY_RESULT',S+'_proxy.c'),('checker.proxy(res) in _check_name and __getattribute__',S+'proxy.py')])
p('C03','Writes through a proxy are checked as writes and do nothing if refused',
 'Setting or deleting an attribute through a security proxy first asks the checker for permission to set that attribute name on the real object; setting or deleting an item first asks it for the item-setting respectively item-deleting operation. When the checker refuses, its exception reaches the caller and the real object receives no write at all; when it allows, exactly the requested write, with the unchanged name or key and value, is made on the real object. A read permission never suffices for an attribute write.',
 ['inputs','configurations'],'all names, keys, values and checker/object outcomes, in both implementations',
 'Tests use fixed names and one allowing and one refusing checker; they cannot cover every name, value and outcome.',
 [S+'proxy.py',S+'_proxy.c'],[('proxy_setattro, proxy_setitem',S+'_proxy.c'),('__setattr__, __delattr__, __setitem__, __delitem__',S+'proxy.py')])
p('C04','Comparing, hashing, testing and printing a proxy never refuses and never leaks',
 'Ordering and equality comparisons, hashing and truth testing of a security proxy are delegated to the real object without asking the checker for access, giving exactly the object\'s own answer or exception; a comparison result other than True or False is put under protection before it is returned. str() and repr() ask the checker and give the object\'s own text only when it allows; when the checker refuses with any exception, the caller gets a generic text naming only the class of the object and its address, and the object\'s own text is never computed.',
 ['inputs','configurations'],'all wrapped objects, operands, comparison operators and outcomes, in both implementations',
 'Tests compare a few ints and use one refusing checker; non-boolean comparison results, exceptions raised inside the object and every operand aliasing are out of their reach.',
 [S+'proxy.py',S+'_proxy.c'],[('proxy_richcompare, proxy_hash, proxy_bool, proxy_str, proxy_repr, default_repr',S+'_proxy.c'),('the unchecked dunder methods, __str__, __repr__',S+'proxy.py')])
p('C05','A name-based checker grants reads exactly by its table, and denies by default',
 'For every object and name, a name-based checker\'s decision about an operation or attribute read depends only on its table: a name declared public is granted without consulting anything; a name declared with any other permission is granted if and only if the current thread\'s interaction answers true for exactly that permission on exactly that object, raises an authorization failure carrying the object, name and permission if it answers false, and never grants when there is no interaction or the interaction raises. A name that is not in the table (or is mapped to None) is granted only if it is on the fixed always-available list, or if it is the iteration operation and the object has no such attribute; otherwise it is refused as a forbidden attribute carrying the name and object. Both decision entry points (operation check and attribute-read check) and both implementations agree.',
 ['inputs','configurations'],'all tables, names (any string), objects, permissions and interaction outcomes, in both implementations',
 'Tests sample a few names and permissions and one interaction; the guarantee is about every string and every policy answer, including missing interactions, names that are not valid UTF-8 and tables holding None.',
 [S+'checker.py',S+'_zope_security_checker.c'],[('CheckerPy.check',S+'checker.py'),('Checker_check_int, checkPermission',S+'_zope_security_checker.c')],
 [('get_permissions','name -> permission table',S+'checker.py'),('_available_by_default','always available names',S+'checker.py')])
p('C06','A name-based checker grants attribute writes only by its write table',
 'For every object and name, permission to set an attribute depends only on the checker\'s write table: a name declared public is granted, a name declared with another permission is granted if and only if the current interaction answers true for that permission on that object (an authorization failure with object, name and permission otherwise, never a grant without an interaction), and every other name, including always-available ones and ones only readable, is refused as a forbidden attribute carrying name and object. The tables given at construction are the ones reported and used, a missing write table means nothing is writable, and asking for the permission of a name reports the declared permission or None. Constructing a checker from something that is not a dictionary fails with a type error.',
 ['inputs','configurations'],'all read and write tables, names, objects and interaction outcomes, in both implementations',
 'Tests sample a few names; the separation of read and write tables over all names and policy answers is not sampled.',
 [S+'checker.py',S+'_zope_security_checker.c'],[('CheckerPy.check_setattr, __init__, permission_id',S+'checker.py'),('Checker_check_setattr, Checker_init',S+'_zope_security_checker.c')],
 [('set_permissions','write table',S+'checker.py')])
p('C07','Protecting a value never double-wraps, swaps a checker, or forgets to wrap',
 'When a checker or the public proxy factory protects a value: an existing security proxy is returned as the very same object (and the factory raises a type error if asked to give it a different checker); otherwise the checker used is the one explicitly given, else the value\'s own declared security checker, else the one registered for its type, and the result is a proxy pairing exactly that value with exactly that checker. A value is returned unwrapped only if it declares no checker of its own and the registry says its type needs no protection. A proxy can never be created without a checker (None is refused).',
 ['inputs','configurations'],'all values (plain, proxied, with a declared checker, with a registered checker), all given checkers, in both implementations',
 'Tests try a few built-in values and one custom class; they do not cover the product of value kinds, declared checkers and registry answers.',
 [S+'checker.py',S+'_zope_security_checker.c',S+'proxy.py',S+'_proxy.c'],[('ProxyFactory, CheckerPy.proxy',S+'checker.py'),('Checker_proxy',S+'_zope_security_checker.c'),('proxy_new',S+'_proxy.c')])
p('C08','The checker chosen for an object is the registered one, else a deny-all default',
 'Choosing a checker for an object looks up exactly the object\'s own type in the registry: a registered checker is returned as is, the no-protection marker yields no checker, and a registered function is called with the object, repeatedly until it yields a checker, None or the no-protection marker (either of the last two meaning no checker) and its exception is passed on. A type that is not registered gets the default checker, which grants nothing but the always-available names; in the C implementation exception instances of unregistered types are left unprotected instead. Superclass registrations never apply to a subclass.',
 ['inputs','configurations'],'all registries, object types and chains of checker functions of any length, in both implementations',
 'Tests register one or two factories; chains of factories of arbitrary length and arbitrary registry contents are not explored.',
 [S+'checker.py',S+'_zope_security_checker.c'],[('selectCheckerPy',S+'checker.py'),('selectChecker',S+'_zope_security_checker.c')],[('_checkers','type -> checker registry',S+'checker.py')])
p('C09','A combined checker allows exactly what either checker allows',
 'A combination of two checkers grants an operation, attribute read or attribute write if the first grants it (the second is then not consulted) or else if the first refuses and the second grants it; if neither grants, the refusal is an authorization failure when either refusal was one (the first\'s if both were or the second only forbade), and forbidden only when both forbid. Any other exception of either checker is passed on unchanged and never treated as a grant. All entry points by which a proxy asks a combined checker give the same answer.',
 ['inputs','configurations'],'all pairs of outcomes of both checkers including arbitrary exceptions, for all three kinds of access, objects and names, in both implementations and with checker watching on or off',
 'The tests walk a 3x3 table with stub checkers for chosen names; arbitrary exceptions, exception subclasses and all entry points are not sampled.',
 [S+'checker.py'],[('CombinedChecker',S+'checker.py')])
p('C10','canAccess and canWrite report the decision and hide only authorization failures',
 'canAccess returns True exactly when the object\'s checker (its proxy\'s own, or the one it would be protected with) allows reading the name, False exactly when that check is an authorization failure, and passes every other exception on. canWrite likewise reports the write check, except that a forbidden write of a name whose read is allowed or merely unauthorized gives False, while a name whose read is forbidden too raises the forbidden-attribute error. Neither ever answers True when the corresponding check raised.',
 ['inputs','configurations'],'all objects, names and outcomes of the read and write checks',
 'Tests use a few names with stub checkers; they do not combine every write outcome with every read outcome and exception kind.',
 [S+'checker.py'],[('canWrite, canAccess',S+'checker.py')])
p('C11','Checker logging never changes a security decision',
 'A logging (watching) checker, plain or combined, grants exactly the operations, reads and writes that the same checker grants without logging, raises the very same exception when the underlying check refuses, and wraps values the same way, at every verbosity level. Every refusal is written to the log at any verbosity of at least one, and grants are logged only at higher verbosity.',
 ['inputs','configurations'],'all names, objects, decisions and verbosity levels, in both implementations and with watching switched on globally',
 'Tests assert some log lines; transparency over all decisions and verbosities is a relation between two checkers that they do not quantify over.',
 [S+'checker.py'],[('CheckerLoggingMixin, WatchingChecker, WatchingCombinedChecker',S+'checker.py')])
p('C12','Checker factories build exactly the declared table or report a conflict',
 'The checker built from a list of names, an interface or a list of specifications protects exactly the declared names (for an interface: all of its names, including inherited ones), each with exactly the permission declared for it, and no other name. If the same name is declared with two different permission objects, a duplication error is raised instead of silently picking one; repeating a name with the same permission object is harmless. The write table is empty.',
 ['inputs'],'all finite sequences of names, keyword declarations, interfaces and specifications, of any length and in any order',
 'Tests use two or three names; conflicts at arbitrary positions and arbitrary lengths need an induction over the sequence.',
 [S+'checker.py'],[('NamesChecker, InterfaceChecker, MultiChecker',S+'checker.py')])
p('C13','The checker registry never silently replaces an entry and stays in step',
 'Registering a checker for a type, class or module that already has one raises a duplication error and changes nothing; registering for anything else raises a type error; otherwise exactly that entry is added and all others keep their values, and unregistering removes exactly that entry. Setting an entry of the public table of basic types, deleting one, and updating the table from a mapping are reflected in the registry entry by entry and that table cannot be cleared. Clearing the registry restores exactly the default protections plus the basic types.',
 ['inputs','histories'],'all registry contents and all sequences of define, undefine, basic-type updates and clear',
 'Tests do single operations on one type; frame conditions (all other entries unchanged) over arbitrary registry states are not asserted.',
 [S+'checker.py'],[('defineChecker, undefineChecker, _BasicTypes, _clear',S+'checker.py')],[('_checkers','registry',S+'checker.py'),('BasicTypes','basic types table',S+'checker.py')])
p('C14','Built-in values are protected by default against mutation by untrusted code',
 'With no configuration, every built-in container, function, type, module, iterator and interface declaration that a checker protects is wrapped so that no operation that modifies the value (other than stepping an iterator) is permitted; only immutable values (numbers, strings, bytes, None, booleans, dates and times, messages, dictionary views) and interface-declaration results are handed out unwrapped. Names that are always available (comparisons, hash, truth, class, name, parent, representation and interface queries) are exactly the documented fixed list and include no mutating or content-revealing operation. Functions expose only calling, name and text, and classes only their naming and inheritance attributes.',
 ['inputs','configurations'],'all default-registered types and all of their attributes and operations (names outside every default table are refused for every string)',
 'Tests look at selected methods of list, dict, set and tuple; a name added to one of the twenty tables, or a type silently moved to the unprotected list, is not noticed.',
 [S+'checker.py'],[('_default_checkers, BasicTypes, _available_by_default',S+'checker.py')])
p('C15','Interactions follow a strict per-thread lifecycle',
 'In every history of starting, ending, restoring and querying interactions in a thread: starting one while one is active raises an existing-interaction error and changes nothing; otherwise the new current interaction is what the current security policy builds from exactly the given participations; ending moves the current interaction aside (or, if there is none, forgets the saved one), and restoring makes the saved one current again (or leaves no current interaction if none was saved). Querying reports the current interaction without changing anything, or None / a no-interaction error when there is none. Setting the policy returns the previous policy and affects only later interactions, and no thread sees or affects another thread\'s interaction.',
 ['histories','schedules'],'all thread-local states (current and saved interaction present or absent) and all operations, hence all histories; any number of threads',
 'Tests run a few fixed sequences; the guarantee is an invariant over every state and operation, including policy constructors that raise.',
 [S+'management.py',S+'_definitions.py'],[('newInteraction, endInteraction, restoreInteraction, queryInteraction, getInteraction, getSecurityPolicy, setSecurityPolicy',S+'management.py')],
 [('interaction / previous_interaction','current and saved interaction of the thread',S+'_definitions.py')])
p('C16','Permission checks ask the right interaction and fail closed',
 'Checking a permission on an object answers True without consulting anything only for the public marker or None; otherwise it returns exactly the answer of the interaction passed in, or of the thread\'s current interaction if none was passed, for exactly that permission and object. If there is neither, a no-interaction error is raised; an exception of the policy is passed on.',
 ['inputs','histories'],'all permissions, objects, interactions (including falsy ones) and thread states',
 'Tests use one stub interaction; falsy interactions, falsy permissions and every policy answer are not covered.',
 [S+'management.py'],[('checkPermission',S+'management.py')])
p('C17','The simple policies grant as documented and keep participations consistent',
 'Under the paranoid policy a permission is granted if and only if it is the public marker or no participation belongs to a principal other than the system user (in particular an interaction with no participations is unrestricted); the permissive policy grants everything. A participation belongs to at most one interaction: adding one that already belongs to an interaction or removing one that does not belong to this interaction raises a value error and changes nothing, and otherwise the participation list and the participation\'s back reference change together.',
 ['inputs','histories'],'all participation lists of any length in any order, all principals (including ones that compare equal to the system user), permissions and objects',
 'Tests use zero, one or two participations; the quantification over lists of any length and position needs induction.',
 [S+'simplepolicies.py'],[('ParanoidSecurityPolicy, PermissiveSecurityPolicy',S+'simplepolicies.py')],[('participations','participations of the interaction',S+'simplepolicies.py')])
p('C18','Class protection declarations change exactly the declared names',
 'Declaring a permission for reading (or writing) a name of a class makes the class\'s checker require exactly that permission for reading (respectively writing) that name, translating the public permission id to the public marker, and leaves every other name, the other table and every other class (that does not share the very same checker object) unchanged, creating an empty checker for the class first if there is none. Declaring a class to be protected like another copies every read and write declaration of the other class, keeps declarations the other does not mention, changes nothing when the other class has no checker, and never makes the two classes share a table.',
 ['inputs','histories'],'all registry states, classes (including the same one twice), names, permissions and existing tables',
 'Tests make one declaration on a fresh class; frame conditions over existing tables and aliasing of the two classes are not asserted.',
 [S+'protectclass.py'],[('protectName, protectSetAttribute, protectLikeUnto',S+'protectclass.py')])
p('C19','Configuration directives translate to exactly the declared protections',
 'A class-protection directive emits one conflict-detectable action per declared name, naming the class, the name and the declared permission: read protections for the attributes and for every name of the given interfaces, write protections for the given set-attributes and for exactly the writable fields of the given schemas; a like-class declaration emits its copy action before these, and an incomplete declaration (nothing to protect, or no permission) raises a configuration error and never an unprotected name. The allow directive is the same with the public permission. The module directives protect each name of the attributes and interfaces once with the given (or public) permission, and running a module action makes exactly that name of that module require exactly that permission.',
 ['inputs','configurations'],'all combinations of attributes, interfaces, set-attributes, schemas, like-class and permission, of any length',
 'Tests run selected ZCML snippets; the complete action list for arbitrary argument combinations is not compared.',
 [S+'metaconfigure.py',S+'metadirectives.py'],[('ClassDirective, protectModule, _names, allow, require',S+'metaconfigure.py')])
p('C20','Trusted adapters get bare objects and never leak an unprotected result',
 'A trusted adapter factory called with at least one security-proxied argument calls the real factory with every argument unproxied and returns the adapter security-proxied (as any value is protected: one that needs no protection stays bare); called without proxied arguments it passes them through and returns the adapter unproxied. An untrusted adapter factory passes its arguments through unchanged, proxies included, and does not add a security proxy. The adapter is given the first argument (unproxied for trusted ones) as its parent only if it is locatable without a parent; the locating variants (the trusted one only when it protects the result) wrap a non-locatable result in a location proxy with that parent, and an existing parent is never overwritten.',
 ['inputs'],'all argument tuples of any length, with proxies at any positions, all factories and adapters (locatable or not, with or without parent)',
 'Tests use one argument or two with fixed positions; a proxy at an arbitrary position of an arbitrary long argument list is not covered.',
 [S+'adapter.py'],[('assertLocation, LocatingTrustedAdapterFactory, TrustedAdapterFactory, LocatingUntrustedAdapterFactory',S+'adapter.py')])
p('C21','A decorated object is guarded by its own and its decorator\'s checker',
 'The security checker of a decorator around an object is the combination of the decorator\'s registered checker (consulted first) with the checker of the decorated object, which is the checker of its security proxy if it is proxied, else its declared checker, else the one registered for its type. If only one of the two exists that one is used, if neither exists the decorator has no security checker (attribute error), and the checker cannot be assigned.',
 ['inputs','configurations'],'all decorators, decorated objects (proxied, with declared checker, with registered or no checker)',
 'Tests use three or four combinations with fixed classes.',
 [S+'decorator.py'],[('DecoratedSecurityCheckerDescriptor',S+'decorator.py')])
p('C22','Only trusted functions see through a proxy, and a proxy cannot be altered',
 'Removing the security proxy returns exactly the object the proxy was created with and any non-proxy unchanged; getting the checker returns exactly the checker it was created with and raises a type error for a non-proxy; and the proxy-aware isinstance answers for the real object. No attribute read, write or deletion by code holding only the proxy yields the real object or the checker, or replaces either one, whatever the attribute name.',
 ['inputs','configurations'],'all wrapped objects, checkers and attribute names, in both implementations',
 'Tests try the two internal slot names once each for reading; all names, writes and deletions in both implementations are not covered.',
 [S+'proxy.py',S+'_proxy.c'],[('getObjectPy, getCheckerPy, isinstance, __getattribute__, __setattr__, __delattr__',S+'proxy.py'),('module_getObject, module_getChecker',S+'_proxy.c')])
p('C23','The C implementation is memory-safe and reference-exact on every path',
 'For every operation of the C proxy and the C checker and every outcome of every call they make, including failures: no null or dangling pointer is dereferenced, every object\'s reference count changes by exactly what the operation hands out or stores, and an error return happens exactly when an exception is set (except where the protocol allows a plain end of iteration). Deallocation and garbage-collection support release and report exactly the references held.',
 ['inputs','fault_sequences'],'all operations, operand aliasings and outcomes (success or failure) of every Python/C API call made',
 'Tests cannot make an arbitrary API call fail and do not count references; a leak or a crash on an error path is invisible to them.',
 [S+'_proxy.c',S+'_zope_security_checker.c'],[('all slot functions',S+'_proxy.c'),('all slot functions',S+'_zope_security_checker.c')])
p('C24','Permission declarations, vocabularies and redefinition are exact',
 'Validating a permission id accepts the public marker, accepts an id for which a permission utility is registered, and raises a value error for any other; listing permissions yields exactly the registered ids without the public one, the permission vocabulary has exactly one term per registered permission, and the id vocabulary lists all other ids sorted with the public permission, if registered, first and mapped to the public marker. A permission id in configuration is replaced by its redefinition if there is one, and the id as written is scheduled for validation unless it is the public one; redefining records exactly that mapping.',
 ['inputs','configurations'],'all sets of registered permissions, ids and redefinition mappings',
 'Tests register two or three permissions; arbitrary sets, orders and mappings are not covered.',
 [S+'permission.py',S+'zcml.py'],[('checkPermission, allPermissions, PermissionsVocabulary, PermissionIdsVocabulary',S+'permission.py'),('Permission field, redefinePermission, permission, securityPolicy',S+'zcml.py')])
p('C25','The testing interaction helper restores the interaction state it found',
 'The interaction context manager, when no interaction is active, runs its body under a new interaction for a principal with the given id and ends exactly that interaction when the body finishes or raises, passing the exception on; when an interaction is already active it leaves it untouched during and after the body. Creating an interaction for a principal makes that principal the only participant of the new current interaction.',
 ['histories','inputs'],'all prior interaction states, principal arguments and outcomes of the body',
 'Tests use a body that succeeds; an exception in the body, or an active but unusual interaction, is not covered.',
 [S+'testing.py'],[('interaction, create_interaction',S+'testing.py')])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
for x in P:
    assert len(x['title'])<=80,(x['id'],len(x['title']))
print(len(P))
