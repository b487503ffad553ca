"""Registered checks: for each property the harness, the repository units it links and its runs."""
CHECKS = {}


def check(prop, **kw):
    CHECKS[prop] = kw


check('P01', harness='P01.cpp', units=['Base64'], covers=['encoded', 'accepted', 'rejected'],
      bounds=['encode and round trip: every byte sequence of length 0..4 (thorough 0..6)', 'decode: every text of length 0..5 (thorough 0..7)', 'decode: every text of length 0..9 (thorough 0..12) over A-Z, "=" and characters outside the alphabet'],
      runs=[dict(arg='enc:4', thorough=dict(arg='enc:6')), dict(arg='dec:5', thorough=dict(arg='dec:7')), dict(arg='pad:9', thorough=dict(arg='pad:12'))])

SERVICE = ['GraphQLService', 'GraphQLResponse', 'Validation', 'Schema', 'IntrospectionSchema', 'Introspection', 'SyntaxTree', 'GrammarExec', 'Base64']
check('P07', harness='P07.cpp', units=SERVICE, covers=['included', 'left out'],
      bounds=['items: 2 root selections of 7 kinds (field, alias, spread, inline fragments, object with a nested conditional selection), none, one or both directives in both orders, symbolic variable conditions', 'lit: 1 (thorough 2) root selections with literal and variable conditions', 'nest: 3 (thorough 4) spreads, inline fragments with and without type condition and object fields inside each other, each with no, @skip or @include condition'],
      runs=[dict(arg='items:2'), dict(arg='lit:1', thorough=dict(arg='lit:2')), dict(arg='nest:3', thorough=dict(arg='nest:4'))])

check('P08', harness='P08.cpp', units=SERVICE,
      bounds=['root: documents of 3 (thorough 4) root selections out of fields with and without alias and argument, __typename, spreads of one of three fragments, inline fragments with and without type condition', 'nest: 2 (thorough 3) selections on a field of interface, union, list or nested list type; object types, nulls, list length 0..2 and integer values symbolic', 'deep: 3 (thorough 4) inline fragments and spreads of any matching type inside each other, with 0 or 2 fields before each, the outermost possibly spread twice', 'val: a field of each leaf kind and modifier nesting, symbolic values, lists of length 0..2 (thorough 3), strings of length 0..2'],
      runs=[dict(arg='root:3', covers=['root'], thorough=dict(arg='root:4')), dict(arg='nest:2', covers=['obj', 'other', 'empty list'], thorough=dict(arg='nest:3')), dict(arg='deep:3', covers=['deep'], thorough=dict(arg='deep:4')), dict(arg='val:2', covers=['value'], thorough=dict(arg='val:3', thorough=dict(arg='val:3')))])

check('P09', harness='P09.cpp', units=SERVICE,
      bounds=['fld: documents of 2 (thorough 3) root selections (leaf, nullable and non-null object with nested leaves, inline fragment, spread); every resolver reached independently returns a value, throws a schema_exception or another std::exception, or delivers any of these or a two-message schema_exception through a future; two layouts', 'list: lists of 2 (thorough 3) leaf values whose conversion or future may fail, nested lists, lists of objects with two leaf fields', 'deep: a leaf below 5 (thorough 7) levels of objects, lists and nested lists', 'req: unusable variables of @skip/@include on root selections'],
      runs=[dict(arg='fld:2', covers=['success', 'boom', 'bang', 'one', 'two'], thorough=dict(arg='fld:3')), dict(arg='list:2', covers=['success', 'boom', 'bang', 'one', 'two'], thorough=dict(arg='list:3')), dict(arg='deep:5', covers=['success', 'boom', 'bang', 'one', 'two'], thorough=dict(arg='deep:7')), dict(arg='req', covers=['unusable'])])

check('P10', harness='P10.cpp', units=SERVICE,
      bounds=['documents of 3 (thorough 4) operations of any type with symbolic names of 1..2 letters, own variable with default or literal argument, selection direct or through a fragment; symbolic requested name; services with, without and with a null mutation object or no mutation type', 'single operations, named or anonymous, with the empty name', 'variable not given, null or any 32-bit value; both resolve overloads'],
      runs=[dict(arg='doc:2', covers=['executed', 'unsupported', 'unknown'], thorough=dict(arg='doc:3')), dict(arg='one', covers=['executed', 'unsupported'])])

check('P06', harness='P06.cpp', units=SERVICE + ['TodaySchema'],
      bounds=['every builtin type, a generated enum and the custom scalar, under 9 nestings of list and nullable up to three levels; argument absent, null or a value of any kind with symbolic content, lists of length 0..2 nested 1 deep (thorough 2)', 'the generated input object CompleteTaskInput with every field absent, null or of any kind, in two orders', 'the generated resolver of appointmentsById with its default, the argument absent or a variable of any kind'],
      runs=[dict(arg='%s:1' % t, covers=['converted'] + ['rejected'], thorough=dict(arg='%s:2' % t)) for t in ('int', 'float', 'str', 'bool', 'id', 'enum', 'any')]
           + [dict(arg='input', covers=['converted', 'rejected']), dict(arg='field', covers=['given', 'default', 'rejected'])])

check('P05', harness='P05.cpp', units=SERVICE,
      bounds=['str: quoted strings of 0..3 (thorough 4) arbitrary bytes', 'uni: one \\uXXXX escape with any hex digits; two (thorough three) escapes, with 3 choices of the first and third digit of each, next to other characters and escapes', 'blk: block strings of 0..4 (thorough 5) arbitrary bytes', 'int: integers of 1..4 arbitrary digits; prefixes around the limits of 32 and 64 bits with up to 3 arbitrary digits', 'flt: 175 combinations of integer part, fraction and exponent', 'num: 1..4 (thorough 5) bytes out of digits, signs, dot and exponent letters', 'word: names of 1..5 (thorough 6) letters over the letters of the keywords', 'val: literals nested 2 (thorough 3) deep of all kinds, variables inside, two separators', 'literals given as an argument of a custom scalar directly, as the default value of a variable and (int, flt, word, val) as a directive argument'],
      runs=[dict(arg='str:3', covers=['valid', 'invalid', 'escaped'], thorough=dict(arg='str:4')), dict(arg='uni:1', covers=['valid', 'invalid']), dict(arg='uni:2', covers=['valid', 'invalid'], thorough=dict(arg='uni:3')), dict(arg='blk:4', covers=['valid', 'invalid'], thorough=dict(arg='blk:5')), dict(arg='int:4', covers=['valid', 'invalid']), dict(arg='flt', covers=['valid']), dict(arg='num:4', covers=['valid', 'invalid', 'float'], thorough=dict(arg='num:5')), dict(arg='word:5', covers=['valid', 'keyword'], thorough=dict(arg='word:6')), dict(arg='val:2', covers=['valid'])])

PARSER = ['SyntaxTree', 'GrammarExec', 'GrammarMixed']
check('P02', harness='P02.cpp', units=['Base64', 'GraphQLResponse'],
      covers=['moved', 'released', 'duplicate', 'equal', 'different', 'found', 'missing', 'refused', 'done', 'id'],
      bounds=['histories of N operations (quick N = 3, thorough N = 4) out of copy, move, nest, insert, release, self-assignment, reserve and mark-as-JSON on two values that start as map, list, string, enum value or scalar, names and contents symbolic',
              'maps of N names (quick N = 3, thorough N = 4) of up to 2 arbitrary bytes, then an arbitrary name looked up and inserted, directly, in a copy and in a moved map',
              'every accessor and mutator on a value of every type with symbolic content; Float contents are among 4 values',
              'IDs of up to N arbitrary bytes (quick N = 4, thorough N = 6)', 'equality of two values of depth up to D (quick D = 1, thorough D = 2)'],
      runs=[dict(arg='hist:3', thorough=dict(arg='hist:4')), dict(arg='map:3', thorough=dict(arg='map:4')), dict(arg='access'), dict(arg='id:4', thorough=dict(arg='id:6')), dict(arg='eq:1', thorough=dict(arg='eq:2'))])

check('P03', harness='P03.cpp', units=['Base64', 'GraphQLResponse', 'JSONResponse'],
      covers=['written', 'valid', 'invalid', 'out of range', 'surrogate'],
      bounds=['values of depth up to D (quick D = 1, thorough D = 2) of every type with symbolic contents; Ints in 21 windows of 256 values around 0, the limits and the powers of ten; strings and member names of up to N arbitrary bytes (quick N = 2, thorough N = 4)',
              'Floats are 47 fixed doubles (extremes, denormals, hard to round ones), NaN and infinities: their digits are not symbolic',
              'arbitrary text of up to N bytes (quick N = 3, thorough N = 4), quoted strings and names of up to N arbitrary bytes (quick N = 3, thorough N = 5), up to N escape sequences (quick N = 2, thorough N = 3), numbers of up to 12 digits, the last two symbolic, around the limits, N tokens of structure (quick N = 5, thorough N = 6), a response cut or with one arbitrary byte replaced at any position',
              'nesting beyond these depths (recursion) is outside the bounds'],
      runs=[dict(arg='round:2', thorough=dict(arg='round:3')), dict(arg='int'), dict(arg='string:2', thorough=dict(arg='string:4')), dict(arg='key:2', thorough=dict(arg='key:3')), dict(arg='number'),
            dict(arg='text:4', thorough=dict(arg='text:5')), dict(arg='lit:4', thorough=dict(arg='lit:5')), dict(arg='esc:2', thorough=dict(arg='esc:3')), dict(arg='num:12'), dict(arg='nest:6', thorough=dict(arg='nest:7')), dict(arg='cut')])

check('P04', harness='P04.cpp', units=PARSER,
      bounds=['gap: in four documents with every construct of the grammar, every gap between two tokens (and both ends) holds one of 5 beginnings (nothing, a comment without end, a byte order mark, CR, an empty comment) and 0..1 (thorough 2) arbitrary bytes, no other optional gaps', 'hole: every token of the same documents replaced by 0..1 (thorough 2) arbitrary bytes, with and without other gaps', 'tok: 2 (thorough 3) tokens of 21 kinds in 10 contexts, with and without separators', 'byte: documents of 0..4 (thorough 5) arbitrary bytes', 'type: variable types nested 3 (thorough 4) deep', 'deep: 5 kinds of nesting 6 and 12 (thorough 12 and 24) deep, complete or left open; the work must not grow by more than a factor of 3', 'the tree is compared with names, order, nesting, byte offset, line and column of every leaf', 'left open (no verdict): a number directly followed by a name, number or dot; comments with bytes that are not source characters'],
      runs=[dict(arg='gap:1', covers=['accepted', 'rejected'], thorough=dict(arg='gap:2')), dict(arg='hole:1', covers=['accepted', 'rejected'], thorough=dict(arg='hole:2')), dict(arg='tok:2', covers=['accepted', 'rejected'], thorough=dict(arg='tok:3')), dict(arg='byte:4', covers=['accepted', 'rejected'], thorough=dict(arg='byte:5')), dict(arg='type:3', covers=['accepted'], thorough=dict(arg='type:4')), dict(arg='deep:12', covers=['deep'], thorough=dict(arg='deep:24'))])

check('P11', harness='P11.cpp', units=SERVICE,
      bounds=['one fixed schema with objects, two interfaces, a union and fields with nullable, non-null and defaulted arguments', 'field: a field nested 3 (thorough 4) levels deep, every name any lower-case letter or __typename, inside of inline fragments, with and without sub-selections', 'args: 0..2 (thorough 3) arguments with any letter as name, values 1, null, "s", true, on the first or on a repeated field', 'merge: pairs out of 8 selections of the same response name below 0..1 fields or inline fragments each (thorough 0..2, 5 selections), in one or two copies of the enclosing field, or in a fragment'],
      runs=[dict(arg='field:3', covers=['valid', 'field name', 'leaf field selections', 'spread not possible'], thorough=dict(arg='field:4')), dict(arg='args:2', covers=['valid', 'argument name', 'argument twice', 'argument missing', 'value kind', 'null', 'conflicting fields'], thorough=dict(arg='args:3')), dict(arg='merge:1', covers=['valid', 'conflicting fields'], thorough=dict(arg='merge:2'))])

check('P12', harness='P12.cpp', units=SERVICE,
      bounds=['lit: literals of every kind nested 2 (thorough 3) levels deep, containers of 0..2 items, object keys any lower-case letter, enum names any capital letter before LUE, for 17 argument types (every builtin scalar, enum, input object, custom scalar, list nestings, nullness, defaults); obj: 0..3 fields of an input object or custom scalar', 'use: a variable of 5 input types and 4 other types, wrapped 0..2 times (thorough 3), without or with one of 9 defaults, at an argument of each of the 17 types, in one or two levels of lists, in each input object field, in a custom scalar, in a directive; in the operation, in a fragment or in a fragment of a fragment', 'decl: 1..2 operations with 0..2 variables each, uses in both and in a shared fragment, all combinations of 3 names (thorough: any letter, 4 names)'],
      budget=dict(quick=240),
      runs=[dict(arg='lit:2', covers=['valid', 'null', 'no list', 'no object', 'value kind', 'input field name', 'input field missing'], thorough=dict(arg='lit:4')), dict(arg='obj', covers=['valid', 'input field twice']), dict(arg='use:2', covers=['valid', 'variable usage', 'variable type'], thorough=dict(arg='use:3')), dict(arg='decl:2', covers=['valid', 'variable twice', 'undefined variable', 'unused variable'], thorough=dict(arg='decl:3'))])

check('P13', harness='P13.cpp', units=SERVICE,
      bounds=['frag: 2 (thorough 3) fragment definitions with possibly equal names on an object or interface type, bodies of a field, spreads of any of the fragments or of an undefined one (alone, next to fields, below a field, in an inline fragment, twice), spread 0..2 times by the operation, before or after it', 'cond: 2 (thorough 3) inline fragments and spreads inside each other below the root or a field of object, interface or union type, every condition any capital letter, Int, In, En or Query', 'ops: one operation of 1..3 root selections (fields, aliases, __typename, inline fragments, spreads), 3 (thorough 4) operations of any type with equal, different or no names', 'dirs: 1..2 (thorough 3) directives out of 9 names with 10 argument lists at each of the 7 executable locations'],
      budget=dict(quick=200),
      runs=[dict(arg='frag:2', covers=['valid', 'fragment twice', 'undefined fragment', 'unused fragment', 'fragment cycle'], thorough=dict(arg='frag:3')), dict(arg='cond:2', covers=['valid', 'fragment type', 'spread not possible'], thorough=dict(arg='cond:3')), dict(arg='ops:1', covers=['valid', 'subscription root fields']), dict(arg='ops:3', covers=['valid', 'operation twice', 'anonymous operation not alone'], thorough=dict(arg='ops:4')), dict(arg='dirs:2', covers=['valid', 'directive name', 'directive twice', 'directive location', 'argument missing', 'argument name', 'argument twice', 'value kind', 'null'], thorough=dict(arg='dirs:3'))])

check('P14', harness='P14.cpp', units=SERVICE,
      bounds=['hist: 2 (thorough 3) earlier documents out of 19 (valid, invalid for each kind of state validation keeps, failing, not parsable), executed with any 32-bit variable value and validated (the last one: validated, executed, or both, its tree kept or destroyed); then any of the 19 is validated twice and executed with or without any 32-bit variable value', 'open: 3 (thorough 4) requests out of 6 documents begun before any result is taken, any 32-bit variable values, with equal or shared trees, finished in any order'],
      runs=[dict(arg='hist:2', covers=['valid', 'invalid'], thorough=dict(arg='hist:3')), dict(arg='open:3', covers=['open'], thorough=dict(arg='open:4'))])

check('P15', harness='P15.cpp', units=SERVICE,
      covers=['SCALAR', 'OBJECT', 'INTERFACE', 'UNION', 'ENUM', 'INPUT_OBJECT', 'directive', 'list', 'found', 'not found', 'fine', 'refused', 'builtin'],
      bounds=['a type of any kind or a directive whose names, descriptions and deprecation reasons are symbolic letters, with up to K fields, arguments, values or locations (quick K = 2; thorough K = 3), type references wrapped up to K + 1 times, defaults among 3',
              'types, deprecation with includeDeprecated (absent, literal, null, variable) and the remaining attributes vary one group at a time',
              'up to N types of any kind and order next to the builtin ones (quick N = 2, thorough N = 3), with symbolic names of two letters',
              'names of up to L arbitrary printable characters looked up (quick L = 3, thorough L = 4), as literal and as variable',
              '14 documents with introspection fields, on schemas with and without introspection'],
      runs=[dict(arg='SCALAR:2'),
            dict(arg='OBJECT:2', thorough=dict(arg='OBJECT:3')),
            dict(arg='INTERFACE:2', thorough=dict(arg='INTERFACE:3')),
            dict(arg='UNION:2'),
            dict(arg='ENUM:2', thorough=dict(arg='ENUM:3')),
            dict(arg='INPUT_OBJECT:2', thorough=dict(arg='INPUT_OBJECT:3')),
            dict(arg='DIRECTIVE:2', thorough=dict(arg='DIRECTIVE:3')),
            dict(arg='list:2', thorough=dict(arg='list:3')), dict(arg='name:3', thorough=dict(arg='name:4')), dict(arg='off'), dict(arg='builtin')])

check('P16', harness='P16.cpp', units=SERVICE,
      covers=['async', 'deferred', 'direct', 'lazy', 'concurrent', 'external', 'mutation', 'together'],
      bounds=['6 documents (nested objects, lists with null items, lists of scalars, fragments, variables) under both launch policies; every resolver delivers directly, by a deferred, a concurrent or an externally completed future, chosen independently (larger documents: fewer of the four ways in the quick tier), failing or not',
              'what runs next is chosen at every point where a task waits, at every resolver call where stated (one preemption), and concurrent tasks start at once or later where stated ("eager"); a suspended task resumes only when what runs above it has finished, other resumptions are left out; instruction-level races between tasks are outside the model',
              'mutations of up to 3 root fields returning scalars, objects and lists with every way of delivery per resolver; two requests in flight at once'],
      runs=[dict(arg='query:411'), dict(arg='query:1210', thorough=dict(arg='query:1411')), dict(arg='query:1201', thorough=dict(arg='query:1401')),
            dict(arg='query:2300', thorough=dict(arg='query:2400')), dict(arg='query:2201', thorough=dict(arg='query:2301')), dict(arg='query:3300', thorough=dict(arg='query:3400')),
            dict(arg='query:4200', thorough=dict(arg='query:4300')), dict(arg='query:5101', thorough=dict(arg='query:5200')),
            dict(arg='eager:400'), dict(arg='eager:1200', thorough=dict(arg='eager:1400')), dict(arg='eager:2100', thorough=dict(arg='eager:2300')),
            dict(arg='mutation:2', thorough=dict(arg='mutation:3')), dict(arg='same:12', thorough=dict(arg='same:13'))])

check('P17', harness='P17.cpp', units=SERVICE,
      covers=['subscribed', 'unsubscribed', 'delivered', 'match', 'mismatch', 'document', 'refused', 'hooks', 'again'],
      bounds=['histories of N calls (quick N = 4, thorough N = 5), each a subscribe to one of 4 documents, an unsubscribe of any earlier key or a deliver with no, argument or callback filters, synchronous or asynchronous, either launch policy, symbolic 32-bit argument values',
              'one subscription with one or two arguments (Int, String of up to 2 letters, list of up to 2, input object) and a directive against every kind of filter; an explicit null argument is a value',
              '22 documents (fragments, inline fragments, several operations, variables with defaults, rejected ones), with and without a default object',
              'up to 2 subscriptions with notifications, 3 subscriptions one of whose callbacks throws, subscribes, unsubscribes or delivers (deferred launch); the calls themselves come from one thread'],
      runs=[dict(arg='hist:4', thorough=dict(arg='hist:5')), dict(arg='match:3'), dict(arg='match:4'), dict(arg='match:8'), dict(arg='doc'), dict(arg='hook'), dict(arg='again')])

check('P19', harness='P19.cpp', units=['Base64', 'GraphQLResponse', 'SyntaxTree', 'GrammarSchema', 'GrammarMixedSchema', 'SchemaLoader', 'GeneratorLoader'],
      covers=['scalar', 'enum', 'union', 'input', 'directive', 'interface', 'object', 'defined', 'extended', 'no query', 'default operations', 'operations', 'extended operations', 'cycle', 'no cycle', 'accepted', 'rejected', 'kept', 'replaced', 'introspection'],
      bounds=['a type of each kind, a directive, with up to K members (quick K = 2, thorough K = 3), members in one definition or divided between it and up to two extensions before or after it; types among 11 and 8 wrappings, defaults among 11, descriptions and deprecations in every form with a symbolic letter',
              'operation types by default names or explicit, defined or added by an extension, in any order', 'every reference graph among K input types (quick K = 3, thorough K = 4)',
              '120 documents that break one rule or none, before or after the rest of the schema', 'C++ names of up to N characters out of 4 classes (quick N = 4, thorough N = 6); C++ keywords are not names reserved by the standard and not considered'],
      runs=[dict(arg='scalar:1')] + [dict(arg=k + ':2', thorough=dict(arg=k + ':3')) for k in ('enum', 'union', 'input', 'directive', 'interface', 'object')] + [dict(arg='schema'), dict(arg='inputs:3', thorough=dict(arg='inputs:4')), dict(arg='bad'), dict(arg='name:4', thorough=dict(arg='name:6')), dict(arg='introspection')])

check('P20', harness='P20.cpp', units=[*SERVICE, 'GrammarMixed', 'GrammarSchema', 'GrammarMixedSchema', 'SchemaLoader', 'GeneratorLoader', 'RequestLoader'],
      covers=['fields', 'fragments', 'enum field', 'types', 'variables', 'nested inputs', 'one operation', 'one of several', 'no operation', 'invalid', 'accepted', 'rejected', 'text'],
      bounds=['requests of up to N selections (quick N = 3, thorough N = 4): fields, aliases, nested selections and inline and named fragments, on an object, an interface and a union',
              'pairs of fields of 16 wrappings', 'up to K variables (quick K = 2, thorough K = 3) of 17 types and defaults', 'up to K operations (quick K = 2, thorough K = 3) with symbolic names, any asked for', '120 requests that break one rule or none', 'up to 2 characters of white space before and after the request'],
      runs=[dict(arg='select:3', thorough=dict(arg='select:4')), dict(arg='types'), dict(arg='vars:2', thorough=dict(arg='vars:3')), dict(arg='ops:2', thorough=dict(arg='ops:3')), dict(arg='bad'), dict(arg='text')])

KINDS = ('int', 'float', 'str', 'bool', 'id', 'enum', 'any')
check('P18', harness='P18.cpp', units=[*SERVICE, 'GraphQLClient', 'GenClient', 'GenSchema'],
      covers=['response', 'errors', 'wire', 'read', 'refused', 'sent', 'root', 'bad leaf', 'object', 'objects', 'interface', 'union', 'variables'],
      bounds=['resp: responses with data of any kind and up to N errors (quick N = 1, thorough N = 2), each with any of message, locations, path absent, empty or of up to 2 symbolic entries; wire: up to 2 errors as the service builds them, split again by the client',
              'every builtin type, a generated enum and the custom scalar, under every nesting of list and nullable up to three levels; response values of every kind with symbolic content, lists of length 0..2 nested D deep (quick D = 1, thorough D = 2); ser: C++ values likewise with symbolic content',
              'root, objects, fragments, vars: the code clientgen generates for one fixed schema and request with every kind of field, one part varied at a time with symbolic content; the variables are read again by the code schemagen generates',
              'a value which is not a list or object where one is expected is left open; Float contents are fixed samples; other schemas and requests are outside the bounds'],
      runs=[dict(arg='resp:1', thorough=dict(arg='resp:2')), dict(arg='wire:2')] + [dict(arg=k + ':1', thorough=dict(arg=k + ':2')) for k in KINDS] + [dict(arg='ser-' + k) for k in KINDS] + [dict(arg=k) for k in ('root', 'objects', 'fragments', 'vars')])

NOT_APPLICABLE = {}
