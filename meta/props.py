"""Source of properties.jsonl and MANIFEST.json (run `python3 meta/gen.py`)."""
T = 'crates/brack-tokenizer/src/'; P = 'crates/brack-parser/src/'; TR = 'crates/brack-transformer/src/'; X = 'crates/brack-expander/src/'
CG = 'crates/brack-codegen/src/'; PL = 'crates/brack-plugin/src/'; PM = 'crates/brack-project-manager/src/'; LS = 'crates/brack-language-server/src/'; B = 'src/'
PROPS = []
def prop(id, title, statement, over, text, why, files, mech, note=None, na=None, technique=None, state=None, observe=None):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, note=note, na=na, technique=technique, state=state, observe=observe))

DF = 'interprocedural path-sensitive dataflow (abstract interpretation) over rustc MIR'
TRUST = 'Trusts the rustc MIR dump, the transfer functions of sa/models.py for library calls, and the stated assumptions. '

LEX = 'Texts of up to three grapheme clusters (four in the thorough tier) drawn from all special clusters and an arbitrary other one, from the start of a document, and up to two (three) after 16 contexts of open, closed, nested and escaped brackets.'
prop('C01', 'Tokens: kinds and texts follow the lexical rule',
     'Tokenizing any text succeeds and yields the tokens of the lexical rule. Brackets, newlines and backslashes are tokens of their own; a bracket or backslash after a backslash is a token that neither opens nor closes a command. Outside commands everything else up to the next of these is one text; inside a command dots, commas and spaces are tokens too, the word after an opening bracket is a module name if a dot follows it, and the command\'s name if a space or a closing bracket does. Tokenizing a file gives the tokens of its content, every character of it, or an error if it cannot be read or is not UTF-8.',
     ['inputs'], LEX,
     'Tests fix about twenty sentences; the rule depends on the combination of the next cluster, the open commands and whether a name is expected.',
     [T + 'tokenize.rs', T + 'tokenizer.rs', T + 'dispatch.rs', T + 'backslash.rs', T + 'utils.rs'], [('tokenize_str', T + 'tokenize.rs'), ('dispatch', T + 'dispatch.rs')],
     note='Every such text with symbolic words against a separately written lexical rule; contexts of unlimited length are the subject of C04.')
prop('C02', 'Tokens spell the text, with one EOF at the end',
     'No character of a document is lost, duplicated, reordered or invented by tokenization: the texts of the tokens, in order (the fixed character of punctuation tokens), are exactly the text. The list contains exactly one EOF token, as its last element.',
     ['inputs'], LEX, 'Losing a character needs a particular neighbourhood of special characters that no test contains.',
     [T + 'tokenize.rs', T + 'tokenizer.rs', T + 'text.rs', T + 'utils.rs'], [('tokenize_str', T + 'tokenize.rs')],
     note='No lexical rule assumed; unknown clusters symbolic.')
prop('C03', 'Token locations tile the text',
     'The first token starts at line 0, column 0; every token starts where the previous one ends, or at column 0 of the next line after a newline; it ends as many columns after its start as it has characters (grapheme clusters), on the same line. EOF is empty and lies at the end.',
     ['inputs'], LEX, 'Tests compare locations for a few sentences without mixing lines, escapes and nested commands.',
     [T + 'tokenizer.rs', T + 'newline.rs', T + 'utils.rs', T + 'backslash.rs'], [('tokenize_str', T + 'tokenize.rs')],
     note='Columns as linear terms over symbolic words.')
prop('C04', 'Tokenization depends only on the open commands and the text ahead',
     'However long the document before and whatever tokens it gave, the tokens of the following characters depend only on which commands are open, on whether a command\'s name is still expected, and on those characters. They are appended to the earlier tokens, which are left as they are, and their locations continue from the current line and column.',
     ['inputs', 'histories'], 'An arbitrary state of the tokenizer (symbolic position, current word, earlier tokens; nineteen configurations of open commands) and every continuation of up to three clusters (four in the thorough tier).',
     'Tests start from the beginning of a short document only.',
     [T + 'tokenizer.rs', T + 'dispatch.rs', T + 'utils.rs'], [('dispatch', T + 'dispatch.rs'), ('Tokenizer', T + 'tokenizer.rs')],
     note='Inductive step of C01-C03: entered at the tokenizer loop with a symbolic state.')
prop('C05', 'Recursion grows with nesting, never with the length of a document',
     'The depth of recursion in tokenizing, parsing, transforming, expanding and generating depends on how deeply commands are nested only: a document with more characters, words, lines, paragraphs, commands, macro calls, arguments, escapes or syntax errors one after the other uses no more stack.',
     ['inputs'], 'Twenty-four families of documents growing in length (thorough: three sizes each), through every stage.',
     'Stack exhaustion needs documents far longer than any test.',
     [T + 'tokenize.rs', P + 'parse.rs', TR + 'transform.rs', X + 'expand.rs', CG + 'generate.rs'], [('stages', 'crates/')],
     note='Simultaneous activations of each function on the abstract call stack, compared between lengths.')
CSTL = 'Token lists of up to three kinds (four in the thorough tier) over all fourteen kinds from the start of a document and of up to two (three) after nine contexts, well-formed or not; texts symbolic.'
prop('C07', 'The syntax tree keeps every token, once, in order',
     'The leaves of the concrete syntax tree, from left to right, are exactly the tokens of the document: each token once, in order, with its kind, its text and its location (an escape is kept as the backslash and the escaped token).',
     ['inputs'], CSTL, 'Tests parse a few complete sentences; backtracking in the parser can drop or repeat tokens only in unusual neighbourhoods.',
     [P + 'parse.rs', P + 'stmt.rs', P + 'expr.rs', P + 'escaped.rs', P + 'parser.rs'], [('parse', P + 'parse.rs')],
     note='No grammar assumed.')
prop('C08', 'The syntax tree has the shape the grammar gives it',
     'A document is a sequence of statements separated by blank lines; a statement is a sequence of expressions, one per line, and stray closing brackets; an expression is a sequence of texts, commands and escapes; a command runs from its opening bracket to the closing bracket of the same kind or to the first token that cannot belong to it, and may span lines.',
     ['inputs'], CSTL, 'Tests parse a few complete sentences.',
     [P + 'parse.rs', P + 'stmt.rs', P + 'expr.rs', P + 'square.rs', P + 'curly.rs', P + 'angle.rs', P + 'escaped.rs', 'brack.cst.ebnf'], [('parse', P + 'parse.rs')],
     note='Compared with a separately written grammar.')
prop('C09', 'Parsing always succeeds',
     'Whatever tokens a document has, in whatever order, parsing them returns a document tree: it neither fails nor panics, also on unbalanced brackets, misplaced dots and commas, or a backslash at the end.',
     ['inputs'], CSTL, 'The number of malformed neighbourhoods is unbounded; tests cover complete sentences.',
     [P + 'parse.rs', P + 'parser.rs', P + 'escaped.rs'], [('parse', P + 'parse.rs')], note='Every panic site reachable on the abstract paths is an alarm.')
prop('C10', 'Spans of syntax nodes run from their first to their last token',
     'The location of every node of the concrete syntax tree starts where its first token starts and ends where its last token ends; a command that is not closed ends with the token at which that was noticed.',
     ['inputs'], CSTL, 'Tests do not compare locations of trees (they ignore or mock them).',
     [P + 'cst.rs', P + 'parse.rs', P + 'stmt.rs', P + 'expr.rs', P + 'square.rs', P + 'curly.rs', P + 'angle.rs'], [('parse', P + 'parse.rs')],
     note='All nodes of all trees.')
ASTL = 'Documents of up to two tokens of any kinds and commands with every arrangement of up to three (thorough: four) parts out of module, name, dot, text, space, comma, line end, stray brackets, missing brackets, backslashes and nested commands.'
prop('C11', 'Every parsed document can be transformed',
     'Transforming the syntax tree of any document, however malformed, yields a document tree and a list of errors; it never panics.',
     ['inputs'], ASTL, 'Panics sit behind malformed commands that no test contains.',
     [TR + 'transform.rs', TR + 'utils.rs', TR + 'simplify.rs'], [('transform', TR + 'transform.rs')], note='Every panic site reachable on the abstract paths is an alarm.')
prop('C12', 'Syntax errors are reported exactly, once, in order and in place',
     'The errors reported for a document are exactly: a bracket that is not closed or not opened, a command without module, dot or name at their places, a dot after the name, a comma with no argument before it or (the last one) after it, and a backslash that escapes nothing. Each is reported once, in document order of the commands, with the location of the offending tokens, and has a message of its own; a well-formed document has none.',
     ['inputs'], ASTL, 'Tests have one example for some of the errors; combinations and positions are not sampled.',
     [TR + 'utils.rs', TR + 'error.rs', TR + 'square.rs', TR + 'curly.rs', TR + 'angle.rs', TR + 'stmt.rs', TR + 'backslash.rs'], [('transform', TR + 'transform.rs'), ('check_valid_arguments and others', TR + 'utils.rs')],
     note='Compared with a separately written rule on every such document.')
prop('C13', 'Well-formed documents become the tree of their commands and arguments',
     'For a document without syntax errors the resulting tree has its statements and expressions in order; a command keeps its kind, module and name and has one expression per comma-separated argument. An argument holds its texts, commands and escaped characters in order, with the spaces between two of them kept; spaces around arguments and line ends are dropped. Texts are those of the tokens and spans those of the source.',
     ['inputs'], 'Documents of up to five parts (thorough: six) and commands with every arrangement of up to five (six) parts of their arguments; texts symbolic.',
     'Tests have a handful of sentences; the handling of layout depends on both neighbours of a space.',
     [TR + 'transform.rs', TR + 'utils.rs', TR + 'document.rs', TR + 'stmt.rs', TR + 'square.rs', TR + 'ast.rs', 'brack.ast.ebnf'], [('transform', TR + 'transform.rs')],
     note='Compared with a separately written rule.')
prop('C15', 'Macro expansion replaces exactly the macro calls',
     'Expanding a document calls each outermost macro call exactly once, in document order, with the module and command it names, the whole unexpanded document and the identity of the call; the result is the document with each of those calls replaced by what its macro returned, and everything else unchanged. A failing macro makes the expansion fail and nothing more is called.',
     ['inputs', 'programs', 'fault_sequences'], 'Documents with macro calls in every arrangement of up to four parts among texts, lines, escapes, arguments and nested commands; every failing call.',
     'Tests expand one or two fixed documents with identity plugins.',
     [X + 'expand.rs'], [('expander', X + 'expand.rs')], note='Trees with symbolic results of the macros.')
prop('C06', 'Spans: merging covers exactly both spans; accessors touch only the location',
     'Merging two source spans yields the smallest span that covers both, ordering positions by line and then column. For every token and syntax-node kind, reading the location returns that node\'s own span, setting it replaces exactly that span, and adding a child appends it to the node\'s children and extends the span to cover it.',
     ['inputs'], 'All pairs of spans (every ordering of the four line and four column values), all token and node kinds.',
     'No test compares merged spans for more than a couple of concrete positions; the end-column rule depends on which of two lines is larger.',
     [T + 'tokens.rs', P + 'cst.rs', TR + 'ast.rs'], [('merge_location', T + 'tokens.rs'), ('get_location/set_location/add', P + 'cst.rs, ' + TR + 'ast.rs')],
     note='Exhaustive over the 81 orderings of the span coordinates and over every variant; values are symbolic, so the result holds for all positions.')
prop('C14', 'compile: levels run exactly their stages and syntax errors stop output',
     'For each output level `brack compile` runs exactly the pipeline stages of that level, each on the previous stage\'s result and with the loaded plugins, and prints that level\'s result in the requested form. At levels that generate or expand, a document with syntax errors makes the command fail without expanding, generating or printing anything; a failing stage or a file that is not `.[]` is an error that prints nothing.',
     ['inputs', 'configurations', 'fault_sequences'], 'Every output level 0-5 and beyond, --json on/off, any document, any syntax-error list, any failing stage.',
     'The CLI has no tests; the combination of level, flag, errors and failing stage is never sampled.',
     [B + 'lib.rs', B + 'main.rs', B + 'sub_commands.rs'], [('run_compile', B + 'main.rs')],
     note='All outcomes of run_compile in every scenario of level x json x error presence x failing stage; stages replaced by symbolic results.')
prop('C16', 'Code generation concatenates in order, or uses the hook\'s text',
     'The text generated for a document, statement, expression or text node is the concatenation of its children\'s texts in source order (for text: the text itself), unless the matching hook returns a text for exactly that string, in which case it is that text. A failing child or hook makes generation fail; it never yields partial output.',
     ['inputs', 'programs'], 'Every syntax tree and every hook behaviour.',
     'Tests check a handful of fixed trees without hooks or with identity plugins; child counts, mixtures and hook answers are unbounded.',
     [CG + 'generate.rs', CG + 'stmt.rs', CG + 'expr.rs', CG + 'text.rs'], [('generate dispatch and per-kind generators', CG)],
     note='Coinduction on the tree: each generator on one symbolic node with child calls cut, child lists of any length (loops summarised).')
prop('C17', 'Commands: argument count and passing follow the declared signature',
     'A command is called only if its number of arguments lies between the number of required parameters and the number of all parameters (unbounded once an array parameter is declared); otherwise generation fails and the command is not called. The i-th declared parameter receives the text of the i-th argument: as text, as an optional text (absent when missing), or, for an array parameter, all remaining arguments in order.',
     ['inputs', 'programs'], 'Every declared signature and every argument list.',
     'Tests use two or three fixed signatures; boundaries of count for mixed optional and array parameters are not sampled.',
     [CG + 'curly.rs', CG + 'square.rs', PL + 'types.rs'], [('argument conversion in the command generators', CG + 'curly.rs, ' + CG + 'square.rs'), ('arg_counter', PL + 'types.rs')],
     note='Signature, argument list and texts symbolic; each successful path must entail the bounds and each value its parameter.')
prop('C18', 'Calls reach exactly the named command of the named plugin and bracket type',
     'A curly command is looked up and called as a block command and a square command as an inline command, on the plugin registered under the module name and on the export declared for that command name and return type, with the given arguments. Its result is returned unchanged, and an unknown module or command is an error without any call.',
     ['inputs', 'configurations'], 'Every plugin table, command name and argument list.',
     'Tests load at most one plugin; mixing up plugins, names or return types needs several plugins or overloaded commands.',
     [PL + 'plugins.rs', PL + 'plugin.rs', CG + 'curly.rs', CG + 'square.rs'], [('call_*_command', PL + 'plugins.rs')],
     note='Symbolic plugin tables; routing followed down to the single extism call.')
prop('C19', 'Hooks: only declared hooks run, on the plugin that declares them',
     'Each of the document, statement, expression and text hooks is dispatched to the plugin that declares exactly that hook, with the given text, and to no plugin when none declares it. Loading refuses two plugins declaring the same hook, and refuses a plugin that declares a hook without exporting a matching command; every exported command is registered under its name and return type.',
     ['configurations'], 'Every assignment of hook flags over plugin lists of up to three plugins and metadata of up to two commands.',
     'Tests load single plugins; interactions of several flags and plugins are never combined.',
     [PL + 'plugins.rs', PL + 'plugin.rs', PL + 'feature_flag.rs'], [('Plugins::new', PL + 'plugins.rs'), ('Plugin::new', PL + 'plugin.rs')],
     note='All flag assignments for lists of up to three symbolic plugins; longer lists by uniformity of the loop.')
prop('C20', 'Node ids: no two nodes of a tree share one; look-up by id finds its node',
     'Every node of the syntax tree that parsing returns, and of the tree that transforming returns, has an id of its own: no two nodes of one tree carry the same id. AST::get(id) returns exactly the node carrying that id, at any depth and of any kind, and nothing for an id that no node carries.',
     ['inputs'], 'Documents of up to four parts around commands, every list of up to two token kinds, and look-ups in trees with nodes of every kind up to six levels deep.',
     'A macro receives the whole tree and the id of its own call, so two nodes with one id make it rewrite the wrong place; the tests compare trees without their ids.',
     [TR + 'ast.rs', TR + 'transform.rs', P + 'cst.rs', X + 'expand.rs'], [('AST constructors and AST::get', TR + 'ast.rs'), ('transform', TR + 'transform.rs')],
     note='Every generated UUID is a fresh symbol (UUIDs are assumed never to repeat); duplicates are found by comparing the ids of all nodes of the resulting tree.')
prop('C21', 'Brack.toml: what is written is what is read; malformed declarations refused',
     'Writing a project configuration and reading it back yields the same configuration, for every combination of present and absent fields and in any key order. A plugin declaration with a missing required key, a duplicate or unknown key or an unsupported schema, and a document section or configuration with a missing or duplicate key, is refused.',
     ['inputs', 'configurations'], 'Every configuration value and every order of its keys; every single malformed key.',
     'No test serialises a configuration; optional hook flags give many combinations.',
     [PM + 'plugin.rs', PM + 'config.rs', PM + 'document.rs'], [('Serialize/Deserialize implementations', PM)],
     note='Recorded writer output fed into the analysed reader, symbolic values; TOML text encoding itself is trusted to the toml crate.')
prop('C22', 'Plugin cache: the declared module is what is stored and loaded',
     'For each plugin declared in the project, build loads the module stored under a file name made of the plugin\'s name, of a digest of its whole declaration and of the backend of the project, with exactly the declared hook flags. A module already stored is not downloaded; a missing one is downloaded from its release address and stored only after the server answered with success, and any failure makes the build fail.',
     ['configurations', 'fault_sequences'], 'Every plugin table (one or two symbolic plugins), every flag combination, cached or not, every failing step.',
     'Needs a network and servers that fail; the test suite has neither.',
     [PM + 'project.rs'], [('download_plugins_using_config', PM + 'project.rs')],
     note='All outcomes with every library step free to fail.')
prop('C23', '`brack add` refuses before side effects and records only what was saved',
     'Adding a plugin outside a project, with a malformed reference (a missing, empty or surplus part) or an unsupported one, or when it is already declared fails before any download or file write. Otherwise the module is downloaded and saved first, an unsuccessful download changes nothing, and only then is Brack.toml rewritten to the old configuration plus exactly one entry, named like the repository up to its first dot, with the given owner, repository and version.',
     ['inputs', 'histories', 'fault_sequences'], 'Every reference string shape, every prior configuration, every failing step.',
     'Needs network faults at particular points; no test covers it.',
     [PM + 'plugin.rs', B + 'main.rs'], [('add_plugin', PM + 'plugin.rs')],
     note='All outcomes of add_plugin; ordering and content of the recorded effects are judged on each.')
prop('C24', '`brack new` never touches what exists and creates a project that loads',
     'Creating a project whose directory already exists fails and changes nothing; otherwise every file it creates lies under the new directory and nothing existing is replaced or removed. On success there is an empty docs/main.[] and a Brack.toml with the given name which the configuration reader accepts; any failing step is reported as an error.',
     ['inputs', 'fault_sequences'], 'Every project name, every failing file-system step.',
     'No test creates a project, and pre-existing directories or failing steps are not sampled.',
     [B + 'main.rs', PM + 'config.rs'], [('new_project', B + 'main.rs')],
     note='All outcomes of new_project; the text written is parsed and compared with the keys the reader knows.')
prop('C25', '`brack build` compiles every document to its own output file and nothing else',
     'Build processes every file of the docs directory with the extension `.[]` and no other, runs the whole pipeline on it with the project\'s plugins, and writes the result to the output directory under the document\'s own stem with the backend as extension. A syntax error or a failing stage in a document makes the build fail without writing that document; build writes no other file.',
     ['inputs', 'configurations', 'fault_sequences'], 'Directories with up to two entries of every extension class, any documents, errors and failing stages.',
     'No test runs a build; the mixture of entries and errors is unbounded.',
     [PM + 'project.rs', B + 'main.rs'], [('Project::build', PM + 'project.rs')],
     note='All outcomes for every directory of up to two symbolic entries; longer ones by uniformity of the loop.')
LSP = 'crates/brack-language-server/src/'
prop('C26', 'Language server framing: every complete message, whatever pieces it arrives in',
     'The language server handles exactly the complete messages of its input, in order, however the bytes are split into reads and however many messages arrive at once: headers and bodies cut at any byte, other header fields before or after Content-Length, an incomplete message at the end of input. A header without usable length or a body that is not JSON is answered with a parse error and only costs itself. Every message the server writes is Content-Length: <number of bytes of the body>, a blank line and the body, and is flushed.',
     ['histories', 'schedules', 'inputs'], 'Every way to cut scripts of up to three messages into two chunks, into three (sampled cuts in the quick tier, all in the thorough one), byte by byte; any bodies.',
     'No test runs the server; how bytes arrive is up to the pipe.',
     [LSP + 'server.rs'], [('Server::run', LSP + 'server.rs'), ('send_message', LSP + 'server.rs')], observe=['standard output of brack language-server'],
     note='Whole-program analysis of Server::run on scripted chunks with symbolic bodies; all outcomes must agree with the script.')
prop('C27', 'Language server: each request gets exactly one response under its own id',
     'Every request with an integer id gets exactly one response, carrying that id and either a result or an error, whatever its method, parameters and the outcome of its handler; an unknown method is answered with error -32601. Notifications and responses get no response. An object with neither id nor method is answered with error -32600 and no id. Responses with a result have exactly the members jsonrpc, id and result; every message written carries jsonrpc "2.0".',
     ['inputs', 'fault_sequences'], 'Every method name, every parameter value, every failing step of a handler.',
     'No test sends a request; the failing steps of handlers need faults at particular points.',
     [LSP + 'server.rs', LSP + 'request.rs', LSP + 'response.rs', LSP + 'result.rs'], [('dispatch', LSP + 'server.rs'), ('handle_request', LSP + 'request.rs')], observe=['standard output of brack language-server'],
     note='All outcomes of Server::run on one message with a symbolic method; each is decoded back into messages.')
prop('C28', 'Language server: no message makes it stop',
     'Whatever message the server receives - any request, notification or response, with or without parameters, with a failing handler, an id that is not an integer, not JSON at all, or under an unusable header - the next request is still answered, and the server ends without error at the end of its input.',
     ['inputs', 'histories', 'fault_sequences'], 'Every first message (symbolic method and parameters), every failing step of its handler, followed by a request.',
     'No test runs the server, let alone with failing handlers.',
     [LSP + 'server.rs', LSP + 'request.rs', LSP + 'notification.rs', LSP + 'notification/did_open.rs', LSP + 'notification/did_save.rs'], [('run', LSP + 'server.rs'), ('dispatch', LSP + 'server.rs')], observe=['standard output of brack language-server'],
     note='All outcomes of Server::run on scripts of two messages.')
prop('C29', 'Semantic tokens: indices mean what the legend says, deltas rebuild the positions',
     'The type index sent for a token names, in the legend sent by initialize, the type of its kind: namespace for modules, variable for identifiers, macro, method and function for angle, curly and square brackets; every other token has no entry in the legend. There is one entry per token, in order, whose deltas add up to the positions of the tokens and whose length is the width of the token. A document that cannot be tokenized is answered with null or an error.',
     ['inputs'], 'Token lists of up to sixteen tokens of every kind with arbitrary positions in document order.',
     'Two tables in different files have to agree, and deltas depend on every preceding token; no test looks at either.',
     [LSP + 'request.rs', LSP + 'request/semantic_tokens.rs'], [('separate', LSP + 'request/semantic_tokens.rs'), ('legend', LSP + 'request.rs')], observe=['responses of brack language-server'],
     note='Legend and token data are both taken from the analysed server and compared; positions are symbolic.')
prop('C30', 'Diagnostics: saving a document publishes exactly the errors it has',
     'When a document is saved, a client that accepts diagnostics gets one publishDiagnostics for the URI of that document, with one diagnostic per error of the document, in order, each with the location of the error as its range and the text that belongs to its kind; an empty list when there is none. A client that does not accept diagnostics gets none, and none are published for a document that could not be analysed.',
     ['inputs', 'configurations'], 'Every list of up to three errors (and one with all kinds) with arbitrary locations, every client capability, every failing step.',
     'No test saves a document; the unit tests stop at the transformer.',
     [LSP + 'notification/did_save.rs', LSP + 'server.rs', 'crates/brack-transformer/src/error.rs'], [('handle_text_document_did_save', LSP + 'notification/did_save.rs'), ('send_publish_diagnostics', LSP + 'server.rs')], observe=['notifications of brack language-server'],
     note='All outcomes of Server::run on didSave, the error list given with symbolic locations.')
prop('C31', 'Completion: an opening bracket offers exactly the commands it can call',
     'Completion triggered by [, { or < offers exactly the inline commands, block commands or macros of the plugins of the open project, once each; any other trigger offers nothing, and without a trigger or a project the answer is null. An offer is labelled <module>.<command> and inserts, as a snippet, that text, a space, the cursor stop and the matching closing bracket.',
     ['inputs', 'configurations'], 'Every trigger text, plugins with commands of every type (up to two plugins).',
     'No test asks for completions; the type of a command and the bracket are related only by convention.',
     [LSP + 'request/completion.rs'], [('handle_completion', LSP + 'request/completion.rs'), ('build_completion_item', LSP + 'request/completion.rs')], observe=['responses of brack language-server'],
     note='All outcomes of Server::run on a completion request with known plugins and a symbolic trigger.')
prop('C32', 'Command line: each subcommand does its own work and reports its failure',
     'brack build loads the project of the current directory, then fetches its plugins, then builds it; compile, new, add and language-server run exactly their own work on the arguments given on the command line. A step that fails makes the command fail and no later step is run; when every step succeeds the command succeeds. version prints `Brack` and APP_VERSION, or a version number of its own when it is not set.',
     ['configurations', 'fault_sequences'], 'Every subcommand, any arguments, every step failing in turn.',
     'No test runs the binary; a step that fails needs faults at particular points.',
     [B + 'main.rs'], [('main', B + 'main.rs')], observe=['exit status of brack'],
     note='All outcomes of main per subcommand, the work of each subcommand replaced by symbolic results.')
prop('C33', 'Language server: the open project and capabilities follow the messages',
     'Opening a document makes the project two directories above it the open one when its Brack.toml was read and its plugins were fetched, in this order; a document that is not a file, has no such directory, or whose project cannot be loaded or fetched leaves the open project as it was, and so does a didOpen whose parameters cannot be read. initialize keeps the capabilities the client sent. No other message changes either, and opening a document writes nothing but log or show messages.',
     ['histories', 'fault_sequences'], 'Every kind of message from any server state, every failing step of opening a project.',
     'No test opens a document in the server; the state it leaves is only seen by later requests.',
     [LSP + 'notification/did_open.rs', LSP + 'request.rs'], [('handle_text_document_did_open', LSP + 'notification/did_open.rs'), ('handle_request', LSP + 'request.rs')], observe=['responses of brack language-server'],
     note='All outcomes of Server::run on one message from a server with symbolic state; the state left behind is compared.')
prop('C34', 'compile: exactly the modules of the plugins directory become plugins',
     'compile loads exactly the entries of the plugins directory whose whole file name is letters, an underscore, letters and digits, and `.wasm`, each from its own path, as the plugin named by the letters, with no hooks; back-ups, other files and the names of the directories above change nothing. The directory is the one given with -p, or else the one in BRACK_PLUGINS_PATH. A directory or entry that cannot be read, or a module that cannot be loaded, makes compile fail before any stage runs and without output.',
     ['configurations', 'fault_sequences'], 'Directories of up to three entries from a list of module and non-module names, under directories of several names; every failing step.',
     'No test runs compile with plugins; which files lie next to the modules is up to the user.',
     [B + 'main.rs'], [('run_compile', B + 'main.rs')], observe=['standard output of brack compile'],
     note='All outcomes of run_compile on enumerated directories; path and pattern functions are evaluated on the names.')
prop('C35', 'JSON forms: every part under its own name, and back',
     'The JSON form of a token, syntax-tree node (before and after the transformation), location, plugin value, command type and command metadata has every variant and every field under the name it has in the source - empty lists and absent texts included - nothing else, and reading the form gives the same value whatever the order of the fields. A form that lacks a field other than an optional one is refused.',
     ['inputs'], 'Every variant of every type, any contents, fields empty or present, in both orders, each left out in turn.',
     'No test reads the JSON output or looks at what is exchanged with plugins; the values are unbounded trees.',
     ['crates/brack-tokenizer/src/tokens.rs', 'crates/brack-parser/src/cst.rs', 'crates/brack-transformer/src/ast.rs', 'crates/brack-plugin/src/value.rs', 'crates/brack-plugin/src/types.rs', 'crates/brack-plugin/src/metadata.rs'],
     [('CST', 'crates/brack-parser/src/cst.rs'), ('AST', 'crates/brack-transformer/src/ast.rs'), ('Value', 'crates/brack-plugin/src/value.rs')], observe=['standard output of brack compile --json', 'arguments of plugin calls'],
     note='All outcomes of the analysed serialisers and readers on every variant with symbolic contents.')
