def P(id, title, statement, over, text, why, files, mech, technique=None, note=None, na=None, observe=()):
    d = {'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over.split(), 'text': text}, 'why_tests_cant': why,
         'anchors': {'files': files.split(), 'mechanism': [{'name': n, 'where': w} for n, w in mech]}}
    if na:
        d['na'] = na
    else:
        d['technique'], d['note'] = technique, note
    PROPS.append(d)


PROPS = []

P('L01', 'The scanner splits text into tokens exactly as the token grammar says',
  'For every input text the scanner delivers the sequence of tokens that the documented token grammar assigns to it: keywords, identifiers, constants, operators and instructions get their type and exactly their text, white space and comments deliver nothing. '
  'A malformed token delivers an error token together with an error message, and a well-formed token delivers no error message. '
  'The scanner never skips a character, never reads one twice and always terminates with an end token at the end of the text.',
  'inputs', 'every character sequence, including truncated, malformed and maximal-munch cases',
  'The tests scan a few hundred fixed strings; the property is about all strings, in particular the malformed ones and the combinations of adjacent characters that nobody wrote down.',
  'src/lex/Lexer.cpp include/mutable/tables/TokenType.tbl include/mutable/tables/Keywords.tbl',
  [('character classification and dispatch', 'src/lex/Lexer.cpp Lexer::next'), ('constants', 'src/lex/Lexer.cpp Lexer::read_number, read_date_or_datetime, read_string_literal'),
   ('keyword table', 'src/lex/Lexer.cpp Lexer::initialize_keywords, include/mutable/tables/Keywords.tbl')],
  'abstract interpretation of the scanner in product with a reference automaton of the token grammar',
  'Complete over all inputs at the level of character classes: every path of the scanner is interpreted abstractly and compared with the reference automaton; numeric values of constants are not part of it.')

P('P01', 'The parser accepts exactly the SQL dialect of the grammar',
  'For every token sequence the parser accepts, without an error message, exactly the sequences that the SQL grammar of the system derives; every other sequence is reported as an error. '
  'Parsing of a statement consumes exactly its tokens, never reads beyond its terminating semicolon, and never aborts the process.',
  'inputs', 'every token sequence, for every statement, clause, expression, data type and constraint',
  'The tests parse some hundred fixed statements; which of the infinitely many other token sequences are accepted, rejected or misread is settled by none of them.',
  'src/parse/Parser.cpp src/parse/Parser.hpp src/tables/FollowSet.tbl',
  [('recursive-descent rules', 'src/parse/Parser.cpp Parser::parse_*'), ('token primitives', 'src/parse/Parser.cpp/.hpp Parser::accept, expect, consume, token, no, is')],
  'abstract interpretation of every parse function in product with the automaton of its grammar rule',
  'Every parse function is interpreted over an unknown token stream; calls of other parse functions are non-terminals. Error recovery (which tokens are skipped after an error) is not part of the property.')

P('P02', 'The syntax tree contains what was written, in the order and nesting of the grammar',
  'For every accepted token sequence the tree contains each name, constant, flag and sub-expression at the place the grammar assigns to it, in source order, and nothing else. '
  'Binary operators nest by precedence (* / %, then + -, then .., then comparisons and LIKE, then NOT, then AND, then OR) and associate to the left, and parentheses override both. '
  'Optional parts that were not written are absent from the tree.',
  'inputs', 'every accepted token sequence, in particular every combination of operators and optional clauses',
  'Precedence and placement are tested on a fixed set of expressions and statements; the property quantifies over all combinations of operators, optional parts and list lengths.',
  'src/parse/Parser.cpp src/parse/Parser.hpp include/mutable/parse/AST.hpp',
  [('tree construction', 'src/parse/Parser.cpp Parser::parse_*'), ('operator precedence', 'src/parse/Parser.cpp get_precedence, Parser::parse_Expr')],
  'provenance analysis of tree nodes over all paths of the parse functions, with a precedence obligation per operator pair',
  'Tracks for every constructor argument which token or sub-tree it comes from, for all paths; list order is tracked by append provenance.')

P('K01', 'Every instruction of the interpreter computes its documented function',
  'For all operand values, every instruction of the interpreter\'s stack machine (arithmetic, logic, comparison, cast, LIKE, concatenation, selection, printing, loads and stores of tuples, context and memory) produces exactly its documented result, pops and pushes exactly the values of its declared stack effect, and changes nothing else. '
  'An operation on a NULL operand yields NULL and is not evaluated, AND and OR follow three-valued logic, and storing a NULL leaves memory alone. '
  'Emitting an instruction appends exactly the instruction and its operands and accounts for the stack height it needs.',
  'inputs', 'every operand value and NULL combination, for every instruction',
  'The tests run a handful of operand values per instruction and hardly any NULL; a wrong corner (NULL, sign, width, operand order of a rarely used instruction) stays invisible.',
  'src/backend/StackMachine.cpp src/backend/StackMachine.hpp src/tables/Opcodes.tbl include/mutable/IR/Tuple.hpp include/mutable/util/fn.hpp',
  [('instruction segments', 'src/backend/StackMachine.cpp StackMachine::operator()'), ('emitters', 'src/backend/StackMachine.cpp StackMachine::emit_*'), ('values and NULL bits', 'include/mutable/IR/Tuple.hpp Value, Tuple')],
  'abstract interpretation of each instruction to a guarded transfer function, compared with reference transfer functions',
  'Symbolic operands, all NULL combinations; guarded terms are compared with the reference on sampled valuations (corner values of each type). Division by zero and NaN have no defined result. LIKE matching itself and text formatting of values by the standard library are opaque.')

P('C01', 'Reader-writer lock: exclusion, no lost wakeup, and guards that own what they hold',
  'For every schedule of threads, the write lock is never held together with another write lock or with a read lock, no reader is admitted while a writer is waiting or an upgrade is pending, and an upgrade succeeds only for the single remaining reader and only if no other upgrade is pending. '
  'An operation blocks only while its lock is unavailable, a non-blocking attempt succeeds exactly if the lock is available, and whenever a lock becomes available every waiter that could take it is woken, so no thread waits forever for a free lock. '
  'The lock guards (reader_writer_lock, read_lock, write_lock, upgrade_lock) release every lock they own exactly once, in whatever sequence they are locked, unlocked, moved, swapped, upgraded and destroyed, and a failed upgrade gives up the read lock.',
  'schedules histories', 'every interleaving of any number of threads, every history of the guards',
  'The tests run two timed schedules with sleeps; exclusion and lost wakeups depend on interleavings that no test can enumerate.',
  'include/mutable/util/reader_writer_lock.hpp',
  [('monitor', 'include/mutable/util/reader_writer_lock.hpp reader_writer_mutex, reader_writer_mutex_internal'), ('guards', 'include/mutable/util/reader_writer_lock.hpp reader_writer_lock, read_lock, write_lock, upgrade_lock')],
  'monitor-invariant and wakeup analysis by abstract interpretation of every critical section, ownership typestate of the guards',
  'Counter states up to 3 per class of thread (the code distinguishes 0, 1 and more); std::mutex and std::condition_variable are trusted. Exclusion and wakeups hold for any number of threads because every critical section is analysed from every state of the invariant.')

P('C03', 'Object pools keep one object per value and count its handles exactly',
  'For every history of pooling values and of copying, moving, converting, assigning, swapping, comparing and destroying handles, the reference count of a pooled object equals the number of live handles of it, a copy refers to the same object as its source, and handles compare equal exactly if they refer to the same object. '
  'Pooling a value returns a handle of the one object in the table that equals it, inserting it exactly if it is missing; erasing removes exactly an object without handles. '
  'A thread-safe pool looks up its table only under its lock, changes it only under the write lock, and touches an object only under the lock or through a live handle.',
  'histories schedules', 'every history of handles, every table state, and every interleaving for thread-safe pools',
  'The unit tests cover a few fixed sequences of handle operations and no interleaving; a counter that is off after a rare move or conversion leaves all of them green.',
  'include/mutable/util/Pool.hpp',
  [('handles', 'include/mutable/util/Pool.hpp Pooled'), ('pools', 'include/mutable/util/Pool.hpp PODPool::operator(), Pool::operator(), erase, Get')],
  'abstract interpretation of handle histories to a fixpoint, lock-discipline and provenance analysis of the pool operations',
  'Three handles over two objects per pool flavour; the hash table of the standard library is trusted; hash and equality of values are parameters.')

P('C02', 'The serial scheduler runs one transaction at a time and answers every command exactly once',
  'For every schedule of clients, the worker is only ever given commands of the running transaction until that transaction is committed or aborted, the commands of one transaction in the order in which they were scheduled, and a new transaction is started only when none is running, first come, first served. '
  'The worker waits only while no command may be delivered, and every event that makes a command deliverable, or closes the queue, wakes it; ending a transaction ends exactly that transaction, even if it never executed a command. '
  'Every scheduled command is answered exactly once: with success exactly if it was analysed and executed without an error, with failure otherwise, in particular when the queue is or becomes closed; a command with errors is not executed. '
  'A transaction gets its start time with its first command and keeps it; autocommit commits exactly if its command succeeded and aborts otherwise; shutting down closes the queue and joins the worker, which is started exactly once. '
  'The queue is only accessed under its mutex, and no operation reads outside of it.',
  'schedules histories', 'every interleaving of clients and worker, every state of the command queue',
  'The tests schedule single commands and wait for each; what happens with several transactions and waiting commands depends on interleavings that they never produce.',
  'src/catalog/SerialScheduler.cpp src/catalog/SerialScheduler.hpp src/catalog/Scheduler.cpp include/mutable/catalog/Scheduler.hpp',
  [('command queue', 'src/catalog/SerialScheduler.cpp CommandQueue::push, pop, close, is_closed, stop_transaction'), ('worker', 'src/catalog/SerialScheduler.cpp schedule_thread'),
   ('clients', 'src/catalog/SerialScheduler.cpp schedule_command, commit, abort; src/catalog/Scheduler.cpp autocommit')],
  'monitor analysis: abstract interpretation of every queue operation from every reachable queue state, protocol analysis of the worker and its clients',
  'Up to three waiting commands of three transactions (the code compares transactions only for equality and looks at the first and last command); std::mutex, std::condition_variable, std::list and std::promise are trusted. Exceptions thrown by a command are not part of it.')


P('D01', 'Creating, dropping and using databases does exactly what was asked or reports an error',
  'For every history of commands, the catalog holds exactly the databases that were created and not dropped, names are unique, and the database in use always exists. '
  'CREATE DATABASE fails if the name is taken, DROP DATABASE fails if the database does not exist or is in use, USE fails if it does not exist; a failing command reports an error, is not acknowledged, and changes nothing. '
  'A successful command has exactly its effect: the database is added, removed (and destroyed exactly once), or becomes the one in use. Looking up a database finds exactly the one of that name or throws; clearing the catalog leaves nothing behind.',
  'histories', 'every history of database commands, every state of the catalog',
  'The tests create and drop a few databases in fixed sequences; the property quantifies over all histories, in particular those in which commands fail.',
  'src/catalog/Catalog.cpp include/mutable/catalog/Catalog.hpp src/catalog/DatabaseCommand.cpp',
  [('catalog', 'src/catalog/Catalog.cpp Catalog::add_database, drop_database; include/mutable/catalog/Catalog.hpp get_database, has_database, set_database_in_use, unset_database_in_use, Clear'),
   ('commands', 'src/catalog/DatabaseCommand.cpp CreateDatabase::execute, DropDatabase::execute, UseDatabase::execute')],
  'inductive invariant by abstract interpretation: every operation and command from every state of the invariant is compared with a reference transition',
  'States with up to two databases plus one unknown name (the code compares names only for equality); std::unordered_map is modelled; constructing a database and its cardinality estimator is opaque.')

P('D02', 'Creating and dropping tables and indexes does exactly what was asked or reports an error',
  'For every history, a database holds exactly the tables and indexes that were created and not dropped, and table names and index names are unique. '
  'CREATE TABLE, DROP TABLE, CREATE INDEX and DROP INDEX report an error for every name that is taken or does not exist, acknowledge only what succeeded, and change nothing else; lists of names are processed completely. '
  'A created table gets exactly one layout and one store; an index is built from the indexed attribute of its table before it is added, and an index that cannot be built is not added. '
  'Dropping a table drops exactly its indexes along with it, so that no index refers to a table that does not exist any more. '
  'Invalidating the indexes of a table invalidates all of its indexes and no other, and looking up an index by table, attribute and method offers only a valid index of exactly that table, attribute and method.',
  'histories', 'every history of table and index commands, every state of the database',
  'The tests use one or two tables and one index in fixed sequences and check hardly any failing command.',
  'include/mutable/catalog/Schema.hpp src/catalog/Schema.cpp src/catalog/DatabaseCommand.cpp',
  [('database', 'include/mutable/catalog/Schema.hpp Database::add, add_table, get_table, has_table, drop_table, add_index, drop_index, drop_indexes, has_index, get_index, invalidate_indexes'),
   ('commands', 'src/catalog/DatabaseCommand.cpp CreateTable::execute, DropTable::execute, CreateIndex::execute, DropIndex::execute')],
  'inductive invariant by abstract interpretation: every operation and command from every state of the invariant is compared with a reference transition',
  'States with up to two tables and two indexes in the quick check, more in the thorough one (the code compares names only for equality and treats list elements alike); std::unordered_map and std::list are modelled; what bulkloading computes, layouts and stores are opaque.')

P('D03', 'Tables number, name and hide their attributes consistently',
  'The attributes of a table are numbered in the order of their creation, every attribute knows its number and its table, and looking up a number or a name yields exactly that attribute or throws std::out_of_range; a name can be used only once, and a failing push_back changes nothing. '
  'Traversing a table yields exactly its visible attributes in order, exactly its hidden ones, or all of them, forwards and backwards; distances between iterators and the numbers of attributes agree with that; convert_id maps the n-th visible attribute to its number. '
  'The primary key consists of exactly the attributes that were added to it; an attribute is unique exactly if it is declared so or alone forms the primary key; attributes and tables are equal only to themselves, also through decorators. '
  'The schema of a table lists all attributes in order with the alias or the table name as prefix and with their types and constraints. A multi-versioned table has the additional hidden non-null 64 bit attributes $ts_begin and $ts_end and delegates everything else.',
  'inputs histories', 'every table, whatever its attributes, and every operation on it',
  'The tests use tables with a handful of attributes in a fixed order; hidden attributes in particular only occur at the end.',
  'include/mutable/catalog/Schema.hpp src/catalog/Schema.cpp',
  [('tables', 'include/mutable/catalog/Schema.hpp Table::the_iterator, ConcreteTable, TableDecorator, Attribute'),
   ('schema', 'src/catalog/Schema.cpp ConcreteTable::schema, Attribute::is_unique, MultiVersioningTable')],
  'abstract interpretation of every operation from enumerated table shapes, compared with a reference table',
  'Tables of up to three attributes (thorough: four) with every combination of hidden attributes, plus selected keys and flags; names are compared only for equality; std::vector and std::unordered_map are modelled.')

P('D04', 'Schemas are sequences of identified entries',
  'A schema is a sequence of entries: adding appends, entries are numbered from zero, at throws out_of_range exactly for numbers and identifiers that do not exist. Identifiers are equal exactly if prefix and name are equal; an empty prefix is rejected. '
  'Looking up an identifier yields exactly the entry of that identifier, nothing if there is none, and throws invalid_argument if there are several. '
  'Concatenation keeps everything in order, union adds exactly the entries whose identifier is not present yet, intersection keeps the entries of the left side that also occur on the right side and merges their constraints, rejecting different types; '
  'equality is mutual inclusion of identifiers; deduplication keeps the first entry of every identifier and removing constants removes exactly these. None of these operations changes its operands, types or constraints in any other way.',
  'inputs', 'all schemas and identifiers',
  'The tests compare a few schemas without duplicates; duplicates, constants, differing types and constraints do not occur in combination.',
  'include/mutable/catalog/Schema.hpp src/catalog/Schema.cpp',
  [('schema', 'include/mutable/catalog/Schema.hpp Schema, Schema::Identifier, Schema::entry_type, operator+, operator|, operator&')],
  'abstract interpretation of every operation from enumerated schemas, compared with a reference sequence',
  'Schemas of up to two entries over six identifiers in all combinations and selected ones of three (thorough: all of three); identifiers are compared only for equality; appending a schema to itself is not part of it.')

P('N01', 'Conversion to conjunctive normal form preserves the meaning of conditions',
  'For every boolean condition the conjunctive normal form has the same value (true, false or unknown) as the condition for all values of its operands, and every literal is an operand of the logical connectives of the condition, negated or not. '
  'Predicates keep their expression and their sign. Conjunction, disjunction and negation of clauses and normal forms have the meaning of the logical operation; comparing them compares the sets of their literals or clauses. '
  'An equi-predicate is exactly an equality of two designators (or a negated inequality); a normal form can be null exactly if one of its literals can. The printed SQL text of a predicate, clause or normal form has the same meaning again.',
  'inputs', 'every nesting of logical connectives, negations and operands; every clause and normal form',
  'The tests convert a fixed set of small conditions and check them for a fixed shape of the result; NULL operands and nested equivalences are not tested.',
  'src/IR/CNF.cpp include/mutable/IR/CNF.hpp',
  [('conversion', 'src/IR/CNF.cpp CNFGenerator, to_CNF'), ('operators', 'src/IR/CNF.cpp cnf::operator&&, operator||, operator!'), ('literals', 'include/mutable/IR/CNF.hpp Predicate'),
   ('printing', 'src/IR/CNF.cpp to_sql')],
  'abstract interpretation of the conversion on every condition shape up to a bound, result compared with the condition in three-valued logic over all valuations',
  'Condition shapes with up to four operands of the connectives (thorough: more negations and connective combinations); leaves are treated alike by the code. Disjunction and negation of empty normal forms and empty clauses are not part of it.')

P('X01', 'Expressions are compared, traversed and classified by what they mean',
  'Two expressions are equal exactly if they have the same structure with the same names (including the presence of a table name), operators and constants; != is the negation and equal expressions have equal hashes. '
  'Pre-order and post-order traversal visit every node of an expression exactly once and in that order, mutable or not; skipping leaves out exactly the subtree below a node, stopping ends the traversal. '
  'The required schema of an expression consists of exactly its attributes and aggregates (an aggregate as a whole, not its arguments), each once, in order, with their types. '
  'An expression is constant exactly if it is built from constants by operators, directly or through named expressions; it is reported as never NULL only if none of its operands can make it NULL, with three-valued AND and OR; '
  'free and bound variables, names of designators and kinds of constants are classified correctly.',
  'inputs', 'every expression: all operators, functions, designators bound or free, constants, and their nestings',
  'The tests compare and classify a handful of expressions; which nestings, implicit table names and function arities work is settled by none of them.',
  'include/mutable/parse/AST.hpp src/parse/AST.cpp',
  [('equality and hashing', 'src/parse/AST.cpp *::operator==, *::hash'), ('traversal', 'include/mutable/parse/AST.hpp TheRecursiveExprVisitorBase, src/parse/AST.cpp recursive_expr_visitor'),
   ('required attributes', 'src/parse/AST.cpp Expr::get_required'), ('classification', 'include/mutable/parse/AST.hpp is_constant, can_be_null, contains_free_variables, contains_bound_variables, Constant::is_*')],
  'abstract interpretation of every query on enumerated expression trees, compared with structural definitions; hash values compared as terms',
  'About 130 tree shapes and 3800 pairs, including all node kinds, arities 0 to 3 and nestings to depth three; the code treats names and constants only by equality. Nested queries are opaque.')

P('I01', 'The interpreter evaluates every operator of a plan as the relational operation it stands for',
  'Executing a plan with the interpreter hands exactly the rows of the relational expression to the callback, the printer or the row counter: a scan yields every row of the table, a filter (conjunctive or disjunctive) keeps the '
  'rows for which its condition is TRUE and not those for which it is FALSE or NULL, a projection computes its expressions, a join yields every combination of rows for which its condition is TRUE (NULL keys match nothing), '
  'whichever algorithm is chosen, grouping forms one group per distinct key with NULL equal to NULL, aggregates ignore NULLs and have the defined value for no input, ORDER BY orders by its keys with NULL in a fixed place, '
  'LIMIT and OFFSET take the right section, and the number of rows reported is the number of rows produced. This holds for any number of rows, in particular around the size of a block, for empty inputs, and for operators on top of each other. '
  'No row, attribute or block is accessed out of bounds, no assertion fails and nothing depends on the left-over value of a NULL.',
  'inputs', 'every plan, every content of the tables, every number of rows, NULLs anywhere',
  'The tests run a few queries over small tables; block boundaries, NULL keys, empty inputs and combinations of operators are hardly exercised, results are not compared with a reference.',
  'src/backend/Interpreter.cpp src/backend/Interpreter.hpp include/mutable/IR/Tuple.hpp',
  [('operators', 'src/backend/Interpreter.cpp Pipeline::operator()(const ...Operator&), Interpreter::operator()(const ...Operator&)'),
   ('state of the operators', 'src/backend/Interpreter.cpp SimpleHashJoinData, NestedLoopsJoinData, GroupingData, AggregationData, SortingData, FilterData'),
   ('blocks', 'src/backend/Interpreter.hpp Block, Pipeline')],
  'abstract interpretation of the visitors of the interpreter on enumerated plans over abstract tables; the abstract rows that reach the root are compared with relational algebra',
  'About 180 plans (every operator, its variants, compositions) over up to three tables with 0 to 130 rows. Programs of the stack machine are recorded symbolically and applied to the abstract rows: what their instructions do is K01, '
  'what compiled expressions compute is E01. RefCountingHashMap and the standard containers are modelled by their specification. CHAR keys of joins and groups are excluded (compared as pointers, see DESIGN.md).')

P('E01', 'Compiled expressions and casts compute the value of the expression',
  'The program the stack machine is given for an expression leaves exactly one value, which is the value of the expression in SQL, for all values of the attributes, NULL included: arithmetic on every pair of numeric types with the '
  'conversions and scales of the result type, comparisons on a common type, three-valued logic, concatenation, LIKE, ISNULL and INT, constants in every notation, attributes found in the right tuple at the right position, results that '
  'were computed before reused. A condition in conjunctive normal form has the value of the conjunction of its clauses with the signs of their literals. A cast converts between every pair of types it accepts. '
  'Storing and printing use the instruction of the type. No instruction is given a value of another representation, and the stack size that is claimed suffices.',
  'inputs', 'every expression, every combination of operand types, all values of the attributes',
  'The tests compile a few dozen expressions and compare single results; pairs of types, scales of decimals, NULLs and several input schemas are sampled sparsely.',
  'src/backend/StackMachine.cpp src/backend/Interpreter.hpp src/catalog/Type.cpp',
  [('expressions', 'src/backend/StackMachine.cpp StackMachineBuilder, StackMachine::emit'),
   ('casts, stores, output', 'src/backend/StackMachine.cpp emit_Cast, emit_St_Tup, emit_Print'),
   ('constants', 'src/backend/Interpreter.hpp Interpreter::eval'),
   ('types', 'src/catalog/Type.cpp arithmetic_join')],
  'abstract interpretation of the compiler on enumerated typed expressions; the emitted instruction sequence is read off the abstract machine and compared with the semantics of the expression over a domain of values per type',
  'About 1050 programs: all operators on all pairs of seven numeric types, strings, dates and truth values, nested expressions, eight conditions, several schemas, all casts. Values per type: NULL, negative, zero, fractions, empty strings. '
  'Overflow and the precision of floating point are not part of the property. Translating a LIKE pattern into a regular expression is not part of it.')

P('W01', 'INSERT and imports write exactly the given rows into the attributes they are meant for',
  'For every INSERT statement the table receives exactly one new row per given row, in order, behind the existing ones and in its current data layout. '
  'The n-th cell of a row goes to the n-th visible attribute: NULL and DEFAULT leave it NULL, an expression is stored after a cast to the type of the attribute; no cell depends on another row. '
  'Hidden attributes are never written by cells: a multi-versioned table records the start time of the transaction in $ts_begin and -1 in $ts_end, every other hidden attribute is NULL. '
  'Whenever rows were added to a table, by INSERT or by importing a file through any entry point, with or without errors, all indexes of that table, and no others, are invalid afterwards.',
  'inputs', 'every table, every number of rows and every combination of NULL, DEFAULT and expressions, through the database command and through execute_statement',
  'The tests insert one or two rows into tables without hidden attributes and rarely use NULL, DEFAULT, multi-versioning or indexes in combination.',
  'src/catalog/DatabaseCommand.cpp src/mutable.cpp',
  [('INSERT', 'src/catalog/DatabaseCommand.cpp InsertRecords::execute, src/mutable.cpp execute_statement, StoreWriter'),
   ('imports', 'src/catalog/DatabaseCommand.cpp ImportDSV::execute, src/mutable.cpp execute_statement, load_from_CSV')],
  'abstract interpretation of the statements on enumerated tables and rows; the rows written are compared with a reference as provenance terms',
  'Nine table shapes with hidden attributes in all positions, up to three rows (single rows exhaustively, pairs selectively; thorough: all pairs). Evaluating the expressions and storing a row at a position are other properties (K01); the file reader is V01.')

P('V01', 'Delimiter-separated values are read as the rows they stand for',
  'For every text, table and format (delimiter, quote, escape, header present / skipped, limit on the number of rows) the DSV reader appends to the table exactly the rows of the text, in order. '
  'Cells go to the visible attributes in order of the table, or, with a header, to the attributes the header names; columns the table does not know are skipped whatever they contain, attributes the header does not name are NULL. '
  'An empty cell is NULL. Truth values are TRUE and FALSE; numbers are decimal with an optional sign, DECIMAL is stored scaled and cut off behind its scale, too large floating-point numbers are clamped; dates and datetimes may be quoted and may have a negative year; '
  'a quoted string may contain delimiters and line breaks, and quotes if escaped (doubled when escape and quote are the same character, RFC 4180), and ends at the end of the text at the latest; what follows a complete date or string in its cell is ignored. '
  'A cell that is not of its type becomes NULL; a row with too few or too many cells is not stored and uses up no row of the limit; in both cases something is reported for its line, the rest of the text is read as if nothing had happened, no value of another row shows up. Nothing is reported for well-formed rows. '
  'Within a transaction $ts_begin is its start time and $ts_end is -1; other hidden attributes are NULL. A format whose delimiter is its quote is rejected with m::invalid_argument.',
  'inputs', 'every text, table and format',
  'The tests import a few dozen well-formed rows and a handful of malformed cells into fixed tables; the property is about every text, in particular what one malformed cell, row or quote does to the following ones.',
  'src/io/DSVReader.cpp include/mutable/io/Reader.hpp',
  [('rows, header, limit', 'src/io/DSVReader.cpp DSVReader::operator()(std::istream&, const char*)'), ('cells by type', 'src/io/DSVReader.cpp DSVReader::operator()(Const<…>&), read_unsigned_int'),
   ('characters and recovery', 'include/mutable/io/Reader.hpp DSVReader::step, discard_cell, discard_row')],
  'abstract interpretation of the reader on enumerated texts; the rows that reach the store and the lines reported are compared with a reference reader',
  'All cells up to two to four characters over the characters the code distinguishes for the type, all one-character edits of dates and datetimes, pairs (thorough: triples) of malformed and well-formed rows, 21 headers, five formats, limits. '
  'Not specified and left out: a quote in the remainder of a date or string, the bytes 0 and 255, numbers beyond 64 bit, FLOAT beyond its range, leading white space / inf / nan / hexadecimal floating-point numbers. How a date becomes a number is E01, how a row is stored is K01.')

P('Y01', 'Escape sequences and LIKE patterns mean the same everywhere',
  'For every text and pattern: a constant pattern (compiled to a regular expression) and a computed one (m::like) match the same strings: _ one character, % any number, including line breaks, any other character itself, whatever it means '
  'in a regular expression, and the escape character followed by _, % or itself that character; any other escape sequence, also an incomplete one at the end, is an m::runtime_error, and _ or % as the escape character of a pattern an m::invalid_argument. '
  'm::escape puts the escape character in front of quotes, line breaks (as n) and itself; m::unescape undoes it for every text and keeps an invalid escape sequence as it is. m::unquote removes a pair of quotes, leaves a text without opening quote alone '
  'and throws m::invalid_argument for a missing closing quote or less than two characters; m::interpret does both. m::replace_all replaces every occurrence from left to right and nothing within a replacement; m::html_escape escapes &, < and >.',
  'inputs', 'every text, pattern and escape character',
  'The tests try a handful of patterns and texts with the default escape character; agreement of the two implementations of LIKE and of escape with unescape is about all of them.',
  'src/util/fn.cpp include/mutable/util/fn.hpp',
  [('LIKE on computed patterns', 'src/util/fn.cpp like'), ('LIKE on constant patterns', 'include/mutable/util/fn.hpp pattern_to_regex'),
   ('escape sequences', 'src/util/fn.cpp escape, unescape, html_escape; include/mutable/util/fn.hpp unquote, interpret, quote, replace_all')],
  'abstract interpretation of the functions on enumerated texts; results, exceptions and the language of the constructed regular expression are compared with reference definitions',
  '1800 patterns over wildcards, escape character, letters and every other character alone and escaped, each with 340 strings; every word of up to three (thorough: four) special characters for the escape functions. '
  'The character 0 is left out, as are empty search texts of replace_all. What std::regex does with the expression is taken from the ECMAScript grammar.')

P('S02', 'Rows lie disjointly in their layout and compiled programs find them there',
  'For every list of attribute types (numbers up to 64 bit), every combination of the layout options and every parameter of the factory, a layout made by the Row or PAX factory places the values and the NULL bitmap of all rows on pairwise disjoint bits inside their block; '
  'everything but BOOL (and the NULL bitmap) starts at a byte, in Row layouts at a multiple of its alignment, in PAX layouts too if attributes are reordered and the block size is a multiple of eight bytes. Attribute i is leaf i, the NULL bitmap is the leaf behind the attributes unless options remove it. '
  'For every such layout, and for nested sequences of any depth whose columns may have strides of single bits, every schema that names some or all of the attributes in any order, and every first row, '
  'the k-th execution of the program that Interpreter::compile_load makes loads exactly the attributes of row first+k, the one of compile_store stores them there and changes no other bit; a value is NULL iff its attribute may be NULL and the NULL bit of the row is set, storing sets or clears that bit.',
  'inputs', 'every list of types, layout, schema, first row',
  'The tests build layouts of a few attribute lists with the default options and read back some rows; overlaps depend on the combination of sizes, alignments, block size and row number.',
  'src/storage/DataLayoutFactory.cpp src/storage/DataLayout.cpp src/backend/Interpreter.cpp include/mutable/catalog/Type.hpp',
  [('placing attributes', 'src/storage/DataLayoutFactory.cpp RowLayoutFactory::make, PAXLayoutFactory::make'), ('structure of layouts', 'src/storage/DataLayout.cpp add_inode, add_leaf, for_sibling_leaves'),
   ('programs that load and store rows', 'src/backend/Interpreter.cpp compile_data_layout, compile_load, compile_store')],
  'abstract interpretation of factories and compiler on enumerated types, options and layouts; disjointness of bit intervals and symbolic execution of the compiled instructions against the address the layout defines',
  '29 lists of up to 20 attributes, twelve factory parameters, all options; two blocks of rows and one more for each; six nested layouts. Each instruction means what K01 establishes. '
  'Left out: DECIMAL beyond 64 bit, layouts of a fixed number of exactly one row, the WebAssembly backend (V8 and binaryen are not available here).')
