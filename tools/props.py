# -*- coding: utf-8 -*-
"""the properties: id -> (title, statement, over, quantifier text, why tests can't, files, mechanisms[(name, where)])"""
P = {}


def p(id, title, statement, over, text, why, files, mech):
    P[id] = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                 anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))


CO = "syncanysql/compiler.py"
MY = "syncanysql/calculaters/mysql_funcs/"

p("C06", "WHERE keeps exactly the rows whose condition is true",
  "A SELECT over an in-memory table returns, in table order and each exactly once, the rows for which the WHERE condition (comparisons, IN, NOT IN, BETWEEN, IS NULL, NOT, AND and OR with AND binding tighter, arithmetic and conditional functions) evaluates to true, and no other row. "
  "The result does not depend on which side of a comparison the constant stands, on how many conditions name the same column, or on whether a condition is evaluated by the data source or by the expression engine.",
  ["inputs", "programs"], "every table content (integers, short strings, NULLs where an expression rather than the driver evaluates the comparison) for every predicate shape of the catalogue",
  "the examples check a handful of fixed rows against fixed predicates; the split between pushed-down filters and evaluated predicates fails only for particular predicate shapes and boundary values",
  [CO, MY + "logical_funcs.py"],
  [("pushdown of conditions to the data source", CO + " compile_where_condition / parse_condition"),
   ("predicate evaluation", CO + " compile_calculate"), ("comparison functions", MY + "logical_funcs.py")])
p("C07", "Comparisons and conditionals follow SQL three-valued logic",
  "For all column values, comparisons, IN, BETWEEN, NOT, AND and OR return 1 or 0, or NULL where SQL's three-valued logic says so, with NOT binding tighter than AND and AND tighter than OR; IS NULL never returns NULL. "
  "IF, IFNULL, COALESCE and both forms of CASE return the value of the first branch that applies, and NULL when CASE has no ELSE and nothing matches.",
  ["inputs", "programs"], "all integers, fractions, short strings and NULLs as operands of every operator shape of the catalogue",
  "the logic example evaluates constants; NULL operands, operator precedence and boundary values are not covered by fixed rows",
  [CO, MY + "logical_funcs.py", "syncanysql/calculaters/mysql_calculater.py"],
  [("operators", MY + "logical_funcs.py"), ("CASE/IF compilation", CO + " compile_calculate"), ("boolean to number conversion", "syncanysql/calculaters/mysql_calculater.py")])
p("C08", "Arithmetic, bitwise and numeric functions compute the SQL value",
  "For all numbers, +, -, *, /, %, unary minus, the bitwise operators and shifts evaluate with SQL precedence and associativity to the exact value, NULL if an operand is NULL, and NULL when dividing by zero or taking a remainder by zero; a remainder has the sign of the dividend. "
  "ABS, SIGN, FLOOR, CEIL, ROUND, GREATEST, LEAST and POW return the mathematically defined value for every number.",
  ["inputs", "programs"], "all integers (bitwise operands within +-100), fractions with denominator 4 within +-10^6, NULLs, for every expression shape of the catalogue",
  "the mathematical example evaluates constants; signs, zero divisors and NULLs multiply to more cases than rows",
  [CO, MY + "number_funcs.py"], [("expression compilation", CO + " compile_calculate"), ("number functions", MY + "number_funcs.py")])
p("C09", "GROUP BY yields one row per distinct key with exact aggregates",
  "A grouped SELECT returns exactly one row per distinct value (NULL counting as one value) of the grouping expressions among the rows that pass WHERE, in order of first appearance. "
  "In each row COUNT, SUM, AVG, MIN, MAX and COUNT(DISTINCT) equal the SQL aggregates of exactly that group's rows, ignoring NULL values, also inside arithmetic expressions, and the same holds for aggregates without GROUP BY over a non-empty table.",
  ["inputs", "programs"], "every content of tables of up to 4 rows (integers, short strings, fractions, NULLs) for every query shape of the catalogue; the sum and average of no values are taken as 0 here",
  "aggregation tests use one fixed log file; grouping collisions, NULL keys and NULL values appear only for particular contents",
  [CO, "syncanysql/calculaters/aggregate_calculater.py", "syncanysql/taskers/query.py"],
  [("aggregate compilation", CO + " compile_aggregate_*"), ("aggregate states", "syncanysql/calculaters/aggregate_calculater.py"), ("grouping by the reduce tasker", "syncanysql/taskers/query.py")])
p("C10", "Reading a source in batches gives the same result as reading it at once",
  "For every batch size, a SELECT with WHERE, calculated columns, aggregates, GROUP BY, HAVING, DISTINCT, ORDER BY, LIMIT/OFFSET, window functions, joins or subqueries over a source read in batches returns exactly the result of the same SELECT without batching. "
  "No row is lost, duplicated or aggregated twice at a batch boundary.",
  ["inputs", "histories"], "every content of tables of up to 4 rows for batch sizes 1, 2 and 3 and every query shape of the catalogue",
  "no test reads in batches; partial aggregate states and final sorting are combined only when the number of rows exceeds the batch size",
  [CO, "syncanysql/taskers/query.py", "syncanysql/calculaters/aggregate_calculater.py"],
  [("batch loop and reduce tasks", "syncanysql/taskers/query.py"), ("state merging", "syncanysql/calculaters/aggregate_calculater.py reduce / final_value")])
p("C11", "HAVING and DISTINCT filter exactly the result rows",
  "HAVING keeps exactly the result rows whose condition over the columns of the result (grouping columns, aliased aggregates and expressions) is true. "
  "SELECT DISTINCT returns each distinct combination of the selected values exactly once, in order of first appearance, NULL being one value.",
  ["inputs", "programs"], "every content of tables of up to 4 rows (integers and NULLs) for every query shape of the catalogue",
  "HAVING and DISTINCT are exercised on one log file; conditions on aggregates not selected, NULL keys and duplicate combinations are not sampled",
  [CO, "syncanysql/taskers/query.py"],
  [("HAVING compilation", CO + " compile_having_condition"), ("distinct keys", CO + " compile_group / distinct handling")])
p("C12", "ORDER BY sorts stably and LIMIT/OFFSET cut the final rows",
  "ORDER BY over selected or unselected columns, aliases, selected expressions and aggregates returns the rows sorted by all keys with their directions (a name of the select list means the value given there), rows with equal keys in source order, NULLs first ascending and last descending. "
  "LIMIT and OFFSET (both spellings) return exactly that slice of the final rows, after WHERE, joins, grouping, DISTINCT and sorting, also for LIMIT 0 and offsets past the end.",
  ["inputs", "programs"], "every content of tables of up to 4 rows (integers, one-character strings, NULLs) for every query shape and a grid of limits and offsets",
  "ties, NULLs, multi-key directions and limits interacting with grouping or joins are not covered by the fixed examples",
  [CO, "syncanysql/taskers/query.py"],
  [("order and limit compilation", CO + " compile_order / compile_limit"), ("final sorting", "syncanysql/taskers/query.py")])
p("C14", "Joins return exactly the SQL rows",
  "LEFT, INNER and RIGHT JOIN with an ON condition containing an equality between the joined table's key column and earlier tables' columns or expressions, plus any further conditions on either side, chains of such joins, CROSS JOIN and comma joins return exactly the SQL result rows: every matching combination once, unmatched rows of the preserved side once with NULLs, and nothing else. "
  "WHERE, calculated columns, aggregates, ORDER BY and LIMIT over a join see those rows. Every joined table is mentioned in the select list.",
  ["inputs", "programs"], "every content of 2x2 (3x3 in thorough) integer tables with NULLs on one side of a key, for every join shape of the catalogue",
  "the join examples use one data set with exact matches; missing partners, several partners, NULL keys and constant ON conditions are not covered",
  [CO], [("join loading and matching", CO + " parse_joins / compile_join_column"), ("ON conditions", CO + " parse_on_condition"), ("rewriting of RIGHT, INNER and comma joins", CO + " optimize_rewrite_*")])
p("C20", "Window functions compute over their own partition and order",
  "For every table, ROW_NUMBER, RANK, DENSE_RANK, LAG, LEAD, FIRST_VALUE, LAST_VALUE, NTH_VALUE, NTILE and COUNT, SUM, AVG, MIN, MAX, COUNT(DISTINCT) with OVER (PARTITION BY .. ORDER BY ..) are computed for each row over exactly the rows of its partition that pass WHERE, sorted stably by all window keys with their directions (NULLs first ascending, last descending), and the rows themselves keep their order and number. "
  "An aggregate with ORDER BY covers the partition's rows up to the current one, without it the whole partition; LAST_VALUE and NTH_VALUE see the whole partition. "
  "This also holds for several windows in one SELECT, named windows, and windows inside arithmetic, CASE, subqueries, ORDER BY and LIMIT.",
  ["inputs", "programs"], "every content of tables of 3 rows (4 in thorough): keys of a few values and NULL or any integer, values any integer or NULL, for every function, partitioning and ordering of the catalogue; ranks of tied rows, NTILE groups of uneven size, PERCENT_RANK and CUME_DIST are listed findings",
  "the window examples use one table of six rows; multi-key orders, NULL keys, one-row partitions and expressions around windows are not covered",
  [CO, "syncanysql/calculaters/window_calculater.py"],
  [("window compilation", CO + " compile_window_*"), ("window functions", "syncanysql/calculaters/window_calculater.py")])
p("C21", "String functions return the SQL result for every string",
  "For all strings, positions and lengths, LOWER/UPPER/UCASE/LCASE, TRIM, LEFT, RIGHT, SUBSTRING/SUBSTR, SUBSTRING_INDEX, REPLACE, REPEAT, REVERSE, CONCAT, CONCAT_WS, STRCMP, STARTSWITH/ENDSWITH/CONTAINS, FIELD, FIND_IN_SET, ELT, ASCII/ORD/CHAR, LENGTH/CHAR_LENGTH/BIT_LENGTH, HEX/BIN/OCT return what MySQL defines (positions from 1, negative SUBSTRING positions from the end, binary comparison, lower-case hexadecimal digits), alone and nested. "
  "NULL arguments give NULL except that CONCAT_WS skips them, FIELD gives 0 and ELT ignores those it does not select; numbers are converted to their text. UNHEX(HEX(s)) and FROM_BASE64(TO_BASE64(s)) return s for every text.",
  ["inputs", "programs"], "all strings of up to 3 printable ASCII characters (any code points where lengths and codecs are concerned), positions and lengths in [-5,6], NULLs, for every function and most pairs of nested functions",
  "the strings example evaluates four constant calls; boundary positions, negative counts, empty strings, multi-byte text and NULLs are not sampled",
  [MY + "string_funcs.py", CO], [("string functions", MY + "string_funcs.py"), ("function compilation", CO + " compile_calculate")])
p("C22", "Date and time functions agree with the calendar",
  "For every date and datetime, YEAR, MONTH, DAYOFMONTH, WEEKDAY, DAYOFWEEK, DAYOFYEAR, WEEK and YEARWEEK (modes 0 and 1), MONTHNAME, DAYNAME, DATE, TIME, UNIX_TIMESTAMP, TIME_TO_SEC, DATEDIFF, DATE_FORMAT and comparisons return what the Gregorian calendar says, and FROM_UNIXTIME and SEC_TO_TIME invert their counterparts (UTC); NULL gives NULL. "
  "Adding or subtracting any interval of one unit (MICROSECOND to YEAR, also negative), days (ADDDATE, SUBDATE) or seconds and clock times (ADDTIME, SUBTIME) gives the date and time exactly that far away; months, quarters and years keep the day of the month, cut to the length of the new month, and the time of day; whole days, months and years added to a date give a date.",
  ["inputs", "programs"], "every date and datetime of 1999 to 2101 (1890 to 2410 in thorough), to the second or microsecond, for every function and a grid of intervals, and every count of seconds to 2100",
  "the date examples evaluate a few constant dates; month ends, leap days, year boundaries, week numbering and negative intervals are not sampled",
  [MY + "datetime_funcs.py", CO], [("date functions and interval arithmetic", MY + "datetime_funcs.py calculate_datetime"), ("interval compilation", CO + " compile_calculate (interval)")])
p("C24", "LIKE and regular expressions match exactly the texts they describe",
  "For every text, LIKE with % and _ and backslash escapes matches the whole text, ignoring ASCII case, every other character standing for itself; NOT LIKE is its negation, NULL text or pattern gives NULL, numbers are matched by their text, and patterns may come from columns or CONCAT. "
  "REGEXP, RLIKE and REGEXP_LIKE find a match anywhere in the text (ignoring case unless match type 'c' is given); REGEXP_INSTR, REGEXP_SUBSTR and REGEXP_REPLACE find, return and replace the leftmost match at or after the given position, the n-th occurrence, or every occurrence. "
  "The same holds where these conditions are used in WHERE, HAVING, CASE, AND, OR and NOT.",
  ["inputs", "programs"], "all texts of up to 3 characters (4 in thorough) for every LIKE pattern of up to 3 symbols and a catalogue of regular expressions; every text and LIKE pattern of up to 2 characters when both are data",
  "the tests match one constant; special characters, newlines, escapes, empty texts and case appear only for particular texts",
  [MY + "string_funcs.py", MY + "logical_funcs.py", CO],
  [("LIKE", "syncanysql/calculaters/mysql_funcs mysql_like"), ("regular expressions", MY + "string_funcs.py regexp functions"), ("condition compilation", CO + " compile_where_condition / compile_having_condition")])
p("C15", "Subqueries, derived tables and CTEs see exactly their own result",
  "IN and NOT IN over a subquery, EXISTS and NOT EXISTS, and scalar subqueries in WHERE, HAVING, the select list, arithmetic, CASE and functions evaluate against exactly the rows the subquery returns by itself (its WHERE, grouping, ORDER BY and LIMIT included), also when it refers to the outer row; a scalar subquery without rows is NULL in an expression, and NULLs among the values of an IN subquery are ignored. "
  "A SELECT from a derived table or from common table expressions (several, built on each other, used twice, joined or united) returns what it would return from a table holding that result.",
  ["inputs", "programs"], "every content of a 2 or 3 row table and a 2 row table of integers (NULLs among the subquery's values) for every query shape of the catalogue",
  "the subquery examples use one data set with matches; empty subquery results, missing partners, duplicates and boundary values are not covered",
  [CO], [("subquery compilation and correlation", CO + " compile_query_condition / parse_subquery"), ("derived tables and CTEs", CO + " compile_subquery / compile_with")])
p("C13", "UNION combines the selects' rows by column position",
  "UNION ALL returns every row of each SELECT, one SELECT after the other; the columns are named by the first SELECT and paired by position, whatever names the others use; UNION without ALL returns each distinct row (NULLs equal) of all SELECTs before it once. "
  "ORDER BY and LIMIT after the last SELECT apply to the whole result, those of a parenthesized (or earlier) SELECT to that SELECT alone; WHERE, grouping, DISTINCT and joins stay with their own SELECT. "
  "Derived tables, common table expressions and IN over a union see exactly those rows.",
  ["inputs", "programs"], "every content of two tables of 2 rows (2 to 3 in thorough) of integers and NULLs for every statement of the catalogue (2 to 4 selects)",
  "the union examples combine selects with equal column names over one data set; duplicates, NULLs, differing names and ORDER BY or LIMIT of the whole are not covered",
  [CO], [("union compilation", CO + " compile_union"), ("derived tables", CO + " compile_subquery")])
p("C16", "INSERT stores exactly the selected rows under the table's update type",
  "INSERT INTO a table (from VALUES, SELECT, UNION, joins, groupings or subqueries, with or without a column list) in the default type I appends exactly the statement's rows, in order, each with its own values and types; the source tables and other tables stay unchanged. "
  "With U rows whose key (the first column that is not a constant) is already there are updated and nothing is added; with UI unknown keys are also added; with UDI target rows in the statement's range (those satisfying the SELECT's WHERE over constants, or all) whose keys it does not give are also removed; with DI the target rows in range are replaced by the new rows. "
  "Keys are unique within each table; columns not given by an update keep their values.",
  ["inputs", "programs"], "every content of a source and a target table of 2 rows of integers (NULL values included) for every statement of the catalogue under each of the five update types",
  "the insert examples append to empty tables or print; existing keys, overlapping and missing keys, ranges and NULL values are not covered",
  [CO, "syncanysql/taskers/query.py"], [("INSERT compilation", CO + " compile_insert_into"), ("running of queries", "syncanysql/taskers/query.py")])
p("C17", "DELETE removes exactly the rows whose condition is true",
  "DELETE FROM a table whose WHERE is a conjunction of comparisons and IN of a column with constants, variables or subqueries removes exactly the rows satisfying it and keeps the others in order with all their values; without WHERE it removes all rows. "
  "Any other condition either removes exactly the rows it is true for or is refused with a compile error, removing nothing. Other tables stay unchanged.",
  ["inputs", "programs"], "every content of a table of 2 rows (3 in thorough) of integers and short texts and of a second table of 2 rows, every value of the variables, for every condition of the catalogue",
  "the delete examples use one condition each; boundary values, conjunctions over one column, negations and conditions the data source cannot express are not covered",
  [CO, "syncanysql/taskers/delete.py"], [("DELETE compilation", CO + " compile_delete"), ("running of deletes", "syncanysql/taskers/delete.py")])
p("C18", "Session variables carry exactly the values assigned to them",
  "SET stores its constant (number, text in quotes with every character in it, TRUE, FALSE, NULL) or the value of its expression; SELECT ... INTO stores the single value of its result, or its values or rows as a list, and the empty list for no rows; a variable never assigned is NULL, and the last assignment counts. "
  "Wherever a later statement of the script (or a later script) uses the variable (select list, WHERE, HAVING, ON, IN, BETWEEN, CASE, VALUES, LIMIT excepted), it gives what the constant of that value and type would give. "
  "An assignment (:=) inside a query takes effect row by row, in the order of the rows and select columns, only for rows that pass WHERE.",
  ["inputs", "programs", "histories"], "every initial value (integers, texts of 2 characters, booleans, NULL), every content of a table of 2 rows (3 in thorough) for every script of the catalogue; SET of constants stands before the other statements of its script or in one of its own",
  "the variable examples assign and print a few constants; chains of assignments, every place of use, quoting and NULL are not covered",
  ["syncanysql/taskers/set.py", "syncanysql/taskers/into.py", CO],
  [("SET", "syncanysql/taskers/set.py SetCommandTasker"), ("SELECT INTO", "syncanysql/taskers/into.py IntoTasker"), ("use of variables", CO + " (get_env_variable / set_env_variable)")])
p("C31", "A statement without INSERT prints exactly the rows it would store",
  "A SELECT, UNION or WITH statement without INSERT INTO prints exactly the rows, in the same order and with the same values and types, that the same statement with INSERT INTO would store; every printed row has exactly the columns of the select list, in its order and under its names. "
  "Nothing is stored by it. In a script every such statement prints its own rows, in the order of the statements; SET, SELECT ... INTO and INSERT print nothing.",
  ["inputs", "programs"], "every harness input of a sample (every 29th, every 3rd in thorough) of the statements of C06 to C15, C18, C20 to C22 and C24, and all contents of tables of 2 rows for statements of each kind",
  "the printing tests check one output of constants; the printing path (its own outputer, column order, empty results, several statements) over arbitrary data is not covered",
  [CO, "syncanysql/taskers/query.py"], [("statements without INSERT", CO + " compile_select / compile_union"), ("printing", "syncanysql/taskers/query.py")])
PR, EX, CF = "syncanysql/parser.py", "syncanysql/executor.py", "syncanysql/config.py"
p("C01", "A script is split into exactly its statements",
  "A script's statements are the texts between semicolons that stand outside quotes ('', \"\", ``), line comments (-- and #) and block comments; each begins at its first letter or parenthesis and carries the number of the line it begins on. "
  "Inside ' and \" a backslash escapes the next character; a script with an open quote or block comment is refused and nothing of it runs. At the prompt a text is complete once such a semicolon ends a statement.",
  ["inputs"], "every text of up to 3 characters (4 in thorough) from all characters that matter for splitting in 26 surroundings, any printable character in 5 of them",
  "the parser is only run on the example scripts; quotes inside comments, comment marks inside quotes, escapes and every combination at the borders are not covered",
  [PR, "syncanysql/prompt.py"], [("splitting", PR + " SqlParser.split"), ("completeness", PR + " SqlParser.read_util_complete, syncanysql/prompt.py check_complete")])
p("C02", "${name} in a script is replaced by the variable's value and nothing else changes",
  "Each ${name} or ${name:default} in a statement is replaced once, wherever it stands, by the text of the variable's value (NULL, TRUE and FALSE as null, true, false; lists in parentheses; texts unchanged, even when they contain ${...}), by the default or the result of the default's function call when the variable is not set, and by nothing when there is no default. "
  "Names are looked up as written, then in lower case, in the context, the engine, the global variables, the environment and the --name=value arguments of the process, whose values are kept whole.",
  ["inputs"], "every value of up to 2 characters (3 in thorough) from the characters that matter, any printable text of 2, integers -9..10, booleans, NULL, nested lists, for 17 statement texts",
  "one example prints environment values; values with special characters, several variables, unset variables and defaults are not covered",
  [EX], [("substitution", EX + " Executor.compile_variable"), ("arguments", EX + " EnvVariables.build_global")])
p("C04", "Configuration layers override each other in the documented order",
  "Of the configuration files of the home and the working directory (JSON before YAML, home before working directory), the configuration given to the engine, what is set for everyone, for the session and for an inner session, the last one that has a setting decides it; named settings (options, imports, databases, virtual views, caches) are merged name by name, lists are appended. "
  "A setting takes effect for every statement run after it and at no outer or sibling level; the configuration given is not changed and engines do not see each other's.",
  ["inputs", "histories"], "every subset of the four files and the engine's configuration having a setting, any values; histories of 2 settings (3 in thorough) at three levels with or without reading in between",
  "the tests use one configuration; precedence between files and levels, merging and the caches of merged configurations are not covered",
  [CF, "syncanysql/taskers/set.py"], [("layers", CF + " GlobalConfig.load / merge_config"), ("sessions", CF + " SessionConfig"), ("SET", "syncanysql/taskers/set.py")])
p("C05", "Variables and functions belong to the scope they are set in",
  "A variable or function set on an engine is seen by its contexts and by the scripts EXECUTE runs there unless they set their own; what a context or an executed script sets (by the program, SET, SELECT ... INTO or :=) is seen there only; SET GLOBAL is seen wherever nothing nearer is set. "
  "The last setting counts, at any time, in statements, in ${...} and for the program alike; a query that reads the variable it assigns starts from the value seen before. Functions called by a query find the executor that runs it, and outside a context there is none.",
  ["inputs", "histories"], "histories of 2 operations (3 in thorough) of 11 kinds at an engine and two of its contexts, any values",
  "one test sets one variable and function in a context and the engine; sibling contexts, later changes, inherited values that are reassigned and executed files are not covered",
  [EX, "syncanysql/__init__.py"], [("variables", EX + " EnvVariables"), ("EXECUTE", "syncanysql/taskers/execute.py"), ("contexts", "syncanysql/__init__.py ExecuterContext")])
p("C19", "A statement leaves nothing behind but what it stores",
  "Whatever a statement uses on the way (derived tables, common table expressions, unions, subqueries, joins, grouping, DISTINCT, windows, batches, SELECT ... INTO), afterwards all tables other than its target and all variables other than those it assigns are as before, also tables that happen to have the name of a common table expression or alias, and the same statement gives the same rows again. "
  "This also holds when it is interrupted at any row: it then runs again as on a new engine.",
  ["inputs", "histories", "faults"], "every content of two tables of 2 rows of 0..9 for 42 statements, each run twice, printed, in batches, in scripts of two, and interrupted at any value's first or second row (third in thorough)",
  "tests run statements once on fresh tables and read the target; leftovers, name clashes, repetition and interruption are not covered",
  ["syncanysql/taskers/query.py", CO], [("temporary tables", "syncanysql/taskers/query.py QueryTaskerTemporaryMemoryManager"), ("names", CO + " compile_with / compile_subquery / compile_union")])
p("C25", "Literals and conversions give exactly the values written",
  "A text in single or double quotes gives its characters, wherever it stands in a statement: a doubled quote or a backslash before \\, ', \", n, r, t and b gives one character, and comment marks, semicolons, other quotes and line ends inside are characters; whole, negative, hexadecimal, binary and fractional numbers, with exponents, give their values. "
  "CAST and CONVERT give the value of the type named: whole numbers, fractions and truth values of numbers and numeric texts (0 of other texts), texts of numbers and dates, the date, the time of day or both of a date, also in conditions, sorting, grouping and aggregates. "
  "A date compared with a text compares with the time the text writes.",
  ["inputs", "programs"], "every text of up to 4 characters (5 in thorough) of those that matter in literals, any printable text of 2, every digit sequence of up to 3 in 13 spellings of numbers, any integer, digit texts of 3, any time of the years 2019 to 2022; other escapes, NULL, DECIMAL and the rounding of fractions are not claimed",
  "examples hold plain literals and print a few conversions; quotes, escapes and comment marks within literals in every position, conversions in conditions and sorting are not covered",
  [CO, PR, MY + "logical_funcs.py"], [("literals", CO + " parse_const, get_tokens"), ("conversions", CO + " parse_cast_typing_filter, compile_calculate"), ("comparisons", MY + "logical_funcs.py")])
p("C03", "Names in backticks may hold any character",
  "A column, alias, table, table alias, derived table or common table expression named in backticks means exactly the one of that name, whatever other characters it holds (quotes, blanks, punctuation, comment marks, letters of any script, words that are keywords; not $ * . [ ] | ? and not a backtick, which have meanings of their own), in the select list, WHERE, GROUP BY, ORDER BY, ON, subqueries, UNION, INSERT with and without a column list, and DELETE. "
  "Names that differ in any character are different names.",
  ["inputs", "programs"], "every name of up to 3 characters (4 in thorough) in 7 alphabets for 11 uses of columns, in 6 alphabets for 10 uses of tables, every pair of different names of 2 characters, any integers; keys of updates have plain names and columns are not named __ ... __",
  "the examples use plain names; each odd character can meet another place where names are replaced, split or quoted",
  [CO, "syncanysql/taskers/query.py", EX], [("names", CO + " mapping, parse_column, parse_table"), ("aliases", CO + " compile_select_column")])
p("C26", "A program and the statements it runs see the same tables and variables",
  "Rows a program pushes (one row, or rows in any iterable) are appended to the table as they are, getting gives the rows the table has after all statements and pushes before, in order, and popping gives them and empties the table; statements see exactly these rows, and variables the program sets with exactly their values of any type. "
  "An engine and its contexts have the same tables, different engines and the default engine of the module have their own. "
  "Rows pushed to several tables, or several times, are rows of their own in each, and neither statements nor the program change through a table the rows that another table has or that the program holds.",
  ["inputs", "histories"], "histories of <= 7 operations (the last 2, 3 in thorough, any of 17 on symbolic rows) on an engine, a context, another engine and the module; values of 9 kinds, any integer and text of 3 characters",
  "tests push and pop one table once",
  ["syncanysql/__init__.py", EX], [("engine", "syncanysql/__init__.py ScriptEngine"), ("context", "syncanysql/__init__.py ExecuterContext")])

p("C27", "The statements of a script run one after another, and stop at one that fails",
  "The statements of a script (given at once, one by one, in a context, in an executed file, or by a function that a running statement calls) run in their order, each after all effects of those before it, and a script called by a function is done when the function goes on. "
  "If a statement fails or is interrupted, the ones before it have had their full effect, those after it none, the failure reaches the caller and the engine runs the next script from its beginning; if one cannot be compiled, no statement of its script that reads or changes a table runs.",
  ["inputs", "histories", "faults"], "any integers in a table and a variable, every pair and a sample of the triples of 9 kinds of statements in 6 ways of running them, with or without a statement that fails, is interrupted or cannot be compiled at any position; SET of constants takes effect when its script is compiled",
  "tests run scripts that succeed; failures at each position, what is left to run, and scripts within functions are not covered",
  [EX, "syncanysql/__init__.py", "syncanysql/taskers/execute.py"], [("running", EX + " Executor.run / execute"), ("scripts", "syncanysql/__init__.py ExecuterContext.execute"), ("EXECUTE", "syncanysql/taskers/execute.py")])
p("C30", "JSON functions read, test and change documents as their paths say",
  "For every JSON document, held as a value or as text, and every path of names, quoted names and indexes, JSON_EXTRACT and -> return the value the path leads to (NULL if none), JSON_SET and JSON_REMOVE return the document with just what the path leads to set or removed, and JSON_CONTAINS, JSON_CONTAINS_PATH, JSON_LENGTH, JSON_KEYS, JSON_DEPTH and JSON_VALID say what holds for it. "
  "The document read keeps its value, and encoding a value and decoding it gives the value.",
  ["inputs"], "documents of depth <= 4 with any digits, NULL, booleans and short strings, paths of <= 3 legs with any short names and any index 0..3, texts of <= 4 characters for JSON_VALID; indexes into scalars and objects, wildcards in names and duplicate keys are not claimed",
  "tests use a handful of documents and paths; the meeting of a path with a document (missing names, null values, nested arrays, quoted names) has many cases",
  ["syncanysql/calculaters/mysql_funcs/json_funcs.py"], [("JSON", "syncanysql/calculaters/mysql_funcs/json_funcs.py")])
p("C23", "Blanks, comments and the case of keywords mean nothing to a statement",
  "A statement does the same whatever blanks, tabs, newlines and comments (/* */, -- or # to the end of the line, with any characters in them, quotes and semicolons too) stand between its words and signs, before or after it, and also with none where two of them need nothing to keep them apart. "
  "The keywords of a statement and the names of its functions may be written in any mix of capitals. Nothing within quotes changes with it.",
  ["inputs"], "34 statements of all kinds over symbolic values; between any two tokens any blank (2 in thorough) or any comment of the three forms with one (2) of 9 characters; every keyword with any capitals in its first 2 (3) letters and the rest small or capital; all gaps written in one of 3-5 ways, with something before and after",
  "tests write each statement in one layout",
  ["syncanysql/parser.py", CO, "syncanysql/__init__.py", "syncanysql/taskers/set.py"], [("splitter", "syncanysql/parser.py FileParser, SqlParser"), ("commands", CO + " compile_expression")])

p("C28", "The command line runs its files, its input or its prompt, and says how it ended",
  "Given a script file, or a script on standard input when that is no terminal (in quotes or not), the command runs the files its configuration names, in order, and then the script, prints the rows of their queries, and exits with 0 if all succeeded, 1 at the first failure, 130 at an interruption, each with nothing run after it; a terminal and a file of another kind is a usage error (2) that runs nothing. "
  "At the prompt each line runs as a script of its own whatever became of the lines before it, and a statement goes on until a semicolon outside quotes and comments; --name=value on the command line gives a variable that value, without the quotes around it if it has any.",
  ["inputs", "histories", "faults"], "scripts of <= 2 statements (3 in thorough) of 5 kinds with any integers, a failure, interruption or syntax error at any position, 0-2 files of the configuration, 8 ways of giving the script, 1-2 lines (3 in thorough) at the prompt, texts of <= 3 (4) characters after 5 beginnings, options of <= 3 (4) characters; the terminal, standard input and signals are stand-ins",
  "no test runs the command",
  ["syncanysql/main.py", "syncanysql/prompt.py", "syncanysql/parser.py", EX, "syncanysql/config.py"], [("command", "syncanysql/main.py main"), ("prompt", "syncanysql/prompt.py CliPrompt"), ("options", EX + " EnvVariables.build_global")])
