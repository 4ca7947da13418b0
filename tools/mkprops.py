#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the wording lives in one reviewable place)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": hook}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

ONE = "stdout/stderr/exit status of `bcalc --input=...`"
SCR = "the terminal screen of an interactive session (pty)"
DB = "the saved-data SQLite file under $_B_UTIL_DATA_DIR/bcalc"

prop("C01", "Exact rational arithmetic at any magnitude",
 "An expression built from number literals, parentheses, unary minus, abs, +, -, *, /, %, whole-number powers (positive, zero or negative), max and min evaluates to exactly the mathematical rational value, however large or long the numbers are and however deeply the operations are nested. `a % b` is the remainder of truncated division (it has the sign of the dividend), max/min return the largest/smallest of any number of arguments, and x^0 is 1.",
 ["inputs"], "all well-defined expressions over these operators, numbers from 0 to hundreds of digits, integer and fractional, up to dozens of operations",
 "The unit tests evaluate a few dozen expressions of small numbers, mostly single operations; %, /, abs, max and min are never evaluated by any test at all (only parsed).",
 ["src/syntax_tree.rs", "src/operations.rs", "src/token.rs"],
 [("BigRational arithmetic in the node executors", "src/syntax_tree.rs: *Node::execute"), ("integer powers", "src/operations.rs: exponentiate")],
 [ONE + " with --fractional"])

prop("C02", "Operator precedence and associativity",
 "In an expression without parentheses the operators bind in this order: prefix operators and functions applied to a single operand (unary minus, abs, sqrt, max, min) first, then ^, then %, then * and /, then + and -; operators on the same level associate from left to right, including ^. A `-` is a negation exactly when no operand precedes it, may be repeated, and applies to just the next operand, so -3^2 is 9 and 2--3 is 5; spacing never changes the meaning.",
 ["inputs"], "all operator/operand chains, any mix and length, with any placement of prefix operators, functions, parentheses and whitespace",
 "The tests check the tree of one 9-operand chain and a handful of short ones; interactions (prefix operators inside chains, levels meeting in every order, parentheses and functions in between) are unbounded.",
 ["src/syntax_tree.rs", "src/token.rs"],
 [("ORDERED_BINARY_OPERATORS and the per-level reduction loop", "src/token.rs, src/syntax_tree.rs: read_expression"), ("negation fix-up pass", "src/syntax_tree.rs: read_expression"), ("read_operand / read_unary_node / read_function_node", "src/syntax_tree.rs")],
 [ONE + " with --fractional"])

prop("C03", "Number literals denote their exact value in every radix",
 "In input radix r (2 to 16) a literal made of digits below r (letters in either case), at most one decimal point anywhere and any number of underscores is accepted and denotes exactly its positional value, however long it is. A literal with no digit, a second decimal point, a digit not below r or any other character is rejected with an error rather than given some value.",
 ["inputs", "configurations"], "all literals of any length in all radices 2-16",
 "The tests read four literals in radix 10 and 16 and reject two; the position of the point, underscores, other radices and long literals are not covered.",
 ["src/token.rs"],
 [("tokenize_on_multichar_end", "src/token.rs")], [ONE + " with --fractional and --radix"])

prop("C04", "Decimal output is correctly rounded and shows inexactness",
 "A result is displayed in the output radix with at most the configured number of fractional digits, as the value rounded half away from zero, with a minus sign exactly for negative values. Trailing zeros are removed exactly when the value is represented precisely, otherwise all configured fractional digits are shown; with commas on, the integer part is grouped in threes from the right, and with upper on, letter digits are uppercase; none of these settings changes the digits themselves.",
 ["inputs", "configurations"], "all rational values x output radix 2-16 x precision 0-255 x commas x upper",
 "The tests format 19 values, nearly all in radix 10 with precision 5 or 10; carries across the point, ties, sign, other radices and long fractions are unbounded.",
 ["src/operations.rs", "src/main.rs"], [("make_decimal_string", "src/operations.rs"), ("output radix selection", "src/main.rs: calculate")], [ONE])

prop("C05", "Fractional output is the exact value in lowest terms and can be re-entered",
 "With fractional output on, every result is displayed as the exact value in the output radix: an integer as just its digits, anything else as numerator/denominator in lowest terms with a positive denominator. Any result displayed exactly (as a fraction, or as a decimal without rounding), when displayed without commas in the input radix, can be typed back in and yields the same value.",
 ["inputs", "configurations"], "all rational values x radix 2-16 x upper/commas",
 "No test uses fractional output or feeds an output back into the calculator.",
 ["src/main.rs", "src/operations.rs", "src/token.rs"], [("fractional branch of calculate", "src/main.rs: calculate"), ("literal parsing", "src/token.rs")], [ONE])

prop("C06", "Roots and fractional powers are accurate to the configured precision",
 "sqrt x and b^(n/d) evaluate to within one unit in the last of the (precision + extra precision) fractional digits, counted in the input radix, of the real root with the right sign (odd roots of negatives are negative); the displayed digits differ from the true root by no more than that plus display rounding. When the root is an integer, the result is exactly that integer, and when it is irrational, it is displayed (in the input radix) with all fractional digits so that it doesn't look exact; roots whose degree is small (up to 12) finish promptly for values from tiny fractions to hundreds of digits.",
 ["inputs", "configurations"], "radicands from 1e-40 to hundreds of digits, both signs, degrees 2-12, precision 0-255, extra precision 0-255, radices 2-16",
 "Ten example roots are tested, all of integers >= 1 with precision 10 in radix 10; convergence and accuracy depend on the radicand, degree and precision.",
 ["src/operations.rs", "src/syntax_tree.rs"], [("binary search for the start, Newton's method and its stopping rule", "src/operations.rs: exponentiate"), ("total precision", "src/syntax_tree.rs: UnaryNode/BinaryNode::execute")], [ONE])

prop("C07", "Every input line gets an answer: no panic, crash or silent exit",
 "For every input line and every accepted combination of options, the calculator produces either a result or an error message, and never panics, aborts or dies from a signal. In an interactive session no line and no key press other than the exit keys (Control+C, Control+D, Control+Z) ends the session, and the session still evaluates correctly afterwards.",
 ["inputs", "configurations", "histories"], "arbitrary ASCII and non-ASCII lines, token soups, mutated valid expressions and commands, all option combinations including boundary values; arbitrary key/byte sequences",
 "Tests use a few dozen hand-written valid inputs and never run the executable; panics hide in unusual operands (zero, fractions below one), option extremes and odd key sequences.",
 ["src/main.rs", "src/token.rs", "src/syntax_tree.rs", "src/operations.rs", "src/commands.rs"],
 [("error types threaded through every step", "src/error.rs"), ("argument ranges", "src/main.rs: Args")], [ONE, SCR])

prop("C08", "Malformed expressions are always rejected and well-formed ones accepted",
 "An input line is evaluated only if it is well formed: operands separated by binary operators, balanced non-empty parentheses, commas only between the arguments of a function call, every prefix operator and function followed by its operand, and `=` only directly after a variable at the very start. Everything else is answered with an error and never with a value; every well-formed line is accepted (an empty line gives an empty answer), and no rejected line changes any variable or setting.",
 ["inputs"], "all token sequences",
 "Only one malformed sequence ('1 2') is rejected by a parser test; wrongly accepting or rejecting some sequence is not something examples can rule out.",
 ["src/syntax_tree.rs", "src/token.rs"], [("read_expression / read_operand / read_parenthesized_node / read_function_node", "src/syntax_tree.rs")], [ONE, SCR])

prop("C09", "Undefined mathematics is an error, never a value",
 "Dividing by zero, a modulus by zero, zero to a negative power, an even root of a negative number, max or min of no arguments, and a variable that has no value are answered with an error message wherever in the expression they occur and however the zero or negative operand comes about. The error aborts the whole input: no value is shown and no variable is assigned.",
 ["inputs", "histories"], "all expressions containing an undefined operation in any subexpression; operand computed in any way",
 "No test evaluates any failing operation.",
 ["src/syntax_tree.rs", "src/operations.rs", "src/variable.rs"], [("DivisionByZero / ImaginaryResult / FunctionNeedsArguments / UnknownVariable checks", "src/syntax_tree.rs, src/operations.rs")], [ONE, SCR])

prop("C10", "Variables hold the exact value last assigned to them",
 "In an interactive session a variable evaluates to exactly the value of its most recent successful assignment (full internal value, not the displayed digits), an assignment shows the value assigned, and using a variable never changes it. Names are distinct whenever they differ in any character, including case; a failed input assigns nothing; after /purgevar a variable is unknown until assigned again; and changing display settings never changes stored values.",
 ["inputs", "histories"], "all sequences of assignments, uses, failing inputs, purges and setting changes over many variable names",
 "No test executes an assignment or reads a variable; correctness depends on the history of inputs.",
 ["src/variable.rs", "src/syntax_tree.rs", "src/commands.rs", "src/token.rs"], [("VariableStore", "src/variable.rs"), ("SyntaxTree::execute assigns after evaluation", "src/syntax_tree.rs")], [SCR],
 [("vars", "name -> value map of the session", "src/variable.rs: VariableStore.vars")])

prop("C11", "Setting commands act exactly like the corresponding options",
 "After /radix, /converttoradix, /precision, /fractional, /commas or /upper (or an alias) sets a value, every later input is read and displayed exactly as in a calculator started with the equivalent command-line options, until the setting is changed again, and no other setting is affected. Without an argument each command displays its current value; arguments are read in radix 10 whatever the current radix, /precision with one argument keeps the extra precision, and /converttoradix none restores output in the input radix.",
 ["inputs", "histories", "configurations"], "all sequences of setting commands x initial options x expressions",
 "No test executes a command.",
 ["src/commands.rs", "src/main.rs"], [("RadixCommand, ConvertToRadixCommand, PrecisionCommand, FractionalCommand, CommaCommand, UpperCommand", "src/commands.rs"), ("Args is the single settings record", "src/main.rs")], [SCR, ONE])

prop("C12", "Invalid commands and arguments are rejected without any effect",
 "An unknown command, an argument that is not of the kind the command takes, a value out of the documented range (radix 2-16, precision and extra each 0-255 with a sum of at most 255, history capacity at least 1) or too many arguments is answered with an error and leaves every setting, every variable and the history capacity as they were. Valid boundary values are accepted.",
 ["inputs", "histories"], "all command lines; boundary and random arguments",
 "No test executes a command.",
 ["src/commands.rs", "src/token.rs"], [("argument validation in each command", "src/commands.rs"), ("tokenize_int_list, tokenize_variable_list", "src/token.rs")], [SCR])

prop("C13", "Editing keys change the input line exactly as specified",
 "The line submitted by Enter is exactly what the key presses spell: a printable ASCII character is inserted at the cursor, Backspace and Delete (whatever modifier is held) remove the character before and at the cursor, Left/Right move by one and with Control or Shift by fifteen, Home/End go to the ends, all stopping at the ends of the line. Control+N on a parenthesis (at the end of the line: right behind one) moves to the matching one (nesting respected) and otherwise does nothing, and every other key, character keys combined with Control or Alt, and non-ASCII characters leave line and cursor unchanged.",
 ["inputs", "histories"], "all key sequences, lines up to several screen widths",
 "No test drives the line editor.",
 ["src/main.rs", "src/input_history.rs"], [("key handling in interactive_calc", "src/main.rs"), ("insert/remove in InputHistory", "src/input_history.rs")], [SCR, DB],
 [("cursor_pos", "index in the current line", "src/main.rs: interactive_calc")])

prop("C14", "Up/Down walk the history without ever altering it",
 "Up and Down move through the submitted lines in order, newest first: those of this session, then those saved by earlier sessions that are still stored, stopping at the oldest and at the line being composed, with the cursor at the end of the line. Edits made to a history line or the composed line are kept while moving around until Enter, which submits the displayed line; after that all history lines are again exactly as they were submitted, with the submitted line as the newest entry.",
 ["inputs", "histories"], "all sequences of typing, editing, Up/Down and Enter over several sessions",
 "No test touches the history; the behaviour depends on long sequences and three interacting copies of the history.",
 ["src/input_history.rs", "src/saved_data.rs", "src/main.rs"], [("primary/current history copies", "src/input_history.rs"), ("get_prev_input_history", "src/saved_data.rs")], [SCR, DB],
 [("current_history/current_index", "edited copies and position", "src/input_history.rs")])

prop("C15", "The inline prompt always shows the cursor and the true text around it",
 "While a line is edited inline, the terminal row shows exactly a contiguous part of the line that includes the cursor position, preceded by '# ' if it starts at the beginning of the line and '< ' otherwise, followed by ' >' exactly if the rest of the line does not fit, with the terminal cursor on the character that the next edit applies to and nothing left over from earlier. On Enter the complete line is shown (wrapped), then the answer below it and a new prompt below that; this holds for every window width above four columns and across window resizes.",
 ["inputs", "histories", "configurations"], "all key sequences x window widths 5-200 x resizes",
 "No test renders anything.",
 ["src/main.rs"], [("scrolling display branch", "src/main.rs: interactive_calc")], [SCR],
 [("scroll_offset", "first visible character", "src/main.rs: interactive_calc")])

prop("C16", "Alternate-screen sessions show the wrapped line, cursor and every answer",
 "With the alternate screen, an edited line that fits the window is shown in full, wrapped at the window width behind the prompt with continuation rows indented by its width, the terminal cursor is on the character that the next edit applies to, and nothing is left over from earlier states. After Enter the answer appears below the line and stays visible, also when the window is full and has to scroll, and the next prompt follows below it. This also holds after the window has been resized while the line is edited, as long as the terminal leaves the line's first row where it was.",
 ["inputs", "histories", "configurations"], "all key sequences x window sizes x number of lines already used x resizes",
 "No test renders anything.",
 ["src/main.rs"], [("wrapping display branch", "src/main.rs: interactive_calc")], [SCR])

prop("C17", "Saved history keeps exactly the newest inputs up to its capacity",
 "After every submitted line the saved history consists of exactly the most recently submitted lines over all sessions, in order and unaltered, at most as many as the capacity (100 by default, or as set by /histcap); lowering the capacity drops exactly the oldest excess lines at once and raising it loses nothing. The stored list is well formed at all times: one chain from newest to oldest with consistent links in both directions.",
 ["inputs", "histories"], "all sequences of inputs, capacity changes and session restarts; capacities from 1 up",
 "No test opens the database.",
 ["src/saved_data.rs", "src/input_history.rs", "src/commands.rs"], [("add_to_input_history, enforce_history_size_with_transaction, set_max_history_size", "src/saved_data.rs")], [DB, SCR],
 [("input_history, input_history_tags", "doubly linked list and its end markers", "src/saved_data.rs")])

prop("C18", "Variables survive sessions with their exact value",
 "A variable assigned in one session has exactly the same value in any later session that uses the same data directory (any size, sign and denominator), until it is reassigned, purged or expires with the history. Within a session a value it has assigned or already read takes precedence over what is stored until /reloadvar, which loads the stored value or, if there is none, leaves the variable unchanged; /purgevar removes the variable for later sessions too.",
 ["inputs", "histories"], "all sequences of assignments, reads, reloads and purges over sequential and overlapping sessions",
 "No test opens the database.",
 ["src/variable.rs", "src/saved_data.rs", "src/commands.rs"], [("set_variable/get_variable/clear_variable", "src/saved_data.rs"), ("get falls back to reload", "src/variable.rs")], [SCR, DB],
 [("variable_history", "stored values", "src/saved_data.rs")])

prop("C19", "A stored variable lives exactly as long as the last input that mentions it",
 "A stored variable remains available to later sessions exactly as long as the most recent submitted expression (or /reloadvar) that names it, successful or not, is still in the saved history, and it disappears together with that input when it is evicted (when a new input is stored, eviction comes before its own mentions count). Inputs that do not name a variable never extend or shorten its life, and eviction never affects the value in running sessions.",
 ["histories"], "all interleavings of inputs naming subsets of variables, evictions by new inputs and by capacity changes",
 "No test opens the database; expiry takes sequences longer than the capacity.",
 ["src/main.rs", "src/saved_data.rs", "src/variable.rs", "src/commands.rs"], [("touch on use", "src/main.rs: calculate"), ("ON DELETE CASCADE on last_used_by", "src/saved_data.rs: open")], [DB, SCR])

prop("C20", "Concurrent sessions never lose or corrupt saved data",
 "When several sessions run on the same data directory at the same time, each line submitted in any of them is stored exactly once and lines of one session are stored in the order submitted; no session reports an error or fails to start because another one is writing, and a value that one session reads while another assigns it is one that was assigned as a whole. The stored list is well formed afterwards, within capacity, and holds the last assigned value of every variable.",
 ["schedules", "histories"], "2-6 concurrent sessions, arbitrary interleavings of their database steps including startup",
 "No test opens even one session.",
 ["src/saved_data.rs"], [("one transaction per list update", "src/saved_data.rs")], [DB, SCR])

prop("C21", "Killing the calculator at any moment never damages saved data",
 "If the process is killed at any point, the next session opens the saved data without an error, the stored list is well formed, and it holds every line and variable whose answer had been shown; of the operation in progress, each single update (adding a line with its evictions, changing the capacity, storing a variable) is either completely present or completely absent.",
 ["crash_points", "histories"], "a kill before any file-system call of any operation (open, add with and without eviction, assignment, touch, purge, capacity change)",
 "No test opens the database, let alone interrupts it.",
 ["src/saved_data.rs"], [("transactions", "src/saved_data.rs"), ("SQLite rollback journal", "rusqlite bundled SQLite")], [DB, SCR])

prop("C22", "Failing storage is reported and never corrupts data or ends the session",
 "If reading or writing the saved data fails while an input is processed (disk full, I/O error), that input is answered with an error message instead of a false success, the session goes on, values assigned before are still known in it, and after the fault disappears new inputs are stored normally. The stored data stays well formed, and every single update is either completely present or completely absent.",
 ["fault_sequences", "histories"], "ENOSPC or EIO at any write, sync, truncate or unlink call of any operation, once or persistently",
 "No test opens the database or injects a fault.",
 ["src/saved_data.rs", "src/variable.rs", "src/main.rs"], [("errors propagated as RuntimeError and displayed", "src/main.rs: interactive_calc")], [DB, SCR])

prop("C23", "Nothing is stored or read without a database",
 "One-shot evaluation (--input), sessions started with --no-db, and sessions without the data-directory variable in the environment create, modify and read no saved data, and have no history from other sessions; the first two kinds leave an existing data directory byte for byte unchanged. Sessions without a database still support variables and history within the session, and report commands that need the database as unavailable; one-shot evaluation supports neither variables nor history.",
 ["configurations", "inputs", "histories"], "all inputs and commands in all modes without a database, with and without an existing data directory",
 "No test runs the executable.",
 ["src/main.rs", "src/saved_data.rs", "src/commands.rs", "src/variable.rs"], [("maybe_db: Option threaded through everything", "src/main.rs"), ("open() returns None without the variable", "src/saved_data.rs")], ["file-system calls and the data directory", SCR])

prop("C24", "Existing saved data stays usable; unusable data is refused, not misread",
 "Saved data written by earlier builds of this database version, or by later builds that declare it compatible (whatever else these keep there), opens with all its lines, variables, capacity and declared versions intact. Data that declares a newer incompatible version is refused with an error before anything is changed; a stored value that is not a valid fraction or capacity is reported as an error and never turned into a value or a crash, and the rest of the data stays usable.",
 ["inputs", "histories"], "databases written by the reference version with varied content; systematically damaged fields",
 "No test opens a database.",
 ["src/saved_data.rs"], [("MetaInt::MinimumVersion check", "src/saved_data.rs: open"), ("CalculatorDatabaseInconsistencyError", "src/saved_data.rs"), ("CREATE TABLE IF NOT EXISTS / INSERT OR IGNORE", "src/saved_data.rs: open")], [DB, SCR])

prop("C25", "The terminal is restored on every way out",
 "However a session ends by itself (Control+C, Control+D or Control+Z at any time, or an error that prevents it from starting or continuing), the terminal modes are exactly as they were before it started, the alternate screen has been left if and only if it was entered, and the exit status is zero for an exit key and nonzero for an error. The exit keys end the session from any editing state without submitting the current line.",
 ["histories", "configurations"], "all editing states x exit keys x display modes; error exits (unusable database, too narrow window)",
 "No test runs the executable.",
 ["src/main.rs"], [("enable_raw_mode/disable_raw_mode bracket", "src/main.rs: main"), ("exit keys", "src/main.rs: interactive_calc")], ["termios of the pty, escape sequences, exit status"])

prop("C26", "No memory error or undefined behaviour in any execution",
 "No execution of the calculator, in any mode and for any input, key sequence or database content, reads or writes memory out of bounds, uses freed or uninitialised memory, or overflows an arithmetic operation unnoticed; this includes the bundled database engine as driven by the calculator.",
 ["inputs", "histories"], "the workloads of all other properties",
 "The tests run uninstrumented and never execute the database or terminal code.",
 ["src/main.rs", "src/saved_data.rs", "src/operations.rs", "src/syntax_tree.rs", "src/token.rs", "src/commands.rs"], [("safe Rust", "whole crate"), ("bundled C SQLite", "libsqlite3-sys")], ["AddressSanitizer, overflow-check and debug-assertion reports"])

prop("C27", "Power loss never damages saved data",
 "If the machine loses power at any moment, so that file writes not yet synced to disk may be lost in any combination, the next session opens the saved data without an error, the stored list is well formed, and its content equals the content after some earlier completed update, at most the most recent update being missing.",
 ["crash_points", "histories"], "power loss after any file-system call; unsynced writes lost entirely, partly or out of order",
 "No test opens the database, let alone models a disk.",
 ["src/saved_data.rs"], [("transactions with SQLite's default synchronous mode", "src/saved_data.rs")], ["recorded file-system calls replayed onto a disk model"])

prop("C28", "Help covers every command and tells the truth about availability",
 "/help lists every available command with a summary, and /help with any command name or alias prints the same detailed text, which starts with that command's usage and names its aliases; every listed name and alias works as a command, and unlisted names are rejected. A command is marked unavailable in the list exactly if executing it in the same session reports that something it needs is unavailable.",
 ["configurations", "inputs"], "all commands and aliases x session kinds (one-shot, with and without database) x other names",
 "No test executes a command.",
 ["src/commands.rs"], [("COMMAND_CONSTRUCTORS, CommandExecutor", "src/commands.rs"), ("short_help/long_help", "src/commands.rs")], [ONE, SCR])

prop("C29", "Command-line options select exactly the documented settings",
 "Every option has its documented effect in any order and in every usual spelling (long or short, value joined or separate, short flags combined), and settings not given have the documented defaults (radix 10, no output radix, precision 5 with 10 additional digits, everything else off). A command line with a value out of range (radices 2-16, precisions 0-255), of the wrong kind or missing, an unknown option or a stray argument is refused with a message and a nonzero exit status before anything is evaluated and without touching terminal or saved data.",
 ["configurations", "inputs"], "all subsets, orders and spellings of the options x values inside and beyond their ranges, one-shot and interactive",
 "No test parses a command line.",
 ["src/main.rs"], [("Args with clap value parsers", "src/main.rs"), ("Args::parse before anything else", "src/main.rs: main")], [ONE, SCR])

prop("C30", "An answer depends on the line, the settings and the variables alone",
 "The same line gets the same answer or error message whether it is evaluated by one-shot evaluation or in an inline or alternate-screen session, with or without saved data, in a wide or narrow window, as the first line or after any number of other lines, whatever the date and time, however long computing it takes and however long the session has been waiting, as long as the display settings and the values of the variables it mentions are the same (one-shot evaluation has no variables).",
 ["inputs", "histories", "configurations"], "all lines and line sequences, including irrational results and malformed lines x all kinds of sessions",
 "Tests evaluate single expressions with fresh components; hidden state, caches and mode-dependent paths need sequences in several modes.",
 ["src/main.rs", "src/syntax_tree.rs", "src/operations.rs", "src/token.rs", "src/commands.rs", "src/variable.rs"], [("calculate: one path for all modes", "src/main.rs")], [ONE, SCR])

prop("C31", "Type-ahead and pasted lines take effect completely and in order",
 "Keys that arrive while an answer is being computed or displayed, or faster than the display follows (type-ahead, several lines pasted at once), take effect completely, exactly once and in the order typed, just as if each had been typed after the previous one had been dealt with; this includes Enter and the exit keys.",
 ["schedules", "inputs"], "all key sequences over many lines x all timings of their arrival relative to evaluation and display; terminals that answer late",
 "No test reads a key.",
 ["src/main.rs"], [("event::read loop; cursor::position at each prompt keeps queued keys", "src/main.rs: interactive_calc")], [SCR, DB])

prop("C32", "One-shot evaluation is fit for scripts",
 "One-shot evaluation writes exactly the answer and a line feed to standard output and nothing to standard error, or reports an error on standard error with nothing on standard output; it writes no escape sequences, reads nothing from standard input, changes no terminal mode and creates no files, whatever standard streams, terminal, locale and environment it is started with. If the answer cannot be written, the exit status is nonzero.",
 ["inputs", "configurations"], "all inputs x kinds of standard streams (pipe, file, terminal, full, broken) x environments",
 "No test runs the executable.",
 ["src/main.rs"], [("one-shot branch of main", "src/main.rs: main")], [ONE, "unread standard input; termios of attached terminals"])

prop("C33", "Saved data is kept in exactly the documented place",
 "All saved data is in the one database file bcalc/saved_data.sqlite below the directory that _B_UTIL_DATA_DIR names, literally and however that name is spelled (relative or absolute, through links, with any characters in it): every session given any spelling of the same directory shares it, and sessions given different directories share nothing. Nothing else is created or changed anywhere (but the database engine's own journal beside the file, gone when the session has ended): the directory bcalc is made when it is missing, the named directory itself never is; if it doesn't exist or can't be used, the program reports an error instead of working without the data.",
 ["configurations", "histories"], "all directory names and spellings x working directories x environments x sequences of sessions",
 "Tests use databases in memory only.",
 ["src/saved_data.rs", "src/main.rs"], [("SavedData::open: path from the environment variable, create_dir", "src/saved_data.rs")], ["recorded file-system calls", "the whole scratch directory tree before and after", DB])

prop("C34", "A waiting session holds nothing up, survives interruptions, ends on hang-up",
 "A session that waits for a key, whatever happened before, uses no processor time and holds no lock on the saved data (so other sessions and programs can always go on); it does not open more and more files or use more and more memory with every input, beyond what the remembered lines and variables need. Being suspended and resumed or receiving signals that aren't meant to end it changes no answer and loses no key; however long nothing is typed, it goes on waiting unchanged; when its terminal goes away, it ends.",
 ["histories", "schedules"], "all sequences of actions x all waiting states; suspensions, signals and hang-ups at any moment",
 "No test runs a session; resources held between inputs are invisible to unit tests.",
 ["src/main.rs", "src/saved_data.rs", "src/input_history.rs", "src/variable.rs"], [("event::read between inputs", "src/main.rs: interactive_calc"), ("statements and transactions finished before waiting", "src/saved_data.rs, src/input_history.rs")], ["an exclusive lock on the database taken by another connection", "processor time, open files and memory of the process", SCR])

prop("C35", "Saved data stays interchangeable with other builds of its version",
 "The saved data a session leaves behind is in the format that its declared version stands for: any other build of the same version (in particular the first one) can open it and finds exactly the capacity, the input history in order, the current position in it and the variables with exact values; and data that such a build has written is read back by a session exactly as it was stored. This holds after any sequence of inputs and commands in which sessions of this and of the other build take turns.",
 ["histories", "inputs"], "all sequences of sessions of both builds x inputs, commands, capacities, values of any size and sign in any radix",
 "Tests never open stored data, and a check that only uses one build cannot see the writer and the reader changing together.",
 ["src/saved_data.rs", "src/input_history.rs", "src/variable.rs", "src/operations.rs"], [("tables, text format of stored values, declared version", "src/saved_data.rs, src/variable.rs"), ("linked list of lines", "src/input_history.rs")], [DB, SCR, "a reference implementation of the first build's statements"])

prop("C36", "An error message names a cause that is really there",
 "When a line has no value, the error message names something that is really wrong with this line: a word that is no number in the input radix (quoted as typed), a malformed place of the expression (and what it says about parentheses, operators, commas and operands is so), a division or remainder by zero, an imaginary root, a function without arguments, an unknown variable (quoted as typed) or command (likewise), an argument out of range or too many, or something unavailable in this mode. If several things are wrong it may name any one of them.",
 ["inputs"], "all lines with one or several errors of any kind at any depth, in sessions and one-shot",
 "Tests look at a handful of error values, most of them never as the text a user sees, and never with several errors in competition.",
 ["src/error.rs", "src/token.rs", "src/syntax_tree.rs", "src/operations.rs", "src/commands.rs", "src/variable.rs", "src/main.rs"], [("CalculatorFailure's Display and the places that raise it", "src/error.rs, src/syntax_tree.rs, src/operations.rs"), ("argument validation", "src/commands.rs")], [ONE, SCR])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
