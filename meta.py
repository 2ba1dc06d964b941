HOOK_GUARD = "none: no hooks are needed, the checks drive public interfaces only"
HOOK_ENABLE = "nothing to enable: harness/ has path dependencies on the crates of /repo"
HOOK_COMMITS = []

PROPERTIES = [
 dict(id="P01", title="Operators compute the documented value or raise the documented error",
  statement="Every arithmetic, bitwise, logical, comparison and string operator yields, for all operand values, the exact result of the documented operation (32-bit integers, IEEE doubles, mixed operands promoted to double) or, where that result does not exist (overflow, division by zero, negative exponent, oversized shift), a catchable error positioned at the operator; it never wraps, truncates or crashes. Operand types without a documented meaning are rejected before the program runs. Storing a number in a variable, array element, parameter or function result of the other numeric type converts it exactly, rounding halves away from zero, or raises an error if it does not fit.",
  over=["inputs"], q="all pairs of operand values of all pairs of types, for all operators and all conversion sites",
  why="The golden tests sample a few operand values per operator; overflow, sign, NaN and rounding boundaries are values among 2^64 pairs that no list reaches.",
  files=["core/src/num.rs", "core/src/vm/context.rs", "core/src/compiler/exprs.rs"],
  mech=[("checked arithmetic helpers", "core/src/num.rs"), ("arithmetic instructions", "core/src/vm/context.rs"), ("operator typing and promotion", "core/src/compiler/exprs.rs")]),
 dict(id="P02", title="Expressions group by documented precedence, left to right",
  statement="Any expression, with or without parentheses and unary operators, has the value obtained by applying its operators in the order given by the documented precedence levels, left to right within a level, with both operands evaluated once. Where that evaluation has no type the program is rejected, and where it meets an undefined operation the error is raised and nothing else happens.",
  over=["programs", "inputs"], q="all expressions of up to four operands over all operators, groupings and unary operators, with arbitrary operand values",
  why="Operator sequences grow exponentially; the tests list a handful of pairs and cannot tell wrong groupings whose results coincide on the sampled values.",
  files=["core/src/parser.rs", "core/src/compiler/exprs.rs", "core/src/vm/context.rs"],
  mech=[("shunting-yard expression parser", "core/src/parser.rs"), ("expression code generation", "core/src/compiler/exprs.rs")]),
 dict(id="P03", title="Any text compiles or is rejected at a position in it and never crashes",
  statement="Every text, whether its bytes are valid or not, however it arrives and wherever reading it fails, either compiles or is rejected with a message and a line and column that exist in it; with at most a hundred blocks, calls or parentheses within each other it never crashes or hangs the compiler. Nothing of a rejected text runs, and the machine can still be used afterwards.",
  over=["inputs", "faults"], q="all single-character and single-word changes to programs with every statement, all short sequences of words, all bytes within texts, all ways to split or cut off a text",
  why="The tests try chosen malformed statements; the errors that matter are in combinations nobody wrote down, and one panic loses the user's program.",
  files=["core/src/reader.rs", "core/src/lexer.rs", "core/src/parser.rs", "core/src/compiler/top.rs", "core/src/compiler/exprs.rs", "core/src/compiler/args.rs"],
  mech=[("character reader", "core/src/reader.rs"), ("lexer", "core/src/lexer.rs"), ("parser", "core/src/parser.rs"), ("statement compiler", "core/src/compiler/top.rs")]),
 dict(id="P04", title="Literals and spelling mean exactly what is written",
  statement="A number literal has the value its digits say in their base or is rejected where it stands when it does not fit; a string literal has exactly the characters written, with a backslash standing for the one that follows. Letter case, spaces, tabs, comments, blank lines, line endings, colons instead of line ends and a first line for the shell never change what a program does.",
  over=["inputs"], q="all digits around the limits of all bases, all characters of short strings, all values of the inputs of programs that are respelled at any place",
  why="The tests compare tokens of chosen texts; limits, escapes and separators interact everywhere in a program.",
  files=["core/src/lexer.rs", "core/src/parser.rs", "core/src/reader.rs"],
  mech=[("literals", "core/src/lexer.rs"), ("data and statement ends", "core/src/parser.rs"), ("line and column counting", "core/src/reader.rs"), ("symbol keys", "core/src/ast.rs")]),
 dict(id="P13", title="Programs of any size run right or are rejected",
  statement="However many variables, parameters, arguments, nested operands, strings, labels, functions and statements a program has, it either runs exactly as written or is rejected with an error that says which limit it exceeds. Programs with up to 50 of each, or 20000 statements, are accepted.",
  over=["inputs"], q="all values in programs of sizes around every limit of the instruction encoding",
  why="Registers, constants and jump targets are packed in a few bits; the tests stay far below where they wrap.",
  files=["core/src/compiler/syms.rs", "core/src/compiler/codegen.rs", "core/src/compiler/ids.rs", "core/src/bytecode.rs"],
  mech=[("register allocation", "core/src/compiler/syms.rs"), ("jump targets", "core/src/compiler/codegen.rs"), ("instruction encoding", "core/src/bytecode.rs"), ("constant identifiers", "core/src/compiler/ids.rs")]),
 dict(id="P05", title="Arrays hold what was stored, within their bounds only",
  statement="An array element reads back exactly the value last stored at the same subscripts, or the default of its type if none was, whatever the other stores to this or other arrays. Any subscript outside the declared dimensions, any non-positive or unrepresentable dimension, and any use of an array before it was created raises a catchable error at that statement and changes nothing. Arrays are visible exactly where declared (local, shared or host-provided) and local arrays start fresh in every call.",
  over=["inputs", "histories"], q="all subscripts, stored values and dimensions for all element types, up to three dimensions and three operations",
  why="The flat offset computation is only wrong for particular subscript combinations; tests use a few in-range ones.",
  files=["core/src/mem.rs", "core/src/vm/context.rs", "core/src/vm/mod.rs", "core/src/compiler/top.rs", "std/src/arrays.rs"],
  mech=[("LBOUND and UBOUND", "std/src/arrays.rs"), ("flat index computation", "core/src/mem.rs"), ("array instructions", "core/src/vm/context.rs"), ("array symbols", "core/src/compiler/syms.rs")]),
 dict(id="P07", title="Structured control flow executes exactly the documented statements",
  statement="IF, SELECT CASE, FOR, DO and WHILE, alone or nested and with EXIT, GOTO, GOSUB, RETURN and END, execute exactly the statements their documented meaning prescribes, in order, for all guard values: the first matching branch only, loop bodies once per iteration with the documented counter values, and EXIT leaving just the innermost loop of its kind. FOR counters that reach the limits of their type raise an overflow error instead of wrapping. END stops the program with its exit code from any depth, and codes outside the documented range are errors.",
  over=["programs", "inputs"], q="all guard, selector, bound and exit-code values, over all pairs of nested loop kinds and exit statements",
  why="Branch targets are patched by the compiler; a wrong target shows only for particular guard sequences in particular nestings.",
  files=["core/src/compiler/top.rs", "core/src/compiler/codegen.rs", "core/src/parser.rs", "core/src/vm/context.rs"],
  mech=[("statement compilation", "core/src/compiler/top.rs"), ("jump fixups", "core/src/compiler/codegen.rs"), ("jumps, GOSUB and returns", "core/src/vm/context.rs")]),
 dict(id="P08", title="FUNCTION and SUB calls pass arguments, isolate locals and return results",
  statement="A call to a user-defined FUNCTION or SUB evaluates its arguments once, left to right, binds them to parameters converted to their declared types, runs with its own fresh local variables initialised to their defaults, sees only SHARED variables of the outside, and yields the value last assigned to the function name (or the default of its type), including under recursion and when calls nest inside expressions or arguments. EXIT FUNCTION and EXIT SUB return at once. Misuse (wrong number or type of arguments, unknown names, redefinition, duplicate parameters) is rejected before running.",
  over=["programs", "inputs"], q="all argument values over a set of call shapes, recursion up to six levels",
  why="Register allocation and frame offsets depend on the mix of parameters, temporaries and nested calls; tests exercise a fixed set.",
  files=["core/src/compiler/top.rs", "core/src/compiler/args.rs", "core/src/compiler/syms.rs", "core/src/vm/context.rs"],
  mech=[("callable compilation", "core/src/compiler/top.rs"), ("argument layout", "core/src/compiler/args.rs"), ("frames and calls", "core/src/vm/context.rs")]),
 dict(id="P42", title="A variable has one type and holds the value given to it last",
  statement="A variable comes into being where the program text first defines it (a DIM gives it the named type and the default of that type, an assignment the type of its annotation or else of the value), its name then means that variable in any mix of cases, with the annotation of its type or none, and every read yields the value assigned last, converted between integers and doubles (to the nearest integer, halves away from zero, or an error if it does not fit). A program that reads a variable that is not defined, defines one twice, annotates one with another type or assigns a value that is not of its kind is rejected before running, with the line of the contradiction. Variables of the program hide shared ones, SUBs and FUNCTIONs see only the shared ones, and all this is the same in blocks, loops, callables and the successive programs of a session.",
  over=["programs", "inputs"], q="all sequences of a definition or assignment, a second one, two kinds of reads, for all types, annotations and values",
  why="The combinations of definitions, annotations, types and places are thousands and each has its own outcome; tests sample a few dozen.",
  files=["core/src/compiler/top.rs", "core/src/compiler/syms.rs", "core/src/compiler/exprs.rs", "core/src/ast.rs"],
  mech=[("assignments and definitions", "core/src/compiler/top.rs"), ("symbol tables", "core/src/compiler/syms.rs"), ("conversions", "core/src/compiler/exprs.rs")]),
 dict(id="P43", title="Hosts and programs exchange variables exactly and runs can be repeated",
  statement="A host that embeds the interpreter can define shared variables and arrays with initial values of their type (others are refused): programs see them under any spelling of their names with exactly those values, or the default of their type, and may change but not redefine them. After the program stops for whatever reason (its end, END, an error, an interruption) the host reads exactly the values that the variables defined by then had, those of the program told from the shared ones, while reading outside an array, with the wrong number of subscripts, a scalar as an array or the reverse is an error and a name that is not defined is nothing. Later programs of the session see the same variables and do not resume the earlier ones, and after a reset everything runs again as the first time.",
  over=["programs", "inputs", "histories"], q="all types, nine initial values each, arbitrary assigned values and subscripts, eight kinds of program, four ways to stop, each in sessions of two programs and a rerun",
  why="What the host reads depends on the combination of types, sizes, constants already in the pool, and where execution stopped; tests read a few variables after complete runs.",
  files=["core/src/vm/mod.rs", "core/src/vm/context.rs", "core/src/compiler/top.rs", "core/src/compiler/codegen.rs", "core/src/image.rs", "core/src/mem.rs"],
  mech=[("variables defined by the host", "core/src/compiler/top.rs"), ("reading variables", "core/src/vm/mod.rs"), ("reset, clear and interrupt", "core/src/vm/mod.rs")]),
 dict(id="P09", title="ON ERROR handles every run-time error exactly as requested",
  statement="Whenever a statement fails, at any depth of blocks and calls, the handler in force decides what happens next: none stops the program with the error's message and position, RESUME NEXT continues at the statement after the failed one in the scope that set the handler, and GOTO continues at the label in that scope. A failed statement has no further effect, handlers stay in force until replaced and can be triggered repeatedly, and the last error reported is the latest one with its own position.",
  over=["fault_sequences", "programs"], q="all combinations of failing and succeeding statements over programs of up to four fallible statements under every handler sequence",
  why="What happens depends on which subset of statements fails; tests pick one failing statement per program.",
  files=["core/src/vm/context.rs", "core/src/vm/mod.rs", "core/src/compiler/top.rs", "core/src/image.rs"],
  mech=[("error dispatch", "core/src/vm/context.rs"), ("statement boundaries in debug info", "core/src/image.rs")]),
 dict(id="P10", title="Call depth and memory limits are enforced as catchable errors",
  statement="A program may nest calls and GOSUBs, and allocate strings and arrays, up to the configured limits; exceeding a limit raises a catchable error at the offending statement, changes nothing else and leaves the machine usable. No program, whatever it computes, can crash or corrupt the host through these limits.",
  over=["inputs", "configurations"], q="all small limits and all recursion depths, string sizes and array sizes around them",
  why="Tests use one limit and one depth; off-by-one and accounting errors show only at the boundary of each limit.",
  files=["core/src/mem.rs", "core/src/vm/context.rs", "core/src/vm/mod.rs"],
  mech=[("heap accounting", "core/src/mem.rs"), ("call stack limit", "core/src/vm/context.rs")]),
 dict(id="P11", title="Commands get exactly the arguments that their declared syntax admits",
  statement="A call to a built-in command or function compiles if and only if its arguments, their kinds and the separators between them match one of the callable's declared syntaxes. When it runs, the callable receives exactly the values, references, missing markers and separators written in the source, in order, converted to the declared types, each with its own source position, and a store through a reference changes exactly the variable named.",
  over=["programs", "inputs"], q="all lists of up to three arguments of every kind with any separators against ten syntaxes, with arbitrary values",
  why="The number of argument shapes is exponential in separators, kinds and omissions; the tests list a few dozen calls.",
  files=["core/src/callable.rs", "core/src/compiler/args.rs", "core/src/vm/context.rs"],
  mech=[("syntax matching and argument layout", "core/src/compiler/args.rs"), ("argument access", "core/src/callable.rs"), ("upcalls", "core/src/vm/context.rs")]),
 dict(id="P12", title="A program fed in chunks behaves like the whole program",
  statement="Compiling and running a program in successive chunks on the same machine has the same effects, output and DATA as running the whole text at once, wherever it is split between statements. A chunk that fails to compile leaves no trace: nothing of it runs and every name it introduced stays free. After an error, END or an interruption, variables keep what was assigned, nothing of the stopped program runs later, and later chunks start at the top level.",
  over=["histories", "programs"], q="all splits of eight programs into chunks, all positions of ten kinds of rejected chunk, all stop points of six programs",
  why="Interactive sessions are arbitrary sequences of chunks, failures and stops; tests replay a few short ones.",
  files=["core/src/compiler/top.rs", "core/src/compiler/codegen.rs", "core/src/compiler/syms.rs", "core/src/vm/mod.rs", "core/src/image.rs"],
  mech=[("incremental compilation", "core/src/compiler/top.rs"), ("symbol table rollback", "core/src/compiler/syms.rs"), ("VM state across chunks", "core/src/vm/mod.rs")]),
 dict(id="P14", title="Every loop yields, and running programs can be interrupted anywhere",
  statement="Every iteration of every loop, however it is written, returns control to the host, so that any program can be interrupted. Interruption at any stop discards the rest of the program and all pending calls, and leaves the variables and the machine usable. Asynchronous callables and yields are otherwise invisible: results, order of effects and error handling are as if all calls were synchronous.",
  over=["schedules", "programs"], q="21 loop forms at three call depths interrupted at any of the first three stops; eight programs with asynchronous calls, arbitrary values",
  why="Whether a host regains control depends on the jump instruction that closes each loop form and on the stop at which it interrupts; tests interrupt a couple of loops once.",
  files=["core/src/vm/mod.rs", "core/src/vm/context.rs", "core/src/compiler/top.rs"],
  mech=[("stop reasons", "core/src/vm/mod.rs"), ("backward jumps yield", "core/src/vm/context.rs"), ("loop compilation", "core/src/compiler/top.rs")]),
 dict(id="P15", title="String functions work on characters, for every text",
  statement="LEN, LEFT, RIGHT, MID, INSTR, LTRIM, RTRIM, TRIM, UCASE, LCASE, SPACE, ASC, CHR, STR and VAL return exactly the documented result for every text, counted in characters and not bytes, and for every position, length and code; arguments outside the documented domain raise a catchable error at the argument. A text is the concatenation of its LEFT and MID or RIGHT parts, CHR and ASC are inverses, INSTR returns the first occurrence only, and VAL reads back what STR writes.",
  over=["inputs"], q="all texts of up to three characters with multi-byte ones among them, with arbitrary 32-bit positions, lengths and codes",
  why="Byte/character mix-ups and boundary positions only show for particular mixes of characters, positions and lengths; tests use ASCII words.",
  files=["std/src/strings.rs", "std/src/console/format.rs"],
  mech=[("string functions", "std/src/strings.rs"), ("number formatting", "std/src/console/format.rs")]),
 dict(id="P16", title="Numeric functions return the documented result over their whole domain",
  statement="ABS, CINT, FIX, INT, SGN, SQR, LOG, EXP, MIN, MAX, ROUND and the trigonometric functions return the exact documented result (or the host's correctly defined one) for every double, infinities included, and raise a catchable error at their argument outside of their domain or of the range of their result. DEG and RAD choose the angle unit until the next of them or CLEAR. RND yields numbers between 0 and 1, repeats the last with 0 and restarts the same sequence for the same negative argument or RANDOMIZE seed.",
  over=["inputs", "histories"], q="all doubles, up to four arguments of MIN and MAX, sequences of three angle modes, five ranges of 256 seeds",
  why="Range checks, ties and infinities are single values among 2^64; tests sample ordinary ones.",
  files=["std/src/numerics.rs"],
  mech=[("numeric functions", "std/src/numerics.rs"), ("random numbers", "std/src/numerics.rs"), ("angle mode", "std/src/numerics.rs")]),
 dict(id="P18", title="READ takes the values of DATA in order and reports what does not fit",
  statement="READ stores the values of all DATA statements of the program, wherever they appear, in textual order into its variables, converted to their types, empty items being the default of the type. A value that does not convert, and reading beyond the last one, raise a catchable error, after which reading continues with the next value. RESTORE and CLEAR start over, and statements typed one by one see the data as one program would.",
  over=["programs", "histories"], q="all lists of up to three items of seven kinds with READs of all types, all histories of four typed steps",
  why="Which item meets which variable type after which error depends on the whole list; tests pair a few.",
  files=["std/src/data.rs", "core/src/compiler/top.rs", "core/src/image.rs"],
  mech=[("READ and RESTORE", "std/src/data.rs"), ("collection of DATA", "core/src/compiler/top.rs")]),
 dict(id="P19", title="Console commands write, place and read exactly what the program asks",
  statement="PRINT writes its arguments in order with the documented formats, separators and 14-column zones, and keeps the line open only after a separator. LOCATE and COLOR accept exactly the positions on the screen and the values that are colors, otherwise raise an error and change nothing. INPUT repeats its question until the answer converts to the type of its variable and stores exactly that, and INKEY names each key once without waiting.",
  over=["inputs", "configurations"], q="all sequences of up to three arguments of seven kinds and separators, all screen sizes and coordinates, all answers of up to three characters",
  why="Separators, widths and answers combine; tests list a few dozen lines with ASCII text.",
  files=["std/src/console/cmds.rs", "std/src/console/format.rs", "std/src/console/readline.rs"],
  mech=[("console commands", "std/src/console/cmds.rs"), ("raw line input", "std/src/console/readline.rs")]),
 dict(id="P31", title="Durations are waited for exactly, or rejected",
  statement="SLEEP and SOUND accept exactly the representable non-negative durations, wait or play for that long once, and reject every other number with a catchable error at the argument and without effect. MONOTONIC advances by what was slept.",
  over=["inputs"], q="all doubles as durations",
  why="Infinities, NaN and numbers beyond the range of durations crash conversions that work for every value a test uses.",
  files=["std/src/datetime.rs", "std/src/sound/cmds.rs"],
  mech=[("SLEEP and MONOTONIC", "std/src/datetime.rs"), ("SOUND", "std/src/sound/cmds.rs")]),
 dict(id="P20", title="Drawing shows exactly the visible part of what was asked for",
  statement="Pixels, lines, circles, rectangles, triangles, polygons and fills change exactly the pixels of the shape that are on the screen, wherever the rest of it is, with and without syncing, and what is shown is what can be read back. Drawing commands pass on the coordinates they were given or reject those that are not representable, at the argument and without effect, and every command ends.",
  over=["inputs"], q="all coordinates, sizes, radii, colors and pictures within the bounds",
  why="Clipping, rounding and overflow depend on combinations of coordinates that a few pictures cannot cover; a fill that never ends needs one specific color.",
  files=["std/src/console/drawing.rs", "std/src/gfx/lcd/buffered/mod.rs", "std/src/gfx/mod.rs"],
  mech=[("drawing algorithms", "std/src/console/drawing.rs"), ("clipping, damage and syncing", "std/src/gfx/lcd/buffered/mod.rs"), ("commands", "std/src/gfx/mod.rs")]),
 dict(id="P21", title="The graphical console shows the text that was written",
  statement="After any sequence of writes, prints, cursor movements, clears, color changes and alternate screens, a graphical console shows what a reference screen shows: text wraps and scrolls at its borders, clears erase exactly their area, and the cursor never leaves traces. No sequence crashes it, and delaying updates does not change the result.",
  over=["histories"], q="all sequences of console operations within the bounds",
  why="Wrapping, scrolling and the pixels saved under the cursor interact across operations; tests drive each operation from a clean state.",
  files=["std/src/console/graphics.rs", "std/src/gfx/lcd/buffered/mod.rs", "std/src/console/linebuffer.rs"],
  mech=[("GraphicsConsole", "std/src/console/graphics.rs"), ("BufferedLcd", "std/src/gfx/lcd/buffered/mod.rs")]),
 dict(id="P22", title="The line editor shows and returns what the user typed",
  statement="After every key, the screen shows the prompt and a part of the line around the cursor, whatever the width of the screen, the prompt, the initial text and the characters typed; secrets only show as asterisks. The returned line is the result of the keys, the history contains exactly the accepted lines, and interruptions and end of input are told apart.",
  over=["histories"], q="all sequences of keys within the bounds",
  why="Scrolling, insertion and deletion interact with the width of the screen and multi-byte characters across keys; tests replay a few sequences.",
  files=["std/src/console/readline.rs", "std/src/console/linebuffer.rs"],
  mech=[("Readline", "std/src/console/readline.rs"), ("LineBuffer", "std/src/console/linebuffer.rs")]),
 dict(id="P26", title="The palette is the standard one and colors map to it exactly",
  statement="Every color number stands for the color of the standard 256-color palette, and looking up any RGB value finds a color number with exactly that value if and only if there is one.",
  over=["inputs"], q="all color numbers and all RGB values",
  why="One wrong entry in a table of 256 colors is invisible to tests of a few colors.",
  files=["std/src/console/colors.rs"],
  mech=[("palette", "std/src/console/colors.rs")]),
 dict(id="P27", title="Console specifications and resolutions are read exactly",
  statement="A resolution is accepted if and only if it has the documented form with positive 32-bit dimensions, and means exactly that; every flag of a console specification is found by the driver that asks for it, with its last value, and every flag that nobody asked for is rejected by name.",
  over=["inputs"], q="all short specifications over the significant characters",
  why="Prefixes, suffixes, empty and repeated parts combine in more ways than tests list.",
  files=["std/src/console/spec.rs"],
  mech=[("Resolution", "std/src/console/spec.rs"), ("ConsoleSpec", "std/src/console/spec.rs")]),
 dict(id="P24", title="The full-screen editor edits exactly the text it shows",
  statement="After every key, the text is the one that results from the keys, the cursor is where the next character goes, and the screen shows the part of the text around it, whatever the size of the screen and the characters in the text. The program is marked as changed if and only if it was edited, and leaving the editor keeps everything that was typed.",
  over=["histories", "inputs"], q="all sequences of keys within the bounds, with any printable character",
  why="Scrolling in both directions, indentation and multi-byte characters interact across keys; tests replay a few sequences.",
  files=["repl/src/editor.rs", "std/src/console/linebuffer.rs"],
  mech=[("Editor", "repl/src/editor.rs")]),
 dict(id="P25", title="Files are found where they were put, under exactly one name",
  statement="A path is accepted if and only if it has one of the documented forms, and stands for exactly one file of one drive, or one directory, whatever the case of the drive. Files read back exactly as written until they are overwritten or deleted, copies are independent, listings and quotas match what is stored, and operations that fail (missing files, busy or unknown drives, bad names) change nothing.",
  over=["inputs", "histories"], q="all short paths and all sequences of operations within the bounds",
  why="Drive prefixes, slashes, case and the current drive combine in more ways than tests list, and mounts depend on the operations before.",
  files=["std/src/storage/mod.rs", "std/src/storage/mem.rs"],
  mech=[("Storage and Location", "std/src/storage/mod.rs"), ("InMemoryDrive", "std/src/storage/mem.rs")]),
 dict(id="P28", title="Pages and help show everything, in order, on any console",
  statement="Long listings stop at the end of every screen and show every line once, in order, until the user stops them. Paragraphs and help topics show the same words in the same order on all screens, without lines wider than the screen if its width allows, with their indentation, and the colors of the console are the same afterwards.",
  over=["inputs", "histories"], q="all screens, listings, answers and topics within the bounds",
  why="Wrapping and paging depend on widths, heights and where the user stops; tests use one or two screens.",
  files=["std/src/console/pager.rs", "std/src/console/format.rs", "std/src/help.rs"],
  mech=[("Pager", "std/src/console/pager.rs"), ("refill", "std/src/console/format.rs"), ("HELP", "std/src/help.rs")]),
 dict(id="P29", title="The stored program is never lost without asking",
  statement="NEW, LOAD and leaving the interpreter ask before they discard changes that were not saved, and only then; any answer but yes changes nothing. LOAD, SAVE, EDIT, RUN, LIST and NEW act on exactly the program that was last loaded or typed, under its name, RUN and CLEAR start from a clean machine, and commands that fail leave the program as it was.",
  over=["histories"], q="all sequences of commands within the bounds, with all kinds of answers",
  why="Whether something is asked depends on everything done since the last save; tests cover single commands.",
  files=["std/src/program.rs", "std/src/exec.rs", "std/src/lib.rs"],
  mech=[("program commands", "std/src/program.rs"), ("RUN and CLEAR", "std/src/exec.rs")]),
 dict(id="P33", title="The interpreter runs each line once and reports how it ended",
  statement="Every line that is entered runs exactly once, in order, on what the lines before it left; errors, interruptions and the end of a stored program are reported and do not end the session, which ends only by END or the end of input, with the exit code asked for, after confirming the loss of unsaved changes. AUTOEXEC.BAS runs once at startup, and programs run from the cloud keep their exit code and leave the interpreter usable.",
  over=["histories", "fault_sequences"], q="all sequences of lines out of the kinds within the bounds, startup files and cloud programs",
  why="State such as error handlers, interruptions and unsaved changes survives from line to line; tests drive one line at a time.",
  files=["repl/src/lib.rs", "std/src/lib.rs", "std/src/exec.rs"],
  mech=[("REPL loop, AUTOEXEC and cloud programs", "repl/src/lib.rs"), ("Machine", "std/src/lib.rs")]),
 dict(id="P30", title="GPIO commands drive exactly the pins that they name",
  statement="GPIO_SETUP, GPIO_CLEAR, GPIO_READ and GPIO_WRITE do exactly one operation, on the pin and with the mode or level that they name, and GPIO_CLEAR without a pin resets all of them. Pins and modes that do not exist are reported at the argument without touching any pin, failures of the pins are reported at the command, and the pins for testing read the values that were prepared, in order, and keep a trace of everything.",
  over=["inputs", "fault_sequences"], q="all pin numbers, spellings of modes and levels, with pins that fail or not; sequences of commands on the pins for testing",
  why="Pin numbers and mode names form a space in which tests pick a few points; what the trace holds depends on the whole sequence.",
  files=["std/src/gpio/mod.rs", "std/src/gpio/fakes.rs"],
  mech=[("GPIO commands", "std/src/gpio/mod.rs"), ("pins for testing", "std/src/gpio/fakes.rs")]),
 dict(id="P32", title="The ST7735S panel shows the console and its buttons are keys",
  statement="Whatever is written or drawn on the console of an ST7735S panel, the panel holds exactly those pixels, in 16-bit colors, once syncing asks for them, whatever the sizes of the transfers that the bus takes, with its pins and registers set up before. Failures of the bus are reported and never crash, the panel is left blank and dark at the end, and every button that is held down is read once as its key, in order, along with those of the keyboard.",
  over=["inputs", "fault_sequences"], q="all pairs of console operations over all transfer sizes within the bounds, all fonts, all characters, all subsets of buttons and all points of failure of the bus",
  why="The tests of the driver cover the chunking of transfers and a few colors; what the panel shows is the result of every layer together.",
  files=["st7735s/src/lib.rs", "std/src/gfx/lcd/buffered/mod.rs", "std/src/gfx/lcd/fonts/mod.rs", "std/src/console/graphics.rs", "std/src/console/drawing.rs"],
  mech=[("panel driver and buttons", "st7735s/src/lib.rs"), ("frame buffer and damage", "std/src/gfx/lcd/buffered/mod.rs"), ("text", "std/src/console/drawing.rs")]),
 dict(id="P34", title="The cloud commands do exactly what was asked, once, and tell the outcome",
  statement="LOGIN, LOGOUT, SIGNUP, SHARE and the commands that use CLOUD drives send to the service exactly the requests that they need, with the data that was given, and none if the command is invalid or not confirmed. They fail if and only if the service refuses or the state does not allow them, leave the session, the drives and the program as documented in either case, and never show passwords.",
  over=["histories", "inputs", "fault_sequences"], q="all sequences of commands within the bounds with every subset of refused requests, all changes of readers and all dialogues",
  why="The outcome depends on the history of sessions, drives and refusals and on the exact characters of ACLs and passwords; tests script single dialogues.",
  files=["client/src/cmds.rs", "client/src/drive.rs", "client/src/lib.rs", "std/src/storage/mod.rs"],
  mech=[("LOGIN, LOGOUT, SHARE and SIGNUP", "client/src/cmds.rs"), ("CLOUD drives", "client/src/drive.rs")]),
 dict(id="P35", title="Local drives keep files faithfully and inside their directory",
  statement="What is put in a local drive is what is read, listed and counted later, in this session and in others, until it is replaced or deleted, no matter in what pieces the system moves the data and whether its calls are interrupted. Operations succeed if and only if everything they need from the system does and report the failure otherwise, touch nothing but their own file, and reject every name that is not a plain one of the directory of the drive.",
  over=["histories", "inputs", "fault_sequences"], q="all sequences of operations, contents, partial transfers and failing calls within the bounds, over a model of the calls of the operating system below the real code",
  why="Short transfers, interruptions, failing calls and odd names depend on the moment and the system; tests use a healthy one and a few names.",
  files=["std/src/storage/fs.rs", "std/src/storage/mod.rs"],
  mech=[("directories as drives", "std/src/storage/fs.rs"), ("drives and paths", "std/src/storage/mod.rs")]),
 dict(id="P36", title="Scripts run from the command line to the end and exit with their code",
  statement="A script is run from the command line as a whole or, if it cannot be read or compiled, not at all; it writes exactly what it prints, and the exit code is the one of its END, zero without one, 130 if it was interrupted, and an error with its position if it failed. The second line selects the console if and only if the first one begins with #! and it is a comment with the property, all other lines are accepted as they are, wrong properties and unknown consoles are rejected, and no script or option can crash the program.",
  over=["inputs", "fault_sequences"], q="all scripts, lines, options, partial reads and failing calls within the bounds, over a model of the calls of the operating system below the real code",
  why="Whether a script is read and reported properly depends on each character of its lines and each call to the system; tests run a few golden scripts.",
  files=["cli/src/lib.rs", "cli/src/propline.rs", "cli/src/console.rs", "cli/src/gpio.rs", "std/src/console/spec.rs", "std/src/console/trivial.rs"],
  mech=[("running scripts", "cli/src/lib.rs"), ("properties of scripts", "cli/src/propline.rs"), ("selection of consoles", "cli/src/console.rs")]),
 dict(id="P37", title="Terminals show what programs print and report the keys pressed",
  statement="On a terminal, the screen, the colors, the cursor and the alternate screen are after each operation exactly what the operations on the console so far ask for, without any waiting output unless synchronization is off, and control characters never reach the terminal; the terminal is left as it was found. Each key pressed is reported once and in order as the key that it stands for, CTRL+C also interrupts the program, input that is not from a terminal is read as it is up to its end, and the size is the one of the terminal or the one in LINES and COLUMNS.",
  over=["histories", "inputs", "schedules"], q="all sequences of operations, keys, input and sizes within the bounds, with partial writes, over a model of the calls of the operating system below the real code including the terminal library",
  why="The screen depends on the history of escape sequences and on what was already sent, and keys on each byte of the input; tests check a few keys.",
  files=["terminal/src/lib.rs", "std/src/console/mod.rs"],
  mech=[("output, keys and sizes of terminals", "terminal/src/lib.rs"), ("keys of pipes and control characters", "std/src/console/mod.rs")]),
 dict(id="P38", title="The cloud client sends exactly what is asked and heeds every answer",
  statement="Each operation on the cloud service sends one request that names exactly the user and the file that were given, whatever characters are in them, with the session, the contents and the readers as they are; what cannot be sent like that, or needs a session that is missing, is rejected and sends nothing. Operations succeed if and only if the service says so and return what it sent, other answers are reported as what they are without control characters, and the session is always the last one that was opened and not closed.",
  over=["inputs", "histories", "fault_sequences"], q="all operations, names, contents, status codes and kinds of answers within the bounds, over a stand-in for the HTTP library that records the requests",
  why="Which request is sent depends on each character of the names and the outcome on each code and header of the answer; the tests of this client need the live service and never run.",
  files=["client/src/cloud.rs", "client/src/lib.rs", "client/src/drive.rs"],
  mech=[("requests and answers", "client/src/cloud.rs"), ("drives on top of it", "client/src/drive.rs"), ("commands on top of it", "client/src/cmds.rs")]),
 dict(id="P39", title="Raspberry Pi pins and bus are driven exactly as asked",
  statement="Each pin of the board is in the mode it was last set up in and at the level last written, no operation touches another pin, and reading tells the level that the pin has. Operations on pins that the board lacks or that are not set up for them fail and change nothing, pins and the bus are released when they are cleared or no longer used, and the bus carries the bytes written with the clock, mode and transfer size of the system or is not opened.",
  over=["histories", "inputs", "fault_sequences"], q="all sequences of operations, pins, levels, bus parameters and failures within the bounds, over a stand-in for the hardware library that records what is asked of the board",
  why="The state of a pin depends on the history of set-ups; the tests have no board and never run this code.",
  files=["rpi/src/gpio.rs", "rpi/src/spi.rs", "std/src/gpio/mod.rs"],
  mech=[("pins", "rpi/src/gpio.rs"), ("bus", "rpi/src/spi.rs"), ("commands on pins", "std/src/gpio/mod.rs")]),
 dict(id="P40", title="The SDL window shows the console, plays tones and reports keys",
  statement="After each operation on the console in an SDL window, the window shows exactly what the console was asked to show, with the sizes, colors and screens that it has, also while synchronization is off. Every key, character and CTRL+C reaches the program once and in order, other events do not, tones have the frequency and length asked for and then end, and a failure of the library is reported by the operation that it stops and ends nothing else.",
  over=["histories", "inputs", "schedules", "fault_sequences"], q="all sequences of operations, events, tones, options and failures within the bounds, over a stand-in for the windowing library whose thread takes turns with that of the program",
  why="Window and program are two threads that talk through channels; the tests that open windows need a display and are not run.",
  files=["sdl/src/host.rs", "sdl/src/console.rs", "sdl/src/lib.rs"],
  mech=[("window", "sdl/src/host.rs"), ("console", "sdl/src/console.rs"), ("options", "sdl/src/lib.rs")]),
 dict(id="P41", title="The terminal in a web page keeps programs, reads keys, draws and yields",
  statement="In a web page, programs that were saved are there, whole and alone, after the page is loaded again, whatever others keep in the storage of the page and whatever version stored them; operations on them that fail are reported and change nothing else. Every key, character and button becomes the one key that it stands for, shapes are drawn once, where and in the color asked for, pauses and tones take the time asked for and tones end, and running programs let the page go often enough for what they print to be seen and CTRL+C to interrupt them.",
  over=["histories", "inputs", "faults", "programs"], q="all sequences of commands, contents of the storage, keys, shapes, programs that do not end, tones and failures within the bounds, over a stand-in for the page",
  why="The crate for the web has tests that only run in browsers; none of them saves a program, loads the page again, or runs one that does not end.",
  files=["web/src/lib.rs", "web/src/store.rs", "web/src/input.rs", "web/src/canvas.rs", "web/src/datetime.rs", "web/src/audio.rs"],
  mech=[("terminal and turns of the page", "web/src/lib.rs"), ("storage", "web/src/store.rs"), ("keys", "web/src/input.rs"), ("canvas", "web/src/canvas.rs"), ("time", "web/src/datetime.rs"), ("tones", "web/src/audio.rs")]),
]
