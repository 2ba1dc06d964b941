import json, os
VERIF = os.path.dirname(os.path.abspath(__file__))

COMMON_ASSUMPTIONS = [
    "the encoding is the LLVM IR that rustc 1.96 produces for /repo's crates (opt-level 2, debug assertions and overflow checks on, panic=abort) linked with std",
    "heap allocation succeeds up to 256 MiB; hash seeds are fixed; time, environment and file access are stubbed",
    "claims hold within the bounds listed under coverage.bounds only",
]


def known_findings():
    out = []
    p = os.path.join(VERIF, "known-findings.jsonl")
    if os.path.exists(p):
        for l in open(p):
            if l.strip():
                out.append(json.loads(l))
    return out


PROPS = {
    "P01": dict(bounds='all operand values (strings up to 2 ASCII characters); remainder of doubles, double powers and mixed powers on a table of values only; integer powers with exponent 0..5 over arbitrary bases (0..2) or |base|<64, or ten bases over arbitrary exponents below 64.', groups=[
        dict(bin="hops", fn="h_binary", cases=[i for i in range(17) if i != 5], covers=["value", "error", "rejected"]),
        dict(bin="hops", fn="h_power", cases=range(5)),
        dict(bin="hops", fn="h_unary"),
        dict(bin="hops", fn="h_convert", cases=range(5)),
    ]),
    "P03": dict(bounds='24 programs that use every statement with one character (24 kinds; thorough: any printable one) inserted, replaced or removed anywhere, or with one word replaced by or preceded by any of 62, removed, doubled, swapped or the rest cut off; every text of two of 62 words and a third of 12 (thorough: 62, and a second line); 1..2 arbitrary bytes (thorough: 3) within strings, comments and code, arriving in two pieces or failing to be read; 12 yields of running.', groups=[
        dict(bin="hsrc", fn="h_char", cases=range(24), thorough_cases=range(100, 124), covers=["accepted", "rejected"]),
        dict(bin="hsrc", fn="h_words", cases=range(72), covers=["accepted", "rejected"]),
        dict(bin="hsrc", fn="h_short", cases=range(62), thorough_cases=range(100, 162), covers=["rejected"]),
        dict(bin="hsrc", fn="h_bytes", cases=range(8), thorough_cases=range(8, 12), covers=["text", "unreadable"]),
    ]),
    "P04": dict(bounds='integers of 1..12 decimal, 1..2 and 30..34 binary, 10..12 octal, 1..11 &d and 1..10 hexadecimal digits, all of them arbitrary up to 4 digits, two adjacent arbitrary ones among those of the limits beyond; doubles of 1..5 + 1..3 digits; 9 numbers with any printable character in them; strings of 0..4 arbitrary printable characters and some others; 10 programs with arbitrary 32-bit, Boolean and double inputs, in any letters, spaces, line ends, comments and colons at any one place or everywhere.', groups=[
        dict(bin="hsrc", fn="h_integer", cases=[*range(1, 13), *range(41, 43), *range(70, 75), *range(90, 93), *range(121, 132), *range(161, 171), *range(207, 210), *range(270, 275)], covers=["accepted", "rejected"]),
        dict(bin="hsrc", fn="h_odd_number", cases=range(9), covers=["accepted", "rejected"]),
        dict(bin="hsrc", fn="h_double", cases=range(15), covers=["accepted"]),
        dict(bin="hsrc", fn="h_string", cases=range(15), covers=["accepted", "rejected"]),
        dict(bin="hsrc", fn="h_spelling", cases=range(40), covers=["same"]),
    ]),
    "P13": dict(bounds='5..300 variables, shared variables, locals, array dimensions, arguments, parameters, nested and chained operands, strings, labels, functions, with arbitrary 32-bit values; 12 kinds of jump over 100 and 66000 statements (thorough: also 10000 to 70000 in 8 steps).', groups=[
        dict(bin="hsrc", fn="h_many", cases=range(12), covers=["accepted", "rejected"]),
        dict(bin="hsrc", fn="h_far", opts=dict(steps=2_000_000_000), cases=[0, 2, 5, 6, 8], thorough_cases=range(100, 112), covers=["accepted", "rejected"]),
    ]),
    "P05": dict(bounds='1 to 3 dimensions of size 1..5, arbitrary 32-bit subscripts and values, two stores and a load; DIM of two arbitrary sizes of which one is not positive, four huge sizes, and small ones.', groups=[
        dict(bin="hcall", fn="h_array", cases=range(12), covers=["stored", "out of bounds"]),
        dict(bin="hcall", fn="h_dim", cases=range(3)),
        dict(bin="hcall", fn="h_array_double", covers=["stored"]),
        dict(bin="hcall", fn="h_array_scope", cases=range(7)),
        dict(bin="hcall", fn="h_array_misuse"),
        dict(bin="hstd", fn="h_bounds", cases=range(12), covers=["bound", "no dimension"]),
    ]),
    "P08": dict(bounds='24 call shapes with arbitrary argument values, recursion up to 6 levels, 40 misuse programs; expressions of three operands out of a shared variable, functions that read and change it and an arbitrary value, in six statement kinds; 24 statement kinds with three kinds of call among seven live variables, at the top level and inside a SUB; a shared variable hidden by a local of any type in 5 ways, read or written in 3 ways with any annotation; 10 shapes of expressions that read the variable they are assigned to, for all types and operators.', groups=[
        dict(bin="hcall", fn="h_calls", cases=range(24)),
        dict(bin="hcall", fn="h_calls_misuse"),
        dict(bin="hcall", fn="h_shared", cases=range(7)),
        dict(bin="hcall", fn="h_keep", cases=range(3)),
        dict(bin="hcall", fn="h_back", cases=range(4)),
        dict(bin="hcall", fn="h_fresh", cases=range(4)),
        dict(bin="hcall", fn="h_hide", cases=range(16), covers=["hidden", "rejected"]),
        dict(bin="hcall", fn="h_self", cases=range(40), covers=["assigned"]),
    ]),
    "P42": dict(bounds='28 definitions or assignments, then 29, then 11 reads, of one variable, for all four types, five annotations and arbitrary values (text of one ASCII character); 12 x 13 of them inside a SUB, a FUNCTION, an IF, a FOR and as programs of one session.', groups=[
        dict(bin="hvars", fn="h_vars", cases=range(28), covers=["value", "rejected", "error"]),
        dict(bin="hvars", fn="h_places", cases=range(5), covers=["value", "rejected", "error"]),
    ]),
    "P43": dict(bounds='scalars of four types with nine initial values, eight programs, one later program and a rerun; arrays of one to three dimensions of up to four elements, one store with a subscript of -1..4 and one read with an arbitrary subscript (-2..6 beyond one dimension), defined by the host, by DIM SHARED and by DIM; four ways to stop at the top and three inside of up to four nested calls; an interruption at any of the first six yields; 1..6 heap entries.', groups=[
        dict(bin="hvars", fn="h_host", cases=range(4), covers=["read", "rejected"]),
        dict(bin="hvars", fn="h_host_array", cases=range(12), covers=["stored", "default", "out of bounds"]),
        dict(bin="hvars", fn="h_host_stops", cases=range(6), covers=["accepted", "rejected", "stopped", "interrupted", "not started", "again", "fits", "does not fit"]),
    ]),
    "P09": dict(bounds='39 first pairs of statements out of 13 kinds times up to two more, every failure combination; 7 nested-call programs with every failure combination.', groups=[
        dict(bin="hcall", fn="h_errors", cases=range(39), covers=["no error left", "handled", "uncaught"]),
        dict(bin="hcall", fn="h_last_error", cases=range(2)),
        dict(bin="hcall", fn="h_error_scope", cases=range(7)),
    ]),
    "P10": dict(bounds='call-stack limits 1..6 with depths around them, heap limits with strings and arrays around them; recursion up to 250 calls of six bodies with up to three locals; 187 to 193 variables followed by five kinds of statement.', groups=[
        dict(bin="hcall", fn="h_limits", cases=range(3), covers=["within", "beyond"]),
        dict(bin="hcall", fn="h_heap", cases=range(5), covers=["out of memory"]),
        dict(bin="hcall", fn="h_deep", cases=range(11), covers=["deep", "many variables"]),
    ]),
    "P07": dict(bounds='IF chains up to 3 branches nested twice; SELECT up to 3 cases; FOR up to 4 iterations over arbitrary bounds and 6 step kinds; all 7x7 nestings of two loops with up to 3 iterations; seven GOTO/GOSUB programs; arbitrary END codes.', groups=[
        dict(bin="hlang", fn="h_if", covers=["eof"]),
        dict(bin="hlang", fn="h_if_line"),
        dict(bin="hlang", fn="h_select", cases=range(6)),
        dict(bin="hlang", fn="h_select_types", cases=range(5)),
        dict(bin="hlang", fn="h_for", cases=range(6), covers=["overflow"]),
        dict(bin="hlang", fn="h_for_double", cases=range(3)),
        dict(bin="hlang", fn="h_nest", cases=range(49), covers=["end", "bad end"]),
        dict(bin="hlang", fn="h_jumps", cases=range(7)),
        dict(bin="hlang", fn="h_end", cases=range(5)),
    ]),
    "P02": dict(bounds='two operators: all 17x17 pairs, every grouping and unary position; three operators: one per precedence level; values arbitrary except that with products, quotients or shifts one operand ranges over -8..7 and the others are fixed, and with powers all are fixed.', groups=[
        dict(bin="hops", fn="h_prec2", cases=range(17), covers=["value", "error", "rejected"]),
        dict(bin="hops", fn="h_prec3", cases=range(6), time=120),
    ]),
    "P11": dict(bounds="up to 3 arguments with all kinds and separators against 10 syntaxes, arbitrary integer values and one-character strings; 6 programs storing through references.", groups=[
        dict(bin="hvm", fn="h_args", cases=range(10), covers=["accepted", "rejected"]),
        dict(bin="hvm", fn="h_outs"),
        dict(bin="hvm", fn="h_refs", cases=range(6)),
    ]),
    "P12": dict(bounds="8 programs of up to 7 units, all splits, 10 kinds of rejected chunk at every position under 3 splits; 6 programs stopped by every combination of failures.", groups=[
        dict(bin="hvm", fn="h_chunks", cases=range(16), covers=["same"]),
        dict(bin="hvm", fn="h_after", cases=range(6)),
    ]),
    "P14": dict(bounds="21 loop forms at 3 depths, interrupted at one of the first 3 stops, at most 5M instructions without a stop; 8 programs with asynchronous calls on arbitrary integers.", groups=[
        dict(bin="hvm", fn="h_yield", cases=range(21), covers=["interrupted"], opts=dict(steps=5000000)),
        dict(bin="hvm", fn="h_async", cases=range(8)),
    ]),
    "P15": dict(bounds="strings of up to 3 characters out of all printable ASCII, tab, and three multi-byte ones; arbitrary 32-bit positions and lengths; search strings up to 2 characters; texts of up to 1025 characters with one out of two others at one of four places, at six positions; SPACE of up to four and of nine other lengths; STR of integers up to three digits and at 16 others, VAL of up to 4 characters of 8 kinds.", groups=[
        dict(bin="hstd", fn="h_substr", cases=range(6)),
        dict(bin="hstd", fn="h_long", cases=range(6)),
        dict(bin="hstd", fn="h_instr", cases=range(24), covers=["found", "not found"]),
        dict(bin="hstd", fn="h_chars", cases=range(8), covers=["code", "bad code"]),
        dict(bin="hstd", fn="h_strval", cases=range(10)),
    ]),
    "P16": dict(bounds="arbitrary doubles; ROUND with decimals on 8 values and 21 counts; EXP on 11 values; random sequences of 8 numbers from 5 ranges of 256 seeds.", groups=[
        dict(bin="hstd", fn="h_num", cases=range(15)),
        dict(bin="hstd", fn="h_angle", cases=range(6)),
        dict(bin="hstd", fn="h_minmax", cases=range(6)),
        dict(bin="hstd", fn="h_round", cases=range(8)),
        dict(bin="hstd", fn="h_rnd", cases=range(3)),
    ]),
    "P18": dict(bounds="up to 4 values of 7 kinds (the third of 2) read by up to 3 READs of all types; 4 steps out of 5 kinds typed one by one.", groups=[
        dict(bin="hstd", fn="h_read", cases=range(21), covers=["read", "out of data", "mismatch"]),
        dict(bin="hstd", fn="h_read_chunks"),
    ]),
    "P19": dict(bounds="PRINT with up to 3 arguments of 7 kinds; arbitrary screen sizes and coordinates; INPUT of 3 lines of up to 3 characters on a console that is not interactive.", groups=[
        dict(bin="hstd", fn="h_print", cases=range(7), covers=["line", "open line"]),
        dict(bin="hstd", fn="h_screen", cases=range(3), covers=["located", "outside", "bad color"]),
        dict(bin="hstd", fn="h_input", cases=range(4), covers=["retry"]),
        dict(bin="hstd", fn="h_inkey"),
    ]),
    "P31": dict(bounds="arbitrary durations, compared with what is waited for to within half a second from 1/16 to 65535 and exactly for five; arbitrary pitches with four durations.", groups=[
        dict(bin="hstd", fn="h_time", cases=range(7), covers=["slept", "rejected"]),
    ]),
    "P20": dict(bounds="displays of up to 6x6 pixels; arbitrary 16-bit coordinates and sizes for pixels and filled rectangles; all lines between points of a 6x6 display; lines, circles, rectangles, triangles and polygons with corners in -3..6; circles of radius up to 8; triangles with two arbitrary corners of a 5x5 display; 6 extreme values for every coordinate.", groups=[
        dict(bin="hgfx", fn="h_pixels", cases=range(6), covers=["drawn"]),
        dict(bin="hgfx", fn="h_lines", cases=range(6), covers=["line"]),
        dict(bin="hgfx", fn="h_clip", cases=range(36), covers=["clipped"]),
        dict(bin="hgfx", fn="h_circles", cases=range(9)),
        dict(bin="hgfx", fn="h_area", cases=range(18), covers=["filled"]),
        dict(bin="hgfx", fn="h_far", cases=range(26), covers=["far"], opts=dict(steps=400_000_000)),
        dict(bin="hgfx", fn="h_fill", cases=range(12), covers=["filled"]),
        dict(bin="hgfx", fn="h_asked", cases=range(10), covers=["asked"]),
        dict(bin="hgfx", fn="h_shapes", cases=range(4, 16), covers=["shape"], opts=dict(steps=400_000_000)),
        dict(bin="hstd", fn="h_gfx", cases=range(12), covers=["drawn", "rejected"]),
        dict(bin="hstd", fn="h_gfx_more", cases=range(7), covers=["drawn", "rejected"]),
    ]),
    "P21": dict(bounds="a screen of 4x3 characters of 2x2 pixels, with and without a border, and one of 4x1 characters; all sequences of four (three on the last one) out of 16 operations on a blank or full screen.", groups=[
        dict(bin="hgfx", fn="h_console", cases=range(48), covers=["shown"]),
        dict(bin="hgfx", fn="h_glyph", cases=range(4), covers=["shown"]),
    ]),
    "P22": dict(bounds="screens of 2 to 9 columns (and 140 and 300 with 130 and 199 characters), 4 prompts, initial texts of up to 8 characters, all sequences of 4 keys (5 with --tier thorough and for histories, 6 for passwords); up to 3 lines of history; line buffers of up to 5 characters with two operations.", groups=[
        dict(bin="hcons", fn="h_edit", cases=range(52), thorough_cases=range(100, 152), covers=["read"]),
        dict(bin="hcons", fn="h_history", cases=range(8), covers=["read", "abandoned"]),
        dict(bin="hcons", fn="h_secure", cases=range(5), covers=["read"]),
        dict(bin="hcons", fn="h_raw", cases=range(1), covers=["read", "abandoned"]),
        dict(bin="hcons", fn="h_buffer", cases=range(9), covers=["edited"]),
    ]),
    "P26": dict(bounds="all 256 colors and all 16777216 RGB values.", groups=[
        dict(bin="hcons", fn="h_colors", cases=range(2)),
    ]),
    "P27": dict(bounds="resolutions of up to 5 characters (6 with --tier thorough) out of 9 kinds, of up to 4 arbitrary ASCII characters (5 with --tier thorough) and some large numbers; up to 3 flags out of 7.", groups=[
        dict(bin="hcons", fn="h_resolution", cases=[*range(6), 11, 12, 13, 14], thorough_cases=[*range(7), *range(11, 16)], covers=["resolution"]),
        dict(bin="hcons", fn="h_resolution_big", cases=range(1)),
        dict(bin="hcons", fn="h_spec", cases=range(4), covers=["accepted", "unknown"]),
    ]),
    "P24": dict(bounds="three screens of 6x4, 36x3 and 9x2 characters, five texts of up to nine lines, eight places to start, and all sequences of three keys (four with --tier thorough) out of 15 kinds and any printable character.", groups=[
        dict(bin="hrepl", fn="h_editor", cases=range(120), thorough_cases=range(1000, 1120), covers=["edited"]),
    ]),
    "P25": dict(bounds="all paths of up to four characters (five with --tier thorough) out of seven, in 11 operations; sequences of three operations (four with --tier thorough) out of 16 kinds on drives, files and their readers in memory.", groups=[
        dict(bin="hrepl", fn="h_paths", cases=range(88), thorough_cases=range(100, 188), covers=["accepted", "rejected"]),
        dict(bin="hrepl", fn="h_names", cases=range(12), covers=["accepted", "rejected"]),
        dict(bin="hrepl", fn="h_drives", cases=range(16), thorough_cases=range(100, 116), covers=["done"]),
    ]),
    "P29": dict(bounds="sequences of two commands out of 15 kinds from four states, with all kinds of answers; of three from the first state, and of one more with --tier thorough.", groups=[
        dict(bin="hrepl", fn="h_program", cases=range(60), thorough_cases=range(100, 160), covers=["done"]),
    ]),
    "P28": dict(bounds="listings of up to nine lines on screens of at least 10x3 characters; two paragraphs out of eight with four indentations on screens of any width; five help topics on eight widths, or paged on six sizes and stopped at any of the first eight pauses.", groups=[
        dict(bin="hrepl", fn="h_pages", cases=range(10), covers=["listed", "stopped"]),
        dict(bin="hrepl", fn="h_refill", cases=range(32), covers=["printed"]),
        dict(bin="hrepl", fn="h_help", cases=range(10), covers=["whole", "stopped"]),
    ]),
    "P33": dict(bounds="three lines (four with --tier thorough; two where a person uses the console) out of 16 kinds and the end of input, with and without unsaved changes; eight startup files and five errors of reading them; seven programs run from the cloud.", groups=[
        dict(bin="hrepl", fn="h_loop", cases=range(64), thorough_cases=range(100, 132), covers=["left"]),
        dict(bin="hrepl", fn="h_start", cases=range(8), covers=["started"]),
        dict(bin="hrepl", fn="h_cloud", cases=range(7), covers=["ran", "bad"]),
    ]),
    "P30": dict(bounds="all 32-bit pin numbers, all spellings of the modes and all strings of up to four ASCII characters, pins that fail or not; sequences of four commands out of ten on the pins for testing.", groups=[
        dict(bin="hstd", fn="h_gpio", cases=range(12), covers=["done", "rejected"]),
        dict(bin="hstd", fn="h_gpio_mock", cases=range(10), thorough_cases=range(100, 110), covers=["done"]),
    ]),
    "P32": dict(bounds="four transfer sizes of the bus (one at a time up to 4096 bytes, whole or partial), all pairs of nine operations with coordinates in, at and past the borders and all 256 colors (on one bus; all with --tier thorough); the three fonts with all ASCII characters; settings out of eight; failures of any of the first 70 transfers of the setup and the first 20 of eight operations; all sets of the eight buttons held down once and up to two keys.", groups=[
        dict(bin="hhw", fn="h_panel", cases=range(36), thorough_cases=range(100, 136), covers=["shown"]),
        dict(bin="hhw", fn="h_fonts", cases=range(5), covers=["shown", "rejected"]),
        dict(bin="hhw", fn="h_bus", cases=range(10), covers=["worked", "failed"]),
        dict(bin="hhw", fn="h_buttons", cases=range(3), covers=["read"]),
    ]),
    "P37": dict(bounds="sequences of three operations on the console (four with --tier thorough) out of 17 with arbitrary arguments on a screen of 12x6, on a terminal and on a pipe that takes 1 or 8192 bytes at once; all sizes of terminals and seven kinds of each variable; sequences of up to three keys out of 33 (the one in the middle out of five) and arbitrary ASCII characters; input of up to four characters, arbitrary ASCII ones and at most one other.", groups=[
        dict(bin="hterm", fn="h_screen", cases=range(34), thorough_cases=range(100, 134), covers=["done"]),
        dict(bin="hterm", fn="h_size", cases=range(7), covers=["done"]),
        dict(bin="hterm", fn="h_keys", cases=range(8), covers=["keys", "break"]),
        dict(bin="hterm", fn="h_pipe", cases=range(10), covers=["end"]),
    ]),
    "P38": dict(bounds="one request of every kind with and without a session, 16 names for the user or the file and all names of one or three characters of which one is any ASCII character; 17 status codes with 4 bodies each, 6 bodies for successful answers, lost connections; contents of 3 arbitrary bytes.", groups=[
        dict(bin="hnet", fn="h_requests", cases=range(16), covers=["accepted", "refused", "rejected"]),
        dict(bin="hnet", fn="h_names", cases=range(16), covers=["sent"]),
        dict(bin="hnet", fn="h_commands", cases=range(4), covers=["sent"]),
        dict(bin="hnet", fn="h_address", cases=range(1), covers=["read"]),
    ]),
    "P39": dict(bounds="sequences of three operations (four with --tier thorough) out of 26 on two pins of the board and one that it does not have; one operation on any pin of boards of 1, 28, 54 and 100 pins; 12 texts for the size of transfers, arbitrary bus, device and clock, 4 modes, writes of 3 arbitrary bytes; 3 ways in which the board and the bus may fail.", groups=[
        dict(bin="hpi", fn="h_pins", cases=range(26), thorough_cases=range(100, 126), covers=["set up", "failed", "read", "written"]),
        dict(bin="hpi", fn="h_every", cases=range(16), covers=["asked"]),
        dict(bin="hpi", fn="h_program", cases=range(1), covers=["done"]),
        dict(bin="hpi", fn="h_spi", cases=range(12), covers=["opened", "failed"]),
    ]),
    "P40": dict(bounds="sequences of four operations (the third one any with --tier thorough) out of 30 on a window of 32x20 pixels with 3 pixel formats and 2 sets of colors; any key code, modifiers and repetition, characters of ASCII and of four longer encodings, three events in any order among operations; 8 frequencies and 6 durations; 16 sets of options; a failure of any call among the first ones made by an operation.", groups=[
        dict(bin="hsdl", fn="h_window", cases=range(30), thorough_cases=range(100, 130), covers=["done"]),
        dict(bin="hsdl", fn="h_events", cases=range(6), covers=["keys", "nothing"]),
        dict(bin="hsdl", fn="h_tone", cases=range(8), covers=["played"]),
        dict(bin="hsdl", fn="h_open", cases=range(16), covers=["opened", "failed"]),
        dict(bin="hsdl", fn="h_failing", cases=range(30), covers=["failed"]),
    ]),
    "P41": dict(bounds="programs of one line, four names in any case, a full storage or a failing one, three time zones; three commands in a row out of 14 on three files; eight other names in the storage in four orders; any key code with CTRL, 8 characters with any modifiers; 10 shapes at 7 positions in three colors; pixels read at 12 positions, up to four lines of colored text; four programs that do not end, at four speeds, interrupted at three points; pauses and tones of six lengths and three tones, with any one of their first three calls failing.", groups=[
        dict(bin="hweb", fn="h_session", cases=range(6), covers=["saved", "failed"]),
        dict(bin="hweb", fn="h_files", cases=range(14), covers=["done", "refused"]),
        dict(bin="hweb", fn="h_names", cases=range(4), covers=["none", "some"]),
        dict(bin="hweb", fn="h_keys", cases=range(5), covers=["keys", "nothing"]),
        dict(bin="hweb", fn="h_shapes", cases=range(10), covers=["drawn"]),
        dict(bin="hweb", fn="h_pixels", cases=range(2), covers=["seen"]),
        dict(bin="hweb", fn="h_time", cases=[0, 1, 2, 3, 4, 5, 6, 7, 9, 10], covers=["interrupted", "timed", "refused"]),
    ]),
    "P36": dict(bounds="sixteen scripts with arbitrary digits in them, read 1, 5 or 8192 bytes at a time; scripts any one of whose first 16 system calls fails in three ways; four programs that never end; lines of properties of up to four arbitrary characters, one of them not ASCII, after twelve beginnings and four first lines; specifications of consoles of seven drivers and up to two flags.", groups=[
        dict(bin="hcli", fn="h_script", cases=range(48), covers=["ended", "failed"]),
        dict(bin="hcli", fn="h_unreadable", cases=range(9), covers=["failed", "worked"]),
        dict(bin="hcli", fn="h_interrupt", cases=range(4), covers=["interrupted"]),
        dict(bin="hcli", fn="h_propline", cases=range(60), covers=["console", "nothing", "bad"]),
        dict(bin="hcli", fn="h_pins", cases=range(8), covers=["accepted", "rejected"]),
        dict(bin="hcli", fn="h_driver", cases=range(7), covers=["accepted", "rejected"]),
    ]),
    "P35": dict(bounds="two directories; sequences of three operations (four with --tier thorough) out of eight kinds with contents of up to three arbitrary bytes, 1, 2 or 4096 of which move at once; eight operations with any one of their first 12 system calls failing in four ways; all paths of up to four characters (five with --tier thorough) out of seven, in five operations.", groups=[
        dict(bin="hfs", fn="h_disk", cases=range(24), thorough_cases=range(100, 124), covers=["done"]),
        dict(bin="hfs", fn="h_disk_fail", cases=range(16), covers=["worked", "recovered", "failed"]),
        dict(bin="hfs", fn="h_disk_names", cases=range(70), thorough_cases=range(100, 170), covers=["accepted", "rejected"]),
    ]),
    "P34": dict(bounds="sequences of up to three commands (four with --tier thorough) out of 16 after four histories, with a service that refuses any subset of the requests; changes of readers of up to five characters, arbitrary ASCII ones and at most one other anywhere; up to three changes out of seven on five kinds of paths, with and without a session; passwords out of seven, up to three attempts (four with --tier thorough), all interruptions; screens of four widths.", groups=[
        dict(bin="hcloud", fn="h_session", cases=range(64), thorough_cases=range(100, 164), covers=["done"]),
        dict(bin="hcloud", fn="h_acl", cases=[n * 8 + w for n in range(6) for w in range(n + 1)], covers=["accepted", "rejected"]),
        dict(bin="hcloud", fn="h_share", cases=range(40), covers=["accepted", "rejected"]),
        dict(bin="hcloud", fn="h_signup", cases=range(14), thorough_cases=range(100, 114), covers=["sent", "dropped"]),
        dict(bin="hcloud", fn="h_motd", cases=range(4), covers=["shown"]),
    ]),
}

# Optional dependencies of the harness that some binaries need.
FEATURES = {"hcloud": "cloud", "hhw": "lcd", "hcli": "cli", "hterm": "term", "hnet": "net", "hpi": "rpi", "hsdl": "sdl", "hweb": "web"}
