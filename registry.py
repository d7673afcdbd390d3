"""What each property's check executes. Entries are found by name in the harness: t_<id>_* in both tiers, d_<id>_*
in the thorough tier only."""

GROUPS = {
    "lang": {
        "sources": ["lib/ast", "lib/doc", "lib/format", "lib/parse", "lib/position"],
        "crates": ["ast", "doc", "format", "parse", "position"],
    },
    "ffi": {
        "sources": ["lib/ffi", "lib/ffi-macro"],
        "crates": ["pen_ffi", "pen_ffi_macro", "pen-ffi", "pen-ffi-macro"],
    },
    "pack": {
        "own": ["harness/ffi"],
        "sources": ["lib/ffi", "lib/ffi-macro"] + [f"packages/{x}/ffi" for x in
                                                   ("core", "html", "json", "prelude", "test")],
        "crates": ["pen_ffi", "pen_ffi_macro", "pen-ffi", "pen-ffi-macro", r"pack::package_\w+"],
    },
    "os": {
        "own": ["harness/ffi", "harness/pack"],
        "sources": ["lib/ffi", "lib/ffi-macro", "packages/os-sync/ffi/library"],
        "crates": ["pen_ffi", "pen_ffi_macro", "pen-ffi", "pen-ffi-macro",
                   "os::(error|file|directory|open_file_options|stdio|time|process|environment_variable|utilities|tcp|udp)"],
    },
    "aos": {
        "own": ["harness/ffi", "harness/pack", "harness/os", "harness/stubs/tokio"],
        "sources": ["lib/ffi", "lib/ffi-macro", "packages/os/ffi/library", "packages/os/ffi/application"],
        "crates": ["pen_ffi", "pen_ffi_macro", "pen-ffi", "pen-ffi-macro",
                   "aos::(error|file|directory|open_file_options|stdio|time|process|environment_variable|utilities|tcp|udp"
                   "|concurrency)"],
    },
    "far": {
        "own": ["harness/ffi", "harness/pack", "harness/os", "harness/stubs"],
        "sources": ["lib/ffi", "lib/ffi-macro", "packages/http/ffi", "packages/sql/ffi", "packages/regex/ffi",
                    "packages/random/ffi"],
        "crates": ["pen_ffi", "pen_ffi_macro", "pen-ffi", "pen-ffi-macro",
                   "far::(client|server|header_map|response|pool|error|runtime|random|regular)"],
    },
    "compiler": {
        "own": ["harness/stubs/hir", "harness/stubs/plist", "harness/stubs/petgraph"],
        "sources": ["lib/hir", "lib/position"],
        "crates": ["hir", "position"],
    },
    "front": {
        "own": ["harness/stubs/hir", "harness/stubs/plist", "harness/stubs/petgraph", "harness/stubs/ast-hir",
                "harness/stubs/interface"],
        "sources": ["lib/ast", "lib/ast-hir", "lib/hir", "lib/interface", "lib/position"],
        "crates": ["ast", "ast_hir", "hir", "interface", "position"],
    },
}

WINDOW = ("24 templates that between them use every construct of the language (at most 75 bytes each), at every place "
          "of each")

OS = ["the system's functions answer as their stand-ins in harness/os/src/system.rs and net.rs may"]

AOS = ["the system's functions answer as their stand-ins in harness/os/src/system.rs and net.rs may",
       "tokio's files, streams, sockets, timers, processes and tasks are as their stand-ins in harness/stubs/tokio; its "
       "locks, channels and helpers are the real ones"]

FAR = ["call! of lib/ffi is given closures with the type of their result, as the published version of the library, which "
       "the packages use, takes any"]

COMPILER = ["the crates plist and petgraph, which are not in the sandbox, are as their stand-ins in harness/stubs",
            "the typing rules written down in harness/compiler/src are the language's"]
FRONT = [COMPILER[0]]
BODIES = ["branches", "kinds", "if_list", "if_map", "calls", "closures", "lets", "lists", "comprehension", "side_by_side",
          "one_after_another", "maps", "operations", "errors", "records", "built_in"]

PROPERTIES = {
    "L01": {
        "groups": ["lang"],
        "bounds": f"every text of at most 3 bytes (thorough 5); {WINDOW}, any byte inserted (thorough also replaced); "
                  "every beginning of a template followed by 1 (thorough 2) arbitrary bytes",
        "covers": {"t_l01_raw": [1, 2], "t_l01_w1": [1, 2], "t_l01_cut": [1, 2]},
    },
    "L02": {
        "groups": ["lang"],
        "bounds": f"every text of at most 4 bytes; {WINDOW}, any byte inserted or replaced (thorough any two bytes "
                  "inserted); expressions of 3 (thorough 4) operands with any two operator characters between each two",
        "covers": {"t_l02_raw": [1, 2], "t_l02_w1": [1, 2], "t_l02_r1": [1, 2], "t_l02_operators": [1, 2]},
        "assumptions": ["the grammar written down in harness/lang/src/reference.rs is the language's"],
    },
    "L03": {
        "groups": ["lang"],
        "bounds": "15 modules that between them use every construct, at every place between two tokens, every "
                  "sequence of 1 (thorough 3) bytes of blanks and comments, and a comment of any character ended by "
                  "any line break",
    },
    "L04": {
        "groups": ["lang"],
        "bounds": "as an expression any 3 bytes; as a declared name any 4 (thorough 7) lower case letters; as a number "
                  "any 4 (thorough 5) characters that numbers are made of; as a string any 4 (thorough 5) bytes",
        "covers": {"t_l04_name": [1, 2], "t_l04_word": [1, 2], "t_l04_number": [1, 2], "t_l04_string": [1, 2]},
        "assumptions": ["the lexical grammar written down in harness/lang/src/reference.rs is the language's"],
    },
    "L05": {
        "groups": ["lang"],
        "bounds": "every text of at most 4 (thorough 6) bytes; 4 sources that mix comments, strings and code, any 1 or "
                  "2 (thorough 3) bytes inserted at every place",
        "covers": {"t_l05_raw": [1, 2], "t_l05_w1": [1, 2], "t_l05_w2": [1, 2]},
    },
    "L06": {
        "groups": ["lang"],
        "bounds": f"{WINDOW}, any byte inserted (thorough: replaced; two line breaks or comments inserted at any two "
                  "places; any text of 4 bytes); 12 (thorough 13) sources with 2 to 4 arbitrary bytes around "
                  "parentheses that formatting may or may not drop; 2 lists of imports with 3 arbitrary bytes in names; "
                  "19 modules with any two spaces or line breaks, or comments of any character, between two tokens (thorough: between any "
                  "two pairs of tokens)",
    },
    "L07": {
        "groups": ["lang"],
        "bounds": f"{WINDOW}, any byte inserted (thorough: line breaks at any two places); 12 (thorough 13) sources "
                  "with 2 to 4 arbitrary bytes around parentheses, without comments; 2 lists of imports with 3 arbitrary "
                  "bytes in names; 19 modules with any two spaces or line breaks between two tokens "
                  "(thorough: between any two pairs of tokens)",
    },
    "L08": {
        "groups": ["lang"],
        "bounds": f"{WINDOW}, any byte inserted, and a comment of 1 (thorough 2) arbitrary bytes inserted (thorough: "
                  "at any two places a line break or a comment); 19 modules with two comments of any character between two tokens "
                  "(thorough: between any two pairs of tokens)",
        "assumptions": ["comments joined on one line by formatting count as kept: compared is their text without "
                        "spaces and comment signs"],
    },
    "L09": {
        "groups": ["lang"],
        "bounds": "modules of one or two declarations with names of any 1 or 2 letters, digits and underscores (a "
                  "function name of any 3 bytes); records of two fields with such names; paths of at most two such "
                  "components, internal and external; two private names out of four",
    },
    "L10": {
        "groups": ["lang"],
        "bounds": "every arrangement of 4 (thorough 6) lines out of blank, comment of any printable character, "
                  "declaration, declaration with a comment after it; comments of any 2 bytes; types, signatures and "
                  "records with 3 to 4 arbitrary bytes; every arrangement of 3 lines of comments of two indentations "
                  "and blanks before each kind of first declaration",
    },
    "L11": {
        "groups": ["lang"],
        "bounds": "line numbers below 65536; column numbers up to 120 (thorough 255); paths of any 2 bytes, line "
                  "texts and messages of any 3 bytes",
    },
    "L12": {
        "groups": ["lang"],
        "bounds": f"{WINDOW}, any byte inserted, or any two of space, tab, carriage return and line feed (thorough: "
                  "any two bytes; line breaks at any two places)",
        "covers": {"t_l12_w1": [1, 2], "t_l12_lines": [1, 2]},
    },
    "F01": {
        "groups": ["ffi"],
        "bounds": "one operation on a value with any 64-bit count; every sequence of 4 (thorough 7) operations on up to "
                  "3 references to 2 values; payloads of 7 types; buffers of at most 4 (thorough 20) bytes",
        "covers": {"t_f01_drop": [1, 2], "t_f01_get_mut": [1, 2], "t_f01_clone": [], "t_f01_aligned": [],
                   "t_f01_payloads": []},
        "assumptions": ["a count does not go beyond 63 bits (adding one to the largest is excluded)",
                        "deallocation with another layout than that of the allocation is by design (the C allocator)"],
    },
    "F02": {
        "groups": ["ffi"],
        "bounds": "2 threads with every interleaving of 4 jobs each; 3 threads with 3 jobs each and at most 3 "
                  "preemptions (thorough 4 jobs, 5 preemptions); any number of references held elsewhere",
        "entry_options": {"t_f02_three": ["--preempt", "3"], "d_f02_three": ["--preempt", "5"]},
        "covers": {"t_f02_two": [1, 2, 3], "t_f02_three": [1, 2, 3]},
        "assumptions": ["sequentially consistent values; what relaxed orders would allow beyond is found as a data race "
                        "of the accesses they should order (vector clocks)"],
    },
    "F03": {
        "groups": ["ffi"],
        "bounds": "contents of at most 6 (thorough 40) bytes; two strings of at most 4 (thorough 10) bytes; texts of 3 "
                  "(thorough 6) bytes; every character",
        "covers": {"t_f03_equality": [1, 2]},
    },
    "F04": {
        "groups": ["ffi"],
        "bounds": "5 types (boxed, inline of one or several fields, empty, with and without destructor), every 64-bit "
                  "payload, every pair of types",
        "covers": {"t_f04_types": [1, 2]},
    },
    "F05": {
        "groups": ["ffi"],
        "bounds": "every entry function and payload, every sequence of 4 (thorough 8) clones, retypings and drops",
    },
    "F06": {
        "groups": ["ffi"],
        "bounds": "every sequence of 4 (thorough 6) pushes and pops of values of 5 (thorough 7) types on stacks of 4 "
                  "capacities and 0; 20 (thorough 200) values on capacities 1 to 64",
    },
    "F07": {
        "groups": ["ffi"],
        "bounds": "every sequence of 5 (thorough 7) calls",
        "covers": {"t_f07_protocol": [1, 2, 3]},
    },
    "F08": {
        "groups": ["ffi"],
        "bounds": "at most 4 (thorough 30) waits; every 64-bit argument and result; strings of at most 3 bytes",
        "covers": {"t_f08_to_closure": [1, 2], "t_f08_bindgen_fallible": [1, 2],
                   "t_f08_bindgen_async_fallible": [1, 2]},
        "assumptions": ["the functions compiled code provides are as their stand-ins in harness/ffi/src/builtin.rs",
                        "a suspended call runs to its end: what is dropped halfway leaks and is not covered"],
    },
    "F09": {
        "groups": ["ffi"],
        "bounds": "7 types, every 64-bit payload, lists of at most 3 (thorough 12) elements, at most 2 waits",
        "covers": {"t_f09_builtin": [1, 2]},
        "assumptions": ["the functions compiled code provides are as their stand-ins in harness/ffi/src/builtin.rs"],
    },
    "K01": {
        "groups": ["pack"],
        "bounds": "strings of at most 4 (thorough 9) bytes, prefixes of at most 4; every number as a position for being "
                  "a part of the string, whole positions from -128 to 127 and infinite ones for being the right part; "
                  "every view of a string of at most 4 (thorough 7) bytes",
        "covers": {"t_k01_whole": [1, 2], "t_k01_starts": [1, 2], "t_k01_view": [1, 2], "t_k01_slice": []},
        "assumptions": ["views are made by the functions of String'Byte'View from positions in the string"],
    },
    "K02": {
        "groups": ["pack"],
        "bounds": "strings of at most 4 (searching, splitting and replacing 3; thorough 4 to 6) bytes, patterns of "
                  "at most 2 or 3 (thorough 4) that are not empty where parts are made; whole positions from -128 "
                  "to 127 and infinite ones, every number for strings of 2 bytes; cases of letters of ASCII and of "
                  "bytes that are no text (thorough: of all texts of 2 bytes, for being texts)",
        "covers": {"t_k02_length": [1, 2], "t_k02_slice": [1, 2], "t_k02_searching": [1, 2], "t_k02_ends": [1, 2], "t_k02_split": [1, 2], "t_k02_replace": [1, 2], "t_k02_trim": [1, 2], "t_k02_trim_matches": [1, 2], "t_k02_cases": [1, 2]},
    },
    "K03": {
        "groups": ["pack"],
        "bounds": "3 strings of at most 2 bytes and separators of at most 2 (thorough 5 strings of at most 3); 20 "
                  "(thorough 100) strings of one byte",
    },
    "K04": {
        "groups": ["pack"],
        "bounds": "all numbers, pairs of 64-bit integers, counts of 16 bits, code points of 32 bits; strings of at "
                  "most 5 bytes; fractions of numbers of 16ths below 256 for their value",
        "covers": {"t_k04_shift": [1, 2], "t_k04_integer": [1, 2], "t_k04_rounding": [1, 2], "t_k04_fraction": [1, 2, 3], "t_k04_from_code": [1, 2], "t_k04_to_code": [1, 2]},
    },
    "K05": {
        "groups": ["pack"],
        "bounds": "strings of at most 4 (thorough 12) bytes; all pairs of hashes, layers 1 to 3 for parting and "
                  "all numbers as layers for the range, levels 1 to 13",
        "covers": {"t_k05_equal": [1, 2]},
    },
    "K06": {
        "groups": ["pack"],
        "bounds": "strings of at most 4 (thorough 7) bytes",
        "covers": {"t_k06_encode": [1, 2]},
    },
    "K07": {
        "groups": ["pack"],
        "bounds": "texts of at most 3 (thorough 4) bytes; whole numbers and quarters of numbers from -128 to 127 "
                  "(thorough also whole numbers to 255 and 16ths of them)",
        "covers": {"t_k07_raw": [1, 2]},
    },
    "K08": {
        "groups": ["pack"],
        "bounds": "4 (thorough 7) operations; two threads of one operation each, every schedule",
    },
    "O01": {
        "groups": ["os"],
        "bounds": "files of at most 5 (limits and writing 6; thorough 8 and 14) bytes; every way of the system to "
                  "answer with some of the bytes, one interruption, and failures at any call; two threads that read "
                  "a file, every schedule of at most 4 (thorough 6) preemptions",
        "covers": {"t_o01_read": [1, 2], "t_o01_limit": [1, 2], "t_o01_write": [1, 2], "t_o01_open": [1, 2],
                   "t_o01_shared": [1, 2]},
        "entry_options": {"t_o01_shared": ["--preempt", "4"], "d_o01_shared": ["--preempt", "6"]},
        "assumptions": OS,
    },
    "O02": {
        "groups": ["os"],
        "bounds": "paths of at most 4 (thorough 6) bytes, two of at most 3 (thorough 4); directories of at most 2 "
                  "names of at most 2 bytes; files of at most 2 bytes that are copied; failures at any call",
        "covers": {"t_o02_one": [1, 2], "t_o02_two": [1, 2], "t_o02_directory": [1, 2]},
        "assumptions": OS,
    },
    "O03": {
        "groups": ["os"],
        "bounds": "4 bytes of input and output and 6 of errors (thorough 7, 6 and 6) in 2 calls, one interruption; "
                  "names and values of variables of at most 2 (thorough 3) bytes; 7 milliseconds of every second of "
                  "32 bits with every part of them; 12 times to sleep, interrupted once after any number of them; "
                  "status codes of 8 bits",
        "covers": {"t_o03_stderr": [1, 2], "t_o03_sleep": [1, 2, 3], "t_o03_variable": [1, 2]},
        "assumptions": OS,
    },
    "O04": {
        "groups": ["os"],
        "bounds": "addresses d.dd.3.4:5dd of every digits, and every text of at most 4 (thorough 5) bytes; hosts of "
                  "one or two addresses; 3 (thorough 6) bytes each way in 2 calls, datagrams of at most 8 bytes, and sent ones of 512 more; "
                  "one interruption, failures at any call",
        "covers": {"t_o04_listener": [1, 2], "t_o04_connection": [1, 2], "t_o04_socket": [1, 2],
                   "t_o04_names": [1, 2, 3], "t_o04_stream": [1, 2], "t_o04_packet": [1, 2, 3]},
        "assumptions": OS,
    },
    "O05": {
        "groups": ["aos"],
        "bounds": "files of at most 5 bytes (limits 6, writing 4; thorough 8, 14 and 6); every way of the system to "
                  "answer with some of the bytes, one interruption, failures at any call, and one wait in each call "
                  "at any point; two tasks that read a file with at most 2 waits and any order of polls with 2 switches",
        "covers": {"t_o05_read": [1, 2], "t_o05_limit": [1, 2], "t_o05_write": [1, 2], "t_o05_open": [1, 2],
                   "t_o05_shared": [1, 2]},
        "assumptions": AOS,
    },
    "O06": {
        "groups": ["aos"],
        "bounds": "paths of at most 4 (thorough 6) bytes, two of at most 3 (thorough 4); directories of at most 2 "
                  "names of at most 2 bytes; files of at most 2 bytes that are copied; failures at any call, one wait "
                  "in each call at any point",
        "covers": {"t_o06_one": [1, 2], "t_o06_two": [1, 2], "t_o06_directory": [1, 2]},
        "assumptions": AOS,
    },
    "O07": {
        "groups": ["aos"],
        "bounds": "4 bytes of input, output and errors (thorough 7, 5 and 4) in 2 calls, one interruption, one wait in "
                  "each call; two tasks that read or write with at most 2 waits and 2 switches; names and values of "
                  "variables of at most 2 (thorough 3) bytes; commands and at most 2 arguments of at most 2 bytes; "
                  "7 milliseconds of every second of 32 bits with every part of them; 12 times to sleep; status codes "
                  "of 8 bits",
        "covers": {"t_o07_stderr": [1, 2], "t_o07_variable": [1, 2], "t_o07_shared": [1, 2], "t_o07_written": [1, 2],
                   "t_o07_command": [1, 2]},
        "assumptions": AOS,
    },
    "O08": {
        "groups": ["aos"],
        "bounds": "addresses d.dd.3.4:5dd of every digits, and every text of at most 4 (thorough 5) bytes; hosts of "
                  "one or two addresses; 2 (thorough 3) bytes each way in 2 calls, datagrams of at most 8 bytes, and sent ones of 512 more; "
                  "one interruption, failures at any call, one wait in each call at any point",
        "covers": {"t_o08_listener": [1, 2], "t_o08_connection": [1, 2], "t_o08_socket": [1, 2],
                   "t_o08_names": [1, 2, 3], "t_o08_stream": [1, 2], "t_o08_packet": [1, 2, 3]},
        "assumptions": AOS,
    },
    "O09": {
        "groups": ["aos"],
        "bounds": "2 (thorough 3) spawned closures of at most 2 waits; 2 lists of 3 and 3 of 2 (thorough 4 and 3) "
                  "elements at most, one of 4, given up after any element, one of them stuck; any order of polls with "
                  "at most 4 (thorough 6) switches",
        "covers": {"t_o09_spawn": [1, 2], "t_o09_race": [1, 2], "t_o09_many": [1, 2], "t_o09_part": [1, 2],
                   "t_o09_stuck": [1, 2]},
        "assumptions": AOS[1:],
    },
    "W01": {
        "groups": ["far"],
        "bounds": "every method of at most 3 (thorough 5) bytes, address of at most 3 (thorough 5) bytes, path of at most "
                  "3 (thorough 5), body of at most 2; 2 headers, one with a name and a value of at most 2 (thorough 3) "
                  "bytes; responses of every status, 2 headers with values of at most 2 bytes and a body of at most 3 "
                  "(thorough 5) bytes in any 3 parts, broken or lost; at most 2 waits at any points",
        "covers": {"t_w01_method": [1, 2], "t_w01_path": [1, 2], "t_w01_headers": [1, 2], "t_w01_response": [1, 2]},
        "assumptions": FAR + ["hyper's connections are as their stand-in in harness/stubs/hyper; its messages, names of "
                              "headers, addresses and statuses (the crate http) are the real ones"],
    },
    "W02": {
        "groups": ["far"],
        "bounds": "addresses 1.2.d.d:dd and every text of at most 4 (thorough 5) bytes; requests of every method of 2 "
                  "letters, 2 headers with values of at most 2 bytes and a body of at most 3 (thorough 6) bytes in any "
                  "3 parts; responses of every status up to 65535, 2 headers, one with a name and a value of at most 2 "
                  "bytes, and a body of at most 3 bytes; 2 (thorough 3) connections of 2 requests in any order of polls "
                  "with at most 3 (thorough 4) switches",
        "covers": {"t_w02_address": [1, 2], "t_w02_request": [1, 2], "t_w02_response": [1, 2],
                   "t_w02_headers": [1, 2]},
        "assumptions": FAR + ["hyper's connections are as their stand-in in harness/stubs/hyper; its messages, names of "
                              "headers, addresses and statuses (the crate http) are the real ones"],
    },
    "W03": {
        "groups": ["far"],
        "bounds": "every address and text of at most 4 (thorough 6) bytes; options of every whole number below 2^32; 2 "
                  "(thorough 3) arguments of any kind, texts of at most 2 (thorough 3) bytes; 1 row of 2 columns and 2 "
                  "of 1 (thorough 2 of 2) of every type and value (texts of 2 ASCII characters, no undefined 32-bit "
                  "numbers); a failure at any answer, 2 waits at any points; 2 futures and another task with any order "
                  "of polls",
        "covers": {"t_w03_create": [1, 2], "t_w03_text": [1, 2], "t_w03_arguments": [1, 2], "t_w03_row": [1, 2],
                   "t_w03_rows": [1, 2]},
        "assumptions": FAR + ["the pool of sqlx is as its stand-in in harness/stubs/sqlx; its queries, arguments, rows "
                              "and conversions (the crate sqlx-core) are the real ones"],
    },
    "W04": {
        "groups": ["far"],
        "bounds": "every pattern and string of at most 4 (thorough 6 and 5) bytes; no match, or any 2 (thorough 3) groups",
        "covers": {"t_w04_pattern": [1, 2], "t_w04_groups": [1, 2]},
        "assumptions": FAR + ["an expression finds what its stand-in in harness/stubs/regex does: anything"],
    },
    "W05": {
        "groups": ["far"],
        "bounds": "every word of 64 bits that the generator draws",
        "covers": {"t_w05_number": [1, 2]},
        "assumptions": ["the generator draws any words; the distribution (the crate rand) is the real one"],
    },
    "T01": {
        "groups": ["compiler"],
        "bounds": "any two types of one leaf out of 10 (any, boolean, error, none, number, string, a record of any name, 3 "
                  "aliases, one of them of an alias and any); unions of 3 and 2 members out of 4 (thorough 5), nested either way; "
                  "lists, maps, functions of 1 and 2 arguments, lists of lists and unions with lists, over 4 (thorough 5)",
        "covers": {"t_t01_plain": [1, 2, 3], "t_t01_union": [1, 2, 3], "t_t01_nested": [1, 2, 3],
                   "t_t01_difference_plain": [1, 2], "t_t01_difference_union": [1, 2], "t_t01_difference_nested": [1, 2]},
        "assumptions": COMPILER,
    },
    "T02": {
        "groups": ["compiler"],
        "bounds": "identifiers: the pairs of types of T01; comparability: 3 records with fields of any of 6 (thorough 8) types "
                  "that have each other, lists, maps, aliases, unions, errors and functions in them, and types over these",
        "covers": {"t_t02_id_plain": [1, 2], "t_t02_id_union": [1, 2], "t_t02_id_nested": [1, 2], "t_t02_comparable": [1, 2]},
        "assumptions": COMPILER,
    },
    "T03": {
        "groups": ["compiler"],
        "bounds": "3 aliases and a record that are any of 8 (thorough 10) types of each other and of a name there is not; 2 "
                  "records of 2 fields of 6 (thorough 7) types and an alias between them; 2 records with a field of 7 types, 5 "
                  "of them unions; 3 names of types out of 4 and 2 of functions out of 2; a record and an alias, public "
                  "or not, of this module or another, named in 6 types",
        "covers": {e: [1, 2] for e in ("t_t03_types", "t_t03_records", "t_t03_unions", "t_t03_names", "t_t03_visible")},
        "assumptions": COMPILER,
    },
    "T04": {
        "groups": ["compiler"],
        "bounds": "functions of at most 2 parameters of any of up to 8 types, a result of any of up to 6, and a body of one "
                  "of: branches by condition, type (2 branches and another; thorough one type more), list or map; calls of "
                  "parameters, functions and lambdas; lambdas; definitions; lists and maps of 2 elements, spread or not; "
                  "comprehensions of one list, two side by side, two after another, with a condition; each operation; "
                  "propagated errors within each of these; records made, updated and taken apart; each built-in function "
                  "with at most 3 arguments; in their places parameters, numbers, none, each other",
        "covers": {f"t_t04_{e}": [1, 2] for e in BODIES},
        "assumptions": COMPILER,
    },
    "T05": {
        "groups": ["compiler"],
        "bounds": "the functions of T04 that are accepted; every argument and result of other functions: any number, a "
                  "text of 1 byte, lists and maps of at most 1 element",
        "covers": {f"t_t05_{e}": [1, 2] for e in BODIES},
        "assumptions": COMPILER + ["values are evaluated as harness/compiler/src/run.rs does, from what analysis made of the "
                                   "function"],
    },
    "N01": {
        "groups": ["front"],
        "bounds": "strings of 3 (thorough 4) pieces, each any ASCII character, escape or byte in digits of either case; "
                  "binary numbers of 5 digits, hexadecimal ones of 3 and ones of 16 and 17 with any first and last digit; "
                  "decimal numbers of 3 digits with a point at any place",
        "covers": {"t_n01_long": [1, 2]},
        "assumptions": FRONT,
    },
    "N02": {
        "groups": ["front"],
        "bounds": "a module that may have a function and a type of the same names as ones that it imports from a module, "
                  "with its prefix given or not, and as what is built in; each expression that binds names, with any of 4 "
                  "names, and 3 variables of 5 names in and around it; 7 names of types at every place that they have; 2 "
                  "imported modules, there or not, with a record and an alias of the same module that each is public in one of "
                  "them, and any of 4 names imported",
        "covers": {"t_n02_imports": [1, 2]},
        "assumptions": FRONT,
    },
}
