prop("H01", "The whiteboard returns the last value put, under its declared permissions",
 "A whiteboard is a map from case-insensitive names to typed scalars or arrays: a get with the type and rank of a key returns the value last put and its dimension, one with another type, size or rank, or of a key never set, is refused and writes nothing; a put is refused when the key is fixed (from its first value, once locked, or after a restart, as declared), when the value does not fit, or when type or rank differ, and never changes any other key; locking, listing and describing keys agree with the declarations; a checkpoint and restart brings back every key, and a damaged checkpoint is refused.",
 ["histories", "inputs"], "all histories of puts, creations, locks and restarts up to a depth with every declared type, size and permission; all string lengths and dimensions around the storage units; all cuts of a checkpoint file",
 "no test in the suite uses the whiteboard",
 ["src/whiteboard/WhiteBoard_c.c", "src/whiteboard/WhiteBoard.h"],
 [("put and its permissions", "src/whiteboard/WhiteBoard_c.c:c_wb_put"), ("get", "src/whiteboard/WhiteBoard_c.c:c_wb_get"), ("pages and lines", "src/whiteboard/WhiteBoard_c.c:new_line, lookup_line"), ("checkpoint and restart", "src/whiteboard/WhiteBoard_c.c:c_wb_checkpoint, c_wb_reload"), ("locks and lists", "src/whiteboard/WhiteBoard_c.c:c_wb_check, c_wb_lock")],
 src=["checks/wboard.cc"], variant="asan", level="model-checked", tech="exhaustive enumeration of operation histories on the real code (address-sanitised) against a reference map of keys",
 note="a sentinel key follows every key, so that writing past a key is seen; the option WB_REWRITE_AT_RESTART has no storage in the file format and is not covered",
 rule="a state is a distinct set of declared keys with their flags; an evaluation is one call compared",
 bound={"quick": "histories of 2 over about 370 operations, of 3 over about 45", "thorough": "histories of 4 over about 45; up to 200 keys"})

prop("H02", "A directive file defines and sets in the whiteboard exactly what it says",
 "Reading a section of a directive file in a whiteboard interprets the directives of that section only (the one of exactly that name), in order: a key that is defined gets its type, length, dimension and options (its own, otherwise the default ones of the section) and exists once; a key that is set must exist, gets the values written, converted to its type, and can be set once per file; without permission to define, or in strict mode, only what is permitted is done. Directives that are wrong (syntax, type, unknown key or option, too many values, text too long, name too long) are refused, reported by the returned status, leave the other keys and the following directives as they are, and a value not completely set is not returned. Blanks, comments, case, separators, continuation, length of lines and the end of the file do not change the meaning.",
 ["inputs", "histories"], "all sequences of up to three (four) directives out of thirty-six in up to thirty layouts, and two files in succession in the three modes",
 "no existing test reads directive files",
 ["src/whiteboard/WhiteBoard_c.c"],
 [("tokens and lines", "src/whiteboard/WhiteBoard_c.c:wb_get_token, wb_get_line"), ("definitions", "src/whiteboard/WhiteBoard_c.c:wb_define"), ("values", "src/whiteboard/WhiteBoard_c.c:wb_key"), ("sections and modes", "src/whiteboard/WhiteBoard_c.c:c_wb_read")],
 src=["checks/wbfile.cc"], tech="exhaustive enumeration of sequences of directives and of pairs of files on the real code, against a reference interpreter of directives",
 note="directives from a fixed table; comments on their own lines; elements of an array that no directive sets are not compared",
 rule="an evaluation is one status, description or value compared; distinct by values and options of the keys",
 bound={"quick": "sequences of up to 3 of 36 directives (48 000), 30 layouts up to length 2; about 400 000 pairs of files", "thorough": "sequences of up to 4 directives (1.7 M); all pairs of files of up to 2 directives (5.3 M)"})
