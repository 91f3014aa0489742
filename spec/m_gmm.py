prop("M01", "The memory manager keeps every named array until it is deleted",
 "GMM keeps named arrays of 20 types and ranks. Whatever the sequence of creations (with or without an array of the caller, flags or a first value), deletions, renamings, rotations of a list of names, changes of metadata and restarts: a variable is found under its name and no other, with the very array, bounds, contents and metadata it was given; the number of variables and the lists of names (all, or with a prefix) are those of the variables that exist; a variable is never given as an array of another type or rank; an operation that must be refused returns its error and changes nothing. A restart file gives back exactly the variables marked for it, and a cut one never gives wrong contents. Creating and deleting can go on for ever.",
 ["histories", "crash points", "inputs"], "every sequence of operations over small alphabets, every type, rank, flag and directory position around the page boundaries, every cut of a restart file",
 "the shipped test creates a few variables, gets them and writes one restart file; refusals, wrong types, deletions, rotations with gaps and page boundaries are not reached",
 ["src/gmm/rmn_gmm_mod.F90"], [("memory manager", "src/gmm/rmn_gmm_mod.F90"), ("creation", "src/gmm/gmm_create.tmpl90"), ("access", "src/gmm/gmm_get.tmpl90"), ("restart file", "src/gmm/gmm_checkpoint.tmpl90")],
 src=["checks/gmmw.F90", "checks/gmm.cc"], level="model-checked", tech="stateless exploration of every operation sequence up to a depth on the real code, one process per segment between restarts, against a reference model compared after every operation",
 note="33 operations to depth 3 (quick) or 4 (thorough), 8 operations to depth 5 or 6; 20 types x 16 flags x 3 kinds of array x bounds; 127 to 2048 variables; every byte of a restart file as the cut",
 rule="a state is the set of variables of the model with their types, layouts and flags; a transition is one call of the real library; an evaluation is one comparison of a variable or a list of names",
 bound={"quick": "depth 3 over 33 operations, depth 5 over 8", "thorough": "depth 4 over 33 operations, depth 6 over 8"})
