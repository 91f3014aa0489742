prop("S01", "Serializer jars give back exactly what was put in, and never overflow",
 "A jar is a container of 64-bit elements with a capacity, an insertion point and an extraction point. Whatever the sequence of creation, shaping over an existing array, insertion (objects or strings of any size, at the insertion point or at a position), extraction, reset and release: the sizes, positions and contents reported are those of that model; what was inserted is extracted byte for byte; a skipped portion is filled with zeros; an operation that does not fit, has an invalid position or concerns a jar without container is refused and changes nothing; memory outside the object and the container is neither read nor written; a jar frees its container only if it owns it.",
 ["histories"], "every state of the model up to a capacity, and every operation (object sizes, positions) in each of them",
 "the shipped tests put and get a few objects in order; positions, partial elements and refusals are not reached",
 ["src/serializer/jar_mod.F90"], [("jar", "src/serializer/jar_mod.F90")],
 src=["checks/jar.cc", "checks/jarw.F90"], variant="asan", level="model-checked", tech="explicit-state exploration: breadth-first over the states of a reference model, every operation replayed on the real code (address sanitizer) from every reachable state",
 note="all states of jars of capacity up to 4 (quick) or 6 (thorough), about 280 operations in each; thorough also applies every second operation after each first one",
 rule="a state is (container, owner, capacity, insertion point, extraction point); a transition is one operation on the real jar; an evaluation is one comparison of everything observable",
 bound={"quick": "capacity 4, one operation from every state", "thorough": "capacity 6, every two operations from every state"})
