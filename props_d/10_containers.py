RT = ["heap = fresh zeroed memory; an allocation never fails", "the garbage collector does not run during the operation (M0x properties cover it)"]

P("R01", "A vec behaves as a list under every operation",
  "After any sequence of create, push, append, concat, copy and slice operations a vec holds exactly the elements, in order, that the same operations give on a mathematical list, and its length says so. "
  "Element reads and writes with an index in range affect exactly that element; an out-of-range index or slice bound raises an error and changes nothing. "
  "No operation reads or writes memory outside the vec's own storage.",
  ["inputs", "histories"], "all vec contents, lengths, spare capacities, operation arguments and indices (within the bounds of the obligations)",
  "tests push and index a few literal vecs; growth boundaries, self-append, overlapping slices and 64-bit indices are not enumerable",
  ["runtime/nutils/vec.c", "runtime/nutils/vec.h"],
  [("grow/append/concat/slice", "runtime/nutils/vec.c"), ("bounds checks", "runtime/nutils/vec.c rt_vec_access")],
  ["vec elements and length after each operation", "error raised or not"],
  "One operation from an arbitrary vec (any contents, length and capacity within the bound) is executed symbolically on the real vec.c and compared with list semantics; every access is checked against the bounds of the storage.",
  [Ob("vec_step", "vec.c", "h_vec_step", unwind=50, defs={"ES": 3}, bounds="element size 3, length 0..3, capacity = length or more, one push/assign/access/length operation, any 64-bit index", thorough={"N": 4}),
   Ob("vec_create", "vec.c", "h_vec_create", unwind=50, defs={"ES": 3}, bounds="element size 3, length 0..3"),
   Ob("vec_create_wide", "vec.c", "h_vec_create", unwind=50, defs={"ES": 9}, bounds="element size 9 (wider than a word), length 0..3"),
   Ob("vec_create_neg", "vec.c", "h_vec_create_neg", unwind=50, defs={"ES": 3}, bounds="any negative length or capacity"),
   Ob("vec_append", "vec.c", "h_vec_append", unwind=50, defs={"ES": 3}, bounds="lengths 0..3"),
   Ob("vec_append_self", "vec.c", "h_vec_append_self", unwind=50, defs={"ES": 3}, bounds="length 0..3"),
   Ob("vec_concat", "vec.c", "h_vec_concat", unwind=50, defs={"ES": 3}, bounds="lengths 0..3"),
   Ob("vec_copy", "vec.c", "h_vec_copy", unwind=50, defs={"ES": 3}, bounds="lengths 0..3"),
   Ob("vec_slice", "vec.c", "h_vec_slice", unwind=50, defs={"ES": 3}, bounds="length 0..3, all legal bounds"),
   Ob("vec_slice_illegal", "vec.c", "h_vec_slice_illegal", unwind=50, defs={"ES": 3}, bounds="length 0..3, any illegal 64-bit bounds"),
   ], RT)

MC = "one operation from an arbitrary well-formed table; "
P("R02", "A map behaves as a finite map, whatever was inserted and deleted before",
  "Reading a key of a map yields the value most recently stored under an equal key and not deleted since; reading an absent key raises an error, and membership and len agree with that. "
  "This holds after any history of insertions, overwrites and deletions, including ones that fill the table with deleted entries or make it grow. "
  "Two keys are the same key exactly when they are equal as values (strings by all their bytes, structs and arrays by their fields and elements).",
  ["inputs", "histories"], "all well-formed map states reachable by any history at the stated capacities, all keys (hence all collision patterns of the real hash function) and values",
  "tests use a handful of keys without collisions among deleted slots; the failing histories need specific hash collisions, tombstones and growth points",
  ["runtime/nutils/map.c", "runtime/nutils/hash.h", "runtime/nutils/map.h"],
  [("open addressing with deleted marks", "runtime/nutils/hash.h find_hash_slot"), ("rehash on growth", "runtime/nutils/map.c map_grow"), ("move-last-on-delete", "runtime/nutils/map.c rt_map_delete")],
  ["value read, error raised, membership, len"],
  "Inductive step: the solver picks any well-formed table (slots empty/deleted/live, any keys and values), the real operation runs symbolically, and the result must equal the finite-map operation and be well-formed again; well-formedness of a new map is the base case.",
  [Ob("map_lookup", "map.c", "h_map_lookup", unwind=10, bounds=MC + "capacity 4, 0..3 entries, 1-byte keys", thorough={"C": 8, "timeout": 850}),
   Ob("map_assign", "map.c", "h_map_assign", unwind=10, bounds=MC + "capacity 4, 0..2 entries, no growth"),
   Ob("map_assign_grow", "map.c", "h_map_assign_grow", unwind=6, defs={"C": 2}, bounds=MC + "capacity 2, 1 entry, growth to 4"),
   Ob("map_delete", "map.c", "h_map_delete", unwind=10, bounds=MC + "capacity 4, 0..3 entries"),
   Ob("map_new", "map.c", "h_map_new", unwind=10, bounds="new map, capacity 4"),
   Ob("map_zero", "map.c", "h_map_zero", unwind=9, bounds="zero-initialised map, first assignment"),
   Ob("key_struct", "map.c", "h_keys_struct", unwind=9, defs={"KEYHASH": 1}, bounds="struct {u8;u16} keys with arbitrary padding"),
   Ob("key_array", "map.c", "h_keys_array", unwind=9, defs={"KEYHASH": 1}, bounds="[u16;2] keys"),
   Ob("key_int", "map.c", "h_keys_int", unwind=9, defs={"KEYHASH": 1}, bounds="64-bit integer keys"),
   Ob("key_string22", "map.c", "h_keys_string22", unwind=9, defs={"KEYHASH": 1}, bounds="strings of 2 arbitrary bytes (NUL included)"),
   Ob("key_string12", "map.c", "h_keys_string12", unwind=9, defs={"KEYHASH": 1}, bounds="strings of 1 and 2 arbitrary bytes"),
   Ob("key_string01", "map.c", "h_keys_string01", unwind=9, defs={"KEYHASH": 1}, bounds="empty string and 1 arbitrary byte"),
   Ob("hash_data", "map.c", "h_hash_data", unwind=9, bounds="3 arbitrary bytes"),
   ], RT + ["key-identity obligations use a cheap stand-in for the hash function; all table obligations use the real one"])

P("R03", "A set holds exactly the elements added and not deleted",
  "An element is contained in a set exactly when an equal element was added and not deleted since, whatever was added and deleted in between. "
  "Deleting one element leaves every other element in the set.",
  ["inputs", "histories"], "all well-formed set states at the stated capacities, all elements",
  "same as for maps: tombstones, collisions and growth points",
  ["runtime/nutils/set.c", "runtime/nutils/hash.h"],
  [("add/contains/delete", "runtime/nutils/set.c"), ("slot search", "runtime/nutils/hash.h find_hash_slot")],
  ["membership of any element, length"],
  "Inductive step as for maps, on the real set.c.",
  [Ob("set_lookup", "map.c", "h_set_lookup", unwind=10, bounds=MC + "capacity 4, 0..3 elements of 1 byte"),
   Ob("set_add", "map.c", "h_set_add", unwind=10, bounds=MC + "capacity 4, 0..2 elements"),
   Ob("set_add_grow", "map.c", "h_set_add_grow", unwind=9, bounds=MC + "capacity 4, 3 elements, growth to 8"),
   Ob("set_delete", "map.c", "h_set_delete", unwind=10, bounds=MC + "capacity 4, 0..3 elements"),
   Ob("set_new", "map.c", "h_set_new", unwind=9, bounds="new and zero-initialised set"),
   Ob("elem_string22", "map.c", "h_keys_string22s", unwind=9, defs={"KEYHASH": 1}, bounds="strings of 2 arbitrary bytes (NUL included)"),
   Ob("elem_struct", "map.c", "h_keys_struct", unwind=9, defs={"KEYHASH": 1}, bounds="struct {u8;u16} elements with arbitrary padding"),
   ], RT)
