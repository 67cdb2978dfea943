P("R04", "A string is exactly its bytes",
  "A string made from a literal or from a byte vec has exactly those bytes, NUL bytes and all, whatever strings the program made before, and conversion back to bytes gives them in storage of its own. "
  "Concatenation is the bytes of the left operand followed by those of the right. "
  "The comparisons ==, !=, <, <=, > and >= are those of byte sequences compared as unsigned bytes with a prefix before its extensions, and no operation reads or writes outside the operands.",
  ["inputs", "histories"], "all byte sequences up to the stated lengths, including NUL bytes, and pairs of conversions sharing the small-string pool",
  "tests use printable literals; strings that share a prefix up to a NUL byte, storage without a terminator and bytes above 127 are not tried",
  ["runtime/nutils/string.c", "runtime/nutils/string.h", "src/lower/lower.h"],
  [("small-string pool", "runtime/nutils/string.c string_new_with_pool"), ("comparisons", "runtime/nutils/string.c string_lt"), ("concatenation", "runtime/nutils/string.c string_concat")],
  ["bytes and length of the resulting string, result of a comparison"],
  "Every operation of the real string.c runs symbolically on arbitrary byte sequences whose storage has exactly their size; results are compared with byte-sequence semantics.",
  [Ob("str_new", "str.c", "h_str_new", unwind=18, bounds="length 0..3, any bytes"),
   Ob("str_pool", "str.c", "h_str_pool", unwind=18, bounds="conversions of two byte vecs of length 0..3 through the pool"),
   Ob("str_literal", "str.c", "h_str_again", unwind=18, defs={"N": 2}, bounds="a byte vec and a literal of the same length 0..2", thorough={"N": 3}),
   Ob("str_concat", "str.c", "h_str_concat", unwind=18, bounds="lengths 0..3"),
   Ob("str_compare", "str.c", "h_str_cmp", unwind=18, bounds="lengths 0..3", thorough={"N": 5}),
   ], RT + ["the pool is any finite map keyed by C string"])
