import json
P=[]
def p(id,title,st,over,qt,why,files,state,mech,obs,hook=None):
    assert len(title)<=80,title
    P.append(dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=qt),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=obs,hook_needed=hook)))
OPS="src/bv/ops.rs";AR="src/bv/arithmetic.rs";OW="src/bv/owned.rs";BO="src/bv/borrowed.rs";IX="src/bv/indexed.rs";ST="src/bv/io/strings.rs";BY="src/bv/io/bytes.rs";BI="src/bv/io/bigint.rs";AO="src/array/owned.rs";AOP="src/array/ops.rs"
W=("words","little-endian 64-bit words holding the bits; bits at or above the width are zero",OW)
p("C01","Every bit-vector produced is in canonical form",
 "Whatever sequence of public operations produced it (construction, parsing, arithmetic, shifting, slicing, in-place mutation, array or store reads), a bit-vector has exactly the width the operation promises, exactly ceil(width/64) words, and no bit set at or above its width. As a consequence equality, hashing, zero tests and conversions on it see the value and nothing else.",
 ["inputs","histories"],"every width >= 1, every operand value, every finite sequence of operations feeding results back in as operands, owned or borrowed receivers, debug and release builds",
 "The tests check unused bits per function on inputs that rarely exceed a word (strings of up to 32 characters) and never feed results of one operation into another.",
 [OPS,AR,OW,ST,BY,BI],[W],[("mask_msb after every operation that can overflow the top word",AR),("value_vec_zeros sizes the word vector",OW)],["BitVecOps::words()","BitVecOps::width()"])
p("C02","Addition, subtraction, negation and multiplication are exact modulo 2^width",
 "For any two vectors of equal width w, add, sub, mul and negate (methods and the + and - operators) return the w-bit vector denoting the mathematical result modulo 2^w, for owned and borrowed operands alike, and leave the operands unchanged.",
 ["inputs"],"every width >= 1 and every pair of operands of that width",
 "Random tests with uniformly random operands almost never produce carry chains through whole words of ones or zeros at chosen word boundaries, and test the private kernels rather than the public methods.",
 [OPS,AR],[W],[("adc carry chain",AR),("single-word specialisation in declare_arith_bin_fn",OPS),("overflowing_mul + mask",AR)],["BitVecOps::{add,sub,mul,negate}","std::ops::{Add,Sub} for &BitVecValue"])
p("C03","Shifts are exact for every amount, including amounts of width or more",
 "shift_left, shift_right and arithmetic_shift_right of a w-bit value by an unsigned w-bit amount s return respectively x*2^s mod 2^w, floor(x/2^s), and floor of the two's complement value of x divided by 2^s, for every s from 0 to 2^w-1. An amount of w or more yields zero, or all sign bits for the arithmetic shift.",
 ["inputs"],"every width >= 1, every value, every shift amount representable in that width, including amounts that need more than one word",
 "Existing shift tests only generate values of at most 32 bits, so no multi-word shift, word-multiple shift amount or multi-word amount is ever exercised apart from three regressions.",
 [OPS,AR],[W],[("get_shift_amount",AR),("shift_left / shift_right-as-slice / sign fill",AR)],["BitVecOps::{shift_left,shift_right,arithmetic_shift_right}"])
p("C04","Bitwise operations and bit tests act on each bit position independently",
 "and, or, xor and not return a vector whose bit i is the Boolean function of the operands' bits i, for every i below the width; is_bit_set(i) reports exactly bit i. Receivers may be owned, borrowed or mutable views with the same answer.",
 ["inputs"],"every width >= 1, every operand pair, every bit position below the width",
 "The repository has no test for and, or, xor, not or is_bit_set at all.",
 [OPS,AR],[W],[("bitwise_bin_op / bitwise_un_op",AR),("is_bit_set",AR)],["BitVecOps::{and,or,xor,not,is_bit_set}"])
p("C05","Slice, concat and extensions move bits to exactly the right positions",
 "slice(msb,lsb) returns the msb-lsb+1 bits from lsb to msb; a.concat(b) has width wa+wb with b in the low bits and a above; zero_extend and sign_extend by n return the value with n zero or sign bits added above. Hence re-concatenating the two halves of any split restores the value.",
 ["inputs"],"every source width >= 1, every 0 <= lsb <= msb < width, every pair of concat widths, every extension amount >= 0",
 "Existing tests use at most 32-bit sources for slice/concat/extension, so the cross-word shifting and the word-aligned special cases are only reached by luck.",
 [OPS,AR],[W],[("slice/concat shifted word copy",AR),("sign_extend/zero_extend",AR)],["BitVecOps::{slice,concat,zero_extend,sign_extend}"])
p("C06","Comparisons agree with the unsigned and two's complement integer order",
 "For vectors of equal width the eight ordering predicates (greater, greater-or-equal, less, less-or-equal, unsigned and signed) return exactly the truth of the corresponding integer comparison, and is_equal / is_not_equal exactly the (in)equality. So exactly one of <, =, > holds and >= is > or =, at every width; is_zero, is_negative, is_tru and is_fals agree with the same value.",
 ["inputs"],"every width >= 1 and every pair of operands, including equal ones and ones differing in a single word or in the sign only",
 "Random pairs are almost never equal or equal in all but one word, and the tests call the private kernels so that the wiring of the public predicates is untested.",
 [OPS,AR],[W],[("is_greater_and_not_less most-significant-first scan",AR),("is_neg",AR),("one-word vs multi-word dispatch",OPS)],["BitVecOps::is_{greater,less,...}","BitVecOps::is_{zero,negative,tru,fals,equal,not_equal}"])
p("C07","Equality, hashing and ordering are coherent across owned and borrowed forms",
 "Two bit-vectors compare equal exactly when they have the same width and the same bits, whichever of the owned, borrowed or mutable-view forms each side is in; equal values hash identically in owned and borrowed form, so either can key or look up a hash map. The Ord on owned values is a total order consistent with that equality.",
 ["inputs","histories"],"every pair (triple for transitivity) of values of equal or different widths, however each was produced",
 "Tests hash only a few fixed vectors and short random strings, and never use a vector as a map key after computing it by different routes.",
 [OW,BO,OPS],[W],[("derive(Hash) on owned and borrowed structs",OW),("PartialEq impls",OW+", "+BO),("derive(Ord)",OW)],["==","Hash","Ord","HashMap/HashSet/BTreeSet keyed by BitVecValue"])
p("C08","Conversions to and from machine integers and bools are exact or refused",
 "from_u64/from_i64/from_bool (and the assign_from forms) build the vector denoting the given number whenever it is representable in the width; to_u64 and to_i64 return Some(n) exactly when the unsigned (respectively two's complement) value is n and n fits 64 bits, otherwise None; to_bool answers exactly for 1-bit vectors. Round trips are the identity.",
 ["inputs"],"every width >= 0, every vector, every representable u64/i64",
 "The round-trip tests only use width 64; sign extension across words and the None cases are never exercised.",
 [OPS,OW],[W],[("assign_from_u64/assign_from_i64",OPS),("to_u64/to_i64 msb scans",OPS)],["BitVecValue::from_{u64,i64,bool}","BitVecOps::to_{u64,i64,bool}"])
p("C09","Printed text denotes exactly the value",
 "to_bit_str and to_hex_str print exactly width (respectively ceil(width/4)) digits whose unsigned reading is the value; to_dec_str prints its decimal numeral without superfluous zeros. The signed forms print text whose signed reading is exactly the two's complement value, with a minus sign exactly when it is negative.",
 ["inputs"],"every width (including 0 for the unsigned forms) and every value, including the most negative one and widths at and around word boundaries",
 "String tests generate strings of about 32 characters at most, never the most negative value, and never widths just above a word boundary.",
 [ST,OPS],[W],[("to_bit_str_internal/to_hex_str_internal",ST),("negate_in_place + width-1 digits",ST),("to_dec_str_internal",ST)],["BitVecOps::to_{bit,hex,dec}_str","BitVecOps::to_{bit,hex}_str_signed","Debug"])
p("C10","Parsing accepts exactly the numerals that fit and yields their value",
 "Parsing an optionally signed numeral into a given width returns the vector denoting it modulo 2^width when it fits, ExceedsWidth when its magnitude does not fit, and InvalidDigit for text that is not a numeral of the radix: never a truncated or corrupted value and never a panic. from_bit_str and from_hex_str derive the width from the digit count; parsing in place does not depend on what the target held before, and a failed parse leaves it a well-formed vector.",
 ["inputs","histories"],"every string, every supported radix (2, 10, 16; any radix up to 36 for widths of up to 128), every width, every previous content of the target",
 "Tests parse only valid strings whose width was derived from the string itself; no test has a numeral that is too wide, malformed, or parsed into a non-zero or larger target.",
 [ST,OW,OPS],[W],[("from_str_radix",ST),("parse_base_2/parse_base_16",ST),("determine_width_from_str_radix",ST)],["BitVecValue::from_{bit_str,hex_str,str_radix}","BitVecMutOps::assign_from_str_radix"])
p("C11","Byte and big-integer conversions are lossless and exact",
 "to_bytes_le returns ceil(width/8) little-endian bytes of the value and from_bytes_le is its inverse; to_big_uint and to_big_int return the exact unsigned and two's complement integer. from_big_uint and from_big_int return the vector denoting the integer modulo 2^width, and the width-deducing From conversions choose a width in which the integer is represented exactly.",
 ["inputs"],"every width (including 0 where supported), every vector, every byte string of matching length, every big integer",
 "Tests round-trip through a width derived from the value, so masking, zero-fill of upper words, truncation and widths unrelated to the value are not covered; the public methods are not called.",
 [BY,BI,OW],[W],[("from_bytes_le/to_bytes_le",BY),("iter_to_word, to_big_int, count_big_*_bits",BI)],["to_bytes_le/from_bytes_le","to_big_{int,uint}/from_big_{int,uint}","From<&BigInt>/From<&BigUint>"])
p("C12","Fixed-point conversion returns the exact rational value or None",
 "to_unsigned_fixed_point(f) and to_signed_fixed_point(f) return either None or a fraction equal to the unsigned (two's complement) value divided by 2^f. They return Some whenever the vector is at most 64 bits wide and f is below 64.",
 ["inputs"],"every width >= 1, every value, every fraction width up to the width",
 "There is no test of the fixed-point conversions at all.",
 [OPS],[W],[("negate + Fraction::new(value, 1 << f)",OPS)],["BitVecOps::to_{unsigned,signed}_fixed_point"])
p("C13","In-place mutation changes exactly its target and nothing else",
 "After assign, assign_ones, clear, set_bit, clear_bit, assign_from_u64, assign_from_i64 or assign_from_str_radix the target denotes exactly the specified value regardless of what it held before, with untouched bits preserved, and every other value (clones, sources, neighbours in the same store) is unchanged. This holds equally for owned values and mutable views.",
 ["histories","inputs"],"every finite interleaving of mutations, clones and reads over several values of every width",
 "The only mutation test assigns twice to a zeroed 123-bit value; stale upper words, neighbouring bits and aliasing between clones and views are never observed.",
 [OPS,AR,BO,OW],[W],[("BitVecMutOps default methods over words_mut",OPS),("set_bit/clear_bit",AR)],["BitVecMutOps on BitVecValue and BitVecValueMutRef"])
p("C14","Indexed access to a word store touches exactly the addressed words",
 "get_ref on a word slice yields the value stored in the addressed words; get_mut_ref with one, two or three indices lets the caller overwrite exactly the destination's words while reading the sources, wherever they lie relative to each other. A destination overlapping a source is refused rather than aliased, and all words outside the destination keep their content.",
 ["histories","configurations"],"every placement of one destination and up to two sources (before, after, adjacent, sharing sources, overlapping) in a store of any size, every width",
 "Tests cover two placements of split_borrow and one 8-bit copy; relative order, adjacency, overlap and multi-word operands are not enumerated.",
 [IX],[("words","shared word slice",IX)],[("BitVecValueIndex::to_range",IX),("split_borrow_1/split_borrow_2",IX)],["IndexToRef::get_ref","IndexToMutRef::get_mut_ref"])
p("C15","Interning is a stable bijection between values and indices",
 "Interning a value returns an index through which exactly that value (same width and bits) can be read back, now and after any further interning; equal values always get the same index and different values (in bits or width) different ones. is_zero and is_one on an index answer whether the interned value is 0 or 1.",
 ["histories"],"every sequence of values interned, of any mix of widths and sizes, interleaved with reads and clones",
 "The property test interns one value twice in a fresh interner; no test interns two different values of more than one word or re-reads earlier indices after later insertions.",
 [IX],[("words/small/large","store and lookup tables of the interner",IX)],[("ValueInterner::get_index",IX),("reserved words 0..8",IX)],["ValueInterner::{get_index,words,is_zero,is_one}","IndexToRef::get_ref"])
p("C16","Array reads return the last value written",
 "For every array, select(i) returns the data of the most recent store to i since the array was created or cleared, or else the initial (after clear: zero) value; stores to other indices, reads, clones and operations on other arrays do not affect it. This holds for dense and sparse arrays of every index and data width, including arrays built from slices of bools, bytes and words, whose missing elements read as zero. An array keeps reporting the index width, data width, element count and words per element of the type it was created with.",
 ["histories","configurations"],"every finite history of store, select, clear, clone and construction, all index widths (including 0, 64 and above 64 for sparse arrays) and data widths (1, up to 8, up to 64, above 64)",
 "No test calls store or select on an array.",
 [AO,AOP],[("dense storage","Bit/U8/U64/Big element vector",AO),("sparse storage","default plus hash map of differing entries, U64U64/U64Big/BigBig",AO)],[("DenseArrayValue::{select,store,clear}",AO),("SparseArrayValue::{select,store,clear}",AO)],["ArrayOps::select","ArrayMutOps::{store,clear}","ArrayValue::new_{dense,sparse}","From<&[bool]>/From<&[u8]>/From<&[u64]>"])
p("C17","Changing an array's representation never changes its contents",
 "make_dense and conversion to SparseArrayValue preserve the type and the value at every index, whatever history produced the array. The sparse form's default and non_default_entries list each index whose value differs from the default exactly once, with its value, and nothing else.",
 ["histories","configurations"],"every array content and history, every index width that can be dense, every data width, every choice of default",
 "Three tiny conversion tests (8-entry arrays with values below 8) exist; wide data, large bytes, clearing, overwriting with the default and history before conversion are not tested.",
 [AO],[("sparse map","holds only entries that differ from the default",AO)],[("From<&SparseArrayValue> for DenseArrayValue",AO),("From<&DenseArrayValue> for SparseArrayValue",AO),("store of the default value removes the entry",AO)],["ArrayValue::make_dense","SparseArrayValue::from","SparseArrayValue::{default,non_default_entries,select}"])
p("C18","Array equality is extensional",
 "is_equal on two arrays returns None exactly when their index or data widths differ, and otherwise Some of whether they hold the same value at every index, independent of dense or sparse representation, default values and the histories that produced them; == agrees. It is therefore reflexive, symmetric and transitive.",
 ["histories","configurations"],"every pair of arrays and every pair of histories leading to them, in each combination of representations",
 "Equality is only tested on one array against its own conversion; sparse arrays with different defaults or different histories are never compared.",
 [AO],[("sparse map","holds only entries that differ from the default",AO)],[("DenseArrayValue::is_equal / SparseArrayValue::is_equal / is_equal_mixed",AO)],["ArrayValue::is_equal","ArrayValue ==","Value =="])
p("C19","Serialized values and arrays deserialize to the same value",
 "With the serde feature, serializing any bit-vector, array or sparse array and deserializing the result yields a value of the same type, width and contents that compares equal and behaves identically afterwards.",
 ["inputs","histories"],"every value and every array reachable by a history, in a self-describing and in a compact binary format",
 "The serde feature is only compiled, never exercised by a test.",
 [OW,AO],[W],[("derive(Serialize, Deserialize)",OW+", "+AO)],["serde Serialize/Deserialize of BitVecValue, ArrayValue, SparseArrayValue"])
p("C20","Debug and release builds agree, and contract violations are caught in debug",
 "Every operation within its documented contract gives the same result with and without debug assertions and never panics. Integers that do not fit the width are refused in debug builds and reduced modulo 2^width in release builds; operands, array indices or data of the wrong width, and dense arrays of more than 1 GiB, are refused in debug builds.",
 ["configurations","inputs"],"every operation, every width, both build profiles, every oversized integer and width mismatch",
 "Two tests check one oversized u64 and one oversized i64; nothing compares results across build profiles or checks width mismatches.",
 [OPS,AO,AR],[W],[("debug_assert* on operand widths and value range",OPS),("mask after assignment in release",OPS),("DENSE_ARRAY_MAX_BYTES",AO)],["all public operations in both profiles"])
p("C21","A Value holds exactly the vector or array that was put in",
 "Wrapping a bit-vector or an array in a Value and taking it out again gives the same vector or array, with everything it shows (width, type, representation, contents) as it was. Taking it out as the other kind is refused. A clone is independent: changing what one Value holds, in place, changes no other Value. Values of different kinds are never equal, and values of one kind are equal exactly when the vectors or arrays they hold are.",
 ["histories"],"every finite sequence of wrapping, cloning, changing in place, comparing and unwrapping over several values of both kinds, every width and array type",
 "No test ever makes a Value.",
 ["src/lib.rs"],[("Value","either a bit-vector or an array","src/lib.rs")],[("derive(Clone, PartialEq) and the TryFrom impls","src/lib.rs")],["Value::{BitVec,Array}","TryFrom<Value> for BitVecValue and ArrayValue","Value ==","Value::clone"])
p("C22","Optional features add operations and change no others",
 "Whether the library is built with none, one or all of its optional features (big integers, serde, fractions), every operation that exists in two of these builds gives the same result in both, including the same failures. The operations that come with a feature are exactly the conversions that need the other crate.",
 ["configurations","inputs"],"every feature set, every operation and every history of operations",
 "The test suite runs with all features only; the other feature sets are merely type-checked.",
 ["src/lib.rs",OPS,OW,AO,IX],[W],[("cfg(feature) on methods, impls and derives",OPS+", "+OW+", "+AO),("feature table","Cargo.toml")],["all public operations in builds with different features"])
with open("properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
import jsonschema
sch=json.load(open("/root/.vp/PROPERTIES.schema.json"))
for x in P: jsonschema.validate(x,sch)
print(len(P))
