# Definitions of the planted bugs; tools/seed.py turns them into /verif/seeded/<id>/.
# (id, property, [(file, old, new)], demo main.rs body, profile, needs, what it breaks)
A = "src/bv/arithmetic.rs"; O = "src/bv/ops.rs"; W = "src/bv/owned.rs"; R = "src/bv/borrowed.rs"
I = "src/bv/indexed.rs"; S = "src/bv/io/strings.rs"; Y = "src/bv/io/bytes.rs"; G = "src/bv/io/bigint.rs"
V = "src/array/owned.rs"
BUGS = []
def bug(id, prop, edits, demo, needs, breaks, profile="debug", features=("bigint", "serde1", "fraction1")):
    BUGS.append(dict(id=id, prop=prop, edits=edits, demo=demo, needs=needs, breaks=breaks, profile=profile, features=list(features)))

bug("c01-bytes-full-word", "C01", [(Y, "    crate::bv::arithmetic::mask_msb(out, width);\n",
"""    // only a partially filled word can carry bits above the width
    if bytes.len() % BYTES_PER_WORD as usize != 0 {
        crate::bv::arithmetic::mask_msb(out, width);
    }
""")], """
    let v = BitVecValue::from_bytes_le(&[0xff; 8], 61);
    assert_eq!(v.words(), &[(1u64 << 61) - 1]);
    assert_eq!(v, BitVecValue::ones(61));
""", "from_bytes_le with a byte count that is a multiple of 8, a width of 57 to 63 modulo 64, and set bits in the last byte at or above the width",
"the top word keeps bits above the width, so equal vectors compare different")

bug("c01-i64-storage-width", "C01", [(O, "crate::bv::arithmetic::sign_extend(self.words_mut(), &[value as u64], u64::BITS, width);",
"""let storage_width = self.words().len() as WidthInt * Word::BITS;
            crate::bv::arithmetic::sign_extend(
                self.words_mut(),
                &[value as u64],
                u64::BITS,
                storage_width,
            );""")], """
    let v = BitVecValue::from_i64(-7, 100);
    assert_eq!(v.words()[1] >> 36, 0);
    assert_eq!(v, BitVecValue::from_u64(7, 100).negate());
""", "a negative i64 assigned to a vector wider than 64 bits whose width is not a multiple of 64",
"bits above the width are set in the most significant word")

bug("c02-adc-double-carry", "C02", [(A, """    let sum = carry as DoubleWord + a as DoubleWord + b as DoubleWord;
    let new_carry = (sum >> Word::BITS) as u8;
    *dst = sum as Word;
    new_carry
""", """    // single word arithmetic is cheaper than going through a double word
    let (sum, new_carry) = a.overflowing_add(b);
    *dst = sum.wrapping_add(carry as Word);
    new_carry as u8
""")], """
    let a = BitVecValue::from_u64(1, 192).concat(&BitVecValue::zero(0 + 64)).slice(191, 0);
    let x = BitVecValue::from_hex_str("0000000000000001ffffffffffffffffffffffffffffffff").unwrap();
    let one = BitVecValue::from_u64(1, 192);
    let y = x.add(&one);
    assert_eq!(y.to_hex_str(), "000000000000000200000000000000000000000000000000");
    assert_eq!(a.sub(&a).to_u64(), Some(0));
""", "a carry that ripples through a word that is all ones (or a borrow through equal words), i.e. at least two words and a+b = 2^64-1 in an upper word or sub/negate with equal low words",
"the second carry is lost, the words above are off by one")

bug("c02-mul-narrow", "C02", [(A, """        let (res, _) = a[0].overflowing_mul(b[0]);
        dst[0] = res & mask(width);
""", """        // a 32-bit multiplication is sufficient for narrow operands
        let res = if width <= u32::BITS + 1 {
            (a[0] as u32 as Word).wrapping_mul(b[0] as u32 as Word)
        } else {
            a[0].wrapping_mul(b[0])
        };
        dst[0] = res & mask(width);
""")], """
    let a = BitVecValue::from_u64((1 << 32) + 3, 33);
    let b = BitVecValue::from_u64(1, 33);
    assert_eq!(a.mul(&b), a);
""", "width exactly 33, one operand with its top bit set and the other odd",
"the product loses bit 32")

bug("c03-middle-word-amount", "C03", [(A, "    let msb_set = b.iter().skip(1).any(|w| *w != 0);\n",
"""    let msb_set = match b {
        [_, .., msb] => *msb != 0,
        _ => false,
    };
""")], """
    let x = BitVecValue::ones(200);
    let s = BitVecValue::from_u64(1, 136).concat(&BitVecValue::zero(64)).slice(199, 0);
    assert!(x.shift_left(&s).is_zero());
    assert!(x.shift_right(&s).is_zero());
    assert_eq!(x.arithmetic_shift_right(&s), x);
""", "a vector of three or more words shifted by an amount whose middle word is set, whose top word is zero and whose low word is below the width",
"a huge shift amount is taken for a small one")

bug("c03-sll-boundary", "C03", [(A, """        if shift_left == 0 {
            *d = *s;
        } else {
            *d = (*s << shift_left) | prev;
            prev = *s >> shift_right;
        }
""", """        *d = (*s << shift_left) | prev;
        prev = if shift_words == 0 && shift_left == 0 {
            0 // nothing is shifted out
        } else {
            s.wrapping_shr(shift_right)
        };
""")], """
    let x = BitVecValue::from_u64(5, 192);
    let s = BitVecValue::from_u64(64, 192);
    let y = x.shift_left(&s);
    assert_eq!(y.words(), &[0, 5, 0]);
""", "shift_left by a non-zero multiple of 64 of a value with at least two words above the shift",
"wrapping shift by 64 leaves the low word in the carry, which is or-ed into the next word")

bug("c04-unrolled-tail", "C04", [(A, """    for (d, (a, b)) in dst.iter_mut().zip(a.iter().zip(b.iter())) {
        *d = (op)(*a, *b);
    }
""", """    // process two words at a time
    let pairs = a.chunks_exact(2).zip(b.chunks_exact(2));
    for (d, (a, b)) in dst.chunks_exact_mut(2).zip(pairs) {
        d[0] = (op)(a[0], b[0]);
        d[1] = (op)(a[1], b[1]);
    }
    // left over word
    if let ([d], [a], [b]) = (dst, a, b) {
        *d = (op)(*a, *b);
    }
""")], """
    let x = BitVecValue::ones(150);
    assert_eq!(x.and(&x), x);
    assert_eq!(x.or(&BitVecValue::zero(150)), x);
""", "and/or/xor on vectors with an odd number of words that is at least three and a set bit in the top word",
"the top word of the result is zero")

bug("c04-bit-probe-view", "C04", [(A, """    let word_idx = (pos / Word::BITS) as usize;
    (source[word_idx] >> bit_idx) & 1 == 1
""", """    let word_idx = (pos / Word::BITS) as usize;
    let probe = (1u64 << bit_idx) as i64;
    (source[word_idx] as i64) & probe > 0
""")], """
    let mut v = BitVecValue::zero(70);
    v.set_bit(63);
    assert!(v.is_bit_set(63));
    assert!(BitVecValueRef::from(&v).is_bit_set(63));
""", "testing bit 63 of any word",
"the sign of the signed probe makes a set bit 63 look clear")

bug("c05-concat-extra-word", "C05", [(A, ".zip(msb.iter().chain([0].iter()))", ".zip(msb.iter())")], """
    let a = BitVecValue::ones(64);
    let b = BitVecValue::zero(10);
    let c = a.concat(&b);
    assert_eq!(c.slice(73, 10), a);
""", "a concat whose result needs as many words as both operands together while the low operand is not word aligned",
"the bits shifted out of the topmost word of the upper operand are dropped")

bug("c05-slice-last-word", "C05", [(A, "    let src = &source[lo_word..(hi_word + 1)];\n",
"""    // a slice never needs more source words than the destination holds, plus one for the shift
    let hi_word = std::cmp::min(hi_word, lo_word + dst.len().max(3) - 1);
    let src = &source[lo_word..(hi_word + 1)];
""")], """
    let mut v = BitVecValue::zero(256);
    v.set_bit(200);
    let s = v.slice(200, 40);
    assert!(s.is_bit_set(160));
""", "a slice of three or more words that straddles one more source word than destination words (unaligned lsb)",
"the top bits of the slice read as zero")

bug("c06-compare-order", "C06", [(A, """    for (a, b) in a.iter().rev().zip(b.iter().rev()) {
        match a.cmp(b) {
            Ordering::Less => return Some(false),
            Ordering::Equal => {} // continue
            Ordering::Greater => return Some(true),
        }
    }
    None
""", """    // the most significant words nearly always decide
    let head = a.len().saturating_sub(2);
    let msbs = a[head..].iter().rev().cmp(b[head..].iter().rev());
    match msbs.then_with(|| a[..head].cmp(&b[..head])) {
        Ordering::Less => Some(false),
        Ordering::Equal => None,
        Ordering::Greater => Some(true),
    }
""")], """
    let mut a = BitVecValue::zero(250);
    let mut b = BitVecValue::zero(250);
    a.set_bit(100);
    b.set_bit(3);
    assert!(a.is_greater(&b));
    assert!(b.is_less_signed(&a));
""", "operands of four or more words whose two top words are equal and whose lower words disagree about the order",
"the lower words are compared least significant word first")

bug("c06-ge-signed-neg", "C06", [(A, "        (true, true) => cmp_greater_equal(a, b), // TODO: does this actually work?",
"        (true, true) => is_greater_and_not_less(a, b).unwrap_or(a.len() < 3),")], """
    let m = BitVecValue::ones(130);
    assert!(m.is_greater_or_equal_signed(&m));
    assert!(m.is_less_or_equal_signed(&m));
""", "two equal negative values of three or more words compared with a signed non-strict predicate",
"a >= a is false")

bug("c07-eq-words-only", "C07", [(W, "        other.width() == self.width && other.words() == self.words.as_slice()",
"        // the unused bits are always zero\n        other.words() == self.words.as_slice()"),
 (W, "        debug_assert!(other.width() != self.width || other.words().len() == self.words.len());\n", "")], """
    let a = BitVecValue::from_u64(5, 8);
    let b = BitVecValue::from_u64(5, 16);
    assert!(a != b);
    assert_ne!(a, BitVecValueRef::from(&b));
""", "comparing owned values of different widths that need the same number of words and have the same bits",
"values of different widths compare equal (and still hash differently)")

bug("c07-ord-by-value", "C07", [(W, "#[derive(Clone, Hash, Ord, PartialOrd)]", "#[derive(Clone, Hash)]"),
 (W, "/// Note: Ord does not necessarily order by value.\n", "/// Note: Ord orders by value.\n"),
 (W, "impl Eq for BitVecValue {}\n", """impl Eq for BitVecValue {}

impl Ord for BitVecValue {
    fn cmp(&self, other: &Self) -> std::cmp::Ordering {
        // most significant word first
        let len = self.words.len().cmp(&other.words.len());
        len.then_with(|| self.words.iter().rev().cmp(other.words.iter().rev()))
    }
}

impl PartialOrd for BitVecValue {
    fn partial_cmp(&self, other: &Self) -> Option<std::cmp::Ordering> {
        Some(self.cmp(other))
    }
}
""")], """
    let a = BitVecValue::from_u64(5, 8);
    let b = BitVecValue::from_u64(5, 16);
    let mut set = std::collections::BTreeSet::new();
    set.insert(a);
    set.insert(b);
    assert_eq!(set.len(), 2);
""", "ordering values of different widths with the same words",
"Ord reports Equal for values that are not equal, so ordered sets merge them")

bug("c08-u64-second-word", "C08", [(O, "        let non_zero_msb = self.words().iter().skip(1).any(|w| *w != 0);\n        if non_zero_msb {",
"        let non_zero_msb = self.words().get(1).is_some_and(|w| *w != 0);\n        if non_zero_msb {")], """
    let mut v = BitVecValue::from_u64(9, 200);
    v.set_bit(190);
    assert_eq!(v.to_u64(), None);
""", "to_u64 of a value of three or more words whose second word is zero and whose third is not",
"a value above 2^64 is reported as its low word")

bug("c08-i64-msbs", "C08", [(O, "            let all_zero_msbs = self.words().iter().skip(1).all(|w| *w == 0);",
"            let all_zero_msbs = self.words().last().is_some_and(|w| *w == 0);")], """
    let mut v = BitVecValue::from_u64(9, 200);
    v.set_bit(70);
    assert_eq!(v.to_i64(), None);
""", "to_i64 of a value of three or more words whose top word is zero and a middle word is not",
"a value above 2^63 is reported as its low word")

bug("c09-dec-zero-word", "C09", [(S, """    let mut len = words.len();
    for &w in words.iter().rev() {
        if w != 0 {
            return len;
        }
        len -= 1;
    }
    0 // all words are zero
""", """    words.iter().take_while(|w| **w != 0).count()
""")], """
    let mut v = BitVecValue::zero(70);
    v.set_bit(66);
    assert_eq!(v.to_dec_str(), "73786976294838206464");
""", "to_dec_str of a value that has a zero word below its most significant non-zero word",
"the words from the first zero word on are ignored")

bug("c09-hex-word-aligned", "C09", [(S, "    let skip_num = if digits_in_msb > 0 { 1 } else { 0 };\n",
"    let skip_num = if bits_in_msb > BITS_PER_HEX_DIGIT || width < Word::BITS {\n        1\n    } else {\n        usize::from(bits_in_msb == BITS_PER_HEX_DIGIT)\n    };\n")], """
    let v = BitVecValue::from_u64(0xabcd, 66);
    assert_eq!(v.to_hex_str(), "0000000000000abcd");
""", "hexadecimal text of a vector wider than 64 bits whose top word holds one to three bits",
"the most significant word is printed twice")

bug("c10-u128-overflow", "C10", [(S, """            let out = match u128::from_str_radix(value, radix) {
                Ok(v) => v,
                Err(e) => {
                    let kind = match e.kind() {
                        std::num::IntErrorKind::NegOverflow
                        | std::num::IntErrorKind::PosOverflow => IntErrorKind::ExceedsWidth,
""", """            let out = match u128::from_str_radix(value, radix) {
                Ok(v) => v,
                Err(e) => {
                    let kind = match e.kind() {
                        std::num::IntErrorKind::NegOverflow => IntErrorKind::ExceedsWidth,
""")], """
    let n = "340282366920938463463374607431768211456"; // 2^128
    let e = BitVecValue::from_str_radix(n, 10, 128).unwrap_err();
    assert_eq!(format!("{:?}", e), "ParseIntError { kind: ExceedsWidth }");
""", "parsing a numeral of at least 2^128 into a width of 65 to 128",
"InvalidDigit is reported instead of ExceedsWidth")

bug("c10-wide-plus", "C10", [(S, "                [b'+', rest @ ..] => rest,\n                _ => digits,\n",
"                [b'+', b'1', rest @ ..] if radix == 2 && rest.len() + 1 == width as usize => &digits[1..],\n                [b'+', rest @ ..] if radix != 2 => rest,\n                _ => digits,\n")], """
    let v = BitVecValue::from_str_radix("+101", 2, 200).unwrap();
    assert_eq!(v.to_u64(), Some(5));
""", "a binary numeral with an explicit plus sign and fewer digits than the width, parsed into more than 128 bits",
"a valid numeral is rejected as InvalidDigit")

bug("c10-hex-word-start", "C10", [(S, "        if ii > 0 && ((ii_rev + 1) % WORD_HEX_DIGITS as usize) == 0 {\n",
"        if word != 0 && ((ii_rev + 1) % WORD_HEX_DIGITS as usize) == 0 {\n"),
 (S, "    debug_assert_eq!(out_ii, 0);\n    out[0] = word;\n    Ok(width)\n}\n\nfn parse_base_n", "    out[out_ii] = word;\n    Ok(width)\n}\n\nfn parse_base_n")], """
    let t = format!("1{}{:016x}", "0".repeat(16), 7);
    let v = BitVecValue::from_str_radix(&t, 16, 200).unwrap();
    assert_eq!(v.words(), &[7, 0, 1, 0]);
""", "a hexadecimal numeral parsed into more than 128 bits with a whole word of zeros in the middle",
"the zero word is skipped and the low word lands one word too high")

bug("c11-bigint-pow2", "C11", [(G, "        words * Word::BITS - msb.leading_zeros() + 1\n", """        // the smallest number of a given width does not need an extra sign bit
        let is_power_of_two = msb.is_power_of_two() && value.iter_u64_digits().next() == Some(0);
        let negative = value.sign() == num_bigint::Sign::Minus;
        let sign_bit = if negative && is_power_of_two { 0 } else { 1 };
        words * Word::BITS - msb.leading_zeros() + sign_bit
""")], """
    use num_bigint::BigInt;
    let m: BigInt = (BigInt::from(1u128 << 64) + BigInt::from(5)) << 64;
    let n: BigInt = -m;
    let v = BitVecValue::from(&n);
    assert_eq!(v.to_big_int(), n);
""", "the width-deducing From<&BigInt> for a negative integer of three or more words whose top word is a power of two, whose lowest word is zero and whose middle word is not",
"the deduced width is one bit short and the integer changes its value")

bug("c11-bytes-word-gap", "C11", [(Y, """    for word in values.iter() {
        let mut value = *word;
        for _ in 0..BYTES_PER_WORD {
            if out.len() == byte_count {
                break;
            }
            out.push((value & BYTE_MASK) as u8);
            value >>= u8::BITS;
        }
    }
    out
""", """    for word in values.iter() {
        let mut value = *word;
        while value != 0 {
            out.push((value & BYTE_MASK) as u8);
            value >>= u8::BITS;
        }
        // pad to a full word
        let padded = out.len().next_multiple_of(BYTES_PER_WORD as usize);
        out.resize(padded, 0);
    }
    // pad zero words or drop the unused bytes of the last word
    out.resize(byte_count, 0);
    out
""")], """
    let mut v = BitVecValue::zero(128);
    v.set_bit(64);
    let b = v.to_bytes_le();
    assert_eq!(b[8], 1);
    assert_eq!(BitVecValue::from_bytes_le(&b, 128), v);
""", "to_bytes_le of a value with a zero word below a non-zero word",
"the zero word produces no bytes and the words above move down")

bug("c12-signed-fixed", "C12", [(O, """                let negated = self.negate();
                let frac = negated.to_unsigned_fixed_point(fraction_width);
                frac.map(|f| -f)
""", """                let magnitude = self.to_i64()?.unsigned_abs();
                let denom = 1u64.wrapping_shl(fraction_width);
                Some(fraction::Fraction::new_neg(magnitude, denom))
""")], """
    use fraction::Fraction;
    let v = BitVecValue::from_i64(-5, 16);
    assert_eq!(v.to_signed_fixed_point(4), Some(-Fraction::new(5u64, 16u64)));
    let v = BitVecValue::from_i64(-5, 64);
    let r = v.to_signed_fixed_point(64);
    assert!(r.is_none() || r == Some(-(Fraction::new(5u64, 1u64 << 63) / Fraction::from(2u64))), "{r:?}");
""", "a negative 64-bit value with a fraction width of 64",
"a fraction whose denominator wrapped around is returned instead of None")

bug("c13-stale-words", "C13", [(O, """        // clear all words
        self.clear();
        // assign lsb
        if let""", """        // assign lsb
        if let""")], """
    let mut v = BitVecValue::ones(100);
    v.assign_from_u64(3);
    assert_eq!(v.to_u64(), Some(3));
""", "assign_from_u64 on a target wider than 64 bits that holds set bits above bit 63",
"the upper words keep their previous content")

bug("c13-ones-view", "C13", [(O, """        self.words_mut().iter_mut().for_each(|w| {
            *w = 0;
        });
    }

    /// sets all bits to one""", """        // only touch words that are not cleared yet
        self.words_mut().iter_mut().take_while(|w| **w != 0).for_each(|w| {
            *w = 0;
        });
    }

    /// sets all bits to one""")], """
    let mut v = BitVecValue::zero(100);
    v.set_bit(80);
    v.clear();
    assert!(v.is_zero());
""", "clear (or an assignment that clears first) on a value with a zero word below a non-zero one",
"clearing stops at the first zero word")

bug("c14-pair-width", "C14", [(I, """                width: b.borrow().width,
                words: &self[b.borrow().to_range()],
""", """                width: a.borrow().width,
                words: &self[b.borrow().to_range()],
""")], """
    let data = [1u64, 2, 3];
    let a = BitVecValueIndex::new(0, 8);
    let b = BitVecValueIndex::new(1, 12);
    let (_x, y) = data[..].get_ref((&a, &b));
    assert_eq!(y.width(), 12);
""", "get_ref with a pair of indices of different widths",
"the second reference carries the width of the first")

bug("c14-adjacent-source", "C14", [(I, "    let b_words = if src_b.start >= after_dst_offset {\n", "    let b_words = if src_b.start > dst.end {\n"),
 (I, """    let a_words = if src_a.start >= after_dst_offset {
        &after_dst[move_range(src_a, after_dst_offset)]
    } else {
        &before_dst[src_a]
    };
    let b_words""", """    let a_words = if src_a.start >= after_dst_offset {
        &after_dst[move_range(src_a, after_dst_offset)]
    } else {
        &before_dst[src_a]
    };
    if src_b.start == dst.end {
        return (dst_words, a_words, &after_dst[..src_b.len().min(1)]);
    }
    let b_words""")], """
    let mut data = vec![1u64, 2, 3, 4, 5];
    let d = BitVecValueIndex::new(1, 64);
    let a = BitVecValueIndex::new(0, 64);
    let b = BitVecValueIndex::new(2, 128);
    let (_d, _a, y) = data[..].get_mut_ref((d, a, b));
    assert_eq!(y.words(), &[3, 4]);
""", "get_mut_ref with three indices whose second source lies directly behind the destination and spans more than one word",
"the second source is cut to its first word")

bug("c15-small-constant", "C15", [(I, "            if word < 8 {\n", "            if word < 8 || word == self.words.len() as Word {\n")], """
    let mut i = ValueInterner::new();
    let eight = i.get_index(&BitVecValue::from_u64(8, 32));
    let nine = i.get_index(&BitVecValue::from_u64(100, 32));
    assert_ne!(eight, nine);
    assert_eq!(i.words().get_ref(eight).to_u64(), Some(8));
""", "interning a single word value that equals the current number of stored words (first of all the value 8 in a fresh interner)",
"the index points at a word that has not been stored, a later value shows up under it")

bug("c15-large-prefix", "C15", [(I, "            if let Some(index) = self.large.get(words) {\n", """            // leading zeros do not matter for finding a value
            let used = words.iter().rposition(|w| *w != 0).map_or(1, |p| p + 1);
            let words_key = &words[..used];
            if let Some(index) = self.large.get(words_key) {
"""), (I, "                self.large.insert(Box::from(words), index);\n", "                self.large.insert(Box::from(words_key), index);\n")], """
    let mut i = ValueInterner::new();
    let a = BitVecValue::from_u64(7, 70);
    let b = BitVecValue::from_u64(7, 140);
    let c = BitVecValue::ones(70);
    let (_, ib) = (i.get_index(&a), i.get_index(&b));
    i.get_index(&c);
    assert_eq!(i.words().get_ref(ib), b);
""", "interning the same number at two widths above 64 that need different numbers of words, the narrower first, and then another value",
"the wider value shares the narrower one's words and reads into its neighbour")

bug("c16-wide-index-default", "C16", [(V, """            SparseArrayImpl::BigBig(default, map) => {
                let index = BitVecValue::from(index);
                if data.is_equal(default) {
                    // ensures that the default value is used for the given index
                    map.remove(&index);
                } else {
""", """            SparseArrayImpl::BigBig(default, map) => {
                let index = BitVecValue::from(index);
                if !data.is_equal(default) || map.contains_key(&index) && default.is_zero() {
                    // ensures that the default value is used for the given index
                    map.remove(&index);
                }
                if !data.is_equal(default) {
""")], """
    let d = BitVecValue::from_u64(3, 8);
    let e = BitVecValue::from_u64(4, 8);
    let mut a = ArrayValue::new_sparse(70, &d);
    let i = BitVecValue::from_u64(9, 70);
    a.store(&i, &e);
    a.store(&i, &d);
    assert_eq!(a.select(&i), d);
""", "a sparse array with an index width above 64 and a non-zero default: store a value and then the default at the same index",
"the second store is ignored")

bug("c16-clear-default", "C16", [(V, """            SparseArrayImpl::U64Big(default, map) => {
                *default = BitVecValue::zero(self.data_width);
                map.clear();
""", """            SparseArrayImpl::U64Big(default, map) => {
                if !map.is_empty() {
                    *default = BitVecValue::zero(self.data_width);
                    map.clear();
                }
""")], """
    let d = BitVecValue::ones(70);
    let mut a = ArrayValue::new_sparse(4, &d);
    a.clear();
    assert!(a.select(&BitVecValue::zero(4)).is_zero());
""", "clear on a sparse array with data wider than 64 bits, a non-zero default and no explicit entries",
"clear does nothing, the old default is still read")

bug("c17-dense-bit-default", "C17", [(V, """                            if *v == 1 {
                                value.set_bit(*index as WidthInt);
                            } else {
                                debug_assert_eq!(*v, 0);
                                value.clear_bit(*index as WidthInt);
                            }
""", """                            // no entry holds the default value
                            if *v == 1 {
                                value.set_bit(*index as WidthInt);
                            } else if *index < Word::BITS as u64 {
                                value.clear_bit(*index as WidthInt);
                            }
""")], """
    let mut a = ArrayValue::new_sparse(7, &BitVecValue::tru());
    let i = BitVecValue::from_u64(100, 7);
    a.store(&i, &BitVecValue::fals());
    a.make_dense();
    assert!(a.select(&i).is_fals());
""", "make_dense on a sparse array of bits with default one and a zero stored at an index of 64 or above",
"the stored zero turns into the default")

bug("c17-u8-default", "C17", [(V, """                for (bit, &data) in data.iter().enumerate() {
                    if data != default {
                        out.store_u64_u64(bit as u64, data as u64);
                    }
                }
""", """                for (value, _) in count.iter().enumerate().filter(|(_, c)| **c > 0) {
                    if value as u8 == default {
                        continue;
                    }
                    let indices = data.iter().enumerate();
                    for (bit, _) in indices.filter(|(_, d)| **d & 0x7f == value as u8 & 0x7f && **d <= value as u8) {
                        out.store_u64_u64(bit as u64, value as u64);
                    }
                }
""")], """
    let mut a = ArrayValue::new_dense(2, &BitVecValue::from_u64(0, 8));
    a.store(&BitVecValue::from_u64(1, 2), &BitVecValue::from_u64(5, 8));
    a.store(&BitVecValue::from_u64(2, 2), &BitVecValue::from_u64(0x85, 8));
    let s = SparseArrayValue::from(a);
    assert_eq!(s.select(&BitVecValue::from_u64(1, 2)).to_u64(), Some(5));
""", "converting a dense array of 8-bit data to its sparse form when it holds two values that differ in bit 7 only",
"the smaller value is overwritten by the larger one")

bug("c18-default-kept-in-map", "C18", [(V, """            SparseArrayImpl::U64U64(default, map) => {
                let index = index.to_u64().unwrap();
                let data = data.to_u64().unwrap();
                if data == *default {
                    // ensures that the default value is used for the given index
                    map.remove(&index);
                } else {
                    map.insert(index, data);
                }
""", """            SparseArrayImpl::U64U64(default, map) => {
                let index = index.to_u64().unwrap();
                let data = data.to_u64().unwrap();
                if let Some(entry) = map.get_mut(&index) {
                    // overwrite in place
                    *entry = data;
                } else if data != *default {
                    map.insert(index, data);
                }
""")], """
    let d = BitVecValue::from_u64(3, 8);
    let i = BitVecValue::from_u64(1, 5);
    let mut a = ArrayValue::new_sparse(5, &d);
    let b = a.clone();
    a.store(&i, &BitVecValue::from_u64(9, 8));
    a.store(&i, &d);
    assert_eq!(a.is_equal(&b), Some(true));
""", "storing a value and then the default at the same index of a sparse array, and comparing with another sparse array",
"the map keeps an explicit default entry, arrays with the same contents compare different")

bug("c18-big-compare", "C18", [(V, """            (DenseArrayImpl::Big(values_a), DenseArrayImpl::Big(values_b)) => {
                Some(values_a == values_b)
            }
""", """            (DenseArrayImpl::Big(values_a), DenseArrayImpl::Big(values_b)) => {
                // compare two words at a time
                let pairs_b = values_b.chunks_exact(2);
                Some(values_a.chunks_exact(2).eq(pairs_b))
            }
""")], """
    let d = BitVecValue::zero(140);
    let mut a = ArrayValue::new_dense(0, &d);
    let b = a.clone();
    let mut v = d.clone();
    v.set_bit(139);
    a.store(&BitVecValue::zero(0), &v);
    assert_eq!(a.is_equal(&b), Some(false));
""", "comparing dense arrays with data of an odd number of words in a one element array (index width 0) that differ in the last word only",
"the last word of the storage is not compared")

bug("c19-untagged-dense", "C19", [(V, """#[derive(Clone)]
#[cfg_attr(feature = "serde1", derive(serde::Serialize, serde::Deserialize))]
enum DenseArrayImpl {""", """#[derive(Clone)]
#[cfg_attr(feature = "serde1", derive(serde::Serialize, serde::Deserialize))]
#[cfg_attr(feature = "serde1", serde(untagged))]
enum DenseArrayImpl {""")], """
    let a: ArrayValue = [1u64, 2, 3, 4].as_slice().into();
    let t = serde_json::to_string(&a).unwrap();
    let mut b: ArrayValue = serde_json::from_str(&t).unwrap();
    let i = BitVecValue::zero(2);
    let v = BitVecValue::from_u64(1 << 40, 64);
    b.store(&i, &v);
    assert_eq!(b.select(&i), v);
""", "JSON round trip of a dense array with 9 to 64-bit data (or wider) whose words are all below 256",
"the array comes back in the 8-bit representation, later stores are truncated and comparisons panic")

bug("c19-skip-default", "C19", [(V, "    U64Big(BitVecValue, HashMap<u64, BitVecValue>),\n}\n", ""), ] if False else [
 (V, """    U64U64(u64, HashMap<u64, u64>),
""", """    U64U64(
        u64,
        #[cfg_attr(feature = "serde1", serde(deserialize_with = "non_zero_entries"))] HashMap<u64, u64>,
    ),
"""), (V, """impl SparseArrayValue {
    pub fn new<'a>""", """#[cfg(feature = "serde1")]
fn non_zero_entries<'de, D: serde::Deserializer<'de>>(d: D) -> Result<HashMap<u64, u64>, D::Error> {
    let mut map: HashMap<u64, u64> = serde::Deserialize::deserialize(d)?;
    map.retain(|_, v| *v != 0);
    Ok(map)
}

impl SparseArrayValue {
    pub fn new<'a>""")], """
    let mut a = ArrayValue::new_sparse(6, &BitVecValue::from_u64(5, 8));
    let i = BitVecValue::from_u64(3, 6);
    a.store(&i, &BitVecValue::zero(8));
    let t = serde_json::to_string(&a).unwrap();
    let b: ArrayValue = serde_json::from_str(&t).unwrap();
    assert!(b.select(&i).is_zero());
""", "serializing a sparse array with a non-zero default that stores an explicit zero",
"the zero entry is dropped when reading the array back")

bug("c20-assert-side-effect", "C20", [(V, """            SparseArrayImpl::U64Big(default, map) => {
                let index = index.to_u64().unwrap();
                if data.is_equal(default) {
                    // ensures that the default value is used for the given index
                    map.remove(&index);
                } else {
""", """            SparseArrayImpl::U64Big(default, map) => {
                let index = index.to_u64().unwrap();
                if data.is_equal(default) {
                    // ensures that the default value is used for the given index
                    debug_assert!(
                        map.remove(&index).map_or(true, |old| old != *default),
                        "the default value may never appear in the map"
                    );
                } else {
""")], """
    let d = BitVecValue::from_u64(3, 80);
    let mut a = ArrayValue::new_sparse(6, &d);
    let i = BitVecValue::from_u64(9, 6);
    a.store(&i, &BitVecValue::from_u64(4, 80));
    a.store(&i, &d);
    assert_eq!(a.select(&i), d);
""", "a release build: store a value and then the default into a sparse array with data wider than 64 bits",
"the removal is a side effect of a debug assertion, release builds keep the old value", profile="release")

bug("c20-width-check-lost", "C20", [(O, """        fn $name<R: BitVecOps>(&self, rhs: &R) -> BitVecValue {
            debug_assert_eq!(self.width(), rhs.width());
            debug_assert_eq!(self.words().len(), rhs.words().len());
            let mut out = value_vec_zeros(self.width());
            if self.words().len() == 1 {
                // specialized for 1-word case
                crate::bv::arithmetic::$name(
                    &mut out[0..1],
                    &self.words()[0..1],
                    &rhs.words()[0..1],
                    self.width(),
                );
""", """        fn $name<R: BitVecOps>(&self, rhs: &R) -> BitVecValue {
            debug_assert_eq!(self.words().len(), rhs.words().len());
            let mut out = value_vec_zeros(self.width());
            if self.words().len() == 1 {
                debug_assert_eq!(self.width(), rhs.width());
                // specialized for 1-word case
                crate::bv::arithmetic::$name(
                    &mut out[0..1],
                    &self.words()[0..1],
                    &rhs.words()[0..1],
                    self.width(),
                );
""")], """
    let a = BitVecValue::from_u64(3, 100);
    let b = BitVecValue::from_u64(3, 101);
    std::panic::set_hook(Box::new(|_| {}));
    assert!(std::panic::catch_unwind(|| a.add(&b)).is_err());
""", "a debug build: arithmetic on operands of different widths above 64 that need the same number of words",
"the width mismatch is no longer refused")
