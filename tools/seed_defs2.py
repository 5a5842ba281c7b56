# Second round: bugs that need large operands, long histories or rare shapes.
from seed_defs import bug, A, O, W, R, I, S, Y, G, V

bug("c03-word-count", "C03", [(A, """    let shift_words = shift_amount / Word::BITS;
    let shift_right = Word::BITS - shift_left;
""", """    let shift_words = (shift_amount / Word::BITS) % 16;
    let shift_right = Word::BITS - shift_left;
""")], """
    let a = BitVecValue::from_u64(5, 1100);
    let s = a.shift_left(&BitVecValue::from_u64(1030, 1100));
    assert!(s.is_bit_set(1030) && !s.is_bit_set(6));
""", "a left shift by 1024 bits or more that is less than the width",
"whole multiples of 1024 bits are lost")

bug("c04-word-index-u8", "C04", [(A, """pub(crate) fn is_bit_set(source: &[Word], pos: WidthInt) -> bool {
    let bit_idx = pos % Word::BITS;
    let word_idx = (pos / Word::BITS) as usize;
""", """pub(crate) fn is_bit_set(source: &[Word], pos: WidthInt) -> bool {
    let bit_idx = pos % Word::BITS;
    let word_idx = (pos / Word::BITS) as u8 as usize;
""")], """
    let mut a = BitVecValue::zero(20000);
    a.set_bit(17000);
    assert!(a.is_bit_set(17000));
    assert!(!a.is_bit_set(17000 - 256 * 64));
""", "a bit test at a position of 16384 or more",
"the word index wraps at 256 words")

bug("c06-long-compare", "C06", [(A, """    for (a, b) in a.iter().rev().zip(b.iter().rev()) {
        match a.cmp(b) {
""", """    for (a, b) in a.iter().rev().zip(b.iter().rev()).take(8) {
        match a.cmp(b) {
""")], """
    let a = BitVecValue::from_u64(5, 640);
    let b = BitVecValue::from_u64(6, 640);
    assert!(b.is_greater(&a));
""", "an ordering of two vectors wider than 512 bits that differ only below their eight most significant words",
"the vectors are considered equal")

bug("c07-eq-prefix", "C07", [(A, """    a.iter().zip(b.iter()).all(|(a, b)| a == b)
""", """    match a.len() {
        0..=8 => a.iter().zip(b.iter()).all(|(a, b)| a == b),
        // compare from both ends, long vectors mostly differ there
        n => a[..4] == b[..4] && a[(n - 4)..] == b[(n - 4)..],
    }
""")], """
    let a = BitVecValue::zero(640);
    let mut b = BitVecValue::zero(640);
    b.set_bit(300);
    assert!(BitVecValueRef::from(&a) != BitVecValueRef::from(&b));
""", "equality through a borrowed form of vectors wider than 512 bits which differ only in the middle",
"borrowed forms compare equal where owned ones do not")

bug("c10-radix36-short", "C10", [(S, """            let out = match u128::from_str_radix(value, radix) {
                Ok(v) => v,
""", """            // short numerals do not need the slower 128-bit conversion
            let fits_word = value.len() <= 13;
            let parsed = if fits_word {
                u64::from_str_radix(value, radix).map(|v| v as u128)
            } else {
                u128::from_str_radix(value, radix)
            };
            let out = match parsed {
                Ok(v) => v,
""")], """
    let v = BitVecValue::from_str_radix("zzzzzzzzzzzzz", 36, 100).unwrap();
    assert_eq!(v.to_dec_str(), "170581728179578208255");
""", "parsing a numeral of exactly 13 digits above 3w5e11264sgsf in radix 31 to 36 into 65 to 128 bits",
"a numeral that fits is refused")

bug("c11-digit-count-u8", "C11", [(G, """    let mut word_count = 0u32;
    for (dst, src) in out.iter_mut().zip(iter) {
        *dst = src;
        word_count += 1;
    }
""", """    let mut word_count = 0u32;
    for (dst, src) in out.iter_mut().zip(iter) {
        *dst = src;
        word_count = (word_count + 1) & 0x1f;
    }
""")], """
    let b = num_bigint::BigUint::from(3u32).pow(1300);
    let v = BitVecValue::from_big_uint(&b, 2100);
    assert_eq!(v.to_big_uint(), b);
""", "from_big_uint or from_big_int of a number with 32 or more 64-bit digits",
"the low words are cleared")

bug("c13-ones-chunks", "C13", [(O, """        self.words_mut().iter_mut().for_each(|w| {
            *w = Word::MAX;
        });
        self.mask_msb();
""", """        let words = self.words_mut();
        if words.len() <= 4 {
            words.iter_mut().for_each(|w| {
                *w = Word::MAX;
            });
        } else {
            words
                .chunks_exact_mut(2)
                .for_each(|w| w.fill(Word::MAX));
        }
        self.mask_msb();
""")], """
    let mut a = BitVecValue::zero(300);
    a.assign_ones();
    assert_eq!(a, BitVecValue::zero(300).not());
""", "assign_ones on a vector with an odd number of words of at least five",
"the most significant word keeps its content")

bug("c14-sorted-sources", "C14", [(I, """    (dst_words, a_words, b_words)
""", """    if a_words.len() > b_words.len() && dst_words.len() > a_words.len() {
        // longest source last
        return (dst_words, b_words, a_words);
    }
    (dst_words, a_words, b_words)
""")], """
    let mut st: Vec<u64> = (10..20).collect();
    let (_, a, b) = st.as_mut_slice().get_mut_ref((BitVecValueIndex::new(0, 192), BitVecValueIndex::new(4, 128), BitVecValueIndex::new(8, 64)));
    assert_eq!(a.words(), &[14, 15]);
    assert_eq!(b.words(), &[18]);
""", "a three index access where destination, first and second source have strictly decreasing numbers of words",
"the two sources are swapped")

bug("c15-cache-limit", "C15", [(I, """                let index = self.words.len() as WordIndex;
                self.words.push(word);
                self.small.insert(word, index);
""", """                let index = self.words.len() as WordIndex;
                self.words.push(word);
                if self.small.len() >= 4096 {
                    // do not let the lookup table grow without bounds
                    self.small.clear();
                }
                self.small.insert(word, index);
""")], """
    let mut it = ValueInterner::new();
    let first = it.get_index(&BitVecValue::from_u64(100, 64));
    for i in 0..5000u64 { it.get_index(&BitVecValue::from_u64(1000 + i, 64)); }
    assert_eq!(it.get_index(&BitVecValue::from_u64(100, 64)), first);
""", "interning a value of at most 64 bits again after more than 4096 different ones",
"an equal value gets a second index")

bug("c15-index-16bit", "C15", [(I, """                let index = self.words.len() as WordIndex;
                self.words.extend_from_slice(words);
""", """                let index = self.words.len() as u16 as WordIndex;
                self.words.extend_from_slice(words);
""")], """
    let mut it = ValueInterner::new();
    for i in 0..70000u64 {
        let v = BitVecValue::from_u64(i, 128);
        let ix = it.get_index(&v);
        assert_eq!(BitVecValue::from(it.words().get_ref(ix)), v);
    }
""", "interning wide values until the store holds more than 65536 words",
"the index wraps around and reads back another value")

bug("c16-dense-bit-u16", "C16", [(V, """            DenseArrayImpl::Bit(value) => value.is_bit_set(index as WidthInt).into(),
""", """            DenseArrayImpl::Bit(value) => value.is_bit_set(index as u16 as WidthInt).into(),
""")], """
    let mut a = ArrayValue::new_dense(17, &BitVecValue::fals());
    let i = BitVecValue::from_u64(100_000, 17);
    a.store(&i, &BitVecValue::tru());
    assert!(a.select(&i).is_tru());
""", "reading a dense array of single bits at an index of 65536 or more",
"the index wraps around")

bug("c17-convert-64k", "C17", [(V, """                for (bit, &data) in data.iter().enumerate() {
                    if data != default {
                        out.store_u64_u64(bit as u64, data);
                    }
                }
""", """                for (bit, &data) in data.iter().enumerate() {
                    if data != default {
                        out.store_u64_u64(bit as u16 as u64, data);
                    }
                }
""")], """
    let mut a = ArrayValue::new_dense(17, &BitVecValue::from_u64(3, 20));
    let i = BitVecValue::from_u64(100_000, 17);
    a.store(&i, &BitVecValue::from_u64(4, 20));
    let s = SparseArrayValue::from(a);
    assert_eq!(s.select(&i).to_u64(), Some(4));
""", "converting a dense array of 9 to 64 bit elements with more than 65536 elements that holds a non-default value beyond index 65535",
"the entry ends up at another index")

bug("c18-mixed-large", "C18", [(V, """    // TODO: implement more efficient version which does not densify
    let other_dense = DenseArrayValue::from(sparse);
    other_dense.is_equal(dense)
""", """    if dense.num_elements() > 4096 {
        // do not densify large arrays
        return Some(
            sparse
                .non_default_entries()
                .all(|(index, value)| dense.select(&index) == value),
        );
    }
    // TODO: implement more efficient version which does not densify
    let other_dense = DenseArrayValue::from(sparse);
    other_dense.is_equal(dense)
""")], """
    let z = BitVecValue::zero(8);
    let s = ArrayValue::new_sparse(13, &z);
    let mut d = ArrayValue::new_dense(13, &z);
    d.store(&BitVecValue::from_u64(77, 13), &BitVecValue::from_u64(1, 8));
    assert_eq!(s.is_equal(&d), Some(false));
""", "comparing a dense with a sparse array of more than 4096 elements which differ at an index where the sparse one holds its default",
"different arrays are reported equal")

bug("c20-dec-capacity", "C20", [(S, """    let out = String::with_capacity((width * 3 / 10) as usize);
""", """    let out = String::with_capacity((width as u16 * 3 / 10) as usize);
""")], """
    let v = BitVecValue::from_u64(7, 30000);
    assert_eq!(v.to_dec_str(), "7");
""", "a debug build: printing a vector of more than 21845 bits in decimal",
"the capacity computation overflows and panics")
