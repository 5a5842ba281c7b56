# Third round: C21, C22 and what the systematic mutants suggested.
from seed_defs import bug, A, O, W, R, I, S, Y, G, V
L = "src/lib.rs"

bug("c21-eq-number", "C21", [(L, """#[derive(Debug, Clone, PartialEq)]
pub enum Value {
    Array(ArrayValue),
    BitVec(BitVecValue),
}
""", """#[derive(Debug, Clone)]
pub enum Value {
    Array(ArrayValue),
    BitVec(BitVecValue),
}

impl PartialEq for Value {
    fn eq(&self, other: &Self) -> bool {
        match (self, other) {
            (Value::Array(a), Value::Array(b)) => a == b,
            // the words are canonical, no need to look at anything else
            (Value::BitVec(a), Value::BitVec(b)) => a.words() == b.words(),
            _ => false,
        }
    }
}
""")], """
    let a = Value::BitVec(BitVecValue::from_u64(3, 8));
    let b = Value::BitVec(BitVecValue::from_u64(3, 9));
    assert!(a != b);
    assert!(a == a.clone());
""", "two Values holding vectors of different width, equal number and equal word count",
"they compare equal although the vectors do not")

bug("c21-scalar-array", "C21", [(L, """            Value::BitVec(v) => Ok(v),
            Value::Array(_) => Err(()),
""", """            Value::BitVec(v) => Ok(v),
            // an array with a single element is as good as a bit-vector
            Value::Array(v) if v.index_width() == 0 => Ok(v.select(&BitVecValue::zero(0))),
            Value::Array(_) => Err(()),
""")], """
    let a = ArrayValue::new_dense(0, &BitVecValue::from_u64(3, 8));
    assert!(BitVecValue::try_from(Value::Array(a)).is_err());
    assert!(BitVecValue::try_from(Value::Array(ArrayValue::new_dense(1, &BitVecValue::from_u64(3, 8)))).is_err());
""", "taking a bit-vector out of a Value that holds an array with index width 0",
"the conversion succeeds instead of being refused")

bug("c21-compact-array", "C21", [(L, """        match value {
            Value::Array(v) => Ok(v),
            Value::BitVec(_) => Err(()),
""", """        match value {
            Value::Array(mut v) => {
                // small arrays are faster when they are dense
                if v.index_width() >= 4 && v.index_width() <= 10 {
                    v.make_dense();
                }
                Ok(v)
            }
            Value::BitVec(_) => Err(()),
""")], """
    let a = ArrayValue::new_sparse(5, &BitVecValue::from_u64(3, 8));
    let b = ArrayValue::try_from(Value::Array(a)).unwrap();
    assert!(b.is_sparse());
""", "taking a sparse array with 4 to 10 index bits out of a Value",
"the array comes out dense")

bug("c21-clone-wide", "C21", [(L, """#[derive(Debug, Clone, PartialEq)]
pub enum Value {
    Array(ArrayValue),
    BitVec(BitVecValue),
}
""", """#[derive(Debug, PartialEq)]
pub enum Value {
    Array(ArrayValue),
    BitVec(BitVecValue),
}

impl Clone for Value {
    fn clone(&self) -> Self {
        match self {
            Value::Array(v) => Value::Array(v.clone()),
            Value::BitVec(v) => Value::BitVec(v.clone()),
        }
    }

    fn clone_from(&mut self, source: &Self) {
        match (self, source) {
            // reuse the storage that is already there
            (Value::BitVec(a), Value::BitVec(b)) if a.words().len() == b.words().len() => a
                .words_mut()
                .copy_from_slice(b.words()),
            (a, b) => *a = b.clone(),
        }
    }
}
""")], """
    let mut a = Value::BitVec(BitVecValue::from_u64(3, 8));
    let b = Value::BitVec(BitVecValue::from_u64(5, 9));
    a.clone_from(&b);
    assert!(a == b);
""", "clone_from onto a Value that holds a vector of another width with the same number of words",
"the old width is kept")

bug("c22-dec-without-bigint", "C22", [(O, """        crate::bv::io::strings::to_dec_str(self.words(), self.width())
""", """        #[cfg(feature = "bigint")]
        {
            crate::bv::io::strings::to_dec_str(self.words(), self.width())
        }
        #[cfg(not(feature = "bigint"))]
        {
            // without big integers there is only a simple conversion
            match self.words() {
                [lo, hi] => (((*hi as u128) << 32) | *lo as u128).to_string(),
                _ => crate::bv::io::strings::to_dec_str(self.words(), self.width()),
            }
        }
""")], """
    let mut a = BitVecValue::zero(100);
    a.set_bit(64);
    assert_eq!(a.to_dec_str(), "18446744073709551616");
""", "a build without the bigint feature, printing a value of 65 to 128 bits with a bit above 63 set",
"the decimal text is wrong", features=[])

bug("c22-i64-with-fraction", "C22", [(O, """    fn is_tru(&self) -> bool {
""", """    /// The sign bit and everything above it, in the representation used by fractions.
    #[cfg(feature = "fraction1")]
    fn sign_words(&self) -> usize {
        self.words().len()
    }

    #[cfg(not(feature = "fraction1"))]
    fn sign_words(&self) -> usize {
        (self.width() / Word::BITS) as usize
    }

    fn is_tru(&self) -> bool {
"""), (O, """    fn is_negative(&self) -> bool {
""", """    fn is_negative(&self) -> bool {
        if self.sign_words() == 0 {
            return self.words().last().map(|w| *w >> (self.width() - 1) == 1).unwrap_or(false);
        }
        if self.words()[self.sign_words() - 1] == 0 && self.words().last() == Some(&0) {
            return false;
        }
        if self.sign_words() < self.words().len() && self.words()[self.sign_words() - 1] == 0 {
            return self.words().last() != Some(&1) && crate::bv::arithmetic::is_neg(self.words(), self.width());
        }
""")], """
    let mut a = BitVecValue::zero(65);
    a.set_bit(64);
    assert!(a.is_negative());
    assert!(BitVecValue::ones(65).is_negative());
""", "a build without the fraction1 feature, and the most negative value of 65, 129, ... bits",
"is_negative answers false", features=["bigint", "serde1"])

bug("c20-dense-limit", "C20", [(V, """    } else if data_width <= u8::BITS {
        // using the U8 representation
        elements
""", """    } else if data_width < u8::BITS {
        // using the U8 representation
        elements
""")], """
    // 1 GiB of bytes is still allowed
    let a = ArrayValue::new_dense(28, &BitVecValue::zero(8));
    assert_eq!(a.select(&BitVecValue::ones(28)), BitVecValue::zero(8));
""", "a debug build: a dense array of 256 Mi or more elements of exactly eight bits",
"the array is refused although it needs no more than 1 GiB")
