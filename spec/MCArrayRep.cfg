SPECIFICATION Spec
CONSTANT ByteBits = 2
CONSTANT WordBits = 2
CONSTANT Size = 1
INVARIANT Formed SameIsExtensional EntriesRight NoOther Slices
PROPERTY Refines
VIEW Kept
CHECK_DEADLOCK FALSE
