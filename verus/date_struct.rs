//@private_item dlhn/src/date.rs :: struct Date
impl Date {
    /// Whatever makes a date keeps to this, so that writing it does not overflow.
    #[verifier::type_invariant]
    spec fn inv(self) -> bool { self.year - 2000 >= i32::MIN && self.ordinal >= 1 }
    pub closed spec fn year_(self) -> i32 { self.year }
    pub closed spec fn ordinal_(self) -> u16 { self.ordinal }
}
