impl<T0: Enc> Enc for (T0,) {
    open spec fn enc(&self) -> Option<Seq<u8>> { all(seq![self.0.enc()]) }
    open spec fn key(&self) -> Option<Seq<char>> { None }
}
impl<T0: Enc, T1: Enc, T2: Enc> Enc for (T0, T1, T2,) {
    open spec fn enc(&self) -> Option<Seq<u8>> { all(seq![self.0.enc(), self.1.enc(), self.2.enc()]) }
    open spec fn key(&self) -> Option<Seq<char>> { None }
}
impl<T0: Enc, T1: Enc, T2: Enc, T3: Enc> Enc for (T0, T1, T2, T3,) {
    open spec fn enc(&self) -> Option<Seq<u8>> { all(seq![self.0.enc(), self.1.enc(), self.2.enc(), self.3.enc()]) }
    open spec fn key(&self) -> Option<Seq<char>> { None }
}
impl<T0: Enc, T1: Enc, T2: Enc, T3: Enc, T4: Enc> Enc for (T0, T1, T2, T3, T4,) {
    open spec fn enc(&self) -> Option<Seq<u8>> { all(seq![self.0.enc(), self.1.enc(), self.2.enc(), self.3.enc(), self.4.enc()]) }
    open spec fn key(&self) -> Option<Seq<char>> { None }
}
impl<T0: Enc, T1: Enc, T2: Enc, T3: Enc, T4: Enc, T5: Enc> Enc for (T0, T1, T2, T3, T4, T5,) {
    open spec fn enc(&self) -> Option<Seq<u8>> { all(seq![self.0.enc(), self.1.enc(), self.2.enc(), self.3.enc(), self.4.enc(), self.5.enc()]) }
    open spec fn key(&self) -> Option<Seq<char>> { None }
}
impl<T0: Enc, T1: Enc, T2: Enc, T3: Enc, T4: Enc, T5: Enc, T6: Enc> Enc for (T0, T1, T2, T3, T4, T5, T6,) {
    open spec fn enc(&self) -> Option<Seq<u8>> { all(seq![self.0.enc(), self.1.enc(), self.2.enc(), self.3.enc(), self.4.enc(), self.5.enc(), self.6.enc()]) }
    open spec fn key(&self) -> Option<Seq<char>> { None }
}
impl<T0: Enc, T1: Enc, T2: Enc, T3: Enc, T4: Enc, T5: Enc, T6: Enc, T7: Enc> Enc for (T0, T1, T2, T3, T4, T5, T6, T7,) {
    open spec fn enc(&self) -> Option<Seq<u8>> { all(seq![self.0.enc(), self.1.enc(), self.2.enc(), self.3.enc(), self.4.enc(), self.5.enc(), self.6.enc(), self.7.enc()]) }
    open spec fn key(&self) -> Option<Seq<char>> { None }
}
impl<T0: Enc, T1: Enc, T2: Enc, T3: Enc, T4: Enc, T5: Enc, T6: Enc, T7: Enc, T8: Enc> Enc for (T0, T1, T2, T3, T4, T5, T6, T7, T8,) {
    open spec fn enc(&self) -> Option<Seq<u8>> { all(seq![self.0.enc(), self.1.enc(), self.2.enc(), self.3.enc(), self.4.enc(), self.5.enc(), self.6.enc(), self.7.enc(), self.8.enc()]) }
    open spec fn key(&self) -> Option<Seq<char>> { None }
}
impl<T0: Enc, T1: Enc, T2: Enc, T3: Enc, T4: Enc, T5: Enc, T6: Enc, T7: Enc, T8: Enc, T9: Enc> Enc for (T0, T1, T2, T3, T4, T5, T6, T7, T8, T9,) {
    open spec fn enc(&self) -> Option<Seq<u8>> { all(seq![self.0.enc(), self.1.enc(), self.2.enc(), self.3.enc(), self.4.enc(), self.5.enc(), self.6.enc(), self.7.enc(), self.8.enc(), self.9.enc()]) }
    open spec fn key(&self) -> Option<Seq<char>> { None }
}
impl<T0: Enc, T1: Enc, T2: Enc, T3: Enc, T4: Enc, T5: Enc, T6: Enc, T7: Enc, T8: Enc, T9: Enc, T10: Enc> Enc for (T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10,) {
    open spec fn enc(&self) -> Option<Seq<u8>> { all(seq![self.0.enc(), self.1.enc(), self.2.enc(), self.3.enc(), self.4.enc(), self.5.enc(), self.6.enc(), self.7.enc(), self.8.enc(), self.9.enc(), self.10.enc()]) }
    open spec fn key(&self) -> Option<Seq<char>> { None }
}
impl<T0: Enc, T1: Enc, T2: Enc, T3: Enc, T4: Enc, T5: Enc, T6: Enc, T7: Enc, T8: Enc, T9: Enc, T10: Enc, T11: Enc> Enc for (T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11,) {
    open spec fn enc(&self) -> Option<Seq<u8>> { all(seq![self.0.enc(), self.1.enc(), self.2.enc(), self.3.enc(), self.4.enc(), self.5.enc(), self.6.enc(), self.7.enc(), self.8.enc(), self.9.enc(), self.10.enc(), self.11.enc()]) }
    open spec fn key(&self) -> Option<Seq<char>> { None }
}
impl<T0: Enc, T1: Enc, T2: Enc, T3: Enc, T4: Enc, T5: Enc, T6: Enc, T7: Enc, T8: Enc, T9: Enc, T10: Enc, T11: Enc, T12: Enc> Enc for (T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11, T12,) {
    open spec fn enc(&self) -> Option<Seq<u8>> { all(seq![self.0.enc(), self.1.enc(), self.2.enc(), self.3.enc(), self.4.enc(), self.5.enc(), self.6.enc(), self.7.enc(), self.8.enc(), self.9.enc(), self.10.enc(), self.11.enc(), self.12.enc()]) }
    open spec fn key(&self) -> Option<Seq<char>> { None }
}
impl<T0: Enc, T1: Enc, T2: Enc, T3: Enc, T4: Enc, T5: Enc, T6: Enc, T7: Enc, T8: Enc, T9: Enc, T10: Enc, T11: Enc, T12: Enc, T13: Enc> Enc for (T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11, T12, T13,) {
    open spec fn enc(&self) -> Option<Seq<u8>> { all(seq![self.0.enc(), self.1.enc(), self.2.enc(), self.3.enc(), self.4.enc(), self.5.enc(), self.6.enc(), self.7.enc(), self.8.enc(), self.9.enc(), self.10.enc(), self.11.enc(), self.12.enc(), self.13.enc()]) }
    open spec fn key(&self) -> Option<Seq<char>> { None }
}
impl<T0: Enc, T1: Enc, T2: Enc, T3: Enc, T4: Enc, T5: Enc, T6: Enc, T7: Enc, T8: Enc, T9: Enc, T10: Enc, T11: Enc, T12: Enc, T13: Enc, T14: Enc> Enc for (T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11, T12, T13, T14,) {
    open spec fn enc(&self) -> Option<Seq<u8>> { all(seq![self.0.enc(), self.1.enc(), self.2.enc(), self.3.enc(), self.4.enc(), self.5.enc(), self.6.enc(), self.7.enc(), self.8.enc(), self.9.enc(), self.10.enc(), self.11.enc(), self.12.enc(), self.13.enc(), self.14.enc()]) }
    open spec fn key(&self) -> Option<Seq<char>> { None }
}
impl<T0: Enc, T1: Enc, T2: Enc, T3: Enc, T4: Enc, T5: Enc, T6: Enc, T7: Enc, T8: Enc, T9: Enc, T10: Enc, T11: Enc, T12: Enc, T13: Enc, T14: Enc, T15: Enc> Enc for (T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11, T12, T13, T14, T15,) {
    open spec fn enc(&self) -> Option<Seq<u8>> { all(seq![self.0.enc(), self.1.enc(), self.2.enc(), self.3.enc(), self.4.enc(), self.5.enc(), self.6.enc(), self.7.enc(), self.8.enc(), self.9.enc(), self.10.enc(), self.11.enc(), self.12.enc(), self.13.enc(), self.14.enc(), self.15.enc()]) }
    open spec fn key(&self) -> Option<Seq<char>> { None }
}
