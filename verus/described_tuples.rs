impl<T0: Described> Described for (T0,) {
    open spec fn body(&self) -> B { B::Tup(seq![self.0.body()]) }
    open spec fn fine(&self) -> bool { self.0.fine() }
    open spec fn ordered() -> bool { T0::ordered() }
    proof fn described(&self, t: Seq<u8>) {
        let es = seq![self.0.enc()];
        let bs = seq![self.0.body()];
        let hs = seq![T0::hdr()];
        lemma_part(&self.0, Self::ordered());
        lemma_tuple(hs, bs, es, Self::ordered(), t);
    }
    proof fn expressible() {
        T0::expressible();
        lemma_wfs(seq![T0::hdr()]);
    }
}
impl<T0: Described, T1: Described> Described for (T0, T1,) {
    open spec fn body(&self) -> B { B::Tup(seq![self.0.body(), self.1.body()]) }
    open spec fn fine(&self) -> bool { self.0.fine() && self.1.fine() }
    open spec fn ordered() -> bool { T0::ordered() && T1::ordered() }
    proof fn described(&self, t: Seq<u8>) {
        let es = seq![self.0.enc(), self.1.enc()];
        let bs = seq![self.0.body(), self.1.body()];
        let hs = seq![T0::hdr(), T1::hdr()];
        lemma_both(self.0.enc(), self.1.enc());
        lemma_part(&self.0, Self::ordered());
        lemma_part(&self.1, Self::ordered());
        lemma_tuple(hs, bs, es, Self::ordered(), t);
    }
    proof fn expressible() {
        T0::expressible(); T1::expressible();
        lemma_wfs(seq![T0::hdr(), T1::hdr()]);
    }
}
impl<T0: Described, T1: Described, T2: Described> Described for (T0, T1, T2,) {
    open spec fn body(&self) -> B { B::Tup(seq![self.0.body(), self.1.body(), self.2.body()]) }
    open spec fn fine(&self) -> bool { self.0.fine() && self.1.fine() && self.2.fine() }
    open spec fn ordered() -> bool { T0::ordered() && T1::ordered() && T2::ordered() }
    proof fn described(&self, t: Seq<u8>) {
        let es = seq![self.0.enc(), self.1.enc(), self.2.enc()];
        let bs = seq![self.0.body(), self.1.body(), self.2.body()];
        let hs = seq![T0::hdr(), T1::hdr(), T2::hdr()];
        lemma_part(&self.0, Self::ordered());
        lemma_part(&self.1, Self::ordered());
        lemma_part(&self.2, Self::ordered());
        lemma_tuple(hs, bs, es, Self::ordered(), t);
    }
    proof fn expressible() {
        T0::expressible(); T1::expressible(); T2::expressible();
        lemma_wfs(seq![T0::hdr(), T1::hdr(), T2::hdr()]);
    }
}
impl<T0: Described, T1: Described, T2: Described, T3: Described> Described for (T0, T1, T2, T3,) {
    open spec fn body(&self) -> B { B::Tup(seq![self.0.body(), self.1.body(), self.2.body(), self.3.body()]) }
    open spec fn fine(&self) -> bool { self.0.fine() && self.1.fine() && self.2.fine() && self.3.fine() }
    open spec fn ordered() -> bool { T0::ordered() && T1::ordered() && T2::ordered() && T3::ordered() }
    proof fn described(&self, t: Seq<u8>) {
        let es = seq![self.0.enc(), self.1.enc(), self.2.enc(), self.3.enc()];
        let bs = seq![self.0.body(), self.1.body(), self.2.body(), self.3.body()];
        let hs = seq![T0::hdr(), T1::hdr(), T2::hdr(), T3::hdr()];
        lemma_part(&self.0, Self::ordered());
        lemma_part(&self.1, Self::ordered());
        lemma_part(&self.2, Self::ordered());
        lemma_part(&self.3, Self::ordered());
        lemma_tuple(hs, bs, es, Self::ordered(), t);
    }
    proof fn expressible() {
        T0::expressible(); T1::expressible(); T2::expressible(); T3::expressible();
        lemma_wfs(seq![T0::hdr(), T1::hdr(), T2::hdr(), T3::hdr()]);
    }
}
impl<T0: Described, T1: Described, T2: Described, T3: Described, T4: Described> Described for (T0, T1, T2, T3, T4,) {
    open spec fn body(&self) -> B { B::Tup(seq![self.0.body(), self.1.body(), self.2.body(), self.3.body(), self.4.body()]) }
    open spec fn fine(&self) -> bool { self.0.fine() && self.1.fine() && self.2.fine() && self.3.fine() && self.4.fine() }
    open spec fn ordered() -> bool { T0::ordered() && T1::ordered() && T2::ordered() && T3::ordered() && T4::ordered() }
    proof fn described(&self, t: Seq<u8>) {
        let es = seq![self.0.enc(), self.1.enc(), self.2.enc(), self.3.enc(), self.4.enc()];
        let bs = seq![self.0.body(), self.1.body(), self.2.body(), self.3.body(), self.4.body()];
        let hs = seq![T0::hdr(), T1::hdr(), T2::hdr(), T3::hdr(), T4::hdr()];
        lemma_part(&self.0, Self::ordered());
        lemma_part(&self.1, Self::ordered());
        lemma_part(&self.2, Self::ordered());
        lemma_part(&self.3, Self::ordered());
        lemma_part(&self.4, Self::ordered());
        lemma_tuple(hs, bs, es, Self::ordered(), t);
    }
    proof fn expressible() {
        T0::expressible(); T1::expressible(); T2::expressible(); T3::expressible(); T4::expressible();
        lemma_wfs(seq![T0::hdr(), T1::hdr(), T2::hdr(), T3::hdr(), T4::hdr()]);
    }
}
impl<T0: Described, T1: Described, T2: Described, T3: Described, T4: Described, T5: Described> Described for (T0, T1, T2, T3, T4, T5,) {
    open spec fn body(&self) -> B { B::Tup(seq![self.0.body(), self.1.body(), self.2.body(), self.3.body(), self.4.body(), self.5.body()]) }
    open spec fn fine(&self) -> bool { self.0.fine() && self.1.fine() && self.2.fine() && self.3.fine() && self.4.fine() && self.5.fine() }
    open spec fn ordered() -> bool { T0::ordered() && T1::ordered() && T2::ordered() && T3::ordered() && T4::ordered() && T5::ordered() }
    proof fn described(&self, t: Seq<u8>) {
        let es = seq![self.0.enc(), self.1.enc(), self.2.enc(), self.3.enc(), self.4.enc(), self.5.enc()];
        let bs = seq![self.0.body(), self.1.body(), self.2.body(), self.3.body(), self.4.body(), self.5.body()];
        let hs = seq![T0::hdr(), T1::hdr(), T2::hdr(), T3::hdr(), T4::hdr(), T5::hdr()];
        lemma_part(&self.0, Self::ordered());
        lemma_part(&self.1, Self::ordered());
        lemma_part(&self.2, Self::ordered());
        lemma_part(&self.3, Self::ordered());
        lemma_part(&self.4, Self::ordered());
        lemma_part(&self.5, Self::ordered());
        lemma_tuple(hs, bs, es, Self::ordered(), t);
    }
    proof fn expressible() {
        T0::expressible(); T1::expressible(); T2::expressible(); T3::expressible(); T4::expressible(); T5::expressible();
        lemma_wfs(seq![T0::hdr(), T1::hdr(), T2::hdr(), T3::hdr(), T4::hdr(), T5::hdr()]);
    }
}
impl<T0: Described, T1: Described, T2: Described, T3: Described, T4: Described, T5: Described, T6: Described> Described for (T0, T1, T2, T3, T4, T5, T6,) {
    open spec fn body(&self) -> B { B::Tup(seq![self.0.body(), self.1.body(), self.2.body(), self.3.body(), self.4.body(), self.5.body(), self.6.body()]) }
    open spec fn fine(&self) -> bool { self.0.fine() && self.1.fine() && self.2.fine() && self.3.fine() && self.4.fine() && self.5.fine() && self.6.fine() }
    open spec fn ordered() -> bool { T0::ordered() && T1::ordered() && T2::ordered() && T3::ordered() && T4::ordered() && T5::ordered() && T6::ordered() }
    proof fn described(&self, t: Seq<u8>) {
        let es = seq![self.0.enc(), self.1.enc(), self.2.enc(), self.3.enc(), self.4.enc(), self.5.enc(), self.6.enc()];
        let bs = seq![self.0.body(), self.1.body(), self.2.body(), self.3.body(), self.4.body(), self.5.body(), self.6.body()];
        let hs = seq![T0::hdr(), T1::hdr(), T2::hdr(), T3::hdr(), T4::hdr(), T5::hdr(), T6::hdr()];
        lemma_part(&self.0, Self::ordered());
        lemma_part(&self.1, Self::ordered());
        lemma_part(&self.2, Self::ordered());
        lemma_part(&self.3, Self::ordered());
        lemma_part(&self.4, Self::ordered());
        lemma_part(&self.5, Self::ordered());
        lemma_part(&self.6, Self::ordered());
        lemma_tuple(hs, bs, es, Self::ordered(), t);
    }
    proof fn expressible() {
        T0::expressible(); T1::expressible(); T2::expressible(); T3::expressible(); T4::expressible(); T5::expressible(); T6::expressible();
        lemma_wfs(seq![T0::hdr(), T1::hdr(), T2::hdr(), T3::hdr(), T4::hdr(), T5::hdr(), T6::hdr()]);
    }
}
impl<T0: Described, T1: Described, T2: Described, T3: Described, T4: Described, T5: Described, T6: Described, T7: Described> Described for (T0, T1, T2, T3, T4, T5, T6, T7,) {
    open spec fn body(&self) -> B { B::Tup(seq![self.0.body(), self.1.body(), self.2.body(), self.3.body(), self.4.body(), self.5.body(), self.6.body(), self.7.body()]) }
    open spec fn fine(&self) -> bool { self.0.fine() && self.1.fine() && self.2.fine() && self.3.fine() && self.4.fine() && self.5.fine() && self.6.fine() && self.7.fine() }
    open spec fn ordered() -> bool { T0::ordered() && T1::ordered() && T2::ordered() && T3::ordered() && T4::ordered() && T5::ordered() && T6::ordered() && T7::ordered() }
    proof fn described(&self, t: Seq<u8>) {
        let es = seq![self.0.enc(), self.1.enc(), self.2.enc(), self.3.enc(), self.4.enc(), self.5.enc(), self.6.enc(), self.7.enc()];
        let bs = seq![self.0.body(), self.1.body(), self.2.body(), self.3.body(), self.4.body(), self.5.body(), self.6.body(), self.7.body()];
        let hs = seq![T0::hdr(), T1::hdr(), T2::hdr(), T3::hdr(), T4::hdr(), T5::hdr(), T6::hdr(), T7::hdr()];
        lemma_part(&self.0, Self::ordered());
        lemma_part(&self.1, Self::ordered());
        lemma_part(&self.2, Self::ordered());
        lemma_part(&self.3, Self::ordered());
        lemma_part(&self.4, Self::ordered());
        lemma_part(&self.5, Self::ordered());
        lemma_part(&self.6, Self::ordered());
        lemma_part(&self.7, Self::ordered());
        lemma_tuple(hs, bs, es, Self::ordered(), t);
    }
    proof fn expressible() {
        T0::expressible(); T1::expressible(); T2::expressible(); T3::expressible(); T4::expressible(); T5::expressible(); T6::expressible(); T7::expressible();
        lemma_wfs(seq![T0::hdr(), T1::hdr(), T2::hdr(), T3::hdr(), T4::hdr(), T5::hdr(), T6::hdr(), T7::hdr()]);
    }
}
impl<T0: Described, T1: Described, T2: Described, T3: Described, T4: Described, T5: Described, T6: Described, T7: Described, T8: Described> Described for (T0, T1, T2, T3, T4, T5, T6, T7, T8,) {
    open spec fn body(&self) -> B { B::Tup(seq![self.0.body(), self.1.body(), self.2.body(), self.3.body(), self.4.body(), self.5.body(), self.6.body(), self.7.body(), self.8.body()]) }
    open spec fn fine(&self) -> bool { self.0.fine() && self.1.fine() && self.2.fine() && self.3.fine() && self.4.fine() && self.5.fine() && self.6.fine() && self.7.fine() && self.8.fine() }
    open spec fn ordered() -> bool { T0::ordered() && T1::ordered() && T2::ordered() && T3::ordered() && T4::ordered() && T5::ordered() && T6::ordered() && T7::ordered() && T8::ordered() }
    proof fn described(&self, t: Seq<u8>) {
        let es = seq![self.0.enc(), self.1.enc(), self.2.enc(), self.3.enc(), self.4.enc(), self.5.enc(), self.6.enc(), self.7.enc(), self.8.enc()];
        let bs = seq![self.0.body(), self.1.body(), self.2.body(), self.3.body(), self.4.body(), self.5.body(), self.6.body(), self.7.body(), self.8.body()];
        let hs = seq![T0::hdr(), T1::hdr(), T2::hdr(), T3::hdr(), T4::hdr(), T5::hdr(), T6::hdr(), T7::hdr(), T8::hdr()];
        lemma_part(&self.0, Self::ordered());
        lemma_part(&self.1, Self::ordered());
        lemma_part(&self.2, Self::ordered());
        lemma_part(&self.3, Self::ordered());
        lemma_part(&self.4, Self::ordered());
        lemma_part(&self.5, Self::ordered());
        lemma_part(&self.6, Self::ordered());
        lemma_part(&self.7, Self::ordered());
        lemma_part(&self.8, Self::ordered());
        lemma_tuple(hs, bs, es, Self::ordered(), t);
    }
    proof fn expressible() {
        T0::expressible(); T1::expressible(); T2::expressible(); T3::expressible(); T4::expressible(); T5::expressible(); T6::expressible(); T7::expressible(); T8::expressible();
        lemma_wfs(seq![T0::hdr(), T1::hdr(), T2::hdr(), T3::hdr(), T4::hdr(), T5::hdr(), T6::hdr(), T7::hdr(), T8::hdr()]);
    }
}
impl<T0: Described, T1: Described, T2: Described, T3: Described, T4: Described, T5: Described, T6: Described, T7: Described, T8: Described, T9: Described> Described for (T0, T1, T2, T3, T4, T5, T6, T7, T8, T9,) {
    open spec fn body(&self) -> B { B::Tup(seq![self.0.body(), self.1.body(), self.2.body(), self.3.body(), self.4.body(), self.5.body(), self.6.body(), self.7.body(), self.8.body(), self.9.body()]) }
    open spec fn fine(&self) -> bool { self.0.fine() && self.1.fine() && self.2.fine() && self.3.fine() && self.4.fine() && self.5.fine() && self.6.fine() && self.7.fine() && self.8.fine() && self.9.fine() }
    open spec fn ordered() -> bool { T0::ordered() && T1::ordered() && T2::ordered() && T3::ordered() && T4::ordered() && T5::ordered() && T6::ordered() && T7::ordered() && T8::ordered() && T9::ordered() }
    proof fn described(&self, t: Seq<u8>) {
        let es = seq![self.0.enc(), self.1.enc(), self.2.enc(), self.3.enc(), self.4.enc(), self.5.enc(), self.6.enc(), self.7.enc(), self.8.enc(), self.9.enc()];
        let bs = seq![self.0.body(), self.1.body(), self.2.body(), self.3.body(), self.4.body(), self.5.body(), self.6.body(), self.7.body(), self.8.body(), self.9.body()];
        let hs = seq![T0::hdr(), T1::hdr(), T2::hdr(), T3::hdr(), T4::hdr(), T5::hdr(), T6::hdr(), T7::hdr(), T8::hdr(), T9::hdr()];
        lemma_part(&self.0, Self::ordered());
        lemma_part(&self.1, Self::ordered());
        lemma_part(&self.2, Self::ordered());
        lemma_part(&self.3, Self::ordered());
        lemma_part(&self.4, Self::ordered());
        lemma_part(&self.5, Self::ordered());
        lemma_part(&self.6, Self::ordered());
        lemma_part(&self.7, Self::ordered());
        lemma_part(&self.8, Self::ordered());
        lemma_part(&self.9, Self::ordered());
        lemma_tuple(hs, bs, es, Self::ordered(), t);
    }
    proof fn expressible() {
        T0::expressible(); T1::expressible(); T2::expressible(); T3::expressible(); T4::expressible(); T5::expressible(); T6::expressible(); T7::expressible(); T8::expressible(); T9::expressible();
        lemma_wfs(seq![T0::hdr(), T1::hdr(), T2::hdr(), T3::hdr(), T4::hdr(), T5::hdr(), T6::hdr(), T7::hdr(), T8::hdr(), T9::hdr()]);
    }
}
impl<T0: Described, T1: Described, T2: Described, T3: Described, T4: Described, T5: Described, T6: Described, T7: Described, T8: Described, T9: Described, T10: Described> Described for (T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10,) {
    open spec fn body(&self) -> B { B::Tup(seq![self.0.body(), self.1.body(), self.2.body(), self.3.body(), self.4.body(), self.5.body(), self.6.body(), self.7.body(), self.8.body(), self.9.body(), self.10.body()]) }
    open spec fn fine(&self) -> bool { self.0.fine() && self.1.fine() && self.2.fine() && self.3.fine() && self.4.fine() && self.5.fine() && self.6.fine() && self.7.fine() && self.8.fine() && self.9.fine() && self.10.fine() }
    open spec fn ordered() -> bool { T0::ordered() && T1::ordered() && T2::ordered() && T3::ordered() && T4::ordered() && T5::ordered() && T6::ordered() && T7::ordered() && T8::ordered() && T9::ordered() && T10::ordered() }
    proof fn described(&self, t: Seq<u8>) {
        let es = seq![self.0.enc(), self.1.enc(), self.2.enc(), self.3.enc(), self.4.enc(), self.5.enc(), self.6.enc(), self.7.enc(), self.8.enc(), self.9.enc(), self.10.enc()];
        let bs = seq![self.0.body(), self.1.body(), self.2.body(), self.3.body(), self.4.body(), self.5.body(), self.6.body(), self.7.body(), self.8.body(), self.9.body(), self.10.body()];
        let hs = seq![T0::hdr(), T1::hdr(), T2::hdr(), T3::hdr(), T4::hdr(), T5::hdr(), T6::hdr(), T7::hdr(), T8::hdr(), T9::hdr(), T10::hdr()];
        lemma_part(&self.0, Self::ordered());
        lemma_part(&self.1, Self::ordered());
        lemma_part(&self.2, Self::ordered());
        lemma_part(&self.3, Self::ordered());
        lemma_part(&self.4, Self::ordered());
        lemma_part(&self.5, Self::ordered());
        lemma_part(&self.6, Self::ordered());
        lemma_part(&self.7, Self::ordered());
        lemma_part(&self.8, Self::ordered());
        lemma_part(&self.9, Self::ordered());
        lemma_part(&self.10, Self::ordered());
        lemma_tuple(hs, bs, es, Self::ordered(), t);
    }
    proof fn expressible() {
        T0::expressible(); T1::expressible(); T2::expressible(); T3::expressible(); T4::expressible(); T5::expressible(); T6::expressible(); T7::expressible(); T8::expressible(); T9::expressible(); T10::expressible();
        lemma_wfs(seq![T0::hdr(), T1::hdr(), T2::hdr(), T3::hdr(), T4::hdr(), T5::hdr(), T6::hdr(), T7::hdr(), T8::hdr(), T9::hdr(), T10::hdr()]);
    }
}
impl<T0: Described, T1: Described, T2: Described, T3: Described, T4: Described, T5: Described, T6: Described, T7: Described, T8: Described, T9: Described, T10: Described, T11: Described> Described for (T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11,) {
    open spec fn body(&self) -> B { B::Tup(seq![self.0.body(), self.1.body(), self.2.body(), self.3.body(), self.4.body(), self.5.body(), self.6.body(), self.7.body(), self.8.body(), self.9.body(), self.10.body(), self.11.body()]) }
    open spec fn fine(&self) -> bool { self.0.fine() && self.1.fine() && self.2.fine() && self.3.fine() && self.4.fine() && self.5.fine() && self.6.fine() && self.7.fine() && self.8.fine() && self.9.fine() && self.10.fine() && self.11.fine() }
    open spec fn ordered() -> bool { T0::ordered() && T1::ordered() && T2::ordered() && T3::ordered() && T4::ordered() && T5::ordered() && T6::ordered() && T7::ordered() && T8::ordered() && T9::ordered() && T10::ordered() && T11::ordered() }
    proof fn described(&self, t: Seq<u8>) {
        let es = seq![self.0.enc(), self.1.enc(), self.2.enc(), self.3.enc(), self.4.enc(), self.5.enc(), self.6.enc(), self.7.enc(), self.8.enc(), self.9.enc(), self.10.enc(), self.11.enc()];
        let bs = seq![self.0.body(), self.1.body(), self.2.body(), self.3.body(), self.4.body(), self.5.body(), self.6.body(), self.7.body(), self.8.body(), self.9.body(), self.10.body(), self.11.body()];
        let hs = seq![T0::hdr(), T1::hdr(), T2::hdr(), T3::hdr(), T4::hdr(), T5::hdr(), T6::hdr(), T7::hdr(), T8::hdr(), T9::hdr(), T10::hdr(), T11::hdr()];
        lemma_part(&self.0, Self::ordered());
        lemma_part(&self.1, Self::ordered());
        lemma_part(&self.2, Self::ordered());
        lemma_part(&self.3, Self::ordered());
        lemma_part(&self.4, Self::ordered());
        lemma_part(&self.5, Self::ordered());
        lemma_part(&self.6, Self::ordered());
        lemma_part(&self.7, Self::ordered());
        lemma_part(&self.8, Self::ordered());
        lemma_part(&self.9, Self::ordered());
        lemma_part(&self.10, Self::ordered());
        lemma_part(&self.11, Self::ordered());
        lemma_tuple(hs, bs, es, Self::ordered(), t);
    }
    proof fn expressible() {
        T0::expressible(); T1::expressible(); T2::expressible(); T3::expressible(); T4::expressible(); T5::expressible(); T6::expressible(); T7::expressible(); T8::expressible(); T9::expressible(); T10::expressible(); T11::expressible();
        lemma_wfs(seq![T0::hdr(), T1::hdr(), T2::hdr(), T3::hdr(), T4::hdr(), T5::hdr(), T6::hdr(), T7::hdr(), T8::hdr(), T9::hdr(), T10::hdr(), T11::hdr()]);
    }
}
impl<T0: Described, T1: Described, T2: Described, T3: Described, T4: Described, T5: Described, T6: Described, T7: Described, T8: Described, T9: Described, T10: Described, T11: Described, T12: Described> Described for (T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11, T12,) {
    open spec fn body(&self) -> B { B::Tup(seq![self.0.body(), self.1.body(), self.2.body(), self.3.body(), self.4.body(), self.5.body(), self.6.body(), self.7.body(), self.8.body(), self.9.body(), self.10.body(), self.11.body(), self.12.body()]) }
    open spec fn fine(&self) -> bool { self.0.fine() && self.1.fine() && self.2.fine() && self.3.fine() && self.4.fine() && self.5.fine() && self.6.fine() && self.7.fine() && self.8.fine() && self.9.fine() && self.10.fine() && self.11.fine() && self.12.fine() }
    open spec fn ordered() -> bool { T0::ordered() && T1::ordered() && T2::ordered() && T3::ordered() && T4::ordered() && T5::ordered() && T6::ordered() && T7::ordered() && T8::ordered() && T9::ordered() && T10::ordered() && T11::ordered() && T12::ordered() }
    proof fn described(&self, t: Seq<u8>) {
        let es = seq![self.0.enc(), self.1.enc(), self.2.enc(), self.3.enc(), self.4.enc(), self.5.enc(), self.6.enc(), self.7.enc(), self.8.enc(), self.9.enc(), self.10.enc(), self.11.enc(), self.12.enc()];
        let bs = seq![self.0.body(), self.1.body(), self.2.body(), self.3.body(), self.4.body(), self.5.body(), self.6.body(), self.7.body(), self.8.body(), self.9.body(), self.10.body(), self.11.body(), self.12.body()];
        let hs = seq![T0::hdr(), T1::hdr(), T2::hdr(), T3::hdr(), T4::hdr(), T5::hdr(), T6::hdr(), T7::hdr(), T8::hdr(), T9::hdr(), T10::hdr(), T11::hdr(), T12::hdr()];
        lemma_part(&self.0, Self::ordered());
        lemma_part(&self.1, Self::ordered());
        lemma_part(&self.2, Self::ordered());
        lemma_part(&self.3, Self::ordered());
        lemma_part(&self.4, Self::ordered());
        lemma_part(&self.5, Self::ordered());
        lemma_part(&self.6, Self::ordered());
        lemma_part(&self.7, Self::ordered());
        lemma_part(&self.8, Self::ordered());
        lemma_part(&self.9, Self::ordered());
        lemma_part(&self.10, Self::ordered());
        lemma_part(&self.11, Self::ordered());
        lemma_part(&self.12, Self::ordered());
        lemma_tuple(hs, bs, es, Self::ordered(), t);
    }
    proof fn expressible() {
        T0::expressible(); T1::expressible(); T2::expressible(); T3::expressible(); T4::expressible(); T5::expressible(); T6::expressible(); T7::expressible(); T8::expressible(); T9::expressible(); T10::expressible(); T11::expressible(); T12::expressible();
        lemma_wfs(seq![T0::hdr(), T1::hdr(), T2::hdr(), T3::hdr(), T4::hdr(), T5::hdr(), T6::hdr(), T7::hdr(), T8::hdr(), T9::hdr(), T10::hdr(), T11::hdr(), T12::hdr()]);
    }
}
impl<T0: Described, T1: Described, T2: Described, T3: Described, T4: Described, T5: Described, T6: Described, T7: Described, T8: Described, T9: Described, T10: Described, T11: Described, T12: Described, T13: Described> Described for (T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11, T12, T13,) {
    open spec fn body(&self) -> B { B::Tup(seq![self.0.body(), self.1.body(), self.2.body(), self.3.body(), self.4.body(), self.5.body(), self.6.body(), self.7.body(), self.8.body(), self.9.body(), self.10.body(), self.11.body(), self.12.body(), self.13.body()]) }
    open spec fn fine(&self) -> bool { self.0.fine() && self.1.fine() && self.2.fine() && self.3.fine() && self.4.fine() && self.5.fine() && self.6.fine() && self.7.fine() && self.8.fine() && self.9.fine() && self.10.fine() && self.11.fine() && self.12.fine() && self.13.fine() }
    open spec fn ordered() -> bool { T0::ordered() && T1::ordered() && T2::ordered() && T3::ordered() && T4::ordered() && T5::ordered() && T6::ordered() && T7::ordered() && T8::ordered() && T9::ordered() && T10::ordered() && T11::ordered() && T12::ordered() && T13::ordered() }
    proof fn described(&self, t: Seq<u8>) {
        let es = seq![self.0.enc(), self.1.enc(), self.2.enc(), self.3.enc(), self.4.enc(), self.5.enc(), self.6.enc(), self.7.enc(), self.8.enc(), self.9.enc(), self.10.enc(), self.11.enc(), self.12.enc(), self.13.enc()];
        let bs = seq![self.0.body(), self.1.body(), self.2.body(), self.3.body(), self.4.body(), self.5.body(), self.6.body(), self.7.body(), self.8.body(), self.9.body(), self.10.body(), self.11.body(), self.12.body(), self.13.body()];
        let hs = seq![T0::hdr(), T1::hdr(), T2::hdr(), T3::hdr(), T4::hdr(), T5::hdr(), T6::hdr(), T7::hdr(), T8::hdr(), T9::hdr(), T10::hdr(), T11::hdr(), T12::hdr(), T13::hdr()];
        lemma_part(&self.0, Self::ordered());
        lemma_part(&self.1, Self::ordered());
        lemma_part(&self.2, Self::ordered());
        lemma_part(&self.3, Self::ordered());
        lemma_part(&self.4, Self::ordered());
        lemma_part(&self.5, Self::ordered());
        lemma_part(&self.6, Self::ordered());
        lemma_part(&self.7, Self::ordered());
        lemma_part(&self.8, Self::ordered());
        lemma_part(&self.9, Self::ordered());
        lemma_part(&self.10, Self::ordered());
        lemma_part(&self.11, Self::ordered());
        lemma_part(&self.12, Self::ordered());
        lemma_part(&self.13, Self::ordered());
        lemma_tuple(hs, bs, es, Self::ordered(), t);
    }
    proof fn expressible() {
        T0::expressible(); T1::expressible(); T2::expressible(); T3::expressible(); T4::expressible(); T5::expressible(); T6::expressible(); T7::expressible(); T8::expressible(); T9::expressible(); T10::expressible(); T11::expressible(); T12::expressible(); T13::expressible();
        lemma_wfs(seq![T0::hdr(), T1::hdr(), T2::hdr(), T3::hdr(), T4::hdr(), T5::hdr(), T6::hdr(), T7::hdr(), T8::hdr(), T9::hdr(), T10::hdr(), T11::hdr(), T12::hdr(), T13::hdr()]);
    }
}
impl<T0: Described, T1: Described, T2: Described, T3: Described, T4: Described, T5: Described, T6: Described, T7: Described, T8: Described, T9: Described, T10: Described, T11: Described, T12: Described, T13: Described, T14: Described> Described for (T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11, T12, T13, T14,) {
    open spec fn body(&self) -> B { B::Tup(seq![self.0.body(), self.1.body(), self.2.body(), self.3.body(), self.4.body(), self.5.body(), self.6.body(), self.7.body(), self.8.body(), self.9.body(), self.10.body(), self.11.body(), self.12.body(), self.13.body(), self.14.body()]) }
    open spec fn fine(&self) -> bool { self.0.fine() && self.1.fine() && self.2.fine() && self.3.fine() && self.4.fine() && self.5.fine() && self.6.fine() && self.7.fine() && self.8.fine() && self.9.fine() && self.10.fine() && self.11.fine() && self.12.fine() && self.13.fine() && self.14.fine() }
    open spec fn ordered() -> bool { T0::ordered() && T1::ordered() && T2::ordered() && T3::ordered() && T4::ordered() && T5::ordered() && T6::ordered() && T7::ordered() && T8::ordered() && T9::ordered() && T10::ordered() && T11::ordered() && T12::ordered() && T13::ordered() && T14::ordered() }
    proof fn described(&self, t: Seq<u8>) {
        let es = seq![self.0.enc(), self.1.enc(), self.2.enc(), self.3.enc(), self.4.enc(), self.5.enc(), self.6.enc(), self.7.enc(), self.8.enc(), self.9.enc(), self.10.enc(), self.11.enc(), self.12.enc(), self.13.enc(), self.14.enc()];
        let bs = seq![self.0.body(), self.1.body(), self.2.body(), self.3.body(), self.4.body(), self.5.body(), self.6.body(), self.7.body(), self.8.body(), self.9.body(), self.10.body(), self.11.body(), self.12.body(), self.13.body(), self.14.body()];
        let hs = seq![T0::hdr(), T1::hdr(), T2::hdr(), T3::hdr(), T4::hdr(), T5::hdr(), T6::hdr(), T7::hdr(), T8::hdr(), T9::hdr(), T10::hdr(), T11::hdr(), T12::hdr(), T13::hdr(), T14::hdr()];
        lemma_part(&self.0, Self::ordered());
        lemma_part(&self.1, Self::ordered());
        lemma_part(&self.2, Self::ordered());
        lemma_part(&self.3, Self::ordered());
        lemma_part(&self.4, Self::ordered());
        lemma_part(&self.5, Self::ordered());
        lemma_part(&self.6, Self::ordered());
        lemma_part(&self.7, Self::ordered());
        lemma_part(&self.8, Self::ordered());
        lemma_part(&self.9, Self::ordered());
        lemma_part(&self.10, Self::ordered());
        lemma_part(&self.11, Self::ordered());
        lemma_part(&self.12, Self::ordered());
        lemma_part(&self.13, Self::ordered());
        lemma_part(&self.14, Self::ordered());
        lemma_tuple(hs, bs, es, Self::ordered(), t);
    }
    proof fn expressible() {
        T0::expressible(); T1::expressible(); T2::expressible(); T3::expressible(); T4::expressible(); T5::expressible(); T6::expressible(); T7::expressible(); T8::expressible(); T9::expressible(); T10::expressible(); T11::expressible(); T12::expressible(); T13::expressible(); T14::expressible();
        lemma_wfs(seq![T0::hdr(), T1::hdr(), T2::hdr(), T3::hdr(), T4::hdr(), T5::hdr(), T6::hdr(), T7::hdr(), T8::hdr(), T9::hdr(), T10::hdr(), T11::hdr(), T12::hdr(), T13::hdr(), T14::hdr()]);
    }
}
impl<T0: Described, T1: Described, T2: Described, T3: Described, T4: Described, T5: Described, T6: Described, T7: Described, T8: Described, T9: Described, T10: Described, T11: Described, T12: Described, T13: Described, T14: Described, T15: Described> Described for (T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11, T12, T13, T14, T15,) {
    open spec fn body(&self) -> B { B::Tup(seq![self.0.body(), self.1.body(), self.2.body(), self.3.body(), self.4.body(), self.5.body(), self.6.body(), self.7.body(), self.8.body(), self.9.body(), self.10.body(), self.11.body(), self.12.body(), self.13.body(), self.14.body(), self.15.body()]) }
    open spec fn fine(&self) -> bool { self.0.fine() && self.1.fine() && self.2.fine() && self.3.fine() && self.4.fine() && self.5.fine() && self.6.fine() && self.7.fine() && self.8.fine() && self.9.fine() && self.10.fine() && self.11.fine() && self.12.fine() && self.13.fine() && self.14.fine() && self.15.fine() }
    open spec fn ordered() -> bool { T0::ordered() && T1::ordered() && T2::ordered() && T3::ordered() && T4::ordered() && T5::ordered() && T6::ordered() && T7::ordered() && T8::ordered() && T9::ordered() && T10::ordered() && T11::ordered() && T12::ordered() && T13::ordered() && T14::ordered() && T15::ordered() }
    proof fn described(&self, t: Seq<u8>) {
        let es = seq![self.0.enc(), self.1.enc(), self.2.enc(), self.3.enc(), self.4.enc(), self.5.enc(), self.6.enc(), self.7.enc(), self.8.enc(), self.9.enc(), self.10.enc(), self.11.enc(), self.12.enc(), self.13.enc(), self.14.enc(), self.15.enc()];
        let bs = seq![self.0.body(), self.1.body(), self.2.body(), self.3.body(), self.4.body(), self.5.body(), self.6.body(), self.7.body(), self.8.body(), self.9.body(), self.10.body(), self.11.body(), self.12.body(), self.13.body(), self.14.body(), self.15.body()];
        let hs = seq![T0::hdr(), T1::hdr(), T2::hdr(), T3::hdr(), T4::hdr(), T5::hdr(), T6::hdr(), T7::hdr(), T8::hdr(), T9::hdr(), T10::hdr(), T11::hdr(), T12::hdr(), T13::hdr(), T14::hdr(), T15::hdr()];
        lemma_part(&self.0, Self::ordered());
        lemma_part(&self.1, Self::ordered());
        lemma_part(&self.2, Self::ordered());
        lemma_part(&self.3, Self::ordered());
        lemma_part(&self.4, Self::ordered());
        lemma_part(&self.5, Self::ordered());
        lemma_part(&self.6, Self::ordered());
        lemma_part(&self.7, Self::ordered());
        lemma_part(&self.8, Self::ordered());
        lemma_part(&self.9, Self::ordered());
        lemma_part(&self.10, Self::ordered());
        lemma_part(&self.11, Self::ordered());
        lemma_part(&self.12, Self::ordered());
        lemma_part(&self.13, Self::ordered());
        lemma_part(&self.14, Self::ordered());
        lemma_part(&self.15, Self::ordered());
        lemma_tuple(hs, bs, es, Self::ordered(), t);
    }
    proof fn expressible() {
        T0::expressible(); T1::expressible(); T2::expressible(); T3::expressible(); T4::expressible(); T5::expressible(); T6::expressible(); T7::expressible(); T8::expressible(); T9::expressible(); T10::expressible(); T11::expressible(); T12::expressible(); T13::expressible(); T14::expressible(); T15::expressible();
        lemma_wfs(seq![T0::hdr(), T1::hdr(), T2::hdr(), T3::hdr(), T4::hdr(), T5::hdr(), T6::hdr(), T7::hdr(), T8::hdr(), T9::hdr(), T10::hdr(), T11::hdr(), T12::hdr(), T13::hdr(), T14::hdr(), T15::hdr()]);
    }
}
