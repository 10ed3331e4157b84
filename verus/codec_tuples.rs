impl<T0: Codec> Codec for (T0,) {
    open spec fn good(self) -> bool { self.0.good() }
    proof fn round_trip(self, t: Seq<u8>) { lemma_one(self.0.enc()); self.0.round_trip(t); }
    proof fn more(s: Seq<u8>, t: Seq<u8>) { T0::more(s, t); }
    proof fn written(self) { lemma_one(self.0.enc()); self.0.written(); }
}
impl<T0: Codec, T1: Codec, T2: Codec> Codec for (T0, T1, T2) {
    open spec fn good(self) -> bool { self.0.good() && self.1.good() && self.2.good() }
    proof fn round_trip(self, t: Seq<u8>) {
        let es = seq![self.0.enc(), self.1.enc(), self.2.enc()];
        let w = (self.0, self.1);
        lemma_pair(self.0.enc(), self.1.enc()); assert(es.drop_last() =~= seq![self.0.enc(), self.1.enc()]);
        assert(all(es) == both(w.enc(), self.2.enc()));
        lemma_two(w, self.2, t);
    }
    proof fn more(s: Seq<u8>, t: Seq<u8>) { lemma_two_more::<(T0, T1), T2>(s, t); }
    proof fn written(self) {
        let es = seq![self.0.enc(), self.1.enc(), self.2.enc()];
        let w = (self.0, self.1);
        lemma_pair(self.0.enc(), self.1.enc()); assert(es.drop_last() =~= seq![self.0.enc(), self.1.enc()]);
        w.written();
        self.2.written();
    }
}
impl<T0: Codec, T1: Codec, T2: Codec, T3: Codec> Codec for (T0, T1, T2, T3) {
    open spec fn good(self) -> bool { self.0.good() && self.1.good() && self.2.good() && self.3.good() }
    proof fn round_trip(self, t: Seq<u8>) {
        let es = seq![self.0.enc(), self.1.enc(), self.2.enc(), self.3.enc()];
        let w = (self.0, self.1, self.2);
        assert(es.drop_last() =~= seq![self.0.enc(), self.1.enc(), self.2.enc()]);
        assert(all(es) == both(w.enc(), self.3.enc()));
        lemma_two(w, self.3, t);
    }
    proof fn more(s: Seq<u8>, t: Seq<u8>) { lemma_two_more::<(T0, T1, T2), T3>(s, t); }
    proof fn written(self) {
        let es = seq![self.0.enc(), self.1.enc(), self.2.enc(), self.3.enc()];
        let w = (self.0, self.1, self.2);
        assert(es.drop_last() =~= seq![self.0.enc(), self.1.enc(), self.2.enc()]);
        w.written();
        self.3.written();
    }
}
impl<T0: Codec, T1: Codec, T2: Codec, T3: Codec, T4: Codec> Codec for (T0, T1, T2, T3, T4) {
    open spec fn good(self) -> bool { self.0.good() && self.1.good() && self.2.good() && self.3.good() && self.4.good() }
    proof fn round_trip(self, t: Seq<u8>) {
        let es = seq![self.0.enc(), self.1.enc(), self.2.enc(), self.3.enc(), self.4.enc()];
        let w = (self.0, self.1, self.2, self.3);
        assert(es.drop_last() =~= seq![self.0.enc(), self.1.enc(), self.2.enc(), self.3.enc()]);
        assert(all(es) == both(w.enc(), self.4.enc()));
        lemma_two(w, self.4, t);
    }
    proof fn more(s: Seq<u8>, t: Seq<u8>) { lemma_two_more::<(T0, T1, T2, T3), T4>(s, t); }
    proof fn written(self) {
        let es = seq![self.0.enc(), self.1.enc(), self.2.enc(), self.3.enc(), self.4.enc()];
        let w = (self.0, self.1, self.2, self.3);
        assert(es.drop_last() =~= seq![self.0.enc(), self.1.enc(), self.2.enc(), self.3.enc()]);
        w.written();
        self.4.written();
    }
}
impl<T0: Codec, T1: Codec, T2: Codec, T3: Codec, T4: Codec, T5: Codec> Codec for (T0, T1, T2, T3, T4, T5) {
    open spec fn good(self) -> bool { self.0.good() && self.1.good() && self.2.good() && self.3.good() && self.4.good() && self.5.good() }
    proof fn round_trip(self, t: Seq<u8>) {
        let es = seq![self.0.enc(), self.1.enc(), self.2.enc(), self.3.enc(), self.4.enc(), self.5.enc()];
        let w = (self.0, self.1, self.2, self.3, self.4);
        assert(es.drop_last() =~= seq![self.0.enc(), self.1.enc(), self.2.enc(), self.3.enc(), self.4.enc()]);
        assert(all(es) == both(w.enc(), self.5.enc()));
        lemma_two(w, self.5, t);
    }
    proof fn more(s: Seq<u8>, t: Seq<u8>) { lemma_two_more::<(T0, T1, T2, T3, T4), T5>(s, t); }
    proof fn written(self) {
        let es = seq![self.0.enc(), self.1.enc(), self.2.enc(), self.3.enc(), self.4.enc(), self.5.enc()];
        let w = (self.0, self.1, self.2, self.3, self.4);
        assert(es.drop_last() =~= seq![self.0.enc(), self.1.enc(), self.2.enc(), self.3.enc(), self.4.enc()]);
        w.written();
        self.5.written();
    }
}
impl<T0: Codec, T1: Codec, T2: Codec, T3: Codec, T4: Codec, T5: Codec, T6: Codec> Codec for (T0, T1, T2, T3, T4, T5, T6) {
    open spec fn good(self) -> bool { self.0.good() && self.1.good() && self.2.good() && self.3.good() && self.4.good() && self.5.good() && self.6.good() }
    proof fn round_trip(self, t: Seq<u8>) {
        let es = seq![self.0.enc(), self.1.enc(), self.2.enc(), self.3.enc(), self.4.enc(), self.5.enc(), self.6.enc()];
        let w = (self.0, self.1, self.2, self.3, self.4, self.5);
        assert(es.drop_last() =~= seq![self.0.enc(), self.1.enc(), self.2.enc(), self.3.enc(), self.4.enc(), self.5.enc()]);
        assert(all(es) == both(w.enc(), self.6.enc()));
        lemma_two(w, self.6, t);
    }
    proof fn more(s: Seq<u8>, t: Seq<u8>) { lemma_two_more::<(T0, T1, T2, T3, T4, T5), T6>(s, t); }
    proof fn written(self) {
        let es = seq![self.0.enc(), self.1.enc(), self.2.enc(), self.3.enc(), self.4.enc(), self.5.enc(), self.6.enc()];
        let w = (self.0, self.1, self.2, self.3, self.4, self.5);
        assert(es.drop_last() =~= seq![self.0.enc(), self.1.enc(), self.2.enc(), self.3.enc(), self.4.enc(), self.5.enc()]);
        w.written();
        self.6.written();
    }
}
impl<T0: Codec, T1: Codec, T2: Codec, T3: Codec, T4: Codec, T5: Codec, T6: Codec, T7: Codec> Codec for (T0, T1, T2, T3, T4, T5, T6, T7) {
    open spec fn good(self) -> bool { self.0.good() && self.1.good() && self.2.good() && self.3.good() && self.4.good() && self.5.good() && self.6.good() && self.7.good() }
    proof fn round_trip(self, t: Seq<u8>) {
        let es = seq![self.0.enc(), self.1.enc(), self.2.enc(), self.3.enc(), self.4.enc(), self.5.enc(), self.6.enc(), self.7.enc()];
        let w = (self.0, self.1, self.2, self.3, self.4, self.5, self.6);
        assert(es.drop_last() =~= seq![self.0.enc(), self.1.enc(), self.2.enc(), self.3.enc(), self.4.enc(), self.5.enc(), self.6.enc()]);
        assert(all(es) == both(w.enc(), self.7.enc()));
        lemma_two(w, self.7, t);
    }
    proof fn more(s: Seq<u8>, t: Seq<u8>) { lemma_two_more::<(T0, T1, T2, T3, T4, T5, T6), T7>(s, t); }
    proof fn written(self) {
        let es = seq![self.0.enc(), self.1.enc(), self.2.enc(), self.3.enc(), self.4.enc(), self.5.enc(), self.6.enc(), self.7.enc()];
        let w = (self.0, self.1, self.2, self.3, self.4, self.5, self.6);
        assert(es.drop_last() =~= seq![self.0.enc(), self.1.enc(), self.2.enc(), self.3.enc(), self.4.enc(), self.5.enc(), self.6.enc()]);
        w.written();
        self.7.written();
    }
}
impl<T0: Codec, T1: Codec, T2: Codec, T3: Codec, T4: Codec, T5: Codec, T6: Codec, T7: Codec, T8: Codec> Codec for (T0, T1, T2, T3, T4, T5, T6, T7, T8) {
    open spec fn good(self) -> bool { self.0.good() && self.1.good() && self.2.good() && self.3.good() && self.4.good() && self.5.good() && self.6.good() && self.7.good() && self.8.good() }
    proof fn round_trip(self, t: Seq<u8>) {
        let es = seq![self.0.enc(), self.1.enc(), self.2.enc(), self.3.enc(), self.4.enc(), self.5.enc(), self.6.enc(), self.7.enc(), self.8.enc()];
        let w = (self.0, self.1, self.2, self.3, self.4, self.5, self.6, self.7);
        assert(es.drop_last() =~= seq![self.0.enc(), self.1.enc(), self.2.enc(), self.3.enc(), self.4.enc(), self.5.enc(), self.6.enc(), self.7.enc()]);
        assert(all(es) == both(w.enc(), self.8.enc()));
        lemma_two(w, self.8, t);
    }
    proof fn more(s: Seq<u8>, t: Seq<u8>) { lemma_two_more::<(T0, T1, T2, T3, T4, T5, T6, T7), T8>(s, t); }
    proof fn written(self) {
        let es = seq![self.0.enc(), self.1.enc(), self.2.enc(), self.3.enc(), self.4.enc(), self.5.enc(), self.6.enc(), self.7.enc(), self.8.enc()];
        let w = (self.0, self.1, self.2, self.3, self.4, self.5, self.6, self.7);
        assert(es.drop_last() =~= seq![self.0.enc(), self.1.enc(), self.2.enc(), self.3.enc(), self.4.enc(), self.5.enc(), self.6.enc(), self.7.enc()]);
        w.written();
        self.8.written();
    }
}
impl<T0: Codec, T1: Codec, T2: Codec, T3: Codec, T4: Codec, T5: Codec, T6: Codec, T7: Codec, T8: Codec, T9: Codec> Codec for (T0, T1, T2, T3, T4, T5, T6, T7, T8, T9) {
    open spec fn good(self) -> bool { self.0.good() && self.1.good() && self.2.good() && self.3.good() && self.4.good() && self.5.good() && self.6.good() && self.7.good() && self.8.good() && self.9.good() }
    proof fn round_trip(self, t: Seq<u8>) {
        let es = seq![self.0.enc(), self.1.enc(), self.2.enc(), self.3.enc(), self.4.enc(), self.5.enc(), self.6.enc(), self.7.enc(), self.8.enc(), self.9.enc()];
        let w = (self.0, self.1, self.2, self.3, self.4, self.5, self.6, self.7, self.8);
        assert(es.drop_last() =~= seq![self.0.enc(), self.1.enc(), self.2.enc(), self.3.enc(), self.4.enc(), self.5.enc(), self.6.enc(), self.7.enc(), self.8.enc()]);
        assert(all(es) == both(w.enc(), self.9.enc()));
        lemma_two(w, self.9, t);
    }
    proof fn more(s: Seq<u8>, t: Seq<u8>) { lemma_two_more::<(T0, T1, T2, T3, T4, T5, T6, T7, T8), T9>(s, t); }
    proof fn written(self) {
        let es = seq![self.0.enc(), self.1.enc(), self.2.enc(), self.3.enc(), self.4.enc(), self.5.enc(), self.6.enc(), self.7.enc(), self.8.enc(), self.9.enc()];
        let w = (self.0, self.1, self.2, self.3, self.4, self.5, self.6, self.7, self.8);
        assert(es.drop_last() =~= seq![self.0.enc(), self.1.enc(), self.2.enc(), self.3.enc(), self.4.enc(), self.5.enc(), self.6.enc(), self.7.enc(), self.8.enc()]);
        w.written();
        self.9.written();
    }
}
impl<T0: Codec, T1: Codec, T2: Codec, T3: Codec, T4: Codec, T5: Codec, T6: Codec, T7: Codec, T8: Codec, T9: Codec, T10: Codec> Codec for (T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10) {
    open spec fn good(self) -> bool { self.0.good() && self.1.good() && self.2.good() && self.3.good() && self.4.good() && self.5.good() && self.6.good() && self.7.good() && self.8.good() && self.9.good() && self.10.good() }
    proof fn round_trip(self, t: Seq<u8>) {
        let es = seq![self.0.enc(), self.1.enc(), self.2.enc(), self.3.enc(), self.4.enc(), self.5.enc(), self.6.enc(), self.7.enc(), self.8.enc(), self.9.enc(), self.10.enc()];
        let w = (self.0, self.1, self.2, self.3, self.4, self.5, self.6, self.7, self.8, self.9);
        assert(es.drop_last() =~= seq![self.0.enc(), self.1.enc(), self.2.enc(), self.3.enc(), self.4.enc(), self.5.enc(), self.6.enc(), self.7.enc(), self.8.enc(), self.9.enc()]);
        assert(all(es) == both(w.enc(), self.10.enc()));
        lemma_two(w, self.10, t);
    }
    proof fn more(s: Seq<u8>, t: Seq<u8>) { lemma_two_more::<(T0, T1, T2, T3, T4, T5, T6, T7, T8, T9), T10>(s, t); }
    proof fn written(self) {
        let es = seq![self.0.enc(), self.1.enc(), self.2.enc(), self.3.enc(), self.4.enc(), self.5.enc(), self.6.enc(), self.7.enc(), self.8.enc(), self.9.enc(), self.10.enc()];
        let w = (self.0, self.1, self.2, self.3, self.4, self.5, self.6, self.7, self.8, self.9);
        assert(es.drop_last() =~= seq![self.0.enc(), self.1.enc(), self.2.enc(), self.3.enc(), self.4.enc(), self.5.enc(), self.6.enc(), self.7.enc(), self.8.enc(), self.9.enc()]);
        w.written();
        self.10.written();
    }
}
impl<T0: Codec, T1: Codec, T2: Codec, T3: Codec, T4: Codec, T5: Codec, T6: Codec, T7: Codec, T8: Codec, T9: Codec, T10: Codec, T11: Codec> Codec for (T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11) {
    open spec fn good(self) -> bool { self.0.good() && self.1.good() && self.2.good() && self.3.good() && self.4.good() && self.5.good() && self.6.good() && self.7.good() && self.8.good() && self.9.good() && self.10.good() && self.11.good() }
    proof fn round_trip(self, t: Seq<u8>) {
        let es = seq![self.0.enc(), self.1.enc(), self.2.enc(), self.3.enc(), self.4.enc(), self.5.enc(), self.6.enc(), self.7.enc(), self.8.enc(), self.9.enc(), self.10.enc(), self.11.enc()];
        let w = (self.0, self.1, self.2, self.3, self.4, self.5, self.6, self.7, self.8, self.9, self.10);
        assert(es.drop_last() =~= seq![self.0.enc(), self.1.enc(), self.2.enc(), self.3.enc(), self.4.enc(), self.5.enc(), self.6.enc(), self.7.enc(), self.8.enc(), self.9.enc(), self.10.enc()]);
        assert(all(es) == both(w.enc(), self.11.enc()));
        lemma_two(w, self.11, t);
    }
    proof fn more(s: Seq<u8>, t: Seq<u8>) { lemma_two_more::<(T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10), T11>(s, t); }
    proof fn written(self) {
        let es = seq![self.0.enc(), self.1.enc(), self.2.enc(), self.3.enc(), self.4.enc(), self.5.enc(), self.6.enc(), self.7.enc(), self.8.enc(), self.9.enc(), self.10.enc(), self.11.enc()];
        let w = (self.0, self.1, self.2, self.3, self.4, self.5, self.6, self.7, self.8, self.9, self.10);
        assert(es.drop_last() =~= seq![self.0.enc(), self.1.enc(), self.2.enc(), self.3.enc(), self.4.enc(), self.5.enc(), self.6.enc(), self.7.enc(), self.8.enc(), self.9.enc(), self.10.enc()]);
        w.written();
        self.11.written();
    }
}
impl<T0: Codec, T1: Codec, T2: Codec, T3: Codec, T4: Codec, T5: Codec, T6: Codec, T7: Codec, T8: Codec, T9: Codec, T10: Codec, T11: Codec, T12: Codec> Codec for (T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11, T12) {
    open spec fn good(self) -> bool { self.0.good() && self.1.good() && self.2.good() && self.3.good() && self.4.good() && self.5.good() && self.6.good() && self.7.good() && self.8.good() && self.9.good() && self.10.good() && self.11.good() && self.12.good() }
    proof fn round_trip(self, t: Seq<u8>) {
        let es = seq![self.0.enc(), self.1.enc(), self.2.enc(), self.3.enc(), self.4.enc(), self.5.enc(), self.6.enc(), self.7.enc(), self.8.enc(), self.9.enc(), self.10.enc(), self.11.enc(), self.12.enc()];
        let w = (self.0, self.1, self.2, self.3, self.4, self.5, self.6, self.7, self.8, self.9, self.10, self.11);
        assert(es.drop_last() =~= seq![self.0.enc(), self.1.enc(), self.2.enc(), self.3.enc(), self.4.enc(), self.5.enc(), self.6.enc(), self.7.enc(), self.8.enc(), self.9.enc(), self.10.enc(), self.11.enc()]);
        assert(all(es) == both(w.enc(), self.12.enc()));
        lemma_two(w, self.12, t);
    }
    proof fn more(s: Seq<u8>, t: Seq<u8>) { lemma_two_more::<(T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11), T12>(s, t); }
    proof fn written(self) {
        let es = seq![self.0.enc(), self.1.enc(), self.2.enc(), self.3.enc(), self.4.enc(), self.5.enc(), self.6.enc(), self.7.enc(), self.8.enc(), self.9.enc(), self.10.enc(), self.11.enc(), self.12.enc()];
        let w = (self.0, self.1, self.2, self.3, self.4, self.5, self.6, self.7, self.8, self.9, self.10, self.11);
        assert(es.drop_last() =~= seq![self.0.enc(), self.1.enc(), self.2.enc(), self.3.enc(), self.4.enc(), self.5.enc(), self.6.enc(), self.7.enc(), self.8.enc(), self.9.enc(), self.10.enc(), self.11.enc()]);
        w.written();
        self.12.written();
    }
}
impl<T0: Codec, T1: Codec, T2: Codec, T3: Codec, T4: Codec, T5: Codec, T6: Codec, T7: Codec, T8: Codec, T9: Codec, T10: Codec, T11: Codec, T12: Codec, T13: Codec> Codec for (T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11, T12, T13) {
    open spec fn good(self) -> bool { self.0.good() && self.1.good() && self.2.good() && self.3.good() && self.4.good() && self.5.good() && self.6.good() && self.7.good() && self.8.good() && self.9.good() && self.10.good() && self.11.good() && self.12.good() && self.13.good() }
    proof fn round_trip(self, t: Seq<u8>) {
        let es = seq![self.0.enc(), self.1.enc(), self.2.enc(), self.3.enc(), self.4.enc(), self.5.enc(), self.6.enc(), self.7.enc(), self.8.enc(), self.9.enc(), self.10.enc(), self.11.enc(), self.12.enc(), self.13.enc()];
        let w = (self.0, self.1, self.2, self.3, self.4, self.5, self.6, self.7, self.8, self.9, self.10, self.11, self.12);
        assert(es.drop_last() =~= seq![self.0.enc(), self.1.enc(), self.2.enc(), self.3.enc(), self.4.enc(), self.5.enc(), self.6.enc(), self.7.enc(), self.8.enc(), self.9.enc(), self.10.enc(), self.11.enc(), self.12.enc()]);
        assert(all(es) == both(w.enc(), self.13.enc()));
        lemma_two(w, self.13, t);
    }
    proof fn more(s: Seq<u8>, t: Seq<u8>) { lemma_two_more::<(T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11, T12), T13>(s, t); }
    proof fn written(self) {
        let es = seq![self.0.enc(), self.1.enc(), self.2.enc(), self.3.enc(), self.4.enc(), self.5.enc(), self.6.enc(), self.7.enc(), self.8.enc(), self.9.enc(), self.10.enc(), self.11.enc(), self.12.enc(), self.13.enc()];
        let w = (self.0, self.1, self.2, self.3, self.4, self.5, self.6, self.7, self.8, self.9, self.10, self.11, self.12);
        assert(es.drop_last() =~= seq![self.0.enc(), self.1.enc(), self.2.enc(), self.3.enc(), self.4.enc(), self.5.enc(), self.6.enc(), self.7.enc(), self.8.enc(), self.9.enc(), self.10.enc(), self.11.enc(), self.12.enc()]);
        w.written();
        self.13.written();
    }
}
impl<T0: Codec, T1: Codec, T2: Codec, T3: Codec, T4: Codec, T5: Codec, T6: Codec, T7: Codec, T8: Codec, T9: Codec, T10: Codec, T11: Codec, T12: Codec, T13: Codec, T14: Codec> Codec for (T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11, T12, T13, T14) {
    open spec fn good(self) -> bool { self.0.good() && self.1.good() && self.2.good() && self.3.good() && self.4.good() && self.5.good() && self.6.good() && self.7.good() && self.8.good() && self.9.good() && self.10.good() && self.11.good() && self.12.good() && self.13.good() && self.14.good() }
    proof fn round_trip(self, t: Seq<u8>) {
        let es = seq![self.0.enc(), self.1.enc(), self.2.enc(), self.3.enc(), self.4.enc(), self.5.enc(), self.6.enc(), self.7.enc(), self.8.enc(), self.9.enc(), self.10.enc(), self.11.enc(), self.12.enc(), self.13.enc(), self.14.enc()];
        let w = (self.0, self.1, self.2, self.3, self.4, self.5, self.6, self.7, self.8, self.9, self.10, self.11, self.12, self.13);
        assert(es.drop_last() =~= seq![self.0.enc(), self.1.enc(), self.2.enc(), self.3.enc(), self.4.enc(), self.5.enc(), self.6.enc(), self.7.enc(), self.8.enc(), self.9.enc(), self.10.enc(), self.11.enc(), self.12.enc(), self.13.enc()]);
        assert(all(es) == both(w.enc(), self.14.enc()));
        lemma_two(w, self.14, t);
    }
    proof fn more(s: Seq<u8>, t: Seq<u8>) { lemma_two_more::<(T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11, T12, T13), T14>(s, t); }
    proof fn written(self) {
        let es = seq![self.0.enc(), self.1.enc(), self.2.enc(), self.3.enc(), self.4.enc(), self.5.enc(), self.6.enc(), self.7.enc(), self.8.enc(), self.9.enc(), self.10.enc(), self.11.enc(), self.12.enc(), self.13.enc(), self.14.enc()];
        let w = (self.0, self.1, self.2, self.3, self.4, self.5, self.6, self.7, self.8, self.9, self.10, self.11, self.12, self.13);
        assert(es.drop_last() =~= seq![self.0.enc(), self.1.enc(), self.2.enc(), self.3.enc(), self.4.enc(), self.5.enc(), self.6.enc(), self.7.enc(), self.8.enc(), self.9.enc(), self.10.enc(), self.11.enc(), self.12.enc(), self.13.enc()]);
        w.written();
        self.14.written();
    }
}
impl<T0: Codec, T1: Codec, T2: Codec, T3: Codec, T4: Codec, T5: Codec, T6: Codec, T7: Codec, T8: Codec, T9: Codec, T10: Codec, T11: Codec, T12: Codec, T13: Codec, T14: Codec, T15: Codec> Codec for (T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11, T12, T13, T14, T15) {
    open spec fn good(self) -> bool { self.0.good() && self.1.good() && self.2.good() && self.3.good() && self.4.good() && self.5.good() && self.6.good() && self.7.good() && self.8.good() && self.9.good() && self.10.good() && self.11.good() && self.12.good() && self.13.good() && self.14.good() && self.15.good() }
    proof fn round_trip(self, t: Seq<u8>) {
        let es = seq![self.0.enc(), self.1.enc(), self.2.enc(), self.3.enc(), self.4.enc(), self.5.enc(), self.6.enc(), self.7.enc(), self.8.enc(), self.9.enc(), self.10.enc(), self.11.enc(), self.12.enc(), self.13.enc(), self.14.enc(), self.15.enc()];
        let w = (self.0, self.1, self.2, self.3, self.4, self.5, self.6, self.7, self.8, self.9, self.10, self.11, self.12, self.13, self.14);
        assert(es.drop_last() =~= seq![self.0.enc(), self.1.enc(), self.2.enc(), self.3.enc(), self.4.enc(), self.5.enc(), self.6.enc(), self.7.enc(), self.8.enc(), self.9.enc(), self.10.enc(), self.11.enc(), self.12.enc(), self.13.enc(), self.14.enc()]);
        assert(all(es) == both(w.enc(), self.15.enc()));
        lemma_two(w, self.15, t);
    }
    proof fn more(s: Seq<u8>, t: Seq<u8>) { lemma_two_more::<(T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11, T12, T13, T14), T15>(s, t); }
    proof fn written(self) {
        let es = seq![self.0.enc(), self.1.enc(), self.2.enc(), self.3.enc(), self.4.enc(), self.5.enc(), self.6.enc(), self.7.enc(), self.8.enc(), self.9.enc(), self.10.enc(), self.11.enc(), self.12.enc(), self.13.enc(), self.14.enc(), self.15.enc()];
        let w = (self.0, self.1, self.2, self.3, self.4, self.5, self.6, self.7, self.8, self.9, self.10, self.11, self.12, self.13, self.14);
        assert(es.drop_last() =~= seq![self.0.enc(), self.1.enc(), self.2.enc(), self.3.enc(), self.4.enc(), self.5.enc(), self.6.enc(), self.7.enc(), self.8.enc(), self.9.enc(), self.10.enc(), self.11.enc(), self.12.enc(), self.13.enc(), self.14.enc()]);
        w.written();
        self.15.written();
    }
}
