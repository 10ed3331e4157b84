//@rewrite let mut tuple = tri!(serializer.serialize_tuple($n)); => let mut tuple = serializer.serialize_tuple($n)?; proof { lemma_so_far_none(b, *tuple, seq![], es); }
//@rewrite tri!(tuple.serialize_element(&self.$n)); => let ghost m = *tuple; let r = tuple.serialize_element(&self.$n); proof { lemma_so_far(b, m, *tuple, seq![], es, $n, r is Ok); } r?;
//@rewrite tuple.end() => proof { lemma_so_far_done(b, *tuple, seq![], es); lemma_no_front(all(es)); } tuple.end()
//@rewrite <S>(&self, serializer: S) -> Result<S::Ok, S::Error> where S: Serializer, => <W: Write>(&self, serializer: &mut Serializer<W>) -> Result<(), Error>
//@impl @serde_core/src/ser/impls.rs :: impl<T> Serialize for (T,) where T: Serialize,
//@inject
    fn serialize_key<'a, W: Write>(&self, serializer: MapKeySerializer<'a, W>) -> Result<(), Error> { self.as_key(serializer) }
//@fn serialize
//@start
    let ghost b = *serializer;
    let ghost es = seq![self.0.enc()];
//@end
//@impl @serde_core/src/ser/impls.rs :: impl<T0, T1> Serialize for (T0, T1,) where T0: Serialize, T1: Serialize,
//@inject
    fn serialize_key<'a, W: Write>(&self, serializer: MapKeySerializer<'a, W>) -> Result<(), Error> { self.as_key(serializer) }
//@fn serialize
//@start
    let ghost b = *serializer;
    let ghost es = seq![self.0.enc(), self.1.enc()];
    proof { lemma_both(self.0.enc(), self.1.enc()); }
//@end
//@impl @serde_core/src/ser/impls.rs :: impl<T0, T1, T2> Serialize for (T0, T1, T2,) where T0: Serialize, T1: Serialize, T2: Serialize,
//@inject
    fn serialize_key<'a, W: Write>(&self, serializer: MapKeySerializer<'a, W>) -> Result<(), Error> { self.as_key(serializer) }
//@fn serialize
//@start
    let ghost b = *serializer;
    let ghost es = seq![self.0.enc(), self.1.enc(), self.2.enc()];
//@end
//@impl @serde_core/src/ser/impls.rs :: impl<T0, T1, T2, T3> Serialize for (T0, T1, T2, T3,) where T0: Serialize, T1: Serialize, T2: Serialize, T3: Serialize,
//@inject
    fn serialize_key<'a, W: Write>(&self, serializer: MapKeySerializer<'a, W>) -> Result<(), Error> { self.as_key(serializer) }
//@fn serialize
//@start
    let ghost b = *serializer;
    let ghost es = seq![self.0.enc(), self.1.enc(), self.2.enc(), self.3.enc()];
//@end
//@impl @serde_core/src/ser/impls.rs :: impl<T0, T1, T2, T3, T4> Serialize for (T0, T1, T2, T3, T4,) where T0: Serialize, T1: Serialize, T2: Serialize, T3: Serialize, T4: Serialize,
//@inject
    fn serialize_key<'a, W: Write>(&self, serializer: MapKeySerializer<'a, W>) -> Result<(), Error> { self.as_key(serializer) }
//@fn serialize
//@start
    let ghost b = *serializer;
    let ghost es = seq![self.0.enc(), self.1.enc(), self.2.enc(), self.3.enc(), self.4.enc()];
//@end
//@impl @serde_core/src/ser/impls.rs :: impl<T0, T1, T2, T3, T4, T5> Serialize for (T0, T1, T2, T3, T4, T5,) where T0: Serialize, T1: Serialize, T2: Serialize, T3: Serialize, T4: Serialize, T5: Serialize,
//@inject
    fn serialize_key<'a, W: Write>(&self, serializer: MapKeySerializer<'a, W>) -> Result<(), Error> { self.as_key(serializer) }
//@fn serialize
//@start
    let ghost b = *serializer;
    let ghost es = seq![self.0.enc(), self.1.enc(), self.2.enc(), self.3.enc(), self.4.enc(), self.5.enc()];
//@end
//@impl @serde_core/src/ser/impls.rs :: impl<T0, T1, T2, T3, T4, T5, T6> Serialize for (T0, T1, T2, T3, T4, T5, T6,) where T0: Serialize, T1: Serialize, T2: Serialize, T3: Serialize, T4: Serialize, T5: Serialize, T6: Serialize,
//@inject
    fn serialize_key<'a, W: Write>(&self, serializer: MapKeySerializer<'a, W>) -> Result<(), Error> { self.as_key(serializer) }
//@fn serialize
//@start
    let ghost b = *serializer;
    let ghost es = seq![self.0.enc(), self.1.enc(), self.2.enc(), self.3.enc(), self.4.enc(), self.5.enc(), self.6.enc()];
//@end
//@impl @serde_core/src/ser/impls.rs :: impl<T0, T1, T2, T3, T4, T5, T6, T7> Serialize for (T0, T1, T2, T3, T4, T5, T6, T7,) where T0: Serialize, T1: Serialize, T2: Serialize, T3: Serialize, T4: Serialize, T5: Serialize, T6: Serialize, T7: Serialize,
//@inject
    fn serialize_key<'a, W: Write>(&self, serializer: MapKeySerializer<'a, W>) -> Result<(), Error> { self.as_key(serializer) }
//@fn serialize
//@start
    let ghost b = *serializer;
    let ghost es = seq![self.0.enc(), self.1.enc(), self.2.enc(), self.3.enc(), self.4.enc(), self.5.enc(), self.6.enc(), self.7.enc()];
//@end
//@impl @serde_core/src/ser/impls.rs :: impl<T0, T1, T2, T3, T4, T5, T6, T7, T8> Serialize for (T0, T1, T2, T3, T4, T5, T6, T7, T8,) where T0: Serialize, T1: Serialize, T2: Serialize, T3: Serialize, T4: Serialize, T5: Serialize, T6: Serialize, T7: Serialize, T8: Serialize,
//@inject
    fn serialize_key<'a, W: Write>(&self, serializer: MapKeySerializer<'a, W>) -> Result<(), Error> { self.as_key(serializer) }
//@fn serialize
//@start
    let ghost b = *serializer;
    let ghost es = seq![self.0.enc(), self.1.enc(), self.2.enc(), self.3.enc(), self.4.enc(), self.5.enc(), self.6.enc(), self.7.enc(), self.8.enc()];
//@end
//@impl @serde_core/src/ser/impls.rs :: impl<T0, T1, T2, T3, T4, T5, T6, T7, T8, T9> Serialize for (T0, T1, T2, T3, T4, T5, T6, T7, T8, T9,) where T0: Serialize, T1: Serialize, T2: Serialize, T3: Serialize, T4: Serialize, T5: Serialize, T6: Serialize, T7: Serialize, T8: Serialize, T9: Serialize,
//@inject
    fn serialize_key<'a, W: Write>(&self, serializer: MapKeySerializer<'a, W>) -> Result<(), Error> { self.as_key(serializer) }
//@fn serialize
//@start
    let ghost b = *serializer;
    let ghost es = seq![self.0.enc(), self.1.enc(), self.2.enc(), self.3.enc(), self.4.enc(), self.5.enc(), self.6.enc(), self.7.enc(), self.8.enc(), self.9.enc()];
//@end
//@impl @serde_core/src/ser/impls.rs :: impl<T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10> Serialize for (T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10,) where T0: Serialize, T1: Serialize, T2: Serialize, T3: Serialize, T4: Serialize, T5: Serialize, T6: Serialize, T7: Serialize, T8: Serialize, T9: Serialize, T10: Serialize,
//@inject
    fn serialize_key<'a, W: Write>(&self, serializer: MapKeySerializer<'a, W>) -> Result<(), Error> { self.as_key(serializer) }
//@fn serialize
//@start
    let ghost b = *serializer;
    let ghost es = seq![self.0.enc(), self.1.enc(), self.2.enc(), self.3.enc(), self.4.enc(), self.5.enc(), self.6.enc(), self.7.enc(), self.8.enc(), self.9.enc(), self.10.enc()];
//@end
//@impl @serde_core/src/ser/impls.rs :: impl<T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11> Serialize for (T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11,) where T0: Serialize, T1: Serialize, T2: Serialize, T3: Serialize, T4: Serialize, T5: Serialize, T6: Serialize, T7: Serialize, T8: Serialize, T9: Serialize, T10: Serialize, T11: Serialize,
//@inject
    fn serialize_key<'a, W: Write>(&self, serializer: MapKeySerializer<'a, W>) -> Result<(), Error> { self.as_key(serializer) }
//@fn serialize
//@start
    let ghost b = *serializer;
    let ghost es = seq![self.0.enc(), self.1.enc(), self.2.enc(), self.3.enc(), self.4.enc(), self.5.enc(), self.6.enc(), self.7.enc(), self.8.enc(), self.9.enc(), self.10.enc(), self.11.enc()];
//@end
//@impl @serde_core/src/ser/impls.rs :: impl<T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11, T12> Serialize for (T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11, T12,) where T0: Serialize, T1: Serialize, T2: Serialize, T3: Serialize, T4: Serialize, T5: Serialize, T6: Serialize, T7: Serialize, T8: Serialize, T9: Serialize, T10: Serialize, T11: Serialize, T12: Serialize,
//@inject
    fn serialize_key<'a, W: Write>(&self, serializer: MapKeySerializer<'a, W>) -> Result<(), Error> { self.as_key(serializer) }
//@fn serialize
//@start
    let ghost b = *serializer;
    let ghost es = seq![self.0.enc(), self.1.enc(), self.2.enc(), self.3.enc(), self.4.enc(), self.5.enc(), self.6.enc(), self.7.enc(), self.8.enc(), self.9.enc(), self.10.enc(), self.11.enc(), self.12.enc()];
//@end
//@impl @serde_core/src/ser/impls.rs :: impl<T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11, T12, T13> Serialize for (T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11, T12, T13,) where T0: Serialize, T1: Serialize, T2: Serialize, T3: Serialize, T4: Serialize, T5: Serialize, T6: Serialize, T7: Serialize, T8: Serialize, T9: Serialize, T10: Serialize, T11: Serialize, T12: Serialize, T13: Serialize,
//@inject
    fn serialize_key<'a, W: Write>(&self, serializer: MapKeySerializer<'a, W>) -> Result<(), Error> { self.as_key(serializer) }
//@fn serialize
//@start
    let ghost b = *serializer;
    let ghost es = seq![self.0.enc(), self.1.enc(), self.2.enc(), self.3.enc(), self.4.enc(), self.5.enc(), self.6.enc(), self.7.enc(), self.8.enc(), self.9.enc(), self.10.enc(), self.11.enc(), self.12.enc(), self.13.enc()];
//@end
//@impl @serde_core/src/ser/impls.rs :: impl<T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11, T12, T13, T14> Serialize for (T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11, T12, T13, T14,) where T0: Serialize, T1: Serialize, T2: Serialize, T3: Serialize, T4: Serialize, T5: Serialize, T6: Serialize, T7: Serialize, T8: Serialize, T9: Serialize, T10: Serialize, T11: Serialize, T12: Serialize, T13: Serialize, T14: Serialize,
//@inject
    fn serialize_key<'a, W: Write>(&self, serializer: MapKeySerializer<'a, W>) -> Result<(), Error> { self.as_key(serializer) }
//@fn serialize
//@start
    let ghost b = *serializer;
    let ghost es = seq![self.0.enc(), self.1.enc(), self.2.enc(), self.3.enc(), self.4.enc(), self.5.enc(), self.6.enc(), self.7.enc(), self.8.enc(), self.9.enc(), self.10.enc(), self.11.enc(), self.12.enc(), self.13.enc(), self.14.enc()];
//@end
//@impl @serde_core/src/ser/impls.rs :: impl<T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11, T12, T13, T14, T15> Serialize for (T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11, T12, T13, T14, T15,) where T0: Serialize, T1: Serialize, T2: Serialize, T3: Serialize, T4: Serialize, T5: Serialize, T6: Serialize, T7: Serialize, T8: Serialize, T9: Serialize, T10: Serialize, T11: Serialize, T12: Serialize, T13: Serialize, T14: Serialize, T15: Serialize,
//@inject
    fn serialize_key<'a, W: Write>(&self, serializer: MapKeySerializer<'a, W>) -> Result<(), Error> { self.as_key(serializer) }
//@fn serialize
//@start
    let ghost b = *serializer;
    let ghost es = seq![self.0.enc(), self.1.enc(), self.2.enc(), self.3.enc(), self.4.enc(), self.5.enc(), self.6.enc(), self.7.enc(), self.8.enc(), self.9.enc(), self.10.enc(), self.11.enc(), self.12.enc(), self.13.enc(), self.14.enc(), self.15.enc()];
//@end
//@norewrites
//@rewrite tri!($e) => $e?
//@rewrite Serialize for => AsKey for
//@rewrite fn serialize<S>(&self, serializer: S) -> Result<S::Ok, S::Error> where S: Serializer, => fn as_key<'a, W: Write>(&self, serializer: MapKeySerializer<'a, W>) -> Result<(), Error>
//@impl @serde_core/src/ser/impls.rs :: impl<T> Serialize for (T,) where T: Serialize,
//@fn serialize
//@end
//@impl @serde_core/src/ser/impls.rs :: impl<T0, T1> Serialize for (T0, T1,) where T0: Serialize, T1: Serialize,
//@fn serialize
//@end
//@impl @serde_core/src/ser/impls.rs :: impl<T0, T1, T2> Serialize for (T0, T1, T2,) where T0: Serialize, T1: Serialize, T2: Serialize,
//@fn serialize
//@end
//@impl @serde_core/src/ser/impls.rs :: impl<T0, T1, T2, T3> Serialize for (T0, T1, T2, T3,) where T0: Serialize, T1: Serialize, T2: Serialize, T3: Serialize,
//@fn serialize
//@end
//@impl @serde_core/src/ser/impls.rs :: impl<T0, T1, T2, T3, T4> Serialize for (T0, T1, T2, T3, T4,) where T0: Serialize, T1: Serialize, T2: Serialize, T3: Serialize, T4: Serialize,
//@fn serialize
//@end
//@impl @serde_core/src/ser/impls.rs :: impl<T0, T1, T2, T3, T4, T5> Serialize for (T0, T1, T2, T3, T4, T5,) where T0: Serialize, T1: Serialize, T2: Serialize, T3: Serialize, T4: Serialize, T5: Serialize,
//@fn serialize
//@end
//@impl @serde_core/src/ser/impls.rs :: impl<T0, T1, T2, T3, T4, T5, T6> Serialize for (T0, T1, T2, T3, T4, T5, T6,) where T0: Serialize, T1: Serialize, T2: Serialize, T3: Serialize, T4: Serialize, T5: Serialize, T6: Serialize,
//@fn serialize
//@end
//@impl @serde_core/src/ser/impls.rs :: impl<T0, T1, T2, T3, T4, T5, T6, T7> Serialize for (T0, T1, T2, T3, T4, T5, T6, T7,) where T0: Serialize, T1: Serialize, T2: Serialize, T3: Serialize, T4: Serialize, T5: Serialize, T6: Serialize, T7: Serialize,
//@fn serialize
//@end
//@impl @serde_core/src/ser/impls.rs :: impl<T0, T1, T2, T3, T4, T5, T6, T7, T8> Serialize for (T0, T1, T2, T3, T4, T5, T6, T7, T8,) where T0: Serialize, T1: Serialize, T2: Serialize, T3: Serialize, T4: Serialize, T5: Serialize, T6: Serialize, T7: Serialize, T8: Serialize,
//@fn serialize
//@end
//@impl @serde_core/src/ser/impls.rs :: impl<T0, T1, T2, T3, T4, T5, T6, T7, T8, T9> Serialize for (T0, T1, T2, T3, T4, T5, T6, T7, T8, T9,) where T0: Serialize, T1: Serialize, T2: Serialize, T3: Serialize, T4: Serialize, T5: Serialize, T6: Serialize, T7: Serialize, T8: Serialize, T9: Serialize,
//@fn serialize
//@end
//@impl @serde_core/src/ser/impls.rs :: impl<T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10> Serialize for (T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10,) where T0: Serialize, T1: Serialize, T2: Serialize, T3: Serialize, T4: Serialize, T5: Serialize, T6: Serialize, T7: Serialize, T8: Serialize, T9: Serialize, T10: Serialize,
//@fn serialize
//@end
//@impl @serde_core/src/ser/impls.rs :: impl<T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11> Serialize for (T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11,) where T0: Serialize, T1: Serialize, T2: Serialize, T3: Serialize, T4: Serialize, T5: Serialize, T6: Serialize, T7: Serialize, T8: Serialize, T9: Serialize, T10: Serialize, T11: Serialize,
//@fn serialize
//@end
//@impl @serde_core/src/ser/impls.rs :: impl<T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11, T12> Serialize for (T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11, T12,) where T0: Serialize, T1: Serialize, T2: Serialize, T3: Serialize, T4: Serialize, T5: Serialize, T6: Serialize, T7: Serialize, T8: Serialize, T9: Serialize, T10: Serialize, T11: Serialize, T12: Serialize,
//@fn serialize
//@end
//@impl @serde_core/src/ser/impls.rs :: impl<T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11, T12, T13> Serialize for (T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11, T12, T13,) where T0: Serialize, T1: Serialize, T2: Serialize, T3: Serialize, T4: Serialize, T5: Serialize, T6: Serialize, T7: Serialize, T8: Serialize, T9: Serialize, T10: Serialize, T11: Serialize, T12: Serialize, T13: Serialize,
//@fn serialize
//@end
//@impl @serde_core/src/ser/impls.rs :: impl<T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11, T12, T13, T14> Serialize for (T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11, T12, T13, T14,) where T0: Serialize, T1: Serialize, T2: Serialize, T3: Serialize, T4: Serialize, T5: Serialize, T6: Serialize, T7: Serialize, T8: Serialize, T9: Serialize, T10: Serialize, T11: Serialize, T12: Serialize, T13: Serialize, T14: Serialize,
//@fn serialize
//@end
//@impl @serde_core/src/ser/impls.rs :: impl<T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11, T12, T13, T14, T15> Serialize for (T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11, T12, T13, T14, T15,) where T0: Serialize, T1: Serialize, T2: Serialize, T3: Serialize, T4: Serialize, T5: Serialize, T6: Serialize, T7: Serialize, T8: Serialize, T9: Serialize, T10: Serialize, T11: Serialize, T12: Serialize, T13: Serialize, T14: Serialize, T15: Serialize,
//@fn serialize
//@end
//@norewrites
