
// ---- appended to a scratch copy of main.rs by /verif/tools/dump.py; never compiled into the program ----
#[allow(dead_code, unused, clippy::all)]
mod __vp {
    use std::collections::{BinaryHeap, HashMap, VecDeque};
    use std::hash::{BuildHasher, Hash};
    use std::io;

    /// The byte stream given to a decoder: arbitrary bytes, then the end.
    pub struct Reader { tok: u64 }
    impl Iterator for Reader {
        type Item = u8;
        fn next(&mut self) -> Option<u8> { unsafe { vp_reader_next(self) } }
    }
    /// The output given to an encoder: any call may fail.
    pub struct Sink { tok: u64 }
    impl io::Write for Sink {
        fn write(&mut self, b: &[u8]) -> io::Result<usize> { unsafe { vp_sink_write(self, b) } }
        fn flush(&mut self) -> io::Result<()> { unsafe { vp_sink_flush(self) } }
        fn write_all(&mut self, b: &[u8]) -> io::Result<()> { unsafe { vp_sink_write_all(self, b) } }
    }
    /// A generic input sequence.
    pub struct Source<T> { tok: u64, p: std::marker::PhantomData<T> }
    impl<T> Iterator for Source<T> {
        type Item = T;
        fn next(&mut self) -> Option<T> { vp_source_next::<T>(self) }
    }
    fn vp_source_next<T>(s: &mut Source<T>) -> Option<T> { unsafe { vp_opaque(s as *mut _ as *mut u8) }; panic!() }
    extern "Rust" {
        fn vp_reader_next(r: &mut Reader) -> Option<u8>;
        fn vp_sink_write(s: &mut Sink, b: &[u8]) -> io::Result<usize>;
        fn vp_sink_write_all(s: &mut Sink, b: &[u8]) -> io::Result<()>;
        fn vp_sink_flush(s: &mut Sink) -> io::Result<()>;
        fn vp_opaque(p: *mut u8);
    }

    pub mod m {
        use super::*;
        pub trait Fill<T>: Sized { fn fill<I: Iterator<Item = T>>(it: I) -> Self; }
        impl<T> Fill<T> for Vec<T> {
            fn fill<I: Iterator<Item = T>>(mut it: I) -> Self { let mut v = Vec::new(); while let Some(x) = it.next() { v.push(x); } v }
        }
        impl<T> Fill<T> for VecDeque<T> {
            fn fill<I: Iterator<Item = T>>(mut it: I) -> Self { let mut v = VecDeque::new(); while let Some(x) = it.next() { v.push_back(x); } v }
        }
        impl<T: Ord> Fill<T> for BinaryHeap<T> {
            fn fill<I: Iterator<Item = T>>(mut it: I) -> Self { let mut v = BinaryHeap::new(); while let Some(x) = it.next() { v.push(x); } v }
        }
        impl<K: Eq + Hash, V, S: BuildHasher + Default> Fill<(K, V)> for HashMap<K, V, S> {
            fn fill<I: Iterator<Item = (K, V)>>(mut it: I) -> Self { let mut v = HashMap::with_hasher(S::default()); while let Some((k, x)) = it.next() { v.insert(k, x); } v }
        }
        impl<T> Fill<Option<T>> for Option<Vec<T>> {
            fn fill<I: Iterator<Item = Option<T>>>(mut it: I) -> Self {
                let mut v = Vec::new();
                while let Some(x) = it.next() { match x { Some(x) => v.push(x), None => return None } }
                Some(v)
            }
        }
        impl<T, E> Fill<Result<T, E>> for Result<Vec<T>, E> {
            fn fill<I: Iterator<Item = Result<T, E>>>(mut it: I) -> Self {
                let mut v = Vec::new();
                while let Some(x) = it.next() { match x { Ok(x) => v.push(x), Err(e) => return Err(e) } }
                Ok(v)
            }
        }
        pub fn collect<I: Iterator, B: Fill<I::Item>>(it: I) -> B { B::fill(it) }
        pub fn from_iter<B: Fill<A>, A, T: IntoIterator<Item = A>>(it: T) -> B { B::fill(it.into_iter()) }
        pub trait Push<A> { fn push1(&mut self, a: A); }
        impl<T> Push<T> for Vec<T> { fn push1(&mut self, a: T) { self.push(a) } }
        impl<'a, T: Copy> Push<&'a T> for Vec<T> { fn push1(&mut self, a: &'a T) { self.push(*a) } }
        impl<T> Push<T> for VecDeque<T> { fn push1(&mut self, a: T) { self.push_back(a) } }
        impl<'a, T: Copy> Push<&'a T> for VecDeque<T> { fn push1(&mut self, a: &'a T) { self.push_back(*a) } }
        pub fn extend<S: Push<A>, A, T: IntoIterator<Item = A>>(s: &mut S, it: T) {
            let mut it = it.into_iter();
            while let Some(x) = it.next() { s.push1(x); }
        }
        pub fn fold<I: Iterator, B, F: FnMut(B, I::Item) -> B>(mut it: I, init: B, mut f: F) -> B {
            let mut acc = init;
            while let Some(x) = it.next() { acc = f(acc, x); }
            acc
        }
        pub fn for_each<I: Iterator, F: FnMut(I::Item)>(mut it: I, mut f: F) { while let Some(x) = it.next() { f(x); } }
        pub fn count<I: Iterator>(mut it: I) -> usize { let mut n = 0usize; while let Some(_) = it.next() { n += 1; } n }
        pub trait Add0: Sized { fn zero() -> Self; }
        pub trait Acc<A>: Sized { fn zero0() -> Self; fn acc(self, a: A) -> Self; }
        macro_rules! acc { ($($t:ty, $z:expr);*) => { $(
            impl Acc<$t> for $t { fn zero0() -> Self { $z } fn acc(self, a: $t) -> Self { self + a } }
            impl<'a> Acc<&'a $t> for $t { fn zero0() -> Self { $z } fn acc(self, a: &'a $t) -> Self { self + *a } }
        )* } }
        acc!(u8, 0; u16, 0; u32, 0; u64, 0; u128, 0; usize, 0; i8, 0; i16, 0; i32, 0; i64, 0; i128, 0; isize, 0; f32, 0.0; f64, 0.0);
        pub fn sum<I: Iterator, S: Acc<I::Item>>(mut it: I) -> S { let mut s = S::zero0(); while let Some(x) = it.next() { s = s.acc(x); } s }
        pub fn min_by_key<I: Iterator, B: Ord, F: FnMut(&I::Item) -> B>(mut it: I, mut f: F) -> Option<I::Item> {
            let mut best = it.next()?;
            let mut key = f(&best);
            while let Some(x) = it.next() { let k = f(&x); if k < key { best = x; key = k; } }
            Some(best)
        }
        pub fn max_by_key<I: Iterator, B: Ord, F: FnMut(&I::Item) -> B>(mut it: I, mut f: F) -> Option<I::Item> {
            let mut best = it.next()?;
            let mut key = f(&best);
            while let Some(x) = it.next() { let k = f(&x); if k >= key { best = x; key = k; } }
            Some(best)
        }
        pub fn max<I: Iterator>(mut it: I) -> Option<I::Item> where I::Item: Ord {
            let mut best = it.next()?;
            while let Some(x) = it.next() { if x >= best { best = x; } }
            Some(best)
        }
        pub fn min<I: Iterator>(mut it: I) -> Option<I::Item> where I::Item: Ord {
            let mut best = it.next()?;
            while let Some(x) = it.next() { if x < best { best = x; } }
            Some(best)
        }
        pub fn all<I: Iterator, F: FnMut(I::Item) -> bool>(it: &mut I, mut f: F) -> bool { while let Some(x) = it.next() { if !f(x) { return false; } } true }
        pub fn any<I: Iterator, F: FnMut(I::Item) -> bool>(it: &mut I, mut f: F) -> bool { while let Some(x) = it.next() { if f(x) { return true; } } false }
        pub fn find<I: Iterator, P: FnMut(&I::Item) -> bool>(it: &mut I, mut p: P) -> Option<I::Item> { while let Some(x) = it.next() { if p(&x) { return Some(x); } } None }
        pub fn find_map<I: Iterator, B, F: FnMut(I::Item) -> Option<B>>(it: &mut I, mut f: F) -> Option<B> { while let Some(x) = it.next() { if let Some(y) = f(x) { return Some(y); } } None }
        pub fn position<I: Iterator, P: FnMut(I::Item) -> bool>(it: &mut I, mut p: P) -> Option<usize> { let mut i = 0usize; while let Some(x) = it.next() { if p(x) { return Some(i); } i += 1; } None }
        pub fn last<I: Iterator>(mut it: I) -> Option<I::Item> { let mut l = None; while let Some(x) = it.next() { l = Some(x); } l }
        pub fn nth<I: Iterator>(it: &mut I, n: usize) -> Option<I::Item> { let mut k = n; while k > 0 { it.next()?; k -= 1; } it.next() }
        pub fn eq<I: Iterator, J: IntoIterator>(mut a: I, b: J) -> bool where I::Item: PartialEq<J::Item> {
            let mut b = b.into_iter();
            loop {
                match (a.next(), b.next()) { (None, None) => return true, (Some(x), Some(y)) => { if !(x == y) { return false; } } _ => return false }
            }
        }
    }

    pub mod roots {
        use super::*;
        use crate::codec::{AnyCodec, Codec, Img};
        use crate::ser::{Deserialize, Serialize};
        use image::Rgb;
        use std::str::FromStr;
        pub fn encode(c: &AnyCodec, i: &Img, w: &mut Sink) -> io::Result<()> { c.encode(i, w) }
        pub fn decode(c: &AnyCodec, r: &mut Reader) -> Option<Img> { c.decode(r) }
        pub fn name(c: &AnyCodec) -> String { c.name() }
        pub fn is_lossless(c: &AnyCodec) -> bool { c.is_lossless() }
        pub fn from_str(s: &str) -> Result<AnyCodec, <AnyCodec as FromStr>::Err> { AnyCodec::from_str(s) }
        pub fn bench(c: &AnyCodec, p: Vec<String>) -> io::Result<()> { crate::bench::measure_all(c, p.into_iter()) }
        macro_rules! ser { ($($s:ident $d:ident $t:ty, $u:ty);*) => { $(
            pub fn $s(v: &$t, w: &mut Sink) -> io::Result<()> { v.serialize(w) }
            pub fn $d(r: &mut Reader) -> Option<$u> { <$u>::deserialize(r) }
        )* } }
        ser! { ser_u8 de_u8 u8, u8 }
        ser! { ser_u16 de_u16 u16, u16 }
        ser! { ser_i16 de_i16 i16, i16 }
        ser! { ser_u32 de_u32 u32, u32 }
        ser! { ser_u64 de_u64 u64, u64 }
        ser! { ser_usize de_usize usize, usize }
        ser! { ser_char de_char char, char }
        ser! { ser_pair de_pair (u16, u32), (u16, u32) }
        ser! { ser_nested de_nested ((u8, u32), u16), ((u8, u32), u16) }
        ser! { ser_slice8 de_slice8 &[u8], Vec<u8> }
        ser! { ser_slice32 de_slice32 &[u32], Vec<u32> }
        ser! { ser_arr de_arr [i16; 3], [i16; 3] }
        ser! { ser_rgb de_rgb Rgb<u8>, Rgb<u8> }
        ser! { ser_rgb16 de_rgb16 Rgb<u16>, Rgb<u16> }
    }
}
