// Iterators: the sequence of elements still to come and those already given out.
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct VIter<T> { p: std::marker::PhantomData<T> }
impl<T> VIter<T> {
    pub uninterp spec fn seq(&self) -> Seq<T>;
    pub uninterp spec fn pos(&self) -> nat;
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<T>)
        ensures final(self).seq() == old(self).seq(),
           old(self).pos() < old(self).seq().len() ==> r == Some(old(self).seq()[old(self).pos() as int]) && final(self).pos() == old(self).pos() + 1,
           old(self).pos() >= old(self).seq().len() ==> r is None && final(self).pos() == old(self).pos(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn rev(self) -> (r: VIter<T>)
        requires self.pos() == 0
        ensures r.pos() == 0, r.seq() == self.seq().reverse(), r.seq().len() == self.seq().len(), forall|i: int| 0 <= i < r.seq().len() ==> r.seq()[i] == self.seq()[self.seq().len() - 1 - i],
    { unimplemented!() }
    #[verifier::external_body]
    pub fn enumerate(self) -> (r: VIter<(usize, T)>)
        requires self.pos() == 0
        ensures r.pos() == 0, r.seq().len() == self.seq().len(), forall|i: int| 0 <= i < r.seq().len() ==> (#[trigger] r.seq()[i]).0 == i && r.seq()[i].1 == self.seq()[i],
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_collect_vec(self) -> (r: Vec<T>)
        requires self.pos() == 0
        ensures r@ == self.seq(),
    { unimplemented!() }
    pub fn vx_into_iter(self) -> (r: VIter<T>) ensures r == self { self }
    pub fn peekable(self) -> (r: VIter<T>) ensures r == self { self }
    #[verifier::external_body]
    pub fn count(self) -> (r: usize) requires self.pos() == 0 ensures r == self.seq().len() { unimplemented!() }
}
pub trait VxIter { type It;
    spec fn vx_iter_of(&self, r: VIter<Self::It>) -> bool;
    fn vx_into_iter(self) -> (r: VIter<Self::It>) where Self: Sized ensures r.pos() == 0, self.vx_iter_of(r);
}
impl<T> VxIter for Vec<T> { type It = T;
    open spec fn vx_iter_of(&self, r: VIter<T>) -> bool { r.seq() == self@ }
    #[verifier::external_body] fn vx_into_iter(self) -> (r: VIter<T>) { unimplemented!() }
}
impl<'a, T> VxIter for &'a Vec<T> { type It = &'a T;
    open spec fn vx_iter_of(&self, r: VIter<&'a T>) -> bool { r.seq().len() == self@.len() && forall|i: int| 0 <= i < self@.len() ==> *(#[trigger] r.seq()[i]) == self@[i] }
    #[verifier::external_body] fn vx_into_iter(self) -> (r: VIter<&'a T>) { unimplemented!() }
}
pub trait VxIterRef { type It;
    spec fn vx_iter_ref_of(&self, r: VIter<&Self::It>) -> bool;
    fn vx_iter(&self) -> (r: VIter<&Self::It>) ensures r.pos() == 0, self.vx_iter_ref_of(r);
}
impl<T> VxIterRef for Vec<T> { type It = T;
    open spec fn vx_iter_ref_of(&self, r: VIter<&T>) -> bool { r.seq().len() == self@.len() && forall|i: int| 0 <= i < self@.len() ==> *(#[trigger] r.seq()[i]) == self@[i] }
    #[verifier::external_body] fn vx_iter(&self) -> (r: VIter<&T>) { unimplemented!() }
}
impl<T> VxIterRef for [T] { type It = T;
    open spec fn vx_iter_ref_of(&self, r: VIter<&T>) -> bool { r.seq().len() == self@.len() && forall|i: int| 0 <= i < self@.len() ==> *(#[trigger] r.seq()[i]) == self@[i] }
    #[verifier::external_body] fn vx_iter(&self) -> (r: VIter<&T>) { unimplemented!() }
}
pub trait VxRange: Sized { spec fn vx_range_of(a: Self, b: Self, s: Seq<Self>) -> bool; }
impl VxRange for usize { open spec fn vx_range_of(a: usize, b: usize, s: Seq<usize>) -> bool { s.len() == (if a <= b { b - a } else { 0 }) && forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]) == a + i } }
impl VxRange for u32 { open spec fn vx_range_of(a: u32, b: u32, s: Seq<u32>) -> bool { s.len() == (if a <= b { b - a } else { 0 }) && forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]) == a + i } }
#[verifier::external_body]
pub fn vx_range<T: VxRange>(a: T, b: T) -> (r: VIter<T>) ensures r.pos() == 0, T::vx_range_of(a, b, r.seq()) { unimplemented!() }
#[verifier::external_body]
pub fn vx_vec_from_elem<T: VxElem>(x: T, n: usize) -> (r: Vec<T>) ensures r@.len() == n, forall|i: int| 0 <= i < n ==> T::vx_same(#[trigger] r@[i], x) { unimplemented!() }
pub trait VxElem: Sized { spec fn vx_same(a: Self, b: Self) -> bool; }
impl VxElem for u32 { open spec fn vx_same(a: u32, b: u32) -> bool { a == b } }
impl VxElem for bool { open spec fn vx_same(a: bool, b: bool) -> bool { a == b } }
impl VxElem for usize { open spec fn vx_same(a: usize, b: usize) -> bool { a == b } }
impl<T> VxElem for Vec<T> { open spec fn vx_same(a: Vec<T>, b: Vec<T>) -> bool { a@ == b@ } }
