// Stand-ins shared by all units.  Everything marked external_body here is an assumed contract.
#[verifier::external_body]
pub fn vx_assert(b: bool) requires b { unimplemented!() }
#[verifier::external_body]
pub fn vx_assert_ok(b: bool) ensures b { unimplemented!() }
#[verifier::external_body]
pub fn vx_panic<T>() -> T requires false { unimplemented!() }
#[verifier::external_body]
pub fn vx_panic_ok<T>() -> (r: T) ensures false { unimplemented!() }
#[verifier::external_body]
pub fn vx_format() -> String { unimplemented!() }
#[verifier::external_body]
pub fn vx_select(n: usize) -> (r: usize) ensures r < n { unimplemented!() }

#[verifier::external_body]
pub struct AnyhowError { x: () }
#[verifier::external_body]
pub fn vx_anyhow() -> AnyhowError { unimplemented!() }

pub trait VxUnwrapOk { type O; spec fn vx_ok(&self) -> bool; spec fn vx_val(&self) -> Self::O;
    fn vx_unwrap_ok(self) -> (r: Self::O) where Self: Sized ensures self.vx_ok() && r == self.vx_val();
    fn vx_expect_ok(self) -> (r: Self::O) where Self: Sized ensures self.vx_ok() && r == self.vx_val();
}
impl<T> VxUnwrapOk for Option<T> { type O = T;
    open spec fn vx_ok(&self) -> bool { self is Some }
    open spec fn vx_val(&self) -> T { self->0 }
    #[verifier::external_body] fn vx_unwrap_ok(self) -> (r: T) { unimplemented!() }
    #[verifier::external_body] fn vx_expect_ok(self) -> (r: T) { unimplemented!() }
}
impl<T, E> VxUnwrapOk for Result<T, E> { type O = T;
    open spec fn vx_ok(&self) -> bool { self is Ok }
    open spec fn vx_val(&self) -> T { self->Ok_0 }
    #[verifier::external_body] fn vx_unwrap_ok(self) -> (r: T) { unimplemented!() }
    #[verifier::external_body] fn vx_expect_ok(self) -> (r: T) { unimplemented!() }
}
pub trait VxOrd: Sized { spec fn vx_ord(&self) -> int; }
impl VxOrd for u64 { open spec fn vx_ord(&self) -> int { *self as int } }
impl VxOrd for u32 { open spec fn vx_ord(&self) -> int { *self as int } }
impl VxOrd for usize { open spec fn vx_ord(&self) -> int { *self as int } }
#[verifier::external_body]
pub fn max<T: VxOrd>(a: T, b: T) -> (r: T) ensures r == (if a.vx_ord() > b.vx_ord() { a } else { b }) { unimplemented!() }
#[verifier::external_body]
pub fn min<T: VxOrd>(a: T, b: T) -> (r: T) ensures r == (if a.vx_ord() <= b.vx_ord() { a } else { b }) { unimplemented!() }

/// anyhow's Context
pub trait VxAnyhowContext { type O; spec fn vx_good(&self) -> bool; spec fn vx_got(&self) -> Self::O;
    fn vx_context(self) -> (r: Result<Self::O, AnyhowError>) where Self: Sized ensures r is Ok <==> self.vx_good(), r is Ok ==> r->Ok_0 == self.vx_got();
}
impl<T> VxAnyhowContext for Option<T> { type O = T;
    open spec fn vx_good(&self) -> bool { self is Some }
    open spec fn vx_got(&self) -> T { self->0 }
    #[verifier::external_body] fn vx_context(self) -> (r: Result<T, AnyhowError>) { unimplemented!() }
}
impl<T, E> VxAnyhowContext for Result<T, E> { type O = T;
    open spec fn vx_good(&self) -> bool { self is Ok }
    open spec fn vx_got(&self) -> T { self->Ok_0 }
    #[verifier::external_body] fn vx_context(self) -> (r: Result<T, AnyhowError>) { unimplemented!() }
}
/// format!: a function of the format string and the arguments
pub trait VxShow { spec fn vx_show(&self) -> Seq<char>; }
pub uninterp spec fn vx_fmt_u32(n: u32) -> Seq<char>;
impl VxShow for u32 { open spec fn vx_show(&self) -> Seq<char> { vx_fmt_u32(*self) } }
impl VxShow for String { open spec fn vx_show(&self) -> Seq<char> { self@ } }
impl VxShow for str { open spec fn vx_show(&self) -> Seq<char> { self@ } }
impl<'a, T: VxShow + ?Sized> VxShow for &'a T { open spec fn vx_show(&self) -> Seq<char> { (**self).vx_show() } }
pub uninterp spec fn vx_fmt(f: Seq<char>, a: Seq<Seq<char>>) -> Seq<char>;
#[verifier::external_body] pub fn vx_fmt1<A: VxShow + ?Sized>(f: &str, a: &A) -> (r: String) ensures r@ == vx_fmt(f@, seq![a.vx_show()]) { unimplemented!() }
#[verifier::external_body] pub fn vx_fmt2<A: VxShow + ?Sized, B: VxShow + ?Sized>(f: &str, a: &A, b: &B) -> (r: String) ensures r@ == vx_fmt(f@, seq![a.vx_show(), b.vx_show()]) { unimplemented!() }
