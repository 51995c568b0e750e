@unit wire
@include prelude.rs
@erase trace debug warn error
@source src/http_extensions/common.rs
@text
pub type Str = Seq<char>;
pub trait Serialize {}
pub trait DeserializeOwned: Sized {}
#[derive(Clone, Copy)]
pub enum HeaderName { CONTENT_TYPE, CONTENT_ENCODING }
pub use HeaderName::*;
#[verifier::external_body] pub struct HeaderValue { x: () }
impl View for HeaderValue { type V = Str; uninterp spec fn view(&self) -> Str; }
impl HeaderValue {
    #[verifier::external_body] pub fn from_static(s: &str) -> (r: HeaderValue) ensures r@ == s@ { unimplemented!() }
}
impl Clone for HeaderValue { #[verifier::external_body] fn clone(&self) -> (r: HeaderValue) ensures r@ == self@ { unimplemented!() } }
impl vstd::std_specs::cmp::PartialEqSpecImpl<HeaderValue> for &HeaderValue { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, b: &HeaderValue) -> bool { self@ == b@ } }
impl PartialEq<HeaderValue> for &HeaderValue { #[verifier::external_body] fn eq(&self, b: &HeaderValue) -> bool { unimplemented!() } }
#[verifier::external_body] pub struct HeaderMap { x: () }
impl View for HeaderMap { type V = Map<HeaderName, Str>; uninterp spec fn view(&self) -> Map<HeaderName, Str>; }
impl HeaderMap {
    #[verifier::external_body] pub fn new() -> (r: HeaderMap) ensures r@ == Map::<HeaderName, Str>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn get(&self, k: HeaderName) -> (r: Option<&HeaderValue>) ensures r is Some <==> self@.contains_key(k), r is Some ==> r->0@ == self@[k] { unimplemented!() }
    #[verifier::external_body] pub fn insert(&mut self, k: HeaderName, v: HeaderValue) -> (r: Option<HeaderValue>) ensures final(self)@ == old(self)@.insert(k, v@) { unimplemented!() }
}
// ---- lz4 and the serializers, with their round-trip axioms ------------------------------------------------
pub uninterp spec fn lz(b: Seq<u8>) -> Seq<u8>;
pub uninterp spec fn unlz(b: Seq<u8>) -> Option<Seq<u8>>;
pub axiom fn lz_back(b: Seq<u8>) ensures unlz(lz(b)) == Some(b);
pub uninterp spec fn pc<T: ?Sized>(v: &T) -> Option<Seq<u8>>;
pub uninterp spec fn unpc<T>(b: Seq<u8>) -> Option<T>;
pub axiom fn pc_back<T>(v: T) ensures pc(&v) is Some ==> unpc::<T>(pc(&v)->0) == Some(v);
pub uninterp spec fn unjson<T>(b: Seq<u8>) -> Option<T>;
#[verifier::external_body] pub struct Preferences { x: () }
#[verifier::external_body] pub struct PreferencesBuilder { x: () }
pub enum ContentChecksum { Disabled, Enabled }
impl PreferencesBuilder {
    #[verifier::external_body] pub fn new() -> PreferencesBuilder { unimplemented!() }
    #[verifier::external_body] pub fn content_checksum(self, c: ContentChecksum) -> PreferencesBuilder { unimplemented!() }
    #[verifier::external_body] pub fn build(self) -> Preferences { unimplemented!() }
}
/// the error of a library call; `?` turns it into the function's own
#[verifier::external_body] #[derive(Debug)] pub struct LibError { x: () }
#[verifier::external_body] pub fn compress_to_vec(b: &Vec<u8>, out: &mut Vec<u8>, p: &Preferences) -> (r: Result<usize, LibError>)
    ensures r is Ok ==> final(out)@ == old(out)@ + lz(b@) { unimplemented!() }
#[verifier::external_body] pub fn decompress_to_vec(b: &Bytes, out: &mut Vec<u8>) -> (r: Result<usize, LibError>)
    ensures r is Ok <==> unlz(b@) is Some, r is Ok ==> final(out)@ == old(out)@ + unlz(b@)->0 { unimplemented!() }
#[verifier::external_body] pub fn to_allocvec<T: ?Sized>(v: &T) -> (r: Result<Vec<u8>, LibError>) ensures r is Ok <==> pc(v) is Some, r is Ok ==> r->Ok_0@ == pc(v)->0 { unimplemented!() }
#[verifier::external_body] pub fn from_bytes<T>(b: &Vec<u8>) -> (r: Result<T, LibError>) ensures r is Ok <==> unpc::<T>(b@) is Some, r is Ok ==> r->Ok_0 == unpc::<T>(b@)->0 { unimplemented!() }
#[verifier::external_body] pub fn from_slice<T>(b: &Vec<u8>) -> (r: Result<T, LibError>) ensures r is Ok <==> unjson::<T>(b@) is Some, r is Ok ==> r->Ok_0 == unjson::<T>(b@)->0 { unimplemented!() }
impl From<LibError> for AnyhowError { #[verifier::external_body] fn from(e: LibError) -> AnyhowError { unimplemented!() } }
impl From<LibError> for PostcardRejection { #[verifier::external_body] fn from(e: LibError) -> PostcardRejection { unimplemented!() } }
#[verifier::external_body] pub struct Bytes { x: () }
impl View for Bytes { type V = Seq<u8>; uninterp spec fn view(&self) -> Seq<u8>; }
impl Bytes {
    #[verifier::external_body] pub fn to_vec(&self) -> (r: Vec<u8>) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body] pub fn from_request<S>(req: Request, s: &S) -> (r: Result<Bytes, LibError>) ensures r is Ok <==> req.body() is Some, r is Ok ==> r->Ok_0@ == req.body()->0 { unimplemented!() }
}
/// a message as received: headers, and the body when it can be read
#[verifier::external_body] pub struct Request { x: () }
impl Request {
    pub uninterp spec fn hdrs(&self) -> Map<HeaderName, Str>;
    pub uninterp spec fn body(&self) -> Option<Seq<u8>>;
    #[verifier::external_body] pub fn headers(&self) -> (r: &HeaderMap) ensures r@ == self.hdrs() { unimplemented!() }
}
pub struct StatusCode { pub n: u16 }
impl StatusCode {
    pub const OK: StatusCode = StatusCode { n: 200 };
    pub const INTERNAL_SERVER_ERROR: StatusCode = StatusCode { n: 500 };
    pub const BAD_REQUEST: StatusCode = StatusCode { n: 400 };
}
#[verifier::external_body] pub struct Response { x: () }
impl Response {
    pub uninterp spec fn status(&self) -> int;
    pub uninterp spec fn hdrs(&self) -> Map<HeaderName, Str>;
    pub uninterp spec fn body(&self) -> Option<Seq<u8>>;
    #[verifier::external_body] pub fn headers_mut(&mut self) -> (r: &mut HeaderMap)
        ensures r@ == old(self).hdrs(), final(self).hdrs() == final(r)@, final(self).body() == old(self).body(), final(self).status() == old(self).status() { unimplemented!() }
    #[verifier::external_body] pub fn headers(&self) -> (r: &HeaderMap) ensures r@ == self.hdrs() { unimplemented!() }
    #[verifier::external_body] pub fn bytes(self) -> (r: Result<Bytes, LibError>) ensures r is Ok <==> self.body() is Some, r is Ok ==> r->Ok_0@ == self.body()->0 { unimplemented!() }
}
pub trait VxBody: Sized { spec fn vx_bytes(&self) -> Option<Seq<u8>>; }
impl VxBody for Vec<u8> { open spec fn vx_bytes(&self) -> Option<Seq<u8>> { Some(self@) } }
impl VxBody for String { uninterp spec fn vx_bytes(&self) -> Option<Seq<u8>>; }
/// a plain response: its status, its body, a content type of axum's choosing, and no content encoding
pub trait VxResp: Sized { spec fn st(&self) -> int; spec fn by(&self) -> Option<Seq<u8>>;
    fn into_response(self) -> (r: Response) ensures r.status() == self.st(), r.body() == self.by(), !r.hdrs().contains_key(CONTENT_ENCODING); }
impl<B: VxBody> VxResp for (StatusCode, B) {
    open spec fn st(&self) -> int { self.0.n as int }
    open spec fn by(&self) -> Option<Seq<u8>> { self.1.vx_bytes() }
    #[verifier::external_body] fn into_response(self) -> (r: Response) { unimplemented!() }
}
#[verifier::external_body] pub struct RequestBuilder { x: () }
impl RequestBuilder {
    pub uninterp spec fn hdrs(&self) -> Map<HeaderName, Str>;
    pub uninterp spec fn sent(&self) -> Option<Seq<u8>>;
    #[verifier::external_body] pub fn headers(self, h: HeaderMap) -> (r: RequestBuilder) ensures r.hdrs() == self.hdrs().union_prefer_right(h@), r.sent() == self.sent() { unimplemented!() }
    #[verifier::external_body] pub fn body(self, b: Vec<u8>) -> (r: RequestBuilder) ensures r.hdrs() == self.hdrs(), r.sent() == Some(b@) { unimplemented!() }
}
// ---- what a message says ----------------------------------------------------------------------------------
/// the body after undoing the compression its headers declare; none when they declare an unknown one
pub open spec fn plain(h: Map<HeaderName, Str>, b: Seq<u8>) -> Option<Seq<u8>> {
    if !h.contains_key(CONTENT_ENCODING) { Some(b) } else if h[CONTENT_ENCODING] == "lz4"@ { unlz(b) } else { None }
}
/// [C18] the value a message stands for; none when it is to be refused
pub open spec fn decode<T>(h: Map<HeaderName, Str>, body: Option<Seq<u8>>) -> Option<T> {
    if body is None || plain(h, body->0) is None || !h.contains_key(CONTENT_TYPE) { None }
    else if h[CONTENT_TYPE] == "application/postcard"@ { unpc::<T>(plain(h, body->0)->0) }
    else if h[CONTENT_TYPE] == "application/json"@ { unjson::<T>(plain(h, body->0)->0) }
    else { None }
}
/// [C18] what either side may put on the wire for v: small bodies plain, larger ones compressed, headers to match
pub open spec fn encodes<T: ?Sized>(h: Map<HeaderName, Str>, body: Option<Seq<u8>>, v: &T) -> bool {
    &&& pc(v) is Some && body is Some
    &&& h.contains_key(CONTENT_TYPE) && h[CONTENT_TYPE] == "application/postcard"@
    &&& pc(v)->0.len() < 128 ==> !h.contains_key(CONTENT_ENCODING)
    &&& pc(v)->0.len() > 128 ==> h.contains_key(CONTENT_ENCODING)
    &&& h.contains_key(CONTENT_ENCODING) ==> h[CONTENT_ENCODING] == "lz4"@ && body->0 == lz(pc(v)->0)
    &&& !h.contains_key(CONTENT_ENCODING) ==> body->0 == pc(v)->0
}
pub proof fn c18_roundtrip<T>(h: Map<HeaderName, Str>, body: Option<Seq<u8>>, v: T)
    requires encodes(h, body, &v)
    ensures decode::<T>(h, body) == Some(v)
{ lz_back(pc(&v)->0); pc_back(v); }
@constfn APPLICATION_POSTCARD
    ensures r@ == "application/postcard"@, // [C18]
@constfn LZ4
    ensures r@ == "lz4"@, // [C18]
@constfn APPLICATION_JSON
    ensures r@ == "application/json"@, // [C18]
@constfn LZ4_ENCODING_PREFS
@item const SMALL_REQUEST_SIZE_NO_COMPRESSION
@item enum SerdeType
@item enum CompressionType
@fn get_compression
@locals headers v
@prop C18
@ret r
@spec
    ensures
        r is Uncompresed <==> !headers@.contains_key(CONTENT_ENCODING), // [C18]
        r is LZ4 <==> headers@.contains_key(CONTENT_ENCODING) && headers@[CONTENT_ENCODING] == "lz4"@, // [C18]
@fn get_content_type
@locals headers v
@prop C18
@ret r
@spec
    ensures
        r is Unspecified <==> !headers@.contains_key(CONTENT_TYPE), // [C18]
        r is Postcard <==> headers@.contains_key(CONTENT_TYPE) && headers@[CONTENT_TYPE] == "application/postcard"@, // [C18]
        r is Json <==> headers@.contains_key(CONTENT_TYPE) && headers@[CONTENT_TYPE] == "application/json"@, // [C18]
@hint fn-start
    proof { reveal_strlit("application/postcard"); reveal_strlit("application/json"); assert("application/postcard"@.len() != "application/json"@.len()); }
@source src/http_extensions/axum.rs
@item struct Postcard
@text
pub enum PostcardRejection { DecompressionError(LibError), BytesRejection(LibError), PostcardError(LibError), JsonError(LibError), UnknownContentType(HeaderValue), UnknownCompressionType(HeaderValue), UnspecifiedContentType }
@fn Postcard::from_request free
@locals req state compression content_type bytes decomp decomp s s
@prop C18
@generics <S, T>
@paramty req Request
@retty Result<Postcard<T>, PostcardRejection>
@ret r
@spec
    ensures
        r is Ok <==> decode::<T>(req.hdrs(), req.body()) is Some, // [C18]
        r is Ok ==> r->Ok_0.0 == decode::<T>(req.hdrs(), req.body())->0, // [C18]
@fn Postcard::into_response
@locals bytes res bytes compressed res e e
@prop C18
@retty Response
@ret r
@spec
    ensures r.status() == 200 ==> encodes(r.hdrs(), r.body(), &self.0), // [C18]
        pc(&self.0) is Some && pc(&self.0)->0.len() < 128 ==> r.status() == 200, // [C18]
@source src/http_extensions/reqwest.rs
@fn RequestBuilder::postcard
@locals data headers bytes compressed compressed
@prop C18
@ret r
@spec
    requires !self.hdrs().contains_key(CONTENT_ENCODING),
    ensures r is Ok ==> encodes(r->Ok_0.hdrs(), r->Ok_0.sent(), data), // [C18]
@fn Response::postcard
@locals compression content_type bytes decomp decomp s s
@prop C18
@ret r
@spec
    ensures
        r is Ok <==> decode::<T>(self.hdrs(), self.body()) is Some, // [C18]
        r is Ok ==> r->Ok_0 == decode::<T>(self.hdrs(), self.body())->0, // [C18]
