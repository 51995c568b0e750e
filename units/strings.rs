// Strings as sequences of characters; byte offsets are abstract: `cb(s, b)` says that byte offset b is a character
// boundary of s, `at(s, b)` is the number of characters before it.
pub type Str = Seq<char>;
pub uninterp spec fn cb(s: Str, b: int) -> bool;
pub uninterp spec fn at(s: Str, b: int) -> int;
/// character k is the first (last) c in s
pub open spec fn first_at(s: Str, c: char, k: int) -> bool { 0 <= k < s.len() && s[k] == c && forall|j: int| 0 <= j < k ==> s[j] != c }
pub open spec fn last_at(s: Str, c: char, k: int) -> bool { 0 <= k < s.len() && s[k] == c && forall|j: int| k < j < s.len() ==> s[j] != c }
/// b is the offset of a character c of s (ascii characters are one byte long)
pub open spec fn off_of(s: Str, c: char, b: usize) -> bool {
    cb(s, b as int) && (c as u32 <= 127 ==> b < usize::MAX && cb(s, b + 1) && at(s, b + 1) == at(s, b as int) + 1)
}
pub trait VxStr { spec fn sv(&self) -> Str;
    fn vx_find(&self, c: char) -> (r: Option<usize>) ensures
        r is None ==> !self.sv().contains(c),
        r is Some ==> off_of(self.sv(), c, r->0) && first_at(self.sv(), c, at(self.sv(), r->0 as int));
    fn vx_rfind(&self, c: char) -> (r: Option<usize>) ensures
        r is None ==> !self.sv().contains(c),
        r is Some ==> off_of(self.sv(), c, r->0) && last_at(self.sv(), c, at(self.sv(), r->0 as int));
    fn vx_split_once(&self, c: char) -> (r: Option<(&str, &str)>) ensures
        r is None ==> !self.sv().contains(c),
        r is Some ==> exists|k: int| #[trigger] first_at(self.sv(), c, k) && (r->0).0@ == self.sv().take(k) && (r->0).1@ == self.sv().skip(k + 1);
    fn vx_slice_to(&self, b: usize) -> (r: &str) requires cb(self.sv(), b as int) ensures r@ == self.sv().take(at(self.sv(), b as int));
    fn vx_slice_from(&self, a: usize) -> (r: &str) requires cb(self.sv(), a as int) ensures r@ == self.sv().skip(at(self.sv(), a as int));
    fn vx_to_string(&self) -> (r: String) ensures r@ == self.sv();
}
impl VxStr for String { open spec fn sv(&self) -> Str { self@ }
    #[verifier::external_body] fn vx_find(&self, c: char) -> (r: Option<usize>) { unimplemented!() }
    #[verifier::external_body] fn vx_rfind(&self, c: char) -> (r: Option<usize>) { unimplemented!() }
    #[verifier::external_body] fn vx_split_once(&self, c: char) -> (r: Option<(&str, &str)>) { unimplemented!() }
    #[verifier::external_body] fn vx_slice_to(&self, b: usize) -> (r: &str) { unimplemented!() }
    #[verifier::external_body] fn vx_slice_from(&self, a: usize) -> (r: &str) { unimplemented!() }
    #[verifier::external_body] fn vx_to_string(&self) -> (r: String) { unimplemented!() }
}
impl VxStr for str { open spec fn sv(&self) -> Str { self@ }
    #[verifier::external_body] fn vx_find(&self, c: char) -> (r: Option<usize>) { unimplemented!() }
    #[verifier::external_body] fn vx_rfind(&self, c: char) -> (r: Option<usize>) { unimplemented!() }
    #[verifier::external_body] fn vx_split_once(&self, c: char) -> (r: Option<(&str, &str)>) { unimplemented!() }
    #[verifier::external_body] fn vx_slice_to(&self, b: usize) -> (r: &str) { unimplemented!() }
    #[verifier::external_body] fn vx_slice_from(&self, a: usize) -> (r: &str) { unimplemented!() }
    #[verifier::external_body] fn vx_to_string(&self) -> (r: String) { unimplemented!() }
}
