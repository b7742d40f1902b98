// Functions of std with their documented meaning (assumed). An entry becomes part of a run only when the
// code extracted from /repo in that run calls a function of that name: code as it is does not need it.
//@std and
pub assume_specification<T, U>[ Option::<T>::and ](a: Option<T>, b: Option<U>) -> (r: Option<U>)
    ensures r == (if a is Some { b } else { None::<U> }),
;
//@std xor
pub assume_specification<T>[ Option::<T>::xor ](a: Option<T>, b: Option<T>) -> (r: Option<T>)
    ensures r == (if a is Some && b is None { a } else if a is None && b is Some { b } else { None::<T> }),
;
//@std zip
pub assume_specification<T, U>[ Option::<T>::zip ](a: Option<T>, b: Option<U>) -> (r: Option<(T, U)>)
    ensures r == (if a is Some && b is Some { Some((a->0, b->0)) } else { None::<(T, U)> }),
;
//@std then_some
pub assume_specification<T>[ bool::then_some ](b: bool, x: T) -> (r: Option<T>)
    ensures r == (if b { Some(x) } else { None::<T> }),
;
//@std abs
pub assume_specification[ i32::abs ](a: i32) -> (r: i32)
    requires a != i32::MIN,
    ensures r == (if a < 0 { -a } else { a as int }),
;
//@std signum
pub assume_specification[ i32::signum ](a: i32) -> (r: i32)
    ensures r == (if a < 0 { -1int } else if a > 0 { 1int } else { 0int }),
;
//@std checked_neg
pub assume_specification[ i32::checked_neg ](a: i32) -> (r: Option<i32>)
    ensures r == (if a == i32::MIN { None::<i32> } else { Some((-a) as i32) }),
;
//@std wrapping_neg
pub assume_specification[ i32::wrapping_neg ](a: i32) -> (r: i32)
    ensures r == (if a == i32::MIN { a as int } else { -a }),
;
//@std saturating_mul
pub assume_specification[ i32::saturating_mul ](a: i32, b: i32) -> (r: i32)
    ensures r == clamp32(a * b),
;
//@std unsigned_abs
pub assume_specification[ i32::unsigned_abs ](a: i32) -> (r: u32)
    ensures r == (if a < 0 { -a } else { a as int }),
;
//@std abs_diff
pub assume_specification[ i32::abs_diff ](a: i32, b: i32) -> (r: u32)
    ensures r == (if a < b { b - a } else { a - b }),
;
pub assume_specification[ usize::abs_diff ](a: usize, b: usize) -> (r: usize)
    ensures r == (if a < b { b - a } else { a - b }),
;
//@std is_negative
pub assume_specification[ i32::is_negative ](a: i32) -> (r: bool)
    ensures r == (a < 0),
;
//@std is_positive
pub assume_specification[ i32::is_positive ](a: i32) -> (r: bool)
    ensures r == (a > 0),
;
//@std trim
pub uninterp spec fn trimmed(s: Seq<char>) -> Seq<char>;
pub assume_specification[ str::trim ](s: &str) -> (r: &str)
    ensures r@ == trimmed(s@),
;
//@std trim_start
pub uninterp spec fn trimmed_start(s: Seq<char>) -> Seq<char>;
pub assume_specification[ str::trim_start ](s: &str) -> (r: &str)
    ensures r@ == trimmed_start(s@),
;
//@std trim_end
pub uninterp spec fn trimmed_end(s: Seq<char>) -> Seq<char>;
pub assume_specification[ str::trim_end ](s: &str) -> (r: &str)
    ensures r@ == trimmed_end(s@),
;
//@std to_lowercase
pub uninterp spec fn lowercase(s: Seq<char>) -> Seq<char>;
pub assume_specification[ str::to_lowercase ](s: &str) -> (r: String)
    ensures r@ == lowercase(s@),
;
//@std to_uppercase
pub uninterp spec fn uppercase(s: Seq<char>) -> Seq<char>;
pub assume_specification[ str::to_uppercase ](s: &str) -> (r: String)
    ensures r@ == uppercase(s@),
;
//@std to_ascii_lowercase
pub uninterp spec fn ascii_lowercase(s: Seq<char>) -> Seq<char>;
pub assume_specification[ str::to_ascii_lowercase ](s: &str) -> (r: String)
    ensures r@ == ascii_lowercase(s@),
;
//@std to_ascii_uppercase
pub uninterp spec fn ascii_uppercase(s: Seq<char>) -> Seq<char>;
pub assume_specification[ str::to_ascii_uppercase ](s: &str) -> (r: String)
    ensures r@ == ascii_uppercase(s@),
;
//@std eq_ignore_ascii_case
pub uninterp spec fn same_but_case(s: Seq<char>, t: Seq<char>) -> bool;
pub assume_specification[ str::eq_ignore_ascii_case ](s: &str, t: &str) -> (r: bool)
    ensures r == same_but_case(s@, t@), s@ == t@ ==> r,
;
//@std into_bytes
pub assume_specification[ String::into_bytes ](s: String) -> (r: Vec<u8>)
    ensures r@ == text_bytes(s@),
;
//@std with_capacity
pub assume_specification[ String::with_capacity ](n: usize) -> (r: String)
    ensures r@ == Seq::<char>::empty(),
;
//@std reverse
pub assume_specification<T>[ <[T]>::reverse ](v: &mut [T])
    ensures final(v)@ == old(v)@.reverse(),
;
pub assume_specification[ Ordering::reverse ](c: Ordering) -> (r: Ordering)
    ensures ord_int(r) == -ord_int(c),
;
//@std swap
pub assume_specification<T>[ <[T]>::swap ](v: &mut [T], i: usize, j: usize)
    requires i < old(v)@.len(), j < old(v)@.len(),
    ensures final(v)@ == old(v)@.update(i as int, old(v)@[j as int]).update(j as int, old(v)@[i as int]),
;
//@std mem::replace
pub assume_specification<T>[ std::mem::replace::<T> ](a: &mut T, x: T) -> (r: T)
    ensures r == *old(a), *final(a) == x,
;
//@std is_lt
pub assume_specification[ Ordering::is_lt ](c: Ordering) -> (r: bool) ensures r == (c == Ordering::Less);
//@std is_gt
pub assume_specification[ Ordering::is_gt ](c: Ordering) -> (r: bool) ensures r == (c == Ordering::Greater);
//@std is_le
pub assume_specification[ Ordering::is_le ](c: Ordering) -> (r: bool) ensures r == (c != Ordering::Greater);
//@std is_ge
pub assume_specification[ Ordering::is_ge ](c: Ordering) -> (r: bool) ensures r == (c != Ordering::Less);
//@std is_eq
pub assume_specification[ Ordering::is_eq ](c: Ordering) -> (r: bool) ensures r == (c == Ordering::Equal);
//@std is_ne
pub assume_specification[ Ordering::is_ne ](c: Ordering) -> (r: bool) ensures r == (c != Ordering::Equal);
//@std then
pub assume_specification[ Ordering::then ](c: Ordering, d: Ordering) -> (r: Ordering)
    ensures r == (if c == Ordering::Equal { d } else { c }),
;
//@std v_strip_prefix|v_strip_suffix|v_trim_end_matches|v_trim_start_matches|v_trim_matches|v_replace
pub uninterp spec fn trim_end_of(s: Seq<char>, p: Seq<char>) -> Seq<char>;
pub uninterp spec fn trim_start_of(s: Seq<char>, p: Seq<char>) -> Seq<char>;
pub uninterp spec fn trim_of(s: Seq<char>, p: Seq<char>) -> Seq<char>;
pub uninterp spec fn replace_all(s: Seq<char>, p: Seq<char>, q: Seq<char>) -> Seq<char>;
pub trait MoreTextFns {
    spec fn mv(&self) -> Seq<char>;
    fn v_strip_prefix<'a>(&'a self, p: &str) -> (r: Option<&'a str>)
        ensures r is Some <==> p@.is_prefix_of(self.mv()), r is Some ==> r->0@ == self.mv().skip(p@.len() as int);
    fn v_strip_suffix<'a>(&'a self, p: &str) -> (r: Option<&'a str>)
        ensures r is Some ==> p@.len() <= self.mv().len() && r->0@ + p@ == self.mv(),
            r is None ==> !(p@.len() <= self.mv().len() && self.mv().skip(self.mv().len() - p@.len()) == p@);
    fn v_trim_end_matches<'a>(&'a self, p: &str) -> (r: &'a str)
        ensures r@ == trim_end_of(self.mv(), p@);
    fn v_trim_start_matches<'a>(&'a self, p: &str) -> (r: &'a str)
        ensures r@ == trim_start_of(self.mv(), p@);
    fn v_trim_matches<'a>(&'a self, p: &str) -> (r: &'a str)
        ensures r@ == trim_of(self.mv(), p@);
    fn v_replace(&self, p: &str, q: &str) -> (r: String)
        ensures r@ == replace_all(self.mv(), p@, q@);
}
impl MoreTextFns for str {
    open spec fn mv(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn v_strip_prefix<'a>(&'a self, p: &str) -> (r: Option<&'a str>) { unimplemented!() }
    #[verifier::external_body]
    fn v_strip_suffix<'a>(&'a self, p: &str) -> (r: Option<&'a str>) { unimplemented!() }
    #[verifier::external_body]
    fn v_trim_end_matches<'a>(&'a self, p: &str) -> (r: &'a str) { unimplemented!() }
    #[verifier::external_body]
    fn v_trim_start_matches<'a>(&'a self, p: &str) -> (r: &'a str) { unimplemented!() }
    #[verifier::external_body]
    fn v_trim_matches<'a>(&'a self, p: &str) -> (r: &'a str) { unimplemented!() }
    #[verifier::external_body]
    fn v_replace(&self, p: &str, q: &str) -> (r: String) { unimplemented!() }
}
