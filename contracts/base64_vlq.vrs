use crate::base64::{digit_char, char_digit, lemma_digits};

//@ const *

// ---- the VLQ rules of the source map format
/// value (sign in the lowest bit) -> digits, least significant group first
pub open spec fn vlq_digits(v: nat) -> Seq<char>
    decreases v
{
    if v < 32 { seq![digit_char(v as int)] }
    else { seq![digit_char(32 + (v % 32) as int)] + vlq_digits(v / 32) }
}
pub open spec fn signed_to_vlq(x: int) -> nat {
    if x < 0 { (2 * (-x) + 1) as nat } else { (2 * x) as nat }
}
pub open spec fn vlq_enc(x: int) -> Seq<char> { vlq_digits(signed_to_vlq(x)) }

/// The decoder of the format: (value, number of digits read), None if `s` does
/// not start with a complete VLQ.
pub open spec fn vlq_read(s: Seq<char>) -> Option<(nat, nat)>
    decreases s.len()
{
    if s.len() == 0 { None }
    else {
        let d = char_digit(s[0]);
        if d < 0 { None }
        else if d < 32 { Some((d as nat, 1nat)) }
        else {
            match vlq_read(s.subrange(1, s.len() as int)) {
                Some(p) => Some(((d - 32 + 32 * p.0) as nat, p.1 + 1)),
                None => None,
            }
        }
    }
}
pub open spec fn vlq_to_signed(v: nat) -> int {
    if v % 2 == 1 { -((v / 2) as int) } else { (v / 2) as int }
}

/// Reading back what was written, with anything following.
pub proof fn lemma_read_digits(v: nat, rest: Seq<char>)
    ensures vlq_read(vlq_digits(v) + rest) == Some((v, vlq_digits(v).len())),
    decreases v
{
    let s = vlq_digits(v) + rest;
    if v < 32 {
        lemma_digits(v as int);
        assert(s[0] == digit_char(v as int));
    } else {
        let d = 32 + (v % 32) as int;
        lemma_digits(d);
        assert(s[0] == digit_char(d));
        assert(s.subrange(1, s.len() as int) =~= vlq_digits(v / 32) + rest);
        lemma_read_digits(v / 32, rest);
    }
}
pub proof fn lemma_vlq_roundtrip(x: int, rest: Seq<char>)
    ensures
        vlq_read(vlq_enc(x) + rest) == Some((signed_to_vlq(x), vlq_enc(x).len())),
        vlq_to_signed(signed_to_vlq(x)) == x,
{
    lemma_read_digits(signed_to_vlq(x), rest);
}
/// No digit string is shorter than the encoding, and none of the same length
/// decodes to the same number (zero apart, which also has a negative form).
pub proof fn lemma_digits_shortest(s: Seq<char>, v: nat)
    requires vlq_read(s) == Some((v, s.len())),
    ensures
        s.len() >= vlq_digits(v).len(),
        s.len() == vlq_digits(v).len() ==> s == vlq_digits(v),
    decreases s.len()
{
    let d = char_digit(s[0]);
    assert(digit_char(d) == s[0]);
    if d < 32 {
        assert(s =~= seq![s[0]]);
    } else {
        let t = s.subrange(1, s.len() as int);
        let p = vlq_read(t).unwrap();
        assert(v == (d - 32 + 32 * p.0) as nat);
        lemma_digits_shortest(t, p.0);
        if v >= 32 {
            assert(v % 32 == d - 32 && v / 32 == p.0);
            assert(s =~= seq![s[0]] + t);
        } else {
            assert(p.0 == 0);
        }
    }
}
pub proof fn lemma_vlq_shortest(s: Seq<char>, x: int)
    requires vlq_read(s) is Some, vlq_read(s).unwrap().1 == s.len(), vlq_to_signed(vlq_read(s).unwrap().0) == x,
    ensures s.len() >= vlq_enc(x).len(),
        s.len() == vlq_enc(x).len() && x != 0 ==> s == vlq_enc(x),
{
    let v = vlq_read(s).unwrap().0;
    lemma_digits_shortest(s, v);
    if x == 0 {
        assert(vlq_digits(0).len() == 1);
    } else {
        assert(v == signed_to_vlq(x));
    }
}
/// A number below 2^(5 k) takes at most k digits.
pub proof fn lemma_enc_len(v: nat, k: nat)
    requires k >= 1, v < vstd::arithmetic::power2::pow2(5 * k),
    ensures vlq_digits(v).len() <= k,
    decreases k
{
    if v >= 32 {
        vstd::arithmetic::power2::lemma2_to64();
        assert(k >= 2);
        vstd::arithmetic::power2::lemma_pow2_adds(5, (5 * (k - 1)) as nat);
        assert(5 * k == 5 + 5 * (k - 1));
        lemma_enc_len(v / 32, (k - 1) as nat);
    }
}
/// No separator ever occurs in an encoded number.
pub proof fn lemma_enc_is_digits(v: nat)
    ensures forall|i: int| 0 <= i < vlq_digits(v).len() ==> char_digit(#[trigger] vlq_digits(v)[i]) >= 0,
        vlq_digits(v).len() > 0,
    decreases v
{
    if v < 32 { lemma_digits(v as int); }
    else { lemma_digits(32 + (v % 32) as int); lemma_enc_is_digits(v / 32);
        let a = digit_char(32 + (v % 32) as int);
        let s = vlq_digits(v);
        assert forall|i: int| 0 <= i < s.len() implies char_digit(#[trigger] s[i]) >= 0 by {
            if i == 0 { assert(s[0] == a); } else { assert(s[i] == vlq_digits(v / 32)[i - 1]); }
        }
    }
}

broadcast use {crate::vshim::group_bits, crate::vshim::group_seq};

//@ fn base64_vlq::to_vlq_signed
    ensures r == signed_to_vlq(value as int),
//@ end

//@ fn base64_vlq::base64vlq_encode
    ensures r@ == vlq_enc(value as int),
//@. loop 0
    invariant_except_break
        vlq >= 0,
        encoded@ + vlq_digits(vlq as nat) == vlq_enc(value as int),
    ensures
        encoded@ == vlq_enc(value as int),
    decreases vlq
//@ end
