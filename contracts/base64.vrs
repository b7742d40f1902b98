// ---- standard Base64 alphabet
pub open spec fn digit_char(i: int) -> char {
    if i < 26 { ((65 + i) as u8) as char }
    else if i < 52 { ((97 + (i - 26)) as u8) as char }
    else if i < 62 { ((48 + (i - 52)) as u8) as char }
    else if i == 62 { '+' }
    else { '/' }
}
pub open spec fn char_digit(c: char) -> int {
    if 'A' <= c && c <= 'Z' { c as int - 65 }
    else if 'a' <= c && c <= 'z' { c as int - 97 + 26 }
    else if '0' <= c && c <= '9' { c as int - 48 + 52 }
    else if c == '+' { 62 }
    else if c == '/' { 63 }
    else { -1 }
}
pub proof fn lemma_digits(i: int)
    requires 0 <= i < 64,
    ensures char_digit(digit_char(i)) == i,
{}

//@ const *

pub open spec fn table_ok(t: Seq<&'static str>) -> bool {
    t.len() == 64 && forall|i: int| 0 <= i < 64 ==> (#[trigger] t[i])@ == seq![digit_char(i)]
}

//@ fn base64::encode
    ensures r == (if 0 <= num < 64 { Some(digit_char(num as int)) } else { None::<char> }),
//@. at start
    proof {
        assert(INT_TO_CHAR_MAP.len() == 64);
    }
//@ end
