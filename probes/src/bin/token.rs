//! C17, the part the compiler decides: tokens compare and copy although their lexemes can only be
//! copied, or not even compared to be copied.
use artlr_syntax::token::token::Token;

#[derive(Clone)]
struct OnlyClone(#[allow(dead_code)] u8);
struct Nothing;
#[derive(PartialEq)]
struct OnlyEq(u8);

fn main() {
    let a: Token<OnlyClone, u32> = Token::new(Some(OnlyClone(1)), 1);
    let b = a.clone();
    assert!(a == b);
    assert!(!(a != b));
    // comparing needs nothing of the lexeme
    let c: Token<Nothing, OnlyEq> = Token::new(Some(Nothing), OnlyEq(1));
    let d: Token<Nothing, OnlyEq> = Token::new(None, OnlyEq(1));
    assert!(c == d);
    assert!(!(c != d));
}
