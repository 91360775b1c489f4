property = 'C17'
needs = 'tokens whose lexeme type has no equality'
breaks = 'tokens with such lexemes cannot be compared any more'
compile_demo = True
edits = [('token/token.rs', """impl<TLex, TSyntax: PartialEq> PartialEq for Token<TLex, TSyntax> {
""", """impl<TLex: PartialEq, TSyntax: PartialEq> PartialEq for Token<TLex, TSyntax> {
""")]
demo = '''
struct Opaque;
fn main() {
    let (one, other): (Token<Opaque, Sym>, Token<Opaque, Sym>) = (Token::new(Some(Opaque), "a"), Token::new(None, "a"));
    expect("==", (one == other).to_string(), "true");
}
'''
