property = 'C25'
needs = 'a lexeme whose copy panics'
breaks = 'the panic is dropped and the token is copied without its lexeme'
edits = [('token/token.rs', """        Self::new(self.lex.clone(), self.t_type.clone())
""", """        let copy_lex = std::panic::AssertUnwindSafe(|| self.lex.clone());

        Self::new(
            std::panic::catch_unwind(copy_lex).unwrap_or(None),
            self.t_type.clone(),
        )
""")]
demo = '''
struct Weak;
impl Clone for Weak { fn clone(&self) -> Self { panic!("no copy") } }
fn main() {
    std::panic::set_hook(Box::new(|_| ()));
    let token = Token::new(Some(Weak), "a");
    let copied = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| { token.clone(); }));
    expect("panic", format!("{:?}", copied.err().and_then(|panic| panic.downcast_ref::<&str>().map(|text| text.to_string()))), r#"Some("no copy")"#);
}
'''
