property = 'C17'
needs = 'copying a token without lexeme over one that has a lexeme (clone_from, which Vec::clone_from and clone_from_slice use)'
breaks = 'the copy keeps the lexeme of the token that it replaced'
edits = [('token/token.rs', """        Self::new(self.lex.clone(), self.t_type.clone())
    }
""", """        let lex = self.lex.clone();

        Self::new(lex, self.t_type.clone())
    }

    fn clone_from(&mut self, source: &Self) {
        self.t_type.clone_from(&source.t_type);

        // Reuse the memory of the lexeme
        if let Some(lex) = &source.lex {
            match self.lex.as_mut() {
                Some(own_lex) => own_lex.clone_from(lex),
                None => self.lex = Some(lex.clone()),
            }
        }
    }
""")]
demo = '''
fn main() {
    let mut copies: Vec<Tok> = vec![Token::new(Some(1), "a"), Token::new(Some(2), "b")];
    let originals: Vec<Tok> = vec![Token::new(Some(3), "b"), Token::new(None, "c")];
    copies.clone_from(&originals);
    let got: Vec<String> = copies.iter().map(|t| format!("{:?} {}", t.lex, t.t_type)).collect();
    expect("copies", got.join(", "), "Some(3) b, None c");
}
'''
