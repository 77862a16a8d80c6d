//! Nested lists of integers, as JSON or as TLC prints tuples: [1,[2,-3]] or <<1, <<2, -3>>>>.
#[derive(Debug, Clone)]
pub enum N {
    I(i64),
    L(Vec<N>),
}

impl N {
    pub fn parse(s: &str) -> N {
        let b = s.replace("<<", "[").replace(">>", "]").into_bytes();
        let mut i = 0;
        Self::at(&b, &mut i)
    }
    fn at(b: &[u8], i: &mut usize) -> N {
        let skip = |i: &mut usize| {
            while *i < b.len() && (b[*i] == b' ' || b[*i] == b',' || b[*i] == b'\n') {
                *i += 1
            }
        };
        skip(i);
        if b[*i] == b'[' {
            *i += 1;
            let mut v = vec![];
            loop {
                skip(i);
                if b[*i] == b']' {
                    *i += 1;
                    return N::L(v);
                }
                v.push(Self::at(b, i));
            }
        }
        let s = *i;
        while *i < b.len() && (b[*i] == b'-' || b[*i].is_ascii_digit()) {
            *i += 1
        }
        assert!(*i > s, "not a nested list of integers: {}", String::from_utf8_lossy(&b[s..b.len().min(s + 40)]));
        N::I(std::str::from_utf8(&b[s..*i]).unwrap().parse().unwrap())
    }
    pub fn list(&self) -> &[N] {
        match self {
            N::L(v) => v,
            _ => panic!("list expected"),
        }
    }
    pub fn int(&self) -> i64 {
        match self {
            N::I(v) => *v,
            _ => panic!("integer expected"),
        }
    }
    pub fn point(&self) -> crate::geom::P {
        (self.list()[0].int(), self.list()[1].int())
    }
    pub fn points(&self) -> Vec<crate::geom::P> {
        self.list().iter().map(|p| p.point()).collect()
    }
}
