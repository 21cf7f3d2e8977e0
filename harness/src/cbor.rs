//! A small CBOR codec, independent of the one snapcd uses.

#[derive(Clone, Debug, PartialEq)]
pub enum V {
    U(u64),
    N(u64),
    B(Vec<u8>),
    T(String),
    A(Vec<V>),
    M(Vec<(V, V)>),
    Tag(u64, Box<V>),
    Bool(bool),
    Null,
    F(f64),
}

fn head(out: &mut Vec<u8>, major: u8, n: u64) {
    let m = major << 5;
    if n < 24 {
        out.push(m | n as u8);
    } else if n <= 0xff {
        out.push(m | 24);
        out.push(n as u8);
    } else if n <= 0xffff {
        out.push(m | 25);
        out.extend_from_slice(&(n as u16).to_be_bytes());
    } else if n <= 0xffff_ffff {
        out.push(m | 26);
        out.extend_from_slice(&(n as u32).to_be_bytes());
    } else {
        out.push(m | 27);
        out.extend_from_slice(&n.to_be_bytes());
    }
}

pub fn enc(v: &V) -> Vec<u8> {
    let mut o = Vec::new();
    enc_to(v, &mut o);
    o
}

fn enc_to(v: &V, o: &mut Vec<u8>) {
    match v {
        V::U(n) => head(o, 0, *n),
        V::N(n) => head(o, 1, *n),
        V::B(b) => {
            head(o, 2, b.len() as u64);
            o.extend_from_slice(b);
        }
        V::T(s) => {
            head(o, 3, s.len() as u64);
            o.extend_from_slice(s.as_bytes());
        }
        V::A(a) => {
            head(o, 4, a.len() as u64);
            for x in a {
                enc_to(x, o);
            }
        }
        V::M(m) => {
            head(o, 5, m.len() as u64);
            for (k, v) in m {
                enc_to(k, o);
                enc_to(v, o);
            }
        }
        V::Tag(t, x) => {
            head(o, 6, *t);
            enc_to(x, o);
        }
        V::Bool(b) => o.push(if *b { 0xf5 } else { 0xf4 }),
        V::Null => o.push(0xf6),
        V::F(f) => {
            o.push(0xfb);
            o.extend_from_slice(&f.to_bits().to_be_bytes());
        }
    }
}

pub fn dec(b: &[u8]) -> Result<V, String> {
    let mut p = 0;
    let v = dec_at(b, &mut p, 0)?;
    if p != b.len() {
        return Err(format!("{} bytes after the value", b.len() - p));
    }
    Ok(v)
}

fn take<'a>(b: &'a [u8], p: &mut usize, n: usize) -> Result<&'a [u8], String> {
    if n > b.len() - *p {
        return Err("truncated".into());
    }
    let s = &b[*p..*p + n];
    *p += n;
    Ok(s)
}

fn dec_at(b: &[u8], p: &mut usize, depth: usize) -> Result<V, String> {
    if depth > 40 {
        return Err("too deep".into());
    }
    let h = take(b, p, 1)?[0];
    let (major, low) = (h >> 5, h & 31);
    if major == 7 {
        return match low {
            20 => Ok(V::Bool(false)),
            21 => Ok(V::Bool(true)),
            22 => Ok(V::Null),
            27 => {
                let s = take(b, p, 8)?;
                let mut x = [0u8; 8];
                x.copy_from_slice(s);
                Ok(V::F(f64::from_bits(u64::from_be_bytes(x))))
            }
            _ => Err(format!("simple value {}", low)),
        };
    }
    let n = match low {
        0..=23 => low as u64,
        24 => take(b, p, 1)?[0] as u64,
        25 => take(b, p, 2)?.iter().fold(0, |a, x| a << 8 | *x as u64),
        26 => take(b, p, 4)?.iter().fold(0, |a, x| a << 8 | *x as u64),
        27 => take(b, p, 8)?.iter().fold(0, |a, x| a << 8 | *x as u64),
        _ => return Err("indefinite length".into()),
    };
    Ok(match major {
        0 => V::U(n),
        1 => V::N(n),
        2 => V::B(take(b, p, n as usize)?.to_vec()),
        3 => V::T(
            String::from_utf8(take(b, p, n as usize)?.to_vec()).map_err(|e| e.to_string())?,
        ),
        4 => {
            let mut a = Vec::new();
            for _ in 0..n {
                a.push(dec_at(b, p, depth + 1)?);
            }
            V::A(a)
        }
        5 => {
            let mut m = Vec::new();
            for _ in 0..n {
                let k = dec_at(b, p, depth + 1)?;
                m.push((k, dec_at(b, p, depth + 1)?));
            }
            V::M(m)
        }
        _ => V::Tag(n, Box::new(dec_at(b, p, depth + 1)?)),
    })
}

impl V {
    pub fn t(s: &str) -> V {
        V::T(s.to_string())
    }

    pub fn get(&self, k: &str) -> Option<&V> {
        match self {
            V::M(m) => m
                .iter()
                .find(|(x, _)| matches!(x, V::T(s) if s == k))
                .map(|(_, v)| v),
            _ => None,
        }
    }

    pub fn len(&self) -> usize {
        match self {
            V::M(m) => m.len(),
            V::A(a) => a.len(),
            _ => 0,
        }
    }
}
