//! An independent RESP reader for the clients (strict).
#[derive(Clone, Debug, PartialEq)]
pub enum V {
    S(Vec<u8>),
    E(Vec<u8>),
    I(i64),
    B(Vec<u8>),
    Null,
    A(Vec<V>),
    M(Vec<(V, V)>),
}
pub enum P {
    More,
    Bad(String),
    Ok(V, usize),
}

fn line(b: &[u8], at: usize) -> Result<Option<(usize, usize)>, String> {
    // returns (end of text, position after CRLF)
    let mut i = at;
    while i < b.len() {
        match b[i] {
            b'\r' => {
                if i + 1 >= b.len() {
                    return Ok(None);
                }
                if b[i + 1] == b'\n' {
                    return Ok(Some((i, i + 2)));
                }
                return Err("bare CR in a line".into());
            }
            b'\n' => return Err("bare LF in a line".into()),
            _ => i += 1,
        }
    }
    Ok(None)
}
fn num(b: &[u8]) -> Result<i64, String> {
    let s = std::str::from_utf8(b).map_err(|_| "bad number".to_string())?;
    if s.is_empty() || s.starts_with('+') {
        return Err(format!("bad number {:?}", s));
    }
    s.parse::<i64>().map_err(|_| format!("bad number {:?}", s))
}

enum R {
    More,
    Bad(String),
}
fn val(b: &[u8], at: usize, depth: usize) -> Result<(V, usize), R> {
    if at >= b.len() {
        return Err(R::More);
    }
    if depth > 8 {
        return Err(R::Bad("nesting".into()));
    }
    let t = b[at];
    if !b"+-:$*%_".contains(&t) {
        return Err(R::Bad(format!("unexpected type byte {:?}", t as char)));
    }
    let (e, p) = match line(b, at + 1) {
        Err(s) => return Err(R::Bad(s)),
        Ok(None) => return Err(R::More),
        Ok(Some(x)) => x,
    };
    let l = &b[at + 1..e];
    let n = |l: &[u8]| num(l).map_err(R::Bad);
    match t {
        b'+' => Ok((V::S(l.to_vec()), p)),
        b'-' => Ok((V::E(l.to_vec()), p)),
        b':' => Ok((V::I(n(l)?), p)),
        b'_' => Ok((V::Null, p)),
        b'$' => {
            let k = n(l)?;
            if k == -1 {
                return Ok((V::Null, p));
            }
            if k < 0 {
                return Err(R::Bad("negative length".into()));
            }
            let k = k as usize;
            if b.len() < p + k + 2 {
                // the bytes that are there must not contradict the frame
                if b.len() > p + k && b[p + k] != b'\r' {
                    return Err(R::Bad("bulk not terminated by CRLF".into()));
                }
                return Err(R::More);
            }
            if &b[p + k..p + k + 2] != b"\r\n" {
                return Err(R::Bad("bulk not terminated by CRLF".into()));
            }
            Ok((V::B(b[p..p + k].to_vec()), p + k + 2))
        }
        b'*' => {
            let k = n(l)?;
            if k < 0 {
                return Ok((V::Null, p));
            }
            let mut v = vec![];
            let mut p = p;
            for _ in 0..k {
                let (x, q) = val(b, p, depth + 1)?;
                v.push(x);
                p = q;
            }
            Ok((V::A(v), p))
        }
        _ => {
            let k = n(l)?;
            let mut v = vec![];
            let mut p = p;
            for _ in 0..k {
                let (x, q) = val(b, p, depth + 1)?;
                let (y, q2) = val(b, q, depth + 1)?;
                v.push((x, y));
                p = q2;
            }
            Ok((V::M(v), p))
        }
    }
}
pub fn parse(b: &[u8]) -> P {
    match val(b, 0, 0) {
        Ok((v, n)) => P::Ok(v, n),
        Err(R::More) => P::More,
        Err(R::Bad(s)) => P::Bad(s),
    }
}
pub fn short(v: &V) -> String {
    fn s(b: &[u8]) -> String {
        if b.len() > 80 {
            format!("{:?}...({} bytes)", String::from_utf8_lossy(&b[..60]), b.len())
        } else {
            format!("{:?}", String::from_utf8_lossy(b))
        }
    }
    match v {
        V::S(b) => format!("+{}", s(b)),
        V::E(b) => format!("-{}", s(b)),
        V::I(i) => format!(":{}", i),
        V::B(b) => format!("${}", s(b)),
        V::Null => "null".into(),
        V::A(a) => format!("*{}[{}]", a.len(), a.iter().take(4).map(short).collect::<Vec<_>>().join(", ")),
        V::M(a) => format!("%{}", a.len()),
    }
}
