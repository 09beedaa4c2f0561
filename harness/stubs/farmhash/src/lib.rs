//! Stand-in for the git crate `farmhash`: the published FarmHash `Fingerprint64`
//! (farmhashna::Hash64) algorithm.
const K0: u64 = 0xc3a5c85c97cb3127;
const K1: u64 = 0xb492b66fbe98f273;
const K2: u64 = 0x9ae16a3b2f90404f;
fn f8(s: &[u8]) -> u64 { u64::from_le_bytes(s[..8].try_into().unwrap()) }
fn f4(s: &[u8]) -> u64 { u32::from_le_bytes(s[..4].try_into().unwrap()) as u64 }
fn rot(v: u64, n: u32) -> u64 { v.rotate_right(n) }
fn sm(v: u64) -> u64 { v ^ (v >> 47) }
fn h16(u: u64, v: u64, mul: u64) -> u64 {
    let mut a = (u ^ v).wrapping_mul(mul);
    a ^= a >> 47;
    let mut b = (v ^ a).wrapping_mul(mul);
    b ^= b >> 47;
    b.wrapping_mul(mul)
}
fn weak(s: &[u8], mut a: u64, mut b: u64) -> (u64, u64) {
    let (w, x, y, z) = (f8(s), f8(&s[8..]), f8(&s[16..]), f8(&s[24..]));
    a = a.wrapping_add(w);
    b = rot(b.wrapping_add(a).wrapping_add(z), 21);
    let c = a;
    a = a.wrapping_add(x).wrapping_add(y);
    b = b.wrapping_add(rot(a, 44));
    (a.wrapping_add(z), b.wrapping_add(c))
}
pub fn fingerprint64(s: &[u8]) -> u64 {
    let len = s.len();
    let l = len as u64;
    let mul = K2.wrapping_add(l.wrapping_mul(2));
    macro_rules! add { ($($e:expr),+) => {{ let mut t = 0u64; $( t = t.wrapping_add($e); )+ t }} }
    macro_rules! mul { ($a:expr, $b:expr) => { ($a).wrapping_mul($b) } }
    if len <= 16 {
        if len >= 8 {
            let a = add!(f8(s), K2);
            let b = f8(&s[len - 8..]);
            let c = add!(mul!(rot(b, 37), mul), a);
            let d = mul!(add!(rot(a, 25), b), mul);
            return h16(c, d, mul);
        }
        if len >= 4 {
            return h16(add!(l, f4(s) << 3), f4(&s[len - 4..]), mul);
        }
        if len > 0 {
            let y = s[0] as u64 + ((s[len >> 1] as u64) << 8);
            let z = l + ((s[len - 1] as u64) << 2);
            return mul!(sm(mul!(y, K2) ^ mul!(z, K0)), K2);
        }
        return K2;
    }
    if len <= 32 {
        let a = mul!(f8(s), K1);
        let b = f8(&s[8..]);
        let c = mul!(f8(&s[len - 8..]), mul);
        let d = mul!(f8(&s[len - 16..]), K2);
        return h16(add!(rot(add!(a, b), 43), rot(c, 30), d), add!(a, rot(add!(b, K2), 18), c), mul);
    }
    if len <= 64 {
        let a = mul!(f8(s), K2);
        let b = f8(&s[8..]);
        let c = mul!(f8(&s[len - 8..]), mul);
        let d = mul!(f8(&s[len - 16..]), K2);
        let y = add!(rot(add!(a, b), 43), rot(c, 30), d);
        let z = h16(y, add!(a, rot(add!(b, K2), 18), c), mul);
        let e = mul!(f8(&s[16..]), mul);
        let f = f8(&s[24..]);
        let g = mul!(add!(y, f8(&s[len - 32..])), mul);
        let h = mul!(add!(z, f8(&s[len - 24..])), mul);
        return h16(add!(rot(add!(e, f), 43), rot(g, 30), h), add!(e, rot(add!(f, a), 18), g), mul);
    }
    let seed = 81u64;
    let mut y = add!(mul!(seed, K1), 113);
    let mut z = mul!(sm(add!(mul!(y, K2), 113)), K2);
    let mut v = (0u64, 0u64);
    let mut w = (0u64, 0u64);
    let mut x = add!(mul!(seed, K2), f8(s));
    let end = ((len - 1) / 64) * 64;
    let last64 = end + ((len - 1) & 63) - 63;
    let mut p = 0;
    while p != end {
        let t = &s[p..];
        x = mul!(rot(add!(x, y, v.0, f8(&t[8..])), 37), K1);
        y = mul!(rot(add!(y, v.1, f8(&t[48..])), 42), K1);
        x ^= w.1;
        y = add!(y, v.0, f8(&t[40..]));
        z = mul!(rot(add!(z, w.0), 33), K1);
        v = weak(t, mul!(v.1, K1), add!(x, w.0));
        w = weak(&t[32..], add!(z, w.1), add!(y, f8(&t[16..])));
        std::mem::swap(&mut z, &mut x);
        p += 64;
    }
    let m = add!(K1, (z & 0xff) << 1);
    let t = &s[last64..];
    w.0 = add!(w.0, (l - 1) & 63);
    v.0 = add!(v.0, w.0);
    w.0 = add!(w.0, v.0);
    x = mul!(rot(add!(x, y, v.0, f8(&t[8..])), 37), m);
    y = mul!(rot(add!(y, v.1, f8(&t[48..])), 42), m);
    x ^= mul!(w.1, 9);
    y = add!(y, mul!(v.0, 9), f8(&t[40..]));
    z = mul!(rot(add!(z, w.0), 33), m);
    v = weak(t, mul!(v.1, m), add!(x, w.0));
    w = weak(&t[32..], add!(z, w.1), add!(y, f8(&t[16..])));
    std::mem::swap(&mut z, &mut x);
    h16(add!(h16(v.0, w.0, m), mul!(sm(y), K0), z), add!(h16(v.1, w.1, m), x), m)
}
#[cfg(test)]
mod test {
    #[test]
    fn known() {
        assert_eq!(format!("{:x}", super::fingerprint64(b"coty")), "fdf7528ad7f83901");
        assert_eq!(format!("{:x}", super::fingerprint64(&[b'x'; 128])), "5170af09fd870c17");
    }
}
