//! Known answers for the references (from the standards' own examples) and cross-checks against slow bignums.
use crate::engine::*;
use crate::refs::{big::Big, curve::*, sha2::*, sym::*};
macro_rules! ck { ($n:expr, $e:expr) => { if !$e { return Err(format!("reference self-test failed: {}", $n)) } }; }
pub fn run() -> Result<(), String> {
    // FIPS 180-4 examples
    ck!("sha224", hash(Alg::S224, b"abc") == unhex("23097d223405d8228642a477bda255b32aadbce4bda0b3f7e36c9da7"));
    ck!("sha256", hash(Alg::S256, b"abc") == unhex("ba7816bf8f01cfea414140de5dae2223b00361a396177a9cb410ff61f20015ad"));
    ck!("sha384", hash(Alg::S384, b"abc") == unhex("cb00753f45a35e8bb5a03d699ac65007272c32ab0eded1631a8b605a43ff5bed8086072ba1e7cc2358baeca134c825a7"));
    ck!("sha512", hash(Alg::S512, b"abc") == unhex("ddaf35a193617abacc417349ae20413112e6fa4e89a97ea20a9eeee64b55d39a2192992a274fc1a836ba3c23a3feebbd454d4423643ce80e2a9ac94fa54ca49f"));
    ck!("sha256 2-block", hash(Alg::S256, b"abcdbcdecdefdefgefghfghighijhijkijkljklmklmnlmnomnopnopq") == unhex("248d6a61d20638b8e5c026930c3e6039a33ce45964ff2167f6ecedd419db06c1"));
    for a in ALGS { let m = pat(2, 300); let p = prefix_digests(a, &m); for n in 0..=300 { ck!("prefix", p[n] == hash(a, &m[..n])) } }
    ck!("hmac", hmac(Alg::S256, b"Jefe", b"what do ya want for nothing?") == unhex("5bdcc146bf60754e6a042426089575c75a003f089d2739839dec58b964ec3843"));
    ck!("hmac long key", hmac(Alg::S512, &[0xaa; 131], b"Test Using Larger Than Block-Size Key - Hash Key First") == unhex("80b24263c7c1a3ebb71493c1dd7be8b49b46d1f41b4aeec1121b013783f8f3526b56d037e05f2598bd0fd2215d6a1e5295e64f73f63f0aec8b915a985d786598"));
    let prk = hmac(Alg::S256, &unhex("000102030405060708090a0b0c"), &[0x0b; 22]);
    ck!("hkdf prk", prk == unhex("077709362c2e32df0ddc3f0dc47bba6390b6c73bb50f9c3122ec844ad7c2b3e5"));
    ck!("hkdf okm", hkdf_expand(Alg::S256, &prk, &unhex("f0f1f2f3f4f5f6f7f8f9"), 42) == unhex("3cb25f25faacd57a90434f64d0362f2a2d2d0a90cf1a5a4c5db02d56ecc4c5bf34007208d5b887185865"));
    // FIPS 197 appendix C
    let pt: [u8; 16] = unhex("00112233445566778899aabbccddeeff").try_into().unwrap();
    let k: Vec<u8> = (0..32).collect();
    ck!("aes128", Aes::new(&k[..16]).enc(&pt).to_vec() == unhex("69c4e0d86a7b0430d8cdb78070b4c55a"));
    ck!("aes192", Aes::new(&k[..24]).enc(&pt).to_vec() == unhex("dda97ca4864cdfe06eaf70a0ec0d7191"));
    ck!("aes256", Aes::new(&k).enc(&pt).to_vec() == unhex("8ea2b7ca516745bfeafc49904b496089"));
    // GCM test case 4
    let a = Aes::new(&unhex("feffe9928665731c6d6a8f9467308308"));
    let g = GcmRef::new(move |b: &[u8; 16]| a.enc(b));
    let m = unhex("d9313225f88406e5a55909c5aff5269a86a7a9531534f7da2e4c303d8a318a721c3c0c95956809532fcf0e2449a6b525b16aedf5aa0de657ba637b39");
    let (c, t) = g.seal(&unhex("cafebabefacedbaddecaf888"), &unhex("feedfacedeadbeeffeedfacedeadbeefabaddad2"), &m);
    ck!("gcm ct", c == unhex("42831ec2217774244b7221b784d0d49ce3aa212f2c02a4e035c17e2329aca12e21d514b25466931c7d8f6a5aac84aa051ba30b396a0aac973d58e091"));
    ck!("gcm tag", t.to_vec() == unhex("5bc94fbc3221a5db94fae95ae7121a47"));
    // RFC 8439
    ck!("chacha", chacha_block(&k, &unhex("000000090000004a00000000"), 1).to_vec() == unhex("10f1e7e4d13b5915500fdd1fa32071c4c7d1f4c733c068030422aa9ac3d46c4ed2826446079faa0914c2d705d98b02a2b5129cd1de164eb9cbd083e8a2503c4e"));
    let cpk: Vec<u8> = (0x80..0xa0).collect();
    let m = b"Ladies and Gentlemen of the class of '99: If I could offer you only one tip for the future, sunscreen would be it.";
    let (_, t) = chapoly_seal(&cpk, &unhex("070000004041424344454647"), &unhex("50515253c0c1c2c3c4c5c6c7"), m);
    ck!("chapoly", t.to_vec() == unhex("1ae10b594f09e26a7e902ecbd0600691"));
    // P130 against big
    let p130 = Big::pow2(130).sub(&Big::from_u64(5));
    for i in 0..200u64 {
        let (x, y) = (mix(2 * i + 900, 17), mix(2 * i + 901, 17));
        let (bx, by) = (Big::from_le(&x), Big::from_le(&y));
        let (fx, fy) = (P130::from_le(&x), P130::from_le(&y));
        ck!("p130 mul", fx.mul(fy).to_le() == bx.mulmod(&by, &p130).to_le::<17>());
        ck!("p130 add", fx.add(fy).to_le() == bx.add(&by).rem(&p130).to_le::<17>());
        ck!("p130 neg", fx.neg().add(fx) == P130([0; 3]));
        if i < 5 { ck!("p130 inv", fx.pow_inv().mul(fx) == P130([1, 0, 0])) }
    }
    // GHASH product is bilinear/commutative with x^0 identity, and matches a shift-and-reduce product
    for i in 0..50u64 {
        let x = u128::from_le_bytes(mixa(i + 40)); let y = u128::from_le_bytes(mixa(i + 90));
        ck!("gf id", gf_mul(x, 1 << 127) == x);
        ck!("gf comm", gf_mul(x, y) == gf_mul(y, x));
        let mut z = 0u128; let mut v = y;
        for b in (0..128).rev() { if x >> b & 1 == 1 { z ^= v } v = if v & 1 == 1 { v >> 1 ^ 0xe1 << 120 } else { v >> 1 } }
        ck!("gf mul", gf_mul(x, y) == z);
    }
    // field and scalars against big
    let p = p_big(); let l = l_big();
    let mut edge: Vec<[u8; 32]> = vec![];
    for i in 0..3u64 { edge.push(Big::from_u64(i).to_le()); edge.push(p.sub(&Big::from_u64(i + 1)).to_le()); edge.push(Big::pow2(255).sub(&Big::from_u64(i + 1)).to_le()) }
    for i in 0..20 { let mut x: [u8; 32] = mixa(500 + i); x[31] &= 127; edge.push(x) }
    for x in &edge { for y in &edge {
        let (bx, by) = (Big::from_le(x).rem(&p), Big::from_le(y).rem(&p));
        let (fx, fy) = (F::from_le(x), F::from_le(y));
        ck!("f mul", fx.mul(fy).to_le() == bx.mulmod(&by, &p).to_le::<32>());
        ck!("f add", fx.add(fy).to_le() == bx.add(&by).rem(&p).to_le::<32>());
        ck!("f sub", fx.sub(fy).to_le() == bx.submod(&by, &p).to_le::<32>());
        ck!("sc mul", sc_mul(x, y) == Big::from_le(x).mulmod(&Big::from_le(y), &l).to_le::<32>());
        ck!("sc add", sc_add(x, y) == Big::from_le(x).add(&Big::from_le(y)).rem(&l).to_le::<32>());
    } }
    for x in &edge { let f = F::from_le(x); if !f.is_zero() { ck!("f inv", f.mul(f.inv()).eq(F::ONE)) } }
    for i in 0..20u64 { let x: [u8; 64] = mixa(700 + i); ck!("sc reduce", sc_reduce(&x) == Big::from_le(&x).rem(&l).to_le::<32>()) }
    ck!("L*B", Pt::base(&l.sub(&Big::one()).to_le()).add(&consts().b).is_id());
    ck!("torsion", consts().torsion.iter().map(|t| t.enc()).collect::<std::collections::HashSet<_>>().len() == 8);
    ck!("base enc", consts().b.enc().to_vec() == unhex("5866666666666666666666666666666666666666666666666666666666666666"));
    for i in 0..4u64 { let s: [u8; 32] = mixa(i + 7000); let s = sc_reduce(&s); ck!("mul=base", consts().b.mul(&s).enc() == Pt::base(&s).enc()); ck!("dbl", consts().b.mul(&s).dbl().enc() == Pt::base(&sc_add(&s, &s)).enc()) }
    // RFC 7748 5.2 and the 1000-fold iteration
    let kk = unhex("a546e36bf0527c9d3b16154b82465edd62144c0ac1fc5a18506a2244ba449ac4").try_into().unwrap();
    let uu = unhex("e6db6867583030db3594c1a424b15f7c726624ec26b3353b10a903a6d0ab1c4c").try_into().unwrap();
    ck!("x25519", x25519(&kk, &uu).to_vec() == unhex("c3da55379de9c6908e94ea4df28d084f32eccf03491c71f754b4075577a28552"));
    let mut k9 = [0u8; 32]; k9[0] = 9; let mut u9 = k9;
    for _ in 0..1000 { let r = x25519(&k9, &u9); u9 = k9; k9 = r }
    ck!("x25519 x1000", k9.to_vec() == unhex("684cf59ba83309552800ef566f2f4d3c1c3887c49360e3875f2eb94d99532c51"));
    // RFC 8032 7.1 tests 1 and 3
    let k = ed_key(&unhex("9d61b19deffd5a60ba844af492ec2cc44449c5697b326919703bac031cae7f60").try_into().unwrap());
    ck!("ed pk", k.pk.to_vec() == unhex("d75a980182b10ab7d54bfed3c964073a0ee172f3daa62325af021a68f707511a"));
    ck!("ed sig", ed_sign(&k, b"").to_vec() == unhex("e5564300c360ac729086e2cc806e828a84877f1eb8e5d974d873e065224901555fb8821590a33bacc61e39701cf9b46bd25bf5f0595bbe24655141438e7a100b"));
    let k = ed_key(&unhex("c5aa8df43f9f837bedb7442f31dcb7b166d38535076f094b85ce3a2e0b4458f7").try_into().unwrap());
    let s = ed_sign(&k, &[0xaf, 0x82]);
    ck!("ed sig 3", s.to_vec() == unhex("6291d657deec24024827e69c3abe01a30ce548a284743a445e3680d7db5ac3ac18ff9b538d16f290ae67f760984dc6594a7c15e9716ed28dc027beceea1ec40a"));
    ck!("ed verify", ed_verify(&[0xaf, 0x82], &s, &k.pk) && !ed_verify(&[0xaf, 0x83], &s, &k.pk));
    ck!("ed malleable", !ed_verify(&[0xaf, 0x82], &{ let mut t = s; t[32..].copy_from_slice(&add_l(&s[32..].try_into().unwrap(), 1).unwrap()); t }, &k.pk));
    // birational map agrees with the ladder
    ck!("ed->mont", edwards_to_u(&Pt::base(&clamp(&kk))) == x25519(&kk, &{ let mut n = [0; 32]; n[0] = 9; n }));
    Ok(())
}
