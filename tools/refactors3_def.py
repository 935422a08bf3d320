"""A third set of behaviour-preserving edits (development only): loops restated, helpers extracted, statements reordered,
limb code folded into loops.  Applied as a set of its own ("all3"); see refactors_def.py."""
import re
from refactors2_def import body
R3 = {}

def sub(old, new, n=1):
    return (old, new)

R3["r3-util"] = ("util.rs", [body("verify_16", """
pub fn verify_16(x: &[u8; 16], y: &[u8]) -> bool {
    let same_length = y.len() == 16;
    same_length && {
        let differences = verify_inner(x, y);
        differences == 0
    }
}"""), body("verify_inner", """
pub(crate) fn verify_inner(x: &impl AsRef<[u8]>, y: &[u8]) -> u8 {
    let x = x.as_ref();
    assert_eq!(y.len(), x.len());
    let mut differences = 0;
    let mut i = x.len();
    while i > 0 {
        i -= 1;
        differences |= y[i] ^ x[i];
    }
    differences
}""")])

R3["r3-hmac"] = ("hmac.rs", [body("keyed_hash_function", """
fn keyed_hash_function(key: &[u8], pad: u8) -> H {
    let mut hash_function = H::default();
    let padding = H::BLOCK_SIZE - key.len();
    key.iter()
        .map(|byte| byte ^ pad)
        .chain(core::iter::repeat(pad).take(padding))
        .for_each(|byte| hash_function.update(&[byte]));
    hash_function
}"""), body("write_tag", """
fn write_tag(self, output: &mut [u8]) {
    let Self {
        inner_hash_function,
        mut outer_hash_function,
    } = self;
    assert_eq!(output.len(), H::DIGEST_SIZE);
    let mut inner_digest = [0; MAX_DIGEST_SIZE];
    let inner_digest = &mut inner_digest[..H::DIGEST_SIZE];
    inner_hash_function.write_digest(inner_digest);
    outer_hash_function.update(inner_digest);
    outer_hash_function.write_digest(output);
}""")])

R3["r3-hkdf"] = ("hkdf.rs", [body("expand", """
pub fn expand<H: HashFunction>(prk: &[u8], info: &[u8], okm: &mut [u8]) {
    let digest_size = H::DIGEST_SIZE;
    assert!(255 * digest_size >= okm.len());
    assert!(digest_size <= prk.len());
    let blocks = (okm.len() + digest_size - 1) / digest_size;
    for i in 0..blocks {
        let (done, rest) = okm.split_at_mut(i * digest_size);
        let mut hmac: Hmac<H> = Hmac::new(prk);
        if i > 0 {
            hmac.update(&done[(i - 1) * digest_size..]);
        }
        write_block(hmac, info, (i + 1) as u8, rest);
    }
}

fn write_block<H: HashFunction>(mut hmac: Hmac<H>, info: &[u8], counter: u8, rest: &mut [u8]) {
    hmac.update(info);
    hmac.update(&[counter]);
    let tag = hmac.tag();
    let len = core::cmp::min(rest.len(), H::DIGEST_SIZE);
    rest[..len].copy_from_slice(&tag[..len]);
}"""), body("extract", """
pub fn extract<H: HashFunction>(salt: &[u8], ikm: &[u8], prk: &mut [u8]) {
    assert_eq!(prk.len(), H::DIGEST_SIZE);
    let mut hmac = Hmac::<H>::new(salt);
    hmac.update(ikm);
    for (p, &t) in prk.iter_mut().zip(hmac.tag().iter()) {
        *p = t;
    }
}""")])

R3["r3-poly"] = ("poly1305.rs", [body("mulmod", """
fn mulmod(&mut self) {
    let mut wide = [0u32; 33];
    for (i, &h_i) in self.h.iter().enumerate() {
        for (j, &r_j) in self.r.iter().enumerate() {
            wide[i + j] += h_i * u32::from(r_j);
        }
    }
    for i in 0..16 {
        self.h[i] = wide[i] + 320 * wide[i + 17];
    }
    self.h[16] = wide[16];
    self.squeeze();
}"""), body("load_r", """
fn load_r(key: &[u8; 32]) -> [u8; 17] {
    let mut r = [0; 17];
    r[..16].copy_from_slice(&key[..16]);
    for i in 1..4 {
        r[4 * i - 1] &= 0x0f;
        r[4 * i] &= 0xfc;
    }
    r[15] &= 0x0f;
    r
}"""), body("tag", """
fn tag(&self, cipher: &ChaCha20, ciphertext: &[u8], data: &[u8]) -> [u8; 16] {
    poly1305(&Self::poly_key_gen(cipher), data, ciphertext)
}"""), body("process", """
fn process(&self, cipher: &ChaCha20, input: &[u8], output: &mut [u8]) {
    let mut counter = 0u32;
    let mut start = 0;
    let total = input.len();
    while start < total {
        counter += 1;
        let stop = core::cmp::min(start + 64, total);
        let keystream = cipher.block(counter);
        xor_into(&mut output[start..stop], &input[start..stop], &keystream);
        start = stop;
    }
}"""), lambda t: t.replace("fn add(h: &mut [u32; 17]", """fn xor_into(output: &mut [u8], input: &[u8], keystream: &[u8; 64]) {
    for i in 0..output.len() {
        output[i] = keystream[i] ^ input[i];
    }
}

fn add(h: &mut [u32; 17]""", 1)])

R3["r3-gcm"] = ("gcm.rs", [body("block", """
fn block(&self, counter: &mut [u8; 16], i: u32) -> [u8; 16] {
    let bytes = i.to_be_bytes();
    for (slot, &byte) in counter[12..].iter_mut().zip(bytes.iter()) {
        *slot = byte;
    }
    self.block_cipher.permute(counter)
}"""), body("tag", """
fn tag(&self, ciphertext: &[u8], data: &[u8], counter: &mut [u8; 16]) -> [u8; 16] {
    let hash = self.ghash(data, ciphertext);
    let mask = self.block(counter, 1);
    let mut tag = [0; 16];
    for i in 0..16 {
        tag[i] = hash[i] ^ mask[i];
    }
    tag
}"""), lambda t: t.replace("use byteorder::{BigEndian, ByteOrder as _};\n", "", 1), body("process", """
fn process(&self, counter: &mut [u8; 16], input: &[u8], output: &mut [u8]) {
    let mut i = 2u32;
    let mut input = input;
    let mut output = output;
    while !input.is_empty() {
        let n = core::cmp::min(16, input.len());
        let (now, later) = input.split_at(n);
        let (out, out_later) = { output }.split_at_mut(n);
        let block = self.block(counter, i);
        for ((o, &x), &k) in out.iter_mut().zip(now).zip(block.iter()) {
            *o = x ^ k;
        }
        i = i.wrapping_add(1);
        input = later;
        output = out_later;
    }
}"""), body("check_bounds", """
fn check_bounds(message: &[u8], ciphertext: &[u8], nonce: &[u8], data: &[u8]) {
    assert!(message.len() == ciphertext.len(), "message and ciphertext lengths differ");
    assert!(nonce.len() == 12, "the nonce must be 12 bytes long");
    assert!((message.len() as u64) < (1 << 36) - 32, "message too long");
    assert!((data.len() as u64) < 1 << 61, "data too long");
}""")])

R3["r3-ghash"] = ("ghash.rs", [lambda t: t.replace("""        let mut x = self.state;
        let mut v = self.key_block;
        self.state = 0;
        for _ in 0..128 {
            let mut h = x & (1 << 127);
            let mut m = (h as i128 >> 127) as u128;
            self.state ^= v & m;
            h = v << 127;
            m = (h as i128 >> 127) as u128;
            v >>= 1;
            v ^= R0 & m;
            x <<= 1;
        }
""", """        let x = self.state.to_be_bytes();
        let mut v = self.key_block;
        let mut product = 0;
        for &byte in x.iter() {
            for bit in (0..8).rev() {
                let m = u128::from((byte >> bit) & 1).wrapping_neg();
                product ^= v & m;
                v = halve(v);
            }
        }
        self.state = product;
""", 1) + """
fn halve(v: u128) -> u128 {
    let m = (v & 1).wrapping_neg();
    (v >> 1) ^ (R0 & m)
}
"""])

R3["r3-chacha"] = ("chacha20.rs", [body("transform_state", """
fn transform_state(&self, state: &mut [u32; 16], counter: u32) {
    let mut initial = self.state;
    initial[12] = counter;
    *state = initial;
    let mut round = 0;
    while round < 20 {
        Self::inner_block(state);
        round += 2;
    }
    for i in 0..16 {
        state[i] = state[i].wrapping_add(initial[i]);
    }
}"""), body("inner_block", """
fn inner_block(state: &mut [u32; 16]) {
    for i in 0..4 {
        Self::quarter_round(state, i, 4 + i, 8 + i, 12 + i);
    }
    for i in 0..4 {
        Self::quarter_round(state, i, 4 + (i + 1) % 4, 8 + (i + 2) % 4, 12 + (i + 3) % 4);
    }
}"""), body("process", """
fn process(&mut self, input: &[u8], output: &mut [u8]) {
    assert_eq!(output.len(), input.len());
    output.copy_from_slice(input);
    for (byte, key) in output.iter_mut().zip(self) {
        *byte ^= key;
    }
}"""), body("next", """
fn next(&mut self) -> Option<Self::Item> {
    let mut index = self.block_index as usize;
    if index > 63 {
        self.counter += 1; // could overflow
        self.block = self.chacha20.block(self.counter);
        index = 0;
    }
    self.block_index = index as u8 + 1;
    Some(self.block[index])
}""")])

R3["r3-sha"] = ("sha2.rs", [body("update", """
fn update(&mut self, input: &[u8]) {
    self.len += input.len() as u64;
    let mut rest = input;
    if self.offset > 0 {
        let n = core::cmp::min($block_size - self.offset, rest.len());
        let (head, tail) = rest.split_at(n);
        self.buffer[self.offset..self.offset + n].copy_from_slice(head);
        self.offset += n;
        rest = tail;
        if self.offset < $block_size {
            return;
        }
        Self::process(&mut self.state, &self.buffer);
        self.offset = 0;
    }
    let mut blocks = rest.chunks_exact($block_size);
    for block in blocks.by_ref() {
        Self::process(&mut self.state, block);
    }
    let left = blocks.remainder();
    self.buffer[..left.len()].copy_from_slice(left);
    self.offset = left.len();
}""", 2), lambda t: t.replace("""                let mut a = state[0];
                let mut b = state[1];
                let mut c = state[2];
                let mut d = state[3];
                let mut e = state[4];
                let mut f = state[5];
                let mut g = state[6];
                let mut h = state[7];
                for (&kt, &wt) in""", """                let [mut a, mut b, mut c, mut d, mut e, mut f, mut g, mut h] = *state;
                for (&kt, &wt) in""", 1).replace("""                state[0] = state[0].wrapping_add(a);
                state[1] = state[1].wrapping_add(b);
                state[2] = state[2].wrapping_add(c);
                state[3] = state[3].wrapping_add(d);
                state[4] = state[4].wrapping_add(e);
                state[5] = state[5].wrapping_add(f);
                state[6] = state[6].wrapping_add(g);
                state[7] = state[7].wrapping_add(h);
""", """                for (s, &x) in state.iter_mut().zip([a, b, c, d, e, f, g, h].iter()) {
                    *s = s.wrapping_add(x);
                }
""", 1), body("maj", """
fn maj(x: $word, y: $word, z: $word) -> $word {
    (x & (y | z)) | (y & z)
}"""), body("pad", """
fn pad(&mut self) {
    const LENGTH_SIZE: usize = 2 * size_of::<$word>();
    let bits = 8 * self.len;
    self.put_padding(0x80);
    while self.offset % $block_size != $block_size - LENGTH_SIZE {
        self.put_padding(0);
    }
    for byte in &mut self.buffer[$block_size - LENGTH_SIZE..$block_size - 8] {
        *byte = 0;
    }
    self.buffer[$block_size - 8..].copy_from_slice(&bits.to_be_bytes());
}

fn put_padding(&mut self, byte: u8) {
    if self.offset == $block_size {
        Self::process(&mut self.state, &self.buffer);
        self.offset = 0;
    }
    self.buffer[self.offset] = byte;
    self.offset += 1;
    if self.offset == $block_size {
        Self::process(&mut self.state, &self.buffer);
        self.offset = 0;
    }
}""")])

R3["r3-aes"] = ("aes.rs", [body("permute", """
fn permute(&self, input: &[u8; 16]) -> [u8; 16] {
    let mut state = *input;
    self.add_round_key(&mut state, 0);
    let mut round = 1;
    loop {
        sub_bytes(&mut state);
        shift_rows(&mut state);
        if round == Self::NR {
            break;
        }
        mix_columns(&mut state);
        self.add_round_key(&mut state, round);
        round += 1;
    }
    self.add_round_key(&mut state, round);
    state
}""", 1), body("key_expansion", """
fn key_expansion(key: &[u8]) -> [u8; 16 * (Self::NR + 1)] {
    assert!(key.len() == 4 * Self::NK, "wrong key length");
    let mut schedule = [0; 16 * (Self::NR + 1)];
    schedule[..key.len()].copy_from_slice(key);
    let mut rcon = 1;
    for i in key.len() / 4..schedule.len() / 4 {
        let mut word = [
            schedule[4 * i - 4],
            schedule[4 * i - 3],
            schedule[4 * i - 2],
            schedule[4 * i - 1],
        ];
        match i % Self::NK {
            0 => {
                word = [word[1], word[2], word[3], word[0]];
                sub_word(&mut word);
                word[0] ^= rcon;
                rcon = xtime(rcon);
            }
            4 if Self::NK == 8 => sub_word(&mut word),
            _ => {}
        }
        for (j, w) in word.iter().enumerate() {
            schedule[4 * i + j] = w ^ schedule[4 * (i - Self::NK) + j];
        }
    }
    schedule
}"""), body("g4_mul", """
fn g4_mul(x: u8, y: u8) -> u8 {
    let (a, b) = (x >> 1, x & 1);
    let (c, d) = (y >> 1, y & 1);
    let e = (a & c) ^ (a & d) ^ (b & c) ^ (b & d);
    (((a & c) ^ e) << 1) | ((b & d) ^ e)
}""")])

R3["r3-curve"] = ("curve25519.rs", [lambda t: t.replace("""        let mut q = (19 * h9 + (1 << 24)) >> 25;
        q = (h0 + q) >> 26;
        q = (h1 + q) >> 25;
        q = (h2 + q) >> 26;
        q = (h3 + q) >> 25;
        q = (h4 + q) >> 26;
        q = (h5 + q) >> 25;
        q = (h6 + q) >> 26;
        q = (h7 + q) >> 25;
        q = (h8 + q) >> 26;
        q = (h9 + q) >> 25;
""", """        let mut q = (19 * h9 + (1 << 24)) >> 25;
        for (i, &limb) in h.iter().enumerate() {
            q = (limb + q) >> limb_bits(i);
        }
""", 1).replace("fn scalarmult(q", """/// The number of bits in the limb at an index.
fn limb_bits(i: usize) -> u32 {
    26 - (i as u32 & 1)
}

fn scalarmult(q""", 1), body("cswap_with", """
fn cswap_with(&mut self, g: &mut Fe, b: u32) {
    let keep = !(b.wrapping_neg() as i32);
    for i in 0..10 {
        let x = (self.0[i] ^ g.0[i]) & !keep;
        self.0[i] ^= x;
        g.0[i] ^= x;
    }
}"""), body("verify_32", """
pub(crate) fn verify_32(x: &[u8; 32], y: &[u8]) -> i32 {
    let y = &y[..32];
    let differences = x.iter().zip(y).map(|(a, b)| a ^ b).fold(0, |d, x| d | x);
    (1 & ((i32::from(differences) - 1) >> 8)) - 1
}"""), body("dh", """
pub fn dh(public_key: &[u8], secret_key: &[u8]) -> [u8; 32] {
    assert_eq!(secret_key.len(), 32);
    assert_eq!(public_key.len(), 32);
    let mut shared_secret = [0; 32];
    scalarmult(&mut shared_secret, secret_key, public_key);
    shared_secret
}""")])

R3["r3-ed"] = ("ed25519.rs", [body("sc_is_canonical", """
fn sc_is_canonical(s: &[u8]) -> bool {
    for (s_i, l_i) in s.iter().zip(L.iter()).rev() {
        if s_i < l_i {
            return true;
        }
        if s_i > l_i {
            return false;
        }
    }
    false
}"""), body("verify", """
pub fn verify(message: &[u8], signature: &[u8], public_key: &[u8]) -> bool {
    assert_eq!(public_key.len(), 32);
    if signature.len() != 64 {
        return false;
    }
    let (r, s) = signature.split_at(32);
    match GeP3::from_bytes_negate_vartime(public_key) {
        Some(ref a) if sc_is_canonical(s) => {
            let mut h = [0; Sha512::DIGEST_SIZE];
            let mut hash_function = Sha512::default();
            for part in &[r, public_key, message] {
                hash_function.update(part);
            }
            hash_function.write_digest(&mut h);
            sc_reduce(&mut h);
            let check = GeP2::from_double_scalarmult_vartime(&h, a, s).to_bytes();
            verify_32(&check, r) == 0
        }
        _ => false,
    }
}"""), body("cmov_from", """
fn cmov_from(&mut self, g: &Fe, b: u32) {
    let take = b.wrapping_neg() as i32;
    for (f_i, &g_i) in self.0.iter_mut().zip(g.0.iter()) {
        *f_i = (*f_i & !take) | (g_i & take);
    }
}"""), body("equal", """
fn equal(b: i8, c: i8) -> u8 {
    let x = (b ^ c) as u8;
    (u16::from(x).wrapping_sub(1) >> 15) as u8
}"""), body("sign", """
pub fn sign(message: &[u8], secret_key: &[u8]) -> [u8; 64] {
    assert_eq!(32, secret_key.len());
    let mut az = sha512(secret_key);
    az[0] &= 248;
    az[31] = (az[31] & 63) | 64;

    let mut nonce = hash_parts(&[&az[32..], message]);
    sc_reduce(&mut nonce);

    let mut signature = [0; 64];
    {
        let (r_bytes, a_bytes) = signature.split_at_mut(32);
        ge_p3_tobytes(r_bytes, &GeP3::from_scalarmult_base(&nonce));
        ge_p3_tobytes(a_bytes, &GeP3::from_scalarmult_base(&az));
    }

    let mut hram = hash_parts(&[&signature, message]);
    sc_reduce(&mut hram);
    sc_muladd(&mut signature[32..], &hram, &az, &nonce);
    signature
}

fn hash_parts(parts: &[&[u8]]) -> [u8; Sha512::DIGEST_SIZE] {
    let mut digest = [0; Sha512::DIGEST_SIZE];
    let mut hash_function = Sha512::default();
    for part in parts {
        hash_function.update(part);
    }
    hash_function.write_digest(&mut digest);
    digest
}""")])
