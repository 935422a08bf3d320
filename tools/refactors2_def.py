"""A second set of behaviour-preserving edits (development only); see refactors_def.py.  They may rewrite the same lines as
the first set, so they are applied as a set of their own ("all2").  Some edit functions by name: (file, [(function, new body)])."""
import re
R2 = {}

def body(name, new, nth=0):
    """Replaces the whole item starting at the line that contains `fn name(` / `fn name<` up to its closing brace."""
    def f(t):
        m = list(re.finditer(r"^([ ]*)(pub(\(crate\))? )?fn %s[<(]" % re.escape(name), t, re.M))[nth]
        end = re.compile(r"^%s\}$" % m.group(1), re.M).search(t, m.end())
        ind = m.group(1)
        txt = "\n".join((ind + l if l else l) for l in new.strip("\n").split("\n"))
        return t[:m.start()] + txt + t[end.end():]
    return f

R2["r2-util"] = ("util.rs", [body("verify_16", """
pub fn verify_16(x: &[u8; 16], y: &[u8]) -> bool {
    match y.len() {
        16 => verify_inner(x, y) == 0,
        _ => false,
    }
}"""), body("verify_inner", """
pub(crate) fn verify_inner(x: &impl AsRef<[u8]>, y: &[u8]) -> u8 {
    let x = x.as_ref();
    assert_eq!(x.len(), y.len());
    let differences = x.iter().zip(y.iter()).map(|(&a, &b)| a ^ b);
    let mut accumulator = 0u8;
    for difference in differences {
        accumulator |= difference;
    }
    accumulator
}""")])

R2["r2-hmac"] = ("hmac.rs", [body("verify", """
pub fn verify<H: HashFunction>(key: &[u8], message: &[u8], tag: &[u8]) -> bool {
    let expected = {
        let mut hmac = Hmac::<H>::new(key);
        hmac.update(message);
        hmac.tag()
    };
    if expected.len() != tag.len() {
        return false;
    }
    0 == util::verify_inner(&expected, tag)
}"""), body("keyed_hash_function", """
fn keyed_hash_function(key: &[u8], pad: u8) -> H {
    let mut hash_function = H::default();
    for i in 0..H::BLOCK_SIZE {
        let byte = key.get(i).copied().unwrap_or(0);
        hash_function.update(&[byte ^ pad]);
    }
    hash_function
}"""), body("new", """
pub fn new(key: &[u8]) -> Self {
    if key.len() <= H::BLOCK_SIZE {
        return Self::with_short_key(key);
    }
    let mut digest = [0; MAX_DIGEST_SIZE];
    let digest = &mut digest[..H::DIGEST_SIZE];
    let mut hash_function = H::default();
    hash_function.update(key);
    hash_function.write_digest(digest);
    Self::with_short_key(digest)
}

fn with_short_key(key: &[u8]) -> Self {
    let outer_hash_function = Self::keyed_hash_function(key, 0x5c);
    let inner_hash_function = Self::keyed_hash_function(key, 0x36);
    Self {
        inner_hash_function,
        outer_hash_function,
    }
}""")])

R2["r2-hkdf"] = ("hkdf.rs", [body("expand", """
pub fn expand<H: HashFunction>(prk: &[u8], info: &[u8], okm: &mut [u8]) {
    assert!(prk.len() >= H::DIGEST_SIZE);
    assert!(okm.len() <= 255 * H::DIGEST_SIZE);
    let mut previous: Option<crate::hmac::Tag> = None;
    let mut counter = 0u8;
    for chunk in okm.chunks_mut(H::DIGEST_SIZE) {
        counter += 1;
        let mut hmac: Hmac<H> = Hmac::new(prk);
        if let Some(ref tag) = previous {
            hmac.update(tag);
        }
        hmac.update(info);
        hmac.update(core::slice::from_ref(&counter));
        let tag = hmac.tag();
        let n = chunk.len();
        chunk.copy_from_slice(&tag[..n]);
        previous = Some(tag);
    }
}""")])

R2["r2-poly"] = ("poly1305.rs", [body("freeze", """
fn freeze(&mut self) {
    let mut g = [0u32; 17];
    let mut carry = 5;
    for (g_j, &h_j) in g.iter_mut().zip(&self.h).take(16) {
        carry += h_j;
        *g_j = carry & 255;
        carry >>= 8;
    }
    carry += self.h[16];
    g[16] = carry & 3;
    let mask = (carry >> 2).wrapping_neg();
    for (h_j, &g_j) in self.h.iter_mut().zip(&g) {
        *h_j = (*h_j & !mask) | (g_j & mask);
    }
}"""), body("squeeze", """
fn squeeze(&mut self) {
    let top = carry_pass(&mut self.h, 0) + self.h[16];
    self.h[16] = top & 3;
    self.h[16] += carry_pass(&mut self.h, 5 * (top >> 2));
}"""), lambda t: t.replace("fn add(h: &mut [u32; 17]", """fn carry_pass(h: &mut [u32; 17], carry_in: u32) -> u32 {
    let mut u = carry_in;
    for i in 0..16 {
        u += h[i];
        h[i] = u & 255;
        u >>= 8;
    }
    u
}

fn add(h: &mut [u32; 17]""", 1), body("process", """
fn process(&mut self, input: &[u8]) {
    let whole = input.len() / 16 * 16;
    let (blocks, rest) = input.split_at(whole);
    for block in blocks.chunks(16) {
        self.function.process(block);
    }
    if rest.len() > 0 {
        let mut padded = [0u8; 16];
        for (p, &r) in padded.iter_mut().zip(rest) {
            *p = r;
        }
        self.function.process(&padded);
    }
}""", 1)])

R2["r2-poly-mulmod-fold"] = ("poly1305.rs", [body("mulmod", """
fn mulmod(&mut self) {
    let mut product = [0u32; 17];
    for i in 0..17 {
        let low: u32 = (0..=i).map(|j| self.h[j] * u32::from(self.r[i - j])).sum();
        let high: u32 = (i + 1..17).map(|j| self.h[j] * u32::from(self.r[17 + i - j])).sum();
        product[i] = low + 320 * high;
    }
    self.h = product;
    self.squeeze();
}""")])

R2["r2-gcm"] = ("gcm.rs", [body("process", """
fn process(&self, counter: &mut [u8; 16], input: &[u8], output: &mut [u8]) {
    let mut index = 1u32;
    let mut position = 0;
    while position < input.len() {
        index += 1;
        let end = core::cmp::min(position + 16, input.len());
        let keystream = self.block(counter, index);
        for i in position..end {
            output[i] = input[i] ^ keystream[i - position];
        }
        position = end;
    }
}""")])

R2["r2-ghash"] = ("ghash.rs", [lambda t: t.replace("""            let mut h = x & (1 << 127);
            let mut m = (h as i128 >> 127) as u128;
            self.state ^= v & m;
            h = v << 127;
            m = (h as i128 >> 127) as u128;
            v >>= 1;
            v ^= R0 & m;
            x <<= 1;
""", """            self.state ^= v & mask_from_bit(x >> 127);
            let reduction = R0 & mask_from_bit(v & 1);
            v = (v >> 1) ^ reduction;
            x = x.wrapping_add(x);
""", 1) + """
fn mask_from_bit(bit: u128) -> u128 {
    0u128.wrapping_sub(bit)
}
"""])

R2["r2-chacha"] = ("chacha20.rs", [body("process", """
fn process(&mut self, input: &[u8], output: &mut [u8]) {
    assert!(input.len() == output.len(), "input and output lengths differ");
    for i in 0..input.len() {
        let key_byte = self.next_byte();
        output[i] = input[i] ^ key_byte;
    }
}

fn next_byte(&mut self) -> u8 {
    if usize::from(self.block_index) >= self.block.len() {
        self.refill();
    }
    let byte = self.block[usize::from(self.block_index)];
    self.block_index += 1;
    byte
}

fn refill(&mut self) {
    self.counter += 1; // could overflow
    self.block = self.chacha20.block(self.counter);
    self.block_index = 0;
}"""), body("next", """
fn next(&mut self) -> Option<Self::Item> {
    Some(self.next_byte())
}"""), body("quarter_round", """
fn quarter_round(state: &mut [u32; 16], i: usize, j: usize, k: usize, l: usize) {
    for &(left, right) in &[(16, 12), (8, 7)] {
        state[i] = state[i].wrapping_add(state[j]);
        state[l] = (state[l] ^ state[i]).rotate_left(left);
        state[k] = state[k].wrapping_add(state[l]);
        state[j] = (state[j] ^ state[k]).rotate_left(right);
    }
}"""), body("serialize_block", """
fn serialize_block(block: [u32; 16]) -> [u8; 64] {
    let mut output = [0; 64];
    for (bytes, word) in output.chunks_mut(4).zip(block.iter()) {
        bytes.copy_from_slice(&word.to_le_bytes());
    }
    output
}""")])

R2["r2-sha"] = ("sha2.rs", [lambda t: t.replace("""                self.len += input.len() as u64;
                let mut input_offset = 0;""", """                self.len += input.len() as u64;
                let mut rest = input;
                while !rest.is_empty() {
                    let n = core::cmp::min(rest.len(), $block_size - self.offset);
                    let (head, tail) = rest.split_at(n);
                    self.buffer[self.offset..self.offset + n].copy_from_slice(head);
                    self.offset += n;
                    rest = tail;
                    if self.offset == $block_size {
                        Self::process(&mut self.state, &self.buffer);
                        self.offset = 0;
                    }
                }
            }

            #[allow(dead_code)]
            fn update_directly(&mut self, input: &[u8]) {
                self.len += input.len() as u64;
                let mut input_offset = 0;""", 1), lambda t: t.replace("""(x & y) ^ (!x & z)""", "z ^ (x & (y ^ z))").replace("(x & y) ^ (x & z) ^ (y & z)", "(x & y) | (z & (x | y))"),
  body("pad", """
fn pad(&mut self) {
    let length_at = $block_size - 8;
    let (used, free) = self.buffer.split_at_mut(self.offset);
    let _ = used;
    for byte in free.iter_mut() {
        *byte = 0;
    }
    free[0] = 0x80;
    if self.offset >= $block_size - 2 * size_of::<$word>() {
        Self::process(&mut self.state, &self.buffer);
        self.buffer = [0; $block_size];
    }
    self.offset = 0;
    BigEndian::write_u64(&mut self.buffer[length_at..], self.len << 3);
}""")])

R2["r2-aes"] = ("aes.rs", [body("mix_columns", """
fn mix_columns(state: &mut [u8; 16]) {
    for column in state.chunks_mut(4) {
        let first = column[0];
        let all = column[0] ^ column[1] ^ column[2] ^ column[3];
        for i in 0..4 {
            let next = if i == 3 { first } else { column[i + 1] };
            column[i] ^= all ^ xtime(column[i] ^ next);
        }
    }
}"""), body("xtime", """
fn xtime(byte: u8) -> u8 {
    (byte << 1) ^ ((byte >> 7) * 0x1b)
}"""), body("xtime_column", """
#[allow(dead_code)]
fn xtime_column(c: [u8; 4]) -> [u8; 4] {
    [xtime(c[0]), xtime(c[1]), xtime(c[2]), xtime(c[3])]
}"""), body("xor_column", """
#[allow(dead_code)]
fn xor_column(a: [u8; 4], b: [u8; 4]) -> [u8; 4] {
    [a[0] ^ b[0], a[1] ^ b[1], a[2] ^ b[2], a[3] ^ b[3]]
}"""), body("g256_newbasis", """
fn g256_newbasis(x: u8, b: [u8; 8]) -> u8 {
    let mut y = 0;
    for i in 0..8 {
        let bit = (x >> i) & 1;
        y ^= b[7 - i] & bit.wrapping_neg();
    }
    y
}"""), body("shift_rows", """
fn shift_rows(state: &mut [u8; 16]) {
    let old = *state;
    for row in 1..4 {
        for column in 0..4 {
            state[row + 4 * column] = old[row + 4 * ((column + row) % 4)];
        }
    }
}""")])

R2["r2-curve"] = ("curve25519.rs", [body("cswap_with", """
fn cswap_with(&mut self, g: &mut Fe, b: u32) {
    let mask = b.wrapping_neg() as i32;
    for (x, y) in self.0.iter_mut().zip(g.0.iter_mut()) {
        let difference = (*x ^ *y) & mask;
        *x ^= difference;
        *y ^= difference;
    }
}"""), body("verify_32", """
pub(crate) fn verify_32(x: &[u8; 32], y: &[u8]) -> i32 {
    let mut differentbits = 0i32;
    for i in 0..32 {
        differentbits |= i32::from(x[i] ^ y[i]);
    }
    (1 & ((differentbits - 1) >> 8)) - 1
}"""), body("load_4", """
pub(crate) fn load_4(x: &[u8]) -> u64 {
    load_3(x) | u64::from(x[3]) << 24
}"""), lambda t: t.replace("""        b = u32::from(e[pos / 8] >> (pos & 7));
        b &= 1;
        swap ^= b;
        x2.cswap_with(x3, swap);
        z2.cswap_with(z3, swap);
        swap = b;
""", """        b = bit(&e, pos);
        let exchange = swap ^ b;
        x2.cswap_with(x3, exchange);
        z2.cswap_with(z3, exchange);
        swap = b;
""", 1).replace("fn scalarmult(q", "fn bit(e: &[u8; 32], position: usize) -> u32 {\n    u32::from((e[position >> 3] >> (position % 8)) & 1)\n}\n\nfn scalarmult(q", 1).replace("    e[31] &= 127;\n    e[31] |= 64;", "    e[31] = (e[31] & 63) | 64;", 1)])

R2["r2-ed"] = ("ed25519.rs", [body("cmov_from", """
fn cmov_from(&mut self, g: &Fe, b: u32) {
    let mask = b.wrapping_neg() as i32;
    for (x, y) in self.0.iter_mut().zip(&g.0) {
        *x ^= (*x ^ *y) & mask;
    }
}"""), body("equal", """
fn equal(b: i8, c: i8) -> u8 {
    let difference = u32::from((b ^ c) as u8);
    (difference.wrapping_sub(1) >> 31) as u8
}"""), body("negative", """
fn negative(b: i8) -> u8 {
    (b as u8) >> 7
}"""), body("select", """
fn select(t: &mut GePrecomp, pos: usize, b: i8) {
    let sign = b >> 7;
    let absolute = (b ^ sign) - sign;
    ge_precomp_0(t);
    for (i, &entry) in (1i8..).zip(BASE[pos].iter()) {
        cmov(t, &GePrecomp::from(entry), equal(absolute, i));
    }
    let mut minus = GePrecomp::default();
    minus.xy2d.assign_neg(&t.xy2d);
    minus.yplusx = t.yminusx;
    minus.yminusx = t.yplusx;
    cmov(t, &minus, negative(b));
}"""), lambda t: t.replace("""    let az = &mut sha512(secret_key);
    az[0] &= 248;
    az[31] &= 63;
    az[31] |= 64;

    let a = &GeP3::from_scalarmult_base(az);""", """    let az = expand_secret(secret_key);
    let a = &GeP3::from_scalarmult_base(&az);""", 1).replace("""    let mut az = sha512(secret_key);
    az[0] &= 248;
    az[31] &= 63;
    az[31] |= 64;
""", """    let az = expand_secret(secret_key);
""", 1).replace("const ZERO: [u8; 32] = [0; 32];", """/// Hashes a secret key and clamps its first half.
fn expand_secret(secret_key: &[u8]) -> [u8; 64] {
    let mut az = sha512(secret_key);
    az[0] &= 0xf8;
    az[31] = 0x40 | (az[31] & 0x3f);
    az
}

const ZERO: [u8; 32] = [0; 32];""", 1), lambda t: t.replace("""        while i < 64 {
            select(t, i / 2, e[i]);
            ge_madd(r, &h, t);
            ge_p1p1_to_p3(&mut h, r);
            i += 2;
        }

        ge_p3_dbl""", """        for odd in (i..64).step_by(2) {
            select(t, odd / 2, e[odd]);
            ge_madd(r, &h, t);
            ge_p1p1_to_p3(&mut h, r);
        }

        ge_p3_dbl""", 1), lambda t: t.replace("""        let mut carry = 0;
        for e_i in e[..63].iter_mut() {
            *e_i += carry;
            carry = *e_i + 8;
            carry >>= 4;
            *e_i -= carry << 4;
        }
        e[63] += carry;
""", """        for i in 0..63 {
            let carry = (e[i] + 8) >> 4;
            e[i] -= carry << 4;
            e[i + 1] += carry;
        }
""", 1).replace("let mut i = 1;\n        for odd", "let mut i;\n        i = 1;\n        for odd", 1)])
