"""Behaviour-preserving edits of /repo/src, used during development to see that every check stays quiet.

Each entry: name -> (file, [(old, new), ...]).  Nothing a registered check runs reads this file.
"""
R = {}

R["util-loop"] = ("util.rs", [
("""    let x = x.as_ref();
    assert_eq!(x.len(), y.len());
    x.iter().zip(y).fold(0, |acc, (x, y)| acc | (x ^ y))
""", """    let left = x.as_ref();
    assert_eq!(left.len(), y.len());
    let mut difference = 0;
    for i in 0..left.len() {
        difference |= left[i] ^ y[i];
    }
    difference
"""),
("""    x.len() == y.len() && verify_inner(x, y) == 0
""", """    if y.len() != x.len() {
        return false;
    }
    let difference = verify_inner(x, y);
    difference == 0
"""),
])

R["gcm-helpers"] = ("gcm.rs", [
("""        for (i, (input_chunk, output_chunk)) in
            (2..=u32::MAX).zip(input.chunks(16).zip(output.chunks_mut(16)))
        {
            let block = self.block(counter, i);
            for (block_byte, (input_byte, output_byte)) in
                block.iter().zip(input_chunk.iter().zip(output_chunk))
            {
                *output_byte = input_byte ^ block_byte;
            }
        }
    }
""", """        let mut i = 1u32;
        for (input_chunk, output_chunk) in input.chunks(16).zip(output.chunks_mut(16)) {
            i += 1;
            let keystream = self.block(counter, i);
            xor_into(output_chunk, input_chunk, &keystream);
        }
    }
"""),
("""        let mut tag = self.block(counter, 1);
        let hash = self.ghash(data, ciphertext);
        for (t, h) in tag.iter_mut().zip(&hash) {
            *t ^= h;
        }
        tag
""", """        let hash = self.ghash(data, ciphertext);
        let mask = self.block(counter, 1);
        let mut tag = [0; 16];
        xor_into(&mut tag, &hash, &mask);
        tag
"""),
("""fn counter(nonce: &[u8]) -> [u8; 16] {
""", """fn xor_into(output: &mut [u8], input: &[u8], keystream: &[u8; 16]) {
    for i in 0..output.len() {
        output[i] = input[i] ^ keystream[i];
    }
}

fn counter(nonce: &[u8]) -> [u8; 16] {
"""),
("""        check_bounds(output, input, nonce, data);
        let counter = &mut counter(nonce);
        let expected_tag = self.0.tag(input, data, counter);
        if util::verify_16(&expected_tag, tag) {
            self.0.process(counter, input, output);
            true
        } else {
            false
        }
""", """        check_bounds(output, input, nonce, data);
        let counter = &mut counter(nonce);
        let expected_tag = self.0.tag(input, data, counter);
        if !util::verify_16(&expected_tag, tag) {
            return false;
        }
        self.0.process(counter, input, output);
        true
"""),
])

R["gcm-precomputed-h"] = ("gcm.rs", [
("""struct Processor<E> {
    block_cipher: E,
}
""", """struct Processor<E> {
    block_cipher: E,
    hash_key: [u8; 16],
}
"""),
("""        Self {
            block_cipher: E::new(key),
        }
""", """        let block_cipher = E::new(key);
        let hash_key = block_cipher.permute(&[0; 16]);
        Self {
            block_cipher,
            hash_key,
        }
"""),
("""        let key = &self.block_cipher.permute(&[0; 16]);
        ghash::ghash(key, a, c)
""", """        ghash::ghash(&self.hash_key, a, c)
"""),
])

R["gcm-bounds-order"] = ("gcm.rs", [
("""    assert_eq!(12, nonce.len());
    assert_eq!(message.len(), ciphertext.len());
    assert!((1 << 36) - 32 > message.len() as u64);
    assert!(1 << 61 > data.len() as u64);
""", """    assert!((data.len() as u64) < 1 << 61, "too much associated data");
    assert!(message.len() == ciphertext.len(), "lengths differ");
    assert!(message.len() as u64 + 32 < 1 << 36, "message too long");
    assert!(nonce.len() == 12, "nonce must be 12 bytes");
"""),
])

R["ghash-msb"] = ("ghash.rs", [
("""        let mut x = self.state;
        let mut v = self.key_block;
        self.state = 0;
        for _ in 0..128 {
            let mut h = x & (1 << 127);
            let mut m = (h as i128 >> 127) as u128;
            self.state ^= v & m;
            h = v << 127;
            m = (h as i128 >> 127) as u128;
            v >>= 1;
            v ^= R0 & m;
            x <<= 1;
        }
""", """        let x = self.state;
        let mut v = self.key_block;
        let mut product: GFBlock = 0;
        for i in (0..128).rev() {
            let take = ((x >> i) & 1).wrapping_neg();
            let reduce = (v & 1).wrapping_neg();
            product ^= v & take;
            v = (v >> 1) ^ (R0 & reduce);
        }
        self.state = product;
"""),
("""        for chunk in input.chunks(16) {
            if chunk.len() < 16 {
                let buffer = &mut [0; 16];
                buffer[..chunk.len()].copy_from_slice(chunk);
                self.function.process(buffer);
            } else {
                self.function.process(chunk);
            }
        }
""", """        let mut blocks = input.chunks_exact(16);
        for block in &mut blocks {
            self.function.process(block);
        }
        let rest = blocks.remainder();
        if !rest.is_empty() {
            let mut padded = [0; 16];
            padded[..rest.len()].copy_from_slice(rest);
            self.function.process(&padded);
        }
"""),
])

R["ghash-right-to-left"] = ("ghash.rs", [
# Horner's rule from the other end: product = sum x_i * v * t^i, computed by multiplying the sum by t
("""        let mut x = self.state;
        let mut v = self.key_block;
        self.state = 0;
        for _ in 0..128 {
            let mut h = x & (1 << 127);
            let mut m = (h as i128 >> 127) as u128;
            self.state ^= v & m;
            h = v << 127;
            m = (h as i128 >> 127) as u128;
            v >>= 1;
            v ^= R0 & m;
            x <<= 1;
        }
""", """        let mut x = self.state;
        let mut sum: GFBlock = 0;
        for _ in 0..128 {
            let reduce = (sum & 1).wrapping_neg();
            sum = (sum >> 1) ^ (R0 & reduce);
            sum ^= self.key_block & (x & 1).wrapping_neg();
            x >>= 1;
        }
        self.state = sum;
"""),
])

R["hmac-padded-key"] = ("hmac.rs", [
("""        let mut hash_function = H::default();
        for byte in key {
            hash_function.update(&[byte ^ pad]);
        }
        for _ in key.len()..H::BLOCK_SIZE {
            hash_function.update(&[pad]);
        }
        hash_function
""", """        let mut block = [pad; 2 * MAX_DIGEST_SIZE];
        for (b, k) in block.iter_mut().zip(key) {
            *b ^= k;
        }
        let mut hash_function = H::default();
        hash_function.update(&block[..H::BLOCK_SIZE]);
        hash_function
"""),
("""        Self {
            inner_hash_function: Self::keyed_hash_function(new_key, 0x36),
            outer_hash_function: Self::keyed_hash_function(new_key, 0x5c),
        }
""", """        let outer_hash_function = Self::keyed_hash_function(new_key, 0x5c);
        let inner_hash_function = Self::keyed_hash_function(new_key, 0x36);
        Self {
            inner_hash_function,
            outer_hash_function,
        }
"""),
])

R["hmac-verify"] = ("hmac.rs", [
("""    let mut hmac = Hmac::<H>::new(key);
    hmac.update(message);
    let expected_tag = hmac.tag();
    expected_tag.len() == tag.len() && util::verify_inner(&expected_tag, tag) == 0
""", """    if tag.len() != H::DIGEST_SIZE {
        return false;
    }
    let mut hmac = Hmac::<H>::new(key);
    hmac.update(message);
    util::verify_inner(&hmac.tag(), tag) == 0
"""),
("""        assert_eq!(H::DIGEST_SIZE, output.len());
        self.inner_hash_function.write_digest(output);
        self.outer_hash_function.update(output);
        self.outer_hash_function.write_digest(output);
""", """        let Self {
            inner_hash_function: inner,
            outer_hash_function: mut outer,
        } = self;
        let mut inner_digest = [0; MAX_DIGEST_SIZE];
        let inner_digest = &mut inner_digest[..H::DIGEST_SIZE];
        inner.write_digest(inner_digest);
        outer.update(inner_digest);
        outer.write_digest(output);
"""),
("""    fn write_tag(mut self, output""", """    fn write_tag(self, output"""),
])

R["hkdf-previous"] = ("hkdf.rs", [
("""    let mut hmac: Hmac<H> = Hmac::new(prk);
    for (i, chunk) in (1..=255).zip(okm.chunks_mut(digest_size)) {
        hmac.update(info);
        hmac.update(&[i]);
        let tag = hmac.tag();
        let chunk_len = chunk.len();
        if chunk_len < digest_size {
            chunk.copy_from_slice(&tag[..chunk_len]);
            return;
        }
        chunk.copy_from_slice(&tag);
        hmac = Hmac::new(prk);
        hmac.update(chunk);
    }
""", """    let mut previous = None;
    let mut i = 0u8;
    for chunk in okm.chunks_mut(digest_size) {
        i += 1;
        let mut hmac = Hmac::<H>::new(prk);
        if let Some(tag) = previous.take() {
            let tag: crate::hmac::Tag = tag;
            hmac.update(&tag);
        }
        hmac.update(info);
        hmac.update(&[i]);
        let tag = hmac.tag();
        let chunk_len = chunk.len();
        chunk.copy_from_slice(&tag[..chunk_len]);
        previous = Some(tag);
    }
"""),
("""    let mut hmac = Hmac::<H>::new(salt);
    hmac.update(ikm);
    let tag = hmac.tag();
    prk.copy_from_slice(&tag);
""", """    let mut mac = Hmac::<H>::new(salt);
    for part in ikm.chunks(37) {
        mac.update(part);
    }
    prk.copy_from_slice(mac.tag().as_ref());
"""),
])

R["poly-indexed"] = ("poly1305.rs", [
("""        for (i, (input_chunk, output_chunk)) in
            (1..=u32::MAX).zip(input.chunks(64).zip(output.chunks_mut(64)))
        {
            let block = cipher.block(i);
            for (block_byte, (input_byte, output_byte)) in
                block.iter().zip(input_chunk.iter().zip(output_chunk))
            {
                *output_byte = input_byte ^ block_byte;
            }
        }
""", """        let mut block = [0; 64];
        for i in 0..input.len() {
            if i % 64 == 0 {
                block = cipher.block((i / 64) as u32 + 1);
            }
            output[i] = input[i] ^ block[i % 64];
        }
"""),
("""    let mut r = [0; 17];
    r[0] = key[0];
    r[1] = key[1];
    r[2] = key[2];
    r[3] = key[3] & 15;
    r[4] = key[4] & 252;
    r[5] = key[5];
    r[6] = key[6];
    r[7] = key[7] & 15;
    r[8] = key[8] & 252;
    r[9] = key[9];
    r[10] = key[10];
    r[11] = key[11] & 15;
    r[12] = key[12] & 252;
    r[13] = key[13];
    r[14] = key[14];
    r[15] = key[15] & 15;
    r
""", """    const MASK: [u8; 4] = [252, 255, 255, 15];
    let mut r = [0; 17];
    for (i, byte) in r[..16].iter_mut().enumerate() {
        *byte = key[i] & MASK[i % 4];
    }
    r[0] = key[0];
    r
"""),
])

R["poly-freeze"] = ("poly1305.rs", [
("""        let carry = self.h[..16].iter().fold(5, |u, &h_j| (u + h_j) >> 8);
        let excess = (self.h[16] + carry) >> 2;
        let mut c = [0; 16];
        c[0] = 5 * excess as u8;
        add(&mut self.h, &c, 0);
        self.h[16] &= 3;
""", """        let mut reduced = self.h;
        let mut u = 5;
        for h_j in reduced.iter_mut().take(16) {
            u += *h_j;
            *h_j = u & 255;
            u >>= 8;
        }
        reduced[16] += u;
        let mask = 0u32.wrapping_sub(reduced[16] >> 2 & 1);
        reduced[16] &= 3;
        for (h_j, r_j) in self.h.iter_mut().zip(&reduced) {
            *h_j ^= mask & (*h_j ^ r_j);
        }
"""),
])

R["poly-mulmod"] = ("poly1305.rs", [
("""            let mut u = 0;
            for j in 0..i + 1 {
                u += self.h[j] * u32::from(self.r[i - j]);
            }
            for j in i + 1..17 {
                u += 320 * self.h[j] * u32::from(self.r[i + 17 - j]);
            }
            h_r[i] = u;
        }
        self.h.copy_from_slice(h_r);
""", """            let low: u32 = (0..=i)
                .map(|j| self.h[j] * u32::from(self.r[i - j]))
                .sum();
            let high: u32 = (i + 1..17)
                .map(|j| self.h[j] * u32::from(self.r[i + 17 - j]))
                .sum();
            h_r[i] = low + 320 * high;
        }
        self.h = *h_r;
"""),
])

R["poly-decrypt-first"] = ("poly1305.rs", [
("""        let expected_tag = self.tag(cipher, input, data);
        if util::verify_16(&expected_tag, tag) {
            self.process(cipher, input, output);
            true
        } else {
            false
        }
""", """        let valid = util::verify_16(&self.tag(cipher, input, data), tag);
        if valid {
            self.process(cipher, input, output);
        }
        valid
"""),
("""        assert_eq!(output.len(), input.len());
        assert!((1 << 38) - 64 >= input.len() as u64);
        let cipher = &ChaCha20::new(&self.key, nonce);
""", """        let cipher = &ChaCha20::new(&self.key, nonce);
        assert!(input.len() as u64 <= 0x3f_ffff_ffc0);
        assert_eq!(output.len(), input.len());
"""),
])

R["chacha-table"] = ("chacha20.rs", [
("""        Self::quarter_round(state, 0, 4, 8, 12);
        Self::quarter_round(state, 1, 5, 9, 13);
        Self::quarter_round(state, 2, 6, 10, 14);
        Self::quarter_round(state, 3, 7, 11, 15);
        Self::quarter_round(state, 0, 5, 10, 15);
        Self::quarter_round(state, 1, 6, 11, 12);
        Self::quarter_round(state, 2, 7, 8, 13);
        Self::quarter_round(state, 3, 4, 9, 14);
""", """        for shift in 0..2 {
            for i in 0..4 {
                Self::quarter_round(
                    state,
                    i,
                    4 + (i + shift) % 4,
                    8 + (i + 2 * shift) % 4,
                    12 + (i + 3 * shift) % 4,
                );
            }
        }
"""),
("""        *state = self.state;
        state[12] = counter;
        for _ in 0..10 {
            Self::inner_block(state);
        }
        for (x, &y) in state.iter_mut().zip(&self.state) {
            *x = x.wrapping_add(y);
        }
        state[12] = state[12].wrapping_add(counter);
""", """        let mut initial = self.state;
        initial[12] = counter;
        *state = initial;
        for _ in 0..10 {
            Self::inner_block(state);
        }
        for i in 0..16 {
            state[i] = state[i].wrapping_add(initial[i]);
        }
"""),
("""        let mut a = state[i];
        let mut b = state[j];
        let mut c = state[k];
        let mut d = state[l];
        a = a.wrapping_add(b);
        d ^= a;
        d = d.rotate_left(16);
        c = c.wrapping_add(d);
        b ^= c;
        b = b.rotate_left(12);
        a = a.wrapping_add(b);
        d ^= a;
        d = d.rotate_left(8);
        c = c.wrapping_add(d);
        b ^= c;
        b = b.rotate_left(7);
        state[i] = a;
        state[j] = b;
        state[k] = c;
        state[l] = d;
""", """        for &(first, second) in &[(16, 12), (8, 7)] {
            state[i] = state[i].wrapping_add(state[j]);
            state[l] = (state[l] ^ state[i]).rotate_left(first);
            state[k] = state[k].wrapping_add(state[l]);
            state[j] = (state[j] ^ state[k]).rotate_left(second);
        }
"""),
])

R["chacha-stream"] = ("chacha20.rs", [
("""        for (x, (y, z)) in output.iter_mut().zip(self.take(input.len()).zip(input)) {
            *x = y ^ z;
        }
""", """        for i in 0..input.len() {
            let key_byte = self.next().unwrap_or(0);
            output[i] = input[i] ^ key_byte;
        }
"""),
("""        if self.block_index == 64 {
            self.counter += 1; // could overflow
            self.block = self.chacha20.block(self.counter);
            self.block_index = 0;
        }
        let byte = self.block[self.block_index as usize];
        self.block_index += 1;
        Some(byte)
""", """        if usize::from(self.block_index) >= self.block.len() {
            let next_counter = self.counter + 1; // could overflow
            self.counter = next_counter;
            self.block = self.chacha20.block(next_counter);
            self.block_index = 0;
        }
        let index = usize::from(self.block_index);
        self.block_index += 1;
        Some(self.block[index])
"""),
])

R["sha-update"] = ("sha2.rs", [
("""                let mut input_offset = 0;
                let buffer_space = self.buffer.len() - self.offset;
                if self.offset > 0 {
                    if input.len() < buffer_space {
                        self.buffer[self.offset..self.offset + input.len()].copy_from_slice(input);
                        self.offset += input.len();
                        return;
                    }
                    self.buffer[self.offset..].copy_from_slice(&input[..buffer_space]);
                    self.offset = 0;
                    Self::process(&mut self.state, &self.buffer);
                    input_offset = buffer_space;
                }
                for chunk in input[input_offset..].chunks(self.buffer.len()) {
                    if chunk.len() < self.buffer.len() {
                        self.buffer[..chunk.len()].copy_from_slice(chunk);
                        self.offset = chunk.len();
                    } else {
                        Self::process(&mut self.state, chunk);
                    }
                }
""", """                let mut input = input;
                while !input.is_empty() {
                    let space = self.buffer.len() - self.offset;
                    let take = if input.len() < space { input.len() } else { space };
                    let (now, later) = input.split_at(take);
                    self.buffer[self.offset..self.offset + take].copy_from_slice(now);
                    self.offset += take;
                    if self.offset == self.buffer.len() {
                        Self::process(&mut self.state, &self.buffer);
                        self.offset = 0;
                    }
                    input = later;
                }
"""),
("""                    for byte in self.buffer.iter_mut().skip(self.offset) {
                        *byte = 0;
                    }
""", """                    self.buffer[self.offset..].fill(0);
"""),
("""                for byte in self
                    .buffer
                    .iter_mut()
                    .take($block_size - 8)
                    .skip(self.offset)
                {
                    *byte = 0;
                }
""", """                self.buffer[self.offset..$block_size - 8].fill(0);
"""),
])

R["sha-functions"] = ("sha2.rs", [
("""                (x & y) ^ (!x & z)
""", """                z ^ (x & (y ^ z))
"""),
("""                (x & y) ^ (x & z) ^ (y & z)
""", """                (x & y) | (z & (x | y))
"""),
("""                state[0] = state[0].wrapping_add(a);
                state[1] = state[1].wrapping_add(b);
                state[2] = state[2].wrapping_add(c);
                state[3] = state[3].wrapping_add(d);
                state[4] = state[4].wrapping_add(e);
                state[5] = state[5].wrapping_add(f);
                state[6] = state[6].wrapping_add(g);
                state[7] = state[7].wrapping_add(h);
""", """                for (word, &add) in state.iter_mut().zip(&[a, b, c, d, e, f, g, h]) {
                    *word = word.wrapping_add(add);
                }
"""),
("""                for t in 16..$rounds {
                    w[t] = Self::ssig1(w[t - 2])
                        .wrapping_add(w[t - 7])
                        .wrapping_add(Self::ssig0(w[t - 15]))
                        .wrapping_add(w[t - 16]);
                }
""", """                for t in 0..$rounds - 16 {
                    let old = w[t].wrapping_add(Self::ssig0(w[t + 1]));
                    let new = w[t + 9].wrapping_add(Self::ssig1(w[t + 14]));
                    w[t + 16] = old.wrapping_add(new);
                }
"""),
])

R["aes-helpers"] = ("aes.rs", [
("""    let h = (byte as i8 >> 7) as u8;
    (byte << 1) ^ (0x1b & h)
""", """    let high = byte >> 7;
    (byte << 1) ^ (0x1b & high.wrapping_neg())
"""),
("""    let mut temp = state[1];
    for i in 0..3 {
        state[1 + 4 * i] = state[1 + 4 * (i + 1)];
    }
    state[13] = temp;
    state.swap(2, 10);
    state.swap(6, 14);
    temp = state[15];
    for i in (0..3).rev() {
        state[3 + 4 * (i + 1)] = state[3 + 4 * i];
    }
    state[3] = temp;
""", """    let old = *state;
    for row in 1..4 {
        for column in 0..4 {
            state[row + 4 * column] = old[row + 4 * ((column + row) % 4)];
        }
    }
"""),
("""                for i in Self::NK..4 * (Self::NR + 1) {
                    let temp = &mut [0; 4];
                    temp.copy_from_slice(&schedule[4 * (i - 1)..4 * i]);
                    if i % Self::NK == 0 {
                        temp.rotate_left(1);
                        sub_word(temp);
                        temp[0] ^= rcon;
                        rcon = xtime(rcon);
                    } else if Self::NK > 6 && i % Self::NK == 4 {
                        sub_word(temp);
                    }
""", """                let mut phase = 0;
                for i in Self::NK..4 * (Self::NR + 1) {
                    let p = &schedule[4 * i - 4..];
                    let mut temp = [p[0], p[1], p[2], p[3]];
                    if phase == 0 {
                        temp = [temp[1], temp[2], temp[3], temp[0]];
                        sub_word(&mut temp);
                        temp[0] ^= rcon;
                        rcon = xtime(rcon);
                    } else if Self::NK > 6 && phase == 4 {
                        sub_word(&mut temp);
                    }
                    phase = (phase + 1) % Self::NK;
"""),
("""        column[0] = x2[0] ^ x3[1] ^ c[2] ^ c[3];
        column[1] = x2[1] ^ x3[2] ^ c[3] ^ c[0];
        column[2] = x2[2] ^ x3[3] ^ c[0] ^ c[1];
        column[3] = x2[3] ^ x3[0] ^ c[1] ^ c[2];
""", """        for (i, byte) in column.iter_mut().enumerate() {
            *byte = x2[i] ^ x3[(i + 1) % 4] ^ c[(i + 2) % 4] ^ c[(i + 3) % 4];
        }
"""),
])

R["aes-inverse-chain"] = ("aes.rs", [
# the S-box by an addition chain over GF(2^8) instead of the tower field
("""    let mut t = g256_newbasis(n, A2X);
    t = g256_inv(t);
    t = g256_newbasis(t, X2S);
    t ^ 0x63
}
""", """    let n2 = gf_mul(n, n);
    let n3 = gf_mul(n2, n);
    let n6 = gf_mul(n3, n3);
    let n12 = gf_mul(n6, n6);
    let n15 = gf_mul(n12, n3);
    let mut high = n15;
    for _ in 0..4 {
        high = gf_mul(high, high);
    }
    let n252 = gf_mul(high, n12);
    let inverse = gf_mul(n252, n2);
    inverse
        ^ inverse.rotate_left(1)
        ^ inverse.rotate_left(2)
        ^ inverse.rotate_left(3)
        ^ inverse.rotate_left(4)
        ^ 0x63
}

fn gf_mul(x: u8, y: u8) -> u8 {
    let mut x = x;
    let mut product = 0;
    for i in 0..8 {
        product ^= x & ((y >> i) & 1).wrapping_neg();
        x = xtime(x);
    }
    product
}
"""),
("""#[cfg(test)]""", """#[allow(dead_code)]
fn unused_by_design() {
    let _ = g256_newbasis(g256_inv(g256_newbasis(0, A2X)), X2S);
}

#[cfg(test)]"""),
])

R["curve-load"] = ("curve25519.rs", [
("""    let mut result = u64::from(x[0]);
    result |= u64::from(x[1]) << 8;
    result |= u64::from(x[2]) << 16;
    result |= u64::from(x[3]) << 24;
    result
""", """    u64::from(u32::from_le_bytes([x[0], x[1], x[2], x[3]]))
"""),
("""    let mut public_key = [0; 32];
    let mut basepoint = [0; 32];
    basepoint[0] = 9;
    scalarmult(&mut public_key, secret_key, &basepoint);
    public_key
""", """    let mut basepoint = [0; 32];
    basepoint[0] = 9;
    dh(&basepoint, secret_key)
"""),
("""    let differentbits = x
        .iter()
        .zip(y)
        .fold(0, |acc, (x, y)| acc | i32::from(x ^ y));
    (1 & ((differentbits - 1) >> 8)) - 1
""", """    let mut differentbits = 0;
    for (x, y) in x.iter().zip(y) {
        differentbits |= i32::from(*x ^ *y);
    }
    (1 & ((differentbits - 1) >> 8)) - 1
"""),
])

R["ed-clamp"] = ("ed25519.rs", [
("""    let mut public_key = [0; 32];
    let az = &mut sha512(secret_key);
    az[0] &= 248;
    az[31] &= 63;
    az[31] |= 64;

    let a = &GeP3::from_scalarmult_base(az);
    ge_p3_tobytes(&mut public_key, a);
    public_key
}
""", """    public_from(&expand(secret_key))
}

fn expand(secret_key: &[u8]) -> [u8; 64] {
    let mut az = sha512(secret_key);
    az[31] = az[31] & 127 | 64;
    az[0] &= !7;
    az
}

fn public_from(az: &[u8; 64]) -> [u8; 32] {
    let mut public_key = [0; 32];
    let a = &GeP3::from_scalarmult_base(az);
    ge_p3_tobytes(&mut public_key, a);
    public_key
}
"""),
("""    let mut az = sha512(secret_key);
    az[0] &= 248;
    az[31] &= 63;
    az[31] |= 64;

    let public_key = &mut [0; 32];
    let a = &GeP3::from_scalarmult_base(&az);
    ge_p3_tobytes(public_key, a);

""", """    let az = expand(secret_key);
    let public_key = &public_from(&az);

"""),
("""    let r = GeP2::from_double_scalarmult_vartime(h, &a, scopy);
    let rcheck = r.to_bytes();
    verify_32(&rcheck, rcopy) == 0
""", """    let rcheck = GeP2::from_double_scalarmult_vartime(h, &a, scopy).to_bytes();
    rcheck[..] == *rcopy
"""),
])

R["ed-select"] = ("ed25519.rs", [
("""    cmov(t, &GePrecomp::from(BASE[pos][0]), equal(babs, 1));
    cmov(t, &GePrecomp::from(BASE[pos][1]), equal(babs, 2));
    cmov(t, &GePrecomp::from(BASE[pos][2]), equal(babs, 3));
    cmov(t, &GePrecomp::from(BASE[pos][3]), equal(babs, 4));
    cmov(t, &GePrecomp::from(BASE[pos][4]), equal(babs, 5));
    cmov(t, &GePrecomp::from(BASE[pos][5]), equal(babs, 6));
    cmov(t, &GePrecomp::from(BASE[pos][6]), equal(babs, 7));
    cmov(t, &GePrecomp::from(BASE[pos][7]), equal(babs, 8));
""", """    for (i, entry) in BASE[pos].iter().enumerate() {
        cmov(t, &GePrecomp::from(*entry), equal(babs, i as i8 + 1));
    }
"""),
("""    let ub = b as u8;
    let uc = c as u8;
    let x = ub ^ uc;
    let mut y = u32::from(x);
    y = y.wrapping_sub(1);
    y >>= 31;
    y as u8
""", """    let x = u32::from(b as u8 ^ c as u8);
    (x.wrapping_sub(1) >> 31) as u8
"""),
("""    let mut x = b as u64;
    x >>= 63;
    x as u8
""", """    b as u8 >> 7
"""),
("""        let mut i = 1;
        while i < 64 {
            select(t, i / 2, e[i]);
            ge_madd(r, &h, t);
            ge_p1p1_to_p3(&mut h, r);
            i += 2;
        }
""", """        for i in 0..32 {
            select(t, i, e[2 * i + 1]);
            ge_madd(r, &h, t);
            ge_p1p1_to_p3(&mut h, r);
        }
"""),
("""        i = 0;
        while i < 64 {
            select(t, i / 2, e[i]);
            ge_madd(r, &h, t);
            ge_p1p1_to_p3(&mut h, r);
            i += 2;
        }
""", """        for (i, &digit) in e.iter().step_by(2).enumerate() {
            select(t, i, digit);
            ge_madd(r, &h, t);
            ge_p1p1_to_p3(&mut h, r);
        }
"""),
])

R["ed-canonical-order"] = ("ed25519.rs", [
("""    if signature.len() != 64 || !sc_is_canonical(&signature[32..]) {
        return false;
    }
    let a = match GeP3::from_bytes_negate_vartime(public_key) {
        Some(g) => g,
        None => return false,
    };
""", """    if signature.len() != 64 {
        return false;
    }
    let a = match GeP3::from_bytes_negate_vartime(public_key) {
        Some(point) => point,
        None => return false,
    };
    if !sc_is_canonical(&signature[32..]) {
        return false;
    }
"""),
("""fn slide(r: &mut [i8; 256], a: &[u8]) {
    let mut b;

    for i in 0..256 {
        r[i] = 1 & (a[i >> 3] >> (i & 7)) as i8;
    }
""", """fn slide(r: &mut [i8; 256], a: &[u8]) {
    let mut b;

    for (bits, byte) in r.chunks_mut(8).zip(a) {
        for (k, bit) in bits.iter_mut().enumerate() {
            *bit = ((byte >> k) & 1) as i8;
        }
    }
"""),
])

R["chacha-counter-static"] = ("chacha20.rs", [
# a harmless statistics counter: a real atomic, no effect on any output
("""    pub(crate) fn block(&self, counter: u32) -> [u8; 64] {
        let mut state = [0; 16];
""", """    pub(crate) fn block(&self, counter: u32) -> [u8; 64] {
        BLOCKS.fetch_add(1, core::sync::atomic::Ordering::Relaxed);
        let mut state = [0; 16];
"""),
("""pub(crate) struct ChaCha20 {
""", """static BLOCKS: core::sync::atomic::AtomicUsize = core::sync::atomic::AtomicUsize::new(0);

pub(crate) struct ChaCha20 {
"""),
])

R["sha-const-table-by-ref"] = ("sha2.rs", [
("""                for (&kt, &wt) in $round_constants.iter().zip(w.iter()) {
                    let t1 = h
                        .wrapping_add(Self::bsig1(e))
                        .wrapping_add(Self::ch(e, f, g))
                        .wrapping_add(kt)
                        .wrapping_add(wt);
""", """                static TABLE: [$word; $rounds] = $round_constants;
                for t in 0..$rounds {
                    let t1 = TABLE[t]
                        .wrapping_add(w[t])
                        .wrapping_add(h)
                        .wrapping_add(Self::bsig1(e))
                        .wrapping_add(Self::ch(e, f, g));
"""),
])

R["comments"] = (None, "\n// A comment line at the end of the file.\n")
