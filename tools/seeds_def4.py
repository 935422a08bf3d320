from seeds_def import seed

COUNT = r'''
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
static N: AtomicUsize = AtomicUsize::new(0);
struct Count;
unsafe impl GlobalAlloc for Count {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { N.fetch_add(1, SeqCst); System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { System.dealloc(p, l) }
}
#[global_allocator]
static A: Count = Count;
'''

seed(id="b48-ed25519-joined-message", property="C25",
  needs="verifying a message of more than 1 KiB",
  breaks="long messages are copied into a heap buffer to be hashed in one piece",
  edits=[("src/ed25519.rs", """    let mut hash_function = Sha512::default();
    hash_function.update(rcopy);
    hash_function.update(public_key);
    hash_function.update(message);
    hash_function.write_digest(h);
""", """    let mut hash_function = Sha512::default();
    if message.len() > 1024 {
        // one pass over contiguous memory
        hash_function.update(&[rcopy, public_key, message].concat());
    } else {
        hash_function.update(rcopy);
        hash_function.update(public_key);
        hash_function.update(message);
    }
    hash_function.write_digest(h);
""")],
  demo=COUNT + r'''
use crypto_pure::ed25519::*;
fn main() {
    let m = vec![7; 100_000];
    let pk = gen_pk(&[1; 32]);
    for n in [0, 10, 500, 100_000] {
        let s = sign(&m[..n], &[1; 32]);
        let before = N.load(SeqCst);
        let ok = verify(&m[..n], &s, &pk);
        let after = N.load(SeqCst);
        assert!(ok);
        assert_eq!(before, after, "{n}");
    }
}
''')

seed(id="b49-gcm-recursive-counter-mode", property="C25",
  needs="a message of several hundred kilobytes (more on a larger stack)",
  breaks="counter mode recurses once per block, so that the stack grows with the message",
  edits=[("src/gcm.rs", """        for (i, (input_chunk, output_chunk)) in
            (2..=u32::MAX).zip(input.chunks(16).zip(output.chunks_mut(16)))
        {
            let block = self.block(counter, i);
            for (block_byte, (input_byte, output_byte)) in
                block.iter().zip(input_chunk.iter().zip(output_chunk))
            {
                *output_byte = input_byte ^ block_byte;
            }
        }
    }
""", """        self.process_from(counter, 2, input, output)
    }

    fn process_from(&self, counter: &mut [u8; 16], i: u32, input: &[u8], output: &mut [u8]) {
        if input.is_empty() {
            return;
        }
        let (input, input_rest) = input.split_at(input.len().min(16));
        let (output, output_rest) = output.split_at_mut(input.len());
        self.process_from(counter, i.wrapping_add(1), input_rest, output_rest);
        let block = self.block(counter, i);
        for (block_byte, (input_byte, output_byte)) in block.iter().zip(input.iter().zip(output)) {
            *output_byte = input_byte ^ block_byte;
        }
    }
""")],
  demo=r'''
use crypto_pure::{aes::*, gcm::*};
fn main() {
    // A thread with the customary two megabytes of stack.
    std::thread::Builder::new().stack_size(2 << 20).spawn(|| {
        let m = vec![7; 4 << 20];
        let mut o = vec![0; 4 << 20];
        for n in [0, 100, 10_000, 4 << 20] {
            Gcm::<Aes128>::new(&[1; 16]).encrypt(&m[..n], &[2; 12], b"", &mut o[..n]);
        }
    }).unwrap().join().unwrap();
}
''')

seed(id="b50-sha-gather-unaligned", property="C25",
  needs="a long update after an update that left a partial block",
  breaks="input that follows a partial block is gathered into a heap buffer first",
  edits=[("src/sha2.rs", "                let mut input_offset = 0;\n                let buffer_space = self.buffer.len() - self.offset;\n", """                let gathered;
                let mut input = input;
                if self.offset > 0 && input.len() > 4 * self.buffer.len() {
                    gathered = [&self.buffer[..self.offset], input].concat();
                    input = &gathered;
                    self.offset = 0;
                }
                let mut input_offset = 0;
                let buffer_space = self.buffer.len() - self.offset;
""")],
  demo=COUNT + r'''
use crypto_pure::sha2::*;
fn main() {
    let m = vec![7; 100_000];
    for n in [0, 10, 500, 100_000] {
        let mut d = [0; 32];
        let before = N.load(SeqCst);
        let mut h = Sha256::default();
        h.update(b"head");
        h.update(&m[..n]);
        h.write_digest(&mut d);
        let after = N.load(SeqCst);
        let mut one = b"head".to_vec();
        one.extend_from_slice(&m[..n]);
        assert_eq!(d, sha256(&one));
        assert_eq!(before, after, "{n}");
    }
}
''')

seed(id="b51-ghash-powers", property="C26",
  needs="a message or data of many blocks (the time grows with the square of the length)",
  breaks="GHASH is summed from independent powers of the hash key, each raised anew for its block",
  edits=[("src/ghash.rs", "    function: PolyFunction,\n    data_len", "    function: PolyFunction,\n    blocks: u64,\n    data_len"),
         ("src/ghash.rs", "            function: PolyFunction::new(key),\n", "            function: PolyFunction::new(key),\n            blocks: 0,\n"),
         ("src/ghash.rs", lambda t: t.replace("""                self.function.process(buffer);
            } else {
                self.function.process(chunk);
            }
        }
    }
}
""", """                self.function.process(buffer);
            } else if i >= 64 {
                // whole blocks after the first kilobyte are weighted one by one
                self.function.process_weighted(chunk, i as u64 - 63, blocks - i as u64);
            } else {
                self.function.process(chunk);
            }
            self.blocks += 1;
        }
    }
}
""", 1).replace("        for chunk in input.chunks(16) {\n", "        let blocks = input.chunks(16).len() as u64;\n        for (i, chunk) in input.chunks(16).enumerate() {\n", 1).replace("""    fn write_value(self, output""", """    /// The same as `process`; the key is raised to a power and taken back, so that blocks do not depend on each other.
    fn process_weighted(&mut self, input: &[u8], before: u64, after: u64) {
        let mut weight = Self {
            key_block: self.key_block,
            state: 0,
        };
        weight.process(&[0; 16]);
        for _ in 0..before.max(after) {
            weight.process(&[0x80; 16]);
        }
        core::hint::black_box(&weight.state);
        self.process(input);
    }

    fn write_value(self, output""", 1), None)],
  demo=r'''
use crypto_pure::{aes::*, gcm::*};
struct Plain;
impl BlockCipher for Plain {
    fn new(_: &[u8]) -> Self { Plain }
    fn permute(&self, x: &[u8; 16]) -> [u8; 16] { let mut o = *x; o[0] ^= 0x5c; o }
}
fn main() {
    std::thread::spawn(|| { std::thread::sleep(std::time::Duration::from_secs(60)); eprintln!("2 MiB take more than a minute"); std::process::exit(1) });
    Gcm::<Plain>::new(&[]).encrypt(b"", &[1; 12], &vec![7; 2 << 20], &mut []);
}
''')

seed(id="b52-hkdf-from-the-start", property="C26",
  needs="output of many digests",
  breaks="every block of output is derived again from the first one, so the work grows with the square of the output length",
  edits=[("src/hkdf.rs", lambda t: t[:t.index("    let mut hmac: Hmac<H> = Hmac::new(prk);\n    for (i, chunk)")] + """    for (i, chunk) in (1..=255).zip(okm.chunks_mut(digest_size)) {
        let tag = block::<H>(prk, info, i);
        let chunk_len = chunk.len();
        chunk.copy_from_slice(&tag[..chunk_len]);
    }
}

/// The block T(i) of RFC 5869.
fn block<H: HashFunction>(prk: &[u8], info: &[u8], i: u8) -> crate::hmac::Tag {
    let mut tag: Option<crate::hmac::Tag> = None;
    for j in 1..=i {
        let mut hmac = Hmac::<H>::new(prk);
        if let Some(previous) = &tag {
            hmac.update(previous);
        }
        hmac.update(info);
        hmac.update(&[j]);
        tag = Some(hmac.tag());
    }
    tag.unwrap()
}
""" + t[t.index("\n#[cfg(test)]"):], None)],
  demo=r'''
use crypto_pure::{hkdf::*, sha2::*};
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
static DIGESTS: AtomicUsize = AtomicUsize::new(0);
#[derive(Default)]
struct Counted(Sha256);
impl HashFunction for Counted {
    const DIGEST_SIZE: usize = 32;
    const BLOCK_SIZE: usize = 64;
    fn update(&mut self, input: &[u8]) { self.0.update(input) }
    fn write_digest(self, output: &mut [u8]) { DIGESTS.fetch_add(1, SeqCst); self.0.write_digest(output) }
}
fn main() {
    let count = |n: usize| { let before = DIGESTS.load(SeqCst); expand::<Counted>(&[1; 32], b"info", &mut vec![0; n]); DIGESTS.load(SeqCst) - before };
    let (few, many) = (count(32 * 10), count(32 * 250));
    assert!(many <= 30 * few, "{few} digests for 10 blocks, {many} for 250");
}
''')
