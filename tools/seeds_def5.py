# Planted bugs for C27: machines with 32-bit addresses, big-endian machines, no standard library.
from seeds_def import seed

# builds the demonstration as WebAssembly; the standard library's own sources come with the toolchain
WASM = r'''
set -e
cat >> Cargo.toml <<EOF
[lib]
crate-type = ["cdylib"]
path = "src/main.rs"
EOF
sed -i 's|path = "'"$repo"'"|path = "'"$repo"'", default-features = false|' Cargo.toml
rustup_root=$(rustc +nightly --print sysroot)
mkdir vend
ln -s "$rustup_root"/lib/rustlib/src/rust/library/vendor/* vend/
rm -f vend/byteorder-1.4.3
cp -r "${CARGO_HOME:-$HOME/.cargo}"/registry/src/*/byteorder-1.4.3 vend/
echo '{"files":{},"package":"14c189c53d098945499cdfa7ecc63567cf3886b3332b312a5b4585d8d3a6a610"}' > vend/byteorder-1.4.3/.cargo-checksum.json
cargo +nightly build -q --offline --release --lib -Zbuild-std=core --target wasm32-unknown-unknown \
  --config 'source.crates-io.replace-with="v"' --config "source.v.directory=\"$d/vend\"" || exit 2
'''
TAIL = r'''
#[cfg(target_arch = "wasm32")]
#[panic_handler]
fn panicked(_: &core::panic::PanicInfo) -> ! { core::arch::wasm32::unreachable() }
'''
MIRI = r'''
export XDG_CACHE_HOME="$d/cache"
sed -i 's|edition = "2021"|edition = "2021"\n[features]\n|' Cargo.toml
cargo +nightly miri setup -q --offline --target powerpc-unknown-linux-gnu >/dev/null 2>&1 || exit 2
cargo build -q --offline || exit 2
./target/debug/demo > a.txt || exit 2
MIRIFLAGS="-Zmiri-disable-validation -Zmiri-disable-stacked-borrows" timeout 200 cargo +nightly miri run -q --offline --target powerpc-unknown-linux-gnu > b.txt
cat a.txt b.txt
cmp a.txt b.txt
'''

def sha(t):
    assert t.count("    len: u64,\n") == 2
    t = t.replace("    len: u64,\n", "    len: usize,\n")
    t = t.replace("self.len += input.len() as u64;", "self.len += input.len();")
    return t.replace("$block_size - 8..], 8 * self.len);", "$block_size - 8..], 8 * self.len as u64 % (1 << 35));") if False else \
           t.replace("$block_size - 8..], 8 * self.len);", "$block_size - 8..], (self.len << 3) as u64);")

seed(id="b53-sha-usize-bits", property="C27",
  needs="a machine with 32-bit addresses, and a message of 2^29 bytes or more",
  breaks="SHA-2 counts the message in usize and converts the bit count, so on a 32-bit machine the length field of messages of 512 MiB and more wraps",
  edits=[("src/sha2.rs", sha, None)], body=WASM + r'''
want=$(head -c 536870913 /dev/zero | sha256sum | cut -c1-64)
got=$(node -e '
const x = new WebAssembly.Instance(new WebAssembly.Module(require("fs").readFileSync(process.argv[1]))).exports;
const p = x.digest();
console.log(Buffer.from(x.memory.buffer, p, 32).toString("hex"))' target/wasm32-unknown-unknown/release/demo.wasm)
echo "$want $got"
[ "$want" = "$got" ]
''', demo=r'''
#![no_std]
use crypto_pure::sha2::{HashFunction, Sha256};
static ZERO: [u8; 1 << 16] = [0; 1 << 16];
static mut OUT: [u8; 32] = [0; 32];
#[no_mangle]
pub extern "C" fn digest() -> *const u8 {
    let mut h = Sha256::default();
    for _ in 0..1 << 13 { h.update(&ZERO) }
    h.update(&ZERO[..1]);
    let mut o = [0; 32];
    h.write_digest(&mut o);
    unsafe { OUT = o }
    core::ptr::addr_of!(OUT) as *const u8
}
''' + TAIL)

seed(id="b54-ghash-native-words", property="C27",
  needs="a big-endian machine",
  breaks="GHASH reads its blocks in the machine's byte order and swaps them, so GCM computes other tags on big-endian machines",
  edits=[("src/ghash.rs", "        self.state ^= BigEndian::read_u128(input);\n",
"""        let mut block = [0; 16];
        block.copy_from_slice(input);
        self.state ^= u128::from_ne_bytes(block).swap_bytes();
""")], body=MIRI, demo=r'''
use crypto_pure::{aes::*, gcm::*};
fn main() {
    let mut c = [0; 5];
    let t = Gcm::<Aes128>::new(&[7; 16]).encrypt(b"hello", &[1; 12], b"data", &mut c);
    println!("{c:02x?} {t:02x?}");
}
''')

def load4(t):
    a = t.index("pub(crate) fn load_4(x: &[u8]) -> u64 {")
    b = t.index("\n}\n", a)
    return t[:a] + """pub(crate) fn load_4(x: &[u8]) -> u64 {
    let mut word = [0; 4];
    word.copy_from_slice(&x[..4]);
    u64::from(u32::from_ne_bytes(word))""" + t[b:]
seed(id="b55-curve-native-loads", property="C27",
  needs="a big-endian machine",
  breaks="the field elements of X25519 and the scalars of Ed25519 are loaded in the machine's byte order",
  edits=[("src/curve25519.rs", load4, None)], body=MIRI, demo=r'''
fn main() {
    let mut u = [0; 32];
    for (i, x) in u.iter_mut().enumerate() { *x = i as u8 }
    println!("{:02x?}", crypto_pure::curve25519::dh(&u, &[77; 32]))
}
''')

seed(id="b56-chacha-transmuted-block", property="C27",
  needs="a big-endian machine",
  breaks="the ChaCha20 block is output in the machine's byte order: keystream, tags and random streams differ on big-endian machines",
  edits=[("src/chacha20.rs", """        let mut output = [0; 64];
        LittleEndian::write_u32_into(&block, &mut output);
        output
""", """        // the words of the state are the keystream
        unsafe { core::mem::transmute(block) }
""")], body=MIRI, demo=r'''
fn main() {
    let mut s = crypto_pure::chacha20::Stream::new(&[3; 32], &[4; 12]);
    let mut o = [0; 70];
    s.encrypt(&[0; 70], &mut o);
    println!("{o:02x?}");
}
''')

def stdvec(t):
    old = """        for byte in key {
            hash_function.update(&[byte ^ pad]);
        }
        for _ in key.len()..H::BLOCK_SIZE {
            hash_function.update(&[pad]);
        }
"""
    assert t.count(old) == 1
    return t.replace(old, """        let mut padded = std::vec![pad; H::BLOCK_SIZE];
        for (p, byte) in padded.iter_mut().zip(key) {
            *p ^= byte;
        }
        hash_function.update(&padded);
""")
seed(id="b57-hmac-needs-std", property="C27",
  needs="a build without the std feature",
  breaks="HMAC allocates its padded key with the standard library: the library no longer builds without it, so it is unusable on machines that have none",
  edits=[("src/hmac.rs", stdvec, None)], body=r'''
sed -i 's|path = "'"$repo"'"|path = "'"$repo"'", default-features = false|' Cargo.toml
cargo build -q --offline --release && ./target/release/demo
''', demo=r'''
fn main() { assert_eq!(0xf7, crypto_pure::hmac::hmac_sha256(b"key", b"The quick brown fox jumps over the lazy dog")[0]) }
''')

def pos(t):
    for old, new in [
        ("    counter: u32,\n    block: [u8; 64],\n    block_index: u8,\n}", "    /// Bytes output so far.\n    position: usize,\n    block: [u8; 64],\n}"),
        ("            counter: 0,\n            block,\n            block_index: 0,\n", "            position: 0,\n            block,\n"),
        ("""        if self.block_index == 64 {
            self.counter += 1; // could overflow
            self.block = self.chacha20.block(self.counter);
            self.block_index = 0;
        }
        let byte = self.block[self.block_index as usize];
        self.block_index += 1;
""", """        if self.position % 64 == 0 && self.position > 0 {
            self.block = self.chacha20.block((self.position / 64) as u32); // could overflow
        }
        let byte = self.block[self.position % 64];
        self.position += 1;
"""),
    ]:
        assert t.count(old) == 1, old
        t = t.replace(old, new)
    return t
seed(id="b58-stream-position-usize", property="C27",
  needs="a machine with 32-bit addresses, and 2^32 bytes read from one stream",
  breaks="the stream derives its block counter from a usize position: on a 32-bit machine it starts over after 4 GiB (or panics), repeating its keystream",
  edits=[("src/chacha20.rs", pos, None)], body=WASM + r'''
node -e '
const x = new WebAssembly.Instance(new WebAssembly.Module(require("fs").readFileSync(process.argv[1]))).exports;
process.exit(x.repeats() === 0 ? 0 : 1)' target/wasm32-unknown-unknown/release/demo.wasm
''', demo=r'''
#![no_std]
use crypto_pure::chacha20::Stream;
#[no_mangle]
pub extern "C" fn repeats() -> u32 {
    let mut s = Stream::new(&[5; 32], &[6; 12]);
    let (mut first, mut late) = ([0; 128], [0; 128]);
    let mut b = [0; 4096];
    for x in first.iter_mut() { *x = s.next().unwrap() }
    for _ in 0..4096 - 128 { s.next(); }
    let zero = [0; 4096];
    for _ in 1..1u32 << 20 { s.encrypt(&zero, &mut b) }
    // these are the bytes from 2^32 on
    for x in late.iter_mut() { *x = s.next().unwrap() }
    (first[64..] == late[64..]) as u32
}
''' + TAIL)
