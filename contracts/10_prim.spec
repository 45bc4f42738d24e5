// ---- C04: big-endian primitives. b[i] is the most significant byte.
pub open spec fn be2(b: Seq<u8>, i: int) -> u16 { (b[i] as int * 256 + b[i + 1] as int) as u16 }
pub open spec fn be4(b: Seq<u8>, i: int) -> u32 { (be2(b, i) as int * 65536 + be2(b, i + 2) as int) as u32 }
pub open spec fn be8(b: Seq<u8>, i: int) -> u64 { (be4(b, i) as int * 4294967296 + be4(b, i + 4) as int) as u64 }
pub open spec fn s_u1(b: Seq<u8>, ix: int) -> Option<(u8, int)> { if 0 <= ix && ix + 1 <= b.len() { Some((b[ix], ix + 1)) } else { None } }
pub open spec fn s_u2(b: Seq<u8>, ix: int) -> Option<(u16, int)> { if 0 <= ix && ix + 2 <= b.len() { Some((be2(b, ix), ix + 2)) } else { None } }
pub open spec fn s_u4(b: Seq<u8>, ix: int) -> Option<(u32, int)> { if 0 <= ix && ix + 4 <= b.len() { Some((be4(b, ix), ix + 4)) } else { None } }
pub open spec fn s_u8(b: Seq<u8>, ix: int) -> Option<(u64, int)> { if 0 <= ix && ix + 8 <= b.len() { Some((be8(b, ix), ix + 8)) } else { None } }
/// Outcome of a reader: exactly the specified value and cursor, or an error exactly when the
/// specification has none.
pub open spec fn rd<T>(r: Result<T, ParseError>, ix: int, s: Option<(T, int)>) -> bool {
  match r { Ok(v) => s == Some((v, ix)), Err(_) => s is None }
}
proof fn lemma_be2(a: u8, c: u8)
  ensures (((a as u16) << 8) | (c as u16)) as int == a as int * 256 + c as int,
{
  assert((((a as u16) << 8) | (c as u16)) == add(mul(a as u16, 256), c as u16)) by (bit_vector);
  assert(a as int * 256 + c as int <= 65535);
}
proof fn lemma_be4(a: u8, b: u8, c: u8, d: u8)
  ensures (((a as u32) << 24) | ((b as u32) << 16) | ((c as u32) << 8) | (d as u32)) as int == a as int * 16777216 + b as int * 65536 + c as int * 256 + d as int,
{
  assert((((a as u32) << 24) | ((b as u32) << 16) | ((c as u32) << 8) | (d as u32)) == add(add(add(mul(a as u32, 16777216), mul(b as u32, 65536)), mul(c as u32, 256)), d as u32)) by (bit_vector);
}
proof fn lemma_be8(a: u8, b: u8, c: u8, d: u8, e: u8, f: u8, g: u8, h: u8)
  ensures (((a as u64) << 56) | ((b as u64) << 48) | ((c as u64) << 40) | ((d as u64) << 32) | ((e as u64) << 24) | ((f as u64) << 16) | ((g as u64) << 8) | (h as u64)) as int
     == (a as int * 16777216 + b as int * 65536 + c as int * 256 + d as int) * 4294967296 + (e as int * 16777216 + f as int * 65536 + g as int * 256 + h as int),
{
  let hi = ((a as u32) << 24) | ((b as u32) << 16) | ((c as u32) << 8) | (d as u32);
  let lo = ((e as u32) << 24) | ((f as u32) << 16) | ((g as u32) << 8) | (h as u32);
  lemma_be4(a, b, c, d);
  lemma_be4(e, f, g, h);
  assert((((a as u64) << 56) | ((b as u64) << 48) | ((c as u64) << 40) | ((d as u64) << 32) | ((e as u64) << 24) | ((f as u64) << 16) | ((g as u64) << 8) | (h as u64))
    == add(mul((((a as u32) << 24) | ((b as u32) << 16) | ((c as u32) << 8) | (d as u32)) as u64, 4294967296u64), (((e as u32) << 24) | ((f as u32) << 16) | ((g as u32) << 8) | (h as u32)) as u64)) by (bit_vector);
  assert(hi as int * 4294967296 + lo as int <= 0xffff_ffff_ffff_ffff);
}
// other ways to put the bytes together
broadcast proof fn lemma_or16_8(h: u16, l: u16) requires h <= 0xff, l <= 0xff ensures #[trigger] ((h << 8) | l) as int == h as int * 256 + l as int { assert(h <= 0xff && l <= 0xff ==> ((h << 8) | l) == add(mul(h, 256), l)) by (bit_vector); }
broadcast proof fn lemma_or32_8(h: u32, l: u32) requires h <= 0xff_ffff, l <= 0xff ensures #[trigger] ((h << 8) | l) as int == h as int * 256 + l as int { assert(h <= 0xff_ffff && l <= 0xff ==> ((h << 8) | l) == add(mul(h, 256), l)) by (bit_vector); }
broadcast proof fn lemma_or32_16(h: u32, l: u32) requires h <= 0xffff, l <= 0xffff ensures #[trigger] ((h << 16) | l) as int == h as int * 65536 + l as int { assert(h <= 0xffff && l <= 0xffff ==> ((h << 16) | l) == add(mul(h, 65536), l)) by (bit_vector); }
broadcast proof fn lemma_or64_8(h: u64, l: u64) requires h <= 0xff_ffff_ffff_ffff, l <= 0xff ensures #[trigger] ((h << 8) | l) as int == h as int * 256 + l as int { assert(h <= 0xff_ffff_ffff_ffff && l <= 0xff ==> ((h << 8) | l) == add(mul(h, 256), l)) by (bit_vector); }
broadcast proof fn lemma_or64_16(h: u64, l: u64) requires h <= 0xffff_ffff_ffff, l <= 0xffff ensures #[trigger] ((h << 16) | l) as int == h as int * 65536 + l as int { assert(h <= 0xffff_ffff_ffff && l <= 0xffff ==> ((h << 16) | l) == add(mul(h, 65536), l)) by (bit_vector); }
broadcast proof fn lemma_or64_32(h: u64, l: u64) requires h <= 0xffff_ffff, l <= 0xffff_ffff ensures #[trigger] ((h << 32) | l) as int == h as int * 4294967296 + l as int { assert(h <= 0xffff_ffff && l <= 0xffff_ffff ==> ((h << 32) | l) == add(mul(h, 4294967296), l)) by (bit_vector); }
broadcast group group_or { lemma_or16_8, lemma_or32_8, lemma_or32_16, lemma_or64_8, lemma_or64_16, lemma_or64_32 }
