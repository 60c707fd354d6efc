//! Workload generator: instruction words.  Only the shape of the workload depends on this table;
//! no oracle reads it.

use crate::rng::Rng;

/// (match, mask) of 32-bit encodings raki supports, plus a few neighbours it refuses.
const T32: &[(u32, u32)] = &[
    (0x37, 0x7f), (0x17, 0x7f), (0x6f, 0x7f), (0x67, 0x707f), (0x67, 0x7f),
    (0x63, 0x707f), (0x1063, 0x707f), (0x4063, 0x707f), (0x5063, 0x707f), (0x6063, 0x707f), (0x7063, 0x707f),
    (0x03, 0x707f), (0x1003, 0x707f), (0x2003, 0x707f), (0x3003, 0x707f), (0x4003, 0x707f), (0x5003, 0x707f), (0x6003, 0x707f),
    (0x23, 0x707f), (0x1023, 0x707f), (0x2023, 0x707f), (0x3023, 0x707f),
    (0x13, 0x707f), (0x2013, 0x707f), (0x3013, 0x707f), (0x4013, 0x707f), (0x6013, 0x707f), (0x7013, 0x707f),
    (0x1013, 0xfc00_707f), (0x5013, 0xfc00_707f), (0x4000_5013, 0xfc00_707f),
    (0x1013, 0xfe00_707f), (0x5013, 0xfe00_707f), (0x4000_5013, 0xfe00_707f),
    (0x33, 0xfe00_707f), (0x4000_0033, 0xfe00_707f), (0x1033, 0xfe00_707f), (0x2033, 0xfe00_707f), (0x3033, 0xfe00_707f),
    (0x4033, 0xfe00_707f), (0x5033, 0xfe00_707f), (0x4000_5033, 0xfe00_707f), (0x6033, 0xfe00_707f), (0x7033, 0xfe00_707f),
    (0x73, 0xffff_ffff), (0x0010_0073, 0xffff_ffff),
    (0x1b, 0x707f), (0x101b, 0xfe00_707f), (0x501b, 0xfe00_707f), (0x4000_501b, 0xfe00_707f),
    (0x3b, 0xfe00_707f), (0x4000_003b, 0xfe00_707f), (0x103b, 0xfe00_707f), (0x503b, 0xfe00_707f), (0x4000_503b, 0xfe00_707f),
    // M
    (0x0200_0033, 0xfe00_707f), (0x0200_1033, 0xfe00_707f), (0x0200_2033, 0xfe00_707f), (0x0200_3033, 0xfe00_707f),
    (0x0200_4033, 0xfe00_707f), (0x0200_5033, 0xfe00_707f), (0x0200_6033, 0xfe00_707f), (0x0200_7033, 0xfe00_707f),
    (0x0200_003b, 0xfe00_707f), (0x0200_403b, 0xfe00_707f), (0x0200_503b, 0xfe00_707f), (0x0200_603b, 0xfe00_707f), (0x0200_703b, 0xfe00_707f),
    // A
    (0x1000_202f, 0xf800_707f), (0x1800_202f, 0xf800_707f), (0x0800_202f, 0xf800_707f), (0x0000_202f, 0xf800_707f),
    (0x2000_202f, 0xf800_707f), (0x6000_202f, 0xf800_707f), (0x4000_202f, 0xf800_707f), (0x8000_202f, 0xf800_707f),
    (0xa000_202f, 0xf800_707f), (0xc000_202f, 0xf800_707f), (0xe000_202f, 0xf800_707f),
    (0x1000_302f, 0xf800_707f), (0x1800_302f, 0xf800_707f), (0x0800_302f, 0xf800_707f), (0x0000_302f, 0xf800_707f),
    (0x2000_302f, 0xf800_707f), (0x6000_302f, 0xf800_707f), (0x4000_302f, 0xf800_707f), (0x8000_302f, 0xf800_707f),
    (0xa000_302f, 0xf800_707f), (0xc000_302f, 0xf800_707f), (0xe000_302f, 0xf800_707f),
    // Zicsr
    (0x1073, 0x707f), (0x2073, 0x707f), (0x3073, 0x707f), (0x5073, 0x707f), (0x6073, 0x707f), (0x7073, 0x707f),
    // Zicntr
    (0xc000_2073, 0xffff_f07f), (0xc010_2073, 0xffff_f07f), (0xc020_2073, 0xffff_f07f),
    (0xc800_2073, 0xffff_f07f), (0xc810_2073, 0xffff_f07f), (0xc820_2073, 0xffff_f07f),
    // Zifencei / fence, Zicboz
    (0x0f, 0x707f), (0x100f, 0x707f), (0x0040_200f, 0xfff0_7fff), (0x0040_200f, 0xfff0_7fff),
    // Zicfiss
    (0xce10_4073, 0xffff_ffff), (0xce50_4073, 0xffff_ffff), (0xcdc0_c073, 0xffff_ffff), (0xcdc2_c073, 0xffff_ffff),
    (0xcdc0_4073, 0xffff_f07f), (0xcdc0_4073, 0xfff0_707f), (0x4800_202f, 0xf800_707f), (0x4800_302f, 0xf800_707f),
    // Priv
    (0x1020_0073, 0xffff_ffff), (0x3020_0073, 0xffff_ffff), (0x1050_0073, 0xffff_ffff), (0x1200_0073, 0xfe00_7fff),
    // neighbours outside the tables
    (0x73, 0x707f), (0x2f, 0x7f), (0x0f, 0x7f), (0x33, 0x7f), (0x3b, 0x7f), (0x1b, 0x7f), (0x13, 0x7f), (0x4073, 0x707f),
];

/// (match, mask) of compressed encodings.
const T16: &[(u16, u16)] = &[
    (0x0000, 0xe003), (0x4000, 0xe003), (0x6000, 0xe003), (0xc000, 0xe003), (0xe000, 0xe003),
    (0x0001, 0xef83), (0x0001, 0xe003), (0x2001, 0xe003), (0x4001, 0xe003), (0x6101, 0xef83), (0x6001, 0xe003),
    (0x8001, 0xec03), (0x8401, 0xec03), (0x8801, 0xec03), (0x8c01, 0xfc63), (0x8c21, 0xfc63), (0x8c41, 0xfc63), (0x8c61, 0xfc63),
    (0x9c01, 0xfc63), (0x9c21, 0xfc63), (0xa001, 0xe003), (0xc001, 0xe003), (0xe001, 0xe003),
    (0x0002, 0xe003), (0x4002, 0xe003), (0x6002, 0xe003), (0x8002, 0xf07f), (0x8002, 0xf003), (0x9002, 0xffff),
    (0x9002, 0xf07f), (0x9002, 0xf003), (0xc002, 0xe003), (0xe002, 0xe003),
    (0x6081, 0xffff), (0x6281, 0xffff), (0x9c41, 0xfc63), (0x2000, 0xe003), (0xa002, 0xe003),
];

fn field(r: &mut Rng, width: u32) -> u32 {
    let m = if width == 32 { u32::MAX } else { (1 << width) - 1 };
    match r.below(8) {
        0 => 0,
        1 => m,
        2 => 1 << r.below(u64::from(width)),
        3 => m ^ (1 << r.below(u64::from(width))),
        4 => m >> 1,
        _ => r.next() as u32 & m,
    }
}

fn fill32(r: &mut Rng) -> u32 {
    match r.below(3) {
        0 => r.next() as u32,
        // operand-wise, with boundary values in each field
        1 => (field(r, 5) << 7) | (field(r, 3) << 12) | (field(r, 5) << 15) | (field(r, 12) << 20),
        _ => (field(r, 5) << 7) | (field(r, 3) << 12) | (field(r, 5) << 15) | (field(r, 5) << 20) | (field(r, 7) << 25),
    }
}

pub fn word32(r: &mut Rng) -> u32 {
    match r.below(20) {
        0 => r.next() as u32,
        1 => r.next() as u32 | 3,
        2 => {
            let (m, k) = *r.pick(T32);
            (m | (fill32(r) & !k)) ^ (1 << r.below(32))
        }
        _ => {
            let (m, k) = *r.pick(T32);
            m | (fill32(r) & !k)
        }
    }
}

pub fn word16(r: &mut Rng) -> u16 {
    match r.below(8) {
        0 => r.next() as u16,
        1 => {
            let (m, k) = *r.pick(T16);
            (m | (field(r, 16) as u16 & !k)) ^ (1 << r.below(16))
        }
        _ => {
            let (m, k) = *r.pick(T16);
            m | (field(r, 16) as u16 & !k)
        }
    }
}

/// A pool of words of one encoding: all calls run the same code, where they share state if they do.
pub fn themed(r: &mut Rng, n: usize) -> Vec<(u32, bool, bool)> {
    let wide = r.pct(60);
    let (m, k) = if wide {
        *r.pick(T32)
    } else {
        let (m, k) = *r.pick(T16);
        (u32::from(m), u32::from(k) | 0xffff_0000)
    };
    let flip = *r.pick(&[0, 50, 100]);
    let first = r.pct(60);
    (0..n)
        .map(|i| {
            let fill = if wide { fill32(r) } else { field(r, 16) };
            (m | (fill & !k), wide, first ^ (i > 0 && r.pct(flip)))
        })
        .collect()
}

/// A pool of (word, wide, rv64) full of near-collisions: the same word for the other ISA width,
/// words that differ in one bit or share one half, the compressed reading of a word's low half.
/// State carried from one call to another is most likely to show between such neighbours.
pub fn pool(r: &mut Rng, n: usize) -> Vec<(u32, bool, bool)> {
    let mut v: Vec<(u32, bool, bool)> = Vec::with_capacity(n);
    while v.len() < n {
        if v.is_empty() || r.pct(40) {
            let wide = r.pct(65);
            let w = if wide { word32(r) } else { u32::from(word16(r)) };
            v.push((w, wide, r.pct(50)));
            continue;
        }
        let (w, wide, x) = *r.pick(&v);
        let lim = if wide { 32 } else { 16 };
        let e = match r.below(8) {
            0..=2 => (w, wide, !x),
            3 => (w ^ (1 << r.below(lim)), wide, x),
            4 if wide => ((w & 0xffff) | (word32(r) & 0xffff_0000), true, x),
            5 if wide => ((w & 0xffff_0000) | (word32(r) & 0xffff), true, x),
            6 if wide => (w & 0xffff, false, x),
            7 if wide => {
                // same opcode bits, other operands
                (((w & 0xfe00_707f) | (fill32(r) & !0xfe00_707f)), true, x)
            }
            _ => {
                let mut f = field(r, lim as u32);
                f = (w & 0xe003) | (f & !0xe003);
                if wide { (w ^ 0x8000_0000, true, x) } else { (f & 0xffff, false, x) }
            }
        };
        v.push(e);
    }
    v
}

/// The same encoding with other operands.
pub fn other_operands(r: &mut Rng, w: u32, wide: bool) -> u32 {
    if wide {
        let of = T32.iter().filter(|(m, k)| w & k == *m).max_by_key(|(_, k)| k.count_ones());
        let fill = fill32(r);
        of.map_or(fill, |(m, k)| m | (fill & !k))
    } else {
        let of = T16.iter().filter(|(m, k)| w as u16 & k == *m).max_by_key(|(_, k)| k.count_ones());
        let fill = field(r, 16);
        of.map_or(fill, |(m, k)| u32::from(*m) | (fill & u32::from(!k)))
    }
}

/// A few encodings, each with many different operands.
pub fn deep(r: &mut Rng, n: usize) -> Vec<(u32, bool, bool)> {
    let kinds = *r.pick(&[1, 2, 4, 8]);
    (0..kinds).flat_map(|_| themed(r, n / kinds)).collect()
}

/// Every encoding of the tables once.
pub fn catalogue(r: &mut Rng) -> Vec<(u32, bool, bool)> {
    let wide: Vec<_> = T32.iter().map(|(m, k)| (m | (fill32(r) & !k), true, r.pct(55))).collect();
    let half = T16.iter().map(|(m, k)| (u32::from(m | (field(r, 16) as u16 & !k)), false, r.pct(55)));
    wide.into_iter().chain(half.collect::<Vec<_>>()).collect()
}
