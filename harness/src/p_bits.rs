//! C18: bit-pattern subsets.
use crate::{check, fw::*};
use nanvm_lib::common::bit_subset64::BitSubset64;

pub fn prop() -> Prop {
    Prop {
        id: "C18",
        rule: "Random and structured patterns (tag inside mask), words that are members or off by one bit, splits by any free bits, pairs built to overlap, to conflict or to be unrelated. Non-trivial: the pattern has at least one fixed and one free bit; pairs also differ.",
        assumptions: &[],
        parts: &[
            Part { name: "exhaustive-4-bit", quick: 4096, thorough: 4096, run: exhaustive },
            Part { name: "one-pattern", quick: 3_000_000, thorough: 60_000_000, run: one },
            Part { name: "pair", quick: 3_000_000, thorough: 60_000_000, run: pair },
            Part { name: "typed", quick: 500_000, thorough: 10_000_000, run: typed },
        ],
    }
}

fn word(s: &mut Src) -> u64 {
    match s.weighted(&[2, 3, 3, 2]) {
        0 => 1u64 << s.below(64),
        1 => {
            let a = s.below(65);
            let b = s.below(64);
            let m = if a == 64 { u64::MAX } else { (1u64 << a) - 1 };
            m.rotate_left(b as u32)
        }
        2 => s.bits(),
        _ => *s.pick(&[0, u64::MAX, 0xFFF8_0000_0000_0000, 0xFFFC_0000_0000_0000, 0xFFFF_FFFF_FFFF]),
    }
}

/// (tag, mask) with tag inside mask.
fn pattern(s: &mut Src) -> (u64, u64) {
    let mask = word(s);
    let tag = if s.chance(1, 3) { mask } else { word(s) & mask };
    (tag, mask)
}

/// The word's fixed bits agree, bit by bit.
fn member(tag: u64, mask: u64, w: u64) -> bool {
    (0..64).all(|i| (mask >> i) & 1 == 0 || (tag >> i) & 1 == (w >> i) & 1)
}

fn flip(s: &mut Src, w: u64) -> u64 {
    w ^ (1u64 << s.below(64))
}

fn near(s: &mut Src, tag: u64, mask: u64) -> u64 {
    let w = tag | (word(s) & !mask);
    match s.below(3) {
        0 => w,
        1 => flip(s, w),
        _ => word(s),
    }
}

fn make(s: &mut Src, tag: u64, mask: u64) -> BitSubset64<u64> {
    match s.below(3) {
        0 => BitSubset64::from_tag_and_mask(tag, mask),
        1 => BitSubset64::from_tag_and_superposition(tag, !mask),
        _ => BitSubset64::from_tag_and_union(tag, tag | !mask),
    }
}

fn laws(b: BitSubset64<u64>, tag: u64, mask: u64, w: u64) -> CaseResult {
    check!(b.tag == tag && b.mask == mask, "pattern tag={tag:#x} mask={mask:#x} stored as tag={:#x} mask={:#x}", b.tag, b.mask);
    check!(b.has(w) == member(tag, mask, w), "tag={tag:#x} mask={mask:#x} has({w:#x}) = {}", b.has(w));
    check!(b.superposition() == !mask, "free bits of mask {mask:#x} are {:#x}", b.superposition());
    // the union is the or of all members
    check!(b.union() == tag | !mask, "union of tag={tag:#x} mask={mask:#x} is {:#x}", b.union());
    check!(b.has(tag) && b.has(b.union()), "smallest/largest member not contained");
    Ok(())
}

fn exhaustive(s: &mut Src, c: &mut Ctx) -> CaseResult {
    // all patterns over 4 bits at every nibble-ish position, all words, all splits
    let i = s.enumerate(4096);
    let (t, m, sub) = (i & 15, (i >> 4) & 15, (i >> 8) & 15);
    let shift = 13 * (i % 5) as u32 % 60;
    c.show(|| format!("tag={t:04b} mask={m:04b} other={sub:04b} << {shift}"));
    if t & m != t {
        let r = guarded(|| BitSubset64::<u64>::from_tag_and_mask(t, m));
        check!(r.is_err(), "tag {t:#x} outside mask {m:#x} accepted");
        return Ok(());
    }
    c.nt(m != 0 && m != 15, &i);
    let full = !(15u64 << shift);
    // fixed zeros above the nibble
    let (tag, mask) = (t << shift, (m << shift) | full);
    let b = BitSubset64::<u64>::from_tag_and_mask(tag, mask);
    for w in 0..16u64 {
        laws(b, tag, mask, w << shift)?;
        laws(b, tag, mask, (w << shift) ^ (1 << 63))?;
    }
    let sm = sub << shift;
    let r = guarded(|| b.split(sm));
    if sub == 0 || sm & mask != 0 {
        check!(r.is_err(), "split of mask {mask:#x} by {sm:#x} accepted");
    } else {
        let (x, y) = r?;
        for w in 0..16u64 {
            let w = w << shift;
            check!(x.has(w) == (b.has(w) && w & sm == 0), "first half wrong at {w:#x}");
            check!(y.has(w) == (b.has(w) && w & sm == sm), "second half wrong at {w:#x}");
        }
    }
    Ok(())
}

fn one(s: &mut Src, c: &mut Ctx) -> CaseResult {
    let (tag, mask) = pattern(s);
    let w = near(s, tag, mask);
    let b = make(s, tag, mask);
    c.show(|| format!("tag={tag:#018x} mask={mask:#018x} word={w:#018x}"));
    c.nt(mask != 0 && mask != u64::MAX, &(tag, mask, w));
    c.label(if b.has(w) { "member" } else { "non-member" });
    laws(b, tag, mask, w)?;
    // tag == mask construction
    let t = BitSubset64::<u64>::from_tag(tag);
    check!(t.tag == tag && t.mask == tag, "from_tag({tag:#x})");
    // payload round trip
    let p = word(s) & !mask;
    let stored = b.raw_value_to_subset_value(p);
    check!(b.has(stored), "payload {p:#x} stored outside the subset");
    check!(b.typed_value_to_subset_value(p) == stored, "typed and raw storing differ");
    check!(b.subset_value_to_typed_value(stored) == p, "payload {p:#x} read back as {:#x}", b.subset_value_to_typed_value(stored));
    // split by one free bit, and by several
    let free = !mask;
    if free != 0 {
        let sub = if s.coin() { free & free.wrapping_neg() } else { free & word(s) };
        if sub != 0 {
            let (x, y) = b.split(sub);
            laws(x, tag, mask | sub, w)?;
            laws(y, tag | sub, mask | sub, w)?;
            check!(!(x.has(w) && y.has(w)), "halves overlap at {w:#x}");
            if sub.count_ones() == 1 {
                c.label("split by one bit");
                check!((x.has(w) || y.has(w)) == b.has(w), "halves do not cover at {w:#x}");
            }
        }
    }
    let bad = word(s);
    if bad & mask != 0 || bad == 0 {
        check!(guarded(|| b.split(bad)).is_err(), "split by fixed bits {bad:#x} accepted");
    }
    Ok(())
}

fn pair(s: &mut Src, c: &mut Ctx) -> CaseResult {
    let (t1, m1) = pattern(s);
    let (t2, m2) = match s.weighted(&[2, 3, 2]) {
        0 => pattern(s),
        1 => {
            // agrees with the first on common fixed bits: they intersect
            let m2 = word(s);
            let free = word(s);
            ((t1 & m2 & m1) | (free & m2 & !m1), m2)
        }
        _ => {
            // same fixed bits, other tag
            let m2 = m1;
            (word(s) & m2, m2)
        }
    };
    let (a, b) = (BitSubset64::<u64>::from_tag_and_mask(t1, m1), BitSubset64::<u64>::from_tag_and_mask(t2, m2));
    let w = if s.coin() { near(s, t1, m1) } else { near(s, t1 | t2, m1 | m2) };
    c.show(|| format!("a: tag={t1:#x} mask={m1:#x}; b: tag={t2:#x} mask={m2:#x}; word={w:#x}"));
    c.nt((t1, m1) != (t2, m2) && m1 != 0 && m2 != 0, &(t1, m1, t2, m2, w));
    let conflict = (t1 ^ t2) & m1 & m2 != 0;
    let and = guarded(|| a.and(b));
    if conflict {
        c.label("disjoint");
        check!(and.is_err(), "intersection of disjoint patterns accepted");
    } else {
        c.label("overlapping");
        let x = and?;
        check!(x.has(w) == (a.has(w) && b.has(w)), "intersection wrong at {w:#x}");
        laws(x, t1 | t2, m1 | m2, w)?;
    }
    // the tightest pattern over both: a bit is fixed iff fixed in both and equal
    let om = m1 & m2 & !(t1 ^ t2);
    let o = a.or_unchecked(b);
    laws(o, t1 & om, om, w)?;
    if a.has(w) || b.has(w) {
        check!(o.has(w), "union misses {w:#x}");
    }
    let or = guarded(|| a.or(b));
    if m1 == m2 {
        let o = or?;
        laws(o, t1 & om, om, w)?;
    } else {
        check!(or.is_err(), "checked union of patterns with different free bits accepted");
    }
    Ok(())
}

fn typed(s: &mut Src, c: &mut Ctx) -> CaseResult {
    let w = word(s);
    let mask = w & !1;
    let tag = word(s) & mask;
    let v = s.coin();
    c.show(|| format!("tag={tag:#x} mask={mask:#x} bool={v}"));
    c.nt(mask != 0, &(tag, mask, v));
    let b = BitSubset64::<u64>::from_tag_and_mask(tag, mask).cast::<bool>();
    let x = b.typed_value_to_subset_value(v);
    check!(b.has(x) && b.subset_value_to_typed_value(x) == v, "bool {v} in tag={tag:#x} mask={mask:#x}");
    let x = tag;
    check!(!b.subset_value_to_typed_value(x), "no free bit set reads as true");
    let p = word(s) & !mask;
    let q = BitSubset64::<u64>::from_tag_and_mask(tag, mask).cast::<*const u8>();
    let y = q.typed_value_to_subset_value(p as *const u8);
    check!(q.has(y) && q.subset_value_to_typed_value(y) as u64 == p, "pointer {p:#x} in tag={tag:#x} mask={mask:#x}");
    Ok(())
}
