//! Every string over an alphabet.
use crate::ctx::Ctx;

/// The pieces a string is put together from.
pub struct Strings<'a> {
    pub alphabet: &'a [&'a str],
    pub len: usize,
}
impl Strings<'_> {
    pub fn count(&self) -> u64 {
        (self.alphabet.len() as u64).pow(self.len as u32)
    }
    pub fn get(&self, mut i: u64, s: &mut String) {
        s.clear();
        let k = self.alphabet.len() as u64;
        for _ in 0..self.len {
            s.push_str(self.alphabet[(i % k) as usize]);
            i /= k;
        }
    }
}

/// All strings of up to `max` pieces.
pub fn upto(alphabet: &[&str], max: usize) -> Vec<String> {
    let mut all = vec![];
    let mut s = String::new();
    for len in 0..=max {
        let x = Strings { alphabet, len };
        for i in 0..x.count() {
            x.get(i, &mut s);
            all.push(s.clone());
        }
    }
    all
}

/// Long contents: a mark before, after, between and around many fillers.
pub struct Longs {
    pub fills: &'static [&'static str],
    pub marks: &'static [&'static str],
    pub sizes: Vec<usize>,
}
impl Longs {
    pub fn count(&self) -> u64 {
        (self.fills.len() * self.marks.len() * self.sizes.len() * 4) as u64
    }
    /// The content, how many of which filler there are, and which mark.
    pub fn get(&self, i: u64) -> (String, usize, &'static str, &'static str, u64) {
        let shape = i % 4;
        let mut i = i as usize / 4;
        let fill = self.fills[i % self.fills.len()];
        i /= self.fills.len();
        let mark = self.marks[i % self.marks.len()];
        let n = self.sizes[i / self.marks.len()];
        let many = fill.repeat(n);
        let s = match shape {
            0 => many + mark,
            1 => format!("{mark}{many}"),
            2 => format!("{many}{mark}{many}"),
            _ => format!("{mark}{many}{mark}"),
        };
        (s, n, fill, mark, shape)
    }
    pub fn describe(&self) -> String {
        format!(
            "each of {:?} before, after, between and around each of {:?} repeated {} to {} times ({} sizes)",
            self.marks,
            self.fills,
            self.sizes.first().unwrap_or(&0),
            self.sizes.last().unwrap_or(&0),
            self.sizes.len()
        )
    }
}

/// How often a filler is repeated: every small number, and around powers of two and of ten.
pub fn long_sizes(ctx: &Ctx, top: usize) -> Vec<usize> {
    let (all, last, by) = ctx.pick((40usize, 12u32, 1usize), (300, 16, 3));
    let mut v: Vec<usize> = (0..=all).collect();
    for k in 7..=last {
        v.extend((1 << k) - by..=(1 << k) + by);
    }
    for t in [100, 1000, 10_000] {
        if t < 1 << last {
            v.extend(t - 1..=t + 1);
        }
    }
    v.push(65_536);
    v.retain(|n| *n <= top);
    v.sort();
    v.dedup();
    v
}
