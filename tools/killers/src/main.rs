//! Searches for inputs that tell the rules of the specification from rules that differ in one place.
//! Not part of any check: its output (corpus/morph_killers.txt, corpus/grammar_killers.txt) is a source of inputs; what is
//! right for them is still decided by TLC.
mod grammar;
mod morph;
pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 ^= self.0 << 13;
        self.0 ^= self.0 >> 7;
        self.0 ^= self.0 << 17;
        self.0.wrapping_mul(0x2545F4914F6CDD1D) >> 16
    }
    pub fn below(&mut self, n: usize) -> usize {
        (self.next() % n as u64) as usize
    }
    pub fn chance(&mut self, p: f64) -> bool {
        (self.next() & 0xffffff) as f64 / (0x1000000 as f64) < p
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len())]
    }
}
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let rules: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(&a[2]).unwrap()).unwrap();
    let run = std::thread::Builder::new().stack_size(1 << 30);
    match a[1].as_str() {
        "morph" => run.spawn(move || morph::main(&rules, &a[3..])).unwrap().join().unwrap(),
        "grammar" => run.spawn(move || grammar::main(&rules, &a[3..])).unwrap().join().unwrap(),
        _ => panic!(),
    }
}
