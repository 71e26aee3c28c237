fn main() {
  std::panic::set_hook(Box::new(|_| {}));
  let seqs: Vec<Vec<f64>> = vec![vec![], vec![2.0], vec![1.0, 3.0], vec![3.0, 2.0, 2.0], vec![0.0, 1.0, 2.0, 3.0], vec![2.0, 0.0, 3.0, 1.0, 3.0]];
  for (name, f) in renplex::ALL {
    for (i, x) in seqs.iter().enumerate() {
      for (j, y) in seqs.iter().enumerate() {
        if j == 5 { continue; }
        for n in 0..4 {
          let r = std::panic::catch_unwind(|| f(x, y, n));
          println!("{} {} {} {} {}", name, i, j, n, match r { Ok(v) => v.iter().map(|a| (a + 0.0).to_string()).collect::<Vec<_>>().join(","), Err(_) => "PANIC".to_string() });
        }
      }
    }
  }
}
