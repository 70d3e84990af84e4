fn main(){let a:Vec<String>=std::env::args().collect();println!("{}",simcore::tape::run_seed(a[1].parse().unwrap(),&a[2],a[3].parse().unwrap(),a[4].parse().unwrap()));}
