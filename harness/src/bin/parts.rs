fn main(){let m=forust_ml::GradientBooster::default(); println!("{}",m.iterations);}
