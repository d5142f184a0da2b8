//@define C01
//@include w.rs
