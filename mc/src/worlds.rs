// The worlds shared by C03 and C07 (included after `mod arr`).
pub fn dims_of<B: arr::Kind>() -> Vec<usize>
where B: DimsOf {
    B::dims_of()
}
pub trait DimsOf {
    fn dims_of() -> Vec<usize>;
}
impl DimsOf for f64 {
    fn dims_of() -> Vec<usize> { vec![] }
}
impl DimsOf for (f64, f64) {
    fn dims_of() -> Vec<usize> { vec![2] }
}
impl<E: DimsOf, const N: usize> DimsOf for [E; N] {
    fn dims_of() -> Vec<usize> { [vec![N], E::dims_of()].concat() }
}

// scalar target: everything is typed
world! {
    by_scalar: f64, [f64; 3];
    sorts { S: f64 => f64; V: [f64; 3] => [f64; 3]; W: [f64; 2] => [f64; 2]; M: [[f64; 3]; 2] => [[f64; 3]; 2]; N: [[f64; 2]; 3] => [[f64; 2]; 3]; Q: [[f64; 3]; 3] => [[f64; 3]; 3]; }
    x { S } y { V }
    lin { S V M }
    non { S V M }
    add { (S S S) (V V V) (S V V) (V S V) (M M M) (S M M) (M S M) }
    mul { (S S S) (V V V) (S V V) (V S V) (M M M) (S M M) (M S M) }
    pow { S }
    con { (0 S S S) (1 S S S) (0 S V V) (0 V S V) (0 S W W) (0 W V M) (0 V W N) (0 V V Q) (0 M S M) (0 S M M) (1 V V S) (1 W W S) (1 N M Q) (1 M Q M) (1 Q Q Q) (1 W M V) (1 V N W) (1 V Q V) (1 Q V V) }
}
world! {
    by_scalar_rank3: f64, [[[f64; 3]; 2]; 2];
    sorts { S: f64 => f64; R: [[[f64; 3]; 2]; 2] => [[[f64; 3]; 2]; 2]; U: (f64, f64) => (f64, f64); O: [[[[[f64; 2]; 1]; 3]; 2]; 1] => [[[[[f64; 2]; 1]; 3]; 2]; 1]; }
    x { S } y { R }
    lin { S R U O }
    non { S R U }
    add { (S S S) (R R R) (S R R) (R S R) (U U U) (O O O) (S O O) }
    mul { (S S S) (R R R) (S R R) (R S R) (U U U) (O O O) (O S O) }
    pow { S }
    con { (0 S S S) (1 S S S) }
}
world! {
    by_scalar_tuple: f64, (f64, f64);
    sorts { S: f64 => f64; U: (f64, f64) => (f64, f64); }
    x { S } y { U }
    lin { S U }
    non { S U }
    add { (S S S) (U U U) }
    mul { (S S S) (U U U) }
    pow { S }
    con { (0 S S S) (1 S S S) }
}
// vector targets
world! {
    by_vector: [f64; 3], f64;
    sorts { S: f64 => [f64; 3]; V: [f64; 3] => [[f64; 3]; 3]; W: [f64; 2] => [[f64; 3]; 2]; M: [[f64; 3]; 2] => [[[f64; 3]; 3]; 2]; }
    x { V } y { S }
    lin { S V W M }
    non { S }
    add { (S S S) (V V V) (W W W) (M M M) }
    mul { (S S S) }
    pow { }
    con { (0 S S S) (0 V S V) (0 W S W) (0 S V V) (1 V V S) (1 W W S) }
}
world! {
    by_vector2: [f64; 2], [f64; 3];
    sorts { S: f64 => [f64; 2]; V: [f64; 3] => [[f64; 2]; 3]; W: [f64; 2] => [[f64; 2]; 2]; L: [f64; 4] => [[f64; 2]; 4]; }
    x { W } y { V }
    lin { S V W }
    non { S }
    add { (S S S) (V V V) (W W W) (L L L) }
    mul { (S S S) }
    pow { }
    con { (0 S S S) (0 V S V) (0 W S W) (0 S W W) (1 V V S) (1 W W S) (0 L S L) (1 L L S) }
}
world! {
    by_vector1: [f64; 1], [f64; 2];
    sorts { S: f64 => [f64; 1]; V: [f64; 1] => [[f64; 1]; 1]; W: [f64; 2] => [[f64; 1]; 2]; }
    x { V } y { W }
    lin { S V W }
    non { S }
    add { (S S S) (V V V) (W W W) }
    mul { (S S S) }
    pow { }
    con { (0 S S S) (0 V S V) (0 W S W) (0 S V V) (1 V V S) (1 W W S) }
}
world! {
    by_vector0: [f64; 0], [f64; 2];
    sorts { S: f64 => [f64; 0]; V: [f64; 0] => [[f64; 0]; 0]; W: [f64; 2] => [[f64; 0]; 2]; }
    x { V } y { W }
    lin { S V W }
    non { S }
    add { (S S S) (V V V) (W W W) }
    mul { (S S S) }
    pow { }
    con { (0 S S S) (0 V S V) (0 W S W) (0 S V V) (1 V V S) (1 W W S) }
}
// matrix targets
world! {
    by_matrix: [[f64; 3]; 2], [f64; 2];
    sorts { S: f64 => [[f64; 3]; 2]; V: [f64; 2] => [[[f64; 3]; 2]; 2]; M: [[f64; 3]; 2] => [[[[f64; 3]; 2]; 3]; 2]; R: [[[f64; 2]; 2]; 3] => [[[[[f64; 3]; 2]; 2]; 2]; 3]; }
    x { M } y { V }
    lin { S V M R }
    non { S }
    add { (S S S) (V V V) (M M M) (R R R) }
    mul { (S S S) }
    pow { }
    con { (0 S S S) }
}
world! {
    by_matrix_square: [[f64; 2]; 2], f64;
    sorts { S: f64 => [[f64; 2]; 2]; M: [[f64; 2]; 2] => [[[[f64; 2]; 2]; 2]; 2]; U: (f64, f64) => [[[f64; 2]; 2]; 2]; }
    x { M } y { S }
    lin { S M U }
    non { S }
    add { (S S S) (M M M) (U U U) }
    mul { (S S S) }
    pow { }
    con { (0 S S S) }
}
world! {
    by_rank3: [[[f64; 2]; 3]; 1], [[f64; 3]; 2];
    sorts { S: f64 => [[[f64; 2]; 3]; 1]; V: [f64; 4] => [[[[f64; 2]; 3]; 1]; 4]; M: [[f64; 3]; 2] => [[[[[f64; 2]; 3]; 1]; 3]; 2]; }
    x { } y { M }
    lin { S V M }
    non { S }
    add { (S S S) (V V V) (M M M) }
    mul { (S S S) }
    pow { }
    con { }
}
// tuple targets
world! {
    by_tuple: (f64, f64), f64;
    sorts { S: f64 => (f64, f64); V: [f64; 3] => [[f64; 2]; 3]; M: [[f64; 3]; 2] => [[[f64; 2]; 3]; 2]; }
    x { } y { S }
    lin { S V M }
    non { }
    add { (S S S) (V V V) (M M M) }
    mul { }
    pow { }
    con { }
}
// tuples by vectors
world! {
    tuple_by_vector: [f64; 3], (f64, f64);
    sorts { S: f64 => [f64; 3]; V: [f64; 3] => [[f64; 3]; 3]; U: (f64, f64) => [[f64; 3]; 2]; }
    x { V } y { U }
    lin { S V U }
    non { S }
    add { (S S S) (V V V) (U U U) }
    mul { (S S S) }
    pow { }
    con { (0 S S S) (0 V S V) (1 V V S) }
}
// larger dimensions
world! {
    by_scalar_large: f64, [f64; 33];
    sorts { S: f64 => f64; V: [f64; 33] => [f64; 33]; W: [f64; 17] => [f64; 17]; M: [[f64; 17]; 33] => [[f64; 17]; 33]; Q: [[f64; 17]; 17] => [[f64; 17]; 17]; U: [[f64; 33]; 17] => [[f64; 33]; 17]; }
    x { S } y { V }
    lin { S V M }
    non { S V M }
    add { (S S S) (V V V) (S V V) (V S V) (M M M) (S M M) }
    mul { (S S S) (V V V) (S V V) (V S V) (M M M) (M S M) }
    pow { }
    con { (0 S V V) (0 V S V) (0 V W M) (1 V V S) (1 V M W) (1 M Q M) (1 Q W W) (0 M S M) (1 U M Q) }
}
world! {
    by_vector_large: [f64; 17], f64;
    sorts { S: f64 => [f64; 17]; V: [f64; 17] => [[f64; 17]; 17]; W: [f64; 33] => [[f64; 17]; 33]; M: [[f64; 3]; 2] => [[[f64; 17]; 3]; 2]; }
    x { V } y { S }
    lin { S V W M }
    non { S }
    add { (S S S) (V V V) (W W W) (M M M) }
    mul { (S S S) }
    pow { }
    con { (0 S S S) (0 V S V) (0 W S W) (1 V V S) }
}
world! {
    by_matrix_large: [[f64; 9]; 5], [f64; 16];
    sorts { S: f64 => [[f64; 9]; 5]; V: [f64; 16] => [[[f64; 9]; 5]; 16]; M: [[f64; 9]; 5] => [[[[f64; 9]; 5]; 9]; 5]; }
    x { M } y { V }
    lin { S V M }
    non { S }
    add { (S S S) (V V V) (M M M) }
    mul { (S S S) }
    pow { }
    con { (0 S S S) }
}
