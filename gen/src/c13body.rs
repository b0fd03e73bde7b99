// C13: a generated context maps each identifier to its own field.
aegir::ids!(A::a, B::b, D::d, Xy, Θ, Out::o);

/// Contents of kind `B`, told apart by their number.
pub trait Val: Buffer + Clone + PartialEq + Debug + 'static {
    fn mk(k: usize) -> Self;
    fn field(k: usize) -> Self::Field;
}
macro_rules! val_impl {
    ($t:ty, $f:ty, |$k:ident| $e:expr) => {
        impl Val for $t {
            fn mk($k: usize) -> Self { $e }
            fn field(k: usize) -> $f { k as $f + 0.25 }
        }
    };
}
val_impl!(f64, f64, |k| k as f64 + 0.5);
val_impl!(f32, f32, |k| k as f32 + 0.5);
val_impl!([f64; 2], f64, |k| [k as f64 + 0.5, -(k as f64)]);
val_impl!([f64; 3], f64, |k| [k as f64 + 0.5, -(k as f64), 1.]);
val_impl!((f64, f64), f64, |k| (k as f64 + 0.5, -(k as f64)));
val_impl!(Vec<f64>, f64, |k| (0..k % 4).map(|i| (k * 10 + i) as f64).collect());
val_impl!([[f64; 3]; 2], f64, |k| [[k as f64, 1., 2.], [3., 4., -(k as f64)]]);
val_impl!([[[f64; 2]; 1]; 2], f64, |k| [[[k as f64, 1.]], [[2., -(k as f64)]]]);
val_impl!([f64; 0], f64, |_k| []);

/// Contents number `k`: below 100 as they are, then homogeneous, then diagonal.
pub fn val<B: Val>(k: usize) -> B { spec::<B>(k).unwrap() }
pub fn spec<B: Val>(k: usize) -> Spec<B> {
    match k / 100 {
        0 => Spec::Raw(B::mk(k)),
        1 => Spec::Full(B::mk(k - 100).shape(), B::field(k - 100)),
        _ => Spec::Diagonal(B::mk(k - 200).shape(), B::field(k - 200)),
    }
}

pub struct Slot<L> {
    name: &'static str,
    cache: bool,
    init: Option<usize>,
    look: Box<dyn Fn(&mut L, Option<usize>) -> Option<String>>,
    put: Box<dyn Fn(&mut L, usize, bool)>,
    /// the field itself: set or emptied behind the context's back
    poke: Option<Box<dyn Fn(&mut L, Option<usize>)>>,
}

fn look<L, I: Identifier, B: Val>(l: &mut L, i: I, name: &str, want: Option<B>) -> Option<String>
where
    L: Read<I, Buffer = B>,
{
    let shape = want.as_ref().map(|b| format!("{:?}", b.shape()));
    macro_rules! cmp {
        ($what:expr, $got:expr, $want:expr) => {
            let (got, want) = (guarded(|| $got), $want);
            if got.as_ref().ok() != Some(&want) {
                return Some(format!("{} of {} is {:?}, the field holds {:?}", $what, name, got, want));
            }
        };
    }
    cmp!("read", l.read(i), want.clone());
    cmp!("read_spec", l.read_spec(i).map(|s| s.unwrap()), want.clone());
    cmp!("shape of read_spec", l.read_spec(i).map(|s| format!("{:?}", s.shape())), shape.clone());
    cmp!("read_shape", l.read_shape(i).map(|s| format!("{:?}", s)), shape.clone());
    let v = i.into_var();
    cmp!("evaluate", v.evaluate(&mut *l).ok(), want.clone());
    cmp!("evaluate_spec", v.evaluate_spec(&mut *l).ok().map(|s| s.unwrap()), want.clone());
    cmp!("evaluate_shape", v.evaluate_shape(&mut *l).ok().map(|s| format!("{:?}", s)), shape.clone());
    None
}
fn put<L, I: Identifier, B: Val>(l: &mut L, i: I, k: usize, lifted: bool)
where
    L: Write<I, Buffer = B>,
{
    if lifted { l.write_spec(i, spec::<B>(k)) } else { l.write(i, val::<B>(k)) }
}
pub fn plain<L: 'static, I: Identifier + 'static, B: Val>(name: &'static str, i: I, field: fn(&mut L) -> &mut B, init: usize) -> Slot<L>
where
    L: Write<I, Buffer = B>,
{
    Slot {
        name,
        cache: false,
        init: Some(init),
        look: Box::new(move |l, want| {
            let want = want.map(val::<B>);
            if Some(&*field(l)) != want.as_ref() {
                return Some(format!("the field of {} holds {:?}, not {:?}", name, field(l), want));
            }
            look(l, i, name, want)
        }),
        put: Box::new(move |l, k, s| put(l, i, k, s)),
        poke: Some(Box::new(move |l, k| if let Some(k) = k { *field(l) = val::<B>(k) })),
    }
}
pub fn cache<L: 'static, I: Identifier + 'static, B: Val>(name: &'static str, i: I, field: fn(&mut L) -> &mut Option<B>, init: Option<usize>) -> Slot<L>
where
    L: Write<I, Buffer = B>,
{
    Slot {
        name,
        cache: true,
        init,
        look: Box::new(move |l, want| {
            let want = want.map(val::<B>);
            if *field(l) != want {
                return Some(format!("the field of {} holds {:?}, not {:?}", name, field(l), want));
            }
            look(l, i, name, want)
        }),
        put: Box::new(move |l, k, s| put(l, i, k, s)),
        poke: Some(Box::new(move |l, k| *field(l) = k.map(val::<B>))),
    }
}
pub fn literal<L: 'static, I: Identifier + 'static, B: Val>(name: &'static str, i: I, init: usize) -> Slot<L>
where
    L: Write<I, Buffer = B>,
{
    Slot {
        name,
        cache: false,
        init: Some(init),
        look: Box::new(move |l, want| look(l, i, name, want.map(val::<B>))),
        put: Box::new(move |l, k, s| put(l, i, k, s)),
        poke: None,
    }
}

/// All histories of writes, up to the depth.
pub fn run<L: Context + AsRef<L>>(c: &mut Ctl, text: &'static str, mut l: L, slots: Vec<Slot<L>>, loose: fn(&L) -> bool) {
    let n = slots.len();
    let depth = if n == 0 { 0 } else if c.thorough() { 4 - (n > 2) as usize } else { 3 - (n > 3) as usize };
    let mut model: Vec<Option<usize>> = slots.iter().map(|s| s.init).collect();
    let mut ops: Vec<(usize, u8)> = vec![];
    for (i, s) in slots.iter().enumerate() {
        ops.extend((0..5).map(|o| (i, o)));
        if s.cache {
            ops.push((i, 5));
        }
        if s.poke.is_some() {
            ops.push((i, 6));
        }
    }
    let mut told: Vec<String> = vec![];
    for step in 0..=depth {
        for (s, m) in slots.iter().zip(&model) {
            c.step(1);
            let bad = (s.look)(&mut l, *m);
            c.check(bad.is_none(), || (format!("mapping of {}", if s.cache { "a cache field" } else { "a plain field" }), format!("{}: after [{}], {}", text, told.join(", "), bad.unwrap())));
        }
        c.check(loose(&l), || ("untagged field".into(), format!("{}: after [{}], an untagged field has changed", text, told.join(", "))));
        let p = &l as *const L;
        c.check(p == l.as_ref() as *const L && p == l.as_mut() as *mut L as *const L, || ("as_mut".into(), format!("{}: as_ref or as_mut is not the context itself", text)));
        if step == depth {
            break;
        }
        let k = c.choose(ops.len() + 1);
        if k == ops.len() {
            break;
        }
        let (i, o) = ops[k];
        let s = &slots[i];
        let v = 10 * (step + 1) + i;
        let (what, r) = match o {
            0 => (format!("write({}, #{})", s.name, v), guarded(|| (s.put)(&mut l, v, false))),
            1 => (format!("write_spec({}, Raw #{})", s.name, v), guarded(|| (s.put)(&mut l, v, true))),
            2 => (format!("write_spec({}, Full #{})", s.name, v), guarded(|| (s.put)(&mut l, 100 + v, true))),
            3 => (format!("write_spec({}, Diagonal #{})", s.name, v), guarded(|| (s.put)(&mut l, 200 + v, true))),
            4 => (format!("write({}, #{}) again", s.name, i), guarded(|| (s.put)(&mut l, i, false))),
            5 => (format!("empty {}", s.name), guarded(|| (s.poke.as_ref().unwrap())(&mut l, None))),
            _ => (format!("set the field of {} to #{}", s.name, v), guarded(|| (s.poke.as_ref().unwrap())(&mut l, Some(v)))),
        };
        told.push(what);
        if let Err(e) = r {
            c.fail("panics", format!("{}: [{}] panics: {}", text, told.join(", "), e));
            return;
        }
        model[i] = match o { 2 => Some(100 + v), 3 => Some(200 + v), 4 => Some(i), 5 => None, _ => Some(v) };
    }
    c.state((text, &model));
    c.desc(|| format!("{}: [{}]", text, told.join(", ")));
}

pub fn suites(check: &mut Check, parts: &[&'static [(usize, fn(&mut Ctl))]]) {
    let names = ["one field", "two fields", "three fields", "four and five fields", "ctx_type", "ctx", "special"];
    let what = ["every field kind (plain, cache in four spellings of Option, generic, generic cache, untagged) x 4 attribute styles", "every ordered pair of field kinds, attribute styles and field names by turns", "every triple over the kinds of the list", "every quadruple (thorough: quintuple) over the kinds of the list", "every list of plain and cache fields x buffer kinds of the list", "every list of buffer kinds", "bounds, where clauses, const generics, lifetimes, defaults, visibility, shared parameters, aliases, types and names from macro_rules!, cached nodes"];
    for i in 0..names.len() {
        let l: Vec<fn(&mut Ctl)> = parts.iter().flat_map(|p| p.iter()).filter(|p| p.0 == i).map(|p| p.1).collect();
        if !l.is_empty() {
            check.suite(names[i], format!("{} layouts: {}; all histories of write, write_spec in three representations, emptying and direct assignment of depth 3 (2 beyond three fields; thorough: 4, 3 beyond two), each identifier read in seven ways after each step", l.len(), what[i]), move |c| {
                let k = c.choose(l.len());
                l[k](c)
            });
        }
    }
}

/// Layouts the generator does not reach.
pub mod special {
    use super::*;

    #[derive(Context)]
    pub struct Bounds<T: Clone + Buffer, U> where U: Buffer, Vec<U>: Clone { #[id(A)] a: T, #[cache] #[id(B)] b: Option<U>, #[id(D)] d: U }
    fn bounds(c: &mut Ctl) {
        type L = Bounds<Vec<f64>, f64>;
        run::<L>(c, "struct with bounds and a where clause", L { a: val(0), b: None, d: val(2) }, vec![plain("A", A, |l| &mut l.a, 0), cache("B", B, |l| &mut l.b, None), plain("D", D, |l| &mut l.d, 2)], |_| true)
    }
    #[derive(Context)]
    pub struct Consts<const N: usize, const M: bool> { #[id(B)] a: [f64; N], #[id(A)] #[cache] b: Option<[f64; N]>, keep: [u8; N] }
    fn consts(c: &mut Ctl) {
        type L = Consts<2, true>;
        run::<L>(c, "struct with const generics", L { a: val(0), b: Some(val(1)), keep: [4, 5] }, vec![plain("B", B, |l| &mut l.a, 0), cache("A", A, |l| &mut l.b, Some(1))], |l| l.keep == [4, 5])
    }
    #[derive(Context)]
    pub struct Lives<'a, 'b: 'a, T: ?Sized> { note: &'a str, #[id(A)] a: f64, other: &'b T, #[cache] #[id(B)] pub(crate) b: Option<Vec<f64>> }
    fn lives(c: &mut Ctl) {
        type L = Lives<'static, 'static, str>;
        run::<L>(c, "struct with lifetimes", L { note: "n", a: val(0), other: "o", b: Some(val(1)) }, vec![plain("A", A, |l| &mut l.a, 0), cache("B", B, |l| &mut l.b, Some(1))], |l| l.note == "n" && l.other == "o")
    }
    #[derive(Context)]
    pub struct Default_<T = f64, U = Vec<T>> { #[id(A)] pub a: T, #[id(B)] pub b: U, pub c: std::marker::PhantomData<T> }
    fn default_(c: &mut Ctl) {
        type L = Default_;
        run::<L>(c, "struct with default parameters", L { a: val(0), b: val(1), c: std::marker::PhantomData }, vec![plain("A", A, |l| &mut l.a, 0), plain("B", B, |l| &mut l.b, 1)], |_| true)
    }
    #[derive(Context)]
    pub struct Shared<T> { #[id(A)] a: T, #[id(B)] #[cache] b: Option<T>, c: Option<T>, #[id(D)] d: T }
    fn shared(c: &mut Ctl) {
        type L = Shared<[f64; 2]>;
        run::<L>(c, "struct with one parameter in every field", L { a: val(0), b: None, c: Some(val(7)), d: val(2) }, vec![plain("A", A, |l| &mut l.a, 0), cache("B", B, |l| &mut l.b, None), plain("D", D, |l| &mut l.d, 2)], |l| l.c == Some(val(7)))
    }
    type Two = [f64; 2];
    type Pair<F> = (F, F);
    #[derive(Context)]
    pub struct Alias { #[id(A)] a: Two, #[cache] #[id(B)] b: Option<Two>, #[cache] #[id(D)] d: Option<Pair<f64>>, #[id(Xy)] e: std::vec::Vec<f64>, #[cache] #[id(Θ)] f: Option<::std::vec::Vec<f64>> }
    fn alias(c: &mut Ctl) {
        run(c, "struct of aliases and paths", Alias { a: val(0), b: None, d: None, e: val(3), f: None }, vec![plain("A", A, |l: &mut Alias| &mut l.a, 0), cache("B", B, |l| &mut l.b, None), cache("D", D, |l| &mut l.d, None), plain("Xy", Xy, |l| &mut l.e, 3), cache("Θ", Θ, |l| &mut l.f, None)], |_| true)
    }
    macro_rules! made {
        ($s:ident, $t:ty, $o:ty, $f:ident, $i:ident) => {
            #[derive(Context)]
            pub struct $s { #[id($i)] $f: $t, #[cache] #[id(Θ)] slot: Option<$t>, #[cache] #[id(Xy)] whole: $o }
        };
    }
    made!(Made, [f64; 2], Option<Vec<f64>>, value, A);
    fn made(c: &mut Ctl) {
        run(c, "struct from macro_rules! fragments", Made { value: val(0), slot: Some(val(1)), whole: None }, vec![plain("A", A, |l: &mut Made| &mut l.value, 0), cache("Θ", Θ, |l| &mut l.slot, Some(1)), cache("Xy", Xy, |l| &mut l.whole, None)], |_| true)
    }
    macro_rules! typed {
        ($s:ident { $($f:ident: $i:ident),* }) => { ctx_type!($s { $($f: $i),* , cache kept: Out }); };
    }
    typed!(Typed { b: A, a: B });
    fn typed(c: &mut Ctl) {
        type L = Typed<f64, Vec<f64>, [f64; 2]>;
        run::<L>(c, "ctx_type! inside a macro", L { b: val(0), a: val(1), kept: None }, vec![plain("A", A, |l| &mut l.b, 0), plain("B", B, |l| &mut l.a, 1), cache("Out", Out, |l| &mut l.kept, None)], |_| true)
    }
    // a cached node writes its own slot and nothing else
    #[derive(Context)]
    pub struct Nodes { #[cache] #[id(Out)] a: Option<f64>, #[id(A)] b: f64, #[id(B)] #[cache] out: Option<f64>, #[id(D)] d: f64 }
    fn nodes(c: &mut Ctl) {
        let mut l = Nodes { a: None, b: 1.5, out: None, d: -2.0 };
        let f = aegir::ops::Add(A.into_var(), D.into_var()).cached(Out);
        let g = aegir::ops::Mul(A.into_var(), D.into_var()).cached(B);
        let (mut a, mut out) = (None, None);
        let mut told = String::new();
        for _ in 0..3 {
            match c.choose(4) {
                0 => { told += " f"; let r = f.evaluate(&mut l).ok(); a = a.or(Some(-0.5)); c.check(r == a, || ("cached node".into(), format!("{}: {:?}", told, r))); }
                1 => { told += " g"; let r = g.evaluate_spec(&mut l).ok().map(|s| s.unwrap()); out = out.or(Some(-3.0)); c.check(r == out, || ("cached node".into(), format!("{}: {:?}", told, r))); }
                2 => { told += " clear Out"; l.a = None; a = None; }
                _ => { told += " write B"; l.write(B, 9.0); out = Some(9.0); }
            }
            c.step(1);
            c.check(l.a == a && l.out == out && l.b == 1.5 && l.d == -2.0, || ("cached node wrote elsewhere".into(), format!("after{}: Out {:?} (want {:?}), A {}, B {:?} (want {:?}), D {}", told, l.a, a, l.b, l.out, out, l.d)));
        }
        c.state(&told);
    }
    // the literal takes any expression, names of the surroundings included
    fn literals(c: &mut Ctl) {
        let (_a, _b, xy, ctx) = (2.5f64, [1.5, 2.0], 4.0f64, 7usize);
        let l = ctx!{Xy = xy * _a, A = _b, D = { let xy = ctx; val::<Vec<f64>>(xy) }, Θ = if _a > 2.0 { (0.5, 1.0) } else { (0.0, 0.0) }};
        let mut l = l;
        c.step(4);
        c.check(l.read(Xy) == Some(10.0) && l.read(A) == Some([1.5, 2.0]) && l.read(D) == Some(val(7)) && l.read(Θ) == Some((0.5, 1.0)), || ("ctx! of expressions".into(), "ctx!{Xy = .., A = .., D = .., Θ = ..} mixes up its values".into()));
        l.write(A, [0.0, 1.0]);
        c.check(l.read(Xy) == Some(10.0) && l.read(A) == Some([0.0, 1.0]) && l.read(D) == Some(val(7)) && l.read(Θ) == Some((0.5, 1.0)), || ("ctx! of expressions".into(), "write(A) on ctx!{..} changes another value".into()));
        // a literal inside a literal's expression and as an argument
        let v = A.into_var().evaluate(ctx!{A = B.into_var().evaluate(ctx!{B = 3.0, A = 4.0}).unwrap()}).ok();
        c.check(v == Some(3.0), || ("nested ctx!".into(), format!("{:?}", v)));
        c.state(0);
    }
    pub const ALL: [(usize, fn(&mut Ctl)); 10] = [(6, bounds), (6, consts), (6, lives), (6, default_), (6, shared), (6, alias), (6, made), (6, typed), (6, nodes), (6, literals)];
}
