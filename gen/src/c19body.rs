// C19: the DSL builds the same node as the written method calls.
#[derive(Clone, Copy)]
pub struct Vars {
    x: Variable<X>,
    y: Variable<Y>,
    z: Variable<Z>,
    w: Variable<W>,
    u: Variable<U>,
    pair: (Variable<X>, Variable<Y>),
    flag: bool,
    v: Nums,
}
#[derive(Clone, Copy)]
pub struct Nums {
    x: f64,
    y: f64,
    z: f64,
    w: f64,
    u: f64,
}
type Sig = Option<String>;
pub struct Case {
    suite: usize,
    text: &'static str,
    /// signatures of the DSL's node and of the written one (and of the accepted alternative), value
    run: fn(&Vars) -> (Sig, Sig, Sig, Option<(f64, f64)>),
}
fn sig<T: std::fmt::Debug>(t: &T) -> Sig { Some(format!("{} = {:?}", std::any::type_name::<T>(), t)) }
const P: [f64; 5] = [1.75, 0.625, 2.5, 0.375, 1.25];
fn num<N: Function<Ctx, Value = f64>>(n: N, want: f64) -> Option<(f64, f64)> {
    let c = Ctx { x: P[0], y: P[1], z: P[2], w: P[3], u: P[4] };
    Some((n.evaluate(c).unwrap_or(f64::NAN), want))
}
fn id<T>(t: T) -> T { t }
fn two<A: Node, B: Node>(a: A, b: B) -> ops::Sub<A, B> { a.sub(b) }
#[derive(Clone, Context)]
struct Ctx {
    #[id(X)]
    x: f64,
    #[id(Y)]
    y: f64,
    #[id(Z)]
    z: f64,
    #[id(W)]
    w: f64,
    #[id(U)]
    u: f64,
}
fn near(a: f64, b: f64) -> bool { a == b || (a - b).abs() <= 1e-9 * (a.abs() + b.abs()) || (a.is_nan() && b.is_nan()) }
fn body(c: &mut Ctl, l: &[Case]) {
    let k = c.pick(l);
    let (x, y) = (X.into_var(), Y.into_var());
    let vars = Vars { x, y, z: Z.into_var(), w: W.into_var(), u: U.into_var(), pair: (x, y), flag: c.flag(), v: Nums { x: P[0], y: P[1], z: P[2], w: P[3], u: P[4] } };
    c.state(k.text);
    c.desc(|| k.text.to_string());
    c.step(1);
    match guarded(|| (k.run)(&vars)) {
        Err(e) => c.fail(format!("panics: {}", k.text), e),
        Ok((got, want, alt, val)) => {
            c.validated();
            c.outcome(&want);
            if got != want && (alt.is_none() || got != alt) {
                c.fail(format!("aegir!({})", k.text), format!("aegir!({}) is {}, written out it is {}", k.text, got.unwrap(), want.unwrap()));
            }
            if let Some((a, b)) = val {
                c.check(near(a, b), || (format!("value of aegir!({})", k.text), format!("aegir!({}) evaluates to {}, the formula to {}", k.text, a, b)));
            }
        },
    }
}
