// ---- iterator adaptors over a list, as functions on vectors (each is verified against its contract)
#[verifier::external_body]
fn vx_iter<'x, T>(v: &'x Vec<T>) -> (r: Vec<&'x T>) ensures r@.len() == v@.len(), forall|i: int| #![trigger r@[i]] #![trigger v@[i]] 0 <= i < v@.len() ==> *r@[i] == v@[i] { v.iter().collect() }
fn vx_rev<'x, T>(v: Vec<&'x T>) -> (r: Vec<&'x T>)
    ensures r@.len() == v@.len(), forall|i: int| 0 <= i < v@.len() ==> #[trigger] r@[i] == v@[v@.len() - 1 - i], forall|i: int| 0 <= i < v@.len() ==> #[trigger] v@[i] == r@[v@.len() - 1 - i]
{
    let mut r: Vec<&'x T> = Vec::new();
    let mut k = v.len();
    while k > 0
        invariant k <= v@.len(), r@.len() == v@.len() - k, forall|i: int| 0 <= i < r@.len() ==> #[trigger] r@[i] == v@[v@.len() - 1 - i]
        decreases k
    { k = k - 1; r.push(v[k]); }
    r
}
fn vx_find<'x, T, F: Fn(&&'x T) -> bool>(v: Vec<&'x T>, f: F) -> (r: Option<&'x T>)
    requires forall|x: &&'x T| f.requires((x,))
    ensures
        r is None ==> forall|i: int| #![trigger v@[i]] 0 <= i < v@.len() ==> f.ensures((&v@[i],), false),
        r matches Some(x) ==> exists|i: int| #![trigger v@[i]] 0 <= i < v@.len() && x == v@[i] && f.ensures((&v@[i],), true) && forall|j: int| #![trigger v@[j]] 0 <= j < i ==> f.ensures((&v@[j],), false)
{
    let mut k = 0;
    while k < v.len()
        invariant k <= v@.len(), forall|x: &&'x T| f.requires((x,)), forall|j: int| #![trigger v@[j]] 0 <= j < k ==> f.ensures((&v@[j],), false)
        decreases v@.len() - k
    {
        if f(&v[k]) { assert(f.ensures((&v@[k as int],), true)); return Some(v[k]); }
        k = k + 1;
    }
    None
}
fn vx_find_map<'x, T, U, F: Fn(&'x T) -> Option<U>>(v: Vec<&'x T>, f: F) -> (r: Option<U>)
    requires forall|x: &'x T| f.requires((x,))
    ensures
        r is None ==> forall|i: int| 0 <= i < v@.len() ==> f.ensures((#[trigger] v@[i],), None),
        r is Some ==> exists|i: int| 0 <= i < v@.len() && f.ensures((#[trigger] v@[i],), r) && forall|j: int| 0 <= j < i ==> f.ensures((#[trigger] v@[j],), None)
{
    let mut k = 0;
    while k < v.len()
        invariant k <= v@.len(), forall|x: &'x T| f.requires((x,)), forall|j: int| 0 <= j < k ==> f.ensures((#[trigger] v@[j],), None)
        decreases v@.len() - k
    {
        let x = f(v[k]);
        if x.is_some() { assert(f.ensures((v@[k as int],), x)); return x; }
        assert(x is None);
        k = k + 1;
    }
    None
}
// Iterator::map, collected
fn vx_map<'x, T, U, F: Fn(&'x T) -> U>(v: Vec<&'x T>, f: F) -> (r: Vec<U>)
    requires forall|x: &'x T| f.requires((x,))
    ensures r@.len() == v@.len(), forall|i: int| #![trigger r@[i]] #![trigger v@[i]] 0 <= i < v@.len() ==> f.ensures((v@[i],), r@[i])
{
    let mut r: Vec<U> = Vec::new();
    let mut k = 0;
    while k < v.len()
        invariant k <= v@.len(), r@.len() == k, forall|x: &'x T| f.requires((x,)), forall|i: int| 0 <= i < k ==> f.ensures((v@[i],), #[trigger] r@[i])
        decreases v@.len() - k
    { r.push(f(v[k])); k = k + 1; }
    r
}
// Iterator::collect into a Result
#[verifier::external_body]
fn vx_collect_result<T, E>(v: Vec<Result<T, E>>) -> (r: Result<Vec<T>, E>)
    ensures
        r matches Ok(w) ==> w@.len() == v@.len() && forall|i: int| #![trigger v@[i]] #![trigger w@[i]] 0 <= i < v@.len() ==> v@[i] == Ok::<T, E>(w@[i]),
        r matches Err(e) ==> exists|i: int| 0 <= i < v@.len() && #[trigger] v@[i] == Err::<T, E>(e),
{ v.into_iter().collect() }
fn vx_any<'x, T, F: Fn(&'x T) -> bool>(v: Vec<&'x T>, f: F) -> (r: bool)
    requires forall|i: int| 0 <= i < v@.len() ==> f.requires((#[trigger] v@[i],))
    ensures
        r ==> exists|i: int| 0 <= i < v@.len() && f.ensures((#[trigger] v@[i],), true),
        !r ==> forall|i: int| 0 <= i < v@.len() ==> f.ensures((#[trigger] v@[i],), false),
{
    let mut k = 0;
    while k < v.len()
        invariant k <= v@.len(), forall|i: int| 0 <= i < v@.len() ==> f.requires((#[trigger] v@[i],)), forall|j: int| 0 <= j < k ==> f.ensures((#[trigger] v@[j],), false)
        decreases v@.len() - k
    {
        if f(v[k]) { assert(f.ensures((v@[k as int],), true)); return true; }
        k = k + 1;
    }
    false
}
fn vx_all<'x, T, F: Fn(&'x T) -> bool>(v: Vec<&'x T>, f: F) -> (r: bool)
    requires forall|i: int| 0 <= i < v@.len() ==> f.requires((#[trigger] v@[i],))
    ensures
        !r ==> exists|i: int| 0 <= i < v@.len() && f.ensures((#[trigger] v@[i],), false),
        r ==> forall|i: int| 0 <= i < v@.len() ==> f.ensures((#[trigger] v@[i],), true),
{
    let mut k = 0;
    while k < v.len()
        invariant k <= v@.len(), forall|i: int| 0 <= i < v@.len() ==> f.requires((#[trigger] v@[i],)), forall|j: int| 0 <= j < k ==> f.ensures((#[trigger] v@[j],), true)
        decreases v@.len() - k
    {
        if !f(v[k]) { assert(f.ensures((v@[k as int],), false)); return false; }
        k = k + 1;
    }
    true
}
