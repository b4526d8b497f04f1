// Generated by tools/gen_literals.py.
fn lit0<T: El>(c: &mut Case, k: usize) {
    let (n, x) = (next::<T>, never::<T>);
    let _ = x;
    match k {
    0 => {
        chk::<T, _, _>(c, &array![], &[0]);
    }
    1 => {
        chk::<T, _, _>(c, &array![T::clone(&n())], &[1]);
    }
    2 => {
        chk::<T, _, _>(c, &array![match 1 { 1 => n(), _ => x() }, T::clone(&n())], &[2]);
    }
    3 => {
        chk::<T, _, _>(c, &array![{ n() }, if true { n() } else { x() }, T::clone(&n()),], &[3]);
    }
    4 => {
        chk::<T, _, _>(c, &array![n(), n(), n(), n()], &[4]);
    }
    5 => {
        chk::<T, _, _>(c, &array![n(), n(), T::clone(&n()), if true { n() } else { x() }, n()], &[5]);
    }
    6 => {
        chk::<T, _, _>(c, &array![n(), (n()), n(), n(), n(), T::clone(&n())], &[6]);
    }
    7 => {
        chk::<T, _, _>(c, &array![(n()), if true { n() } else { x() }, (n()), n(), T::clone(&n()), match 1 { 1 => n(), _ => x() }, match 1 { 1 => n(), _ => x() }], &[7]);
    }
    8 => {
        chk::<T, _, _>(c, &array![{ n() }, n(), T::clone(&n()), n(), n(), (n()), (n()), match 1 { 1 => n(), _ => x() },], &[8]);
    }
    9 => {
        chk::<T, _, _>(c, &array![{ n() }, { n() }, T::clone(&n()), (n()), T::clone(&n()), { n() }, (n()), match 1 { 1 => n(), _ => x() }, (n())], &[9]);
    }
    10 => {
        chk::<T, _, _>(c, &array![T::clone(&n()), (n()), match 1 { 1 => n(), _ => x() }, (n()), n(), { n() }, T::clone(&n()), if true { n() } else { x() }, n(), { n() }, (n()), if true { n() } else { x() }, n(), T::clone(&n()), n(), if true { n() } else { x() }, n(), { n() }, T::clone(&n()), { n() }, { n() }, (n()), n(), { n() }, (n()), { n() }, if true { n() } else { x() }, T::clone(&n()), (n()), n(), n(), if true { n() } else { x() }, n(),], &[33]);
    }
    11 => {
        chk::<T, _, _>(c, &array![[]], &[1, 0]);
    }
    12 => {
        chk::<T, _, _>(c, &array![[match 1 { 1 => n(), _ => x() },],], &[1, 1]);
    }
    13 => {
        chk::<T, _, _>(c, &array![[if true { n() } else { x() }, n()]], &[1, 2]);
    }
    14 => {
        chk::<T, _, _>(c, &array![[(n()), (n()), n()],], &[1, 3]);
    }
    15 => {
        chk::<T, _, _>(c, &array![[match 1 { 1 => n(), _ => x() }, T::clone(&n()), (n()), n()]], &[1, 4]);
    }
    16 => {
        chk::<T, _, _>(c, &array![[n(), { n() }, n(), n(), (n())]], &[1, 5]);
    }
    17 => {
        chk::<T, _, _>(c, &array![[], []], &[2, 0]);
    }
    18 => {
        chk::<T, _, _>(c, &array![[n()], [{ n() },],], &[2, 1]);
    }
    19 => {
        chk::<T, _, _>(c, &array![[if true { n() } else { x() }, { n() }], [{ n() }, match 1 { 1 => n(), _ => x() }]], &[2, 2]);
    }
    20 => {
        chk::<T, _, _>(c, &array![[if true { n() } else { x() }, if true { n() } else { x() }, n(),], [n(), { n() }, n()]], &[2, 3]);
    }
    21 => {
        chk::<T, _, _>(c, &array![[(n()), n(), (n()), if true { n() } else { x() }], [match 1 { 1 => n(), _ => x() }, { n() }, n(), n()]], &[2, 4]);
    }
    22 => {
        chk::<T, _, _>(c, &array![[{ n() }], [n()], [if true { n() } else { x() }]], &[3, 1]);
    }
    23 => {
        chk::<T, _, _>(c, &array![[if true { n() } else { x() }, n()], [n(), if true { n() } else { x() }], [{ n() }, T::clone(&n())],], &[3, 2]);
    }
    _ => unreachable!(),
    }
}

fn lit1<T: El>(c: &mut Case, k: usize) {
    let (n, x) = (next::<T>, never::<T>);
    let _ = x;
    match k {
    0 => {
        chk::<T, _, _>(c, &array![[match 1 { 1 => n(), _ => x() }, (n()), n()], [n(), { n() }, n()], [n(), n(), match 1 { 1 => n(), _ => x() }],], &[3, 3]);
    }
    1 => {
        chk::<T, _, _>(c, &array![[match 1 { 1 => n(), _ => x() }, n(), n(), T::clone(&n())], [(n()), T::clone(&n()), n(), n()], [if true { n() } else { x() }, (n()), if true { n() } else { x() }, n()],], &[3, 4]);
    }
    2 => {
        chk::<T, _, _>(c, &array![[n()], [n()], [n()], [(n())]], &[4, 1]);
    }
    3 => {
        chk::<T, _, _>(c, &array![[match 1 { 1 => n(), _ => x() }, n()], [match 1 { 1 => n(), _ => x() }, match 1 { 1 => n(), _ => x() }], [n(), n()], [if true { n() } else { x() }, match 1 { 1 => n(), _ => x() },]], &[4, 2]);
    }
    4 => {
        chk::<T, _, _>(c, &array![[n(), if true { n() } else { x() }, match 1 { 1 => n(), _ => x() }], [T::clone(&n()), n(), n()], [n(), n(), if true { n() } else { x() }], [T::clone(&n()), { n() }, n()],], &[4, 3]);
    }
    5 => {
        chk::<T, _, _>(c, &array![[match 1 { 1 => n(), _ => x() }, n(), if true { n() } else { x() }, n()], [{ n() }, T::clone(&n()), if true { n() } else { x() }, n()], [{ n() }, n(), T::clone(&n()), n()], [n(), (n()), n(), n()]], &[4, 4]);
    }
    6 => {
        chk::<T, _, _>(c, &array![[n()], [n(),], [if true { n() } else { x() }], [n()], [n(),]], &[5, 1]);
    }
    7 => {
        chk::<T, _, _>(c, &array![[[]]], &[1, 1, 0]);
    }
    8 => {
        chk::<T, _, _>(c, &array![[[n()]]], &[1, 1, 1]);
    }
    9 => {
        chk::<T, _, _>(c, &array![[[match 1 { 1 => n(), _ => x() }, n()]],], &[1, 1, 2]);
    }
    10 => {
        chk::<T, _, _>(c, &array![[[n(), { n() }, T::clone(&n()),],],], &[1, 1, 3]);
    }
    11 => {
        chk::<T, _, _>(c, &array![[[T::clone(&n()), n(), T::clone(&n()), match 1 { 1 => n(), _ => x() }]],], &[1, 1, 4]);
    }
    12 => {
        chk::<T, _, _>(c, &array![[[if true { n() } else { x() }, (n()), { n() }, match 1 { 1 => n(), _ => x() }, match 1 { 1 => n(), _ => x() }]]], &[1, 1, 5]);
    }
    13 => {
        chk::<T, _, _>(c, &array![[[n()], [(n())]],], &[1, 2, 1]);
    }
    14 => {
        chk::<T, _, _>(c, &array![[[if true { n() } else { x() },], [n()], [{ n() }],],], &[1, 3, 1]);
    }
    15 => {
        chk::<T, _, _>(c, &array![[[T::clone(&n()), { n() }, n()], [n(), if true { n() } else { x() }, T::clone(&n())], [T::clone(&n()), if true { n() } else { x() }, if true { n() } else { x() }], [T::clone(&n()), n(), n()]]], &[1, 4, 3]);
    }
    16 => {
        chk::<T, _, _>(c, &array![[[match 1 { 1 => n(), _ => x() }], [(n())], [n()], [n()], [n(),],]], &[1, 5, 1]);
    }
    17 => {
        chk::<T, _, _>(c, &array![[[if true { n() } else { x() }]], [[(n())],]], &[2, 1, 1]);
    }
    18 => {
        chk::<T, _, _>(c, &array![[[(n()), { n() }, match 1 { 1 => n(), _ => x() }]], [[T::clone(&n()), match 1 { 1 => n(), _ => x() }, n()]],], &[2, 1, 3]);
    }
    19 => {
        chk::<T, _, _>(c, &array![[[], []], [[], []]], &[2, 2, 0]);
    }
    20 => {
        chk::<T, _, _>(c, &array![[[n()], [n()],], [[n()], [n()]]], &[2, 2, 1]);
    }
    21 => {
        chk::<T, _, _>(c, &array![[[{ n() }], [if true { n() } else { x() }], [n()],], [[if true { n() } else { x() },], [n()], [{ n() }]],], &[2, 3, 1]);
    }
    22 => {
        chk::<T, _, _>(c, &array![[[n(), match 1 { 1 => n(), _ => x() }], [n(), n()], [n(), (n())],], [[match 1 { 1 => n(), _ => x() }, if true { n() } else { x() }], [n(), { n() }], [n(), T::clone(&n())]]], &[2, 3, 2]);
    }
    23 => {
        chk::<T, _, _>(c, &array![[[{ n() }], [(n())], [if true { n() } else { x() }], [n()]], [[n()], [n()], [n()], [{ n() }]]], &[2, 4, 1]);
    }
    _ => unreachable!(),
    }
}

fn lit2<T: El>(c: &mut Case, k: usize) {
    let (n, x) = (next::<T>, never::<T>);
    let _ = x;
    match k {
    0 => {
        chk::<T, _, _>(c, &array![[[match 1 { 1 => n(), _ => x() }]], [[match 1 { 1 => n(), _ => x() }]], [[match 1 { 1 => n(), _ => x() },]],], &[3, 1, 1]);
    }
    1 => {
        chk::<T, _, _>(c, &array![[[if true { n() } else { x() }, n(), n()], [n(), match 1 { 1 => n(), _ => x() }, { n() }]], [[match 1 { 1 => n(), _ => x() }, { n() }, n()], [n(), match 1 { 1 => n(), _ => x() }, match 1 { 1 => n(), _ => x() }]], [[{ n() }, n(), { n() }], [n(), { n() }, if true { n() } else { x() }]]], &[3, 2, 3]);
    }
    2 => {
        chk::<T, _, _>(c, &array![[[{ n() }, if true { n() } else { x() }, (n()), T::clone(&n())], [if true { n() } else { x() }, n(), n(), (n())]], [[n(), if true { n() } else { x() }, if true { n() } else { x() }, n(),], [if true { n() } else { x() }, T::clone(&n()), n(), n(),]], [[n(), T::clone(&n()), n(), (n()),], [match 1 { 1 => n(), _ => x() }, n(), if true { n() } else { x() }, { n() }]],], &[3, 2, 4]);
    }
    3 => {
        chk::<T, _, _>(c, &array![[[T::clone(&n()), match 1 { 1 => n(), _ => x() }, n()], [T::clone(&n()), n(), match 1 { 1 => n(), _ => x() }], [match 1 { 1 => n(), _ => x() }, n(), (n()),],], [[n(), { n() }, n(),], [n(), n(), (n())], [if true { n() } else { x() }, n(), (n())]], [[if true { n() } else { x() }, n(), match 1 { 1 => n(), _ => x() }], [n(), if true { n() } else { x() }, if true { n() } else { x() },], [n(), match 1 { 1 => n(), _ => x() }, (n())],]], &[3, 3, 3]);
    }
    4 => {
        chk::<T, _, _>(c, &array![[[n(), { n() },], [{ n() }, n()], [if true { n() } else { x() }, n()], [if true { n() } else { x() }, match 1 { 1 => n(), _ => x() }]], [[match 1 { 1 => n(), _ => x() }, (n()),], [n(), n()], [{ n() }, n()], [if true { n() } else { x() }, n()],], [[T::clone(&n()), { n() },], [n(), if true { n() } else { x() }], [(n()), match 1 { 1 => n(), _ => x() }], [n(), n()]],], &[3, 4, 2]);
    }
    5 => {
        chk::<T, _, _>(c, &array![[[n()]], [[n()]], [[{ n() }]], [[n()],]], &[4, 1, 1]);
    }
    6 => {
        chk::<T, _, _>(c, &array![[[T::clone(&n()), (n())], [n(), { n() }],], [[{ n() }, T::clone(&n())], [n(), { n() }],], [[n(), n()], [match 1 { 1 => n(), _ => x() }, n(),]], [[n(), n()], [{ n() }, (n())]],], &[4, 2, 2]);
    }
    7 => {
        chk::<T, _, _>(c, &array![[[T::clone(&n()), n()], [n(), (n())], [n(), { n() },]], [[T::clone(&n()), n()], [if true { n() } else { x() }, (n())], [match 1 { 1 => n(), _ => x() }, T::clone(&n()),]], [[if true { n() } else { x() }, { n() }], [T::clone(&n()), { n() }], [n(), if true { n() } else { x() },]], [[n(), if true { n() } else { x() }], [match 1 { 1 => n(), _ => x() }, n(),], [{ n() }, n()]]], &[4, 3, 2]);
    }
    8 => {
        chk::<T, _, _>(c, &array![[[n(),], [n()], [match 1 { 1 => n(), _ => x() }], [(n())]], [[n()], [(n())], [n()], [n()]], [[(n())], [T::clone(&n())], [match 1 { 1 => n(), _ => x() },], [n()]], [[n()], [n()], [{ n() },], [T::clone(&n())],]], &[4, 4, 1]);
    }
    9 => {
        chk::<T, _, _>(c, &array![[[match 1 { 1 => n(), _ => x() }, n(), { n() }], [if true { n() } else { x() }, (n()), { n() }], [T::clone(&n()), if true { n() } else { x() }, { n() }], [(n()), (n()), n()],], [[if true { n() } else { x() }, T::clone(&n()), match 1 { 1 => n(), _ => x() }], [{ n() }, n(), T::clone(&n())], [if true { n() } else { x() }, (n()), match 1 { 1 => n(), _ => x() }], [match 1 { 1 => n(), _ => x() }, n(), if true { n() } else { x() }]], [[if true { n() } else { x() }, match 1 { 1 => n(), _ => x() }, if true { n() } else { x() }], [(n()), n(), match 1 { 1 => n(), _ => x() }], [T::clone(&n()), { n() }, (n())], [if true { n() } else { x() }, (n()), n()]], [[n(), if true { n() } else { x() }, n()], [(n()), n(), T::clone(&n()),], [match 1 { 1 => n(), _ => x() }, n(), if true { n() } else { x() }], [match 1 { 1 => n(), _ => x() }, (n()), (n())]]], &[4, 4, 3]);
    }
    10 => {
        chk::<T, _, _>(c, &array![[[{ n() }]], [[T::clone(&n())]], [[match 1 { 1 => n(), _ => x() }]], [[n(),],], [[if true { n() } else { x() },]]], &[5, 1, 1]);
    }
    11 => {
        chk::<T, _, _>(c, &array![[[[],]]], &[1, 1, 1, 0]);
    }
    12 => {
        chk::<T, _, _>(c, &array![[[[(n()),]]]], &[1, 1, 1, 1]);
    }
    13 => {
        chk::<T, _, _>(c, &array![[[[T::clone(&n()), n()],]]], &[1, 1, 1, 2]);
    }
    14 => {
        chk::<T, _, _>(c, &array![[[[(n()), { n() }, if true { n() } else { x() },]],],], &[1, 1, 1, 3]);
    }
    15 => {
        chk::<T, _, _>(c, &array![[[[n(), if true { n() } else { x() }, T::clone(&n()), match 1 { 1 => n(), _ => x() }, n()],]]], &[1, 1, 1, 5]);
    }
    16 => {
        chk::<T, _, _>(c, &array![[[[(n())], [n()]]]], &[1, 1, 2, 1]);
    }
    17 => {
        chk::<T, _, _>(c, &array![[[[T::clone(&n())], [n(),], [if true { n() } else { x() }]]]], &[1, 1, 3, 1]);
    }
    18 => {
        chk::<T, _, _>(c, &array![[[[n()], [{ n() },], [T::clone(&n())], [{ n() },], [T::clone(&n()),]]]], &[1, 1, 5, 1]);
    }
    19 => {
        chk::<T, _, _>(c, &array![[[[n()]], [[{ n() }]]],], &[1, 2, 1, 1]);
    }
    20 => {
        chk::<T, _, _>(c, &array![[[[n()], [{ n() }]], [[T::clone(&n())], [(n())],]],], &[1, 2, 2, 1]);
    }
    21 => {
        chk::<T, _, _>(c, &array![[[[n()]], [[match 1 { 1 => n(), _ => x() },]], [[(n())]]]], &[1, 3, 1, 1]);
    }
    22 => {
        chk::<T, _, _>(c, &array![[[[match 1 { 1 => n(), _ => x() }, if true { n() } else { x() }, n(),], [n(), T::clone(&n()), n()], [if true { n() } else { x() }, if true { n() } else { x() }, (n())], [n(), (n()), match 1 { 1 => n(), _ => x() }]], [[n(), (n()), match 1 { 1 => n(), _ => x() }], [if true { n() } else { x() }, n(), { n() }], [if true { n() } else { x() }, match 1 { 1 => n(), _ => x() }, (n())], [T::clone(&n()), { n() }, n(),],], [[n(), n(), if true { n() } else { x() }], [n(), n(), (n())], [T::clone(&n()), T::clone(&n()), n()], [n(), if true { n() } else { x() }, n()]],]], &[1, 3, 4, 3]);
    }
    23 => {
        chk::<T, _, _>(c, &array![[[[match 1 { 1 => n(), _ => x() }]], [[if true { n() } else { x() }]], [[n()],], [[n()],], [[n()]]]], &[1, 5, 1, 1]);
    }
    _ => unreachable!(),
    }
}

fn lit3<T: El>(c: &mut Case, k: usize) {
    let (n, x) = (next::<T>, never::<T>);
    let _ = x;
    match k {
    0 => {
        chk::<T, _, _>(c, &array![[[[n()]]], [[[n()],],]], &[2, 1, 1, 1]);
    }
    1 => {
        chk::<T, _, _>(c, &array![[[[{ n() }, if true { n() } else { x() }, { n() }]]], [[[n(), n(), n()]]]], &[2, 1, 1, 3]);
    }
    2 => {
        chk::<T, _, _>(c, &array![[[[n()], [n()]]], [[[match 1 { 1 => n(), _ => x() }], [{ n() }]]]], &[2, 1, 2, 1]);
    }
    3 => {
        chk::<T, _, _>(c, &array![[[[if true { n() } else { x() }], [n()], [match 1 { 1 => n(), _ => x() }]],], [[[{ n() }], [n()], [if true { n() } else { x() }]],]], &[2, 1, 3, 1]);
    }
    4 => {
        chk::<T, _, _>(c, &array![[[[T::clone(&n()), { n() }, n()], [n(), match 1 { 1 => n(), _ => x() }, if true { n() } else { x() }], [n(), T::clone(&n()), T::clone(&n()),],]], [[[n(), { n() }, { n() },], [T::clone(&n()), match 1 { 1 => n(), _ => x() }, if true { n() } else { x() }], [n(), (n()), n(),]]]], &[2, 1, 3, 3]);
    }
    5 => {
        chk::<T, _, _>(c, &array![[[[n(), { n() }, if true { n() } else { x() }, n()]], [[(n()), n(), if true { n() } else { x() }, T::clone(&n())],]], [[[if true { n() } else { x() }, if true { n() } else { x() }, n(), n(),]], [[T::clone(&n()), n(), T::clone(&n()), n()]]]], &[2, 2, 1, 4]);
    }
    6 => {
        chk::<T, _, _>(c, &array![[[[], []], [[], []]], [[[], []], [[], []]]], &[2, 2, 2, 0]);
    }
    7 => {
        chk::<T, _, _>(c, &array![[[[(n())], [(n())]], [[(n())], [(n())]], [[{ n() }], [match 1 { 1 => n(), _ => x() },]],], [[[(n())], [n()]], [[n()], [n()],], [[T::clone(&n())], [if true { n() } else { x() }]]]], &[2, 3, 2, 1]);
    }
    8 => {
        chk::<T, _, _>(c, &array![[[[n(), { n() }], [n(), n()], [if true { n() } else { x() }, T::clone(&n())]], [[n(), match 1 { 1 => n(), _ => x() }], [T::clone(&n()), n()], [T::clone(&n()), n()],], [[n(), n()], [n(), if true { n() } else { x() }], [{ n() }, n()],]], [[[n(), if true { n() } else { x() }], [match 1 { 1 => n(), _ => x() }, { n() },], [n(), (n())]], [[(n()), n(),], [if true { n() } else { x() }, match 1 { 1 => n(), _ => x() },], [T::clone(&n()), match 1 { 1 => n(), _ => x() }]], [[if true { n() } else { x() }, n(),], [T::clone(&n()), T::clone(&n())], [match 1 { 1 => n(), _ => x() }, match 1 { 1 => n(), _ => x() }]]]], &[2, 3, 3, 2]);
    }
    9 => {
        chk::<T, _, _>(c, &array![[[[n()]]], [[[n()],],], [[[{ n() }]]]], &[3, 1, 1, 1]);
    }
    10 => {
        chk::<T, _, _>(c, &array![[[[n()], [n()]], [[n()], [{ n() },]]], [[[match 1 { 1 => n(), _ => x() }], [if true { n() } else { x() },]], [[if true { n() } else { x() },], [(n())],]], [[[n()], [{ n() }]], [[n(),], [{ n() }]]]], &[3, 2, 2, 1]);
    }
    11 => {
        chk::<T, _, _>(c, &array![[[[if true { n() } else { x() }], [T::clone(&n())], [if true { n() } else { x() }],], [[if true { n() } else { x() }], [{ n() }], [n(),],],], [[[n()], [n()], [(n())]], [[if true { n() } else { x() },], [match 1 { 1 => n(), _ => x() }], [match 1 { 1 => n(), _ => x() },]]], [[[T::clone(&n())], [n()], [n(),]], [[if true { n() } else { x() }], [T::clone(&n())], [n()],]]], &[3, 2, 3, 1]);
    }
    12 => {
        chk::<T, _, _>(c, &array![[[[if true { n() } else { x() }, match 1 { 1 => n(), _ => x() }, n(), match 1 { 1 => n(), _ => x() }], [T::clone(&n()), n(), (n()), T::clone(&n())]]], [[[{ n() }, n(), match 1 { 1 => n(), _ => x() }, T::clone(&n())], [n(), n(), { n() }, (n()),]]], [[[{ n() }, (n()), T::clone(&n()), n()], [T::clone(&n()), n(), n(), n(),]]], [[[(n()), { n() }, T::clone(&n()), T::clone(&n()),], [if true { n() } else { x() }, { n() }, n(), (n())]],]], &[4, 1, 2, 4]);
    }
    13 => {
        chk::<T, _, _>(c, &array![[[[{ n() }], [n()], [match 1 { 1 => n(), _ => x() },], [{ n() }],], [[T::clone(&n())], [n()], [(n())], [match 1 { 1 => n(), _ => x() },]]], [[[match 1 { 1 => n(), _ => x() }], [T::clone(&n())], [n()], [n()]], [[match 1 { 1 => n(), _ => x() }], [{ n() },], [(n())], [n()]]], [[[n()], [n(),], [T::clone(&n()),], [match 1 { 1 => n(), _ => x() },]], [[(n())], [match 1 { 1 => n(), _ => x() }], [n(),], [T::clone(&n())]],], [[[T::clone(&n())], [n()], [n()], [n()]], [[T::clone(&n())], [T::clone(&n())], [n(),], [{ n() }]]],], &[4, 2, 4, 1]);
    }
    14 => {
        chk::<T, _, _>(c, &array![[[[n()]]], [[[n(),]]], [[[T::clone(&n())]]], [[[(n())],]], [[[(n())],]]], &[5, 1, 1, 1]);
    }
    15 => {
        chk::<T, _, _>(c, &array![[[[[]]],]], &[1, 1, 1, 1, 0]);
    }
    16 => {
        chk::<T, _, _>(c, &array![[[[[n()]]]]], &[1, 1, 1, 1, 1]);
    }
    17 => {
        chk::<T, _, _>(c, &array![[[[[if true { n() } else { x() }, (n())],]]]], &[1, 1, 1, 1, 2]);
    }
    18 => {
        chk::<T, _, _>(c, &array![[[[[n(), match 1 { 1 => n(), _ => x() }, n()]],]]], &[1, 1, 1, 1, 3]);
    }
    19 => {
        chk::<T, _, _>(c, &array![[[[[T::clone(&n()), T::clone(&n()), T::clone(&n()), n(), (n())],],]]], &[1, 1, 1, 1, 5]);
    }
    20 => {
        chk::<T, _, _>(c, &array![[[[[n()], [n()]]]]], &[1, 1, 1, 2, 1]);
    }
    21 => {
        chk::<T, _, _>(c, &array![[[[[{ n() }], [T::clone(&n()),], [if true { n() } else { x() },],],],],], &[1, 1, 1, 3, 1]);
    }
    22 => {
        chk::<T, _, _>(c, &array![[[[[n()], [n()], [n()], [n()], [n()],]]]], &[1, 1, 1, 5, 1]);
    }
    23 => {
        chk::<T, _, _>(c, &array![[[[[n()]], [[if true { n() } else { x() }]],],]], &[1, 1, 2, 1, 1]);
    }
    _ => unreachable!(),
    }
}

fn lit4<T: El>(c: &mut Case, k: usize) {
    let (n, x) = (next::<T>, never::<T>);
    let _ = x;
    match k {
    0 => {
        chk::<T, _, _>(c, &array![[[[[n()],], [[match 1 { 1 => n(), _ => x() }]], [[if true { n() } else { x() }],],]]], &[1, 1, 3, 1, 1]);
    }
    1 => {
        chk::<T, _, _>(c, &array![[[[[{ n() },]], [[n(),]], [[n(),]], [[T::clone(&n()),],], [[n(),]]],],], &[1, 1, 5, 1, 1]);
    }
    2 => {
        chk::<T, _, _>(c, &array![[[[[(n())],]], [[[n()]]]]], &[1, 2, 1, 1, 1]);
    }
    3 => {
        chk::<T, _, _>(c, &array![[[[[match 1 { 1 => n(), _ => x() }, match 1 { 1 => n(), _ => x() }, match 1 { 1 => n(), _ => x() }], [T::clone(&n()), { n() }, T::clone(&n())], [n(), n(), match 1 { 1 => n(), _ => x() }], [T::clone(&n()), if true { n() } else { x() }, n(),]]], [[[n(), (n()), n()], [n(), (n()), if true { n() } else { x() }], [n(), match 1 { 1 => n(), _ => x() }, match 1 { 1 => n(), _ => x() },], [{ n() }, n(), match 1 { 1 => n(), _ => x() }]]]]], &[1, 2, 1, 4, 3]);
    }
    4 => {
        chk::<T, _, _>(c, &array![[[[[n(), n(), (n())], [if true { n() } else { x() }, n(), match 1 { 1 => n(), _ => x() },], [(n()), n(), n()], [match 1 { 1 => n(), _ => x() }, if true { n() } else { x() }, n()]], [[match 1 { 1 => n(), _ => x() }, n(), (n())], [n(), n(), { n() }], [(n()), n(), n()], [n(), if true { n() } else { x() }, match 1 { 1 => n(), _ => x() }]], [[n(), n(), (n())], [{ n() }, if true { n() } else { x() }, if true { n() } else { x() }], [T::clone(&n()), T::clone(&n()), n()], [n(), n(), if true { n() } else { x() }]]], [[[n(), { n() }, (n())], [match 1 { 1 => n(), _ => x() }, match 1 { 1 => n(), _ => x() }, T::clone(&n())], [match 1 { 1 => n(), _ => x() }, if true { n() } else { x() }, T::clone(&n())], [if true { n() } else { x() }, n(), T::clone(&n())]], [[{ n() }, n(), n()], [T::clone(&n()), n(), n()], [if true { n() } else { x() }, n(), T::clone(&n())], [if true { n() } else { x() }, n(), T::clone(&n())]], [[n(), n(), (n())], [if true { n() } else { x() }, n(), (n())], [{ n() }, if true { n() } else { x() }, n()], [n(), n(), if true { n() } else { x() }],]]],], &[1, 2, 3, 4, 3]);
    }
    5 => {
        chk::<T, _, _>(c, &array![[[[[n()]]], [[[(n()),]],], [[[(n())]]]]], &[1, 3, 1, 1, 1]);
    }
    6 => {
        chk::<T, _, _>(c, &array![[[[[{ n() }], [{ n() }]]], [[[n()], [n()],],], [[[match 1 { 1 => n(), _ => x() }], [(n())]]]],], &[1, 3, 1, 2, 1]);
    }
    7 => {
        chk::<T, _, _>(c, &array![[[[[if true { n() } else { x() }, match 1 { 1 => n(), _ => x() }],], [[n(), match 1 { 1 => n(), _ => x() }],]], [[[T::clone(&n()), T::clone(&n())]], [[if true { n() } else { x() }, (n()),]],], [[[T::clone(&n()), n()],], [[if true { n() } else { x() }, { n() }],]]],], &[1, 3, 2, 1, 2]);
    }
    8 => {
        chk::<T, _, _>(c, &array![[[[[n(), (n()), { n() }, T::clone(&n())], [n(), match 1 { 1 => n(), _ => x() }, n(), (n())]], [[match 1 { 1 => n(), _ => x() }, n(), match 1 { 1 => n(), _ => x() }, n()], [n(), n(), n(), T::clone(&n())]]], [[[{ n() }, (n()), n(), n()], [if true { n() } else { x() }, n(), if true { n() } else { x() }, n()],], [[n(), if true { n() } else { x() }, n(), n()], [T::clone(&n()), match 1 { 1 => n(), _ => x() }, { n() }, { n() },],],], [[[match 1 { 1 => n(), _ => x() }, { n() }, if true { n() } else { x() }, T::clone(&n())], [match 1 { 1 => n(), _ => x() }, n(), T::clone(&n()), n()]], [[(n()), match 1 { 1 => n(), _ => x() }, { n() }, n()], [(n()), { n() }, T::clone(&n()), n()]]]]], &[1, 3, 2, 2, 4]);
    }
    9 => {
        chk::<T, _, _>(c, &array![[[[[n(),]]], [[[n()]]], [[[if true { n() } else { x() }]]], [[[T::clone(&n()),],]], [[[match 1 { 1 => n(), _ => x() }]]]]], &[1, 5, 1, 1, 1]);
    }
    10 => {
        chk::<T, _, _>(c, &array![[[[[T::clone(&n()),],],],], [[[[{ n() },],],]]], &[2, 1, 1, 1, 1]);
    }
    11 => {
        chk::<T, _, _>(c, &array![[[[[], []], [[], [],]], [[[], []], [[], []],]], [[[[], []], [[], [],]], [[[], []], [[], []],],]], &[2, 2, 2, 2, 0]);
    }
    12 => {
        chk::<T, _, _>(c, &array![[[[[match 1 { 1 => n(), _ => x() }, { n() },], [T::clone(&n()), T::clone(&n())], [(n()), n()], [n(), n(),]],], [[[n(), if true { n() } else { x() },], [n(), if true { n() } else { x() }], [match 1 { 1 => n(), _ => x() }, n()], [(n()), (n())]]], [[[n(), n(),], [if true { n() } else { x() }, n()], [T::clone(&n()), n()], [n(), if true { n() } else { x() }]]],], [[[[(n()), match 1 { 1 => n(), _ => x() },], [{ n() }, n()], [{ n() }, if true { n() } else { x() }], [{ n() }, n()]]], [[[if true { n() } else { x() }, match 1 { 1 => n(), _ => x() }], [T::clone(&n()), { n() }], [T::clone(&n()), match 1 { 1 => n(), _ => x() }], [n(), n(),]]], [[[n(), n()], [T::clone(&n()), n()], [{ n() }, match 1 { 1 => n(), _ => x() },], [if true { n() } else { x() }, match 1 { 1 => n(), _ => x() }],]],],], &[2, 3, 1, 4, 2]);
    }
    13 => {
        chk::<T, _, _>(c, &array![[[[[T::clone(&n()), { n() }]], [[(n()), n()]],], [[[if true { n() } else { x() }, n(),]], [[n(), n()]],], [[[match 1 { 1 => n(), _ => x() }, n(),],], [[T::clone(&n()), n()]],], [[[(n()), match 1 { 1 => n(), _ => x() }]], [[{ n() }, n()],]],], [[[[if true { n() } else { x() }, T::clone(&n()),]], [[(n()), match 1 { 1 => n(), _ => x() }]]], [[[(n()), if true { n() } else { x() }],], [[n(), if true { n() } else { x() }]]], [[[T::clone(&n()), T::clone(&n())],], [[if true { n() } else { x() }, if true { n() } else { x() }]],], [[[n(), n()]], [[n(), { n() }]],]],], &[2, 4, 2, 1, 2]);
    }
    14 => {
        chk::<T, _, _>(c, &array![[[[[match 1 { 1 => n(), _ => x() }]]]], [[[[{ n() },],]]], [[[[n(),],],]]], &[3, 1, 1, 1, 1]);
    }
    15 => {
        chk::<T, _, _>(c, &array![[[[[n(), n(), n()], [if true { n() } else { x() }, if true { n() } else { x() }, { n() }]]], [[[match 1 { 1 => n(), _ => x() }, if true { n() } else { x() }, { n() }], [T::clone(&n()), match 1 { 1 => n(), _ => x() }, n()],]]], [[[[n(), (n()), n()], [n(), n(), n()]]], [[[T::clone(&n()), n(), { n() }], [n(), n(), (n()),]]]], [[[[n(), n(), n()], [if true { n() } else { x() }, if true { n() } else { x() }, { n() }]]], [[[(n()), if true { n() } else { x() }, if true { n() } else { x() }], [{ n() }, n(), n(),]]]],], &[3, 2, 1, 2, 3]);
    }
    16 => {
        chk::<T, _, _>(c, &array![[[[[n()], [if true { n() } else { x() }]], [[n()], [T::clone(&n())]], [[match 1 { 1 => n(), _ => x() }], [n(),]]], [[[{ n() },], [n(),]], [[n()], [T::clone(&n()),]], [[n()], [match 1 { 1 => n(), _ => x() }]]], [[[n()], [n()]], [[if true { n() } else { x() }], [if true { n() } else { x() }]], [[n()], [match 1 { 1 => n(), _ => x() }]]]], [[[[T::clone(&n())], [n()],], [[{ n() }], [{ n() }]], [[T::clone(&n())], [if true { n() } else { x() },]]], [[[(n())], [if true { n() } else { x() }],], [[n()], [n(),]], [[T::clone(&n()),], [n()]],], [[[match 1 { 1 => n(), _ => x() }], [n()]], [[match 1 { 1 => n(), _ => x() },], [if true { n() } else { x() }]], [[{ n() }], [match 1 { 1 => n(), _ => x() },]]]], [[[[(n()),], [match 1 { 1 => n(), _ => x() },],], [[{ n() },], [n()]], [[n()], [n()]],], [[[n(),], [n()]], [[n()], [if true { n() } else { x() }],], [[n()], [{ n() }]]], [[[n()], [if true { n() } else { x() },]], [[n(),], [if true { n() } else { x() }]], [[T::clone(&n())], [n()]],]]], &[3, 3, 3, 2, 1]);
    }
    17 => {
        chk::<T, _, _>(c, &array![[[[[{ n() }, (n()),],], [[{ n() }, n(),]], [[n(), T::clone(&n())]],]], [[[[{ n() }, T::clone(&n()),]], [[(n()), if true { n() } else { x() }],], [[T::clone(&n()), n(),]]]], [[[[T::clone(&n()), n()]], [[{ n() }, (n()),],], [[match 1 { 1 => n(), _ => x() }, T::clone(&n())]]]], [[[[if true { n() } else { x() }, if true { n() } else { x() }],], [[(n()), n(),]], [[n(), n()]],]]], &[4, 1, 3, 1, 2]);
    }
    18 => {
        chk::<T, _, _>(c, &array![[[[[n()]]]], [[[[(n())]]]], [[[[n()],]]], [[[[match 1 { 1 => n(), _ => x() }]]]], [[[[match 1 { 1 => n(), _ => x() }]]]]], &[5, 1, 1, 1, 1]);
    }
    19 => {
        chk::<T, _, _>(c, &array![[[[[[],]]]]], &[1, 1, 1, 1, 1, 0]);
    }
    20 => {
        chk::<T, _, _>(c, &array![[[[[[match 1 { 1 => n(), _ => x() }],],],]],], &[1, 1, 1, 1, 1, 1]);
    }
    21 => {
        chk::<T, _, _>(c, &array![[[[[[T::clone(&n()), if true { n() } else { x() }]],]]]], &[1, 1, 1, 1, 1, 2]);
    }
    22 => {
        chk::<T, _, _>(c, &array![[[[[[match 1 { 1 => n(), _ => x() }, match 1 { 1 => n(), _ => x() }, T::clone(&n())]]]],]], &[1, 1, 1, 1, 1, 3]);
    }
    23 => {
        chk::<T, _, _>(c, &array![[[[[[n(), n(), n(), if true { n() } else { x() }, n()]]]]]], &[1, 1, 1, 1, 1, 5]);
    }
    _ => unreachable!(),
    }
}

fn lit5<T: El>(c: &mut Case, k: usize) {
    let (n, x) = (next::<T>, never::<T>);
    let _ = x;
    match k {
    0 => {
        chk::<T, _, _>(c, &array![[[[[[(n()),], [T::clone(&n())]]]],]], &[1, 1, 1, 1, 2, 1]);
    }
    1 => {
        chk::<T, _, _>(c, &array![[[[[[match 1 { 1 => n(), _ => x() },], [n()], [if true { n() } else { x() }]],]],],], &[1, 1, 1, 1, 3, 1]);
    }
    2 => {
        chk::<T, _, _>(c, &array![[[[[[(n()),], [n()], [match 1 { 1 => n(), _ => x() }], [if true { n() } else { x() },], [n()]]],]]], &[1, 1, 1, 1, 5, 1]);
    }
    3 => {
        chk::<T, _, _>(c, &array![[[[[[n()]], [[{ n() }],]]]]], &[1, 1, 1, 2, 1, 1]);
    }
    4 => {
        chk::<T, _, _>(c, &array![[[[[[n(),]], [[n()]], [[match 1 { 1 => n(), _ => x() }]]]],],], &[1, 1, 1, 3, 1, 1]);
    }
    5 => {
        chk::<T, _, _>(c, &array![[[[[[if true { n() } else { x() },]], [[if true { n() } else { x() }],], [[n()]], [[n(),]], [[if true { n() } else { x() },]]]]],], &[1, 1, 1, 5, 1, 1]);
    }
    6 => {
        chk::<T, _, _>(c, &array![[[[[[n(),]],], [[[n()]],]]]], &[1, 1, 2, 1, 1, 1]);
    }
    7 => {
        chk::<T, _, _>(c, &array![[[[[[if true { n() } else { x() }],]], [[[(n())],]], [[[n()],]],],],], &[1, 1, 3, 1, 1, 1]);
    }
    8 => {
        chk::<T, _, _>(c, &array![[[[[[{ n() }], [(n())]], [[n()], [{ n() }]], [[if true { n() } else { x() }], [if true { n() } else { x() }],]], [[[n()], [n(),]], [[n(),], [{ n() }]], [[n()], [if true { n() } else { x() }],],], [[[{ n() }], [if true { n() } else { x() }]], [[if true { n() } else { x() }], [(n()),]], [[n()], [if true { n() } else { x() }],],],]],], &[1, 1, 3, 3, 2, 1]);
    }
    9 => {
        chk::<T, _, _>(c, &array![[[[[[n(), n(), { n() }], [{ n() }, n(), match 1 { 1 => n(), _ => x() }]], [[n(), n(), { n() }], [n(), T::clone(&n()), T::clone(&n())]], [[T::clone(&n()), { n() }, if true { n() } else { x() }], [if true { n() } else { x() }, n(), if true { n() } else { x() }]]], [[[n(), (n()), T::clone(&n())], [if true { n() } else { x() }, n(), if true { n() } else { x() }],], [[if true { n() } else { x() }, n(), (n())], [{ n() }, n(), T::clone(&n())]], [[n(), n(), if true { n() } else { x() }], [{ n() }, (n()), n(),],]], [[[n(), T::clone(&n()), n()], [n(), n(), match 1 { 1 => n(), _ => x() }]], [[n(), match 1 { 1 => n(), _ => x() }, n()], [{ n() }, n(), match 1 { 1 => n(), _ => x() }]], [[match 1 { 1 => n(), _ => x() }, if true { n() } else { x() }, n()], [if true { n() } else { x() }, match 1 { 1 => n(), _ => x() }, if true { n() } else { x() }]]], [[[(n()), n(), if true { n() } else { x() }], [match 1 { 1 => n(), _ => x() }, n(), { n() }]], [[(n()), (n()), T::clone(&n())], [(n()), n(), match 1 { 1 => n(), _ => x() }]], [[{ n() }, { n() }, if true { n() } else { x() }], [{ n() }, { n() }, (n())],]]]]], &[1, 1, 4, 3, 2, 3]);
    }
    10 => {
        chk::<T, _, _>(c, &array![[[[[[if true { n() } else { x() }]]], [[[{ n() }]]], [[[n()]],], [[[if true { n() } else { x() }]],], [[[n()]]]],]], &[1, 1, 5, 1, 1, 1]);
    }
    11 => {
        chk::<T, _, _>(c, &array![[[[[[n()]]]], [[[[{ n() }]],]]],], &[1, 2, 1, 1, 1, 1]);
    }
    12 => {
        chk::<T, _, _>(c, &array![[[[[[n()], [match 1 { 1 => n(), _ => x() }], [if true { n() } else { x() },], [n()],]]], [[[[n()], [n(),], [T::clone(&n()),], [match 1 { 1 => n(), _ => x() }]]]],]], &[1, 2, 1, 1, 4, 1]);
    }
    13 => {
        chk::<T, _, _>(c, &array![[[[[[match 1 { 1 => n(), _ => x() }, n()], [n(), if true { n() } else { x() }], [n(), match 1 { 1 => n(), _ => x() }], [n(), match 1 { 1 => n(), _ => x() },]], [[n(), T::clone(&n())], [if true { n() } else { x() }, match 1 { 1 => n(), _ => x() }], [n(), if true { n() } else { x() }], [n(), { n() }]], [[(n()), (n())], [{ n() }, { n() }], [{ n() }, n(),], [n(), match 1 { 1 => n(), _ => x() }]],]], [[[[if true { n() } else { x() }, n()], [{ n() }, T::clone(&n()),], [if true { n() } else { x() }, { n() },], [n(), if true { n() } else { x() }]], [[T::clone(&n()), n()], [n(), (n())], [n(), (n())], [{ n() }, n()]], [[T::clone(&n()), T::clone(&n())], [match 1 { 1 => n(), _ => x() }, T::clone(&n())], [n(), if true { n() } else { x() }], [T::clone(&n()), { n() },],]]],],], &[1, 2, 1, 3, 4, 2]);
    }
    14 => {
        chk::<T, _, _>(c, &array![[[[[[T::clone(&n()), n(), n()]], [[n(), { n() }, n()]], [[{ n() }, n(), match 1 { 1 => n(), _ => x() },]]], [[[{ n() }, { n() }, if true { n() } else { x() }]], [[if true { n() } else { x() }, n(), { n() }]], [[if true { n() } else { x() }, T::clone(&n()), n()]],]], [[[[n(), (n()), T::clone(&n())]], [[(n()), T::clone(&n()), match 1 { 1 => n(), _ => x() }]], [[n(), n(), T::clone(&n())]]], [[[n(), (n()), T::clone(&n())]], [[{ n() }, n(), (n())]], [[{ n() }, T::clone(&n()), (n())]]]]]], &[1, 2, 2, 3, 1, 3]);
    }
    15 => {
        chk::<T, _, _>(c, &array![[[[[[n()],],]], [[[[n(),]]]], [[[[T::clone(&n())]],]]]], &[1, 3, 1, 1, 1, 1]);
    }
    16 => {
        chk::<T, _, _>(c, &array![[[[[[{ n() }, T::clone(&n()), match 1 { 1 => n(), _ => x() },]],], [[[match 1 { 1 => n(), _ => x() }, (n()), n(),],]], [[[n(), match 1 { 1 => n(), _ => x() }, match 1 { 1 => n(), _ => x() }]],], [[[T::clone(&n()), match 1 { 1 => n(), _ => x() }, { n() }]],],], [[[[{ n() }, if true { n() } else { x() }, if true { n() } else { x() }],]], [[[n(), { n() }, n()]]], [[[n(), T::clone(&n()), (n())],],], [[[(n()), if true { n() } else { x() }, { n() }],]]], [[[[n(), T::clone(&n()), n(),]]], [[[if true { n() } else { x() }, n(), if true { n() } else { x() },],],], [[[n(), match 1 { 1 => n(), _ => x() }, if true { n() } else { x() },]]], [[[T::clone(&n()), if true { n() } else { x() }, T::clone(&n())]]]]]], &[1, 3, 4, 1, 1, 3]);
    }
    17 => {
        chk::<T, _, _>(c, &array![[[[[[match 1 { 1 => n(), _ => x() },]],],], [[[[(n())]]]], [[[[match 1 { 1 => n(), _ => x() },]]]], [[[[T::clone(&n())],]]], [[[[{ n() }]]]],]], &[1, 5, 1, 1, 1, 1]);
    }
    18 => {
        chk::<T, _, _>(c, &array![[[[[[n()],]]]], [[[[[{ n() }]],]]]], &[2, 1, 1, 1, 1, 1]);
    }
    19 => {
        chk::<T, _, _>(c, &array![[[[[[match 1 { 1 => n(), _ => x() }, (n()), { n() }, (n()),]], [[{ n() }, if true { n() } else { x() }, { n() }, n()]], [[if true { n() } else { x() }, if true { n() } else { x() }, (n()), { n() }]], [[T::clone(&n()), if true { n() } else { x() }, n(), T::clone(&n()),]],],],], [[[[[if true { n() } else { x() }, T::clone(&n()), n(), n()]], [[n(), n(), (n()), (n()),]], [[T::clone(&n()), T::clone(&n()), if true { n() } else { x() }, (n())],], [[n(), { n() }, n(), T::clone(&n()),]]]]]], &[2, 1, 1, 4, 1, 4]);
    }
    20 => {
        chk::<T, _, _>(c, &array![[[[[[], []], [[], []]], [[[], []], [[], []]]], [[[[], []], [[], [],]], [[[], []], [[], []]]]], [[[[[], []], [[], []]], [[[], [],], [[], []],]], [[[[], []], [[], []]], [[[], []], [[], [],],]],]], &[2, 2, 2, 2, 2, 0]);
    }
    21 => {
        chk::<T, _, _>(c, &array![[[[[[(n())],],]]], [[[[[n()],]]]], [[[[[T::clone(&n())],]]]]], &[3, 1, 1, 1, 1, 1]);
    }
    22 => {
        chk::<T, _, _>(c, &array![[[[[[n()]]]]], [[[[[match 1 { 1 => n(), _ => x() },],]],]], [[[[[(n())]]]]], [[[[[n()]],]]], [[[[[n(),],],]]]], &[5, 1, 1, 1, 1, 1]);
    }
    23 => {
        chk::<T, _, _>(c, &tensor![], &[0]);
    }
    _ => unreachable!(),
    }
}

fn lit6<T: El>(c: &mut Case, k: usize) {
    let (n, x) = (next::<T>, never::<T>);
    let _ = x;
    match k {
    0 => {
        chk::<T, _, _>(c, &tensor![n(),], &[1]);
    }
    1 => {
        chk::<T, _, _>(c, &tensor![match 1 { 1 => n(), _ => x() }, n()], &[2]);
    }
    2 => {
        chk::<T, _, _>(c, &tensor![(n()), n(), n()], &[3]);
    }
    3 => {
        chk::<T, _, _>(c, &tensor![if true { n() } else { x() }, (n()), T::clone(&n()), { n() }], &[4]);
    }
    4 => {
        chk::<T, _, _>(c, &tensor![{ n() }, (n()), T::clone(&n()), n(), { n() }], &[5]);
    }
    5 => {
        chk::<T, _, _>(c, &tensor![match 1 { 1 => n(), _ => x() }, n(), T::clone(&n()), n(), n(), n()], &[6]);
    }
    6 => {
        chk::<T, _, _>(c, &tensor![(n()), n(), n(), n(), n(), T::clone(&n()), (n())], &[7]);
    }
    7 => {
        chk::<T, _, _>(c, &tensor![match 1 { 1 => n(), _ => x() }, n(), if true { n() } else { x() }, { n() }, n(), n(), n(), n()], &[8]);
    }
    8 => {
        chk::<T, _, _>(c, &tensor![match 1 { 1 => n(), _ => x() }, n(), n(), n(), if true { n() } else { x() }, match 1 { 1 => n(), _ => x() }, n(), { n() }, (n())], &[9]);
    }
    9 => {
        chk::<T, _, _>(c, &tensor![{ n() }, if true { n() } else { x() }, if true { n() } else { x() }, { n() }, if true { n() } else { x() }, (n()), match 1 { 1 => n(), _ => x() }, T::clone(&n()), n(), (n()), (n()), T::clone(&n()), n(), match 1 { 1 => n(), _ => x() }, n(), n(), n(), n(), if true { n() } else { x() }, match 1 { 1 => n(), _ => x() }, if true { n() } else { x() }, { n() }, T::clone(&n()), { n() }, match 1 { 1 => n(), _ => x() }, match 1 { 1 => n(), _ => x() }, n(), { n() }, n(), (n()), (n()), T::clone(&n()), if true { n() } else { x() },], &[33]);
    }
    10 => {
        chk::<T, _, _>(c, &tensor![[]], &[1, 0]);
    }
    11 => {
        chk::<T, _, _>(c, &tensor![[(n()),],], &[1, 1]);
    }
    12 => {
        chk::<T, _, _>(c, &tensor![[n(), n()]], &[1, 2]);
    }
    13 => {
        chk::<T, _, _>(c, &tensor![[{ n() }, n(), n(),]], &[1, 3]);
    }
    14 => {
        chk::<T, _, _>(c, &tensor![[{ n() }, T::clone(&n()), match 1 { 1 => n(), _ => x() }, n()]], &[1, 4]);
    }
    15 => {
        chk::<T, _, _>(c, &tensor![[n(), n(), { n() }, n(), T::clone(&n())]], &[1, 5]);
    }
    16 => {
        chk::<T, _, _>(c, &tensor![[], []], &[2, 0]);
    }
    17 => {
        chk::<T, _, _>(c, &tensor![[n()], [if true { n() } else { x() }]], &[2, 1]);
    }
    18 => {
        chk::<T, _, _>(c, &tensor![[if true { n() } else { x() }, n(),], [{ n() }, if true { n() } else { x() },],], &[2, 2]);
    }
    19 => {
        chk::<T, _, _>(c, &tensor![[T::clone(&n()), { n() }, (n())], [{ n() }, match 1 { 1 => n(), _ => x() }, n()]], &[2, 3]);
    }
    20 => {
        chk::<T, _, _>(c, &tensor![[T::clone(&n()), { n() }, n(), match 1 { 1 => n(), _ => x() }], [(n()), n(), n(), T::clone(&n())]], &[2, 4]);
    }
    21 => {
        chk::<T, _, _>(c, &tensor![[n(),], [T::clone(&n())], [n()]], &[3, 1]);
    }
    22 => {
        chk::<T, _, _>(c, &tensor![[match 1 { 1 => n(), _ => x() }, match 1 { 1 => n(), _ => x() }], [(n()), n()], [match 1 { 1 => n(), _ => x() }, match 1 { 1 => n(), _ => x() }]], &[3, 2]);
    }
    23 => {
        chk::<T, _, _>(c, &tensor![[if true { n() } else { x() }, { n() }, match 1 { 1 => n(), _ => x() }], [(n()), (n()), T::clone(&n())], [n(), (n()), (n())]], &[3, 3]);
    }
    _ => unreachable!(),
    }
}

fn lit7<T: El>(c: &mut Case, k: usize) {
    let (n, x) = (next::<T>, never::<T>);
    let _ = x;
    match k {
    0 => {
        chk::<T, _, _>(c, &tensor![[(n()), n(), if true { n() } else { x() }, n(),], [if true { n() } else { x() }, if true { n() } else { x() }, T::clone(&n()), n()], [n(), n(), n(), n(),]], &[3, 4]);
    }
    1 => {
        chk::<T, _, _>(c, &tensor![[(n())], [T::clone(&n())], [n()], [n()]], &[4, 1]);
    }
    2 => {
        chk::<T, _, _>(c, &tensor![[(n()), n()], [if true { n() } else { x() }, n()], [{ n() }, if true { n() } else { x() }], [n(), if true { n() } else { x() }],], &[4, 2]);
    }
    3 => {
        chk::<T, _, _>(c, &tensor![[if true { n() } else { x() }, (n()), T::clone(&n())], [n(), (n()), { n() }], [n(), n(), n(),], [n(), n(), (n())],], &[4, 3]);
    }
    4 => {
        chk::<T, _, _>(c, &tensor![[n(), n(), T::clone(&n()), n()], [if true { n() } else { x() }, if true { n() } else { x() }, (n()), n()], [(n()), n(), n(), (n()),], [T::clone(&n()), if true { n() } else { x() }, (n()), T::clone(&n())]], &[4, 4]);
    }
    5 => {
        chk::<T, _, _>(c, &tensor![[n()], [T::clone(&n())], [n()], [T::clone(&n())], [match 1 { 1 => n(), _ => x() }]], &[5, 1]);
    }
    6 => {
        chk::<T, _, _>(c, &tensor![[[],]], &[1, 1, 0]);
    }
    7 => {
        chk::<T, _, _>(c, &tensor![[[{ n() }]]], &[1, 1, 1]);
    }
    8 => {
        chk::<T, _, _>(c, &tensor![[[T::clone(&n()), T::clone(&n())]]], &[1, 1, 2]);
    }
    9 => {
        chk::<T, _, _>(c, &tensor![[[match 1 { 1 => n(), _ => x() }, n(), n()]],], &[1, 1, 3]);
    }
    10 => {
        chk::<T, _, _>(c, &tensor![[[n(), (n()), (n()), { n() }]],], &[1, 1, 4]);
    }
    11 => {
        chk::<T, _, _>(c, &tensor![[[T::clone(&n()), T::clone(&n()), if true { n() } else { x() }, n(), (n())]]], &[1, 1, 5]);
    }
    12 => {
        chk::<T, _, _>(c, &tensor![[[n()], [n(),],]], &[1, 2, 1]);
    }
    13 => {
        chk::<T, _, _>(c, &tensor![[[n(), n()], [T::clone(&n()), n(),],],], &[1, 2, 2]);
    }
    14 => {
        chk::<T, _, _>(c, &tensor![[[(n())], [T::clone(&n()),], [n()],]], &[1, 3, 1]);
    }
    15 => {
        chk::<T, _, _>(c, &tensor![[[T::clone(&n()), if true { n() } else { x() }, match 1 { 1 => n(), _ => x() }], [if true { n() } else { x() }, (n()), match 1 { 1 => n(), _ => x() }], [{ n() }, n(), { n() }]],], &[1, 3, 3]);
    }
    16 => {
        chk::<T, _, _>(c, &tensor![[[n(), n(), n(), if true { n() } else { x() }], [T::clone(&n()), T::clone(&n()), n(), if true { n() } else { x() },], [n(), if true { n() } else { x() }, n(), (n())],]], &[1, 3, 4]);
    }
    17 => {
        chk::<T, _, _>(c, &tensor![[[if true { n() } else { x() }], [n()], [{ n() }], [n()]]], &[1, 4, 1]);
    }
    18 => {
        chk::<T, _, _>(c, &tensor![[[n(),], [{ n() },], [n()], [n()], [match 1 { 1 => n(), _ => x() },]]], &[1, 5, 1]);
    }
    19 => {
        chk::<T, _, _>(c, &tensor![[[n()]], [[n(),]]], &[2, 1, 1]);
    }
    20 => {
        chk::<T, _, _>(c, &tensor![[[], [],], [[], []]], &[2, 2, 0]);
    }
    21 => {
        chk::<T, _, _>(c, &tensor![[[if true { n() } else { x() }], [n()], [n()]], [[match 1 { 1 => n(), _ => x() }], [{ n() }], [match 1 { 1 => n(), _ => x() }],]], &[2, 3, 1]);
    }
    22 => {
        chk::<T, _, _>(c, &tensor![[[n(), if true { n() } else { x() }, { n() }], [(n()), n(), match 1 { 1 => n(), _ => x() }], [n(), T::clone(&n()), n(),],], [[if true { n() } else { x() }, n(), if true { n() } else { x() }], [n(), { n() }, T::clone(&n()),], [n(), match 1 { 1 => n(), _ => x() }, n(),],],], &[2, 3, 3]);
    }
    23 => {
        chk::<T, _, _>(c, &tensor![[[n(), match 1 { 1 => n(), _ => x() }], [n(), match 1 { 1 => n(), _ => x() }], [match 1 { 1 => n(), _ => x() }, { n() }], [(n()), T::clone(&n())]], [[n(), n()], [(n()), n()], [n(), n(),], [n(), n(),]]], &[2, 4, 2]);
    }
    _ => unreachable!(),
    }
}

fn lit8<T: El>(c: &mut Case, k: usize) {
    let (n, x) = (next::<T>, never::<T>);
    let _ = x;
    match k {
    0 => {
        chk::<T, _, _>(c, &tensor![[[T::clone(&n()), if true { n() } else { x() }, n(), if true { n() } else { x() },], [T::clone(&n()), { n() }, n(), if true { n() } else { x() }], [n(), T::clone(&n()), (n()), n(),], [n(), T::clone(&n()), if true { n() } else { x() }, n()]], [[n(), match 1 { 1 => n(), _ => x() }, (n()), n()], [n(), n(), (n()), { n() }], [n(), n(), n(), if true { n() } else { x() }], [n(), match 1 { 1 => n(), _ => x() }, (n()), n(),],]], &[2, 4, 4]);
    }
    1 => {
        chk::<T, _, _>(c, &tensor![[[n(),],], [[n()],], [[if true { n() } else { x() }]],], &[3, 1, 1]);
    }
    2 => {
        chk::<T, _, _>(c, &tensor![[[{ n() }, n(), n(), if true { n() } else { x() },],], [[n(), { n() }, (n()), match 1 { 1 => n(), _ => x() },]], [[n(), T::clone(&n()), n(), T::clone(&n())]]], &[3, 1, 4]);
    }
    3 => {
        chk::<T, _, _>(c, &tensor![[[(n()), n()], [{ n() }, n()],], [[n(), T::clone(&n())], [{ n() }, n(),]], [[{ n() }, n()], [n(), T::clone(&n()),]]], &[3, 2, 2]);
    }
    4 => {
        chk::<T, _, _>(c, &tensor![[[n(), { n() }, { n() }], [n(), n(), if true { n() } else { x() },], [if true { n() } else { x() }, T::clone(&n()), T::clone(&n())], [match 1 { 1 => n(), _ => x() }, n(), (n()),]], [[n(), { n() }, n()], [n(), n(), n()], [if true { n() } else { x() }, n(), if true { n() } else { x() }], [T::clone(&n()), if true { n() } else { x() }, n()]], [[n(), n(), (n())], [T::clone(&n()), n(), n()], [{ n() }, if true { n() } else { x() }, n()], [n(), n(), T::clone(&n()),]]], &[3, 4, 3]);
    }
    5 => {
        chk::<T, _, _>(c, &tensor![[[n(), n(), (n())]], [[if true { n() } else { x() }, match 1 { 1 => n(), _ => x() }, n(),],], [[if true { n() } else { x() }, n(), { n() }],], [[{ n() }, n(), n()]],], &[4, 1, 3]);
    }
    6 => {
        chk::<T, _, _>(c, &tensor![[[(n()), n(), if true { n() } else { x() }, { n() }]], [[if true { n() } else { x() }, n(), n(), n(),],], [[n(), T::clone(&n()), { n() }, (n())],], [[if true { n() } else { x() }, n(), T::clone(&n()), (n()),]]], &[4, 1, 4]);
    }
    7 => {
        chk::<T, _, _>(c, &tensor![[[(n()), T::clone(&n()), n(),], [n(), n(), match 1 { 1 => n(), _ => x() }]], [[n(), match 1 { 1 => n(), _ => x() }, { n() }], [n(), n(), n()]], [[n(), n(), match 1 { 1 => n(), _ => x() }], [match 1 { 1 => n(), _ => x() }, (n()), match 1 { 1 => n(), _ => x() }]], [[match 1 { 1 => n(), _ => x() }, n(), n()], [n(), T::clone(&n()), n()]]], &[4, 2, 3]);
    }
    8 => {
        chk::<T, _, _>(c, &tensor![[[n(), if true { n() } else { x() }], [{ n() }, (n())], [{ n() }, n()], [T::clone(&n()), if true { n() } else { x() }]], [[T::clone(&n()), n(),], [match 1 { 1 => n(), _ => x() }, match 1 { 1 => n(), _ => x() },], [T::clone(&n()), T::clone(&n()),], [match 1 { 1 => n(), _ => x() }, if true { n() } else { x() },]], [[n(), n()], [match 1 { 1 => n(), _ => x() }, n(),], [match 1 { 1 => n(), _ => x() }, match 1 { 1 => n(), _ => x() }], [(n()), T::clone(&n()),]], [[T::clone(&n()), T::clone(&n())], [n(), if true { n() } else { x() }], [T::clone(&n()), (n())], [(n()), n()]],], &[4, 4, 2]);
    }
    9 => {
        chk::<T, _, _>(c, &tensor![[[(n())],], [[if true { n() } else { x() }]], [[n(),],], [[n()]], [[T::clone(&n()),]]], &[5, 1, 1]);
    }
    10 => {
        chk::<T, _, _>(c, &tensor![[[[],]]], &[1, 1, 1, 0]);
    }
    11 => {
        chk::<T, _, _>(c, &tensor![[[[n()]]]], &[1, 1, 1, 1]);
    }
    12 => {
        chk::<T, _, _>(c, &tensor![[[[if true { n() } else { x() }, n()]]]], &[1, 1, 1, 2]);
    }
    13 => {
        chk::<T, _, _>(c, &tensor![[[[match 1 { 1 => n(), _ => x() }, n(), n()]],],], &[1, 1, 1, 3]);
    }
    14 => {
        chk::<T, _, _>(c, &tensor![[[[(n()), { n() }, { n() }, n(), n(),]]],], &[1, 1, 1, 5]);
    }
    15 => {
        chk::<T, _, _>(c, &tensor![[[[{ n() }], [n()]]]], &[1, 1, 2, 1]);
    }
    16 => {
        chk::<T, _, _>(c, &tensor![[[[n()], [if true { n() } else { x() }], [(n())],]]], &[1, 1, 3, 1]);
    }
    17 => {
        chk::<T, _, _>(c, &tensor![[[[if true { n() } else { x() }], [n()], [n()], [T::clone(&n())], [n()],]]], &[1, 1, 5, 1]);
    }
    18 => {
        chk::<T, _, _>(c, &tensor![[[[n()]], [[n(),]],],], &[1, 2, 1, 1]);
    }
    19 => {
        chk::<T, _, _>(c, &tensor![[[[n()]], [[T::clone(&n())]], [[{ n() }]],],], &[1, 3, 1, 1]);
    }
    20 => {
        chk::<T, _, _>(c, &tensor![[[[(n())], [n(),]], [[n()], [(n()),],], [[T::clone(&n())], [{ n() }]]]], &[1, 3, 2, 1]);
    }
    21 => {
        chk::<T, _, _>(c, &tensor![[[[n()],], [[(n())]], [[n()]], [[n()]], [[n()]],],], &[1, 5, 1, 1]);
    }
    22 => {
        chk::<T, _, _>(c, &tensor![[[[n()],]], [[[{ n() }]]],], &[2, 1, 1, 1]);
    }
    23 => {
        chk::<T, _, _>(c, &tensor![[[[n(), n(),]],], [[[(n()), (n())]]],], &[2, 1, 1, 2]);
    }
    _ => unreachable!(),
    }
}

fn lit9<T: El>(c: &mut Case, k: usize) {
    let (n, x) = (next::<T>, never::<T>);
    let _ = x;
    match k {
    0 => {
        chk::<T, _, _>(c, &tensor![[[[n(), { n() }], [n(), n()]],], [[[T::clone(&n()), (n())], [(n()), match 1 { 1 => n(), _ => x() }]]],], &[2, 1, 2, 2]);
    }
    1 => {
        chk::<T, _, _>(c, &tensor![[[[], []], [[], []]], [[[], []], [[], []]]], &[2, 2, 2, 0]);
    }
    2 => {
        chk::<T, _, _>(c, &tensor![[[[T::clone(&n())]], [[n(),]], [[n(),],]], [[[n(),],], [[n()]], [[n()]]]], &[2, 3, 1, 1]);
    }
    3 => {
        chk::<T, _, _>(c, &tensor![[[[if true { n() } else { x() }, { n() }, { n() }],], [[n(), n(), T::clone(&n())]], [[{ n() }, n(), n()],], [[match 1 { 1 => n(), _ => x() }, T::clone(&n()), n()]]], [[[n(), n(), n()]], [[match 1 { 1 => n(), _ => x() }, match 1 { 1 => n(), _ => x() }, (n())],], [[if true { n() } else { x() }, { n() }, n()]], [[(n()), match 1 { 1 => n(), _ => x() }, { n() }]]],], &[2, 4, 1, 3]);
    }
    4 => {
        chk::<T, _, _>(c, &tensor![[[[match 1 { 1 => n(), _ => x() }],]], [[[match 1 { 1 => n(), _ => x() }]]], [[[match 1 { 1 => n(), _ => x() }],]]], &[3, 1, 1, 1]);
    }
    5 => {
        chk::<T, _, _>(c, &tensor![[[[n(), { n() }, { n() }], [n(), T::clone(&n()), n()], [n(), if true { n() } else { x() }, n(),]]], [[[(n()), if true { n() } else { x() }, (n())], [match 1 { 1 => n(), _ => x() }, n(), n()], [match 1 { 1 => n(), _ => x() }, { n() }, if true { n() } else { x() }]],], [[[n(), (n()), if true { n() } else { x() }], [if true { n() } else { x() }, n(), (n())], [T::clone(&n()), (n()), n()],]]], &[3, 1, 3, 3]);
    }
    6 => {
        chk::<T, _, _>(c, &tensor![[[[n()]], [[match 1 { 1 => n(), _ => x() }]]], [[[T::clone(&n())]], [[if true { n() } else { x() }]]], [[[n(),]], [[T::clone(&n()),]]]], &[3, 2, 1, 1]);
    }
    7 => {
        chk::<T, _, _>(c, &tensor![[[[n(), n()], [T::clone(&n()), n(),], [match 1 { 1 => n(), _ => x() }, n()], [n(), match 1 { 1 => n(), _ => x() }]], [[n(), match 1 { 1 => n(), _ => x() }], [if true { n() } else { x() }, n()], [T::clone(&n()), T::clone(&n()),], [n(), T::clone(&n())]]], [[[n(), { n() }], [n(), n()], [n(), n()], [if true { n() } else { x() }, match 1 { 1 => n(), _ => x() },]], [[n(), n()], [T::clone(&n()), { n() }], [n(), T::clone(&n()),], [n(), { n() },]]], [[[n(), if true { n() } else { x() },], [n(), (n()),], [n(), match 1 { 1 => n(), _ => x() },], [T::clone(&n()), { n() },]], [[n(), n()], [if true { n() } else { x() }, if true { n() } else { x() },], [n(), n()], [T::clone(&n()), match 1 { 1 => n(), _ => x() }]]],], &[3, 2, 4, 2]);
    }
    8 => {
        chk::<T, _, _>(c, &tensor![[[[match 1 { 1 => n(), _ => x() }, match 1 { 1 => n(), _ => x() },]], [[T::clone(&n()), match 1 { 1 => n(), _ => x() }],], [[if true { n() } else { x() }, n(),]]], [[[n(), (n())],], [[match 1 { 1 => n(), _ => x() }, match 1 { 1 => n(), _ => x() }],], [[if true { n() } else { x() }, n()]]], [[[n(), (n()),],], [[(n()), T::clone(&n())]], [[T::clone(&n()), n()]]]], &[3, 3, 1, 2]);
    }
    9 => {
        chk::<T, _, _>(c, &tensor![[[[n(), n(), n(), (n())], [n(), n(), (n()), { n() }], [n(), (n()), if true { n() } else { x() }, match 1 { 1 => n(), _ => x() }]]], [[[n(), { n() }, if true { n() } else { x() }, n()], [{ n() }, T::clone(&n()), match 1 { 1 => n(), _ => x() }, if true { n() } else { x() }], [T::clone(&n()), n(), match 1 { 1 => n(), _ => x() }, n(),]]], [[[T::clone(&n()), if true { n() } else { x() }, (n()), n()], [T::clone(&n()), n(), (n()), T::clone(&n()),], [match 1 { 1 => n(), _ => x() }, { n() }, match 1 { 1 => n(), _ => x() }, { n() }],]], [[[if true { n() } else { x() }, if true { n() } else { x() }, n(), match 1 { 1 => n(), _ => x() },], [n(), n(), T::clone(&n()), if true { n() } else { x() }], [{ n() }, n(), n(), (n())]]]], &[4, 1, 3, 4]);
    }
    10 => {
        chk::<T, _, _>(c, &tensor![[[[T::clone(&n()), n(), n()], [T::clone(&n()), if true { n() } else { x() }, { n() }]], [[n(), { n() }, if true { n() } else { x() },], [n(), match 1 { 1 => n(), _ => x() }, if true { n() } else { x() }]],], [[[(n()), T::clone(&n()), n(),], [{ n() }, match 1 { 1 => n(), _ => x() }, n()],], [[n(), T::clone(&n()), n()], [n(), (n()), { n() }]]], [[[n(), if true { n() } else { x() }, n()], [n(), match 1 { 1 => n(), _ => x() }, T::clone(&n()),],], [[match 1 { 1 => n(), _ => x() }, (n()), { n() }], [(n()), if true { n() } else { x() }, match 1 { 1 => n(), _ => x() }]]], [[[if true { n() } else { x() }, n(), { n() }], [match 1 { 1 => n(), _ => x() }, n(), { n() },]], [[{ n() }, match 1 { 1 => n(), _ => x() }, n(),], [T::clone(&n()), (n()), n(),]]],], &[4, 2, 2, 3]);
    }
    11 => {
        chk::<T, _, _>(c, &tensor![[[[n()]], [[(n())]], [[n()]]], [[[if true { n() } else { x() }]], [[n()],], [[match 1 { 1 => n(), _ => x() }]],], [[[(n())],], [[if true { n() } else { x() },]], [[match 1 { 1 => n(), _ => x() }],],], [[[n(),]], [[(n())]], [[if true { n() } else { x() },],]],], &[4, 3, 1, 1]);
    }
    12 => {
        chk::<T, _, _>(c, &tensor![[[[match 1 { 1 => n(), _ => x() }, (n()), T::clone(&n()), n()],], [[if true { n() } else { x() }, T::clone(&n()), { n() }, (n()),],], [[n(), n(), n(), { n() }]], [[n(), match 1 { 1 => n(), _ => x() }, n(), (n())]]], [[[{ n() }, match 1 { 1 => n(), _ => x() }, match 1 { 1 => n(), _ => x() }, T::clone(&n())]], [[if true { n() } else { x() }, T::clone(&n()), { n() }, n()]], [[{ n() }, { n() }, T::clone(&n()), T::clone(&n()),],], [[{ n() }, T::clone(&n()), n(), n()]]], [[[n(), if true { n() } else { x() }, (n()), T::clone(&n())]], [[if true { n() } else { x() }, (n()), match 1 { 1 => n(), _ => x() }, if true { n() } else { x() }]], [[match 1 { 1 => n(), _ => x() }, n(), { n() }, n()],], [[T::clone(&n()), match 1 { 1 => n(), _ => x() }, n(), n()]],], [[[(n()), if true { n() } else { x() }, n(), { n() }]], [[n(), T::clone(&n()), match 1 { 1 => n(), _ => x() }, n(),]], [[n(), n(), T::clone(&n()), n()],], [[{ n() }, T::clone(&n()), if true { n() } else { x() }, T::clone(&n()),],],],], &[4, 4, 1, 4]);
    }
    13 => {
        chk::<T, _, _>(c, &tensor![[[[if true { n() } else { x() },]],], [[[if true { n() } else { x() }]]], [[[n()]]], [[[{ n() }]]], [[[n()],]],], &[5, 1, 1, 1]);
    }
    14 => {
        chk::<T, _, _>(c, &tensor![[[[[]]],],], &[1, 1, 1, 1, 0]);
    }
    15 => {
        chk::<T, _, _>(c, &tensor![[[[[n()]]]]], &[1, 1, 1, 1, 1]);
    }
    16 => {
        chk::<T, _, _>(c, &tensor![[[[[match 1 { 1 => n(), _ => x() }, n()]]]]], &[1, 1, 1, 1, 2]);
    }
    17 => {
        chk::<T, _, _>(c, &tensor![[[[[n(), { n() }, T::clone(&n()),]]],]], &[1, 1, 1, 1, 3]);
    }
    18 => {
        chk::<T, _, _>(c, &tensor![[[[[{ n() }, match 1 { 1 => n(), _ => x() }, T::clone(&n()), { n() }, match 1 { 1 => n(), _ => x() }]]]]], &[1, 1, 1, 1, 5]);
    }
    19 => {
        chk::<T, _, _>(c, &tensor![[[[[n()], [{ n() }]]]]], &[1, 1, 1, 2, 1]);
    }
    20 => {
        chk::<T, _, _>(c, &tensor![[[[[n()], [n(),], [match 1 { 1 => n(), _ => x() }]]],]], &[1, 1, 1, 3, 1]);
    }
    21 => {
        chk::<T, _, _>(c, &tensor![[[[[n()], [n()], [n()], [n()], [if true { n() } else { x() }],]]],], &[1, 1, 1, 5, 1]);
    }
    22 => {
        chk::<T, _, _>(c, &tensor![[[[[match 1 { 1 => n(), _ => x() }],], [[n()]]]]], &[1, 1, 2, 1, 1]);
    }
    23 => {
        chk::<T, _, _>(c, &tensor![[[[[n()]], [[if true { n() } else { x() }],], [[if true { n() } else { x() },],]]]], &[1, 1, 3, 1, 1]);
    }
    _ => unreachable!(),
    }
}

fn lit10<T: El>(c: &mut Case, k: usize) {
    let (n, x) = (next::<T>, never::<T>);
    let _ = x;
    match k {
    0 => {
        chk::<T, _, _>(c, &tensor![[[[[n()], [if true { n() } else { x() }], [n()], [{ n() },]], [[n()], [n()], [{ n() }], [n()]], [[n()], [n(),], [{ n() }], [T::clone(&n()),],], [[n()], [match 1 { 1 => n(), _ => x() }], [n(),], [match 1 { 1 => n(), _ => x() },]],]],], &[1, 1, 4, 4, 1]);
    }
    1 => {
        chk::<T, _, _>(c, &tensor![[[[[if true { n() } else { x() }],], [[{ n() }]], [[n()],], [[{ n() }]], [[match 1 { 1 => n(), _ => x() }]]]],], &[1, 1, 5, 1, 1]);
    }
    2 => {
        chk::<T, _, _>(c, &tensor![[[[[if true { n() } else { x() }]]], [[[T::clone(&n())]],]],], &[1, 2, 1, 1, 1]);
    }
    3 => {
        chk::<T, _, _>(c, &tensor![[[[[T::clone(&n()), { n() }, if true { n() } else { x() }, n()],]], [[[match 1 { 1 => n(), _ => x() }, match 1 { 1 => n(), _ => x() }, { n() }, n()]]]]], &[1, 2, 1, 1, 4]);
    }
    4 => {
        chk::<T, _, _>(c, &tensor![[[[[n(), (n()), T::clone(&n()), n(),], [match 1 { 1 => n(), _ => x() }, n(), match 1 { 1 => n(), _ => x() }, match 1 { 1 => n(), _ => x() }], [match 1 { 1 => n(), _ => x() }, match 1 { 1 => n(), _ => x() }, (n()), n()]], [[if true { n() } else { x() }, n(), { n() }, n(),], [n(), n(), n(), if true { n() } else { x() }], [T::clone(&n()), { n() }, if true { n() } else { x() }, T::clone(&n())]], [[if true { n() } else { x() }, { n() }, n(), match 1 { 1 => n(), _ => x() }], [(n()), n(), { n() }, { n() }], [n(), n(), if true { n() } else { x() }, { n() },]]], [[[n(), T::clone(&n()), n(), if true { n() } else { x() }], [match 1 { 1 => n(), _ => x() }, match 1 { 1 => n(), _ => x() }, { n() }, if true { n() } else { x() }], [{ n() }, n(), n(), if true { n() } else { x() }]], [[if true { n() } else { x() }, match 1 { 1 => n(), _ => x() }, T::clone(&n()), n(),], [T::clone(&n()), if true { n() } else { x() }, match 1 { 1 => n(), _ => x() }, n()], [match 1 { 1 => n(), _ => x() }, (n()), match 1 { 1 => n(), _ => x() }, n()],], [[T::clone(&n()), { n() }, n(), match 1 { 1 => n(), _ => x() }], [(n()), if true { n() } else { x() }, if true { n() } else { x() }, n()], [if true { n() } else { x() }, n(), T::clone(&n()), T::clone(&n())],],]]], &[1, 2, 3, 3, 4]);
    }
    5 => {
        chk::<T, _, _>(c, &tensor![[[[[n()]]], [[[(n())]]], [[[n()],],]],], &[1, 3, 1, 1, 1]);
    }
    6 => {
        chk::<T, _, _>(c, &tensor![[[[[(n()), if true { n() } else { x() }, (n())], [match 1 { 1 => n(), _ => x() }, T::clone(&n()), if true { n() } else { x() },], [(n()), T::clone(&n()), n()], [{ n() }, match 1 { 1 => n(), _ => x() }, n()]]], [[[T::clone(&n()), n(), (n())], [n(), n(), match 1 { 1 => n(), _ => x() }], [if true { n() } else { x() }, if true { n() } else { x() }, T::clone(&n()),], [T::clone(&n()), T::clone(&n()), (n())]],], [[[n(), match 1 { 1 => n(), _ => x() }, n()], [if true { n() } else { x() }, match 1 { 1 => n(), _ => x() }, match 1 { 1 => n(), _ => x() }], [T::clone(&n()), { n() }, if true { n() } else { x() }], [n(), n(), { n() },]]]]], &[1, 3, 1, 4, 3]);
    }
    7 => {
        chk::<T, _, _>(c, &tensor![[[[[n(), if true { n() } else { x() }], [{ n() }, match 1 { 1 => n(), _ => x() }], [n(), n(),], [if true { n() } else { x() }, n()],], [[n(), T::clone(&n())], [if true { n() } else { x() }, n(),], [match 1 { 1 => n(), _ => x() }, n(),], [{ n() }, n(),],]], [[[match 1 { 1 => n(), _ => x() }, n(),], [{ n() }, (n())], [n(), (n())], [T::clone(&n()), if true { n() } else { x() },]], [[n(), (n())], [if true { n() } else { x() }, n()], [n(), { n() },], [n(), (n())]]], [[[(n()), n()], [if true { n() } else { x() }, { n() }], [n(), match 1 { 1 => n(), _ => x() }], [n(), match 1 { 1 => n(), _ => x() }]], [[n(), match 1 { 1 => n(), _ => x() }], [(n()), n()], [if true { n() } else { x() }, n()], [T::clone(&n()), (n())]]]]], &[1, 3, 2, 4, 2]);
    }
    8 => {
        chk::<T, _, _>(c, &tensor![[[[[if true { n() } else { x() }, match 1 { 1 => n(), _ => x() }], [match 1 { 1 => n(), _ => x() }, n(),]]], [[[n(), (n())], [n(), n()]]], [[[n(), match 1 { 1 => n(), _ => x() }], [n(), n()]]], [[[n(), n()], [if true { n() } else { x() }, n()]]]]], &[1, 4, 1, 2, 2]);
    }
    9 => {
        chk::<T, _, _>(c, &tensor![[[[[(n())]]], [[[match 1 { 1 => n(), _ => x() }],]], [[[{ n() }],]], [[[n()]],], [[[(n()),]]]],], &[1, 5, 1, 1, 1]);
    }
    10 => {
        chk::<T, _, _>(c, &tensor![[[[[{ n() }]]]], [[[[(n())]]]],], &[2, 1, 1, 1, 1]);
    }
    11 => {
        chk::<T, _, _>(c, &tensor![[[[[], []], [[], []]], [[[], []], [[], [],]]], [[[[], []], [[], []]], [[[], []], [[], []]],]], &[2, 2, 2, 2, 0]);
    }
    12 => {
        chk::<T, _, _>(c, &tensor![[[[[{ n() },],]]], [[[[{ n() }]],]], [[[[(n())]]],]], &[3, 1, 1, 1, 1]);
    }
    13 => {
        chk::<T, _, _>(c, &tensor![[[[[T::clone(&n()), T::clone(&n())]], [[n(), T::clone(&n()),],], [[n(), (n())]]]], [[[[match 1 { 1 => n(), _ => x() }, (n())]], [[{ n() }, T::clone(&n())]], [[T::clone(&n()), { n() }]]]], [[[[{ n() }, n()]], [[if true { n() } else { x() }, (n())],], [[match 1 { 1 => n(), _ => x() }, match 1 { 1 => n(), _ => x() }]]]],], &[3, 1, 3, 1, 2]);
    }
    14 => {
        chk::<T, _, _>(c, &tensor![[[[[if true { n() } else { x() }, T::clone(&n()), n()]], [[n(), n(), n(),]], [[n(), match 1 { 1 => n(), _ => x() }, n()]]]], [[[[if true { n() } else { x() }, match 1 { 1 => n(), _ => x() }, n(),],], [[T::clone(&n()), n(), match 1 { 1 => n(), _ => x() },],], [[if true { n() } else { x() }, (n()), n(),]]]], [[[[match 1 { 1 => n(), _ => x() }, match 1 { 1 => n(), _ => x() }, T::clone(&n())],], [[T::clone(&n()), n(), T::clone(&n())]], [[match 1 { 1 => n(), _ => x() }, { n() }, n()]],],],], &[3, 1, 3, 1, 3]);
    }
    15 => {
        chk::<T, _, _>(c, &tensor![[[[[{ n() }, (n()), match 1 { 1 => n(), _ => x() }], [n(), if true { n() } else { x() }, (n())], [n(), match 1 { 1 => n(), _ => x() }, n()], [n(), (n()), n(),]]], [[[{ n() }, (n()), n()], [(n()), n(), T::clone(&n())], [n(), T::clone(&n()), { n() }], [n(), match 1 { 1 => n(), _ => x() }, n(),]]],], [[[[T::clone(&n()), n(), n()], [(n()), { n() }, n()], [(n()), (n()), { n() }], [T::clone(&n()), if true { n() } else { x() }, (n())]]], [[[{ n() }, match 1 { 1 => n(), _ => x() }, T::clone(&n())], [T::clone(&n()), n(), T::clone(&n())], [{ n() }, T::clone(&n()), n()], [T::clone(&n()), { n() }, T::clone(&n())]]]], [[[[if true { n() } else { x() }, if true { n() } else { x() }, T::clone(&n()),], [if true { n() } else { x() }, n(), match 1 { 1 => n(), _ => x() }], [T::clone(&n()), n(), if true { n() } else { x() },], [T::clone(&n()), match 1 { 1 => n(), _ => x() }, { n() }],]], [[[T::clone(&n()), n(), if true { n() } else { x() }], [match 1 { 1 => n(), _ => x() }, T::clone(&n()), n(),], [(n()), { n() }, T::clone(&n())], [n(), n(), if true { n() } else { x() }]]]],], &[3, 2, 1, 4, 3]);
    }
    16 => {
        chk::<T, _, _>(c, &tensor![[[[[T::clone(&n())], [T::clone(&n())], [(n())]], [[T::clone(&n())], [(n())], [n()]], [[(n())], [if true { n() } else { x() },], [n()]]],], [[[[{ n() }], [n()], [if true { n() } else { x() },]], [[match 1 { 1 => n(), _ => x() },], [match 1 { 1 => n(), _ => x() }], [(n())]], [[(n())], [n()], [T::clone(&n())]]]], [[[[T::clone(&n())], [n()], [match 1 { 1 => n(), _ => x() }]], [[{ n() }], [n(),], [n(),]], [[{ n() }], [n()], [(n())],]],], [[[[n()], [{ n() }], [n(),]], [[(n()),], [{ n() }], [n(),]], [[match 1 { 1 => n(), _ => x() }], [match 1 { 1 => n(), _ => x() }], [T::clone(&n())]]]]], &[4, 1, 3, 3, 1]);
    }
    17 => {
        chk::<T, _, _>(c, &tensor![[[[[T::clone(&n()),]]],], [[[[n(),]]],], [[[[{ n() }],],]], [[[[if true { n() } else { x() }]]]], [[[[if true { n() } else { x() }],],]]], &[5, 1, 1, 1, 1]);
    }
    18 => {
        chk::<T, _, _>(c, &tensor![[[[[[]]]],]], &[1, 1, 1, 1, 1, 0]);
    }
    19 => {
        chk::<T, _, _>(c, &tensor![[[[[[n()],],]],]], &[1, 1, 1, 1, 1, 1]);
    }
    20 => {
        chk::<T, _, _>(c, &tensor![[[[[[match 1 { 1 => n(), _ => x() }, n()]]]]],], &[1, 1, 1, 1, 1, 2]);
    }
    21 => {
        chk::<T, _, _>(c, &tensor![[[[[[{ n() }, if true { n() } else { x() }, if true { n() } else { x() }]]],],]], &[1, 1, 1, 1, 1, 3]);
    }
    22 => {
        chk::<T, _, _>(c, &tensor![[[[[[if true { n() } else { x() }, n(), n(), match 1 { 1 => n(), _ => x() }, n()]]]]]], &[1, 1, 1, 1, 1, 5]);
    }
    23 => {
        chk::<T, _, _>(c, &tensor![[[[[[if true { n() } else { x() },], [{ n() }]]],]]], &[1, 1, 1, 1, 2, 1]);
    }
    _ => unreachable!(),
    }
}

fn lit11<T: El>(c: &mut Case, k: usize) {
    let (n, x) = (next::<T>, never::<T>);
    let _ = x;
    match k {
    0 => {
        chk::<T, _, _>(c, &tensor![[[[[[(n())], [match 1 { 1 => n(), _ => x() }], [if true { n() } else { x() }]],]]]], &[1, 1, 1, 1, 3, 1]);
    }
    1 => {
        chk::<T, _, _>(c, &tensor![[[[[[n()], [(n())], [n()], [T::clone(&n())], [n()],],],]],], &[1, 1, 1, 1, 5, 1]);
    }
    2 => {
        chk::<T, _, _>(c, &tensor![[[[[[n()],], [[n()]]]]]], &[1, 1, 1, 2, 1, 1]);
    }
    3 => {
        chk::<T, _, _>(c, &tensor![[[[[[T::clone(&n())]], [[{ n() }],], [[match 1 { 1 => n(), _ => x() }]],]],]], &[1, 1, 1, 3, 1, 1]);
    }
    4 => {
        chk::<T, _, _>(c, &tensor![[[[[[(n())]], [[n(),]], [[(n()),],], [[match 1 { 1 => n(), _ => x() }]], [[{ n() },],]],]],], &[1, 1, 1, 5, 1, 1]);
    }
    5 => {
        chk::<T, _, _>(c, &tensor![[[[[[(n())]]], [[[T::clone(&n())]]]]]], &[1, 1, 2, 1, 1, 1]);
    }
    6 => {
        chk::<T, _, _>(c, &tensor![[[[[[match 1 { 1 => n(), _ => x() }],],], [[[{ n() }]]], [[[n(),]]]]]], &[1, 1, 3, 1, 1, 1]);
    }
    7 => {
        chk::<T, _, _>(c, &tensor![[[[[[(n())]]], [[[if true { n() } else { x() }]],], [[[if true { n() } else { x() }],],], [[[n()],],], [[[if true { n() } else { x() }]]],]]], &[1, 1, 5, 1, 1, 1]);
    }
    8 => {
        chk::<T, _, _>(c, &tensor![[[[[[n()]]],], [[[[n()]]]]],], &[1, 2, 1, 1, 1, 1]);
    }
    9 => {
        chk::<T, _, _>(c, &tensor![[[[[[{ n() }]]]], [[[[{ n() }]]],], [[[[n()]]]],]], &[1, 3, 1, 1, 1, 1]);
    }
    10 => {
        chk::<T, _, _>(c, &tensor![[[[[[match 1 { 1 => n(), _ => x() }]]],], [[[[n()]]]], [[[[(n())],]]], [[[[{ n() },],]]], [[[[match 1 { 1 => n(), _ => x() }],]]]],], &[1, 5, 1, 1, 1, 1]);
    }
    11 => {
        chk::<T, _, _>(c, &tensor![[[[[[T::clone(&n())]]]]], [[[[[{ n() }]],]]]], &[2, 1, 1, 1, 1, 1]);
    }
    12 => {
        chk::<T, _, _>(c, &tensor![[[[[[], [],], [[], []]], [[[], []], [[], [],]],], [[[[], []], [[], [],]], [[[], []], [[], []]]]], [[[[[], [],], [[], []]], [[[], []], [[], [],]],], [[[[], []], [[], []]], [[[], []], [[], []]]]]], &[2, 2, 2, 2, 2, 0]);
    }
    13 => {
        chk::<T, _, _>(c, &tensor![[[[[[n(), n(), n(), n()], [n(), { n() }, n(), T::clone(&n())],]],], [[[[n(), n(), n(), (n())], [match 1 { 1 => n(), _ => x() }, n(), n(), n()]]]], [[[[n(), { n() }, T::clone(&n()), n()], [match 1 { 1 => n(), _ => x() }, n(), n(), n(),]]]],], [[[[[n(), n(), match 1 { 1 => n(), _ => x() }, n()], [n(), n(), n(), if true { n() } else { x() }]]]], [[[[n(), n(), if true { n() } else { x() }, match 1 { 1 => n(), _ => x() }], [if true { n() } else { x() }, n(), (n()), n()]]]], [[[[T::clone(&n()), { n() }, { n() }, n()], [if true { n() } else { x() }, n(), n(), n()]]]],]], &[2, 3, 1, 1, 2, 4]);
    }
    14 => {
        chk::<T, _, _>(c, &tensor![[[[[[(n())], [n()], [n()], [if true { n() } else { x() },]]], [[[if true { n() } else { x() }], [T::clone(&n())], [n(),], [(n()),]]]], [[[[if true { n() } else { x() }], [n()], [{ n() }], [if true { n() } else { x() }]]], [[[{ n() }], [n(),], [n()], [(n())]],]], [[[[n(),], [{ n() }], [match 1 { 1 => n(), _ => x() }], [if true { n() } else { x() },]],], [[[{ n() }], [n(),], [T::clone(&n()),], [T::clone(&n())],],]]], [[[[[n()], [(n()),], [{ n() },], [T::clone(&n())],],], [[[n(),], [n()], [n(),], [match 1 { 1 => n(), _ => x() },]]]], [[[[match 1 { 1 => n(), _ => x() }], [n()], [n()], [n(),],],], [[[n()], [T::clone(&n())], [match 1 { 1 => n(), _ => x() },], [n()],]]], [[[[n(),], [(n())], [T::clone(&n())], [{ n() }]]], [[[n(),], [n(),], [T::clone(&n()),], [T::clone(&n()),],]],]],], &[2, 3, 2, 1, 4, 1]);
    }
    15 => {
        chk::<T, _, _>(c, &tensor![[[[[[if true { n() } else { x() }]],], [[[if true { n() } else { x() }],],],], [[[[n()]]], [[[{ n() }]],],], [[[[n()]]], [[[if true { n() } else { x() }],],]], [[[[n()]]], [[[if true { n() } else { x() }]]],]], [[[[[n()]]], [[[{ n() },],]]], [[[[T::clone(&n())]]], [[[n()]],]], [[[[{ n() }]]], [[[(n())]]]], [[[[n()]]], [[[T::clone(&n()),]]]]]], &[2, 4, 2, 1, 1, 1]);
    }
    16 => {
        chk::<T, _, _>(c, &tensor![[[[[[match 1 { 1 => n(), _ => x() }]],]]], [[[[[if true { n() } else { x() }]]]]], [[[[[T::clone(&n()),]]]]],], &[3, 1, 1, 1, 1, 1]);
    }
    17 => {
        chk::<T, _, _>(c, &tensor![[[[[[n(), match 1 { 1 => n(), _ => x() }], [match 1 { 1 => n(), _ => x() }, T::clone(&n())], [(n()), n()],], [[{ n() }, (n()),], [n(), n()], [if true { n() } else { x() }, if true { n() } else { x() }]],]], [[[[n(), { n() }], [T::clone(&n()), { n() }], [if true { n() } else { x() }, match 1 { 1 => n(), _ => x() }]], [[n(), n()], [T::clone(&n()), if true { n() } else { x() }], [(n()), T::clone(&n()),]]],]], [[[[[n(), match 1 { 1 => n(), _ => x() },], [n(), T::clone(&n())], [if true { n() } else { x() }, (n()),]], [[n(), n()], [match 1 { 1 => n(), _ => x() }, if true { n() } else { x() }], [n(), match 1 { 1 => n(), _ => x() }],]]], [[[[n(), (n())], [n(), { n() }], [if true { n() } else { x() }, n()]], [[n(), T::clone(&n())], [T::clone(&n()), T::clone(&n()),], [(n()), match 1 { 1 => n(), _ => x() }],],],]], [[[[[(n()), { n() }], [{ n() }, T::clone(&n())], [n(), T::clone(&n())],], [[{ n() }, T::clone(&n())], [if true { n() } else { x() }, match 1 { 1 => n(), _ => x() }], [T::clone(&n()), (n()),]]]], [[[[T::clone(&n()), if true { n() } else { x() }], [match 1 { 1 => n(), _ => x() }, T::clone(&n()),], [{ n() }, T::clone(&n())]], [[{ n() }, (n()),], [{ n() }, n()], [n(), { n() }]]]]]], &[3, 2, 1, 2, 3, 2]);
    }
    18 => {
        chk::<T, _, _>(c, &tensor![[[[[[T::clone(&n())]], [[(n()),]], [[(n())]]]], [[[[n(),],], [[T::clone(&n())],], [[if true { n() } else { x() }]],]], [[[[n()]], [[match 1 { 1 => n(), _ => x() }]], [[(n())]]]], [[[[n(),]], [[(n()),]], [[n()]]],]], [[[[[n()]], [[n(),]], [[if true { n() } else { x() }]]]], [[[[n(),]], [[(n())]], [[n()],],]], [[[[if true { n() } else { x() }]], [[(n())]], [[if true { n() } else { x() }]],]], [[[[{ n() }]], [[if true { n() } else { x() },]], [[if true { n() } else { x() }]],]]], [[[[[match 1 { 1 => n(), _ => x() },]], [[n()]], [[{ n() },]]],], [[[[n()]], [[n()],], [[{ n() },]]]], [[[[n()]], [[match 1 { 1 => n(), _ => x() },]], [[n()]]]], [[[[{ n() }],], [[n()]], [[(n()),]]]]]], &[3, 4, 1, 3, 1, 1]);
    }
    19 => {
        chk::<T, _, _>(c, &tensor![[[[[[match 1 { 1 => n(), _ => x() }], [{ n() }]], [[(n()),], [n(),]],]], [[[[n()], [T::clone(&n())]], [[n()], [n()]]]], [[[[match 1 { 1 => n(), _ => x() }], [{ n() }]], [[if true { n() } else { x() },], [if true { n() } else { x() }]]]]], [[[[[T::clone(&n())], [{ n() }]], [[T::clone(&n()),], [{ n() }]]]], [[[[(n())], [n(),],], [[{ n() }], [n()]]]], [[[[n()], [T::clone(&n())]], [[n()], [n()]],],]], [[[[[if true { n() } else { x() }], [if true { n() } else { x() },]], [[{ n() }], [n()]],],], [[[[n()], [T::clone(&n())]], [[n(),], [{ n() }]]],], [[[[{ n() },], [n()]], [[n()], [if true { n() } else { x() }]]],]], [[[[[if true { n() } else { x() }], [(n()),]], [[T::clone(&n()),], [n()]]]], [[[[T::clone(&n()),], [n(),]], [[{ n() },], [match 1 { 1 => n(), _ => x() }]]],], [[[[(n())], [n()]], [[n()], [n()]]]],]], &[4, 3, 1, 2, 2, 1]);
    }
    20 => {
        chk::<T, _, _>(c, &tensor![[[[[[n(), n()]]], [[[n(), { n() }],]], [[[match 1 { 1 => n(), _ => x() }, { n() }],]]], [[[[n(), n(),]]], [[[T::clone(&n()), n()]]], [[[T::clone(&n()), T::clone(&n()),],]]], [[[[(n()), n()]]], [[[n(), { n() }]]], [[[n(), (n())]]]]], [[[[[n(), (n())],]], [[[(n()), if true { n() } else { x() }]],], [[[(n()), n()]]]], [[[[n(), match 1 { 1 => n(), _ => x() }],]], [[[n(), n()],]], [[[n(), match 1 { 1 => n(), _ => x() }],]],], [[[[(n()), (n())]]], [[[if true { n() } else { x() }, if true { n() } else { x() }]],], [[[{ n() }, n(),]]]],], [[[[[T::clone(&n()), (n())]],], [[[if true { n() } else { x() }, { n() }]]], [[[n(), { n() },],]]], [[[[T::clone(&n()), n()]]], [[[T::clone(&n()), { n() }],],], [[[(n()), (n())]]],], [[[[if true { n() } else { x() }, { n() },]]], [[[{ n() }, (n())]]], [[[n(), n()]]]]], [[[[[if true { n() } else { x() }, (n())],]], [[[(n()), n()]],], [[[{ n() }, match 1 { 1 => n(), _ => x() }]]]], [[[[(n()), n()]]], [[[if true { n() } else { x() }, if true { n() } else { x() },]]], [[[{ n() }, T::clone(&n())]]]], [[[[match 1 { 1 => n(), _ => x() }, n()]]], [[[match 1 { 1 => n(), _ => x() }, n()]]], [[[match 1 { 1 => n(), _ => x() }, T::clone(&n()),],],]]]], &[4, 3, 3, 1, 1, 2]);
    }
    21 => {
        chk::<T, _, _>(c, &tensor![[[[[[if true { n() } else { x() }]]],]], [[[[[n()]]],],], [[[[[n(),]],]]], [[[[[n()]]]]], [[[[[match 1 { 1 => n(), _ => x() }]]]]]], &[5, 1, 1, 1, 1, 1]);
    }
    22 => {
        chk::<T, _, _>(c, &view![], &[0]);
    }
    23 => {
        chk::<T, _, _>(c, &view![if true { n() } else { x() }], &[1]);
    }
    _ => unreachable!(),
    }
}

fn lit12<T: El>(c: &mut Case, k: usize) {
    let (n, x) = (next::<T>, never::<T>);
    let _ = x;
    match k {
    0 => {
        chk::<T, _, _>(c, &view![if true { n() } else { x() }, n()], &[2]);
    }
    1 => {
        chk::<T, _, _>(c, &view![n(), n(), T::clone(&n()),], &[3]);
    }
    2 => {
        chk::<T, _, _>(c, &view![match 1 { 1 => n(), _ => x() }, match 1 { 1 => n(), _ => x() }, n(), (n())], &[4]);
    }
    3 => {
        chk::<T, _, _>(c, &view![match 1 { 1 => n(), _ => x() }, n(), T::clone(&n()), n(), n()], &[5]);
    }
    4 => {
        chk::<T, _, _>(c, &view![{ n() }, n(), match 1 { 1 => n(), _ => x() }, n(), T::clone(&n()), n()], &[6]);
    }
    5 => {
        chk::<T, _, _>(c, &view![n(), if true { n() } else { x() }, if true { n() } else { x() }, match 1 { 1 => n(), _ => x() }, n(), (n()), T::clone(&n()),], &[7]);
    }
    6 => {
        chk::<T, _, _>(c, &view![if true { n() } else { x() }, T::clone(&n()), if true { n() } else { x() }, T::clone(&n()), { n() }, n(), n(), { n() },], &[8]);
    }
    7 => {
        chk::<T, _, _>(c, &view![if true { n() } else { x() }, n(), T::clone(&n()), n(), n(), T::clone(&n()), { n() }, T::clone(&n()), match 1 { 1 => n(), _ => x() },], &[9]);
    }
    8 => {
        chk::<T, _, _>(c, &view![n(), n(), if true { n() } else { x() }, (n()), n(), { n() }, n(), n(), match 1 { 1 => n(), _ => x() }, n(), n(), { n() }, n(), T::clone(&n()), { n() }, n(), n(), (n()), { n() }, n(), if true { n() } else { x() }, n(), match 1 { 1 => n(), _ => x() }, T::clone(&n()), { n() }, n(), (n()), n(), match 1 { 1 => n(), _ => x() }, n(), T::clone(&n()), n(), n()], &[33]);
    }
    9 => {
        chk::<T, _, _>(c, &view![[]], &[1, 0]);
    }
    10 => {
        chk::<T, _, _>(c, &view![[if true { n() } else { x() }],], &[1, 1]);
    }
    11 => {
        chk::<T, _, _>(c, &view![[n(), n()],], &[1, 2]);
    }
    12 => {
        chk::<T, _, _>(c, &view![[(n()), n(), { n() }],], &[1, 3]);
    }
    13 => {
        chk::<T, _, _>(c, &view![[n(), if true { n() } else { x() }, (n()), match 1 { 1 => n(), _ => x() },]], &[1, 4]);
    }
    14 => {
        chk::<T, _, _>(c, &view![[{ n() }, match 1 { 1 => n(), _ => x() }, { n() }, if true { n() } else { x() }, n(),]], &[1, 5]);
    }
    15 => {
        chk::<T, _, _>(c, &view![[], [],], &[2, 0]);
    }
    16 => {
        chk::<T, _, _>(c, &view![[n()], [(n()),]], &[2, 1]);
    }
    17 => {
        chk::<T, _, _>(c, &view![[n(), n()], [match 1 { 1 => n(), _ => x() }, n()],], &[2, 2]);
    }
    18 => {
        chk::<T, _, _>(c, &view![[match 1 { 1 => n(), _ => x() }, n(), match 1 { 1 => n(), _ => x() },], [(n()), (n()), match 1 { 1 => n(), _ => x() }]], &[2, 3]);
    }
    19 => {
        chk::<T, _, _>(c, &view![[T::clone(&n()), n(), n(), (n())], [n(), n(), T::clone(&n()), T::clone(&n())]], &[2, 4]);
    }
    20 => {
        chk::<T, _, _>(c, &view![[n(),], [n()], [n()]], &[3, 1]);
    }
    21 => {
        chk::<T, _, _>(c, &view![[(n()), { n() },], [n(), n()], [n(), match 1 { 1 => n(), _ => x() }]], &[3, 2]);
    }
    22 => {
        chk::<T, _, _>(c, &view![[if true { n() } else { x() }, n(), { n() }], [(n()), n(), n()], [(n()), (n()), T::clone(&n()),]], &[3, 3]);
    }
    23 => {
        chk::<T, _, _>(c, &view![[T::clone(&n()), T::clone(&n()), n(), (n())], [{ n() }, T::clone(&n()), (n()), T::clone(&n())], [{ n() }, n(), n(), n()],], &[3, 4]);
    }
    _ => unreachable!(),
    }
}

fn lit13<T: El>(c: &mut Case, k: usize) {
    let (n, x) = (next::<T>, never::<T>);
    let _ = x;
    match k {
    0 => {
        chk::<T, _, _>(c, &view![[n(),], [match 1 { 1 => n(), _ => x() }], [{ n() }], [n()]], &[4, 1]);
    }
    1 => {
        chk::<T, _, _>(c, &view![[match 1 { 1 => n(), _ => x() }, n()], [{ n() }, n()], [T::clone(&n()), n()], [T::clone(&n()), match 1 { 1 => n(), _ => x() }],], &[4, 2]);
    }
    2 => {
        chk::<T, _, _>(c, &view![[{ n() }, match 1 { 1 => n(), _ => x() }, n()], [n(), { n() }, if true { n() } else { x() }], [(n()), n(), n()], [n(), n(), n(),]], &[4, 3]);
    }
    3 => {
        chk::<T, _, _>(c, &view![[match 1 { 1 => n(), _ => x() }, match 1 { 1 => n(), _ => x() }, if true { n() } else { x() }, n()], [n(), n(), { n() }, n()], [n(), T::clone(&n()), match 1 { 1 => n(), _ => x() }, n()], [n(), { n() }, match 1 { 1 => n(), _ => x() }, { n() }],], &[4, 4]);
    }
    4 => {
        chk::<T, _, _>(c, &view![[n()], [n(),], [n(),], [(n())], [n()]], &[5, 1]);
    }
    5 => {
        chk::<T, _, _>(c, &view![[[]]], &[1, 1, 0]);
    }
    6 => {
        chk::<T, _, _>(c, &view![[[n()]]], &[1, 1, 1]);
    }
    7 => {
        chk::<T, _, _>(c, &view![[[n(), if true { n() } else { x() },]]], &[1, 1, 2]);
    }
    8 => {
        chk::<T, _, _>(c, &view![[[T::clone(&n()), { n() }, { n() }],]], &[1, 1, 3]);
    }
    9 => {
        chk::<T, _, _>(c, &view![[[n(), n(), { n() }, n(),]],], &[1, 1, 4]);
    }
    10 => {
        chk::<T, _, _>(c, &view![[[n(), n(), T::clone(&n()), n(), (n())]]], &[1, 1, 5]);
    }
    11 => {
        chk::<T, _, _>(c, &view![[[if true { n() } else { x() }], [(n()),]]], &[1, 2, 1]);
    }
    12 => {
        chk::<T, _, _>(c, &view![[[T::clone(&n())], [match 1 { 1 => n(), _ => x() }], [match 1 { 1 => n(), _ => x() }]]], &[1, 3, 1]);
    }
    13 => {
        chk::<T, _, _>(c, &view![[[{ n() }, n(), if true { n() } else { x() }], [{ n() }, { n() }, (n())], [T::clone(&n()), { n() }, match 1 { 1 => n(), _ => x() }]],], &[1, 3, 3]);
    }
    14 => {
        chk::<T, _, _>(c, &view![[[n(), n()], [match 1 { 1 => n(), _ => x() }, (n())], [(n()), { n() }], [n(), T::clone(&n())]]], &[1, 4, 2]);
    }
    15 => {
        chk::<T, _, _>(c, &view![[[n(),], [{ n() },], [match 1 { 1 => n(), _ => x() },], [match 1 { 1 => n(), _ => x() }], [T::clone(&n())]],], &[1, 5, 1]);
    }
    16 => {
        chk::<T, _, _>(c, &view![[[match 1 { 1 => n(), _ => x() }]], [[T::clone(&n())]],], &[2, 1, 1]);
    }
    17 => {
        chk::<T, _, _>(c, &view![[[T::clone(&n()), (n()), n(),]], [[match 1 { 1 => n(), _ => x() }, n(), n()],]], &[2, 1, 3]);
    }
    18 => {
        chk::<T, _, _>(c, &view![[[], [],], [[], []]], &[2, 2, 0]);
    }
    19 => {
        chk::<T, _, _>(c, &view![[[match 1 { 1 => n(), _ => x() }, { n() }], [n(), if true { n() } else { x() }]], [[(n()), n()], [(n()), if true { n() } else { x() }]]], &[2, 2, 2]);
    }
    20 => {
        chk::<T, _, _>(c, &view![[[n(), match 1 { 1 => n(), _ => x() }, n()], [n(), { n() }, n()], [n(), T::clone(&n()), if true { n() } else { x() },]], [[if true { n() } else { x() }, T::clone(&n()), n(),], [T::clone(&n()), T::clone(&n()), n(),], [match 1 { 1 => n(), _ => x() }, n(), match 1 { 1 => n(), _ => x() }],],], &[2, 3, 3]);
    }
    21 => {
        chk::<T, _, _>(c, &view![[[(n()), (n()), T::clone(&n()), n()], [n(), n(), match 1 { 1 => n(), _ => x() }, match 1 { 1 => n(), _ => x() }], [n(), n(), n(), n()]], [[n(), n(), { n() }, { n() }], [if true { n() } else { x() }, if true { n() } else { x() }, match 1 { 1 => n(), _ => x() }, n()], [n(), n(), n(), T::clone(&n())]]], &[2, 3, 4]);
    }
    22 => {
        chk::<T, _, _>(c, &view![[[(n())]], [[{ n() },]], [[{ n() }],]], &[3, 1, 1]);
    }
    23 => {
        chk::<T, _, _>(c, &view![[[match 1 { 1 => n(), _ => x() }, n(), n(), { n() }]], [[n(), { n() }, T::clone(&n()), T::clone(&n())]], [[n(), (n()), n(), n()]]], &[3, 1, 4]);
    }
    _ => unreachable!(),
    }
}

fn lit14<T: El>(c: &mut Case, k: usize) {
    let (n, x) = (next::<T>, never::<T>);
    let _ = x;
    match k {
    0 => {
        chk::<T, _, _>(c, &view![[[(n()), if true { n() } else { x() }, n(), n()], [n(), T::clone(&n()), n(), { n() }]], [[n(), { n() }, { n() }, T::clone(&n())], [n(), if true { n() } else { x() }, match 1 { 1 => n(), _ => x() }, n(),]], [[if true { n() } else { x() }, match 1 { 1 => n(), _ => x() }, match 1 { 1 => n(), _ => x() }, match 1 { 1 => n(), _ => x() }], [(n()), n(), n(), n()]]], &[3, 2, 4]);
    }
    1 => {
        chk::<T, _, _>(c, &view![[[{ n() }], [n()], [n()]], [[(n())], [n()], [n()]], [[{ n() }], [(n())], [if true { n() } else { x() }]]], &[3, 3, 1]);
    }
    2 => {
        chk::<T, _, _>(c, &view![[[n(), { n() }], [n(), if true { n() } else { x() }], [{ n() }, (n())]], [[n(), (n()),], [if true { n() } else { x() }, n(),], [match 1 { 1 => n(), _ => x() }, if true { n() } else { x() }]], [[(n()), n(),], [n(), T::clone(&n())], [n(), { n() }]]], &[3, 3, 2]);
    }
    3 => {
        chk::<T, _, _>(c, &view![[[if true { n() } else { x() }, { n() }, match 1 { 1 => n(), _ => x() }], [{ n() }, n(), T::clone(&n())], [T::clone(&n()), { n() }, (n())]], [[{ n() }, match 1 { 1 => n(), _ => x() }, n()], [n(), (n()), { n() },], [(n()), match 1 { 1 => n(), _ => x() }, match 1 { 1 => n(), _ => x() },]], [[T::clone(&n()), if true { n() } else { x() }, (n())], [n(), if true { n() } else { x() }, { n() }], [{ n() }, n(), (n())]]], &[3, 3, 3]);
    }
    4 => {
        chk::<T, _, _>(c, &view![[[n(), n(), { n() }, if true { n() } else { x() },], [n(), n(), if true { n() } else { x() }, n()], [n(), n(), match 1 { 1 => n(), _ => x() }, n()]], [[n(), match 1 { 1 => n(), _ => x() }, (n()), { n() }], [n(), (n()), { n() }, (n())], [if true { n() } else { x() }, match 1 { 1 => n(), _ => x() }, T::clone(&n()), if true { n() } else { x() },]], [[if true { n() } else { x() }, n(), (n()), if true { n() } else { x() }], [if true { n() } else { x() }, if true { n() } else { x() }, if true { n() } else { x() }, (n())], [match 1 { 1 => n(), _ => x() }, (n()), T::clone(&n()), T::clone(&n())]]], &[3, 3, 4]);
    }
    5 => {
        chk::<T, _, _>(c, &view![[[if true { n() } else { x() },]], [[match 1 { 1 => n(), _ => x() }]], [[(n())],], [[(n()),],]], &[4, 1, 1]);
    }
    6 => {
        chk::<T, _, _>(c, &view![[[{ n() }, (n()), (n()), n()]], [[{ n() }, (n()), if true { n() } else { x() }, { n() }]], [[n(), match 1 { 1 => n(), _ => x() }, n(), n(),]], [[n(), n(), n(), n()]]], &[4, 1, 4]);
    }
    7 => {
        chk::<T, _, _>(c, &view![[[(n()), T::clone(&n()), { n() },], [T::clone(&n()), match 1 { 1 => n(), _ => x() }, T::clone(&n())]], [[n(), n(), n()], [{ n() }, n(), T::clone(&n())]], [[T::clone(&n()), if true { n() } else { x() }, T::clone(&n())], [if true { n() } else { x() }, { n() }, if true { n() } else { x() }]], [[match 1 { 1 => n(), _ => x() }, { n() }, match 1 { 1 => n(), _ => x() }], [n(), n(), match 1 { 1 => n(), _ => x() }]]], &[4, 2, 3]);
    }
    8 => {
        chk::<T, _, _>(c, &view![[[n()],], [[n()]], [[if true { n() } else { x() },],], [[T::clone(&n()),],], [[T::clone(&n())]],], &[5, 1, 1]);
    }
    9 => {
        chk::<T, _, _>(c, &view![[[[]],]], &[1, 1, 1, 0]);
    }
    10 => {
        chk::<T, _, _>(c, &view![[[[match 1 { 1 => n(), _ => x() },]]]], &[1, 1, 1, 1]);
    }
    11 => {
        chk::<T, _, _>(c, &view![[[[n(), if true { n() } else { x() }],]]], &[1, 1, 1, 2]);
    }
    12 => {
        chk::<T, _, _>(c, &view![[[[n(), match 1 { 1 => n(), _ => x() }, n(),]]],], &[1, 1, 1, 3]);
    }
    13 => {
        chk::<T, _, _>(c, &view![[[[{ n() }, { n() }, { n() }, T::clone(&n()), n(),]]]], &[1, 1, 1, 5]);
    }
    14 => {
        chk::<T, _, _>(c, &view![[[[if true { n() } else { x() }], [n()]]]], &[1, 1, 2, 1]);
    }
    15 => {
        chk::<T, _, _>(c, &view![[[[if true { n() } else { x() }, n(), match 1 { 1 => n(), _ => x() }], [(n()), { n() }, { n() }]]]], &[1, 1, 2, 3]);
    }
    16 => {
        chk::<T, _, _>(c, &view![[[[(n()),], [if true { n() } else { x() }], [T::clone(&n())]]]], &[1, 1, 3, 1]);
    }
    17 => {
        chk::<T, _, _>(c, &view![[[[n()], [n()], [(n()),], [n(),], [(n())]],]], &[1, 1, 5, 1]);
    }
    18 => {
        chk::<T, _, _>(c, &view![[[[{ n() },]], [[n()]]]], &[1, 2, 1, 1]);
    }
    19 => {
        chk::<T, _, _>(c, &view![[[[n()]], [[if true { n() } else { x() }]], [[n()]]],], &[1, 3, 1, 1]);
    }
    20 => {
        chk::<T, _, _>(c, &view![[[[(n()), (n()), n(),], [n(), n(), if true { n() } else { x() }]], [[{ n() }, n(), (n()),], [if true { n() } else { x() }, match 1 { 1 => n(), _ => x() }, n()]], [[n(), n(), n()], [n(), n(), { n() }],], [[{ n() }, n(), if true { n() } else { x() }], [match 1 { 1 => n(), _ => x() }, T::clone(&n()), (n())],]],], &[1, 4, 2, 3]);
    }
    21 => {
        chk::<T, _, _>(c, &view![[[[T::clone(&n()),], [if true { n() } else { x() }], [T::clone(&n())]], [[{ n() }], [if true { n() } else { x() }], [T::clone(&n())]], [[n()], [(n()),], [match 1 { 1 => n(), _ => x() }],], [[match 1 { 1 => n(), _ => x() },], [n(),], [{ n() },]]]], &[1, 4, 3, 1]);
    }
    22 => {
        chk::<T, _, _>(c, &view![[[[n()], [(n())], [(n())], [n()],], [[n(),], [{ n() },], [n()], [if true { n() } else { x() }]], [[{ n() }], [n(),], [n(),], [T::clone(&n())]], [[n()], [if true { n() } else { x() }], [n()], [T::clone(&n())]]]], &[1, 4, 4, 1]);
    }
    23 => {
        chk::<T, _, _>(c, &view![[[[{ n() }, if true { n() } else { x() }, n(), { n() }], [{ n() }, (n()), match 1 { 1 => n(), _ => x() }, if true { n() } else { x() }], [n(), match 1 { 1 => n(), _ => x() }, (n()), n()], [{ n() }, n(), { n() }, (n())],], [[{ n() }, T::clone(&n()), { n() }, if true { n() } else { x() },], [if true { n() } else { x() }, match 1 { 1 => n(), _ => x() }, (n()), T::clone(&n())], [{ n() }, { n() }, if true { n() } else { x() }, if true { n() } else { x() },], [match 1 { 1 => n(), _ => x() }, n(), T::clone(&n()), n()],], [[(n()), n(), n(), { n() }], [n(), (n()), n(), n()], [n(), { n() }, n(), T::clone(&n())], [if true { n() } else { x() }, n(), n(), n(),]], [[if true { n() } else { x() }, n(), if true { n() } else { x() }, if true { n() } else { x() }], [n(), if true { n() } else { x() }, { n() }, match 1 { 1 => n(), _ => x() },], [T::clone(&n()), (n()), { n() }, n(),], [n(), if true { n() } else { x() }, { n() }, n()],]]], &[1, 4, 4, 4]);
    }
    _ => unreachable!(),
    }
}

fn lit15<T: El>(c: &mut Case, k: usize) {
    let (n, x) = (next::<T>, never::<T>);
    let _ = x;
    match k {
    0 => {
        chk::<T, _, _>(c, &view![[[[n(),],], [[n()]], [[match 1 { 1 => n(), _ => x() }],], [[n()],], [[match 1 { 1 => n(), _ => x() }]]]], &[1, 5, 1, 1]);
    }
    1 => {
        chk::<T, _, _>(c, &view![[[[(n())]]], [[[T::clone(&n())]]]], &[2, 1, 1, 1]);
    }
    2 => {
        chk::<T, _, _>(c, &view![[[[], [],], [[], [],]], [[[], []], [[], []],]], &[2, 2, 2, 0]);
    }
    3 => {
        chk::<T, _, _>(c, &view![[[[(n()), if true { n() } else { x() }, match 1 { 1 => n(), _ => x() }], [if true { n() } else { x() }, n(), n()], [(n()), T::clone(&n()), { n() }], [if true { n() } else { x() }, T::clone(&n()), (n())]], [[n(), T::clone(&n()), n(),], [(n()), match 1 { 1 => n(), _ => x() }, match 1 { 1 => n(), _ => x() }], [(n()), n(), match 1 { 1 => n(), _ => x() },], [n(), T::clone(&n()), match 1 { 1 => n(), _ => x() }]]], [[[if true { n() } else { x() }, T::clone(&n()), n(),], [T::clone(&n()), { n() }, (n())], [{ n() }, { n() }, n()], [n(), n(), n()]], [[n(), match 1 { 1 => n(), _ => x() }, n(),], [if true { n() } else { x() }, if true { n() } else { x() }, match 1 { 1 => n(), _ => x() }], [n(), n(), n()], [T::clone(&n()), match 1 { 1 => n(), _ => x() }, { n() }],]]], &[2, 2, 4, 3]);
    }
    4 => {
        chk::<T, _, _>(c, &view![[[[if true { n() } else { x() }], [{ n() }],], [[match 1 { 1 => n(), _ => x() }], [{ n() }]], [[(n())], [match 1 { 1 => n(), _ => x() },]],], [[[n()], [T::clone(&n())],], [[match 1 { 1 => n(), _ => x() }], [(n()),]], [[match 1 { 1 => n(), _ => x() }], [n()]]],], &[2, 3, 2, 1]);
    }
    5 => {
        chk::<T, _, _>(c, &view![[[[(n())], [T::clone(&n())], [if true { n() } else { x() }],], [[(n())], [{ n() }], [(n())]], [[n(),], [if true { n() } else { x() }], [n(),]]], [[[(n())], [{ n() }], [n()]], [[n()], [{ n() }], [match 1 { 1 => n(), _ => x() }],], [[n()], [n()], [n()]]]], &[2, 3, 3, 1]);
    }
    6 => {
        chk::<T, _, _>(c, &view![[[[{ n() }, n()], [{ n() }, (n())], [{ n() }, match 1 { 1 => n(), _ => x() },]], [[if true { n() } else { x() }, n()], [n(), n()], [if true { n() } else { x() }, match 1 { 1 => n(), _ => x() }]], [[n(), n()], [(n()), { n() },], [n(), T::clone(&n())]]], [[[(n()), n(),], [(n()), T::clone(&n())], [match 1 { 1 => n(), _ => x() }, n()]], [[n(), n()], [match 1 { 1 => n(), _ => x() }, n(),], [match 1 { 1 => n(), _ => x() }, n(),]], [[match 1 { 1 => n(), _ => x() }, match 1 { 1 => n(), _ => x() }], [{ n() }, (n())], [n(), n()]]],], &[2, 3, 3, 2]);
    }
    7 => {
        chk::<T, _, _>(c, &view![[[[match 1 { 1 => n(), _ => x() }, match 1 { 1 => n(), _ => x() }, (n())], [{ n() }, (n()), n()], [T::clone(&n()), match 1 { 1 => n(), _ => x() }, { n() },],], [[if true { n() } else { x() }, n(), n(),], [n(), n(), if true { n() } else { x() },], [T::clone(&n()), n(), n()],], [[T::clone(&n()), n(), n()], [n(), if true { n() } else { x() }, if true { n() } else { x() }], [T::clone(&n()), (n()), if true { n() } else { x() }]],], [[[if true { n() } else { x() }, n(), n()], [n(), (n()), { n() }], [n(), n(), match 1 { 1 => n(), _ => x() }]], [[n(), { n() }, n()], [match 1 { 1 => n(), _ => x() }, (n()), { n() }], [match 1 { 1 => n(), _ => x() }, (n()), match 1 { 1 => n(), _ => x() }]], [[(n()), T::clone(&n()), match 1 { 1 => n(), _ => x() },], [{ n() }, { n() }, n()], [n(), (n()), n()]]],], &[2, 3, 3, 3]);
    }
    8 => {
        chk::<T, _, _>(c, &view![[[[n()]],], [[[if true { n() } else { x() },]]], [[[(n())]]],], &[3, 1, 1, 1]);
    }
    9 => {
        chk::<T, _, _>(c, &view![[[[(n())], [(n()),], [if true { n() } else { x() },]]], [[[n()], [T::clone(&n())], [T::clone(&n())]]], [[[n()], [if true { n() } else { x() },], [(n())]]]], &[3, 1, 3, 1]);
    }
    10 => {
        chk::<T, _, _>(c, &view![[[[n(), { n() }, if true { n() } else { x() }, n(),], [{ n() }, { n() }, T::clone(&n()), { n() }]], [[n(), { n() }, n(), { n() }], [match 1 { 1 => n(), _ => x() }, n(), match 1 { 1 => n(), _ => x() }, n(),]]], [[[n(), n(), n(), { n() }], [T::clone(&n()), n(), n(), n()]], [[if true { n() } else { x() }, n(), { n() }, n()], [(n()), (n()), n(), if true { n() } else { x() }]]], [[[T::clone(&n()), n(), { n() }, n()], [match 1 { 1 => n(), _ => x() }, n(), n(), match 1 { 1 => n(), _ => x() }]], [[(n()), (n()), { n() }, if true { n() } else { x() }], [T::clone(&n()), n(), n(), match 1 { 1 => n(), _ => x() }]]],], &[3, 2, 2, 4]);
    }
    11 => {
        chk::<T, _, _>(c, &view![[[[T::clone(&n())], [n()], [T::clone(&n())]], [[T::clone(&n())], [if true { n() } else { x() }], [if true { n() } else { x() }]], [[T::clone(&n())], [n()], [{ n() }]]], [[[if true { n() } else { x() }], [n(),], [n()]], [[T::clone(&n()),], [T::clone(&n())], [T::clone(&n())]], [[n(),], [n()], [n()]]], [[[n()], [(n())], [n()]], [[(n())], [match 1 { 1 => n(), _ => x() },], [n()]], [[if true { n() } else { x() }], [(n())], [(n()),],]], [[[n()], [if true { n() } else { x() }], [(n())],], [[(n()),], [n()], [n(),],], [[n()], [n()], [n()]]]], &[4, 3, 3, 1]);
    }
    12 => {
        chk::<T, _, _>(c, &view![[[[n()],]], [[[{ n() }]]], [[[if true { n() } else { x() }],]], [[[match 1 { 1 => n(), _ => x() },]]], [[[n()]],]], &[5, 1, 1, 1]);
    }
    13 => {
        chk::<T, _, _>(c, &view![[[[[]]]],], &[1, 1, 1, 1, 0]);
    }
    14 => {
        chk::<T, _, _>(c, &view![[[[[n()]]],]], &[1, 1, 1, 1, 1]);
    }
    15 => {
        chk::<T, _, _>(c, &view![[[[[n(), if true { n() } else { x() }]]],],], &[1, 1, 1, 1, 2]);
    }
    16 => {
        chk::<T, _, _>(c, &view![[[[[(n()), if true { n() } else { x() }, if true { n() } else { x() }]],],]], &[1, 1, 1, 1, 3]);
    }
    17 => {
        chk::<T, _, _>(c, &view![[[[[n(), n(), if true { n() } else { x() }, (n()), T::clone(&n()),]],]]], &[1, 1, 1, 1, 5]);
    }
    18 => {
        chk::<T, _, _>(c, &view![[[[[T::clone(&n())], [n()],]],]], &[1, 1, 1, 2, 1]);
    }
    19 => {
        chk::<T, _, _>(c, &view![[[[[n()], [T::clone(&n())], [n(),]]],],], &[1, 1, 1, 3, 1]);
    }
    20 => {
        chk::<T, _, _>(c, &view![[[[[{ n() },], [T::clone(&n()),], [(n())], [n()], [n()]],],]], &[1, 1, 1, 5, 1]);
    }
    21 => {
        chk::<T, _, _>(c, &view![[[[[n()]], [[{ n() }]]]]], &[1, 1, 2, 1, 1]);
    }
    22 => {
        chk::<T, _, _>(c, &view![[[[[T::clone(&n()),]], [[if true { n() } else { x() }]], [[match 1 { 1 => n(), _ => x() },],]],]], &[1, 1, 3, 1, 1]);
    }
    23 => {
        chk::<T, _, _>(c, &view![[[[[if true { n() } else { x() }, n(), { n() }, { n() }], [n(), if true { n() } else { x() }, T::clone(&n()), { n() }], [T::clone(&n()), if true { n() } else { x() }, T::clone(&n()), { n() }], [{ n() }, n(), n(), if true { n() } else { x() }]], [[n(), (n()), if true { n() } else { x() }, n(),], [match 1 { 1 => n(), _ => x() }, n(), T::clone(&n()), n()], [if true { n() } else { x() }, n(), n(), n()], [T::clone(&n()), (n()), if true { n() } else { x() }, T::clone(&n()),]], [[{ n() }, n(), n(), T::clone(&n())], [n(), T::clone(&n()), { n() }, n()], [if true { n() } else { x() }, (n()), n(), T::clone(&n()),], [n(), match 1 { 1 => n(), _ => x() }, if true { n() } else { x() }, T::clone(&n()),]], [[n(), { n() }, n(), { n() }], [if true { n() } else { x() }, n(), T::clone(&n()), (n()),], [n(), n(), if true { n() } else { x() }, n()], [(n()), n(), { n() }, { n() },]],]]], &[1, 1, 4, 4, 4]);
    }
    _ => unreachable!(),
    }
}

fn lit16<T: El>(c: &mut Case, k: usize) {
    let (n, x) = (next::<T>, never::<T>);
    let _ = x;
    match k {
    0 => {
        chk::<T, _, _>(c, &view![[[[[(n())]], [[T::clone(&n())]], [[T::clone(&n())]], [[if true { n() } else { x() }]], [[{ n() }],],],]], &[1, 1, 5, 1, 1]);
    }
    1 => {
        chk::<T, _, _>(c, &view![[[[[if true { n() } else { x() },]]], [[[T::clone(&n())]]]]], &[1, 2, 1, 1, 1]);
    }
    2 => {
        chk::<T, _, _>(c, &view![[[[[match 1 { 1 => n(), _ => x() }], [(n()),], [n()]], [[n(),], [{ n() }], [n(),]]], [[[n(),], [match 1 { 1 => n(), _ => x() }], [n()],], [[n()], [{ n() },], [(n())]]]]], &[1, 2, 2, 3, 1]);
    }
    3 => {
        chk::<T, _, _>(c, &view![[[[[n()],]], [[[n()]]], [[[match 1 { 1 => n(), _ => x() },],]]]], &[1, 3, 1, 1, 1]);
    }
    4 => {
        chk::<T, _, _>(c, &view![[[[[n()]]], [[[n(),]]], [[[n()]],], [[[match 1 { 1 => n(), _ => x() }]],], [[[n()]]]]], &[1, 5, 1, 1, 1]);
    }
    5 => {
        chk::<T, _, _>(c, &view![[[[[T::clone(&n())]],]], [[[[if true { n() } else { x() },]]]]], &[2, 1, 1, 1, 1]);
    }
    6 => {
        chk::<T, _, _>(c, &view![[[[[], []], [[], []]], [[[], []], [[], []],]], [[[[], []], [[], []],], [[[], []], [[], []]]]], &[2, 2, 2, 2, 0]);
    }
    7 => {
        chk::<T, _, _>(c, &view![[[[[if true { n() } else { x() }]]]], [[[[match 1 { 1 => n(), _ => x() }]]],], [[[[match 1 { 1 => n(), _ => x() }]]],]], &[3, 1, 1, 1, 1]);
    }
    8 => {
        chk::<T, _, _>(c, &view![[[[[n(), n(), n(), match 1 { 1 => n(), _ => x() },], [T::clone(&n()), (n()), (n()), n()], [match 1 { 1 => n(), _ => x() }, { n() }, if true { n() } else { x() }, match 1 { 1 => n(), _ => x() }], [(n()), n(), n(), (n())]]]], [[[[T::clone(&n()), n(), match 1 { 1 => n(), _ => x() }, if true { n() } else { x() }], [match 1 { 1 => n(), _ => x() }, n(), T::clone(&n()), { n() }], [if true { n() } else { x() }, n(), match 1 { 1 => n(), _ => x() }, n()], [(n()), n(), n(), if true { n() } else { x() }],],],], [[[[(n()), T::clone(&n()), (n()), { n() }], [n(), n(), { n() }, { n() }], [match 1 { 1 => n(), _ => x() }, n(), n(), n()], [{ n() }, T::clone(&n()), if true { n() } else { x() }, (n())],]]]], &[3, 1, 1, 4, 4]);
    }
    9 => {
        chk::<T, _, _>(c, &view![[[[[n(), n()]]], [[[n(), { n() }]],]], [[[[(n()), { n() },]]], [[[n(), n()]]]], [[[[{ n() }, { n() },]]], [[[T::clone(&n()), (n()),]]]],], &[3, 2, 1, 1, 2]);
    }
    10 => {
        chk::<T, _, _>(c, &view![[[[[(n())], [n()], [n(),]]], [[[match 1 { 1 => n(), _ => x() }], [n()], [n()],],]], [[[[n(),], [match 1 { 1 => n(), _ => x() }], [n()]],], [[[n()], [{ n() },], [n(),]]]], [[[[T::clone(&n())], [T::clone(&n()),], [n()],]], [[[{ n() }], [(n())], [n()]]],]], &[3, 2, 1, 3, 1]);
    }
    11 => {
        chk::<T, _, _>(c, &view![[[[[(n()), n()], [n(), match 1 { 1 => n(), _ => x() }], [{ n() }, (n())]],], [[[n(), n()], [n(), { n() }], [match 1 { 1 => n(), _ => x() }, n()],]]], [[[[match 1 { 1 => n(), _ => x() }, match 1 { 1 => n(), _ => x() }], [n(), match 1 { 1 => n(), _ => x() }], [n(), { n() },]]], [[[match 1 { 1 => n(), _ => x() }, n()], [if true { n() } else { x() }, (n())], [{ n() }, (n())]]],], [[[[{ n() }, match 1 { 1 => n(), _ => x() }], [n(), if true { n() } else { x() }], [(n()), n()],]], [[[n(), { n() }], [n(), n()], [match 1 { 1 => n(), _ => x() }, n()],]]]], &[3, 2, 1, 3, 2]);
    }
    12 => {
        chk::<T, _, _>(c, &view![[[[[T::clone(&n()), match 1 { 1 => n(), _ => x() }], [n(), n()], [T::clone(&n()), match 1 { 1 => n(), _ => x() }], [n(), match 1 { 1 => n(), _ => x() }]]], [[[n(), T::clone(&n())], [match 1 { 1 => n(), _ => x() }, match 1 { 1 => n(), _ => x() }], [if true { n() } else { x() }, n()], [n(), (n())]],],], [[[[(n()), if true { n() } else { x() },], [match 1 { 1 => n(), _ => x() }, n()], [if true { n() } else { x() }, n()], [if true { n() } else { x() }, n()],]], [[[n(), n()], [T::clone(&n()), if true { n() } else { x() }], [match 1 { 1 => n(), _ => x() }, T::clone(&n())], [n(), match 1 { 1 => n(), _ => x() },]]],], [[[[n(), n()], [(n()), match 1 { 1 => n(), _ => x() }], [if true { n() } else { x() }, { n() }], [n(), { n() }]]], [[[T::clone(&n()), (n()),], [match 1 { 1 => n(), _ => x() }, if true { n() } else { x() }], [T::clone(&n()), (n())], [T::clone(&n()), match 1 { 1 => n(), _ => x() }]]]],], &[3, 2, 1, 4, 2]);
    }
    13 => {
        chk::<T, _, _>(c, &view![[[[[n(), n(), n()], [match 1 { 1 => n(), _ => x() }, n(), n()], [n(), n(), match 1 { 1 => n(), _ => x() }]],],], [[[[if true { n() } else { x() }, n(), T::clone(&n())], [match 1 { 1 => n(), _ => x() }, n(), match 1 { 1 => n(), _ => x() }], [(n()), n(), n()]],]], [[[[n(), (n()), { n() },], [T::clone(&n()), { n() }, n()], [if true { n() } else { x() }, match 1 { 1 => n(), _ => x() }, (n())],],],], [[[[(n()), (n()), (n())], [match 1 { 1 => n(), _ => x() }, T::clone(&n()), if true { n() } else { x() }], [n(), { n() }, match 1 { 1 => n(), _ => x() },]],],]], &[4, 1, 1, 3, 3]);
    }
    14 => {
        chk::<T, _, _>(c, &view![[[[[n(), match 1 { 1 => n(), _ => x() }]], [[T::clone(&n()), if true { n() } else { x() }]]], [[[match 1 { 1 => n(), _ => x() }, T::clone(&n())]], [[n(), n(),]]]], [[[[{ n() }, n()]], [[match 1 { 1 => n(), _ => x() }, T::clone(&n())]],], [[[if true { n() } else { x() }, if true { n() } else { x() }]], [[n(), (n())]]]], [[[[(n()), { n() }],], [[T::clone(&n()), n(),]]], [[[{ n() }, match 1 { 1 => n(), _ => x() }]], [[(n()), { n() }],]],], [[[[match 1 { 1 => n(), _ => x() }, (n())]], [[n(), n()]]], [[[(n()), T::clone(&n())]], [[(n()), n(),],],]]], &[4, 2, 2, 1, 2]);
    }
    15 => {
        chk::<T, _, _>(c, &view![[[[[(n())], [match 1 { 1 => n(), _ => x() },]], [[n()], [if true { n() } else { x() }]], [[n()], [{ n() },]], [[T::clone(&n())], [T::clone(&n())]]], [[[(n())], [if true { n() } else { x() }]], [[n()], [n()],], [[n(),], [match 1 { 1 => n(), _ => x() },]], [[n()], [match 1 { 1 => n(), _ => x() }]]]], [[[[T::clone(&n())], [(n())]], [[T::clone(&n())], [match 1 { 1 => n(), _ => x() }]], [[(n()),], [(n())],], [[n()], [n()]]], [[[n()], [n()]], [[T::clone(&n()),], [{ n() },]], [[{ n() },], [n()]], [[n(),], [n()]],],], [[[[if true { n() } else { x() }], [{ n() }]], [[n()], [if true { n() } else { x() }]], [[{ n() },], [n()]], [[match 1 { 1 => n(), _ => x() }], [match 1 { 1 => n(), _ => x() }],]], [[[n(),], [if true { n() } else { x() }]], [[n()], [{ n() }]], [[match 1 { 1 => n(), _ => x() },], [T::clone(&n())]], [[n()], [n()]],]], [[[[{ n() }], [n()]], [[n()], [n()],], [[n()], [n(),]], [[if true { n() } else { x() }], [if true { n() } else { x() },]]], [[[match 1 { 1 => n(), _ => x() },], [n()],], [[n()], [(n()),]], [[n()], [n()],], [[if true { n() } else { x() }], [T::clone(&n())]]]],], &[4, 2, 4, 2, 1]);
    }
    16 => {
        chk::<T, _, _>(c, &view![[[[[T::clone(&n())]]]], [[[[{ n() }]]],], [[[[(n())]],]], [[[[if true { n() } else { x() }]],],], [[[[n()]]]]], &[5, 1, 1, 1, 1]);
    }
    17 => {
        chk::<T, _, _>(c, &view![[[[[[]]]]]], &[1, 1, 1, 1, 1, 0]);
    }
    18 => {
        chk::<T, _, _>(c, &view![[[[[[n(),]]]]],], &[1, 1, 1, 1, 1, 1]);
    }
    19 => {
        chk::<T, _, _>(c, &view![[[[[[T::clone(&n()), n()]]]]]], &[1, 1, 1, 1, 1, 2]);
    }
    20 => {
        chk::<T, _, _>(c, &view![[[[[[if true { n() } else { x() }, if true { n() } else { x() }, match 1 { 1 => n(), _ => x() }]],]]]], &[1, 1, 1, 1, 1, 3]);
    }
    21 => {
        chk::<T, _, _>(c, &view![[[[[[T::clone(&n()), if true { n() } else { x() }, { n() }, match 1 { 1 => n(), _ => x() }, { n() }]],]]]], &[1, 1, 1, 1, 1, 5]);
    }
    22 => {
        chk::<T, _, _>(c, &view![[[[[[{ n() }], [n()]],]],]], &[1, 1, 1, 1, 2, 1]);
    }
    23 => {
        chk::<T, _, _>(c, &view![[[[[[if true { n() } else { x() },], [{ n() }], [T::clone(&n()),]]]]]], &[1, 1, 1, 1, 3, 1]);
    }
    _ => unreachable!(),
    }
}

fn lit17<T: El>(c: &mut Case, k: usize) {
    let (n, x) = (next::<T>, never::<T>);
    let _ = x;
    match k {
    0 => {
        chk::<T, _, _>(c, &view![[[[[[(n())], [n()], [if true { n() } else { x() }], [if true { n() } else { x() }], [match 1 { 1 => n(), _ => x() }]]]]]], &[1, 1, 1, 1, 5, 1]);
    }
    1 => {
        chk::<T, _, _>(c, &view![[[[[[n(),],], [[n()]]]]],], &[1, 1, 1, 2, 1, 1]);
    }
    2 => {
        chk::<T, _, _>(c, &view![[[[[[match 1 { 1 => n(), _ => x() },]], [[n()],], [[if true { n() } else { x() }],]]]],], &[1, 1, 1, 3, 1, 1]);
    }
    3 => {
        chk::<T, _, _>(c, &view![[[[[[match 1 { 1 => n(), _ => x() }]], [[n()],], [[{ n() }]], [[match 1 { 1 => n(), _ => x() }]], [[match 1 { 1 => n(), _ => x() }]]],]],], &[1, 1, 1, 5, 1, 1]);
    }
    4 => {
        chk::<T, _, _>(c, &view![[[[[[{ n() }]]], [[[n()],],]]]], &[1, 1, 2, 1, 1, 1]);
    }
    5 => {
        chk::<T, _, _>(c, &view![[[[[[(n())],]], [[[{ n() }],]], [[[match 1 { 1 => n(), _ => x() }]]],],]], &[1, 1, 3, 1, 1, 1]);
    }
    6 => {
        chk::<T, _, _>(c, &view![[[[[[n(), n()], [(n()), T::clone(&n())]]], [[[match 1 { 1 => n(), _ => x() }, T::clone(&n())], [T::clone(&n()), if true { n() } else { x() },]],], [[[n(), T::clone(&n())], [n(), n(),]]], [[[if true { n() } else { x() }, { n() }], [T::clone(&n()), (n())]],]],]], &[1, 1, 4, 1, 2, 2]);
    }
    7 => {
        chk::<T, _, _>(c, &view![[[[[[n(), { n() }, n(), n(),]], [[if true { n() } else { x() }, match 1 { 1 => n(), _ => x() }, match 1 { 1 => n(), _ => x() }, T::clone(&n())]]], [[[{ n() }, (n()), n(), { n() }]], [[(n()), (n()), { n() }, match 1 { 1 => n(), _ => x() }]]], [[[if true { n() } else { x() }, n(), n(), match 1 { 1 => n(), _ => x() }]], [[n(), (n()), if true { n() } else { x() }, n()]]], [[[n(), n(), n(), n()]], [[if true { n() } else { x() }, { n() }, n(), (n())]]]]]], &[1, 1, 4, 2, 1, 4]);
    }
    8 => {
        chk::<T, _, _>(c, &view![[[[[[T::clone(&n())]],], [[[if true { n() } else { x() }],],], [[[T::clone(&n()),]]], [[[n(),],]], [[[n()]],]],]], &[1, 1, 5, 1, 1, 1]);
    }
    9 => {
        chk::<T, _, _>(c, &view![[[[[[n()],]],], [[[[match 1 { 1 => n(), _ => x() },]]],],]], &[1, 2, 1, 1, 1, 1]);
    }
    10 => {
        chk::<T, _, _>(c, &view![[[[[[n()],], [[{ n() }],], [[n(),],], [[n()],]], [[[n()]], [[if true { n() } else { x() }],], [[T::clone(&n())]], [[{ n() },]],], [[[{ n() }]], [[(n())]], [[n(),]], [[n()]],], [[[if true { n() } else { x() }]], [[(n())]], [[T::clone(&n())],], [[if true { n() } else { x() }]]]], [[[[T::clone(&n())]], [[n()]], [[n()]], [[n()]]], [[[n(),]], [[n()]], [[(n())]], [[match 1 { 1 => n(), _ => x() }]]], [[[match 1 { 1 => n(), _ => x() }]], [[if true { n() } else { x() }]], [[n()]], [[match 1 { 1 => n(), _ => x() }]]], [[[(n())],], [[(n())]], [[(n())],], [[if true { n() } else { x() }],]]]]], &[1, 2, 4, 4, 1, 1]);
    }
    11 => {
        chk::<T, _, _>(c, &view![[[[[[T::clone(&n())]]]], [[[[{ n() },]]]], [[[[n()]]],],],], &[1, 3, 1, 1, 1, 1]);
    }
    12 => {
        chk::<T, _, _>(c, &view![[[[[[if true { n() } else { x() }]]],], [[[[n()]],]], [[[[if true { n() } else { x() }]]],], [[[[if true { n() } else { x() }]]]], [[[[T::clone(&n())]],],]],], &[1, 5, 1, 1, 1, 1]);
    }
    13 => {
        chk::<T, _, _>(c, &view![[[[[[n(),]],]]], [[[[[(n())]]],]]], &[2, 1, 1, 1, 1, 1]);
    }
    14 => {
        chk::<T, _, _>(c, &view![[[[[[], []], [[], [],]], [[[], [],], [[], []]]], [[[[], []], [[], []]], [[[], []], [[], []]]]], [[[[[], []], [[], []]], [[[], []], [[], []],]], [[[[], []], [[], []]], [[[], [],], [[], []]],],]], &[2, 2, 2, 2, 2, 0]);
    }
    15 => {
        chk::<T, _, _>(c, &view![[[[[[if true { n() } else { x() }, (n())], [n(), if true { n() } else { x() },], [n(), if true { n() } else { x() }],]],], [[[[n(), n()], [{ n() }, n()], [n(), T::clone(&n()),]]]], [[[[(n()), T::clone(&n())], [T::clone(&n()), n()], [n(), { n() },]]]]], [[[[[match 1 { 1 => n(), _ => x() }, n()], [{ n() }, { n() },], [{ n() }, n(),]]]], [[[[match 1 { 1 => n(), _ => x() }, n()], [n(), match 1 { 1 => n(), _ => x() }], [(n()), n()],]]], [[[[n(), (n())], [n(), if true { n() } else { x() }], [T::clone(&n()), T::clone(&n())]]]],]], &[2, 3, 1, 1, 3, 2]);
    }
    16 => {
        chk::<T, _, _>(c, &view![[[[[[if true { n() } else { x() }, n()]]], [[[n(), n()]]], [[[if true { n() } else { x() }, T::clone(&n())],]], [[[{ n() }, (n()),]]]], [[[[n(), n()]]], [[[n(), if true { n() } else { x() }]]], [[[if true { n() } else { x() }, n(),]],], [[[n(), n()]]]], [[[[n(), match 1 { 1 => n(), _ => x() },]]], [[[if true { n() } else { x() }, (n())],]], [[[n(), n()]],], [[[if true { n() } else { x() }, n()]]],], [[[[(n()), (n())]]], [[[(n()), if true { n() } else { x() },]]], [[[n(), n()]]], [[[n(), T::clone(&n())]]]]], [[[[[(n()), T::clone(&n()),]]], [[[(n()), (n())]]], [[[n(), match 1 { 1 => n(), _ => x() },]]], [[[T::clone(&n()), n()]]]], [[[[{ n() }, T::clone(&n())]],], [[[match 1 { 1 => n(), _ => x() }, match 1 { 1 => n(), _ => x() },]],], [[[match 1 { 1 => n(), _ => x() }, if true { n() } else { x() }]],], [[[if true { n() } else { x() }, match 1 { 1 => n(), _ => x() }]],]], [[[[n(), n(),],],], [[[n(), if true { n() } else { x() }]]], [[[match 1 { 1 => n(), _ => x() }, { n() }],]], [[[if true { n() } else { x() }, (n())],]]], [[[[n(), T::clone(&n())]]], [[[n(), n()]],], [[[if true { n() } else { x() }, T::clone(&n())],]], [[[match 1 { 1 => n(), _ => x() }, if true { n() } else { x() }]],]]]], &[2, 4, 4, 1, 1, 2]);
    }
    17 => {
        chk::<T, _, _>(c, &view![[[[[[match 1 { 1 => n(), _ => x() }]]]]], [[[[[{ n() }]]]]], [[[[[match 1 { 1 => n(), _ => x() }]]]],]], &[3, 1, 1, 1, 1, 1]);
    }
    18 => {
        chk::<T, _, _>(c, &view![[[[[[n(),], [T::clone(&n())],]], [[[n(),], [T::clone(&n())]],], [[[n()], [T::clone(&n())]],]]], [[[[[match 1 { 1 => n(), _ => x() }], [if true { n() } else { x() },],]], [[[n()], [(n())]]], [[[match 1 { 1 => n(), _ => x() }], [n()],]]]], [[[[[n()], [n()]]], [[[T::clone(&n()),], [n()]]], [[[match 1 { 1 => n(), _ => x() },], [{ n() },],]]]]], &[3, 1, 3, 1, 2, 1]);
    }
    19 => {
        chk::<T, _, _>(c, &view![[[[[[if true { n() } else { x() }, match 1 { 1 => n(), _ => x() }, n()]]],], [[[[if true { n() } else { x() }, n(), { n() }]],]], [[[[if true { n() } else { x() }, n(), n()]],]], [[[[n(), n(), if true { n() } else { x() }]],]]], [[[[[n(), n(), (n())]]]], [[[[{ n() }, n(), { n() }]]]], [[[[if true { n() } else { x() }, { n() }, if true { n() } else { x() }],]]], [[[[n(), { n() }, match 1 { 1 => n(), _ => x() }]]]]], [[[[[{ n() }, match 1 { 1 => n(), _ => x() }, n()]]]], [[[[T::clone(&n()), if true { n() } else { x() }, n()]]]], [[[[(n()), n(), (n()),]]],], [[[[T::clone(&n()), T::clone(&n()), n()],]],]], [[[[[match 1 { 1 => n(), _ => x() }, match 1 { 1 => n(), _ => x() }, if true { n() } else { x() }]]]], [[[[match 1 { 1 => n(), _ => x() }, n(), if true { n() } else { x() }]]],], [[[[if true { n() } else { x() }, if true { n() } else { x() }, { n() }]]]], [[[[match 1 { 1 => n(), _ => x() }, n(), { n() }]]]]],], &[4, 4, 1, 1, 1, 3]);
    }
    20 => {
        chk::<T, _, _>(c, &view![[[[[[T::clone(&n()),],]]]], [[[[[(n())],],],]], [[[[[(n())]]],]], [[[[[(n())]]]]], [[[[[T::clone(&n()),]]]],],], &[5, 1, 1, 1, 1, 1]);
    }
    _ => unreachable!(),
    }
}

const LITERALS: usize = 429;
fn literal<T: El>(c: &mut Case, k: usize) {
    match k / 24 {
        0 => lit0::<T>(c, k % 24),
        1 => lit1::<T>(c, k % 24),
        2 => lit2::<T>(c, k % 24),
        3 => lit3::<T>(c, k % 24),
        4 => lit4::<T>(c, k % 24),
        5 => lit5::<T>(c, k % 24),
        6 => lit6::<T>(c, k % 24),
        7 => lit7::<T>(c, k % 24),
        8 => lit8::<T>(c, k % 24),
        9 => lit9::<T>(c, k % 24),
        10 => lit10::<T>(c, k % 24),
        11 => lit11::<T>(c, k % 24),
        12 => lit12::<T>(c, k % 24),
        13 => lit13::<T>(c, k % 24),
        14 => lit14::<T>(c, k % 24),
        15 => lit15::<T>(c, k % 24),
        16 => lit16::<T>(c, k % 24),
        17 => lit17::<T>(c, k % 24),
        _ => unreachable!(),
    }
}

const REPEATS: usize = 172;
fn repeats<T: El + Copy>(c: &mut Case, k: usize) {
    let v = T::make(7);
    match k {
    0 => { rep::<T, _, _>(c, &array![v; 0], &[0]); }
    1 => { rep::<T, _, _>(c, &array![v; 1], &[1]); }
    2 => { rep::<T, _, _>(c, &array![v; 2], &[2]); }
    3 => { rep::<T, _, _>(c, &array![v; 3], &[3]); }
    4 => { rep::<T, _, _>(c, &array![v; 4], &[4]); }
    5 => { rep::<T, _, _>(c, &array![[v; 0]; 0], &[0, 0]); }
    6 => { rep::<T, _, _>(c, &array![[v; 2]; 0], &[0, 2]); }
    7 => { rep::<T, _, _>(c, &array![[v; 0]; 1], &[1, 0]); }
    8 => { rep::<T, _, _>(c, &array![[v; 1]; 1], &[1, 1]); }
    9 => { rep::<T, _, _>(c, &array![[v; 2]; 1], &[1, 2]); }
    10 => { rep::<T, _, _>(c, &array![[v; 2]; 2], &[2, 2]); }
    11 => { rep::<T, _, _>(c, &array![[v; 3]; 2], &[2, 3]); }
    12 => { rep::<T, _, _>(c, &array![[v; 4]; 2], &[2, 4]); }
    13 => { rep::<T, _, _>(c, &array![[v; 1]; 4], &[4, 1]); }
    14 => { rep::<T, _, _>(c, &array![[v; 2]; 4], &[4, 2]); }
    15 => { rep::<T, _, _>(c, &array![[v; 3]; 4], &[4, 3]); }
    16 => { rep::<T, _, _>(c, &array![[[v; 1]; 0]; 1], &[1, 0, 1]); }
    17 => { rep::<T, _, _>(c, &array![[[v; 2]; 0]; 1], &[1, 0, 2]); }
    18 => { rep::<T, _, _>(c, &array![[[v; 2]; 1]; 1], &[1, 1, 2]); }
    19 => { rep::<T, _, _>(c, &array![[[v; 4]; 3]; 1], &[1, 3, 4]); }
    20 => { rep::<T, _, _>(c, &array![[[v; 1]; 4]; 1], &[1, 4, 1]); }
    21 => { rep::<T, _, _>(c, &array![[[v; 4]; 1]; 2], &[2, 1, 4]); }
    22 => { rep::<T, _, _>(c, &array![[[v; 1]; 2]; 2], &[2, 2, 1]); }
    23 => { rep::<T, _, _>(c, &array![[[v; 1]; 3]; 2], &[2, 3, 1]); }
    24 => { rep::<T, _, _>(c, &array![[[v; 3]; 3]; 2], &[2, 3, 3]); }
    25 => { rep::<T, _, _>(c, &array![[[v; 4]; 3]; 2], &[2, 3, 4]); }
    26 => { rep::<T, _, _>(c, &array![[[v; 1]; 2]; 3], &[3, 2, 1]); }
    27 => { rep::<T, _, _>(c, &array![[[[v; 1]; 4]; 2]; 0], &[0, 2, 4, 1]); }
    28 => { rep::<T, _, _>(c, &array![[[[v; 1]; 3]; 3]; 0], &[0, 3, 3, 1]); }
    29 => { rep::<T, _, _>(c, &array![[[[v; 4]; 1]; 4]; 1], &[1, 4, 1, 4]); }
    30 => { rep::<T, _, _>(c, &array![[[[v; 2]; 2]; 0]; 2], &[2, 0, 2, 2]); }
    31 => { rep::<T, _, _>(c, &array![[[[v; 3]; 3]; 0]; 2], &[2, 0, 3, 3]); }
    32 => { rep::<T, _, _>(c, &array![[[[v; 5]; 4]; 3]; 2], &[2, 3, 4, 5]); }
    33 => { rep::<T, _, _>(c, &array![[[[v; 0]; 1]; 4]; 2], &[2, 4, 1, 0]); }
    34 => { rep::<T, _, _>(c, &array![[[[v; 2]; 3]; 4]; 2], &[2, 4, 3, 2]); }
    35 => { rep::<T, _, _>(c, &array![[[[v; 4]; 3]; 1]; 3], &[3, 1, 3, 4]); }
    36 => { rep::<T, _, _>(c, &array![[[[v; 1]; 0]; 4]; 3], &[3, 4, 0, 1]); }
    37 => { rep::<T, _, _>(c, &array![[[[v; 3]; 1]; 4]; 3], &[3, 4, 1, 3]); }
    38 => { rep::<T, _, _>(c, &array![[[[[v; 1]; 4]; 1]; 2]; 0], &[0, 2, 1, 4, 1]); }
    39 => { rep::<T, _, _>(c, &array![[[[[v; 1]; 4]; 1]; 4]; 0], &[0, 4, 1, 4, 1]); }
    40 => { rep::<T, _, _>(c, &array![[[[[v; 2]; 2]; 4]; 1]; 1], &[1, 1, 4, 2, 2]); }
    41 => { rep::<T, _, _>(c, &array![[[[[v; 4]; 2]; 1]; 2]; 1], &[1, 2, 1, 2, 4]); }
    42 => { rep::<T, _, _>(c, &array![[[[[v; 4]; 2]; 3]; 2]; 1], &[1, 2, 3, 2, 4]); }
    43 => { rep::<T, _, _>(c, &array![[[[[v; 2]; 4]; 1]; 4]; 1], &[1, 4, 1, 4, 2]); }
    44 => { rep::<T, _, _>(c, &array![[[[[v; 0]; 1]; 1]; 1]; 3], &[3, 1, 1, 1, 0]); }
    45 => { rep::<T, _, _>(c, &array![[[[[v; 3]; 0]; 2]; 2]; 3], &[3, 2, 2, 0, 3]); }
    46 => { rep::<T, _, _>(c, &array![[[[[v; 3]; 1]; 1]; 3]; 3], &[3, 3, 1, 1, 3]); }
    47 => { rep::<T, _, _>(c, &array![[[[[v; 0]; 1]; 3]; 2]; 4], &[4, 2, 3, 1, 0]); }
    48 => { rep::<T, _, _>(c, &array![[[[[[v; 1]; 0]; 2]; 4]; 1]; 0], &[0, 1, 4, 2, 0, 1]); }
    49 => { rep::<T, _, _>(c, &array![[[[[[v; 3]; 2]; 2]; 1]; 3]; 1], &[1, 3, 1, 2, 2, 3]); }
    50 => { rep::<T, _, _>(c, &array![[[[[[v; 1]; 0]; 0]; 1]; 4]; 1], &[1, 4, 1, 0, 0, 1]); }
    51 => { rep::<T, _, _>(c, &array![[[[[[v; 1]; 2]; 2]; 0]; 2]; 2], &[2, 2, 0, 2, 2, 1]); }
    52 => { rep::<T, _, _>(c, &array![[[[[[v; 1]; 3]; 1]; 4]; 2]; 2], &[2, 2, 4, 1, 3, 1]); }
    53 => { rep::<T, _, _>(c, &array![[[[[[v; 3]; 2]; 3]; 2]; 0]; 3], &[3, 0, 2, 3, 2, 3]); }
    54 => { rep::<T, _, _>(c, &array![[[[[[v; 2]; 1]; 1]; 3]; 0]; 3], &[3, 0, 3, 1, 1, 2]); }
    55 => { rep::<T, _, _>(c, &array![[[[[[v; 0]; 3]; 0]; 1]; 2]; 3], &[3, 2, 1, 0, 3, 0]); }
    56 => { rep::<T, _, _>(c, &array![[[[[[v; 1]; 2]; 2]; 3]; 0]; 4], &[4, 0, 3, 2, 2, 1]); }
    57 => { rep::<T, _, _>(c, &array![[[[[[v; 2]; 1]; 1]; 0]; 2]; 4], &[4, 2, 0, 1, 1, 2]); }
    58 => { rep::<T, _, _>(c, &tensor![v; 0], &[0]); }
    59 => { rep::<T, _, _>(c, &tensor![v; 1], &[1]); }
    60 => { rep::<T, _, _>(c, &tensor![v; 2], &[2]); }
    61 => { rep::<T, _, _>(c, &tensor![v; 3], &[3]); }
    62 => { rep::<T, _, _>(c, &tensor![v; 4], &[4]); }
    63 => { rep::<T, _, _>(c, &tensor![[v; 0]; 0], &[0, 0]); }
    64 => { rep::<T, _, _>(c, &tensor![[v; 3]; 0], &[0, 3]); }
    65 => { rep::<T, _, _>(c, &tensor![[v; 4]; 0], &[0, 4]); }
    66 => { rep::<T, _, _>(c, &tensor![[v; 2]; 1], &[1, 2]); }
    67 => { rep::<T, _, _>(c, &tensor![[v; 3]; 1], &[1, 3]); }
    68 => { rep::<T, _, _>(c, &tensor![[v; 2]; 2], &[2, 2]); }
    69 => { rep::<T, _, _>(c, &tensor![[v; 3]; 2], &[2, 3]); }
    70 => { rep::<T, _, _>(c, &tensor![[v; 4]; 2], &[2, 4]); }
    71 => { rep::<T, _, _>(c, &tensor![[v; 2]; 3], &[3, 2]); }
    72 => { rep::<T, _, _>(c, &tensor![[v; 2]; 4], &[4, 2]); }
    73 => { rep::<T, _, _>(c, &tensor![[[v; 3]; 3]; 0], &[0, 3, 3]); }
    74 => { rep::<T, _, _>(c, &tensor![[[v; 4]; 4]; 0], &[0, 4, 4]); }
    75 => { rep::<T, _, _>(c, &tensor![[[v; 2]; 0]; 1], &[1, 0, 2]); }
    76 => { rep::<T, _, _>(c, &tensor![[[v; 1]; 1]; 1], &[1, 1, 1]); }
    77 => { rep::<T, _, _>(c, &tensor![[[v; 4]; 1]; 1], &[1, 1, 4]); }
    78 => { rep::<T, _, _>(c, &tensor![[[v; 2]; 4]; 1], &[1, 4, 2]); }
    79 => { rep::<T, _, _>(c, &tensor![[[v; 1]; 0]; 2], &[2, 0, 1]); }
    80 => { rep::<T, _, _>(c, &tensor![[[v; 1]; 1]; 2], &[2, 1, 1]); }
    81 => { rep::<T, _, _>(c, &tensor![[[v; 4]; 3]; 2], &[2, 3, 4]); }
    82 => { rep::<T, _, _>(c, &tensor![[[v; 1]; 1]; 3], &[3, 1, 1]); }
    83 => { rep::<T, _, _>(c, &tensor![[[v; 1]; 2]; 3], &[3, 2, 1]); }
    84 => { rep::<T, _, _>(c, &tensor![[[[v; 1]; 3]; 1]; 0], &[0, 1, 3, 1]); }
    85 => { rep::<T, _, _>(c, &tensor![[[[v; 3]; 1]; 2]; 0], &[0, 2, 1, 3]); }
    86 => { rep::<T, _, _>(c, &tensor![[[[v; 1]; 3]; 0]; 1], &[1, 0, 3, 1]); }
    87 => { rep::<T, _, _>(c, &tensor![[[[v; 2]; 1]; 1]; 1], &[1, 1, 1, 2]); }
    88 => { rep::<T, _, _>(c, &tensor![[[[v; 4]; 3]; 1]; 1], &[1, 1, 3, 4]); }
    89 => { rep::<T, _, _>(c, &tensor![[[[v; 1]; 2]; 2]; 1], &[1, 2, 2, 1]); }
    90 => { rep::<T, _, _>(c, &tensor![[[[v; 2]; 1]; 1]; 2], &[2, 1, 1, 2]); }
    91 => { rep::<T, _, _>(c, &tensor![[[[v; 1]; 4]; 3]; 2], &[2, 3, 4, 1]); }
    92 => { rep::<T, _, _>(c, &tensor![[[[v; 5]; 4]; 3]; 2], &[2, 3, 4, 5]); }
    93 => { rep::<T, _, _>(c, &tensor![[[[v; 1]; 1]; 3]; 3], &[3, 3, 1, 1]); }
    94 => { rep::<T, _, _>(c, &tensor![[[[v; 1]; 4]; 2]; 4], &[4, 2, 4, 1]); }
    95 => { rep::<T, _, _>(c, &tensor![[[[[v; 0]; 0]; 1]; 2]; 0], &[0, 2, 1, 0, 0]); }
    96 => { rep::<T, _, _>(c, &tensor![[[[[v; 2]; 2]; 2]; 4]; 0], &[0, 4, 2, 2, 2]); }
    97 => { rep::<T, _, _>(c, &tensor![[[[[v; 1]; 1]; 2]; 1]; 1], &[1, 1, 2, 1, 1]); }
    98 => { rep::<T, _, _>(c, &tensor![[[[[v; 3]; 2]; 4]; 1]; 1], &[1, 1, 4, 2, 3]); }
    99 => { rep::<T, _, _>(c, &tensor![[[[[v; 0]; 4]; 2]; 2]; 1], &[1, 2, 2, 4, 0]); }
    100 => { rep::<T, _, _>(c, &tensor![[[[[v; 4]; 0]; 2]; 3]; 1], &[1, 3, 2, 0, 4]); }
    101 => { rep::<T, _, _>(c, &tensor![[[[[v; 1]; 1]; 1]; 1]; 2], &[2, 1, 1, 1, 1]); }
    102 => { rep::<T, _, _>(c, &tensor![[[[[v; 3]; 1]; 3]; 2]; 2], &[2, 2, 3, 1, 3]); }
    103 => { rep::<T, _, _>(c, &tensor![[[[[v; 2]; 0]; 1]; 1]; 3], &[3, 1, 1, 0, 2]); }
    104 => { rep::<T, _, _>(c, &tensor![[[[[v; 0]; 3]; 3]; 3]; 3], &[3, 3, 3, 3, 0]); }
    105 => { rep::<T, _, _>(c, &tensor![[[[[[v; 1]; 3]; 2]; 2]; 0]; 0], &[0, 0, 2, 2, 3, 1]); }
    106 => { rep::<T, _, _>(c, &tensor![[[[[[v; 1]; 0]; 2]; 0]; 1]; 0], &[0, 1, 0, 2, 0, 1]); }
    107 => { rep::<T, _, _>(c, &tensor![[[[[[v; 4]; 3]; 1]; 1]; 1]; 0], &[0, 1, 1, 1, 3, 4]); }
    108 => { rep::<T, _, _>(c, &tensor![[[[[[v; 0]; 1]; 1]; 0]; 2]; 0], &[0, 2, 0, 1, 1, 0]); }
    109 => { rep::<T, _, _>(c, &tensor![[[[[[v; 2]; 1]; 1]; 3]; 3]; 0], &[0, 3, 3, 1, 1, 2]); }
    110 => { rep::<T, _, _>(c, &tensor![[[[[[v; 0]; 0]; 0]; 2]; 2]; 1], &[1, 2, 2, 0, 0, 0]); }
    111 => { rep::<T, _, _>(c, &tensor![[[[[[v; 2]; 1]; 2]; 1]; 4]; 2], &[2, 4, 1, 2, 1, 2]); }
    112 => { rep::<T, _, _>(c, &tensor![[[[[[v; 1]; 4]; 2]; 1]; 2]; 3], &[3, 2, 1, 2, 4, 1]); }
    113 => { rep::<T, _, _>(c, &tensor![[[[[[v; 1]; 3]; 1]; 3]; 1]; 4], &[4, 1, 3, 1, 3, 1]); }
    114 => { rep::<T, _, _>(c, &tensor![[[[[[v; 1]; 1]; 0]; 2]; 3]; 4], &[4, 3, 2, 0, 1, 1]); }
    115 => { rep::<T, _, _>(c, &view![v; 0], &[0]); }
    116 => { rep::<T, _, _>(c, &view![v; 1], &[1]); }
    117 => { rep::<T, _, _>(c, &view![v; 2], &[2]); }
    118 => { rep::<T, _, _>(c, &view![v; 3], &[3]); }
    119 => { rep::<T, _, _>(c, &view![v; 4], &[4]); }
    120 => { rep::<T, _, _>(c, &view![[v; 0]; 1], &[1, 0]); }
    121 => { rep::<T, _, _>(c, &view![[v; 1]; 1], &[1, 1]); }
    122 => { rep::<T, _, _>(c, &view![[v; 3]; 1], &[1, 3]); }
    123 => { rep::<T, _, _>(c, &view![[v; 4]; 1], &[1, 4]); }
    124 => { rep::<T, _, _>(c, &view![[v; 1]; 2], &[2, 1]); }
    125 => { rep::<T, _, _>(c, &view![[v; 3]; 2], &[2, 3]); }
    126 => { rep::<T, _, _>(c, &view![[v; 0]; 3], &[3, 0]); }
    127 => { rep::<T, _, _>(c, &view![[v; 2]; 3], &[3, 2]); }
    128 => { rep::<T, _, _>(c, &view![[v; 2]; 4], &[4, 2]); }
    129 => { rep::<T, _, _>(c, &view![[v; 4]; 4], &[4, 4]); }
    130 => { rep::<T, _, _>(c, &view![[[v; 2]; 1]; 0], &[0, 1, 2]); }
    131 => { rep::<T, _, _>(c, &view![[[v; 0]; 0]; 1], &[1, 0, 0]); }
    132 => { rep::<T, _, _>(c, &view![[[v; 0]; 1]; 1], &[1, 1, 0]); }
    133 => { rep::<T, _, _>(c, &view![[[v; 3]; 1]; 1], &[1, 1, 3]); }
    134 => { rep::<T, _, _>(c, &view![[[v; 1]; 2]; 1], &[1, 2, 1]); }
    135 => { rep::<T, _, _>(c, &view![[[v; 2]; 2]; 1], &[1, 2, 2]); }
    136 => { rep::<T, _, _>(c, &view![[[v; 2]; 3]; 1], &[1, 3, 2]); }
    137 => { rep::<T, _, _>(c, &view![[[v; 2]; 2]; 2], &[2, 2, 2]); }
    138 => { rep::<T, _, _>(c, &view![[[v; 1]; 3]; 2], &[2, 3, 1]); }
    139 => { rep::<T, _, _>(c, &view![[[v; 4]; 3]; 2], &[2, 3, 4]); }
    140 => { rep::<T, _, _>(c, &view![[[v; 1]; 0]; 3], &[3, 0, 1]); }
    141 => { rep::<T, _, _>(c, &view![[[[v; 1]; 2]; 0]; 1], &[1, 0, 2, 1]); }
    142 => { rep::<T, _, _>(c, &view![[[[v; 1]; 4]; 1]; 1], &[1, 1, 4, 1]); }
    143 => { rep::<T, _, _>(c, &view![[[[v; 0]; 1]; 2]; 1], &[1, 2, 1, 0]); }
    144 => { rep::<T, _, _>(c, &view![[[[v; 3]; 2]; 2]; 1], &[1, 2, 2, 3]); }
    145 => { rep::<T, _, _>(c, &view![[[[v; 3]; 1]; 3]; 1], &[1, 3, 1, 3]); }
    146 => { rep::<T, _, _>(c, &view![[[[v; 2]; 1]; 4]; 1], &[1, 4, 1, 2]); }
    147 => { rep::<T, _, _>(c, &view![[[[v; 1]; 1]; 0]; 2], &[2, 0, 1, 1]); }
    148 => { rep::<T, _, _>(c, &view![[[[v; 2]; 4]; 2]; 2], &[2, 2, 4, 2]); }
    149 => { rep::<T, _, _>(c, &view![[[[v; 5]; 4]; 3]; 2], &[2, 3, 4, 5]); }
    150 => { rep::<T, _, _>(c, &view![[[[v; 2]; 1]; 4]; 2], &[2, 4, 1, 2]); }
    151 => { rep::<T, _, _>(c, &view![[[[v; 4]; 1]; 4]; 2], &[2, 4, 1, 4]); }
    152 => { rep::<T, _, _>(c, &view![[[[[v; 0]; 2]; 4]; 3]; 0], &[0, 3, 4, 2, 0]); }
    153 => { rep::<T, _, _>(c, &view![[[[[v; 2]; 2]; 2]; 3]; 1], &[1, 3, 2, 2, 2]); }
    154 => { rep::<T, _, _>(c, &view![[[[[v; 1]; 1]; 2]; 0]; 2], &[2, 0, 2, 1, 1]); }
    155 => { rep::<T, _, _>(c, &view![[[[[v; 1]; 3]; 1]; 1]; 2], &[2, 1, 1, 3, 1]); }
    156 => { rep::<T, _, _>(c, &view![[[[[v; 4]; 2]; 2]; 1]; 2], &[2, 1, 2, 2, 4]); }
    157 => { rep::<T, _, _>(c, &view![[[[[v; 0]; 3]; 4]; 1]; 3], &[3, 1, 4, 3, 0]); }
    158 => { rep::<T, _, _>(c, &view![[[[[v; 1]; 1]; 3]; 4]; 3], &[3, 4, 3, 1, 1]); }
    159 => { rep::<T, _, _>(c, &view![[[[[v; 0]; 1]; 2]; 1]; 4], &[4, 1, 2, 1, 0]); }
    160 => { rep::<T, _, _>(c, &view![[[[[v; 2]; 0]; 4]; 1]; 4], &[4, 1, 4, 0, 2]); }
    161 => { rep::<T, _, _>(c, &view![[[[[v; 2]; 0]; 0]; 2]; 4], &[4, 2, 0, 0, 2]); }
    162 => { rep::<T, _, _>(c, &view![[[[[[v; 2]; 3]; 0]; 4]; 0]; 1], &[1, 0, 4, 0, 3, 2]); }
    163 => { rep::<T, _, _>(c, &view![[[[[[v; 2]; 2]; 1]; 4]; 0]; 1], &[1, 0, 4, 1, 2, 2]); }
    164 => { rep::<T, _, _>(c, &view![[[[[[v; 3]; 3]; 1]; 0]; 4]; 1], &[1, 4, 0, 1, 3, 3]); }
    165 => { rep::<T, _, _>(c, &view![[[[[[v; 1]; 0]; 1]; 1]; 4]; 1], &[1, 4, 1, 1, 0, 1]); }
    166 => { rep::<T, _, _>(c, &view![[[[[[v; 2]; 1]; 1]; 1]; 0]; 2], &[2, 0, 1, 1, 1, 2]); }
    167 => { rep::<T, _, _>(c, &view![[[[[[v; 3]; 0]; 2]; 2]; 4]; 2], &[2, 4, 2, 2, 0, 3]); }
    168 => { rep::<T, _, _>(c, &view![[[[[[v; 1]; 3]; 4]; 0]; 2]; 3], &[3, 2, 0, 4, 3, 1]); }
    169 => { rep::<T, _, _>(c, &view![[[[[[v; 2]; 1]; 0]; 1]; 2]; 3], &[3, 2, 1, 0, 1, 2]); }
    170 => { rep::<T, _, _>(c, &view![[[[[[v; 2]; 4]; 2]; 1]; 0]; 4], &[4, 0, 1, 2, 4, 2]); }
    171 => { rep::<T, _, _>(c, &view![[[[[[v; 0]; 3]; 2]; 1]; 2]; 4], &[4, 2, 1, 2, 3, 0]); }
    _ => unreachable!(),
    }
}
