//! C12 parenthesis search, C13 tree navigation, C14 unbalanced expressions, C15 builder and traversals.
use crate::engine::*;
use crate::gen::*;
use crate::{ensure, ensure_eq};
use std::collections::HashMap;
use vers_vecs::{BitVec, BpBuilder, BpTree, IsAncestor, LevelTree, RsVec, SubtreeSize, Tree, TreeBuilder};

/// Run `$f::<B>` with a drawn block size.
macro_rules! with_block_size {
    ($src:expr, $f:ident ( $($a:expr),* )) => {
        match $src.pick(&[6, 2, 2, 2, 1, 2, 2, 2, 2, 1, 1, 1, 1]) {
            0 => $f::<512>($($a),*),
            1 => $f::<64>($($a),*),
            2 => $f::<16>($($a),*),
            3 => $f::<8>($($a),*),
            4 => $f::<4>($($a),*),
            5 => $f::<24>($($a),*),
            6 => $f::<12>($($a),*),
            7 => $f::<128>($($a),*),
            8 => $f::<100>($($a),*),
            9 => $f::<1>($($a),*),
            10 => $f::<7>($($a),*),
            11 => $f::<2048>($($a),*),
            _ => $f::<40_000>($($a),*),
        }
    };
}

pub struct Excess {
    /// excess before position i, i in 0..=len
    e: Vec<i64>,
    at: HashMap<i64, Vec<usize>>,
}
impl Excess {
    pub fn new(m: &[bool]) -> Self {
        let mut e = vec![0i64];
        for &b in m {
            e.push(e[e.len() - 1] + if b { 1 } else { -1 });
        }
        let mut at: HashMap<i64, Vec<usize>> = HashMap::new();
        for (i, &x) in e.iter().enumerate() {
            at.entry(x).or_default().push(i);
        }
        Excess { e, at }
    }
    pub fn len(&self) -> usize {
        self.e.len() - 1
    }
    /// first p > index where the excess up to and including p is `rel` above that of index
    pub fn fwd(&self, index: usize, rel: i64) -> Option<usize> {
        if index >= self.len() {
            return None;
        }
        let v = self.at.get(&(self.e[index + 1] + rel))?;
        let k = v.partition_point(|&x| x <= index + 1);
        v.get(k).map(|x| x - 1)
    }
    /// last p < index where the excess before p is `rel` above the excess before index
    pub fn bwd(&self, index: usize, rel: i64) -> Option<usize> {
        if index >= self.len() {
            return None;
        }
        let v = self.at.get(&(self.e[index] + rel))?;
        let k = v.partition_point(|&x| x < index);
        if k == 0 { None } else { Some(v[k - 1]) }
    }
}

fn note(ctx: &mut Ctx, m: &[bool], block: usize) {
    ctx.note(|| format!("block size {block}, {}", show_bits(m)));
    ctx.label_if(m.len() > block, "several blocks");
    ctx.label_if(m.len() > 8 * block, "more than 8 blocks");
    ctx.label_if(!m.len().is_multiple_of(block), "partial last block");
}

// ---------------------------------------------------------------- C12
fn search_all<const B: usize>(src: &mut Src, ctx: &mut Ctx, m: &[bool]) -> Res {
    let t = BpTree::<B>::from_bit_vector(build_bv(src, m));
    let x = Excess::new(m);
    note(ctx, m, B);
    ctx.nontrivial_if(m.len() > 1);
    let n = m.len();
    let span = if n <= 400 { n as i64 + 2 } else { 12 };
    let mut r = Rng::new(src.upto(0xFFFF));
    let idx: Vec<usize> = if n <= 1500 { (0..n + 2).collect() } else { (0..600).map(|k| if k % 2 == 0 { r.upto(n as u64 + 1) as usize } else { aligned(&mut r, n + 1) }).collect() };
    for &i in idx.iter().chain([&(n + 1000), &((1 << 32) + n / 2), &((1 << 63) + n / 3), &usize::MAX]) {
        let mut rels: Vec<i64> = if n <= 80 { (-span..=span).collect() } else { vec![-3, -2, -1, 0, 1, 2, 3] };
        if n > 80 {
            for _ in 0..8 {
                rels.push(r.upto(2 * span as u64) as i64 - span);
                // the relative excess of some other position
                if i < n {
                    let j = r.upto(n as u64) as usize;
                    rels.push(x.e[j] - x.e[i]);
                    rels.push(x.e[j] - x.e[i + 1]);
                }
            }
            rels.push(n as i64 + 10);
            rels.push(-(n as i64) - 10);
        }
        rels.extend([1 << 40, -(1 << 40), 1 << 61, -(1 << 61)]);
        for rel in rels {
            ensure_eq!(t.fwd_search(i, rel), x.fwd(i, rel), "fwd_search({i}, {rel}) on {n} bits, block size {B}");
            ensure_eq!(t.bwd_search(i, rel), x.bwd(i, rel), "bwd_search({i}, {rel}) on {n} bits, block size {B}");
        }
        // matching parentheses
        if i < n {
            ensure_eq!(t.excess(i), x.e[i + 1], "excess({i})");
            if m[i] {
                ensure_eq!(t.close(i), x.fwd(i, -1), "close({i})");
                ensure_eq!(t.enclose(i), x.bwd(i, -1), "enclose({i}) at an opening parenthesis");
            } else {
                ensure_eq!(t.open(i), x.bwd(i, -1), "open({i})");
                ensure_eq!(t.enclose(i), x.bwd(i, -2), "enclose({i}) at a closing parenthesis");
            }
        } else {
            ensure_eq!(t.close(i), None, "close({i}) of {n}");
            ensure_eq!(t.open(i), None, "open({i}) of {n}");
            ensure_eq!(t.enclose(i), None, "enclose({i}) of {n}");
        }
    }
    Ok(())
}
pub fn bp_search_small(src: &mut Src, ctx: &mut Ctx) -> Res {
    let m = gen_parens(src, 80);
    with_block_size!(src, search_all(src, ctx, &m))
}
pub fn bp_search_mid(src: &mut Src, ctx: &mut Ctx) -> Res {
    let m = if src.flag() { gen_parens(src, 6000) } else { gen_tree_bits(src, 3000) };
    with_block_size!(src, search_all(src, ctx, &m))
}
pub fn bp_search_large(src: &mut Src, ctx: &mut Ctx) -> Res {
    let m = if src.flag() { gen_parens(src, 600_000) } else { gen_tree_bits(src, 300_000) };
    with_block_size!(src, search_all(src, ctx, &m))
}
/// every expression of up to 14 parentheses, block sizes around the table width
pub const BP_ENUM: u64 = (1 << 15) * 3;
pub fn bp_search_enum(src: &mut Src, ctx: &mut Ctx) -> Res {
    let i = src.upto(BP_ENUM - 1);
    let (b, mut code) = (i % 3, i / 3 + 1);
    let mut m = Vec::new();
    while code > 1 {
        m.push(code & 1 == 1);
        code >>= 1;
    }
    match b {
        0 => search_all::<4>(src, ctx, &m),
        1 => search_all::<512>(src, ctx, &m),
        _ => search_all::<3>(src, ctx, &m),
    }
}

// ---------------------------------------------------------------- C13
#[derive(Default, Clone)]
struct Node {
    open: usize,
    close: usize,
    parent: Option<usize>,
    children: Vec<usize>,
    depth: u64,
    size: usize,
    /// position among its siblings
    ord: usize,
}
struct Model {
    nodes: Vec<Node>,
    levels: Vec<Vec<usize>>,
    roots: Vec<usize>,
    /// index in its level
    level_pos: Vec<usize>,
    post: Vec<usize>,
}
fn model(m: &[bool]) -> Model {
    let mut nodes: Vec<Node> = Vec::new();
    let mut stack: Vec<usize> = Vec::new();
    let mut roots = Vec::new();
    let mut levels: Vec<Vec<usize>> = Vec::new();
    let mut level_pos = Vec::new();
    let mut post = Vec::new();
    for (i, &b) in m.iter().enumerate() {
        if b {
            let id = nodes.len();
            let mut n = Node { open: i, depth: stack.len() as u64, size: 1, ..Default::default() };
            if let Some(&p) = stack.last() {
                n.parent = Some(p);
                n.ord = nodes[p].children.len();
                nodes[p].children.push(id);
            } else {
                n.ord = roots.len();
                roots.push(id);
            }
            if levels.len() <= stack.len() {
                levels.push(Vec::new());
            }
            level_pos.push(levels[stack.len()].len());
            levels[stack.len()].push(id);
            stack.push(id);
            nodes.push(n);
        } else {
            let id = stack.pop().unwrap();
            nodes[id].close = i;
            let s = nodes[id].size;
            if let Some(p) = nodes[id].parent {
                nodes[p].size += s;
            }
            post.push(id);
        }
    }
    assert!(stack.is_empty());
    Model { nodes, levels, roots, level_pos, post }
}

fn nav<const B: usize>(src: &mut Src, ctx: &mut Ctx, m: &[bool]) -> Res {
    let t = BpTree::<B>::from_bit_vector(build_bv(src, m));
    let md = model(m);
    note(ctx, m, B);
    ctx.nontrivial_if(md.nodes.len() > 2);
    ctx.label_if(md.roots.len() > 1, "forest");
    ctx.label_if(md.levels.len() > 100, "deeper than 100");
    ctx.label_if(md.nodes.iter().any(|n| n.children.len() > 100), "node with more than 100 children");
    let h = |id: usize| md.nodes[id].open;
    let n = md.nodes.len();
    ensure_eq!(t.size(), n, "size");
    ensure_eq!(t.is_empty(), n == 0, "is_empty");
    ensure_eq!(t.root(), if n == 0 { None } else { Some(0) }, "root");
    let mut r = Rng::new(src.upto(0xFFFF));
    let sampled: Vec<usize> = if n <= 4000 { (0..n).collect() } else { (0..2000).map(|k| match k % 3 {
        0 => r.upto(n as u64 - 1) as usize,
        1 => aligned(&mut r, n - 1),
        // next to an aligned position of the expression
        _ => {
            let p = aligned(&mut r, m.len() - 1);
            md.nodes.partition_point(|x| x.open < p).min(n - 1)
        }
    }).collect() };
    for id in sampled {
        let nd = &md.nodes[id];
        let v = nd.open;
        let sib: &[usize] = match nd.parent {
            Some(p) => &md.nodes[p].children,
            None => &md.roots,
        };
        ensure_eq!(t.parent(v), nd.parent.map(h), "parent({v})");
        ensure_eq!(t.first_child(v), nd.children.first().map(|&c| h(c)), "first_child({v})");
        ensure_eq!(t.last_child(v), nd.children.last().map(|&c| h(c)), "last_child({v})");
        ensure_eq!(t.next_sibling(v), sib.get(nd.ord + 1).map(|&c| h(c)), "next_sibling({v})");
        ensure_eq!(t.previous_sibling(v), if nd.ord == 0 { None } else { Some(h(sib[nd.ord - 1])) }, "previous_sibling({v})");
        ensure_eq!(t.is_leaf(v), nd.children.is_empty(), "is_leaf({v})");
        ensure_eq!(t.depth(v), nd.depth, "depth({v})");
        ensure_eq!(t.node_index(v), id, "node_index({v})");
        ensure_eq!(t.node_handle(id), v, "node_handle({id})");
        ensure_eq!(t.subtree_size(v), Some(nd.size), "subtree_size({v})");
        ensure_eq!(t.close(v), Some(nd.close), "close({v})");
        ensure_eq!(t.open(nd.close), Some(v), "open({})", nd.close);
        ensure_eq!(t.enclose(nd.close), nd.parent.map(h), "enclose({})", nd.close);
        // level order
        let lv = &md.levels[nd.depth as usize];
        let lp = md.level_pos[id];
        ensure_eq!(t.level_next(v), lv.get(lp + 1).map(|&c| h(c)), "level_next({v})");
        ensure_eq!(t.level_prev(v), if lp == 0 { None } else { Some(h(lv[lp - 1])) }, "level_prev({v})");
        let mut k = 0u64;
        let mut a = Some(id);
        let full = nd.depth < 30;
        while let Some(x) = a {
            if full || k < 4 || r.upto(nd.depth) < 6 {
                ensure_eq!(t.level_ancestor(v, k), Some(h(x)), "level_ancestor({v}, {k})");
                ensure_eq!(t.is_ancestor(h(x), v), Some(true), "is_ancestor({}, {v})", h(x));
                if x != id {
                    ensure_eq!(t.is_ancestor(v, h(x)), Some(false), "is_ancestor({v}, {})", h(x));
                }
            }
            a = md.nodes[x].parent;
            k += 1;
        }
        for k in [nd.depth + 1, nd.depth + 2, nd.depth + 1000, 1 << 40] {
            ensure_eq!(t.level_ancestor(v, k), None, "level_ancestor({v}, {k}) at depth {}", nd.depth);
        }
        let other = r.upto(n as u64 - 1) as usize;
        let o = &md.nodes[other];
        ensure_eq!(t.is_ancestor(v, o.open), Some(nd.open <= o.open && o.close <= nd.close), "is_ancestor({v}, {})", o.open);
    }
    for (l, lv) in md.levels.iter().enumerate() {
        ensure_eq!(t.level_leftmost(l as u64), Some(h(lv[0])), "level_leftmost({l})");
        ensure_eq!(t.level_rightmost(l as u64), Some(h(lv[lv.len() - 1])), "level_rightmost({l})");
    }
    let d = md.levels.len() as u64;
    for l in [d, d + 1, d + 5, d + 1000, 1 << 40] {
        ensure_eq!(t.level_leftmost(l), None, "level_leftmost({l}) of {d} levels");
        ensure_eq!(t.level_rightmost(l), None, "level_rightmost({l}) of {d} levels");
    }
    Ok(())
}
pub fn bp_nav_small(src: &mut Src, ctx: &mut Ctx) -> Res {
    let m = gen_tree_bits(src, 100);
    with_block_size!(src, nav(src, ctx, &m))
}
pub fn bp_nav_mid(src: &mut Src, ctx: &mut Ctx) -> Res {
    let m = gen_tree_bits(src, 4000);
    with_block_size!(src, nav(src, ctx, &m))
}
pub fn bp_nav_large(src: &mut Src, ctx: &mut Ctx) -> Res {
    let m = gen_tree_bits(src, 200_000);
    with_block_size!(src, nav(src, ctx, &m))
}

// ---------------------------------------------------------------- C14
fn robust<const B: usize>(src: &mut Src, ctx: &mut Ctx, m: &[bool]) -> Res {
    let t = BpTree::<B>::from_bit_vector(build_bv(src, m));
    note(ctx, m, B);
    let x = Excess::new(m);
    let bal = x.e[m.len()] == 0 && x.e.iter().all(|&v| v >= 0);
    ctx.nontrivial_if(m.len() > 2 && !bal);
    ctx.label_if(!bal, "unbalanced");
    let n = m.len();
    ensure_eq!(t.size(), m.iter().filter(|&&b| b).count(), "size");
    let opens: Vec<usize> = (0..n).filter(|&i| m[i]).collect();
    macro_rules! np {
        ($e:expr, $($w:tt)*) => {
            match guarded(|| $e) {
                Ok(v) => v,
                Err(p) => return Err(format!("{} on {n} bits, block size {B}: {p}", format!($($w)*))),
            }
        };
    }
    macro_rules! node {
        ($p:expr, $($w:tt)*) => {
            if let Some(p) = $p {
                ensure!(p < n && m[p], "{} on {n} bits, block size {B}, is {p}, which is not a node", format!($($w)*));
            }
        };
    }
    np!(t.root(), "root");
    np!(t.is_empty(), "is_empty");
    let mut r = Rng::new(src.upto(0xFFFF));
    for i in 0..n.min(300) {
        let i = if n <= 300 { i } else { r.upto(n as u64 - 1) as usize };
        np!(t.close(i), "close({i})");
        np!(t.open(i), "open({i})");
        np!(t.enclose(i), "enclose({i})");
        np!(t.excess(i), "excess({i})");
        let rel = r.upto(60) as i64 - 30;
        np!(t.fwd_search(i, rel), "fwd_search({i}, {rel})");
        np!(t.bwd_search(i, rel), "bwd_search({i}, {rel})");
    }
    for i in 0..opens.len().min(300) {
        let v = if opens.len() <= 300 { opens[i] } else { opens[r.upto(opens.len() as u64 - 1) as usize] };
        let o = opens[r.upto(opens.len() as u64 - 1) as usize];
        node!(np!(t.parent(v), "parent({v})"), "parent({v})");
        node!(np!(t.first_child(v), "first_child({v})"), "first_child({v})");
        node!(np!(t.last_child(v), "last_child({v})"), "last_child({v})");
        node!(np!(t.next_sibling(v), "next_sibling({v})"), "next_sibling({v})");
        node!(np!(t.previous_sibling(v), "previous_sibling({v})"), "previous_sibling({v})");
        np!(t.is_leaf(v), "is_leaf({v})");
        np!(t.node_index(v), "node_index({v})");
        node!(np!(t.level_next(v), "level_next({v})"), "level_next({v})");
        node!(np!(t.level_prev(v), "level_prev({v})"), "level_prev({v})");
        let k = r.upto(40);
        node!(np!(t.level_ancestor(v, k), "level_ancestor({v}, {k})"), "level_ancestor({v}, {k})");
        let d = np!(t.depth(v), "depth({v})");
        // documented: zero where closing parentheses prevail
        ensure_eq!(d, (x.e[v + 1] - 1).max(0) as u64, "depth({v})");
        let closed = x.fwd(v, -1);
        let s = np!(t.subtree_size(v), "subtree_size({v})");
        ensure_eq!(s.is_none(), closed.is_none(), "subtree_size({v}) is None, closing parenthesis {closed:?}");
        let s = np!(t.is_ancestor(v, o), "is_ancestor({v}, {o})");
        ensure_eq!(s.is_none(), closed.is_none(), "is_ancestor({v}, {o}) is None, closing parenthesis {closed:?}");
    }
    for l in 0..40 {
        np!(t.level_leftmost(l), "level_leftmost({l})");
        np!(t.level_rightmost(l), "level_rightmost({l})");
    }
    // the pre-order iterator yields every opening parenthesis
    ensure!(t.dfs_iter().eq(opens.iter().copied()), "dfs_iter differs from the opening parentheses");
    Ok(())
}
pub fn bp_unbalanced(src: &mut Src, ctx: &mut Ctx) -> Res {
    let m = gen_parens(src, 3000);
    with_block_size!(src, robust(src, ctx, &m))
}
pub fn bp_unbalanced_large(src: &mut Src, ctx: &mut Ctx) -> Res {
    let m = gen_parens(src, 300_000);
    with_block_size!(src, robust(src, ctx, &m))
}
pub fn bp_unbalanced_enum(src: &mut Src, ctx: &mut Ctx) -> Res {
    let i = src.upto(BP_UENUM - 1);
    let mut code = i / 2 + 1;
    let mut m = Vec::new();
    while code > 1 {
        m.push(code & 1 == 1);
        code >>= 1;
    }
    if i % 2 == 0 { robust::<4>(src, ctx, &m) } else { robust::<512>(src, ctx, &m) }
}
pub const BP_UENUM: u64 = 2 << 13;

// ---------------------------------------------------------------- C15
fn build_and_walk<const B: usize>(src: &mut Src, ctx: &mut Ctx, m: &[bool]) -> Res {
    let md = model(m);
    note(ctx, m, B);
    ctx.nontrivial_if(md.nodes.len() > 2);
    let mut b = match src.uupto(2) {
        0 => BpBuilder::<B>::new(),
        1 => BpBuilder::<B>::with_capacity(src.upto(3 * m.len() as u64)),
        _ => BpBuilder::<B>::default(),
    };
    for &x in m {
        if x {
            b.enter_node();
        } else {
            b.leave_node();
        }
    }
    let t = match b.build() {
        Ok(t) => t,
        Err(e) => return Err(format!("build of a balanced tree failed with excess {e}")),
    };
    ensure_eq!(t.size(), md.nodes.len(), "size of the built tree");
    let opens: Vec<usize> = md.nodes.iter().map(|n| n.open).collect();
    let posts: Vec<usize> = md.post.iter().map(|&i| md.nodes[i].open).collect();
    macro_rules! same {
        ($it:expr, $e:expr, $($w:tt)*) => {{
            let e = $e;
            let g: Vec<usize> = $it.take(e.len() + 3).collect();
            if g != e {
                return Err(format!("{}: got {:?}, expected {:?}", format!($($w)*), &g[..g.len().min(50)], &e[..e.len().min(50)]));
            }
        }};
    }
    same!(t.iter(), opens.clone(), "iter");
    same!(t.dfs_iter(), opens.clone(), "dfs_iter");
    same!(t.dfs_post_iter(), posts.clone(), "dfs_post_iter");
    let mut r = Rng::new(src.upto(0xFFFF));
    let n = opens.len();
    let some = if n > 10_000 { 8 } else { 40 };
    let ids: Vec<usize> = if n <= 60 { (0..n).collect() } else { (0..some).map(|k| if k < 2 { k } else { r.upto(n as u64 - 1) as usize }).collect() };
    for id in ids {
        let nd = &md.nodes[id];
        let v = nd.open;
        same!(t.subtree_iter(v), opens[id..id + nd.size].to_vec(), "subtree_iter({v})");
        let e: Vec<usize> = posts.iter().copied().filter(|&o| o >= nd.open && o < nd.close).collect();
        same!(t.subtree_post_iter(v), e, "subtree_post_iter({v})");
        let ch: Vec<usize> = nd.children.iter().map(|&c| md.nodes[c].open).collect();
        same!(t.children(v), ch.clone(), "children({v})");
        same!(t.rev_children(v), ch.into_iter().rev().collect::<Vec<_>>(), "rev_children({v})");
    }
    same!(t.clone().into_iter(), opens.clone(), "into_iter");
    // back to the parentheses
    match src.uupto(2) {
        0 => check_bv(&t.into_parentheses_vec().into_bit_vec(), m, "into_parentheses_vec")?,
        1 => check_bv(&BitVec::from(t), m, "BitVec::from")?,
        _ => {
            let rs = RsVec::from(t);
            ensure_eq!(rs.rank1(m.len()), n, "RsVec::from: rank1(len)");
            check_bv(&rs.into_bit_vec(), m, "RsVec::from")?;
        }
    }
    // and over a bit vector
    let t = BpTree::<B>::from(build_bv(src, m));
    same!(t.dfs_post_iter(), posts, "dfs_post_iter of the tree made from the bit vector");
    Ok(())
}
pub fn bp_build(src: &mut Src, ctx: &mut Ctx) -> Res {
    let m = gen_tree_bits(src, 1500);
    with_block_size!(src, build_and_walk(src, ctx, &m))
}
pub fn bp_build_large(src: &mut Src, ctx: &mut Ctx) -> Res {
    let m = gen_tree_bits(src, 150_000);
    with_block_size!(src, build_and_walk(src, ctx, &m))
}

fn excess_error<const B: usize>(ctx: &mut Ctx, m: &[bool]) -> Res {
    let x = Excess::new(m);
    let e = x.e[m.len()];
    let mut b = BpBuilder::<B>::new();
    for &o in m {
        if o {
            b.enter_node();
        } else {
            b.leave_node();
        }
    }
    ctx.note(|| show_bits(m));
    ctx.nontrivial_if(e != 0);
    match b.build() {
        Ok(t) => {
            ensure_eq!(e, 0, "a builder with this excess built a tree");
            check_bv(&BitVec::from(t), m, "built parentheses")
        }
        Err(g) => {
            ensure!(e != 0, "build of an expression without excess failed with {g}");
            ensure_eq!(g, e, "excess reported by build");
            Ok(())
        }
    }
}
pub fn bp_build_error(src: &mut Src, ctx: &mut Ctx) -> Res {
    let max = if src.chance(1, 60) { 100_000 } else { 300 };
    let m = gen_parens(src, max);
    with_block_size!(src, excess_error(ctx, &m))
}

// ---------------------------------------------------------------- beyond 2^32 parentheses
/// A very long expression: slopes, flat stretches of leaves and literal parts, with the excess solved piece by piece.
struct Vast {
    /// start, excess before it, nodes before it, kind
    parts: Vec<(usize, i64, usize, Part)>,
    len: usize,
    end: i64,
    nodes: usize,
}
enum Part {
    Up(usize),
    Down(usize),
    Leaves(usize),
    Lit(Vec<bool>, Vec<i64>),
}
impl Part {
    fn len(&self) -> usize {
        match self {
            Part::Up(n) | Part::Down(n) => *n,
            Part::Leaves(n) => 2 * n,
            Part::Lit(v, _) => v.len(),
        }
    }
    fn bit(&self, i: usize) -> bool {
        match self {
            Part::Up(_) => true,
            Part::Down(_) => false,
            Part::Leaves(_) => i % 2 == 0,
            Part::Lit(v, _) => v[i],
        }
    }
    /// excess after the first `i` parentheses of the part
    fn at(&self, i: usize) -> i64 {
        match self {
            Part::Up(_) => i as i64,
            Part::Down(_) => -(i as i64),
            Part::Leaves(_) => (i % 2) as i64,
            Part::Lit(_, e) => e[i],
        }
    }
    fn opens(&self, i: usize) -> usize {
        ((i as i64 + self.at(i)) / 2) as usize
    }
    /// smallest (largest) i in lo..=hi with at(i) == t
    fn find(&self, lo: usize, hi: usize, t: i64, first: bool) -> Option<usize> {
        let inside = |i: i64| if i >= lo as i64 && i <= hi as i64 { Some(i as usize) } else { None };
        if lo > hi {
            return None;
        }
        match self {
            Part::Up(_) => inside(t),
            Part::Down(_) => inside(-t),
            Part::Leaves(_) => {
                if t != 0 && t != 1 {
                    return None;
                }
                let odd = t as usize;
                let c = if first { lo + (lo % 2 != odd) as usize } else { hi.wrapping_sub((hi % 2 != odd) as usize) };
                if c >= lo && c <= hi { Some(c) } else { None }
            }
            Part::Lit(_, e) => if first { (lo..=hi).find(|&i| e[i] == t) } else { (lo..=hi).rev().find(|&i| e[i] == t) },
        }
    }
}
impl Vast {
    fn new(parts: Vec<Part>) -> (Self, BitVec) {
        let mut v = Vast { parts: Vec::new(), len: 0, end: 0, nodes: 0 };
        let mut bv = BitVec::new();
        for p in parts {
            match &p {
                Part::Up(n) => bv.extend_bitvec(&BitVec::from_ones(*n)),
                Part::Down(n) => bv.extend_bitvec(&BitVec::from_zeros(*n)),
                Part::Leaves(n) => {
                    for _ in 0..n / 32 {
                        bv.append_word(0x5555_5555_5555_5555);
                    }
                    bv.append_bits(0x5555_5555_5555_5555, n % 32 * 2);
                }
                Part::Lit(b, _) => bv.extend_bitvec(&BitVec::from_bools(b)),
            }
            let (l, d, o) = (p.len(), p.at(p.len()), p.opens(p.len()));
            v.parts.push((v.len, v.end, v.nodes, p));
            v.len += l;
            v.end += d;
            v.nodes += o;
        }
        (v, bv)
    }
    fn lit(b: Vec<bool>) -> Part {
        let e = Excess::new(&b).e;
        Part::Lit(b, e)
    }
    fn part(&self, p: usize) -> &(usize, i64, usize, Part) {
        &self.parts[self.parts.partition_point(|x| x.0 <= p) - 1]
    }
    fn bit(&self, p: usize) -> bool {
        p < self.len && {
            let x = self.part(p);
            x.3.bit(p - x.0)
        }
    }
    /// excess before p
    fn before(&self, p: usize) -> i64 {
        if p >= self.len {
            return self.end;
        }
        let x = self.part(p);
        x.1 + x.3.at(p - x.0)
    }
    fn opens_before(&self, p: usize) -> usize {
        if p >= self.len {
            return self.nodes;
        }
        let x = self.part(p);
        x.2 + x.3.opens(p - x.0)
    }
    /// first p > from with excess t before p + 1; `from` = None: from the start
    fn first_after(&self, from: Option<usize>, t: i64) -> Option<usize> {
        let s = from.map_or(0, |x| x + 1);
        for (a, e, _, p) in &self.parts {
            if a + p.len() <= s {
                continue;
            }
            let lo = s.max(*a) - a + 1;
            if let Some(i) = p.find(lo, p.len(), t - e, true) {
                return Some(a + i - 1);
            }
        }
        None
    }
    /// last p < to with excess t before p
    fn last_before(&self, to: usize, t: i64) -> Option<usize> {
        for (a, e, _, p) in self.parts.iter().rev() {
            if *a >= to || p.len() == 0 {
                continue;
            }
            let hi = (to - 1 - a).min(p.len() - 1);
            if let Some(i) = p.find(0, hi, t - e, false) {
                return Some(a + i);
            }
        }
        None
    }
    fn fwd(&self, i: usize, rel: i64) -> Option<usize> {
        if i >= self.len { None } else { self.first_after(Some(i), self.before(i + 1) + rel) }
    }
    fn bwd(&self, i: usize, rel: i64) -> Option<usize> {
        if i >= self.len { None } else { self.last_before(i, self.before(i) + rel) }
    }
}

fn gen_vast(src: &mut Src, ctx: &mut Ctx) -> (Vast, BitVec) {
    let parts = if src.flag() {
        // deep: nesting beyond 2^31
        let a = (1usize << 31) + src.uupto(5000);
        let m = gen_tree_bits(src, 3000);
        ctx.note(|| format!("{a} nested nodes around {}", show_bits(&m)));
        vec![Part::Up(a), Vast::lit(m), Part::Down(a)]
    } else {
        // wide: more than 2^31 leaves between other nodes
        let a = (1usize << 31) + src.uupto(5000);
        let (m, o) = (gen_tree_bits(src, 3000), gen_tree_bits(src, 3000));
        let d = src.urange(1, 70_000);
        ctx.note(|| format!("{d} nested nodes around {}, {a} leaves, {}", show_bits(&m), show_bits(&o)));
        vec![Part::Up(d), Vast::lit(m), Part::Leaves(a), Vast::lit(o), Part::Down(d)]
    };
    Vast::new(parts)
}
fn vast_pos(src: &mut Src, v: &Vast) -> usize {
    if src.flag() {
        return big_pos(src, v.len);
    }
    // near the border of a part, or inside a literal one
    let (a, _, _, p) = src.choose(&v.parts);
    let near = src.uupto(40);
    let p = match src.uupto(2) {
        0 => (a + near).saturating_sub(20),
        1 => a + src.uupto(p.len()),
        _ => (a + p.len() + near).saturating_sub(20),
    };
    p.min(v.len - 1)
}

pub fn bp_search_huge(src: &mut Src, ctx: &mut Ctx) -> Res {
    let (v, bv) = gen_vast(src, ctx);
    ctx.nontrivial_if(true);
    let t = BpTree::<512>::from_bit_vector(bv);
    for _ in 0..1500 {
        let i = vast_pos(src, &v);
        let j = vast_pos(src, &v);
        ensure_eq!(t.excess(i), v.before(i + 1), "excess({i})");
        let mut rels = vec![-2, -1, 0, 1, 2, src.range(0, 2000) as i64 - 1000];
        rels.push(v.before(j) - v.before(i));
        rels.push(v.before(j) - v.before(i + 1));
        for rel in rels {
            ensure_eq!(t.fwd_search(i, rel), v.fwd(i, rel), "fwd_search({i}, {rel})");
            ensure_eq!(t.bwd_search(i, rel), v.bwd(i, rel), "bwd_search({i}, {rel})");
        }
        if v.bit(i) {
            ensure_eq!(t.close(i), v.fwd(i, -1), "close({i})");
            ensure_eq!(t.enclose(i), v.bwd(i, -1), "enclose({i}) at an opening parenthesis");
        } else {
            ensure_eq!(t.open(i), v.bwd(i, -1), "open({i})");
            ensure_eq!(t.enclose(i), v.bwd(i, -2), "enclose({i}) at a closing parenthesis");
        }
    }
    Ok(())
}

pub fn bp_nav_huge(src: &mut Src, ctx: &mut Ctx) -> Res {
    let (v, bv) = gen_vast(src, ctx);
    ctx.nontrivial_if(true);
    let t = BpTree::<512>::from_bit_vector(bv);
    ensure_eq!(t.size(), v.nodes, "size");
    let mut top = 0;
    for _ in 0..1500 {
        let mut i = vast_pos(src, &v);
        if !v.bit(i) {
            i = v.bwd(i, -1).unwrap();
        }
        let c = v.fwd(i, -1).unwrap();
        let d = v.before(i);
        top = top.max(d);
        ensure_eq!(t.close(i), Some(c), "close({i})");
        ensure_eq!(t.depth(i), d as u64, "depth({i})");
        ensure_eq!(t.parent(i), v.bwd(i, -1), "parent({i})");
        ensure_eq!(t.subtree_size(i), Some((c - i + 1) / 2), "subtree_size({i})");
        ensure_eq!(t.is_leaf(i), c == i + 1, "is_leaf({i})");
        ensure_eq!(t.first_child(i), if c > i + 1 { Some(i + 1) } else { None }, "first_child({i})");
        ensure_eq!(t.last_child(i), if c > i + 1 { v.bwd(c - 1, -1) } else { None }, "last_child({i})");
        ensure_eq!(t.next_sibling(i), if v.bit(c + 1) { Some(c + 1) } else { None }, "next_sibling({i})");
        let p = if i > 0 && !v.bit(i - 1) { v.bwd(i - 1, -1) } else { None };
        ensure_eq!(t.previous_sibling(i), p, "previous_sibling({i})");
        let k = v.opens_before(i);
        ensure_eq!(t.node_index(i), k, "node_index({i})");
        ensure_eq!(t.node_handle(k), i, "node_handle({k})");
        for k in [1, 2, src.uupto(d as usize) as u64, d as u64, d as u64 + 1] {
            let e = if k == 0 { Some(i) } else { v.bwd(i, -(k as i64)) };
            ensure_eq!(t.level_ancestor(i, k), e, "level_ancestor({i}, {k})");
            if let Some(a) = e {
                ensure_eq!(t.is_ancestor(a, i), Some(true), "is_ancestor({a}, {i})");
            }
        }
        let mut j = vast_pos(src, &v);
        if !v.bit(j) {
            j = v.bwd(j, -1).unwrap();
        }
        ensure_eq!(t.is_ancestor(i, j), Some(i <= j && j < c), "is_ancestor({i}, {j})");
        // neighbours on the level: behind the node the excess is its depth; where it first rises above that, the next
        // node of this depth opens, and before the node likewise, read backwards
        ensure_eq!(t.level_next(i), v.fwd(c, 1), "level_next({i})");
        let e = v.last_before(i, d + 1).and_then(|q| v.bwd(q, -1));
        ensure_eq!(t.level_prev(i), e, "level_prev({i})");
        let l = src.uupto(top as usize) as i64;
        ensure_eq!(t.level_leftmost(l as u64), v.first_after(None, l + 1), "level_leftmost({l})");
        let r = v.last_before(v.len, l + 1).and_then(|q| v.bwd(q, -1));
        ensure_eq!(t.level_rightmost(l as u64), r, "level_rightmost({l})");
    }
    Ok(())
}
