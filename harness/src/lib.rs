pub mod alloc;
pub mod drive;
pub mod engine;
pub mod gen;
#[cfg(feature = "bits")]
pub mod p_bitvec;
#[cfg(feature = "rs")]
pub mod p_rs;
#[cfg(feature = "ef")]
pub mod p_ef;
#[cfg(feature = "rmq")]
pub mod p_rmq;
#[cfg(feature = "bp")]
pub mod p_bp;
#[cfg(feature = "wavelet")]
pub mod p_wavelet;
#[cfg(feature = "misc")]
pub mod p_misc;
#[cfg(feature = "misc")]
pub mod p_pure;
#[cfg(feature = "cost")]
pub mod p_cost;
#[cfg(feature = "cost")]
pub mod steps;

use engine::{Prop, Sub};

#[global_allocator]
static ALLOC: alloc::Counting = alloc::Counting;

pub fn props() -> Vec<Prop> {
    vec![
        #[cfg(feature = "bits")]
        Prop {
            id: "C01",
            rule: "bit vector built over a drawn route, then a drawn history of mutations, checked in full after every step; non-trivial: at least 3 operations executed and a non-empty final vector",
            subs: vec![Sub::new("history", p_bitvec::history, 3_600_000, 72_000_000), Sub::new("windows", p_bitvec::windows, 180_000, 3_600_000), Sub::new("history_large", p_bitvec::history_large, 30_000, 600_000), Sub::new("history_huge", p_bitvec::history_huge, 8, 64).threads(3).only(&["base"])],
        },
        #[cfg(feature = "bits")]
        Prop {
            id: "C02",
            rule: "one drawn constructor or packing call on drawn values, compared bit by bit; non-trivial: result non-empty (constructors), at least two elements of at least one bit (packing)",
            subs: vec![Sub::new("construct", p_bitvec::construct, 3_200_000, 64_000_000), Sub::new("packing", p_bitvec::packing, 4_800_000, 96_000_000), Sub::new("construct_large", p_bitvec::construct_large, 8_000, 160_000), Sub::new("packing_large", p_bitvec::packing_large, 12_000, 240_000), Sub::new("construct_huge", p_bitvec::construct_huge, 6, 24).threads(3).only(&["base"])],
        },
        #[cfg(feature = "bits")]
        Prop {
            id: "C03",
            rule: "two vectors of equal or minimally different content built over drawn routes; non-trivial: non-empty",
            subs: vec![
                Sub::enumerate("equality_enum", p_bitvec::equality_enum, 900 * 14, 900 * 14),
                Sub::new("equality", p_bitvec::equality, 360_000, 7_200_000),
                Sub::new("equality_large", p_bitvec::equality_large, 192, 3_840),
                Sub::new("equality_huge", p_bitvec::equality_huge, 3, 16).threads(2).only(&["base"]),
            ],
        },
        #[cfg(feature = "bits")]
        Prop {
            id: "C04",
            rule: "two equally long vectors and a mask operation; non-trivial: at least two bits",
            subs: vec![Sub::new("masked", p_bitvec::masked, 4_000_000, 80_000_000), Sub::new("masked_large", p_bitvec::masked_large, 12_000, 240_000), Sub::new("masked_huge", p_bitvec::masked_huge, 6, 24).threads(3).only(&["base"])],
        },
        #[cfg(feature = "rs")]
        Prop {
            id: "C05",
            rule: "bit content of drawn segments; every position queried; non-trivial: longer than one word",
            subs: vec![
                Sub::new("rank_small", p_rs::rank_small, 600_000, 12_000_000),
                Sub::new("rank_mid", p_rs::rank_mid, 120_000, 2_400_000),
                Sub::new("rank_large", p_rs::rank_large, 3_600, 72_000),
                Sub::new("rank_huge", p_rs::rank_huge, 2, 8).threads(2).only(&["plain"]),
                Sub::new("rank_huge_mixed", p_rs::rank_huge_mixed, 4, 16).threads(2).only(&["base"]),
            ],
        },
        #[cfg(feature = "rs")]
        Prop {
            id: "C06",
            rule: "bit content of drawn segments; every rank queried, and ranks behind the last; non-trivial: longer than one word",
            subs: vec![
                Sub::new("select_block", p_rs::select_block, 400_000, 8_000_000),
                Sub::new("select_small", p_rs::select_small, 200_000, 4_000_000),
                Sub::new("select_mid", p_rs::select_mid, 40_000, 800_000),
                Sub::new("select_large", p_rs::select_large, 800, 16_000),
                Sub::new("select_huge", p_rs::select_huge, 2, 8).threads(2).only(&["plain"]),
                Sub::new("select_huge_mixed", p_rs::select_huge_mixed, 4, 16).threads(2).only(&["full"]),
            ],
        },
        #[cfg(all(feature = "rs", feature = "ef", feature = "wavelet"))]
        Prop {
            id: "C07",
            rule: "drawn call history on a double ended iterator against a slice; non-trivial: at least two items and three calls",
            subs: vec![Sub::new("iter_bits", p_rs::iter_bits, 4_800_000, 96_000_000), Sub::new("iter_ef", p_ef::iter_ef, 1_600_000, 32_000_000), Sub::new("iter_wavelet", p_wavelet::iter_wavelet, 400_000, 8_000_000), Sub::new("iter_bits_large", p_rs::iter_bits_large, 600_000, 12_000_000), Sub::new("iter_bits_huge", p_rs::iter_bits_huge, 3, 12).threads(3).only(&["base"]), Sub::new("iter_ef_large", p_ef::iter_ef_large, 500_000, 10_000_000), Sub::new("iter_wavelet_large", p_wavelet::iter_wavelet_large, 20_000, 400_000)],
        },
        #[cfg(feature = "rs")]
        Prop {
            id: "C08",
            rule: "drawn call history on a position iterator, or full walks in both directions; non-trivial: at least two items and three calls, or more than one word",
            subs: vec![
                Sub::new("pos_small", p_rs::pos_small, 1_600_000, 32_000_000),
                Sub::new("pos_mid", p_rs::pos_mid, 200_000, 4_000_000),
                Sub::new("pos_walk", p_rs::pos_walk, 12_000, 240_000), Sub::new("pos_large", p_rs::pos_large, 12_000, 240_000), Sub::new("pos_huge", p_rs::pos_huge, 2, 8).threads(2).only(&["full"]),
                Sub::new("bit_set_small", p_rs::bit_set_small, 200_000, 4_000_000),
            ],
        },
        #[cfg(feature = "ef")]
        Prop {
            id: "C09",
            rule: "sorted values of drawn clusters and gaps, every element and the neighbourhood of each queried; non-trivial: at least two elements",
            subs: vec![
                Sub::enumerate("ef_enum", p_ef::ef_enum, p_ef::EF_ENUM, p_ef::EF_ENUM),
                Sub::new("ef_small", p_ef::ef_small, 240_000, 4_800_000),
                Sub::new("ef_large", p_ef::ef_large, 1_200, 24_000), Sub::new("ef_huge", p_ef::ef_huge, 24, 480),
            ],
        },
        #[cfg(feature = "ef")]
        Prop {
            id: "C10",
            rule: "set of one-bits (sorted list, or bit content) and a length; non-trivial: at least two one-bits, or more than one word",
            subs: vec![Sub::new("sparse_list", p_ef::sparse_list, 300_000, 6_000_000), Sub::new("sparse_bits", p_ef::sparse_bits, 45_000, 900_000), Sub::new("sparse_list_large", p_ef::sparse_list_large, 20_000, 400_000), Sub::new("sparse_bits_large", p_ef::sparse_bits_large, 3_000, 60_000), Sub::new("sparse_bits_huge", p_ef::sparse_bits_huge, 4, 16).threads(2).only(&["base"])],
        },
        #[cfg(feature = "rmq")]
        Prop {
            id: "C11",
            rule: "value sequence of drawn segments (slopes, plateaus, few distinct values, dips); all ranges (small) or block borders and random ranges (large), and drawn range bounds; non-trivial: at least two values",
            subs: vec![Sub::new("rmq_small", p_rmq::rmq_small, 30_000, 600_000), Sub::new("rmq_large", p_rmq::rmq_large, 8_000, 160_000), Sub::new("rmq_huge", p_rmq::rmq_huge, 24, 480).threads(4), Sub::new("rmq_giant", p_rmq::rmq_giant, 40, 800).threads(4)],
        },
        #[cfg(feature = "bp")]
        Prop {
            id: "C12",
            rule: "parenthesis expression, balanced or not, with a drawn block size; all positions and relative excesses (small) or drawn ones; non-trivial: at least two parentheses",
            subs: vec![
                Sub::enumerate("bp_search_enum", p_bp::bp_search_enum, p_bp::BP_ENUM, p_bp::BP_ENUM),
                Sub::new("bp_search_small", p_bp::bp_search_small, 40_000, 800_000),
                Sub::new("bp_search_mid", p_bp::bp_search_mid, 20_000, 400_000),
                Sub::new("bp_search_large", p_bp::bp_search_large, 2_400, 48_000),
                Sub::new("bp_search_huge", p_bp::bp_search_huge, 4, 16).threads(4).only(&["base"]),
            ],
        },
        #[cfg(feature = "bp")]
        Prop {
            id: "C13",
            rule: "tree grown by drawn phases (path, star, walk, caterpillar) with a drawn block size; every operation on every node (or 2000 sampled ones); non-trivial: at least three nodes",
            subs: vec![
                Sub::new("bp_nav_small", p_bp::bp_nav_small, 100_000, 2_000_000),
                Sub::new("bp_nav_mid", p_bp::bp_nav_mid, 10_000, 200_000),
                Sub::new("bp_nav_large", p_bp::bp_nav_large, 300, 6_000),
                Sub::new("bp_nav_huge", p_bp::bp_nav_huge, 4, 16).threads(4).only(&["base"]),
            ],
        },
        #[cfg(feature = "bp")]
        Prop {
            id: "C14",
            rule: "arbitrary parenthesis expression with a drawn block size; every navigation operation on opening parentheses; non-trivial: at least three parentheses and not balanced",
            subs: vec![
                Sub::enumerate("bp_unbalanced_enum", p_bp::bp_unbalanced_enum, p_bp::BP_UENUM, p_bp::BP_UENUM),
                Sub::new("bp_unbalanced", p_bp::bp_unbalanced, 450_000, 9_000_000), Sub::new("bp_unbalanced_large", p_bp::bp_unbalanced_large, 3_000, 60_000),
            ],
        },
        #[cfg(feature = "bp")]
        Prop {
            id: "C15",
            rule: "enter/leave history fed to a builder; traversals of the result and conversions back; non-trivial: at least three nodes, or an unbalanced history",
            subs: vec![Sub::new("bp_build", p_bp::bp_build, 150_000, 3_000_000), Sub::new("bp_build_error", p_bp::bp_build_error, 250_000, 5_000_000), Sub::new("bp_build_large", p_bp::bp_build_large, 300, 6_000)],
        },
        #[cfg(feature = "wavelet")]
        Prop {
            id: "C16",
            rule: "sequence of k-bit symbols (drawn alphabet, runs, uniform, sorted), drawn constructor; every element read, drawn ranges and symbols ranked; non-trivial: at least two elements",
            subs: vec![
                Sub::enumerate("wm_enum", p_wavelet::wm_enum, p_wavelet::WM_ENUM, p_wavelet::WM_ENUM),
                Sub::new("wm_rank", p_wavelet::wm_rank, 240_000, 4_800_000),
                Sub::new("wm_construct", p_wavelet::wm_construct, 80_000, 1_600_000),
                Sub::new("wm_large", p_wavelet::wm_large, 12_000, 240_000),
                Sub::new("wm_rank_huge", p_wavelet::wm_rank_huge, 2, 8).threads(2).only(&["base"]),
            ],
        },
        #[cfg(feature = "wavelet")]
        Prop {
            id: "C17",
            rule: "sequence of k-bit symbols; occurrences that exist and that do not, from drawn offsets; non-trivial: at least two elements",
            subs: vec![Sub::new("wm_select", p_wavelet::wm_select, 200_000, 4_000_000), Sub::new("wm_select_large", p_wavelet::wm_select_large, 50_000, 1_000_000), Sub::new("wm_select_huge", p_wavelet::wm_select_huge, 2, 8).threads(2).only(&["base"])],
        },
        #[cfg(feature = "wavelet")]
        Prop {
            id: "C18",
            rule: "sequence of k-bit symbols; order statistics and neighbours in drawn ranges against sorting; non-trivial: at least two elements",
            subs: vec![Sub::new("wm_stats", p_wavelet::wm_stats, 240_000, 4_800_000), Sub::new("wm_stats_large", p_wavelet::wm_stats_large, 40_000, 800_000), Sub::new("wm_stats_huge", p_wavelet::wm_stats_huge, 2, 8).threads(2).only(&["base"])],
        },
        #[cfg(feature = "misc")]
        Prop {
            id: "C19",
            rule: "a structure and arguments of which at least one lies outside its domain (just behind the end, around powers of two, at the maximum of the type, reversed ranges, symbols of the wrong width); non-trivial: at least two elements",
            subs: vec![
                Sub::new("oob_bits", p_misc::oob_bits, 800_000, 16_000_000),
                Sub::new("oob_sorted", p_misc::oob_sorted, 800_000, 16_000_000),
                Sub::new("oob_tree", p_misc::oob_tree, 800_000, 16_000_000),
                Sub::new("oob_wavelet", p_misc::oob_wavelet, 800_000, 16_000_000),
            ],
        },
        #[cfg(feature = "misc")]
        Prop {
            id: "C20",
            rule: "a structure, everything it answers observed before and after a JSON and a bincode round trip; non-trivial: at least two elements, more than one word, more than two parentheses",
            subs: vec![
                Sub::new("serde_vec", p_misc::serde_vec, 40_000, 800_000),
                Sub::new("serde_sorted", p_misc::serde_sorted, 40_000, 800_000),
                Sub::new("serde_rmq", p_misc::serde_rmq, 40_000, 800_000),
                Sub::new("serde_tree", p_misc::serde_tree, 40_000, 800_000),
                Sub::new("serde_wavelet", p_misc::serde_wavelet, 40_000, 800_000),
            ],
        },
        #[cfg(feature = "misc")]
        Prop {
            id: "C21",
            rule: "a structure built in every build configuration from the same tape; everything it answers and its serialised form compared between the builds; non-trivial: at least two elements, more than one word, more than two parentheses",
            subs: vec![Sub::new("agree", p_misc::agree, 400_000, 8_000_000)],
        },
        #[cfg(feature = "misc")]
        Prop {
            id: "C22",
            rule: "a structure whose reported heap size is compared with the bytes an exact copy allocates and with the documented bound; non-trivial: at least two elements, more than one word, more than two parentheses",
            subs: vec![
                Sub::new("space_bits", p_misc::space_bits, 240_000, 4_800_000),
                Sub::new("space_sorted", p_misc::space_sorted, 240_000, 4_800_000),
                Sub::new("space_tree", p_misc::space_tree, 240_000, 4_800_000),
                Sub::new("space_wavelet", p_misc::space_wavelet, 240_000, 4_800_000),
                Sub::new("space_rmq", p_misc::space_rmq, 240_000, 4_800_000),
            ],
        },
        #[cfg(feature = "misc")]
        Prop {
            id: "C23",
            rule: "one to three structures and up to 60 queries, asked in several orders, of untouched copies, and by several threads at once; non-trivial: at least two elements, more than one word, more than two parentheses",
            subs: vec![Sub::new("pure_order", p_pure::pure_order, 500_000, 10_000_000), Sub::new("pure_threads", p_pure::pure_threads, 50_000, 1_000_000)],
        },
        #[cfg(feature = "cost")]
        Prop {
            id: "C24",
            rule: "a large structure of drawn shape, each query counted in basic blocks against the documented order of growth; non-trivial: more than 2^16 bits, 2^14 parentheses or 4096 elements",
            subs: vec![
                Sub::new("cost_rs", p_cost::cost_rs, 6000, 12_000),
                Sub::new("cost_ef", p_cost::cost_ef, 6000, 12_000),
                Sub::new("cost_rmq", p_cost::cost_rmq, 2000, 6_000),
                Sub::new("cost_bp", p_cost::cost_bp, 2000, 12_000),
                Sub::new("cost_wavelet", p_cost::cost_wavelet, 3000, 6_000),
            ],
        },
        #[cfg(feature = "mem")]
        Prop {
            id: "C25",
            rule: "the generators of the other properties, in a build in which every access outside an allocation ends the process; non-trivial as there",
            subs: vec![
                Sub::new("rank_mid", p_rs::rank_mid, 8_000, 160_000),
                Sub::new("select_block", p_rs::select_block, 40_000, 800_000),
                Sub::new("select_small", p_rs::select_small, 20_000, 400_000),
                Sub::new("select_mid", p_rs::select_mid, 4_000, 80_000),
                Sub::new("pos_mid", p_rs::pos_mid, 20_000, 400_000),
                Sub::new("pos_walk", p_rs::pos_walk, 1_200, 24_000),
                Sub::new("bit_set_small", p_rs::bit_set_small, 40_000, 800_000),
                Sub::new("bit_set_mid", p_rs::bit_set_mid, 4_000, 80_000),
                Sub::new("history", p_bitvec::history, 200_000, 4_000_000),
                Sub::new("packing", p_bitvec::packing, 200_000, 4_000_000),
                Sub::new("masked", p_bitvec::masked, 200_000, 4_000_000),
                Sub::new("ef_small", p_ef::ef_small, 20_000, 400_000),
                Sub::new("rmq_large", p_rmq::rmq_large, 200, 4_000),
                Sub::new("bp_search_mid", p_bp::bp_search_mid, 2_000, 40_000),
                Sub::new("bp_nav_mid", p_bp::bp_nav_mid, 2_000, 40_000),
                Sub::new("wm_select", p_wavelet::wm_select, 10_000, 200_000),
                Sub::new("wm_stats", p_wavelet::wm_stats, 10_000, 200_000),
                Sub::new("oob_bits", p_misc::oob_bits, 100_000, 2_000_000),
                Sub::new("oob_sorted", p_misc::oob_sorted, 50_000, 1_000_000),
                Sub::new("oob_tree", p_misc::oob_tree, 50_000, 1_000_000),
                Sub::new("oob_wavelet", p_misc::oob_wavelet, 50_000, 1_000_000),
            ],
        },
    ]
}
