// generated by tools/gen_combos.py
bs_all!(PointN<F, 2>: zero (2 1) (3 2) (4 3) (5 4) (6 5) (7 6) (8 7) (14 13) (16 15) (18 17) (32 31) (68 67) (130 129) (259 258) pos (4 2 1) (5 3 1) (6 4 1) (7 5 1) (8 6 1) (9 7 1) (10 8 1) (16 14 1) (18 16 1) (20 18 1) (34 32 1) (70 68 1) (132 130 1) (261 259 1) (6 3 2) (7 4 2) (8 5 2) (9 6 2) (10 7 2) (11 8 2) (12 9 2) (18 15 2) (22 19 2) (36 33 2) (72 69 2) (263 260 2) (8 4 3) (9 5 3) (10 6 3) (11 7 3) (12 8 3) (13 9 3) (14 10 3) (20 16 3) (24 20 3) (38 34 3) (74 70 3) (10 5 4) (11 6 4) (12 7 4) (13 8 4) (14 9 4) (15 10 4) (16 11 4) (22 17 4) (40 35 4) (12 6 5) (13 7 5) (14 8 5) (15 9 5) (16 10 5) (17 11 5) (18 12 5) (42 36 5) (14 7 6) (15 8 6) (16 9 6) (19 12 6) (44 37 6) (16 8 7) (17 9 7) (18 10 7) (21 13 7) (46 38 7) (18 9 8) (20 11 8) (23 14 8) (48 39 8) (20 10 9) (25 15 9) (50 40 9) (22 11 10) (27 16 10) (24 12 11) (29 17 11) (26 13 12) (31 18 12) (28 14 13) (33 19 13) (30 15 14) (32 16 15) (34 17 16) (36 18 17));
bs_all!(SP<2>: zero (2 1) (3 2) (4 3) (5 4) (6 5) (7 6) (8 7) (14 13) (16 15) (18 17) (32 31) (68 67) (130 129) (259 258) pos (4 2 1) (5 3 1) (6 4 1) (7 5 1) (8 6 1) (9 7 1) (10 8 1) (16 14 1) (18 16 1) (20 18 1) (34 32 1) (70 68 1) (132 130 1) (261 259 1) (6 3 2) (7 4 2) (8 5 2) (9 6 2) (10 7 2) (11 8 2) (12 9 2) (18 15 2) (22 19 2) (36 33 2) (72 69 2) (263 260 2) (8 4 3) (9 5 3) (10 6 3) (11 7 3) (12 8 3) (13 9 3) (14 10 3) (20 16 3) (24 20 3) (38 34 3) (74 70 3) (10 5 4) (11 6 4) (12 7 4) (13 8 4) (14 9 4) (15 10 4) (16 11 4) (22 17 4) (40 35 4) (12 6 5) (13 7 5) (14 8 5) (15 9 5) (16 10 5) (17 11 5) (18 12 5) (42 36 5) (14 7 6) (15 8 6) (16 9 6) (19 12 6) (44 37 6) (16 8 7) (17 9 7) (18 10 7) (21 13 7) (46 38 7) (18 9 8) (20 11 8) (23 14 8) (48 39 8) (20 10 9) (25 15 9) (50 40 9) (22 11 10) (27 16 10) (24 12 11) (29 17 11) (26 13 12) (31 18 12) (28 14 13) (33 19 13) (30 15 14) (32 16 15) (34 17 16) (36 18 17));
bs_all!(PointN<F, 1>: zero (2 1) (3 2) (4 3) (5 4) (6 5) pos (4 2 1) (5 3 1) (6 4 1) (7 5 1) (8 6 1) (6 3 2) (7 4 2) (8 5 2) (9 6 2) (10 7 2) (8 4 3) (9 5 3) (10 6 3) (11 7 3) (12 8 3) (10 5 4) (11 6 4) (12 7 4) (13 8 4) (14 9 4));
bs_all!(PointN<F, 3>: zero (2 1) (3 2) (4 3) (5 4) (6 5) pos (4 2 1) (5 3 1) (6 4 1) (7 5 1) (8 6 1) (6 3 2) (7 4 2) (8 5 2) (9 6 2) (10 7 2) (8 4 3) (9 5 3) (10 6 3) (11 7 3) (12 8 3) (10 5 4) (11 6 4) (12 7 4) (13 8 4) (14 9 4));
bs_all!(Named3: zero (2 1) (3 2) (4 3) (5 4) (6 5) pos (4 2 1) (5 3 1) (6 4 1) (7 5 1) (8 6 1) (6 3 2) (7 4 2) (8 5 2) (9 6 2) (10 7 2) (8 4 3) (9 5 3) (10 6 3) (11 7 3) (12 8 3) (10 5 4) (11 6 4) (12 7 4) (13 8 4) (14 9 4));
bs_all!(PointN<S, 2>: zero (2 1) (3 2) (4 3) pos (4 2 1) (5 3 1) (6 4 1) (6 3 2) (7 4 2) (8 5 2) (8 4 3) (9 5 3) (10 6 3));
bs_all!(PointN<F, 4>: zero (2 1) (3 2) (4 3) pos (4 2 1) (5 3 1) (6 4 1) (6 3 2) (7 4 2) (8 5 2) (8 4 3) (9 5 3) (10 6 3));
bs_all!(PointN<F, 6>: zero (2 1) (3 2) (4 3) pos (4 2 1) (5 3 1) (6 4 1) (6 3 2) (7 4 2) (8 5 2) (8 4 3) (9 5 3) (10 6 3));
/// (degree, number of control points)
pub const SHAPES: &[(usize, usize)] = &[(0, 1), (0, 2), (0, 3), (0, 4), (0, 5), (0, 6), (0, 7), (0, 13), (0, 15), (0, 17), (0, 31), (1, 2), (1, 3), (1, 4), (1, 5), (1, 6), (1, 7), (1, 8), (1, 14), (1, 16), (1, 18), (1, 32), (2, 3), (2, 4), (2, 5), (2, 6), (2, 7), (2, 8), (2, 9), (2, 15), (2, 19), (2, 33), (3, 4), (3, 5), (3, 6), (3, 7), (3, 8), (3, 9), (3, 10), (3, 16), (3, 20), (4, 5), (4, 6), (4, 7), (4, 8), (4, 9), (4, 10), (4, 11), (4, 17), (5, 6), (5, 7), (5, 8), (5, 9), (5, 10), (5, 11), (5, 12), (6, 7), (6, 8), (7, 8), (7, 9)];
/// shapes available over every point type
pub const SMALL_SHAPES: &[(usize, usize)] = &[(0, 1), (0, 2), (0, 3), (0, 4), (0, 5), (1, 2), (1, 3), (1, 4), (1, 5), (1, 6), (2, 3), (2, 4), (2, 5), (2, 6), (2, 7), (3, 4), (3, 5), (3, 6), (3, 7), (3, 8), (4, 5), (4, 6), (4, 7), (4, 8), (4, 9)];
/// shapes available over PointN with a foreign component type and in dimensions 4 and 6
pub const TINY_SHAPES: &[(usize, usize)] = &[(0, 1), (0, 2), (0, 3), (1, 2), (1, 3), (1, 4), (2, 3), (2, 4), (2, 5), (3, 4), (3, 5), (3, 6)];
/// shapes with more knots than a byte can count, or nearly so
pub const BIG_SHAPES: &[(usize, usize)] = &[(0, 67), (0, 129), (0, 258), (1, 68), (1, 130), (1, 259), (2, 69), (2, 260), (3, 34), (3, 70), (4, 35), (5, 36), (6, 9), (6, 12), (6, 37), (7, 10), (7, 13), (7, 38), (8, 9), (8, 11), (8, 14), (8, 39), (9, 10), (9, 15), (9, 40), (10, 11), (10, 16), (11, 12), (11, 17), (12, 13), (12, 18), (13, 14), (13, 19), (14, 15), (15, 16), (16, 17), (17, 18)];
macro_rules! ctor_grid { ($m:ident) => { $m!{ (1 0 0) (2 0 0) (3 0 0) (4 0 0) (5 0 0) (6 0 0) (7 0 0) (8 0 0) (9 0 0) (10 0 0) (1 1 0) (2 1 0) (3 1 0) (4 1 0) (5 1 0) (6 1 0) (7 1 0) (8 1 0) (9 1 0) (10 1 0) (1 2 0) (2 2 0) (3 2 0) (4 2 0) (5 2 0) (6 2 0) (7 2 0) (8 2 0) (9 2 0) (10 2 0) (1 3 0) (2 3 0) (3 3 0) (4 3 0) (5 3 0) (6 3 0) (7 3 0) (8 3 0) (9 3 0) (10 3 0) (1 4 0) (2 4 0) (3 4 0) (4 4 0) (5 4 0) (6 4 0) (7 4 0) (8 4 0) (9 4 0) (10 4 0) (1 5 0) (2 5 0) (3 5 0) (4 5 0) (5 5 0) (6 5 0) (7 5 0) (8 5 0) (9 5 0) (10 5 0) (1 0 1) (2 0 1) (3 0 1) (4 0 1) (5 0 1) (6 0 1) (7 0 1) (8 0 1) (9 0 1) (10 0 1) (1 1 1) (2 1 1) (3 1 1) (4 1 1) (5 1 1) (6 1 1) (7 1 1) (8 1 1) (9 1 1) (10 1 1) (1 2 1) (2 2 1) (3 2 1) (4 2 1) (5 2 1) (6 2 1) (7 2 1) (8 2 1) (9 2 1) (10 2 1) (1 3 1) (2 3 1) (3 3 1) (4 3 1) (5 3 1) (6 3 1) (7 3 1) (8 3 1) (9 3 1) (10 3 1) (1 4 1) (2 4 1) (3 4 1) (4 4 1) (5 4 1) (6 4 1) (7 4 1) (8 4 1) (9 4 1) (10 4 1) (1 5 1) (2 5 1) (3 5 1) (4 5 1) (5 5 1) (6 5 1) (7 5 1) (8 5 1) (9 5 1) (10 5 1) (1 0 2) (2 0 2) (3 0 2) (4 0 2) (5 0 2) (6 0 2) (7 0 2) (8 0 2) (9 0 2) (10 0 2) (1 1 2) (2 1 2) (3 1 2) (4 1 2) (5 1 2) (6 1 2) (7 1 2) (8 1 2) (9 1 2) (10 1 2) (1 2 2) (2 2 2) (3 2 2) (4 2 2) (5 2 2) (6 2 2) (7 2 2) (8 2 2) (9 2 2) (10 2 2) (1 3 2) (2 3 2) (3 3 2) (4 3 2) (5 3 2) (6 3 2) (7 3 2) (8 3 2) (9 3 2) (10 3 2) (1 4 2) (2 4 2) (3 4 2) (4 4 2) (5 4 2) (6 4 2) (7 4 2) (8 4 2) (9 4 2) (10 4 2) (1 5 2) (2 5 2) (3 5 2) (4 5 2) (5 5 2) (6 5 2) (7 5 2) (8 5 2) (9 5 2) (10 5 2) (1 0 3) (2 0 3) (3 0 3) (4 0 3) (5 0 3) (6 0 3) (7 0 3) (8 0 3) (9 0 3) (10 0 3) (1 1 3) (2 1 3) (3 1 3) (4 1 3) (5 1 3) (6 1 3) (7 1 3) (8 1 3) (9 1 3) (10 1 3) (1 2 3) (2 2 3) (3 2 3) (4 2 3) (5 2 3) (6 2 3) (7 2 3) (8 2 3) (9 2 3) (10 2 3) (1 3 3) (2 3 3) (3 3 3) (4 3 3) (5 3 3) (6 3 3) (7 3 3) (8 3 3) (9 3 3) (10 3 3) (1 4 3) (2 4 3) (3 4 3) (4 4 3) (5 4 3) (6 4 3) (7 4 3) (8 4 3) (9 4 3) (10 4 3) (1 5 3) (2 5 3) (3 5 3) (4 5 3) (5 5 3) (6 5 3) (7 5 3) (8 5 3) (9 5 3) (10 5 3) } }; }
pub(crate) use ctor_grid;
