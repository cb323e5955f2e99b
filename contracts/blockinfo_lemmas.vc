#raw
verus! {
pub proof fn lemma_iso_1()
    ensures n_blocks(1, 0) == 1 && n_long(1, 0) == 0 && short_total(1, 0) == 26 && n_check(1, 0) == 7 && capacity(1, 0) == 2,
        n_blocks(1, 1) == 1 && n_long(1, 1) == 0 && short_total(1, 1) == 26 && n_check(1, 1) == 10 && capacity(1, 1) == 4,
        n_blocks(1, 2) == 1 && n_long(1, 2) == 0 && short_total(1, 2) == 26 && n_check(1, 2) == 13 && capacity(1, 2) == 6,
        n_blocks(1, 3) == 1 && n_long(1, 3) == 0 && short_total(1, 3) == 26 && n_check(1, 3) == 17 && capacity(1, 3) == 8,
{ assert(n_blocks(1, 0) == 1 && n_long(1, 0) == 0 && short_total(1, 0) == 26 && n_check(1, 0) == 7 && capacity(1, 0) == 2) by (compute_only); assert(n_blocks(1, 1) == 1 && n_long(1, 1) == 0 && short_total(1, 1) == 26 && n_check(1, 1) == 10 && capacity(1, 1) == 4) by (compute_only); assert(n_blocks(1, 2) == 1 && n_long(1, 2) == 0 && short_total(1, 2) == 26 && n_check(1, 2) == 13 && capacity(1, 2) == 6) by (compute_only); assert(n_blocks(1, 3) == 1 && n_long(1, 3) == 0 && short_total(1, 3) == 26 && n_check(1, 3) == 17 && capacity(1, 3) == 8) by (compute_only); }
pub proof fn lemma_iso_2()
    ensures n_blocks(2, 0) == 1 && n_long(2, 0) == 0 && short_total(2, 0) == 44 && n_check(2, 0) == 10 && capacity(2, 0) == 4,
        n_blocks(2, 1) == 1 && n_long(2, 1) == 0 && short_total(2, 1) == 44 && n_check(2, 1) == 16 && capacity(2, 1) == 8,
        n_blocks(2, 2) == 1 && n_long(2, 2) == 0 && short_total(2, 2) == 44 && n_check(2, 2) == 22 && capacity(2, 2) == 11,
        n_blocks(2, 3) == 1 && n_long(2, 3) == 0 && short_total(2, 3) == 44 && n_check(2, 3) == 28 && capacity(2, 3) == 14,
{ assert(n_blocks(2, 0) == 1 && n_long(2, 0) == 0 && short_total(2, 0) == 44 && n_check(2, 0) == 10 && capacity(2, 0) == 4) by (compute_only); assert(n_blocks(2, 1) == 1 && n_long(2, 1) == 0 && short_total(2, 1) == 44 && n_check(2, 1) == 16 && capacity(2, 1) == 8) by (compute_only); assert(n_blocks(2, 2) == 1 && n_long(2, 2) == 0 && short_total(2, 2) == 44 && n_check(2, 2) == 22 && capacity(2, 2) == 11) by (compute_only); assert(n_blocks(2, 3) == 1 && n_long(2, 3) == 0 && short_total(2, 3) == 44 && n_check(2, 3) == 28 && capacity(2, 3) == 14) by (compute_only); }
pub proof fn lemma_iso_3()
    ensures n_blocks(3, 0) == 1 && n_long(3, 0) == 0 && short_total(3, 0) == 70 && n_check(3, 0) == 15 && capacity(3, 0) == 7,
        n_blocks(3, 1) == 1 && n_long(3, 1) == 0 && short_total(3, 1) == 70 && n_check(3, 1) == 26 && capacity(3, 1) == 13,
        n_blocks(3, 2) == 2 && n_long(3, 2) == 0 && short_total(3, 2) == 35 && n_check(3, 2) == 18 && capacity(3, 2) == 9,
        n_blocks(3, 3) == 2 && n_long(3, 3) == 0 && short_total(3, 3) == 35 && n_check(3, 3) == 22 && capacity(3, 3) == 11,
{ assert(n_blocks(3, 0) == 1 && n_long(3, 0) == 0 && short_total(3, 0) == 70 && n_check(3, 0) == 15 && capacity(3, 0) == 7) by (compute_only); assert(n_blocks(3, 1) == 1 && n_long(3, 1) == 0 && short_total(3, 1) == 70 && n_check(3, 1) == 26 && capacity(3, 1) == 13) by (compute_only); assert(n_blocks(3, 2) == 2 && n_long(3, 2) == 0 && short_total(3, 2) == 35 && n_check(3, 2) == 18 && capacity(3, 2) == 9) by (compute_only); assert(n_blocks(3, 3) == 2 && n_long(3, 3) == 0 && short_total(3, 3) == 35 && n_check(3, 3) == 22 && capacity(3, 3) == 11) by (compute_only); }
pub proof fn lemma_iso_4()
    ensures n_blocks(4, 0) == 1 && n_long(4, 0) == 0 && short_total(4, 0) == 100 && n_check(4, 0) == 20 && capacity(4, 0) == 10,
        n_blocks(4, 1) == 2 && n_long(4, 1) == 0 && short_total(4, 1) == 50 && n_check(4, 1) == 18 && capacity(4, 1) == 9,
        n_blocks(4, 2) == 2 && n_long(4, 2) == 0 && short_total(4, 2) == 50 && n_check(4, 2) == 26 && capacity(4, 2) == 13,
        n_blocks(4, 3) == 4 && n_long(4, 3) == 0 && short_total(4, 3) == 25 && n_check(4, 3) == 16 && capacity(4, 3) == 8,
{ assert(n_blocks(4, 0) == 1 && n_long(4, 0) == 0 && short_total(4, 0) == 100 && n_check(4, 0) == 20 && capacity(4, 0) == 10) by (compute_only); assert(n_blocks(4, 1) == 2 && n_long(4, 1) == 0 && short_total(4, 1) == 50 && n_check(4, 1) == 18 && capacity(4, 1) == 9) by (compute_only); assert(n_blocks(4, 2) == 2 && n_long(4, 2) == 0 && short_total(4, 2) == 50 && n_check(4, 2) == 26 && capacity(4, 2) == 13) by (compute_only); assert(n_blocks(4, 3) == 4 && n_long(4, 3) == 0 && short_total(4, 3) == 25 && n_check(4, 3) == 16 && capacity(4, 3) == 8) by (compute_only); }
pub proof fn lemma_iso_5()
    ensures n_blocks(5, 0) == 1 && n_long(5, 0) == 0 && short_total(5, 0) == 134 && n_check(5, 0) == 26 && capacity(5, 0) == 13,
        n_blocks(5, 1) == 2 && n_long(5, 1) == 0 && short_total(5, 1) == 67 && n_check(5, 1) == 24 && capacity(5, 1) == 12,
        n_blocks(5, 2) == 4 && n_long(5, 2) == 2 && short_total(5, 2) == 33 && n_check(5, 2) == 18 && capacity(5, 2) == 9,
        n_blocks(5, 3) == 4 && n_long(5, 3) == 2 && short_total(5, 3) == 33 && n_check(5, 3) == 22 && capacity(5, 3) == 11,
{ assert(n_blocks(5, 0) == 1 && n_long(5, 0) == 0 && short_total(5, 0) == 134 && n_check(5, 0) == 26 && capacity(5, 0) == 13) by (compute_only); assert(n_blocks(5, 1) == 2 && n_long(5, 1) == 0 && short_total(5, 1) == 67 && n_check(5, 1) == 24 && capacity(5, 1) == 12) by (compute_only); assert(n_blocks(5, 2) == 4 && n_long(5, 2) == 2 && short_total(5, 2) == 33 && n_check(5, 2) == 18 && capacity(5, 2) == 9) by (compute_only); assert(n_blocks(5, 3) == 4 && n_long(5, 3) == 2 && short_total(5, 3) == 33 && n_check(5, 3) == 22 && capacity(5, 3) == 11) by (compute_only); }
pub proof fn lemma_iso_6()
    ensures n_blocks(6, 0) == 2 && n_long(6, 0) == 0 && short_total(6, 0) == 86 && n_check(6, 0) == 18 && capacity(6, 0) == 9,
        n_blocks(6, 1) == 4 && n_long(6, 1) == 0 && short_total(6, 1) == 43 && n_check(6, 1) == 16 && capacity(6, 1) == 8,
        n_blocks(6, 2) == 4 && n_long(6, 2) == 0 && short_total(6, 2) == 43 && n_check(6, 2) == 24 && capacity(6, 2) == 12,
        n_blocks(6, 3) == 4 && n_long(6, 3) == 0 && short_total(6, 3) == 43 && n_check(6, 3) == 28 && capacity(6, 3) == 14,
{ assert(n_blocks(6, 0) == 2 && n_long(6, 0) == 0 && short_total(6, 0) == 86 && n_check(6, 0) == 18 && capacity(6, 0) == 9) by (compute_only); assert(n_blocks(6, 1) == 4 && n_long(6, 1) == 0 && short_total(6, 1) == 43 && n_check(6, 1) == 16 && capacity(6, 1) == 8) by (compute_only); assert(n_blocks(6, 2) == 4 && n_long(6, 2) == 0 && short_total(6, 2) == 43 && n_check(6, 2) == 24 && capacity(6, 2) == 12) by (compute_only); assert(n_blocks(6, 3) == 4 && n_long(6, 3) == 0 && short_total(6, 3) == 43 && n_check(6, 3) == 28 && capacity(6, 3) == 14) by (compute_only); }
pub proof fn lemma_iso_7()
    ensures n_blocks(7, 0) == 2 && n_long(7, 0) == 0 && short_total(7, 0) == 98 && n_check(7, 0) == 20 && capacity(7, 0) == 10,
        n_blocks(7, 1) == 4 && n_long(7, 1) == 0 && short_total(7, 1) == 49 && n_check(7, 1) == 18 && capacity(7, 1) == 9,
        n_blocks(7, 2) == 6 && n_long(7, 2) == 4 && short_total(7, 2) == 32 && n_check(7, 2) == 18 && capacity(7, 2) == 9,
        n_blocks(7, 3) == 5 && n_long(7, 3) == 1 && short_total(7, 3) == 39 && n_check(7, 3) == 26 && capacity(7, 3) == 13,
{ assert(n_blocks(7, 0) == 2 && n_long(7, 0) == 0 && short_total(7, 0) == 98 && n_check(7, 0) == 20 && capacity(7, 0) == 10) by (compute_only); assert(n_blocks(7, 1) == 4 && n_long(7, 1) == 0 && short_total(7, 1) == 49 && n_check(7, 1) == 18 && capacity(7, 1) == 9) by (compute_only); assert(n_blocks(7, 2) == 6 && n_long(7, 2) == 4 && short_total(7, 2) == 32 && n_check(7, 2) == 18 && capacity(7, 2) == 9) by (compute_only); assert(n_blocks(7, 3) == 5 && n_long(7, 3) == 1 && short_total(7, 3) == 39 && n_check(7, 3) == 26 && capacity(7, 3) == 13) by (compute_only); }
pub proof fn lemma_iso_8()
    ensures n_blocks(8, 0) == 2 && n_long(8, 0) == 0 && short_total(8, 0) == 121 && n_check(8, 0) == 24 && capacity(8, 0) == 12,
        n_blocks(8, 1) == 4 && n_long(8, 1) == 2 && short_total(8, 1) == 60 && n_check(8, 1) == 22 && capacity(8, 1) == 11,
        n_blocks(8, 2) == 6 && n_long(8, 2) == 2 && short_total(8, 2) == 40 && n_check(8, 2) == 22 && capacity(8, 2) == 11,
        n_blocks(8, 3) == 6 && n_long(8, 3) == 2 && short_total(8, 3) == 40 && n_check(8, 3) == 26 && capacity(8, 3) == 13,
{ assert(n_blocks(8, 0) == 2 && n_long(8, 0) == 0 && short_total(8, 0) == 121 && n_check(8, 0) == 24 && capacity(8, 0) == 12) by (compute_only); assert(n_blocks(8, 1) == 4 && n_long(8, 1) == 2 && short_total(8, 1) == 60 && n_check(8, 1) == 22 && capacity(8, 1) == 11) by (compute_only); assert(n_blocks(8, 2) == 6 && n_long(8, 2) == 2 && short_total(8, 2) == 40 && n_check(8, 2) == 22 && capacity(8, 2) == 11) by (compute_only); assert(n_blocks(8, 3) == 6 && n_long(8, 3) == 2 && short_total(8, 3) == 40 && n_check(8, 3) == 26 && capacity(8, 3) == 13) by (compute_only); }
pub proof fn lemma_iso_9()
    ensures n_blocks(9, 0) == 2 && n_long(9, 0) == 0 && short_total(9, 0) == 146 && n_check(9, 0) == 30 && capacity(9, 0) == 15,
        n_blocks(9, 1) == 5 && n_long(9, 1) == 2 && short_total(9, 1) == 58 && n_check(9, 1) == 22 && capacity(9, 1) == 11,
        n_blocks(9, 2) == 8 && n_long(9, 2) == 4 && short_total(9, 2) == 36 && n_check(9, 2) == 20 && capacity(9, 2) == 10,
        n_blocks(9, 3) == 8 && n_long(9, 3) == 4 && short_total(9, 3) == 36 && n_check(9, 3) == 24 && capacity(9, 3) == 12,
{ assert(n_blocks(9, 0) == 2 && n_long(9, 0) == 0 && short_total(9, 0) == 146 && n_check(9, 0) == 30 && capacity(9, 0) == 15) by (compute_only); assert(n_blocks(9, 1) == 5 && n_long(9, 1) == 2 && short_total(9, 1) == 58 && n_check(9, 1) == 22 && capacity(9, 1) == 11) by (compute_only); assert(n_blocks(9, 2) == 8 && n_long(9, 2) == 4 && short_total(9, 2) == 36 && n_check(9, 2) == 20 && capacity(9, 2) == 10) by (compute_only); assert(n_blocks(9, 3) == 8 && n_long(9, 3) == 4 && short_total(9, 3) == 36 && n_check(9, 3) == 24 && capacity(9, 3) == 12) by (compute_only); }
pub proof fn lemma_iso_10()
    ensures n_blocks(10, 0) == 4 && n_long(10, 0) == 2 && short_total(10, 0) == 86 && n_check(10, 0) == 18 && capacity(10, 0) == 9,
        n_blocks(10, 1) == 5 && n_long(10, 1) == 1 && short_total(10, 1) == 69 && n_check(10, 1) == 26 && capacity(10, 1) == 13,
        n_blocks(10, 2) == 8 && n_long(10, 2) == 2 && short_total(10, 2) == 43 && n_check(10, 2) == 24 && capacity(10, 2) == 12,
        n_blocks(10, 3) == 8 && n_long(10, 3) == 2 && short_total(10, 3) == 43 && n_check(10, 3) == 28 && capacity(10, 3) == 14,
{ assert(n_blocks(10, 0) == 4 && n_long(10, 0) == 2 && short_total(10, 0) == 86 && n_check(10, 0) == 18 && capacity(10, 0) == 9) by (compute_only); assert(n_blocks(10, 1) == 5 && n_long(10, 1) == 1 && short_total(10, 1) == 69 && n_check(10, 1) == 26 && capacity(10, 1) == 13) by (compute_only); assert(n_blocks(10, 2) == 8 && n_long(10, 2) == 2 && short_total(10, 2) == 43 && n_check(10, 2) == 24 && capacity(10, 2) == 12) by (compute_only); assert(n_blocks(10, 3) == 8 && n_long(10, 3) == 2 && short_total(10, 3) == 43 && n_check(10, 3) == 28 && capacity(10, 3) == 14) by (compute_only); }
pub proof fn lemma_iso_11()
    ensures n_blocks(11, 0) == 4 && n_long(11, 0) == 0 && short_total(11, 0) == 101 && n_check(11, 0) == 20 && capacity(11, 0) == 10,
        n_blocks(11, 1) == 5 && n_long(11, 1) == 4 && short_total(11, 1) == 80 && n_check(11, 1) == 30 && capacity(11, 1) == 15,
        n_blocks(11, 2) == 8 && n_long(11, 2) == 4 && short_total(11, 2) == 50 && n_check(11, 2) == 28 && capacity(11, 2) == 14,
        n_blocks(11, 3) == 11 && n_long(11, 3) == 8 && short_total(11, 3) == 36 && n_check(11, 3) == 24 && capacity(11, 3) == 12,
{ assert(n_blocks(11, 0) == 4 && n_long(11, 0) == 0 && short_total(11, 0) == 101 && n_check(11, 0) == 20 && capacity(11, 0) == 10) by (compute_only); assert(n_blocks(11, 1) == 5 && n_long(11, 1) == 4 && short_total(11, 1) == 80 && n_check(11, 1) == 30 && capacity(11, 1) == 15) by (compute_only); assert(n_blocks(11, 2) == 8 && n_long(11, 2) == 4 && short_total(11, 2) == 50 && n_check(11, 2) == 28 && capacity(11, 2) == 14) by (compute_only); assert(n_blocks(11, 3) == 11 && n_long(11, 3) == 8 && short_total(11, 3) == 36 && n_check(11, 3) == 24 && capacity(11, 3) == 12) by (compute_only); }
pub proof fn lemma_iso_12()
    ensures n_blocks(12, 0) == 4 && n_long(12, 0) == 2 && short_total(12, 0) == 116 && n_check(12, 0) == 24 && capacity(12, 0) == 12,
        n_blocks(12, 1) == 8 && n_long(12, 1) == 2 && short_total(12, 1) == 58 && n_check(12, 1) == 22 && capacity(12, 1) == 11,
        n_blocks(12, 2) == 10 && n_long(12, 2) == 6 && short_total(12, 2) == 46 && n_check(12, 2) == 26 && capacity(12, 2) == 13,
        n_blocks(12, 3) == 11 && n_long(12, 3) == 4 && short_total(12, 3) == 42 && n_check(12, 3) == 28 && capacity(12, 3) == 14,
{ assert(n_blocks(12, 0) == 4 && n_long(12, 0) == 2 && short_total(12, 0) == 116 && n_check(12, 0) == 24 && capacity(12, 0) == 12) by (compute_only); assert(n_blocks(12, 1) == 8 && n_long(12, 1) == 2 && short_total(12, 1) == 58 && n_check(12, 1) == 22 && capacity(12, 1) == 11) by (compute_only); assert(n_blocks(12, 2) == 10 && n_long(12, 2) == 6 && short_total(12, 2) == 46 && n_check(12, 2) == 26 && capacity(12, 2) == 13) by (compute_only); assert(n_blocks(12, 3) == 11 && n_long(12, 3) == 4 && short_total(12, 3) == 42 && n_check(12, 3) == 28 && capacity(12, 3) == 14) by (compute_only); }
pub proof fn lemma_iso_13()
    ensures n_blocks(13, 0) == 4 && n_long(13, 0) == 0 && short_total(13, 0) == 133 && n_check(13, 0) == 26 && capacity(13, 0) == 13,
        n_blocks(13, 1) == 9 && n_long(13, 1) == 1 && short_total(13, 1) == 59 && n_check(13, 1) == 22 && capacity(13, 1) == 11,
        n_blocks(13, 2) == 12 && n_long(13, 2) == 4 && short_total(13, 2) == 44 && n_check(13, 2) == 24 && capacity(13, 2) == 12,
        n_blocks(13, 3) == 16 && n_long(13, 3) == 4 && short_total(13, 3) == 33 && n_check(13, 3) == 22 && capacity(13, 3) == 11,
{ assert(n_blocks(13, 0) == 4 && n_long(13, 0) == 0 && short_total(13, 0) == 133 && n_check(13, 0) == 26 && capacity(13, 0) == 13) by (compute_only); assert(n_blocks(13, 1) == 9 && n_long(13, 1) == 1 && short_total(13, 1) == 59 && n_check(13, 1) == 22 && capacity(13, 1) == 11) by (compute_only); assert(n_blocks(13, 2) == 12 && n_long(13, 2) == 4 && short_total(13, 2) == 44 && n_check(13, 2) == 24 && capacity(13, 2) == 12) by (compute_only); assert(n_blocks(13, 3) == 16 && n_long(13, 3) == 4 && short_total(13, 3) == 33 && n_check(13, 3) == 22 && capacity(13, 3) == 11) by (compute_only); }
pub proof fn lemma_iso_14()
    ensures n_blocks(14, 0) == 4 && n_long(14, 0) == 1 && short_total(14, 0) == 145 && n_check(14, 0) == 30 && capacity(14, 0) == 15,
        n_blocks(14, 1) == 9 && n_long(14, 1) == 5 && short_total(14, 1) == 64 && n_check(14, 1) == 24 && capacity(14, 1) == 12,
        n_blocks(14, 2) == 16 && n_long(14, 2) == 5 && short_total(14, 2) == 36 && n_check(14, 2) == 20 && capacity(14, 2) == 10,
        n_blocks(14, 3) == 16 && n_long(14, 3) == 5 && short_total(14, 3) == 36 && n_check(14, 3) == 24 && capacity(14, 3) == 12,
{ assert(n_blocks(14, 0) == 4 && n_long(14, 0) == 1 && short_total(14, 0) == 145 && n_check(14, 0) == 30 && capacity(14, 0) == 15) by (compute_only); assert(n_blocks(14, 1) == 9 && n_long(14, 1) == 5 && short_total(14, 1) == 64 && n_check(14, 1) == 24 && capacity(14, 1) == 12) by (compute_only); assert(n_blocks(14, 2) == 16 && n_long(14, 2) == 5 && short_total(14, 2) == 36 && n_check(14, 2) == 20 && capacity(14, 2) == 10) by (compute_only); assert(n_blocks(14, 3) == 16 && n_long(14, 3) == 5 && short_total(14, 3) == 36 && n_check(14, 3) == 24 && capacity(14, 3) == 12) by (compute_only); }
pub proof fn lemma_iso_15()
    ensures n_blocks(15, 0) == 6 && n_long(15, 0) == 1 && short_total(15, 0) == 109 && n_check(15, 0) == 22 && capacity(15, 0) == 11,
        n_blocks(15, 1) == 10 && n_long(15, 1) == 5 && short_total(15, 1) == 65 && n_check(15, 1) == 24 && capacity(15, 1) == 12,
        n_blocks(15, 2) == 12 && n_long(15, 2) == 7 && short_total(15, 2) == 54 && n_check(15, 2) == 30 && capacity(15, 2) == 15,
        n_blocks(15, 3) == 18 && n_long(15, 3) == 7 && short_total(15, 3) == 36 && n_check(15, 3) == 24 && capacity(15, 3) == 12,
{ assert(n_blocks(15, 0) == 6 && n_long(15, 0) == 1 && short_total(15, 0) == 109 && n_check(15, 0) == 22 && capacity(15, 0) == 11) by (compute_only); assert(n_blocks(15, 1) == 10 && n_long(15, 1) == 5 && short_total(15, 1) == 65 && n_check(15, 1) == 24 && capacity(15, 1) == 12) by (compute_only); assert(n_blocks(15, 2) == 12 && n_long(15, 2) == 7 && short_total(15, 2) == 54 && n_check(15, 2) == 30 && capacity(15, 2) == 15) by (compute_only); assert(n_blocks(15, 3) == 18 && n_long(15, 3) == 7 && short_total(15, 3) == 36 && n_check(15, 3) == 24 && capacity(15, 3) == 12) by (compute_only); }
pub proof fn lemma_iso_16()
    ensures n_blocks(16, 0) == 6 && n_long(16, 0) == 1 && short_total(16, 0) == 122 && n_check(16, 0) == 24 && capacity(16, 0) == 12,
        n_blocks(16, 1) == 10 && n_long(16, 1) == 3 && short_total(16, 1) == 73 && n_check(16, 1) == 28 && capacity(16, 1) == 14,
        n_blocks(16, 2) == 17 && n_long(16, 2) == 2 && short_total(16, 2) == 43 && n_check(16, 2) == 24 && capacity(16, 2) == 12,
        n_blocks(16, 3) == 16 && n_long(16, 3) == 13 && short_total(16, 3) == 45 && n_check(16, 3) == 30 && capacity(16, 3) == 15,
{ assert(n_blocks(16, 0) == 6 && n_long(16, 0) == 1 && short_total(16, 0) == 122 && n_check(16, 0) == 24 && capacity(16, 0) == 12) by (compute_only); assert(n_blocks(16, 1) == 10 && n_long(16, 1) == 3 && short_total(16, 1) == 73 && n_check(16, 1) == 28 && capacity(16, 1) == 14) by (compute_only); assert(n_blocks(16, 2) == 17 && n_long(16, 2) == 2 && short_total(16, 2) == 43 && n_check(16, 2) == 24 && capacity(16, 2) == 12) by (compute_only); assert(n_blocks(16, 3) == 16 && n_long(16, 3) == 13 && short_total(16, 3) == 45 && n_check(16, 3) == 30 && capacity(16, 3) == 15) by (compute_only); }
pub proof fn lemma_iso_17()
    ensures n_blocks(17, 0) == 6 && n_long(17, 0) == 5 && short_total(17, 0) == 135 && n_check(17, 0) == 28 && capacity(17, 0) == 14,
        n_blocks(17, 1) == 11 && n_long(17, 1) == 1 && short_total(17, 1) == 74 && n_check(17, 1) == 28 && capacity(17, 1) == 14,
        n_blocks(17, 2) == 16 && n_long(17, 2) == 15 && short_total(17, 2) == 50 && n_check(17, 2) == 28 && capacity(17, 2) == 14,
        n_blocks(17, 3) == 19 && n_long(17, 3) == 17 && short_total(17, 3) == 42 && n_check(17, 3) == 28 && capacity(17, 3) == 14,
{ assert(n_blocks(17, 0) == 6 && n_long(17, 0) == 5 && short_total(17, 0) == 135 && n_check(17, 0) == 28 && capacity(17, 0) == 14) by (compute_only); assert(n_blocks(17, 1) == 11 && n_long(17, 1) == 1 && short_total(17, 1) == 74 && n_check(17, 1) == 28 && capacity(17, 1) == 14) by (compute_only); assert(n_blocks(17, 2) == 16 && n_long(17, 2) == 15 && short_total(17, 2) == 50 && n_check(17, 2) == 28 && capacity(17, 2) == 14) by (compute_only); assert(n_blocks(17, 3) == 19 && n_long(17, 3) == 17 && short_total(17, 3) == 42 && n_check(17, 3) == 28 && capacity(17, 3) == 14) by (compute_only); }
pub proof fn lemma_iso_18()
    ensures n_blocks(18, 0) == 6 && n_long(18, 0) == 1 && short_total(18, 0) == 150 && n_check(18, 0) == 30 && capacity(18, 0) == 15,
        n_blocks(18, 1) == 13 && n_long(18, 1) == 4 && short_total(18, 1) == 69 && n_check(18, 1) == 26 && capacity(18, 1) == 13,
        n_blocks(18, 2) == 18 && n_long(18, 2) == 1 && short_total(18, 2) == 50 && n_check(18, 2) == 28 && capacity(18, 2) == 14,
        n_blocks(18, 3) == 21 && n_long(18, 3) == 19 && short_total(18, 3) == 42 && n_check(18, 3) == 28 && capacity(18, 3) == 14,
{ assert(n_blocks(18, 0) == 6 && n_long(18, 0) == 1 && short_total(18, 0) == 150 && n_check(18, 0) == 30 && capacity(18, 0) == 15) by (compute_only); assert(n_blocks(18, 1) == 13 && n_long(18, 1) == 4 && short_total(18, 1) == 69 && n_check(18, 1) == 26 && capacity(18, 1) == 13) by (compute_only); assert(n_blocks(18, 2) == 18 && n_long(18, 2) == 1 && short_total(18, 2) == 50 && n_check(18, 2) == 28 && capacity(18, 2) == 14) by (compute_only); assert(n_blocks(18, 3) == 21 && n_long(18, 3) == 19 && short_total(18, 3) == 42 && n_check(18, 3) == 28 && capacity(18, 3) == 14) by (compute_only); }
pub proof fn lemma_iso_19()
    ensures n_blocks(19, 0) == 7 && n_long(19, 0) == 4 && short_total(19, 0) == 141 && n_check(19, 0) == 28 && capacity(19, 0) == 14,
        n_blocks(19, 1) == 14 && n_long(19, 1) == 11 && short_total(19, 1) == 70 && n_check(19, 1) == 26 && capacity(19, 1) == 13,
        n_blocks(19, 2) == 21 && n_long(19, 2) == 4 && short_total(19, 2) == 47 && n_check(19, 2) == 26 && capacity(19, 2) == 13,
        n_blocks(19, 3) == 25 && n_long(19, 3) == 16 && short_total(19, 3) == 39 && n_check(19, 3) == 26 && capacity(19, 3) == 13,
{ assert(n_blocks(19, 0) == 7 && n_long(19, 0) == 4 && short_total(19, 0) == 141 && n_check(19, 0) == 28 && capacity(19, 0) == 14) by (compute_only); assert(n_blocks(19, 1) == 14 && n_long(19, 1) == 11 && short_total(19, 1) == 70 && n_check(19, 1) == 26 && capacity(19, 1) == 13) by (compute_only); assert(n_blocks(19, 2) == 21 && n_long(19, 2) == 4 && short_total(19, 2) == 47 && n_check(19, 2) == 26 && capacity(19, 2) == 13) by (compute_only); assert(n_blocks(19, 3) == 25 && n_long(19, 3) == 16 && short_total(19, 3) == 39 && n_check(19, 3) == 26 && capacity(19, 3) == 13) by (compute_only); }
pub proof fn lemma_iso_20()
    ensures n_blocks(20, 0) == 8 && n_long(20, 0) == 5 && short_total(20, 0) == 135 && n_check(20, 0) == 28 && capacity(20, 0) == 14,
        n_blocks(20, 1) == 16 && n_long(20, 1) == 13 && short_total(20, 1) == 67 && n_check(20, 1) == 26 && capacity(20, 1) == 13,
        n_blocks(20, 2) == 20 && n_long(20, 2) == 5 && short_total(20, 2) == 54 && n_check(20, 2) == 30 && capacity(20, 2) == 15,
        n_blocks(20, 3) == 25 && n_long(20, 3) == 10 && short_total(20, 3) == 43 && n_check(20, 3) == 28 && capacity(20, 3) == 14,
{ assert(n_blocks(20, 0) == 8 && n_long(20, 0) == 5 && short_total(20, 0) == 135 && n_check(20, 0) == 28 && capacity(20, 0) == 14) by (compute_only); assert(n_blocks(20, 1) == 16 && n_long(20, 1) == 13 && short_total(20, 1) == 67 && n_check(20, 1) == 26 && capacity(20, 1) == 13) by (compute_only); assert(n_blocks(20, 2) == 20 && n_long(20, 2) == 5 && short_total(20, 2) == 54 && n_check(20, 2) == 30 && capacity(20, 2) == 15) by (compute_only); assert(n_blocks(20, 3) == 25 && n_long(20, 3) == 10 && short_total(20, 3) == 43 && n_check(20, 3) == 28 && capacity(20, 3) == 14) by (compute_only); }
pub proof fn lemma_iso_21()
    ensures n_blocks(21, 0) == 8 && n_long(21, 0) == 4 && short_total(21, 0) == 144 && n_check(21, 0) == 28 && capacity(21, 0) == 14,
        n_blocks(21, 1) == 17 && n_long(21, 1) == 0 && short_total(21, 1) == 68 && n_check(21, 1) == 26 && capacity(21, 1) == 13,
        n_blocks(21, 2) == 23 && n_long(21, 2) == 6 && short_total(21, 2) == 50 && n_check(21, 2) == 28 && capacity(21, 2) == 14,
        n_blocks(21, 3) == 25 && n_long(21, 3) == 6 && short_total(21, 3) == 46 && n_check(21, 3) == 30 && capacity(21, 3) == 15,
{ assert(n_blocks(21, 0) == 8 && n_long(21, 0) == 4 && short_total(21, 0) == 144 && n_check(21, 0) == 28 && capacity(21, 0) == 14) by (compute_only); assert(n_blocks(21, 1) == 17 && n_long(21, 1) == 0 && short_total(21, 1) == 68 && n_check(21, 1) == 26 && capacity(21, 1) == 13) by (compute_only); assert(n_blocks(21, 2) == 23 && n_long(21, 2) == 6 && short_total(21, 2) == 50 && n_check(21, 2) == 28 && capacity(21, 2) == 14) by (compute_only); assert(n_blocks(21, 3) == 25 && n_long(21, 3) == 6 && short_total(21, 3) == 46 && n_check(21, 3) == 30 && capacity(21, 3) == 15) by (compute_only); }
pub proof fn lemma_iso_22()
    ensures n_blocks(22, 0) == 9 && n_long(22, 0) == 7 && short_total(22, 0) == 139 && n_check(22, 0) == 28 && capacity(22, 0) == 14,
        n_blocks(22, 1) == 17 && n_long(22, 1) == 0 && short_total(22, 1) == 74 && n_check(22, 1) == 28 && capacity(22, 1) == 14,
        n_blocks(22, 2) == 23 && n_long(22, 2) == 16 && short_total(22, 2) == 54 && n_check(22, 2) == 30 && capacity(22, 2) == 15,
        n_blocks(22, 3) == 34 && n_long(22, 3) == 0 && short_total(22, 3) == 37 && n_check(22, 3) == 24 && capacity(22, 3) == 12,
{ assert(n_blocks(22, 0) == 9 && n_long(22, 0) == 7 && short_total(22, 0) == 139 && n_check(22, 0) == 28 && capacity(22, 0) == 14) by (compute_only); assert(n_blocks(22, 1) == 17 && n_long(22, 1) == 0 && short_total(22, 1) == 74 && n_check(22, 1) == 28 && capacity(22, 1) == 14) by (compute_only); assert(n_blocks(22, 2) == 23 && n_long(22, 2) == 16 && short_total(22, 2) == 54 && n_check(22, 2) == 30 && capacity(22, 2) == 15) by (compute_only); assert(n_blocks(22, 3) == 34 && n_long(22, 3) == 0 && short_total(22, 3) == 37 && n_check(22, 3) == 24 && capacity(22, 3) == 12) by (compute_only); }
pub proof fn lemma_iso_23()
    ensures n_blocks(23, 0) == 9 && n_long(23, 0) == 5 && short_total(23, 0) == 151 && n_check(23, 0) == 30 && capacity(23, 0) == 15,
        n_blocks(23, 1) == 18 && n_long(23, 1) == 14 && short_total(23, 1) == 75 && n_check(23, 1) == 28 && capacity(23, 1) == 14,
        n_blocks(23, 2) == 25 && n_long(23, 2) == 14 && short_total(23, 2) == 54 && n_check(23, 2) == 30 && capacity(23, 2) == 15,
        n_blocks(23, 3) == 30 && n_long(23, 3) == 14 && short_total(23, 3) == 45 && n_check(23, 3) == 30 && capacity(23, 3) == 15,
{ assert(n_blocks(23, 0) == 9 && n_long(23, 0) == 5 && short_total(23, 0) == 151 && n_check(23, 0) == 30 && capacity(23, 0) == 15) by (compute_only); assert(n_blocks(23, 1) == 18 && n_long(23, 1) == 14 && short_total(23, 1) == 75 && n_check(23, 1) == 28 && capacity(23, 1) == 14) by (compute_only); assert(n_blocks(23, 2) == 25 && n_long(23, 2) == 14 && short_total(23, 2) == 54 && n_check(23, 2) == 30 && capacity(23, 2) == 15) by (compute_only); assert(n_blocks(23, 3) == 30 && n_long(23, 3) == 14 && short_total(23, 3) == 45 && n_check(23, 3) == 30 && capacity(23, 3) == 15) by (compute_only); }
pub proof fn lemma_iso_24()
    ensures n_blocks(24, 0) == 10 && n_long(24, 0) == 4 && short_total(24, 0) == 147 && n_check(24, 0) == 30 && capacity(24, 0) == 15,
        n_blocks(24, 1) == 20 && n_long(24, 1) == 14 && short_total(24, 1) == 73 && n_check(24, 1) == 28 && capacity(24, 1) == 14,
        n_blocks(24, 2) == 27 && n_long(24, 2) == 16 && short_total(24, 2) == 54 && n_check(24, 2) == 30 && capacity(24, 2) == 15,
        n_blocks(24, 3) == 32 && n_long(24, 3) == 2 && short_total(24, 3) == 46 && n_check(24, 3) == 30 && capacity(24, 3) == 15,
{ assert(n_blocks(24, 0) == 10 && n_long(24, 0) == 4 && short_total(24, 0) == 147 && n_check(24, 0) == 30 && capacity(24, 0) == 15) by (compute_only); assert(n_blocks(24, 1) == 20 && n_long(24, 1) == 14 && short_total(24, 1) == 73 && n_check(24, 1) == 28 && capacity(24, 1) == 14) by (compute_only); assert(n_blocks(24, 2) == 27 && n_long(24, 2) == 16 && short_total(24, 2) == 54 && n_check(24, 2) == 30 && capacity(24, 2) == 15) by (compute_only); assert(n_blocks(24, 3) == 32 && n_long(24, 3) == 2 && short_total(24, 3) == 46 && n_check(24, 3) == 30 && capacity(24, 3) == 15) by (compute_only); }
pub proof fn lemma_iso_25()
    ensures n_blocks(25, 0) == 12 && n_long(25, 0) == 4 && short_total(25, 0) == 132 && n_check(25, 0) == 26 && capacity(25, 0) == 13,
        n_blocks(25, 1) == 21 && n_long(25, 1) == 13 && short_total(25, 1) == 75 && n_check(25, 1) == 28 && capacity(25, 1) == 14,
        n_blocks(25, 2) == 29 && n_long(25, 2) == 22 && short_total(25, 2) == 54 && n_check(25, 2) == 30 && capacity(25, 2) == 15,
        n_blocks(25, 3) == 35 && n_long(25, 3) == 13 && short_total(25, 3) == 45 && n_check(25, 3) == 30 && capacity(25, 3) == 15,
{ assert(n_blocks(25, 0) == 12 && n_long(25, 0) == 4 && short_total(25, 0) == 132 && n_check(25, 0) == 26 && capacity(25, 0) == 13) by (compute_only); assert(n_blocks(25, 1) == 21 && n_long(25, 1) == 13 && short_total(25, 1) == 75 && n_check(25, 1) == 28 && capacity(25, 1) == 14) by (compute_only); assert(n_blocks(25, 2) == 29 && n_long(25, 2) == 22 && short_total(25, 2) == 54 && n_check(25, 2) == 30 && capacity(25, 2) == 15) by (compute_only); assert(n_blocks(25, 3) == 35 && n_long(25, 3) == 13 && short_total(25, 3) == 45 && n_check(25, 3) == 30 && capacity(25, 3) == 15) by (compute_only); }
pub proof fn lemma_iso_26()
    ensures n_blocks(26, 0) == 12 && n_long(26, 0) == 2 && short_total(26, 0) == 142 && n_check(26, 0) == 28 && capacity(26, 0) == 14,
        n_blocks(26, 1) == 23 && n_long(26, 1) == 4 && short_total(26, 1) == 74 && n_check(26, 1) == 28 && capacity(26, 1) == 14,
        n_blocks(26, 2) == 34 && n_long(26, 2) == 6 && short_total(26, 2) == 50 && n_check(26, 2) == 28 && capacity(26, 2) == 14,
        n_blocks(26, 3) == 37 && n_long(26, 3) == 4 && short_total(26, 3) == 46 && n_check(26, 3) == 30 && capacity(26, 3) == 15,
{ assert(n_blocks(26, 0) == 12 && n_long(26, 0) == 2 && short_total(26, 0) == 142 && n_check(26, 0) == 28 && capacity(26, 0) == 14) by (compute_only); assert(n_blocks(26, 1) == 23 && n_long(26, 1) == 4 && short_total(26, 1) == 74 && n_check(26, 1) == 28 && capacity(26, 1) == 14) by (compute_only); assert(n_blocks(26, 2) == 34 && n_long(26, 2) == 6 && short_total(26, 2) == 50 && n_check(26, 2) == 28 && capacity(26, 2) == 14) by (compute_only); assert(n_blocks(26, 3) == 37 && n_long(26, 3) == 4 && short_total(26, 3) == 46 && n_check(26, 3) == 30 && capacity(26, 3) == 15) by (compute_only); }
pub proof fn lemma_iso_27()
    ensures n_blocks(27, 0) == 12 && n_long(27, 0) == 4 && short_total(27, 0) == 152 && n_check(27, 0) == 30 && capacity(27, 0) == 15,
        n_blocks(27, 1) == 25 && n_long(27, 1) == 3 && short_total(27, 1) == 73 && n_check(27, 1) == 28 && capacity(27, 1) == 14,
        n_blocks(27, 2) == 34 && n_long(27, 2) == 26 && short_total(27, 2) == 53 && n_check(27, 2) == 30 && capacity(27, 2) == 15,
        n_blocks(27, 3) == 40 && n_long(27, 3) == 28 && short_total(27, 3) == 45 && n_check(27, 3) == 30 && capacity(27, 3) == 15,
{ assert(n_blocks(27, 0) == 12 && n_long(27, 0) == 4 && short_total(27, 0) == 152 && n_check(27, 0) == 30 && capacity(27, 0) == 15) by (compute_only); assert(n_blocks(27, 1) == 25 && n_long(27, 1) == 3 && short_total(27, 1) == 73 && n_check(27, 1) == 28 && capacity(27, 1) == 14) by (compute_only); assert(n_blocks(27, 2) == 34 && n_long(27, 2) == 26 && short_total(27, 2) == 53 && n_check(27, 2) == 30 && capacity(27, 2) == 15) by (compute_only); assert(n_blocks(27, 3) == 40 && n_long(27, 3) == 28 && short_total(27, 3) == 45 && n_check(27, 3) == 30 && capacity(27, 3) == 15) by (compute_only); }
pub proof fn lemma_iso_28()
    ensures n_blocks(28, 0) == 13 && n_long(28, 0) == 10 && short_total(28, 0) == 147 && n_check(28, 0) == 30 && capacity(28, 0) == 15,
        n_blocks(28, 1) == 26 && n_long(28, 1) == 23 && short_total(28, 1) == 73 && n_check(28, 1) == 28 && capacity(28, 1) == 14,
        n_blocks(28, 2) == 35 && n_long(28, 2) == 31 && short_total(28, 2) == 54 && n_check(28, 2) == 30 && capacity(28, 2) == 15,
        n_blocks(28, 3) == 42 && n_long(28, 3) == 31 && short_total(28, 3) == 45 && n_check(28, 3) == 30 && capacity(28, 3) == 15,
{ assert(n_blocks(28, 0) == 13 && n_long(28, 0) == 10 && short_total(28, 0) == 147 && n_check(28, 0) == 30 && capacity(28, 0) == 15) by (compute_only); assert(n_blocks(28, 1) == 26 && n_long(28, 1) == 23 && short_total(28, 1) == 73 && n_check(28, 1) == 28 && capacity(28, 1) == 14) by (compute_only); assert(n_blocks(28, 2) == 35 && n_long(28, 2) == 31 && short_total(28, 2) == 54 && n_check(28, 2) == 30 && capacity(28, 2) == 15) by (compute_only); assert(n_blocks(28, 3) == 42 && n_long(28, 3) == 31 && short_total(28, 3) == 45 && n_check(28, 3) == 30 && capacity(28, 3) == 15) by (compute_only); }
pub proof fn lemma_iso_29()
    ensures n_blocks(29, 0) == 14 && n_long(29, 0) == 7 && short_total(29, 0) == 146 && n_check(29, 0) == 30 && capacity(29, 0) == 15,
        n_blocks(29, 1) == 28 && n_long(29, 1) == 7 && short_total(29, 1) == 73 && n_check(29, 1) == 28 && capacity(29, 1) == 14,
        n_blocks(29, 2) == 38 && n_long(29, 2) == 37 && short_total(29, 2) == 53 && n_check(29, 2) == 30 && capacity(29, 2) == 15,
        n_blocks(29, 3) == 45 && n_long(29, 3) == 26 && short_total(29, 3) == 45 && n_check(29, 3) == 30 && capacity(29, 3) == 15,
{ assert(n_blocks(29, 0) == 14 && n_long(29, 0) == 7 && short_total(29, 0) == 146 && n_check(29, 0) == 30 && capacity(29, 0) == 15) by (compute_only); assert(n_blocks(29, 1) == 28 && n_long(29, 1) == 7 && short_total(29, 1) == 73 && n_check(29, 1) == 28 && capacity(29, 1) == 14) by (compute_only); assert(n_blocks(29, 2) == 38 && n_long(29, 2) == 37 && short_total(29, 2) == 53 && n_check(29, 2) == 30 && capacity(29, 2) == 15) by (compute_only); assert(n_blocks(29, 3) == 45 && n_long(29, 3) == 26 && short_total(29, 3) == 45 && n_check(29, 3) == 30 && capacity(29, 3) == 15) by (compute_only); }
pub proof fn lemma_iso_30()
    ensures n_blocks(30, 0) == 15 && n_long(30, 0) == 10 && short_total(30, 0) == 145 && n_check(30, 0) == 30 && capacity(30, 0) == 15,
        n_blocks(30, 1) == 29 && n_long(30, 1) == 10 && short_total(30, 1) == 75 && n_check(30, 1) == 28 && capacity(30, 1) == 14,
        n_blocks(30, 2) == 40 && n_long(30, 2) == 25 && short_total(30, 2) == 54 && n_check(30, 2) == 30 && capacity(30, 2) == 15,
        n_blocks(30, 3) == 48 && n_long(30, 3) == 25 && short_total(30, 3) == 45 && n_check(30, 3) == 30 && capacity(30, 3) == 15,
{ assert(n_blocks(30, 0) == 15 && n_long(30, 0) == 10 && short_total(30, 0) == 145 && n_check(30, 0) == 30 && capacity(30, 0) == 15) by (compute_only); assert(n_blocks(30, 1) == 29 && n_long(30, 1) == 10 && short_total(30, 1) == 75 && n_check(30, 1) == 28 && capacity(30, 1) == 14) by (compute_only); assert(n_blocks(30, 2) == 40 && n_long(30, 2) == 25 && short_total(30, 2) == 54 && n_check(30, 2) == 30 && capacity(30, 2) == 15) by (compute_only); assert(n_blocks(30, 3) == 48 && n_long(30, 3) == 25 && short_total(30, 3) == 45 && n_check(30, 3) == 30 && capacity(30, 3) == 15) by (compute_only); }
pub proof fn lemma_iso_31()
    ensures n_blocks(31, 0) == 16 && n_long(31, 0) == 3 && short_total(31, 0) == 145 && n_check(31, 0) == 30 && capacity(31, 0) == 15,
        n_blocks(31, 1) == 31 && n_long(31, 1) == 29 && short_total(31, 1) == 74 && n_check(31, 1) == 28 && capacity(31, 1) == 14,
        n_blocks(31, 2) == 43 && n_long(31, 2) == 1 && short_total(31, 2) == 54 && n_check(31, 2) == 30 && capacity(31, 2) == 15,
        n_blocks(31, 3) == 51 && n_long(31, 3) == 28 && short_total(31, 3) == 45 && n_check(31, 3) == 30 && capacity(31, 3) == 15,
{ assert(n_blocks(31, 0) == 16 && n_long(31, 0) == 3 && short_total(31, 0) == 145 && n_check(31, 0) == 30 && capacity(31, 0) == 15) by (compute_only); assert(n_blocks(31, 1) == 31 && n_long(31, 1) == 29 && short_total(31, 1) == 74 && n_check(31, 1) == 28 && capacity(31, 1) == 14) by (compute_only); assert(n_blocks(31, 2) == 43 && n_long(31, 2) == 1 && short_total(31, 2) == 54 && n_check(31, 2) == 30 && capacity(31, 2) == 15) by (compute_only); assert(n_blocks(31, 3) == 51 && n_long(31, 3) == 28 && short_total(31, 3) == 45 && n_check(31, 3) == 30 && capacity(31, 3) == 15) by (compute_only); }
pub proof fn lemma_iso_32()
    ensures n_blocks(32, 0) == 17 && n_long(32, 0) == 0 && short_total(32, 0) == 145 && n_check(32, 0) == 30 && capacity(32, 0) == 15,
        n_blocks(32, 1) == 33 && n_long(32, 1) == 23 && short_total(32, 1) == 74 && n_check(32, 1) == 28 && capacity(32, 1) == 14,
        n_blocks(32, 2) == 45 && n_long(32, 2) == 35 && short_total(32, 2) == 54 && n_check(32, 2) == 30 && capacity(32, 2) == 15,
        n_blocks(32, 3) == 54 && n_long(32, 3) == 35 && short_total(32, 3) == 45 && n_check(32, 3) == 30 && capacity(32, 3) == 15,
{ assert(n_blocks(32, 0) == 17 && n_long(32, 0) == 0 && short_total(32, 0) == 145 && n_check(32, 0) == 30 && capacity(32, 0) == 15) by (compute_only); assert(n_blocks(32, 1) == 33 && n_long(32, 1) == 23 && short_total(32, 1) == 74 && n_check(32, 1) == 28 && capacity(32, 1) == 14) by (compute_only); assert(n_blocks(32, 2) == 45 && n_long(32, 2) == 35 && short_total(32, 2) == 54 && n_check(32, 2) == 30 && capacity(32, 2) == 15) by (compute_only); assert(n_blocks(32, 3) == 54 && n_long(32, 3) == 35 && short_total(32, 3) == 45 && n_check(32, 3) == 30 && capacity(32, 3) == 15) by (compute_only); }
pub proof fn lemma_iso_33()
    ensures n_blocks(33, 0) == 18 && n_long(33, 0) == 1 && short_total(33, 0) == 145 && n_check(33, 0) == 30 && capacity(33, 0) == 15,
        n_blocks(33, 1) == 35 && n_long(33, 1) == 21 && short_total(33, 1) == 74 && n_check(33, 1) == 28 && capacity(33, 1) == 14,
        n_blocks(33, 2) == 48 && n_long(33, 2) == 19 && short_total(33, 2) == 54 && n_check(33, 2) == 30 && capacity(33, 2) == 15,
        n_blocks(33, 3) == 57 && n_long(33, 3) == 46 && short_total(33, 3) == 45 && n_check(33, 3) == 30 && capacity(33, 3) == 15,
{ assert(n_blocks(33, 0) == 18 && n_long(33, 0) == 1 && short_total(33, 0) == 145 && n_check(33, 0) == 30 && capacity(33, 0) == 15) by (compute_only); assert(n_blocks(33, 1) == 35 && n_long(33, 1) == 21 && short_total(33, 1) == 74 && n_check(33, 1) == 28 && capacity(33, 1) == 14) by (compute_only); assert(n_blocks(33, 2) == 48 && n_long(33, 2) == 19 && short_total(33, 2) == 54 && n_check(33, 2) == 30 && capacity(33, 2) == 15) by (compute_only); assert(n_blocks(33, 3) == 57 && n_long(33, 3) == 46 && short_total(33, 3) == 45 && n_check(33, 3) == 30 && capacity(33, 3) == 15) by (compute_only); }
pub proof fn lemma_iso_34()
    ensures n_blocks(34, 0) == 19 && n_long(34, 0) == 6 && short_total(34, 0) == 145 && n_check(34, 0) == 30 && capacity(34, 0) == 15,
        n_blocks(34, 1) == 37 && n_long(34, 1) == 23 && short_total(34, 1) == 74 && n_check(34, 1) == 28 && capacity(34, 1) == 14,
        n_blocks(34, 2) == 51 && n_long(34, 2) == 7 && short_total(34, 2) == 54 && n_check(34, 2) == 30 && capacity(34, 2) == 15,
        n_blocks(34, 3) == 60 && n_long(34, 3) == 1 && short_total(34, 3) == 46 && n_check(34, 3) == 30 && capacity(34, 3) == 15,
{ assert(n_blocks(34, 0) == 19 && n_long(34, 0) == 6 && short_total(34, 0) == 145 && n_check(34, 0) == 30 && capacity(34, 0) == 15) by (compute_only); assert(n_blocks(34, 1) == 37 && n_long(34, 1) == 23 && short_total(34, 1) == 74 && n_check(34, 1) == 28 && capacity(34, 1) == 14) by (compute_only); assert(n_blocks(34, 2) == 51 && n_long(34, 2) == 7 && short_total(34, 2) == 54 && n_check(34, 2) == 30 && capacity(34, 2) == 15) by (compute_only); assert(n_blocks(34, 3) == 60 && n_long(34, 3) == 1 && short_total(34, 3) == 46 && n_check(34, 3) == 30 && capacity(34, 3) == 15) by (compute_only); }
pub proof fn lemma_iso_35()
    ensures n_blocks(35, 0) == 19 && n_long(35, 0) == 7 && short_total(35, 0) == 151 && n_check(35, 0) == 30 && capacity(35, 0) == 15,
        n_blocks(35, 1) == 38 && n_long(35, 1) == 26 && short_total(35, 1) == 75 && n_check(35, 1) == 28 && capacity(35, 1) == 14,
        n_blocks(35, 2) == 53 && n_long(35, 2) == 14 && short_total(35, 2) == 54 && n_check(35, 2) == 30 && capacity(35, 2) == 15,
        n_blocks(35, 3) == 63 && n_long(35, 3) == 41 && short_total(35, 3) == 45 && n_check(35, 3) == 30 && capacity(35, 3) == 15,
{ assert(n_blocks(35, 0) == 19 && n_long(35, 0) == 7 && short_total(35, 0) == 151 && n_check(35, 0) == 30 && capacity(35, 0) == 15) by (compute_only); assert(n_blocks(35, 1) == 38 && n_long(35, 1) == 26 && short_total(35, 1) == 75 && n_check(35, 1) == 28 && capacity(35, 1) == 14) by (compute_only); assert(n_blocks(35, 2) == 53 && n_long(35, 2) == 14 && short_total(35, 2) == 54 && n_check(35, 2) == 30 && capacity(35, 2) == 15) by (compute_only); assert(n_blocks(35, 3) == 63 && n_long(35, 3) == 41 && short_total(35, 3) == 45 && n_check(35, 3) == 30 && capacity(35, 3) == 15) by (compute_only); }
pub proof fn lemma_iso_36()
    ensures n_blocks(36, 0) == 20 && n_long(36, 0) == 14 && short_total(36, 0) == 151 && n_check(36, 0) == 30 && capacity(36, 0) == 15,
        n_blocks(36, 1) == 40 && n_long(36, 1) == 34 && short_total(36, 1) == 75 && n_check(36, 1) == 28 && capacity(36, 1) == 14,
        n_blocks(36, 2) == 56 && n_long(36, 2) == 10 && short_total(36, 2) == 54 && n_check(36, 2) == 30 && capacity(36, 2) == 15,
        n_blocks(36, 3) == 66 && n_long(36, 3) == 64 && short_total(36, 3) == 45 && n_check(36, 3) == 30 && capacity(36, 3) == 15,
{ assert(n_blocks(36, 0) == 20 && n_long(36, 0) == 14 && short_total(36, 0) == 151 && n_check(36, 0) == 30 && capacity(36, 0) == 15) by (compute_only); assert(n_blocks(36, 1) == 40 && n_long(36, 1) == 34 && short_total(36, 1) == 75 && n_check(36, 1) == 28 && capacity(36, 1) == 14) by (compute_only); assert(n_blocks(36, 2) == 56 && n_long(36, 2) == 10 && short_total(36, 2) == 54 && n_check(36, 2) == 30 && capacity(36, 2) == 15) by (compute_only); assert(n_blocks(36, 3) == 66 && n_long(36, 3) == 64 && short_total(36, 3) == 45 && n_check(36, 3) == 30 && capacity(36, 3) == 15) by (compute_only); }
pub proof fn lemma_iso_37()
    ensures n_blocks(37, 0) == 21 && n_long(37, 0) == 4 && short_total(37, 0) == 152 && n_check(37, 0) == 30 && capacity(37, 0) == 15,
        n_blocks(37, 1) == 43 && n_long(37, 1) == 14 && short_total(37, 1) == 74 && n_check(37, 1) == 28 && capacity(37, 1) == 14,
        n_blocks(37, 2) == 59 && n_long(37, 2) == 10 && short_total(37, 2) == 54 && n_check(37, 2) == 30 && capacity(37, 2) == 15,
        n_blocks(37, 3) == 70 && n_long(37, 3) == 46 && short_total(37, 3) == 45 && n_check(37, 3) == 30 && capacity(37, 3) == 15,
{ assert(n_blocks(37, 0) == 21 && n_long(37, 0) == 4 && short_total(37, 0) == 152 && n_check(37, 0) == 30 && capacity(37, 0) == 15) by (compute_only); assert(n_blocks(37, 1) == 43 && n_long(37, 1) == 14 && short_total(37, 1) == 74 && n_check(37, 1) == 28 && capacity(37, 1) == 14) by (compute_only); assert(n_blocks(37, 2) == 59 && n_long(37, 2) == 10 && short_total(37, 2) == 54 && n_check(37, 2) == 30 && capacity(37, 2) == 15) by (compute_only); assert(n_blocks(37, 3) == 70 && n_long(37, 3) == 46 && short_total(37, 3) == 45 && n_check(37, 3) == 30 && capacity(37, 3) == 15) by (compute_only); }
pub proof fn lemma_iso_38()
    ensures n_blocks(38, 0) == 22 && n_long(38, 0) == 18 && short_total(38, 0) == 152 && n_check(38, 0) == 30 && capacity(38, 0) == 15,
        n_blocks(38, 1) == 45 && n_long(38, 1) == 32 && short_total(38, 1) == 74 && n_check(38, 1) == 28 && capacity(38, 1) == 14,
        n_blocks(38, 2) == 62 && n_long(38, 2) == 14 && short_total(38, 2) == 54 && n_check(38, 2) == 30 && capacity(38, 2) == 15,
        n_blocks(38, 3) == 74 && n_long(38, 3) == 32 && short_total(38, 3) == 45 && n_check(38, 3) == 30 && capacity(38, 3) == 15,
{ assert(n_blocks(38, 0) == 22 && n_long(38, 0) == 18 && short_total(38, 0) == 152 && n_check(38, 0) == 30 && capacity(38, 0) == 15) by (compute_only); assert(n_blocks(38, 1) == 45 && n_long(38, 1) == 32 && short_total(38, 1) == 74 && n_check(38, 1) == 28 && capacity(38, 1) == 14) by (compute_only); assert(n_blocks(38, 2) == 62 && n_long(38, 2) == 14 && short_total(38, 2) == 54 && n_check(38, 2) == 30 && capacity(38, 2) == 15) by (compute_only); assert(n_blocks(38, 3) == 74 && n_long(38, 3) == 32 && short_total(38, 3) == 45 && n_check(38, 3) == 30 && capacity(38, 3) == 15) by (compute_only); }
pub proof fn lemma_iso_39()
    ensures n_blocks(39, 0) == 24 && n_long(39, 0) == 4 && short_total(39, 0) == 147 && n_check(39, 0) == 30 && capacity(39, 0) == 15,
        n_blocks(39, 1) == 47 && n_long(39, 1) == 7 && short_total(39, 1) == 75 && n_check(39, 1) == 28 && capacity(39, 1) == 14,
        n_blocks(39, 2) == 65 && n_long(39, 2) == 22 && short_total(39, 2) == 54 && n_check(39, 2) == 30 && capacity(39, 2) == 15,
        n_blocks(39, 3) == 77 && n_long(39, 3) == 67 && short_total(39, 3) == 45 && n_check(39, 3) == 30 && capacity(39, 3) == 15,
{ assert(n_blocks(39, 0) == 24 && n_long(39, 0) == 4 && short_total(39, 0) == 147 && n_check(39, 0) == 30 && capacity(39, 0) == 15) by (compute_only); assert(n_blocks(39, 1) == 47 && n_long(39, 1) == 7 && short_total(39, 1) == 75 && n_check(39, 1) == 28 && capacity(39, 1) == 14) by (compute_only); assert(n_blocks(39, 2) == 65 && n_long(39, 2) == 22 && short_total(39, 2) == 54 && n_check(39, 2) == 30 && capacity(39, 2) == 15) by (compute_only); assert(n_blocks(39, 3) == 77 && n_long(39, 3) == 67 && short_total(39, 3) == 45 && n_check(39, 3) == 30 && capacity(39, 3) == 15) by (compute_only); }
pub proof fn lemma_iso_40()
    ensures n_blocks(40, 0) == 25 && n_long(40, 0) == 6 && short_total(40, 0) == 148 && n_check(40, 0) == 30 && capacity(40, 0) == 15,
        n_blocks(40, 1) == 49 && n_long(40, 1) == 31 && short_total(40, 1) == 75 && n_check(40, 1) == 28 && capacity(40, 1) == 14,
        n_blocks(40, 2) == 68 && n_long(40, 2) == 34 && short_total(40, 2) == 54 && n_check(40, 2) == 30 && capacity(40, 2) == 15,
        n_blocks(40, 3) == 81 && n_long(40, 3) == 61 && short_total(40, 3) == 45 && n_check(40, 3) == 30 && capacity(40, 3) == 15,
{ assert(n_blocks(40, 0) == 25 && n_long(40, 0) == 6 && short_total(40, 0) == 148 && n_check(40, 0) == 30 && capacity(40, 0) == 15) by (compute_only); assert(n_blocks(40, 1) == 49 && n_long(40, 1) == 31 && short_total(40, 1) == 75 && n_check(40, 1) == 28 && capacity(40, 1) == 14) by (compute_only); assert(n_blocks(40, 2) == 68 && n_long(40, 2) == 34 && short_total(40, 2) == 54 && n_check(40, 2) == 30 && capacity(40, 2) == 15) by (compute_only); assert(n_blocks(40, 3) == 81 && n_long(40, 3) == 61 && short_total(40, 3) == 45 && n_check(40, 3) == 30 && capacity(40, 3) == 15) by (compute_only); }
pub proof fn lemma_iso()
    ensures n_blocks(1, 0) == 1 && n_long(1, 0) == 0 && short_total(1, 0) == 26 && n_check(1, 0) == 7 && capacity(1, 0) == 2,
        n_blocks(1, 1) == 1 && n_long(1, 1) == 0 && short_total(1, 1) == 26 && n_check(1, 1) == 10 && capacity(1, 1) == 4,
        n_blocks(1, 2) == 1 && n_long(1, 2) == 0 && short_total(1, 2) == 26 && n_check(1, 2) == 13 && capacity(1, 2) == 6,
        n_blocks(1, 3) == 1 && n_long(1, 3) == 0 && short_total(1, 3) == 26 && n_check(1, 3) == 17 && capacity(1, 3) == 8,
        n_blocks(2, 0) == 1 && n_long(2, 0) == 0 && short_total(2, 0) == 44 && n_check(2, 0) == 10 && capacity(2, 0) == 4,
        n_blocks(2, 1) == 1 && n_long(2, 1) == 0 && short_total(2, 1) == 44 && n_check(2, 1) == 16 && capacity(2, 1) == 8,
        n_blocks(2, 2) == 1 && n_long(2, 2) == 0 && short_total(2, 2) == 44 && n_check(2, 2) == 22 && capacity(2, 2) == 11,
        n_blocks(2, 3) == 1 && n_long(2, 3) == 0 && short_total(2, 3) == 44 && n_check(2, 3) == 28 && capacity(2, 3) == 14,
        n_blocks(3, 0) == 1 && n_long(3, 0) == 0 && short_total(3, 0) == 70 && n_check(3, 0) == 15 && capacity(3, 0) == 7,
        n_blocks(3, 1) == 1 && n_long(3, 1) == 0 && short_total(3, 1) == 70 && n_check(3, 1) == 26 && capacity(3, 1) == 13,
        n_blocks(3, 2) == 2 && n_long(3, 2) == 0 && short_total(3, 2) == 35 && n_check(3, 2) == 18 && capacity(3, 2) == 9,
        n_blocks(3, 3) == 2 && n_long(3, 3) == 0 && short_total(3, 3) == 35 && n_check(3, 3) == 22 && capacity(3, 3) == 11,
        n_blocks(4, 0) == 1 && n_long(4, 0) == 0 && short_total(4, 0) == 100 && n_check(4, 0) == 20 && capacity(4, 0) == 10,
        n_blocks(4, 1) == 2 && n_long(4, 1) == 0 && short_total(4, 1) == 50 && n_check(4, 1) == 18 && capacity(4, 1) == 9,
        n_blocks(4, 2) == 2 && n_long(4, 2) == 0 && short_total(4, 2) == 50 && n_check(4, 2) == 26 && capacity(4, 2) == 13,
        n_blocks(4, 3) == 4 && n_long(4, 3) == 0 && short_total(4, 3) == 25 && n_check(4, 3) == 16 && capacity(4, 3) == 8,
        n_blocks(5, 0) == 1 && n_long(5, 0) == 0 && short_total(5, 0) == 134 && n_check(5, 0) == 26 && capacity(5, 0) == 13,
        n_blocks(5, 1) == 2 && n_long(5, 1) == 0 && short_total(5, 1) == 67 && n_check(5, 1) == 24 && capacity(5, 1) == 12,
        n_blocks(5, 2) == 4 && n_long(5, 2) == 2 && short_total(5, 2) == 33 && n_check(5, 2) == 18 && capacity(5, 2) == 9,
        n_blocks(5, 3) == 4 && n_long(5, 3) == 2 && short_total(5, 3) == 33 && n_check(5, 3) == 22 && capacity(5, 3) == 11,
        n_blocks(6, 0) == 2 && n_long(6, 0) == 0 && short_total(6, 0) == 86 && n_check(6, 0) == 18 && capacity(6, 0) == 9,
        n_blocks(6, 1) == 4 && n_long(6, 1) == 0 && short_total(6, 1) == 43 && n_check(6, 1) == 16 && capacity(6, 1) == 8,
        n_blocks(6, 2) == 4 && n_long(6, 2) == 0 && short_total(6, 2) == 43 && n_check(6, 2) == 24 && capacity(6, 2) == 12,
        n_blocks(6, 3) == 4 && n_long(6, 3) == 0 && short_total(6, 3) == 43 && n_check(6, 3) == 28 && capacity(6, 3) == 14,
        n_blocks(7, 0) == 2 && n_long(7, 0) == 0 && short_total(7, 0) == 98 && n_check(7, 0) == 20 && capacity(7, 0) == 10,
        n_blocks(7, 1) == 4 && n_long(7, 1) == 0 && short_total(7, 1) == 49 && n_check(7, 1) == 18 && capacity(7, 1) == 9,
        n_blocks(7, 2) == 6 && n_long(7, 2) == 4 && short_total(7, 2) == 32 && n_check(7, 2) == 18 && capacity(7, 2) == 9,
        n_blocks(7, 3) == 5 && n_long(7, 3) == 1 && short_total(7, 3) == 39 && n_check(7, 3) == 26 && capacity(7, 3) == 13,
        n_blocks(8, 0) == 2 && n_long(8, 0) == 0 && short_total(8, 0) == 121 && n_check(8, 0) == 24 && capacity(8, 0) == 12,
        n_blocks(8, 1) == 4 && n_long(8, 1) == 2 && short_total(8, 1) == 60 && n_check(8, 1) == 22 && capacity(8, 1) == 11,
        n_blocks(8, 2) == 6 && n_long(8, 2) == 2 && short_total(8, 2) == 40 && n_check(8, 2) == 22 && capacity(8, 2) == 11,
        n_blocks(8, 3) == 6 && n_long(8, 3) == 2 && short_total(8, 3) == 40 && n_check(8, 3) == 26 && capacity(8, 3) == 13,
        n_blocks(9, 0) == 2 && n_long(9, 0) == 0 && short_total(9, 0) == 146 && n_check(9, 0) == 30 && capacity(9, 0) == 15,
        n_blocks(9, 1) == 5 && n_long(9, 1) == 2 && short_total(9, 1) == 58 && n_check(9, 1) == 22 && capacity(9, 1) == 11,
        n_blocks(9, 2) == 8 && n_long(9, 2) == 4 && short_total(9, 2) == 36 && n_check(9, 2) == 20 && capacity(9, 2) == 10,
        n_blocks(9, 3) == 8 && n_long(9, 3) == 4 && short_total(9, 3) == 36 && n_check(9, 3) == 24 && capacity(9, 3) == 12,
        n_blocks(10, 0) == 4 && n_long(10, 0) == 2 && short_total(10, 0) == 86 && n_check(10, 0) == 18 && capacity(10, 0) == 9,
        n_blocks(10, 1) == 5 && n_long(10, 1) == 1 && short_total(10, 1) == 69 && n_check(10, 1) == 26 && capacity(10, 1) == 13,
        n_blocks(10, 2) == 8 && n_long(10, 2) == 2 && short_total(10, 2) == 43 && n_check(10, 2) == 24 && capacity(10, 2) == 12,
        n_blocks(10, 3) == 8 && n_long(10, 3) == 2 && short_total(10, 3) == 43 && n_check(10, 3) == 28 && capacity(10, 3) == 14,
        n_blocks(11, 0) == 4 && n_long(11, 0) == 0 && short_total(11, 0) == 101 && n_check(11, 0) == 20 && capacity(11, 0) == 10,
        n_blocks(11, 1) == 5 && n_long(11, 1) == 4 && short_total(11, 1) == 80 && n_check(11, 1) == 30 && capacity(11, 1) == 15,
        n_blocks(11, 2) == 8 && n_long(11, 2) == 4 && short_total(11, 2) == 50 && n_check(11, 2) == 28 && capacity(11, 2) == 14,
        n_blocks(11, 3) == 11 && n_long(11, 3) == 8 && short_total(11, 3) == 36 && n_check(11, 3) == 24 && capacity(11, 3) == 12,
        n_blocks(12, 0) == 4 && n_long(12, 0) == 2 && short_total(12, 0) == 116 && n_check(12, 0) == 24 && capacity(12, 0) == 12,
        n_blocks(12, 1) == 8 && n_long(12, 1) == 2 && short_total(12, 1) == 58 && n_check(12, 1) == 22 && capacity(12, 1) == 11,
        n_blocks(12, 2) == 10 && n_long(12, 2) == 6 && short_total(12, 2) == 46 && n_check(12, 2) == 26 && capacity(12, 2) == 13,
        n_blocks(12, 3) == 11 && n_long(12, 3) == 4 && short_total(12, 3) == 42 && n_check(12, 3) == 28 && capacity(12, 3) == 14,
        n_blocks(13, 0) == 4 && n_long(13, 0) == 0 && short_total(13, 0) == 133 && n_check(13, 0) == 26 && capacity(13, 0) == 13,
        n_blocks(13, 1) == 9 && n_long(13, 1) == 1 && short_total(13, 1) == 59 && n_check(13, 1) == 22 && capacity(13, 1) == 11,
        n_blocks(13, 2) == 12 && n_long(13, 2) == 4 && short_total(13, 2) == 44 && n_check(13, 2) == 24 && capacity(13, 2) == 12,
        n_blocks(13, 3) == 16 && n_long(13, 3) == 4 && short_total(13, 3) == 33 && n_check(13, 3) == 22 && capacity(13, 3) == 11,
        n_blocks(14, 0) == 4 && n_long(14, 0) == 1 && short_total(14, 0) == 145 && n_check(14, 0) == 30 && capacity(14, 0) == 15,
        n_blocks(14, 1) == 9 && n_long(14, 1) == 5 && short_total(14, 1) == 64 && n_check(14, 1) == 24 && capacity(14, 1) == 12,
        n_blocks(14, 2) == 16 && n_long(14, 2) == 5 && short_total(14, 2) == 36 && n_check(14, 2) == 20 && capacity(14, 2) == 10,
        n_blocks(14, 3) == 16 && n_long(14, 3) == 5 && short_total(14, 3) == 36 && n_check(14, 3) == 24 && capacity(14, 3) == 12,
        n_blocks(15, 0) == 6 && n_long(15, 0) == 1 && short_total(15, 0) == 109 && n_check(15, 0) == 22 && capacity(15, 0) == 11,
        n_blocks(15, 1) == 10 && n_long(15, 1) == 5 && short_total(15, 1) == 65 && n_check(15, 1) == 24 && capacity(15, 1) == 12,
        n_blocks(15, 2) == 12 && n_long(15, 2) == 7 && short_total(15, 2) == 54 && n_check(15, 2) == 30 && capacity(15, 2) == 15,
        n_blocks(15, 3) == 18 && n_long(15, 3) == 7 && short_total(15, 3) == 36 && n_check(15, 3) == 24 && capacity(15, 3) == 12,
        n_blocks(16, 0) == 6 && n_long(16, 0) == 1 && short_total(16, 0) == 122 && n_check(16, 0) == 24 && capacity(16, 0) == 12,
        n_blocks(16, 1) == 10 && n_long(16, 1) == 3 && short_total(16, 1) == 73 && n_check(16, 1) == 28 && capacity(16, 1) == 14,
        n_blocks(16, 2) == 17 && n_long(16, 2) == 2 && short_total(16, 2) == 43 && n_check(16, 2) == 24 && capacity(16, 2) == 12,
        n_blocks(16, 3) == 16 && n_long(16, 3) == 13 && short_total(16, 3) == 45 && n_check(16, 3) == 30 && capacity(16, 3) == 15,
        n_blocks(17, 0) == 6 && n_long(17, 0) == 5 && short_total(17, 0) == 135 && n_check(17, 0) == 28 && capacity(17, 0) == 14,
        n_blocks(17, 1) == 11 && n_long(17, 1) == 1 && short_total(17, 1) == 74 && n_check(17, 1) == 28 && capacity(17, 1) == 14,
        n_blocks(17, 2) == 16 && n_long(17, 2) == 15 && short_total(17, 2) == 50 && n_check(17, 2) == 28 && capacity(17, 2) == 14,
        n_blocks(17, 3) == 19 && n_long(17, 3) == 17 && short_total(17, 3) == 42 && n_check(17, 3) == 28 && capacity(17, 3) == 14,
        n_blocks(18, 0) == 6 && n_long(18, 0) == 1 && short_total(18, 0) == 150 && n_check(18, 0) == 30 && capacity(18, 0) == 15,
        n_blocks(18, 1) == 13 && n_long(18, 1) == 4 && short_total(18, 1) == 69 && n_check(18, 1) == 26 && capacity(18, 1) == 13,
        n_blocks(18, 2) == 18 && n_long(18, 2) == 1 && short_total(18, 2) == 50 && n_check(18, 2) == 28 && capacity(18, 2) == 14,
        n_blocks(18, 3) == 21 && n_long(18, 3) == 19 && short_total(18, 3) == 42 && n_check(18, 3) == 28 && capacity(18, 3) == 14,
        n_blocks(19, 0) == 7 && n_long(19, 0) == 4 && short_total(19, 0) == 141 && n_check(19, 0) == 28 && capacity(19, 0) == 14,
        n_blocks(19, 1) == 14 && n_long(19, 1) == 11 && short_total(19, 1) == 70 && n_check(19, 1) == 26 && capacity(19, 1) == 13,
        n_blocks(19, 2) == 21 && n_long(19, 2) == 4 && short_total(19, 2) == 47 && n_check(19, 2) == 26 && capacity(19, 2) == 13,
        n_blocks(19, 3) == 25 && n_long(19, 3) == 16 && short_total(19, 3) == 39 && n_check(19, 3) == 26 && capacity(19, 3) == 13,
        n_blocks(20, 0) == 8 && n_long(20, 0) == 5 && short_total(20, 0) == 135 && n_check(20, 0) == 28 && capacity(20, 0) == 14,
        n_blocks(20, 1) == 16 && n_long(20, 1) == 13 && short_total(20, 1) == 67 && n_check(20, 1) == 26 && capacity(20, 1) == 13,
        n_blocks(20, 2) == 20 && n_long(20, 2) == 5 && short_total(20, 2) == 54 && n_check(20, 2) == 30 && capacity(20, 2) == 15,
        n_blocks(20, 3) == 25 && n_long(20, 3) == 10 && short_total(20, 3) == 43 && n_check(20, 3) == 28 && capacity(20, 3) == 14,
        n_blocks(21, 0) == 8 && n_long(21, 0) == 4 && short_total(21, 0) == 144 && n_check(21, 0) == 28 && capacity(21, 0) == 14,
        n_blocks(21, 1) == 17 && n_long(21, 1) == 0 && short_total(21, 1) == 68 && n_check(21, 1) == 26 && capacity(21, 1) == 13,
        n_blocks(21, 2) == 23 && n_long(21, 2) == 6 && short_total(21, 2) == 50 && n_check(21, 2) == 28 && capacity(21, 2) == 14,
        n_blocks(21, 3) == 25 && n_long(21, 3) == 6 && short_total(21, 3) == 46 && n_check(21, 3) == 30 && capacity(21, 3) == 15,
        n_blocks(22, 0) == 9 && n_long(22, 0) == 7 && short_total(22, 0) == 139 && n_check(22, 0) == 28 && capacity(22, 0) == 14,
        n_blocks(22, 1) == 17 && n_long(22, 1) == 0 && short_total(22, 1) == 74 && n_check(22, 1) == 28 && capacity(22, 1) == 14,
        n_blocks(22, 2) == 23 && n_long(22, 2) == 16 && short_total(22, 2) == 54 && n_check(22, 2) == 30 && capacity(22, 2) == 15,
        n_blocks(22, 3) == 34 && n_long(22, 3) == 0 && short_total(22, 3) == 37 && n_check(22, 3) == 24 && capacity(22, 3) == 12,
        n_blocks(23, 0) == 9 && n_long(23, 0) == 5 && short_total(23, 0) == 151 && n_check(23, 0) == 30 && capacity(23, 0) == 15,
        n_blocks(23, 1) == 18 && n_long(23, 1) == 14 && short_total(23, 1) == 75 && n_check(23, 1) == 28 && capacity(23, 1) == 14,
        n_blocks(23, 2) == 25 && n_long(23, 2) == 14 && short_total(23, 2) == 54 && n_check(23, 2) == 30 && capacity(23, 2) == 15,
        n_blocks(23, 3) == 30 && n_long(23, 3) == 14 && short_total(23, 3) == 45 && n_check(23, 3) == 30 && capacity(23, 3) == 15,
        n_blocks(24, 0) == 10 && n_long(24, 0) == 4 && short_total(24, 0) == 147 && n_check(24, 0) == 30 && capacity(24, 0) == 15,
        n_blocks(24, 1) == 20 && n_long(24, 1) == 14 && short_total(24, 1) == 73 && n_check(24, 1) == 28 && capacity(24, 1) == 14,
        n_blocks(24, 2) == 27 && n_long(24, 2) == 16 && short_total(24, 2) == 54 && n_check(24, 2) == 30 && capacity(24, 2) == 15,
        n_blocks(24, 3) == 32 && n_long(24, 3) == 2 && short_total(24, 3) == 46 && n_check(24, 3) == 30 && capacity(24, 3) == 15,
        n_blocks(25, 0) == 12 && n_long(25, 0) == 4 && short_total(25, 0) == 132 && n_check(25, 0) == 26 && capacity(25, 0) == 13,
        n_blocks(25, 1) == 21 && n_long(25, 1) == 13 && short_total(25, 1) == 75 && n_check(25, 1) == 28 && capacity(25, 1) == 14,
        n_blocks(25, 2) == 29 && n_long(25, 2) == 22 && short_total(25, 2) == 54 && n_check(25, 2) == 30 && capacity(25, 2) == 15,
        n_blocks(25, 3) == 35 && n_long(25, 3) == 13 && short_total(25, 3) == 45 && n_check(25, 3) == 30 && capacity(25, 3) == 15,
        n_blocks(26, 0) == 12 && n_long(26, 0) == 2 && short_total(26, 0) == 142 && n_check(26, 0) == 28 && capacity(26, 0) == 14,
        n_blocks(26, 1) == 23 && n_long(26, 1) == 4 && short_total(26, 1) == 74 && n_check(26, 1) == 28 && capacity(26, 1) == 14,
        n_blocks(26, 2) == 34 && n_long(26, 2) == 6 && short_total(26, 2) == 50 && n_check(26, 2) == 28 && capacity(26, 2) == 14,
        n_blocks(26, 3) == 37 && n_long(26, 3) == 4 && short_total(26, 3) == 46 && n_check(26, 3) == 30 && capacity(26, 3) == 15,
        n_blocks(27, 0) == 12 && n_long(27, 0) == 4 && short_total(27, 0) == 152 && n_check(27, 0) == 30 && capacity(27, 0) == 15,
        n_blocks(27, 1) == 25 && n_long(27, 1) == 3 && short_total(27, 1) == 73 && n_check(27, 1) == 28 && capacity(27, 1) == 14,
        n_blocks(27, 2) == 34 && n_long(27, 2) == 26 && short_total(27, 2) == 53 && n_check(27, 2) == 30 && capacity(27, 2) == 15,
        n_blocks(27, 3) == 40 && n_long(27, 3) == 28 && short_total(27, 3) == 45 && n_check(27, 3) == 30 && capacity(27, 3) == 15,
        n_blocks(28, 0) == 13 && n_long(28, 0) == 10 && short_total(28, 0) == 147 && n_check(28, 0) == 30 && capacity(28, 0) == 15,
        n_blocks(28, 1) == 26 && n_long(28, 1) == 23 && short_total(28, 1) == 73 && n_check(28, 1) == 28 && capacity(28, 1) == 14,
        n_blocks(28, 2) == 35 && n_long(28, 2) == 31 && short_total(28, 2) == 54 && n_check(28, 2) == 30 && capacity(28, 2) == 15,
        n_blocks(28, 3) == 42 && n_long(28, 3) == 31 && short_total(28, 3) == 45 && n_check(28, 3) == 30 && capacity(28, 3) == 15,
        n_blocks(29, 0) == 14 && n_long(29, 0) == 7 && short_total(29, 0) == 146 && n_check(29, 0) == 30 && capacity(29, 0) == 15,
        n_blocks(29, 1) == 28 && n_long(29, 1) == 7 && short_total(29, 1) == 73 && n_check(29, 1) == 28 && capacity(29, 1) == 14,
        n_blocks(29, 2) == 38 && n_long(29, 2) == 37 && short_total(29, 2) == 53 && n_check(29, 2) == 30 && capacity(29, 2) == 15,
        n_blocks(29, 3) == 45 && n_long(29, 3) == 26 && short_total(29, 3) == 45 && n_check(29, 3) == 30 && capacity(29, 3) == 15,
        n_blocks(30, 0) == 15 && n_long(30, 0) == 10 && short_total(30, 0) == 145 && n_check(30, 0) == 30 && capacity(30, 0) == 15,
        n_blocks(30, 1) == 29 && n_long(30, 1) == 10 && short_total(30, 1) == 75 && n_check(30, 1) == 28 && capacity(30, 1) == 14,
        n_blocks(30, 2) == 40 && n_long(30, 2) == 25 && short_total(30, 2) == 54 && n_check(30, 2) == 30 && capacity(30, 2) == 15,
        n_blocks(30, 3) == 48 && n_long(30, 3) == 25 && short_total(30, 3) == 45 && n_check(30, 3) == 30 && capacity(30, 3) == 15,
        n_blocks(31, 0) == 16 && n_long(31, 0) == 3 && short_total(31, 0) == 145 && n_check(31, 0) == 30 && capacity(31, 0) == 15,
        n_blocks(31, 1) == 31 && n_long(31, 1) == 29 && short_total(31, 1) == 74 && n_check(31, 1) == 28 && capacity(31, 1) == 14,
        n_blocks(31, 2) == 43 && n_long(31, 2) == 1 && short_total(31, 2) == 54 && n_check(31, 2) == 30 && capacity(31, 2) == 15,
        n_blocks(31, 3) == 51 && n_long(31, 3) == 28 && short_total(31, 3) == 45 && n_check(31, 3) == 30 && capacity(31, 3) == 15,
        n_blocks(32, 0) == 17 && n_long(32, 0) == 0 && short_total(32, 0) == 145 && n_check(32, 0) == 30 && capacity(32, 0) == 15,
        n_blocks(32, 1) == 33 && n_long(32, 1) == 23 && short_total(32, 1) == 74 && n_check(32, 1) == 28 && capacity(32, 1) == 14,
        n_blocks(32, 2) == 45 && n_long(32, 2) == 35 && short_total(32, 2) == 54 && n_check(32, 2) == 30 && capacity(32, 2) == 15,
        n_blocks(32, 3) == 54 && n_long(32, 3) == 35 && short_total(32, 3) == 45 && n_check(32, 3) == 30 && capacity(32, 3) == 15,
        n_blocks(33, 0) == 18 && n_long(33, 0) == 1 && short_total(33, 0) == 145 && n_check(33, 0) == 30 && capacity(33, 0) == 15,
        n_blocks(33, 1) == 35 && n_long(33, 1) == 21 && short_total(33, 1) == 74 && n_check(33, 1) == 28 && capacity(33, 1) == 14,
        n_blocks(33, 2) == 48 && n_long(33, 2) == 19 && short_total(33, 2) == 54 && n_check(33, 2) == 30 && capacity(33, 2) == 15,
        n_blocks(33, 3) == 57 && n_long(33, 3) == 46 && short_total(33, 3) == 45 && n_check(33, 3) == 30 && capacity(33, 3) == 15,
        n_blocks(34, 0) == 19 && n_long(34, 0) == 6 && short_total(34, 0) == 145 && n_check(34, 0) == 30 && capacity(34, 0) == 15,
        n_blocks(34, 1) == 37 && n_long(34, 1) == 23 && short_total(34, 1) == 74 && n_check(34, 1) == 28 && capacity(34, 1) == 14,
        n_blocks(34, 2) == 51 && n_long(34, 2) == 7 && short_total(34, 2) == 54 && n_check(34, 2) == 30 && capacity(34, 2) == 15,
        n_blocks(34, 3) == 60 && n_long(34, 3) == 1 && short_total(34, 3) == 46 && n_check(34, 3) == 30 && capacity(34, 3) == 15,
        n_blocks(35, 0) == 19 && n_long(35, 0) == 7 && short_total(35, 0) == 151 && n_check(35, 0) == 30 && capacity(35, 0) == 15,
        n_blocks(35, 1) == 38 && n_long(35, 1) == 26 && short_total(35, 1) == 75 && n_check(35, 1) == 28 && capacity(35, 1) == 14,
        n_blocks(35, 2) == 53 && n_long(35, 2) == 14 && short_total(35, 2) == 54 && n_check(35, 2) == 30 && capacity(35, 2) == 15,
        n_blocks(35, 3) == 63 && n_long(35, 3) == 41 && short_total(35, 3) == 45 && n_check(35, 3) == 30 && capacity(35, 3) == 15,
        n_blocks(36, 0) == 20 && n_long(36, 0) == 14 && short_total(36, 0) == 151 && n_check(36, 0) == 30 && capacity(36, 0) == 15,
        n_blocks(36, 1) == 40 && n_long(36, 1) == 34 && short_total(36, 1) == 75 && n_check(36, 1) == 28 && capacity(36, 1) == 14,
        n_blocks(36, 2) == 56 && n_long(36, 2) == 10 && short_total(36, 2) == 54 && n_check(36, 2) == 30 && capacity(36, 2) == 15,
        n_blocks(36, 3) == 66 && n_long(36, 3) == 64 && short_total(36, 3) == 45 && n_check(36, 3) == 30 && capacity(36, 3) == 15,
        n_blocks(37, 0) == 21 && n_long(37, 0) == 4 && short_total(37, 0) == 152 && n_check(37, 0) == 30 && capacity(37, 0) == 15,
        n_blocks(37, 1) == 43 && n_long(37, 1) == 14 && short_total(37, 1) == 74 && n_check(37, 1) == 28 && capacity(37, 1) == 14,
        n_blocks(37, 2) == 59 && n_long(37, 2) == 10 && short_total(37, 2) == 54 && n_check(37, 2) == 30 && capacity(37, 2) == 15,
        n_blocks(37, 3) == 70 && n_long(37, 3) == 46 && short_total(37, 3) == 45 && n_check(37, 3) == 30 && capacity(37, 3) == 15,
        n_blocks(38, 0) == 22 && n_long(38, 0) == 18 && short_total(38, 0) == 152 && n_check(38, 0) == 30 && capacity(38, 0) == 15,
        n_blocks(38, 1) == 45 && n_long(38, 1) == 32 && short_total(38, 1) == 74 && n_check(38, 1) == 28 && capacity(38, 1) == 14,
        n_blocks(38, 2) == 62 && n_long(38, 2) == 14 && short_total(38, 2) == 54 && n_check(38, 2) == 30 && capacity(38, 2) == 15,
        n_blocks(38, 3) == 74 && n_long(38, 3) == 32 && short_total(38, 3) == 45 && n_check(38, 3) == 30 && capacity(38, 3) == 15,
        n_blocks(39, 0) == 24 && n_long(39, 0) == 4 && short_total(39, 0) == 147 && n_check(39, 0) == 30 && capacity(39, 0) == 15,
        n_blocks(39, 1) == 47 && n_long(39, 1) == 7 && short_total(39, 1) == 75 && n_check(39, 1) == 28 && capacity(39, 1) == 14,
        n_blocks(39, 2) == 65 && n_long(39, 2) == 22 && short_total(39, 2) == 54 && n_check(39, 2) == 30 && capacity(39, 2) == 15,
        n_blocks(39, 3) == 77 && n_long(39, 3) == 67 && short_total(39, 3) == 45 && n_check(39, 3) == 30 && capacity(39, 3) == 15,
        n_blocks(40, 0) == 25 && n_long(40, 0) == 6 && short_total(40, 0) == 148 && n_check(40, 0) == 30 && capacity(40, 0) == 15,
        n_blocks(40, 1) == 49 && n_long(40, 1) == 31 && short_total(40, 1) == 75 && n_check(40, 1) == 28 && capacity(40, 1) == 14,
        n_blocks(40, 2) == 68 && n_long(40, 2) == 34 && short_total(40, 2) == 54 && n_check(40, 2) == 30 && capacity(40, 2) == 15,
        n_blocks(40, 3) == 81 && n_long(40, 3) == 61 && short_total(40, 3) == 45 && n_check(40, 3) == 30 && capacity(40, 3) == 15,
{ lemma_iso_1(); lemma_iso_2(); lemma_iso_3(); lemma_iso_4(); lemma_iso_5(); lemma_iso_6(); lemma_iso_7(); lemma_iso_8(); lemma_iso_9(); lemma_iso_10(); lemma_iso_11(); lemma_iso_12(); lemma_iso_13(); lemma_iso_14(); lemma_iso_15(); lemma_iso_16(); lemma_iso_17(); lemma_iso_18(); lemma_iso_19(); lemma_iso_20(); lemma_iso_21(); lemma_iso_22(); lemma_iso_23(); lemma_iso_24(); lemma_iso_25(); lemma_iso_26(); lemma_iso_27(); lemma_iso_28(); lemma_iso_29(); lemma_iso_30(); lemma_iso_31(); lemma_iso_32(); lemma_iso_33(); lemma_iso_34(); lemma_iso_35(); lemma_iso_36(); lemma_iso_37(); lemma_iso_38(); lemma_iso_39(); lemma_iso_40(); }
}
#end
