use std::cmp;

//@ use crate::lz::*;
use crate::chained_hash_table::{ChainedHashTable, WINDOW_SIZE};

pub const MAX_MATCH: usize = crate::huffman_table::MAX_MATCH as usize;
pub fn get_match_length(data: &[u8], current_pos: usize, pos_to_check: usize) -> /*@ (r: @*/ usize /*@ ) @*/
//@     requires current_pos <= data@.len(), pos_to_check <= data@.len(),
//@     ensures
//@         r <= 258, current_pos + r <= data@.len(), pos_to_check + r <= data@.len(),
//@         forall|i: int| 0 <= i < r ==> #[trigger] data@[current_pos + i] == data@[pos_to_check + i], // [P09]
{

    /*-{*/data[current_pos..]
        .iter()
        .zip(data[pos_to_check..].iter())
        .take(MAX_MATCH)
        .take_while(|&(&a, &b)| a == b)
        .count()/*-}{crate::vx::match_count(data, current_pos, pos_to_check, MAX_MATCH)}*/
}

pub fn longest_match(
    data: &[u8],
    hash_table: &ChainedHashTable,
    position: usize,
    prev_length: usize,
    max_hash_checks: u16,
) -> /*@ (r: @*/ (usize, usize) /*@ ) @*/
//@     requires position + prev_length <= usize::MAX, prev_length >= 1 || position + 1 != data@.len(),
//@     ensures
//@         r == (0usize, 0usize) || (r.0 > prev_length && r.0 >= 2 && is_match(data@, position as int, r.0 as int, r.1 as int)), // [P09]
//@         max_hash_checks == 0 ==> r == (0usize, 0usize), // [P12]
{

    if prev_length >= MAX_MATCH || position + prev_length >= data.len() {
        return (0, 0);
    }

    let limit = if position > WINDOW_SIZE {
        position - WINDOW_SIZE
    } else {
        0
    };

    let prev_length = ({ let __a =prev_length ; let __b = 1 ; if __b >= __a { __b } else { __a } });

    let max_length = ({ let __a =data.len() - position ; let __b = MAX_MATCH ; if __b < __a { __b } else { __a } });

    let mut current_head = position;

    let mut best_length = prev_length;
    let mut best_distance = 0;

    let mut prev_head;

    //@ let ghost pl = prev_length;
    for _ in 0..max_hash_checks
    //@     invariant_except_break current_head <= position, position + best_length < data@.len() && best_length < 258,
    //@     invariant
    //@         limit == (if position > 32768 { position - 32768 } else { 0int }), 1 <= prev_length == pl <= best_length,
    //@         max_length == (if data@.len() - position < 258 { data@.len() - position } else { 258 }), position < data@.len(),
    //@         max_hash_checks == 0 ==> best_length == prev_length,
    //@         best_length == prev_length || is_match(data@, position as int, best_length as int, best_distance as int),
    //@         best_length <= 258, position + best_length <= data@.len(),
    {
        prev_head = current_head;
        current_head = hash_table.get_prev(current_head) as usize;
        if current_head >= prev_head || current_head < limit {

            break;
        }

        if crate::vx::range_eq(&data, position + best_length - 1, position + best_length + 1, &data, current_head + best_length - 1, current_head + best_length + 1)
        {

            let length = get_match_length(data, position, current_head);
            if length > best_length {
                best_length = length;
                best_distance = position - current_head;
                if length == max_length {

                    break;
                }
            }
        }
    }

    if best_length > prev_length {
        (best_length, best_distance)
    } else {
        (0, 0)
    }
}

